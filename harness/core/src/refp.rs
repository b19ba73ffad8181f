//! The reference reader: an independent reading of JVMS chapter 4 (Java SE 21) that decides
//! whether a file must be accepted, must be rejected, or is left open, and describes its contents.

use crate::grammar::{self, FieldDesc};
use crate::mutf8::{self, Decoded};
use crate::node::{self, *};
use crate::refcode;
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub enum Stop {
    /// Must be rejected; the areas (properties) which say so, and why.
    Rej(u32, String),
    /// Left open by the properties.
    Unspec(String),
}
pub type R<T> = Result<T, Stop>;

pub fn rej<T>(area: u32, why: impl Into<String>) -> R<T> {
    Err(Stop::Rej(area, why.into()))
}
pub fn unspec<T>(why: impl Into<String>) -> R<T> {
    Err(Stop::Unspec(why.into()))
}

#[derive(Clone, Debug)]
pub enum Verdict {
    Accept,
    Reject(u32, String),
    /// Whether to accept it is left open, but what an accepting parser reports is not.
    Open(String),
    Unspec(String),
}

thread_local!(static SOFT: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) });

/// Whether to accept the file is left open for this reason; its contents are plain all the same.
fn soft(why: &str) {
    SOFT.with(|s| {
        s.borrow_mut().get_or_insert_with(|| why.to_string());
    });
}
fn soft_take() -> Option<String> {
    SOFT.with(|s| s.borrow_mut().take())
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub attrs: Vec<&'static str>,
    pub other_attrs: usize,
    pub insns: usize,
    pub opcodes_seen: [u64; 4],
    pub jumps: usize,
    pub pool_slots: usize,
    pub pool_kinds: u32,
    pub nonplain_texts: usize,
    pub raw_texts: usize,
    pub fields: usize,
    pub methods: usize,
    pub interfaces: usize,
    pub codes: usize,
    pub annotation_depth: usize,
    pub descriptors: usize,
    pub table_rows: usize,
    pub major: u16,
}

pub struct Ref {
    /// Without looking into code arrays.
    pub verdict: Verdict,
    /// Of the code arrays; meaningful if `verdict` is Accept.
    pub bytecode: Verdict,
    /// Complete if `verdict` is Accept.
    pub tree: Option<Node>,
    pub stats: Stats,
}

impl Ref {
    pub fn with_bytecode(&self) -> Verdict {
        match (&self.verdict, &self.bytecode) {
            (Verdict::Accept, b) => b.clone(),
            (v @ Verdict::Open(_), Verdict::Accept) => v.clone(),
            (Verdict::Open(_), b) => b.clone(),
            (v, _) => v.clone(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum E {
    Utf8 { pos: usize, len: usize, dec: Decoded },
    Int(i32),
    Float(u32),
    Long(i64),
    Double(u64),
    Class(usize),
    Str(usize),
    Field(usize, usize),
    Method(usize, usize),
    IMethod(usize, usize),
    Nat(usize, usize),
    Handle(u8, usize),
    MType(usize),
    Dyn(u16, usize),
    Indy(u16, usize),
    Module(usize),
    Package(usize),
    /// Slot zero, or the second slot of an 8-byte constant.
    Dead,
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub area: u32,
}

impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if node::spent() {
            return unspec("too large to describe");
        }
        if self.end - self.pos < n {
            return rej(self.area, format!("needs {} bytes at {} but only {} remain", n, self.pos, self.end - self.pos));
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    pub fn u1(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u2(&mut self) -> R<u16> {
        let s = self.take(2)?;
        Ok(u16::from_be_bytes([s[0], s[1]]))
    }
    pub fn u4(&mut self) -> R<u32> {
        let s = self.take(4)?;
        Ok(u32::from_be_bytes([s[0], s[1], s[2], s[3]]))
    }
    pub fn u8(&mut self) -> R<u64> {
        let s = self.take(8)?;
        Ok(u64::from_be_bytes(s.try_into().unwrap()))
    }
    fn idx(&mut self) -> R<usize> {
        Ok(usize::from(self.u2()?))
    }
}

pub struct Pool<'a> {
    pub b: &'a [u8],
    pub e: Vec<E>,
}

impl<'a> Pool<'a> {
    pub fn get(&self, i: usize, area: u32) -> R<&E> {
        match self.e.get(i) {
            None => rej(C05 | area, format!("index {} out of range", i)),
            Some(E::Dead) => rej(C05 | area, format!("index {} is not an entry", i)),
            Some(e) => Ok(e),
        }
    }
    /// The text of a Utf8 entry which must be representable: (text, place if plain, start of bytes).
    pub fn str_at(&self, i: usize, area: u32) -> R<(&str, Loc)> {
        match self.get(i, area)? {
            E::Utf8 { pos, len, dec } => match dec {
                Decoded::Text { s, plain } => Ok((s, if *plain && *len > 0 { Some((*pos, *len)) } else { None })),
                Decoded::Raw => rej(C05 | C06 | area, format!("entry {} is not representable as text", i)),
                Decoded::Unspec => unspec(format!("entry {} has forbidden bytes", i)),
            },
            _ => rej(C05 | area, format!("entry {} is not text", i)),
        }
    }
    pub fn text_at(&self, i: usize, area: u32) -> R<Node> {
        let (s, loc) = self.str_at(i, area)?;
        Ok(text(s.to_string(), loc))
    }
    pub fn class_str(&self, i: usize, area: u32) -> R<(&str, Loc)> {
        match self.get(i, area)? {
            E::Class(n) => self.str_at(*n, area),
            _ => rej(C05 | area, format!("entry {} is not a class", i)),
        }
    }
    pub fn class_at(&self, i: usize, area: u32) -> R<Node> {
        let (s, loc) = self.class_str(i, area)?;
        Ok(text(s.to_string(), loc))
    }
    pub fn nat_at(&self, i: usize, area: u32) -> R<Node> {
        match self.get(i, area)? {
            E::Nat(n, d) => Ok(name_and_type(self.text_at(*n, area)?, self.text_at(*d, area)?)),
            _ => rej(C05 | area, format!("entry {} is not a name and type", i)),
        }
    }
    pub fn nat_str(&self, i: usize, area: u32) -> R<(&str, &str)> {
        match self.get(i, area)? {
            E::Nat(n, d) => Ok((self.str_at(*n, area)?.0, self.str_at(*d, area)?.0)),
            _ => rej(C05 | area, format!("entry {} is not a name and type", i)),
        }
    }
    fn module_at(&self, i: usize, area: u32) -> R<Node> {
        match self.get(i, area)? {
            E::Module(n) => self.text_at(*n, area),
            _ => rej(C05 | area, format!("entry {} is not a module", i)),
        }
    }
    fn package_at(&self, i: usize, area: u32) -> R<Node> {
        match self.get(i, area)? {
            E::Package(n) => self.text_at(*n, area),
            _ => rej(C05 | area, format!("entry {} is not a package", i)),
        }
    }
    /// A string literal: text if it has a decoding, otherwise its bytes.
    fn literal(&self, i: usize) -> R<Node> {
        match self.get(i, 0)? {
            E::Utf8 { pos, len, dec } => match dec {
                Decoded::Text { s, plain } => {
                    Ok(lit_string(text(s.clone(), if *plain && *len > 0 { Some((*pos, *len)) } else { None })))
                }
                Decoded::Raw => {
                    Ok(lit_string_bytes(bytes(self.b[*pos..*pos + *len].to_vec(), Some((*pos, *len)))))
                }
                Decoded::Unspec => unspec("string constant has forbidden bytes"),
            },
            _ => rej(C05, "string does not refer to text"),
        }
    }
    fn constant_node(&self, e: &E) -> R<Option<Node>> {
        Ok(Some(match e {
            E::Int(v) => lit_int(*v),
            E::Float(v) => lit_float(*v),
            E::Long(v) => lit_long(*v),
            E::Double(v) => lit_double(*v),
            E::Str(s) => self.literal(*s)?,
            _ => return Ok(None),
        }))
    }
    pub fn handle_node(&self, kind: u8, r: usize) -> R<Node> {
        let (c, m, k) = match self.get(r, 0)? {
            E::Field(c, m) => (c, m, "Field"),
            E::Method(c, m) => (c, m, "Method"),
            E::IMethod(c, m) => (c, m, "InterfaceMethod"),
            _ => return rej(C05, "method handle does not refer to a member"),
        };
        Ok(method_handle(i64::from(kind), self.class_at(*c, 0)?, k, self.nat_at(*m, 0)?))
    }
    /// A loadable constant as an operand or bootstrap argument.
    pub fn loadable(&self, i: usize, area: u32) -> R<Node> {
        let e = self.get(i, area)?;
        if let Some(n) = self.constant_node(e)? {
            return Ok(n);
        }
        Ok(match e {
            E::Class(n) => variant("ClassInfo", vec![self.text_at(*n, area)?]),
            E::Handle(k, r) => variant("MethodHandle", vec![self.handle_node(*k, *r)?]),
            E::MType(n) => variant("MethodType", vec![self.text_at(*n, area)?]),
            E::Dyn(x, n) => variant("Dynamic", vec![dynamic(*x, self.nat_at(*n, area)?)]),
            _ => return rej(C05 | area, format!("entry {} is not loadable", i)),
        })
    }
    fn mref(&self, c: usize, m: usize) -> R<Node> {
        Ok(member_ref(self.class_at(c, 0)?, self.nat_at(m, 0)?))
    }
    fn item(&self, e: &E) -> R<Option<Node>> {
        if let Some(n) = self.constant_node(e)? {
            return Ok(Some(n));
        }
        Ok(Some(match e {
            E::Utf8 { .. } | E::Dead => return Ok(None),
            E::Class(n) => variant("ClassInfo", vec![self.text_at(*n, 0)?]),
            E::Field(c, m) => variant("FieldRef", vec![self.mref(*c, *m)?]),
            E::Method(c, m) => variant("MethodRef", vec![self.mref(*c, *m)?]),
            E::IMethod(c, m) => variant("InterfaceMethodRef", vec![self.mref(*c, *m)?]),
            E::Nat(n, d) => variant("NameAndType", vec![name_and_type(self.text_at(*n, 0)?, self.text_at(*d, 0)?)]),
            E::Handle(k, r) => variant("MethodHandle", vec![self.handle_node(*k, *r)?]),
            E::MType(n) => variant("MethodType", vec![self.text_at(*n, 0)?]),
            E::Dyn(x, n) => variant("Dynamic", vec![dynamic(*x, self.nat_at(*n, 0)?)]),
            E::Indy(x, n) => variant("InvokeDynamic", vec![dynamic(*x, self.nat_at(*n, 0)?)]),
            E::Module(n) => variant("ModuleInfo", vec![self.text_at(*n, 0)?]),
            E::Package(n) => variant("PackageInfo", vec![self.text_at(*n, 0)?]),
            _ => unreachable!(),
        }))
    }
}

pub fn base_sym(c: char) -> &'static str {
    match c {
        'B' => "B",
        'C' => "C",
        'D' => "D",
        'F' => "F",
        'I' => "I",
        'J' => "J",
        'S' => "S",
        'Z' => "Z",
        _ => "L",
    }
}

pub fn fd_node(s: &str, loc: Loc, d: &FieldDesc, whole: (usize, usize)) -> Node {
    let class = d.class.map(|(x, y)| {
        text(s[x..y].to_string(), loc.map(|(p, _)| (p + x, y - x)))
    });
    field_desc(d.dims, base_sym(d.base), class, s[whole.0..whole.1].to_string())
}

pub fn fd_text(s: &str, loc: Loc, area: u32) -> R<Node> {
    match grammar::field_desc(s) {
        Some(d) => Ok(fd_node(s, loc, &d, (0, s.len()))),
        None => rej(C16 | area, "not a field descriptor"),
    }
}

fn fd_at(p: &Pool, i: usize, area: u32) -> R<Node> {
    let (s, loc) = p.str_at(i, area)?;
    fd_text(s, loc, area)
}

fn desc_extent(d: &FieldDesc) -> usize {
    d.dims as usize + d.class.map_or(1, |(x, y)| y - x + 2)
}

fn md_text(s: &str, loc: Loc, area: u32) -> R<(Node, grammar::MethodDesc)> {
    let m = match grammar::method_desc(s) {
        Some(m) => m,
        None => return rej(C16 | area, "not a method descriptor"),
    };
    if grammar::arg_slots(&m) > 255 {
        soft("more than 255 argument slots");
    }
    let mut at = 1;
    let mut ps = Vec::new();
    for d in &m.params {
        let n = desc_extent(d);
        ps.push(fd_node(s, loc, d, (at, at + n)));
        at += n;
    }
    let ret = m.ret.as_ref().map(|d| fd_node(s, loc, d, (at + 1, s.len())));
    Ok((method_desc(ps, ret, s.to_string()), m))
}

fn check_md(s: &str, area: u32) -> R<()> {
    match grammar::method_desc(s) {
        None => rej(C16 | area, "not a method descriptor"),
        Some(m) => {
            if grammar::arg_slots(&m) > 255 {
                soft("more than 255 argument slots");
            }
            Ok(())
        }
    }
}

fn read_pool<'a>(c: &mut Cur<'a>, major: u16, st: &mut Stats) -> R<Pool<'a>> {
    let count = c.idx()?;
    if count == 0 {
        return rej(C05, "constant pool count is zero");
    }
    let mut e = Vec::with_capacity(count);
    e.push(E::Dead);
    while e.len() < count {
        let tag = c.u1()?;
        let need = match tag {
            15 | 16 | 18 => 51,
            17 => 55,
            19 | 20 => 53,
            _ => 0,
        };
        if major < need {
            return rej(C05, format!("entry kind {} in major version {}", tag, major));
        }
        let x = match tag {
            1 => {
                let len = c.idx()?;
                let pos = c.pos;
                let b = c.take(len)?;
                let dec = mutf8::decode(b);
                match &dec {
                    Decoded::Text { plain: false, .. } => st.nonplain_texts += 1,
                    Decoded::Raw => st.raw_texts += 1,
                    _ => {}
                }
                E::Utf8 { pos, len, dec }
            }
            3 => E::Int(c.u4()? as i32),
            4 => E::Float(c.u4()?),
            5 => E::Long(c.u8()? as i64),
            6 => E::Double(c.u8()?),
            7 => E::Class(c.idx()?),
            8 => E::Str(c.idx()?),
            9 => E::Field(c.idx()?, c.idx()?),
            10 => E::Method(c.idx()?, c.idx()?),
            11 => E::IMethod(c.idx()?, c.idx()?),
            12 => E::Nat(c.idx()?, c.idx()?),
            15 => {
                let k = c.u1()?;
                if !(1..=9).contains(&k) {
                    return rej(C05, format!("reference kind {}", k));
                }
                E::Handle(k, c.idx()?)
            }
            16 => E::MType(c.idx()?),
            17 => E::Dyn(c.u2()?, c.idx()?),
            18 => E::Indy(c.u2()?, c.idx()?),
            19 => E::Module(c.idx()?),
            20 => E::Package(c.idx()?),
            _ => return rej(C05, format!("entry kind {}", tag)),
        };
        st.pool_kinds |= 1 << tag;
        let wide = matches!(x, E::Long(_) | E::Double(_));
        e.push(x);
        if wide {
            e.push(E::Dead);
        }
    }
    st.pool_slots = e.len();
    let overflow = e.len() > count;
    let p = Pool { b: c.b, e };
    check_pool(&p, major)?;
    if overflow {
        return unspec("8-byte constant in the last slot");
    }
    Ok(p)
}

fn check_pool(p: &Pool, major: u16) -> R<()> {
    let mut maybe: Option<Stop> = None;
    // Hard violations anywhere take precedence over open questions.
    for (i, e) in p.e.iter().enumerate() {
        match check_entry(p, major, i, e) {
            Ok(()) => {}
            Err(Stop::Unspec(w)) => {
                maybe.get_or_insert(Stop::Unspec(format!("entry {}: {}", i, w)));
            }
            Err(Stop::Rej(a, w)) => return rej(a | C05, format!("constant pool entry {}: {}", i, w)),
        }
    }
    match maybe {
        Some(s) => Err(s),
        None => Ok(()),
    }
}

fn check_entry(p: &Pool, major: u16, me: usize, e: &E) -> R<()> {
    let _ = me;
    match e {
        E::Utf8 { .. } | E::Int(_) | E::Float(_) | E::Long(_) | E::Double(_) | E::Dead => Ok(()),
        E::Class(n) => {
            let (s, _) = p.str_at(*n, C05)?;
            if grammar::binary_name(s) || grammar::array_desc(s) {
                Ok(())
            } else {
                rej(C05 | C16 | C17, format!("{:?} is not a class name", short(s)))
            }
        }
        E::Str(n) => match p.get(*n, C05)? {
            E::Utf8 { dec: Decoded::Unspec, .. } => unspec("string has forbidden bytes"),
            E::Utf8 { .. } => Ok(()),
            _ => rej(C05, "string does not refer to text"),
        },
        E::Field(c, m) => {
            p.class_str(*c, C05)?;
            let (_, d) = p.nat_str(*m, C05)?;
            if grammar::field_desc(d).is_none() {
                return rej(C05 | C16, "field reference without a field descriptor");
            }
            Ok(())
        }
        E::Method(c, m) | E::IMethod(c, m) => {
            p.class_str(*c, C05)?;
            let (n, d) = p.nat_str(*m, C05)?;
            check_md(d, C05)?;
            check_ref_name(n, d, matches!(e, E::Method(..)))
        }
        E::Nat(n, d) => {
            let (n, _) = p.str_at(*n, C05)?;
            let (d, _) = p.str_at(*d, C05)?;
            if n != "<init>" && !grammar::unqualified(n) {
                return rej(C05 | C17, "name of a member is not unqualified");
            }
            if grammar::field_desc(d).is_none() {
                match grammar::method_desc(d) {
                    // Only descriptors that something refers to are required to be valid.
                    None => soft("name and type whose descriptor is none"),
                    Some(m) if grammar::arg_slots(&m) > 255 => soft("more than 255 argument slots"),
                    Some(_) => {}
                }
            }
            Ok(())
        }
        E::Handle(k, r) => {
            let t = p.get(*r, C05)?;
            let ok = match k {
                1..=4 => matches!(t, E::Field(..)),
                5 | 8 => matches!(t, E::Method(..)),
                6 | 7 => matches!(t, E::Method(..)) || (major >= 52 && matches!(t, E::IMethod(..))),
                _ => matches!(t, E::IMethod(..)),
            };
            if !ok {
                return rej(C05, format!("method handle of kind {} refers to the wrong kind of entry", k));
            }
            if let E::Method(_, m) | E::IMethod(_, m) = t {
                let (n, _) = p.nat_str(*m, C05)?;
                if (*k == 8) != (n == "<init>") {
                    soft("method handle kind against name");
                }
            }
            Ok(())
        }
        E::MType(d) => check_md(p.str_at(*d, C05)?.0, C05),
        E::Dyn(_, m) => {
            let (_, d) = p.nat_str(*m, C05)?;
            if grammar::field_desc(d).is_none() {
                return rej(C05 | C16, "dynamic constant without a field descriptor");
            }
            Ok(())
        }
        E::Indy(_, m) => {
            let (n, d) = p.nat_str(*m, C05)?;
            check_md(d, C05)?;
            if n.contains('<') || n.contains('>') {
                soft("call site name");
            }
            Ok(())
        }
        E::Module(n) => match grammar::module_name(p.str_at(*n, C05)?.0) {
            Some(true) => Ok(()),
            Some(false) => rej(C05 | C12 | C17, "not a module name"),
            None => {
                soft("empty module name");
                Ok(())
            }
        },
        E::Package(n) => {
            if grammar::binary_name(p.str_at(*n, C05)?.0) {
                Ok(())
            } else {
                rej(C05 | C12 | C17, "not a package name")
            }
        }
    }
}

fn check_ref_name(n: &str, d: &str, class_method: bool) -> R<()> {
    if n == "<init>" {
        if !class_method || !d.ends_with(")V") {
            soft("reference to an odd <init>");
        }
        return Ok(());
    }
    if n.contains('<') || n.contains('>') {
        soft("method reference name with < or >");
    }
    Ok(())
}

fn short(s: &str) -> String {
    s.chars().take(40).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    Class,
    Field,
    Method,
    Code,
    Record,
}

/// The predefined attributes: name, first major version, places, at most one, area.
pub const ATTRS: &[(&str, u16, &[Place], bool, u32)] = &[
    ("ConstantValue", 45, &[Place::Field], true, C11),
    ("Code", 45, &[Place::Method], true, C09),
    ("StackMapTable", 50, &[Place::Code], true, C09),
    ("Exceptions", 45, &[Place::Method], true, C11),
    ("InnerClasses", 45, &[Place::Class], true, C11),
    ("EnclosingMethod", 49, &[Place::Class], true, C11),
    ("Synthetic", 45, &[Place::Class, Place::Field, Place::Method], true, C11),
    ("Signature", 49, &[Place::Class, Place::Field, Place::Method, Place::Record], true, C11),
    ("SourceFile", 45, &[Place::Class], true, C11),
    ("SourceDebugExtension", 49, &[Place::Class], true, C11),
    ("LineNumberTable", 45, &[Place::Code], false, C09),
    ("LocalVariableTable", 45, &[Place::Code], false, C09),
    ("LocalVariableTypeTable", 49, &[Place::Code], false, C09),
    ("Deprecated", 45, &[Place::Class, Place::Field, Place::Method], true, C11),
    ("RuntimeVisibleAnnotations", 49, &[Place::Class, Place::Field, Place::Method, Place::Record], true, C10),
    ("RuntimeInvisibleAnnotations", 49, &[Place::Class, Place::Field, Place::Method, Place::Record], true, C10),
    ("RuntimeVisibleParameterAnnotations", 49, &[Place::Method], true, C10),
    ("RuntimeInvisibleParameterAnnotations", 49, &[Place::Method], true, C10),
    ("RuntimeVisibleTypeAnnotations", 52, &[Place::Class, Place::Field, Place::Method, Place::Code, Place::Record], true, C10),
    ("RuntimeInvisibleTypeAnnotations", 52, &[Place::Class, Place::Field, Place::Method, Place::Code, Place::Record], true, C10),
    ("AnnotationDefault", 49, &[Place::Method], true, C10),
    ("BootstrapMethods", 51, &[Place::Class], true, C11),
    ("MethodParameters", 52, &[Place::Method], true, C11),
    ("Module", 53, &[Place::Class], true, C12),
    ("ModulePackages", 53, &[Place::Class], true, C12),
    ("ModuleMainClass", 53, &[Place::Class], true, C12),
    ("NestHost", 55, &[Place::Class], true, C11),
    ("NestMembers", 55, &[Place::Class], true, C11),
    ("PermittedSubclasses", 61, &[Place::Class], true, C11),
    ("Record", 60, &[Place::Class], true, C11),
];

struct Rd<'a> {
    p: Pool<'a>,
    major: u16,
    st: Stats,
    /// Set if something later proves the file is outside what the properties speak about.
    open: Option<String>,
    bc: Verdict,
    bootstrap_tables: Vec<usize>,
}

/// Descriptions larger than this are not made: the file is left open.
pub const BUDGET: usize = 96 << 20;

pub fn read(b: &[u8]) -> Ref {
    node::budget(BUDGET);
    soft_take();
    let mut r = read_all(b);
    soft_take();
    if node::spent() {
        if let Verdict::Accept | Verdict::Open(_) = r.verdict {
            r.verdict = Verdict::Unspec("too large to describe".into());
        }
        r.tree = None;
    }
    node::budget(usize::MAX);
    r
}

fn read_all(b: &[u8]) -> Ref {
    let mut st = Stats::default();
    let mut c = Cur { b, pos: 0, end: b.len(), area: C08 };
    let head = (|| -> R<(u16, u16, Pool)> {
        if c.u4()? != 0xCAFE_BABE {
            return rej(C08, "magic");
        }
        let minor = c.u2()?;
        let major = c.u2()?;
        let p = read_pool(&mut c, major, &mut st)?;
        Ok((minor, major, p))
    })();
    let fin = |v: Verdict, bc: Verdict, tree: Option<Node>, stats: Stats| Ref { verdict: v, bytecode: bc, tree, stats };
    let stop = |s: Stop| match s {
        Stop::Rej(a, w) => Verdict::Reject(a, w),
        Stop::Unspec(w) => Verdict::Unspec(w),
    };
    let (minor, major, p) = match head {
        Ok(x) => x,
        Err(s) => return fin(stop(s), Verdict::Accept, None, st),
    };
    st.major = major;
    let mut rd = Rd { p, major, st, open: None, bc: Verdict::Accept, bootstrap_tables: vec![] };
    match rd.class(&mut c, minor) {
        Ok(tree) => {
            let v = match (rd.open, soft_take()) {
                (Some(w), _) => Verdict::Unspec(w),
                (None, Some(w)) => Verdict::Open(w),
                (None, None) => Verdict::Accept,
            };
            fin(v, rd.bc, Some(tree), rd.st)
        }
        Err(Stop::Rej(a, w)) => fin(Verdict::Reject(a, w), rd.bc, None, rd.st),
        Err(Stop::Unspec(w)) => fin(Verdict::Unspec(w), rd.bc, None, rd.st),
    }
}

impl<'a> Rd<'a> {
    fn leave_open(&mut self, why: impl Into<String>) {
        self.open.get_or_insert(why.into());
    }

    fn this_like(&self, i: usize, area: u32) -> R<Node> {
        let (s, loc) = self.p.class_str(i, area)?;
        if !grammar::binary_name(s) {
            return rej(area | C17, "not a class or interface name");
        }
        Ok(text(s.to_string(), loc))
    }

    fn class(&mut self, c: &mut Cur<'a>, minor: u16) -> R<Node> {
        let flags = c.u2()? & 0xF631;
        let module = flags & 0x8000 != 0;
        if module && self.major < 53 {
            return rej(C12, "module flag in an old version");
        }
        if module && flags != 0x8000 {
            return rej(C12, "module with other flags");
        }
        let ti = c.idx()?;
        let this = self.this_like(ti, C03)?;
        let si = c.idx()?;
        let sup = if si == 0 { nil() } else { self.this_like(si, C03)? };
        let mut ifs = Vec::new();
        for _ in 0..c.u2()? {
            let i = c.idx()?;
            ifs.push(self.this_like(i, C03)?);
        }
        self.st.interfaces = ifs.len();
        let mut fields = Vec::new();
        let mut seen: HashSet<(String, String)> = HashSet::new();
        for k in 0..c.u2()? {
            let flags = c.u2()? & 0x50DF;
            let ni = c.idx()?;
            let (n, nl) = self.p.str_at(ni, C03)?;
            if !grammar::unqualified(n) {
                return rej(C17, format!("name of field {}", k));
            }
            let di = c.idx()?;
            let (d, _) = self.p.str_at(di, C03)?;
            let dn = fd_at(&self.p, di, C03)?;
            if !seen.insert((n.to_string(), d.to_string())) {
                return rej(C18, format!("field {} is a duplicate", k));
            }
            let nn = text(n.to_string(), nl);
            let at = self.attributes(c, Place::Field)?;
            self.st.descriptors += 1;
            fields.push(member("field", flags, nn, dn, at));
        }
        self.st.fields = fields.len();
        let mut methods = Vec::new();
        let mut seen: HashSet<(String, String)> = HashSet::new();
        let interface = flags & 0x0200 != 0;
        for k in 0..c.u2()? {
            let flags = c.u2()? & 0x1DFF;
            let ni = c.idx()?;
            let (n, nl) = self.p.str_at(ni, C03)?;
            if !grammar::method_name(n) {
                return rej(C17, format!("name of method {}", k));
            }
            if n == "<init>" && interface {
                return rej(C17 | C18, "instance initializer in an interface");
            }
            let di = c.idx()?;
            let (d, dl) = self.p.str_at(di, C03)?;
            let (dn, m) = md_text(d, dl, C03)?;
            if n == "<init>" && m.ret.is_some() {
                return rej(C18, "instance initializer returns a value");
            }
            if n == "<clinit>" {
                if m.ret.is_some() {
                    return rej(C18, "static initializer returns a value");
                }
                if self.major >= 51 && !m.params.is_empty() {
                    return rej(C18, "static initializer takes parameters");
                }
            }
            if !seen.insert((n.to_string(), d.to_string())) {
                return rej(C18, format!("method {} is a duplicate", k));
            }
            let nn = text(n.to_string(), nl);
            let at = self.attributes(c, Place::Method)?;
            self.st.descriptors += 1;
            methods.push(member("method", flags, nn, dn, at));
        }
        self.st.methods = methods.len();
        let attrs = self.attributes(c, Place::Class)?;
        if c.pos != c.end {
            return rej(C08, "bytes after the last attribute");
        }
        if module && (sup.val != Val::Nil || !ifs.is_empty() || !fields.is_empty() || !methods.is_empty()) {
            return rej(C12, "module with superclass, interfaces, fields or methods");
        }
        if !module && self.p.e.iter().any(|e| matches!(e, E::Module(_) | E::Package(_))) {
            self.leave_open("module or package constants in a class that is no module");
        }
        for e in &self.p.e {
            if let E::Dyn(x, _) | E::Indy(x, _) = e {
                if self.bootstrap_tables.len() != 1 {
                    return rej(C18, format!("dynamic entry with {} bootstrap tables", self.bootstrap_tables.len()));
                }
                if usize::from(*x) >= self.bootstrap_tables[0] {
                    return rej(C18, "dynamic entry beyond the bootstrap table");
                }
            }
        }
        let mut items = Vec::new();
        for e in &self.p.e {
            if let Some(n) = self.p.item(e)? {
                items.push(n);
            }
        }
        Ok(class_file(minor, self.major, items, flags, this, sup, ifs, fields, methods, attrs))
    }

    fn attributes(&mut self, c: &mut Cur<'a>, place: Place) -> R<Node> {
        let mut out = Vec::new();
        let mut seen: HashSet<&'static str> = HashSet::new();
        for k in 0..c.u2()? {
            let ni = c.idx()?;
            let (name, nloc) = self.p.str_at(ni, C08)?;
            let name_node = text(name.to_string(), nloc).ar(C08);
            let len = c.u4()? as usize;
            if c.end - c.pos < len {
                return rej(C08 | c.area, format!("attribute {} of {} bytes does not fit", k, len));
            }
            let known = ATTRS.iter().find(|x| x.0 == name);
            let mut body = Cur { b: c.b, pos: c.pos, end: c.pos + len, area: C08 };
            c.pos += len;
            let node = match known {
                None => {
                    self.st.other_attrs += 1;
                    let s = &body.b[body.pos..body.end];
                    let loc = if len > 0 { Some((body.pos, len)) } else { None };
                    attribute(name_node, variant("Other", vec![node::bytes(s.to_vec(), loc).ar(C08)]), C08)
                }
                Some((kn, first, places, single, area)) => {
                    body.area = C08 | area;
                    self.st.attrs.push(kn);
                    if !places.contains(&place) {
                        self.leave_open(format!("{} in {:?}", kn, place));
                    }
                    if self.major < *first {
                        self.leave_open(format!("{} in version {}", kn, self.major));
                    }
                    if !seen.insert(kn) && *single && *kn != "BootstrapMethods" {
                        soft("two attributes of a kind");
                    }
                    let data = self.predefined(kn, &mut body, place, *area)?;
                    if body.pos != body.end {
                        return rej(C08 | area, format!("{} bytes left in {}", body.end - body.pos, kn));
                    }
                    attribute(name_node, data, *area)
                }
            };
            out.push(node);
        }
        Ok(list(out))
    }

    fn predefined(&mut self, name: &'static str, c: &mut Cur<'a>, place: Place, area: u32) -> R<Node> {
        Ok(match name {
            "ConstantValue" => {
                let i = c.idx()?;
                let e = self.p.get(i, C11)?.clone();
                match self.p.constant_node(&e)? {
                    Some(n) => variant("ConstantValue", vec![n]),
                    None => return rej(C05 | C11, "constant value of the wrong kind"),
                }
            }
            "Code" => self.code(c, place)?,
            "StackMapTable" => self.stack_map(c)?,
            "Exceptions" => variant("Exceptions", vec![self.classes(c, area)?]),
            "InnerClasses" => {
                let mut v = Vec::new();
                for _ in 0..c.u2()? {
                    let inner = c.idx()?;
                    let inner = self.p.class_at(inner, area)?;
                    let outer = c.idx()?;
                    let outer = if outer == 0 { nil() } else { self.p.class_at(outer, area)? };
                    let n = c.idx()?;
                    let n = if n == 0 { nil() } else { self.p.text_at(n, area)? };
                    let f = c.u2()? & 0x761F;
                    v.push(list(vec![inner.l("inner"), outer.l("outer"), n.l("name"), int(f.into()).l("flags")]));
                }
                self.st.table_rows += v.len();
                variant("InnerClasses", vec![list(v)])
            }
            "EnclosingMethod" => {
                let i = c.idx()?;
                let cl = self.p.class_at(i, area)?;
                let m = c.idx()?;
                let m = if m == 0 { nil() } else { self.p.nat_at(m, area)? };
                variant("EnclosingMethod", vec![cl, m])
            }
            "Synthetic" => variant("Synthetic", vec![]),
            "Deprecated" => variant("Deprecated", vec![]),
            "Signature" => {
                let i = c.idx()?;
                variant("Signature", vec![self.p.text_at(i, area)?])
            }
            "SourceFile" => {
                let i = c.idx()?;
                variant("SourceFile", vec![self.p.text_at(i, area)?])
            }
            "SourceDebugExtension" => {
                let pos = c.pos;
                let n = c.end - c.pos;
                let b = c.take(n)?;
                match mutf8::decode(b) {
                    Decoded::Text { s, plain } => variant(
                        "SourceDebugExtension",
                        vec![text(s, if plain && n > 0 { Some((pos, n)) } else { None })],
                    ),
                    Decoded::Raw => return rej(C06 | C11, "debug extension has no decoding"),
                    Decoded::Unspec => return unspec("debug extension has forbidden bytes"),
                }
            }
            "LineNumberTable" => {
                let mut v = Vec::new();
                for _ in 0..c.u2()? {
                    let s = c.u2()?;
                    let l = c.u2()?;
                    v.push(list(vec![int(s.into()).l("start_pc"), int(l.into()).l("line")]));
                }
                self.st.table_rows += v.len();
                variant("LineNumberTable", vec![list(v)])
            }
            "LocalVariableTable" => {
                let mut v = Vec::new();
                for _ in 0..c.u2()? {
                    let (s, n) = (c.u2()?, c.u2()?);
                    let name = self.unqualified_at(c.idx()?, area)?;
                    let d = fd_at(&self.p, c.idx()?, area)?;
                    let ix = c.u2()?;
                    self.st.descriptors += 1;
                    v.push(list(vec![
                        int(s.into()).l("start_pc"),
                        int(n.into()).l("length"),
                        name.l("name"),
                        d.l("descriptor"),
                        int(ix.into()).l("index"),
                    ]));
                }
                self.st.table_rows += v.len();
                variant("LocalVariableTable", vec![list(v)])
            }
            "LocalVariableTypeTable" => {
                let mut v = Vec::new();
                for _ in 0..c.u2()? {
                    let (s, n) = (c.u2()?, c.u2()?);
                    let name = self.unqualified_at(c.idx()?, area)?;
                    let d = c.idx()?;
                    let d = self.p.text_at(d, area)?;
                    let ix = c.u2()?;
                    v.push(list(vec![
                        int(s.into()).l("start_pc"),
                        int(n.into()).l("length"),
                        name.l("name"),
                        d.l("signature"),
                        int(ix.into()).l("index"),
                    ]));
                }
                self.st.table_rows += v.len();
                variant("LocalVariableTypeTable", vec![list(v)])
            }
            "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" => variant(name, vec![self.annotations(c)?]),
            "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => {
                let mut v = Vec::new();
                for _ in 0..c.u1()? {
                    v.push(self.annotations(c)?);
                }
                variant(name, vec![list(v)])
            }
            "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => {
                let mut v = Vec::new();
                for _ in 0..c.u2()? {
                    v.push(self.type_annotation(c)?);
                }
                variant(name, vec![list(v)])
            }
            "AnnotationDefault" => variant("AnnotationDefault", vec![self.element_value(c, 0)?]),
            "BootstrapMethods" => {
                let mut v = Vec::new();
                for _ in 0..c.u2()? {
                    let i = c.idx()?;
                    let h = match self.p.get(i, area)? {
                        E::Handle(k, r) => self.p.handle_node(*k, *r)?,
                        _ => return rej(C05 | area, "bootstrap method is not a method handle"),
                    };
                    let mut args = Vec::new();
                    for _ in 0..c.u2()? {
                        let a = c.idx()?;
                        args.push(self.p.loadable(a, area)?);
                    }
                    v.push(list(vec![h.l("method"), list(args).l("arguments")]));
                }
                self.st.table_rows += v.len();
                if place == Place::Class {
                    self.bootstrap_tables.push(v.len());
                    if self.bootstrap_tables.len() > 1 {
                        soft("two BootstrapMethods attributes");
                    }
                }
                variant("BootstrapMethods", vec![list(v)])
            }
            "MethodParameters" => {
                let mut v = Vec::new();
                for _ in 0..c.u1()? {
                    let n = c.idx()?;
                    let n = if n == 0 { nil() } else { self.unqualified_at(n, area)? };
                    let f = c.u2()?;
                    if f & !0x9010 != 0 {
                        return rej(C11, "undefined method parameter flags");
                    }
                    v.push(list(vec![n.l("name"), int(f.into()).l("flags")]));
                }
                self.st.table_rows += v.len();
                variant("MethodParameters", vec![list(v)])
            }
            "Module" => self.module(c)?,
            "ModulePackages" => {
                let mut v = Vec::new();
                for _ in 0..c.u2()? {
                    let i = c.idx()?;
                    v.push(self.p.package_at(i, area)?);
                }
                variant("ModulePackages", vec![list(v)])
            }
            "ModuleMainClass" => {
                let i = c.idx()?;
                variant("ModuleMainClass", vec![self.p.class_at(i, area)?])
            }
            "NestHost" => {
                let i = c.idx()?;
                variant("NestHost", vec![self.p.class_at(i, area)?])
            }
            "NestMembers" => variant("NestMembers", vec![self.classes(c, area)?]),
            "PermittedSubclasses" => variant("PermittedSubclasses", vec![self.classes(c, area)?]),
            "Record" => {
                let mut v = Vec::new();
                for _ in 0..c.u2()? {
                    let name = self.unqualified_at(c.idx()?, area)?;
                    let d = fd_at(&self.p, c.idx()?, area)?;
                    let at = self.attributes(c, Place::Record)?;
                    self.st.descriptors += 1;
                    v.push(list(vec![name.l("name"), d.l("descriptor"), at.l("attributes")]));
                }
                self.st.table_rows += v.len();
                variant("Record", vec![list(v)])
            }
            _ => unreachable!("{}", name),
        })
    }

    fn unqualified_at(&self, i: usize, area: u32) -> R<Node> {
        let (s, loc) = self.p.str_at(i, area)?;
        if !grammar::unqualified(s) {
            return rej(area | C17, "not an unqualified name");
        }
        Ok(text(s.to_string(), loc).ar(C17))
    }

    fn classes(&mut self, c: &mut Cur<'a>, area: u32) -> R<Node> {
        let mut v = Vec::new();
        for _ in 0..c.u2()? {
            let i = c.idx()?;
            v.push(self.p.class_at(i, area)?);
        }
        self.st.table_rows += v.len();
        Ok(list(v))
    }

    fn code(&mut self, c: &mut Cur<'a>, place: Place) -> R<Node> {
        self.st.codes += 1;
        let stack = c.u2()?;
        let locals = c.u2()?;
        let n = c.u4()? as usize;
        let pos = c.pos;
        let code = c.take(n)?;
        if n == 0 || n > 65535 {
            soft("code length");
        }
        let mut exc = Vec::new();
        for _ in 0..c.u2()? {
            let (s, e, h) = (c.u2()?, c.u2()?, c.u2()?);
            let t = c.idx()?;
            let t = if t == 0 { nil() } else { self.p.class_at(t, C09)? };
            exc.push(exception_entry(s, e, h, t));
        }
        self.st.table_rows += exc.len();
        let attrs = self.attributes(c, Place::Code)?;
        let bc = if place == Place::Method {
            match refcode::decode(code, &self.p, self.major, &mut self.st) {
                Ok((n, open)) => {
                    if let (Some(w), Verdict::Accept) = (open, &self.bc) {
                        self.bc = Verdict::Open(w);
                    }
                    n
                }
                Err(Stop::Rej(a, w)) => {
                    if !matches!(self.bc, Verdict::Reject(..)) {
                        self.bc = Verdict::Reject(a | C14, w);
                    }
                    nil()
                }
                Err(Stop::Unspec(w)) => {
                    if matches!(self.bc, Verdict::Accept | Verdict::Open(_)) {
                        self.bc = Verdict::Unspec(w);
                    }
                    nil()
                }
            }
        } else {
            nil()
        };
        Ok(code_data(stack, locals, node::bytes(code.to_vec(), if n > 0 { Some((pos, n)) } else { None }), exc, attrs, bc))
    }

    fn verification(&mut self, c: &mut Cur<'a>) -> R<Node> {
        Ok(match c.u1()? {
            0 => verif_type("Top", None),
            1 => verif_type("Integer", None),
            2 => verif_type("Float", None),
            3 => verif_type("Double", None),
            4 => verif_type("Long", None),
            5 => verif_type("Null", None),
            6 => verif_type("UninitializedThis", None),
            7 => {
                let i = c.idx()?;
                verif_type("Object", Some(self.p.class_at(i, C09)?))
            }
            8 => verif_type("Uninitialized", Some(int(c.u2()?.into()))),
            t => return rej(C09, format!("verification tag {}", t)),
        })
    }

    fn verifications(&mut self, c: &mut Cur<'a>, n: usize) -> R<Node> {
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(self.verification(c)?);
        }
        Ok(list(v))
    }

    fn stack_map(&mut self, c: &mut Cur<'a>) -> R<Node> {
        let mut v = Vec::new();
        for _ in 0..c.u2()? {
            let t = c.u1()?;
            v.push(match t {
                0..=63 => frame("Same", u16::from(t), vec![]),
                64..=127 => {
                    let s = self.verification(c)?;
                    frame("SameLocals1StackItem", u16::from(t - 64), vec![s])
                }
                128..=246 => return rej(C09, format!("frame type {}", t)),
                247 => {
                    let d = c.u2()?;
                    let s = self.verification(c)?;
                    frame("SameLocals1StackItem", d, vec![s])
                }
                248..=250 => frame("Chop", c.u2()?, vec![int(i64::from(251 - u16::from(t)))]),
                251 => frame("Same", c.u2()?, vec![]),
                252..=254 => {
                    let d = c.u2()?;
                    let l = self.verifications(c, usize::from(t) - 251)?;
                    frame("Append", d, vec![l])
                }
                255 => {
                    let d = c.u2()?;
                    let n = c.idx()?;
                    let l = self.verifications(c, n)?;
                    let n = c.idx()?;
                    let s = self.verifications(c, n)?;
                    frame("FullFrame", d, vec![l.l("locals"), s.l("stack")])
                }
            });
        }
        self.st.table_rows += v.len();
        Ok(variant("StackMapTable", vec![list(v)]))
    }

    fn annotations(&mut self, c: &mut Cur<'a>) -> R<Node> {
        let mut v = Vec::new();
        for _ in 0..c.u2()? {
            v.push(self.annotation(c, 0)?);
        }
        Ok(list(v))
    }

    fn annotation(&mut self, c: &mut Cur<'a>, depth: usize) -> R<Node> {
        let t = fd_at(&self.p, c.idx()?, C10)?;
        self.st.descriptors += 1;
        let mut v = Vec::new();
        for _ in 0..c.u2()? {
            let n = c.idx()?;
            let n = self.p.text_at(n, C10)?;
            let x = self.element_value(c, depth)?;
            v.push(element(n, x));
        }
        Ok(annotation(t, v))
    }

    fn element_value(&mut self, c: &mut Cur<'a>, depth: usize) -> R<Node> {
        if depth > crate::big::DEEPEST {
            return unspec("annotation nested too deep to be judged");
        }
        self.st.annotation_depth = self.st.annotation_depth.max(depth + 1);
        let tag = c.u1()?;
        let wrong = |t: u8| rej::<Node>(C05 | C10, format!("constant of the wrong kind for tag {}", t as char));
        Ok(match tag {
            b'B' | b'C' | b'I' | b'S' | b'Z' => {
                let i = c.idx()?;
                match self.p.get(i, C10)? {
                    E::Int(v) => {
                        let n = match tag {
                            b'B' => "Byte",
                            b'C' => "Char",
                            b'I' => "Int",
                            b'S' => "Short",
                            _ => "Boolean",
                        };
                        variant(n, vec![int(i64::from(*v)).ar(C06)])
                    }
                    _ => return wrong(tag),
                }
            }
            b'D' => match self.p.get(c.idx()?, C10)? {
                E::Double(v) => variant("Double", vec![Node::new("", C06, Val::Bits64(*v))]),
                _ => return wrong(tag),
            },
            b'F' => match self.p.get(c.idx()?, C10)? {
                E::Float(v) => variant("Float", vec![Node::new("", C06, Val::Bits32(*v))]),
                _ => return wrong(tag),
            },
            b'J' => match self.p.get(c.idx()?, C10)? {
                E::Long(v) => variant("Long", vec![int(*v).ar(C06)]),
                _ => return wrong(tag),
            },
            b's' => {
                let i = c.idx()?;
                match self.p.get(i, C10)? {
                    E::Utf8 { .. } => self.p.literal(i)?,
                    _ => return wrong(tag),
                }
            }
            b'e' => {
                let t = fd_at(&self.p, c.idx()?, C10)?;
                self.st.descriptors += 1;
                let n = c.idx()?;
                variant("Enum", vec![t, self.p.text_at(n, C10)?])
            }
            b'c' => {
                let i = c.idx()?;
                let (s, loc) = self.p.str_at(i, C10)?;
                if !grammar::return_desc(s) {
                    return rej(C10 | C16, "class literal is not a return descriptor");
                }
                variant("Class", vec![text(s.to_string(), loc)])
            }
            b'@' => variant("Annotation", vec![self.annotation(c, depth + 1)?]),
            b'[' => {
                let mut v = Vec::new();
                for _ in 0..c.u2()? {
                    v.push(self.element_value(c, depth + 1)?);
                }
                variant("Array", vec![list(v)])
            }
            t => return rej(C10, format!("element tag {}", t)),
        })
    }

    fn type_annotation(&mut self, c: &mut Cur<'a>) -> R<Node> {
        let i = |v: i64| int(v);
        let target = match c.u1()? {
            0x00 | 0x01 => variant("TypeParameter", vec![i(c.u1()?.into())]),
            0x10 => variant("Supertype", vec![i(c.u2()?.into())]),
            0x11 | 0x12 => variant("TypeParameterBound", vec![i(c.u1()?.into()), i(c.u1()?.into())]),
            0x13..=0x15 => variant("Empty", vec![]),
            0x16 => variant("FormalParameter", vec![i(c.u1()?.into())]),
            0x17 => variant("Throws", vec![i(c.u2()?.into())]),
            0x40 | 0x41 => {
                let mut v = Vec::new();
                for _ in 0..c.u2()? {
                    v.push(list(vec![i(c.u2()?.into()), i(c.u2()?.into()), i(c.u2()?.into())]));
                }
                variant("LocalVar", vec![list(v)])
            }
            0x42 => variant("Catch", vec![i(c.u2()?.into())]),
            0x43..=0x46 => variant("Offset", vec![i(c.u2()?.into())]),
            0x47..=0x4B => variant("TypeArgument", vec![i(c.u2()?.into()), i(c.u1()?.into())]),
            t => return rej(C10, format!("target type {}", t)),
        };
        let mut path = Vec::new();
        for _ in 0..c.u1()? {
            let k = match c.u1()? {
                0 => "DeeperArray",
                1 => "DeeperNested",
                2 => "WildcardTypeArgument",
                3 => "TypeArgument",
                k => return rej(C10, format!("path kind {}", k)),
            };
            path.push(path_entry(k, c.u1()?));
        }
        Ok(type_annotation(target, path, self.annotation(c, 0)?))
    }

    fn module(&mut self, c: &mut Cur<'a>) -> R<Node> {
        let a = C12;
        let flags = |v: u16, mask: u16| {
            if v & !mask != 0 {
                rej(C12, "undefined module flags")
            } else {
                Ok(int(v.into()).l("flags"))
            }
        };
        let opt_text = |s: &Self, i: usize| -> R<Node> { if i == 0 { Ok(nil()) } else { s.p.text_at(i, a) } };
        let name = self.p.module_at(c.idx()?, a)?;
        let fl = flags(c.u2()?, 0x9020)?;
        let version = opt_text(self, c.idx()?)?;
        let mut requires = Vec::new();
        for _ in 0..c.u2()? {
            let n = self.p.module_at(c.idx()?, a)?;
            let f = flags(c.u2()?, 0x9060)?;
            let v = opt_text(self, c.idx()?)?;
            requires.push(list(vec![n.l("name"), f, v.l("version")]));
        }
        let mut both = Vec::new();
        for _ in 0..2 {
            let mut v = Vec::new();
            for _ in 0..c.u2()? {
                let n = self.p.package_at(c.idx()?, a)?;
                let f = flags(c.u2()?, 0x9000)?;
                let mut to = Vec::new();
                for _ in 0..c.u2()? {
                    to.push(self.p.module_at(c.idx()?, a)?);
                }
                v.push(list(vec![n.l("package"), f, list(to).l("to")]));
            }
            both.push(v);
        }
        let opens = both.pop().unwrap();
        let exports = both.pop().unwrap();
        let mut uses = Vec::new();
        for _ in 0..c.u2()? {
            uses.push(self.p.class_at(c.idx()?, a)?);
        }
        let mut provides = Vec::new();
        for _ in 0..c.u2()? {
            let s = self.p.class_at(c.idx()?, a)?;
            let mut with = Vec::new();
            for _ in 0..c.u2()? {
                with.push(self.p.class_at(c.idx()?, a)?);
            }
            provides.push(list(vec![s.l("service"), list(with).l("with")]));
        }
        self.st.table_rows += requires.len() + exports.len() + opens.len() + uses.len() + provides.len();
        Ok(variant(
            "Module",
            vec![
                name.l("name"),
                fl,
                version.l("version"),
                list(requires).l("requires"),
                list(exports).l("exports"),
                list(opens).l("opens"),
                list(uses).l("uses"),
                list(provides).l("provides"),
            ],
        ))
    }
}
