//! Generation of class files: well-formed ones, and ones with a single deliberate flaw.
//! What a generated file means is never decided here but by the reference reader.

use crate::asm::*;
use crate::dict;
use crate::mutf8;
use crate::node::{C03, C05, C06, C08, C09, C10, C11, C12, C16, C17, C18};
use crate::refp::{Place, ATTRS};
use crate::tape::Tape;
use crate::twins;
use std::collections::HashSet;

#[derive(Clone, Copy)]
pub struct Cfg {
    /// percent of texts that are unusual
    pub exotic: u64,
    /// percent of string constants without a decoding
    pub raw: u64,
    pub fields: usize,
    pub methods: usize,
    pub ifs: usize,
    pub class_attrs: usize,
    pub member_attrs: usize,
    /// attribute names to favour
    pub focus: &'static [&'static str],
    /// percent of methods with code
    pub code: u64,
    pub code_len: usize,
    /// percent of module classes
    pub module: u64,
    /// per thousand: something of extreme size
    pub big: u64,
    /// percent of pools padded with unused entries
    pub fill: u64,
    /// additional constants of all kinds
    pub extra_consts: usize,
    /// kinds of deliberate flaw; 0 for none
    pub slip: u32,
    /// percent of files that get one, if any
    pub slip_pct: u64,
    /// percent of entries added a second time though present
    pub dup: u64,
    /// percent of entries placed within reach of ldc
    pub rows: usize,
    pub depth: usize,
    /// prefer versions where everything is permitted
    pub modern: u64,
    /// percent of files with something the properties leave open
    pub open: u64,
}

pub const BASE: Cfg = Cfg {
    exotic: 12,
    raw: 10,
    fields: 3,
    methods: 3,
    ifs: 3,
    class_attrs: 4,
    member_attrs: 3,
    focus: &[],
    code: 50,
    code_len: 20,
    module: 4,
    big: 1,
    fill: 10,
    extra_consts: 4,
    slip: 0,
    slip_pct: 0,
    dup: 4,
    rows: 3,
    depth: 4,
    modern: 60,
    open: 0,
};

pub struct G<'t> {
    pub t: &'t mut Tape,
    pub cfg: Cfg,
    pub pool: PoolB,
    pub w: W,
    pub major: u16,
    pub bsm: usize,
    /// number of slip sites still to pass before one is taken
    slip_in: Option<u64>,
    pub slipped: u32,
    budget: usize,
    pub is_module: bool,
    used_dyn: bool,
    /// the other one of a pair of confusable members
    pending: Option<(String, String)>,
}

const SHORT: &[&str] = &["a", "b", "c", "x", "value", "I", "V", "L", "J", "Code", "foo", "Bar", "this", "java", "lang"];
const LEGAL_ODD: &[char] = &[
    ' ', '-', '(', ')', ':', '@', '\\', '$', '_', '*', '+', ',', '!', '"', '\'', '{', '}', '~', '\u{7f}', '\u{80}',
    '\u{e9}', '\u{7ff}', '\u{800}', '\u{20ac}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{feff}', '\u{2028}', ']', '#', '%', '^', '`',
    '|', '=', '?', '&', '\u{1}', '\n', '\t', '\u{3000}', '\u{4e2d}',
];
const NON_PLAIN: &[char] = &['\0', '\u{10000}', '\u{10ffff}', '\u{1f600}', '\u{103ff}', '\u{10fc00}', '\u{2f800}'];
const BAD: &[char] = &['.', ';', '[', '/'];

impl<'t> G<'t> {
    pub fn new(t: &'t mut Tape, cfg: Cfg) -> G<'t> {
        G {
            t,
            cfg,
            pool: PoolB::default(),
            w: W::default(),
            major: 52,
            bsm: 0,
            slip_in: None,
            slipped: 0,
            budget: 4000,
            is_module: false,
            pending: None,
            used_dyn: false,
        }
    }

    /// Should a deliberate flaw of this kind be made here? At most one per file.
    pub fn slip(&mut self, area: u32) -> bool {
        if self.cfg.slip & area == 0 {
            return false;
        }
        match self.slip_in {
            Some(0) => {
                self.slip_in = None;
                self.slipped |= area;
                true
            }
            Some(n) => {
                self.slip_in = Some(n - 1);
                false
            }
            None => false,
        }
    }
    fn pct(&mut self, p: u64) -> bool {
        p > 0 && self.t.chance(p, 100)
    }
    fn is_big(&mut self) -> bool {
        self.cfg.big > 0 && self.t.chance(self.cfg.big, 3000)
    }
    fn rows(&mut self) -> usize {
        if self.budget == 0 {
            return self.t.us(2);
        }
        let n = if self.budget > 1000 && self.t.chance(1, 1500) {
            match self.t.below(3) {
                0 => self.t.urange(20, 300),
                _ => self.t.num(600) as usize,
            }
        } else {
            self.t.count(self.cfg.rows)
        };
        self.budget = self.budget.saturating_sub(n + 1);
        n
    }

    // ---- texts

    /// A text of some length, of one or two characters.
    fn longish(&mut self) -> String {
        let n = match self.t.below(4) {
            0 => self.t.num(400) as usize,
            1 => self.t.urange(1, 300),
            2 => self.t.urange(1, 80),
            _ => *self.t.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257]),
        };
        let mut s = String::new();
        if self.t.flip() {
            s.push('a');
        }
        let c = self.any_char(false);
        let d = if self.t.flip() { c } else { *self.t.pick(&['\u{e9}', '\u{4e2d}', 'q', '\u{1f600}']) };
        for i in 0..n.max(1) {
            s.push(if i % 2 == 0 { c } else { d });
        }
        s
    }
    fn known(&mut self, from: &[String]) -> String {
        self.t.pick(from).clone()
    }

    fn any_char(&mut self, illegal: bool) -> char {
        match self.t.below(8) {
            0..=2 => (b'a' + self.t.us(26) as u8) as char,
            3 => (b'0' + self.t.us(10) as u8) as char,
            4 | 5 => *self.t.pick(LEGAL_ODD),
            6 => *self.t.pick(NON_PLAIN),
            _ => loop {
                let c = match self.t.below(3) {
                    0 => self.t.below(0x100) as u32,
                    1 => self.t.below(0x1_0000) as u32,
                    _ => self.t.below(0x11_0000) as u32,
                };
                if let Some(c) = char::from_u32(c) {
                    if illegal || !(BAD.contains(&c) || c == '<' || c == '>') {
                        return c;
                    }
                }
                return 'z';
            },
        }
    }

    /// Not validated by anything: any text at all.
    pub fn free(&mut self) -> String {
        if self.pct(self.cfg.exotic) {
            if self.t.chance(1, 12) {
                return self.longish();
            }
            let n = self.t.us(6);
            return (0..n).map(|_| self.any_char(true)).collect();
        }
        match self.t.below(10) {
            8 | 9 => self.known(&dict::get().words),
            0 => String::new(),
            1 => "<T:Ljava/lang/Object;>(TT;)V".into(),
            2 => "Main.java".into(),
            3 if self.is_big() => self.long(),
            _ => self.t.pick(SHORT).to_string(),
        }
    }

    fn long(&mut self) -> String {
        match self.t.below(4) {
            0 => "a".repeat(self.t.urange(254, 258)),
            1 => "ab".repeat(32767) + "c",
            2 => "\u{e9}".repeat(self.t.urange(1, 32767)),
            _ => "z".repeat(self.t.urange(60000, 65535)),
        }
    }

    /// A name ending in a number.
    fn numbered(&mut self, i: usize) -> String {
        let w = match self.t.below(4) {
            0 => self.known(&dict::get().idents),
            _ => self.t.pick(&["arg", "p", "param", "this$", "val$", "access$", "lambda$", "var", "x", "$", "_", "arg_", "component"]).to_string(),
        };
        let n = match self.t.below(4) {
            0 => self.t.us(12),
            1 => i + 1,
            _ => i,
        };
        format!("{}{}", w, n)
    }

    pub fn ident(&mut self, angle: bool) -> String {
        if self.pct(self.cfg.exotic) {
            if self.is_big() {
                return self.long();
            }
            if self.t.chance(1, 12) {
                return self.longish();
            }
            let n = 1 + self.t.us(5);
            let mut s: String = (0..n).map(|_| self.any_char(false)).collect();
            if angle && self.t.chance(1, 4) {
                s.push(*self.t.pick(&['<', '>']));
            }
            return s;
        }
        match self.t.below(8) {
            6 | 7 => self.known(&dict::get().idents),
            0..=3 => self.t.pick(SHORT).to_string(),
            4 if self.t.chance(1, 4) => self.numbered(0),
            4 => format!("{}{}", self.t.pick(SHORT), self.t.below(100)),
            _ => {
                let n = 1 + self.t.us(8);
                (0..n).map(|_| (b'a' + self.t.us(26) as u8) as char).collect()
            }
        }
    }

    pub fn binary(&mut self) -> String {
        if self.t.chance(1, 8) {
            return self.known(&dict::get().binaries);
        }
        let n = match self.t.below(8) {
            0..=2 => 1,
            3 | 4 => 2,
            5 | 6 => 3,
            _ => 1 + self.t.us(8),
        };
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push('/');
            }
            let x = self.ident(true);
            if s.len() + x.len() > 20000 && i > 0 {
                s.push('q');
            } else {
                s.push_str(&x);
            }
        }
        s
    }

    /// A text close to a legal one; possibly legal.
    pub fn spoil(&mut self, s: &str) -> String {
        let mut v: Vec<char> = s.chars().collect();
        match self.t.below(10) {
            0 => v.clear(),
            1..=4 => {
                let c = *self.t.pick(&['.', ';', '[', '/', '<', '>', '/', '(', ')', 'V', 'L', '\0', ' ', '\u{1f600}', ':', '@', '\\', '\u{1f}', '\u{20}', '\u{85}']);
                let i = self.t.us(v.len() + 1);
                v.insert(i, c);
            }
            5 => v.push(*self.t.pick(&['/', ';', '.', '[', 'V', 'I', ' '])),
            6 => v.insert(0, *self.t.pick(&['/', '[', '<', '(', 'L', ';'])),
            7 => {
                if !v.is_empty() {
                    let i = self.t.us(v.len());
                    v.remove(i);
                }
            }
            8 => {
                if !v.is_empty() {
                    let i = self.t.us(v.len());
                    v[i] = *self.t.pick(&['.', ';', '[', '/', '<', '>', ')', '(', 'Q', 'l']);
                }
            }
            _ => {
                v.pop();
            }
        }
        v.into_iter().collect()
    }

    fn dims(&mut self) -> usize {
        match self.t.below(16) {
            0..=9 => 0,
            10..=12 => 1,
            13 => 2,
            14 => self.t.us(6),
            _ => *self.t.pick(&[3usize, 127, 128, 254, 255]),
        }
    }

    pub fn fdesc(&mut self) -> String {
        let d = self.dims();
        self.fdesc_dims(d)
    }

    fn fdesc_dims(&mut self, d: usize) -> String {
        let mut s = "[".repeat(d);
        match self.t.below(16) {
            0..=7 => s.push(*self.t.pick(&['I', 'B', 'C', 'D', 'F', 'J', 'S', 'Z'])),
            8 => s.push_str("Ljava/lang/String;"),
            _ => {
                s.push('L');
                let b = self.binary();
                s.push_str(&b);
                s.push(';');
            }
        }
        s
    }

    pub fn mdesc(&mut self) -> String {
        let mut s = String::from("(");
        let n = match self.t.below(16) {
            0..=11 => self.t.us(4),
            12..=14 => self.t.us(12),
            _ => *self.t.pick(&[20usize, 63, 127, 128, 200, 253, 254, 255]),
        };
        let most = if n > 20 && self.t.chance(1, 4) { 2000 } else { 255 };
        let n = if most > 255 { *self.t.pick(&[256usize, 257, 300, 1000]) } else { n };
        let mut slots = 0;
        for i in 0..n {
            let x = if i < 20 { self.fdesc() } else { self.t.pick(&["I", "[J", "La;", "Z"]).to_string() };
            let k = if x == "J" || x == "D" { 2 } else { 1 };
            if slots + k > most || s.len() + x.len() > 30000 {
                break;
            }
            slots += k;
            s.push_str(&x);
        }
        s.push(')');
        match self.t.below(3) {
            0 => s.push('V'),
            _ => {
                let r = self.fdesc();
                s.push_str(&r);
            }
        }
        s
    }

    fn bad_desc(&mut self, s: &str) -> String {
        match self.t.below(12) {
            0 => format!("{}{}", "[".repeat(256 - s.bytes().take_while(|c| *c == b'[').count().min(255)), s),
            1 => "V".into(),
            2 => "[V".into(),
            3 => format!("{}{}", s, self.t.pick(&["V", ";", "I", "x", " ", "\u{e9}", "()V", ")", "\0"])),
            4 => self.t.pick(&["L;", "La", "La//b;", "L/a;", "La/;", "La.b;", "L[a;", "[", "()", "(V)V", "(I", "I)V", "(I)", "(I)VV", "(La)V", "([)V", "", "T", "Q", "i", "LI", "(L;)V", "()[V", "()L;", "(()V)V", "((I)V", "(I))V", "E", "La;;", "([V)V", "(I)VI"]).to_string(),
            5 => format!("({})V", "I".repeat(256)),
            6 => format!("(J{})V", "I".repeat(254)),
            _ => self.spoil(s),
        }
    }

    // ---- pool entries

    pub fn add(&mut self, e: Ent) -> H {
        if self.cfg.dup > 0 && self.pool.slots < 30000 && self.pct(self.cfg.dup) {
            self.pool.fresh(e)
        } else {
            self.pool.add(e)
        }
    }
    pub fn utf(&mut self, s: &str) -> H {
        let mut b = mutf8::encode(s);
        if b.len() > 65535 {
            b = b"too_long".to_vec();
        }
        self.add(Ent::Utf8(b))
    }
    fn raw_bytes(&mut self) -> Vec<u8> {
        let mut v: Vec<u8> = Vec::new();
        let n = 1 + self.t.us(3);
        let at = self.t.us(n);
        for i in 0..n {
            if i == at {
                let x: &[u8] = match self.t.below(16) {
                    0 => &[0xED, 0xA0, 0x80],
                    1 => &[0xED, 0xB0, 0x80],
                    2 => &[0xED, 0xB0, 0x80, 0xED, 0xA0, 0x80],
                    3 => &[0x80],
                    4 => &[0xBF],
                    5 => &[0xC3],
                    6 => &[0xC1, 0x81],
                    7 => &[0xC0, 0x81],
                    8 => &[0xE0, 0x80, 0x80],
                    9 => &[0xE0, 0x9F, 0xBF],
                    10 => &[0xFF],
                    11 => &[0xF0, 0x9F, 0x98],
                    12 => &[0xE2, 0x82],
                    13 => &[0xED, 0xA0, 0xBD, b'a', 0xED, 0xB8, 0x80],
                    14 => &[0xED, 0xA0, 0xBD, 0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80],
                    _ => &[0xED, 0xAF, 0xBF],
                };
                v.extend_from_slice(x);
            } else {
                let s = self.free();
                v.extend_from_slice(&mutf8::encode(&s));
            }
        }
        v.truncate(65535);
        v
    }
    /// The bytes of a string constant.
    pub fn string_bytes(&mut self) -> H {
        if self.pct(self.cfg.raw) {
            let b = self.raw_bytes();
            self.add(Ent::Utf8(b))
        } else {
            let s = self.free();
            self.utf(&s)
        }
    }
    /// Free text where it must be representable.
    pub fn free_h(&mut self, area: u32) -> H {
        if self.slip(area | C06) {
            if self.t.flip() {
                let b = self.raw_bytes();
                return self.add(Ent::Utf8(b));
            }
            return self.wrong_entry();
        }
        let s = self.free();
        self.utf(&s)
    }
    /// Some entry that is probably of the wrong kind.
    pub fn wrong_entry(&mut self) -> H {
        match self.t.below(8) {
            0 => {
                let v = self.t.b32();
                self.add(Ent::Int(v as i32))
            }
            1 => {
                let u = self.utf("w");
                self.add(Ent::Class(u))
            }
            2 => {
                let u = self.utf("w");
                self.add(Ent::Str(u))
            }
            3 => self.utf("w"),
            4 => {
                let n = self.utf("w");
                let d = self.utf("I");
                self.add(Ent::Nat(n, d))
            }
            5 => {
                let v = self.t.b64();
                self.add(Ent::Long(v as i64))
            }
            6 => {
                let v = self.t.b64();
                self.add(Ent::Double(v))
            }
            _ => {
                if self.pool.ents.is_empty() {
                    self.utf("w")
                } else {
                    self.t.us(self.pool.ents.len())
                }
            }
        }
    }
    /// Replace a handle by some other entry, if a flaw is due here.
    fn maybe_wrong(&mut self, h: H, area: u32) -> H {
        if self.slip(area | C05) {
            self.wrong_entry()
        } else {
            h
        }
    }
    fn fdesc_h(&mut self, area: u32) -> H {
        let mut s = self.fdesc();
        if self.slip(area | C16) {
            s = self.bad_desc(&s);
        }
        let h = self.utf(&s);
        self.maybe_wrong(h, area)
    }
    fn ident_h(&mut self, angle: bool, area: u32) -> H {
        let mut s = self.ident(angle);
        if self.slip(area | C17) {
            s = self.spoil(&s);
        }
        let h = self.utf(&s);
        self.maybe_wrong(h, area)
    }
    pub fn class_named(&mut self, name: &str) -> H {
        let u = self.utf(name);
        self.add(Ent::Class(u))
    }
    /// A class entry naming a class or interface, not an array.
    pub fn plain_class(&mut self, area: u32) -> H {
        let mut s = self.binary();
        if self.slip(area | C17) {
            s = if self.t.chance(1, 4) { self.fdesc_dims(1) } else { self.spoil(&s) };
        }
        let u = self.utf(&s);
        let u = self.maybe_wrong(u, area);
        let h = self.add(Ent::Class(u));
        self.maybe_wrong(h, area)
    }
    /// A class entry which may name an array type.
    pub fn any_class(&mut self, area: u32) -> H {
        if self.t.chance(1, 4) {
            let d = self.dims().max(1);
            let mut s = self.fdesc_dims(d);
            if self.slip(area | C16) {
                s = self.bad_desc(&s);
            }
            let u = self.utf(&s);
            let h = self.add(Ent::Class(u));
            self.maybe_wrong(h, area)
        } else {
            self.plain_class(area)
        }
    }
    fn nat(&mut self, name: &str, desc: &str) -> H {
        let (mut n, mut d) = (name.to_string(), desc.to_string());
        if self.slip(C17) {
            n = self.spoil(&n);
        }
        if self.slip(C16) {
            d = self.bad_desc(&d);
        }
        let nh = self.utf(&n);
        let nh = self.maybe_wrong(nh, C05);
        let dh = self.utf(&d);
        let dh = self.maybe_wrong(dh, C05);
        let h = self.add(Ent::Nat(nh, dh));
        self.maybe_wrong(h, C05)
    }
    pub fn field_ref(&mut self) -> H {
        let c = self.any_class(C05);
        let mut n = self.ident(true);
        if n.starts_with('<') {
            n.insert(0, 'f');
        }
        let d = if self.slip(C05 | C16) { self.mdesc() } else { self.fdesc() };
        let m = self.nat(&n, &d);
        let h = self.add(Ent::Field(c, m));
        self.maybe_wrong(h, C05)
    }
    /// which: 0 ordinary method, 1 instance initializer
    pub fn method_ref(&mut self, interface: bool, init: bool) -> H {
        let c = self.any_class(C05);
        let (n, d) = if init {
            let mut d = self.mdesc();
            let cut = d.rfind(')').unwrap();
            d.truncate(cut + 1);
            d.push('V');
            ("<init>".to_string(), d)
        } else {
            (self.ident(false), if self.slip(C05 | C16) { self.fdesc() } else { self.mdesc() })
        };
        let m = self.nat(&n, &d);
        let h = self.add(if interface { Ent::IMethod(c, m) } else { Ent::Method(c, m) });
        self.maybe_wrong(h, C05)
    }
    pub fn handle(&mut self) -> H {
        let mut k = 1 + self.t.below(9) as u8;
        let r = match k {
            1..=4 => self.field_ref(),
            5 => self.method_ref(false, false),
            6 | 7 => {
                let i = self.major >= 52 && self.t.flip();
                self.method_ref(i, false)
            }
            8 => self.method_ref(false, true),
            _ => self.method_ref(true, false),
        };
        if self.slip(C05) {
            k = match self.t.below(4) {
                0 => 0,
                1 => 10,
                2 => self.t.b8(),
                _ => 1 + self.t.below(9) as u8,
            };
        }
        self.add(Ent::Handle(k, r))
    }
    pub fn mtype(&mut self) -> H {
        let mut d = self.mdesc();
        if self.slip(C05 | C16) {
            d = self.bad_desc(&d);
        }
        let u = self.utf(&d);
        let u = self.maybe_wrong(u, C05);
        self.add(Ent::MType(u))
    }
    fn bsm_index(&mut self) -> u16 {
        self.used_dyn = true;
        if self.bsm == 0 {
            return 0;
        }
        if self.t.chance(1, 3) {
            (self.bsm - 1) as u16
        } else {
            self.t.us(self.bsm) as u16
        }
    }
    pub fn condy(&mut self, wide: bool) -> H {
        let n = self.ident(true);
        let d = if wide { self.t.pick(&["J", "D"]).to_string() } else { self.fdesc() };
        let d = if !wide && (d == "J" || d == "D") { "I".to_string() } else { d };
        let n = if n.starts_with('<') { format!("q{}", n) } else { n };
        let m = self.nat(&n, &d);
        let i = self.bsm_index();
        self.add(Ent::Dyn(i, m))
    }
    pub fn indy(&mut self) -> H {
        let n = self.ident(false);
        let d = self.mdesc();
        let m = self.nat(&n, &d);
        let i = self.bsm_index();
        self.add(Ent::Indy(i, m))
    }
    pub fn can_dyn(&self) -> bool {
        self.major >= 51 && self.bsm > 0
    }
    pub fn string(&mut self) -> H {
        let u = self.string_bytes();
        let u = self.maybe_wrong(u, C05);
        self.add(Ent::Str(u))
    }
    /// A loadable constant: eight bytes wide or not.
    pub fn loadable(&mut self, wide: bool) -> H {
        if wide {
            return match self.t.below(if self.major >= 55 && self.bsm > 0 { 5 } else { 4 }) {
                0 | 1 => {
                    let v = self.t.b64();
                    self.add(Ent::Long(v as i64))
                }
                2 | 3 => {
                    let v = self.t.b64();
                    self.add(Ent::Double(v))
                }
                _ => self.condy(true),
            };
        }
        let mut n = 4;
        if self.major >= 49 {
            n = 5;
        }
        if self.major >= 51 {
            n = 7;
        }
        if self.major >= 55 && self.bsm > 0 {
            n = 8;
        }
        match self.t.below(n) {
            0 => {
                let v = self.t.b32();
                self.add(Ent::Int(v as i32))
            }
            1 => {
                let v = self.t.b32();
                self.add(Ent::Float(v))
            }
            2 | 3 => self.string(),
            4 => self.any_class(C05),
            5 => self.handle(),
            6 => self.mtype(),
            _ => self.condy(false),
        }
    }
    fn any_const(&mut self) -> H {
        match self.t.below(12) {
            0 => self.string(),
            1 => self.field_ref(),
            2 => self.method_ref(false, false),
            3 => self.method_ref(true, false),
            4 => self.method_ref(false, true),
            5 => {
                let n = self.ident(true);
                let d = if self.t.flip() { self.fdesc() } else { self.mdesc() };
                self.nat(&n, &d)
            }
            6 => self.any_class(C05),
            7 if self.can_dyn() => self.indy(),
            8 if self.major >= 51 => self.handle(),
            9 if self.major >= 51 => self.mtype(),
            10 => self.loadable(true),
            11 if self.slip(C05) => {
                // an entry of an undefined or not yet permitted kind
                let tag = match self.t.below(4) {
                    0 => *self.t.pick(&[0u8, 2, 13, 14, 21, 22, 255, 128]),
                    1 => *self.t.pick(&[15u8, 16, 17, 18, 19, 20]),
                    _ => self.t.bits(8) as u8,
                };
                let n = self.t.us(6);
                let b = (0..n).map(|_| self.t.below(4) as u8).collect();
                self.pool.fresh(Ent::Odd(tag, b))
            }
            _ => self.loadable(false),
        }
    }
    pub fn low(&mut self, h: H) -> H {
        if !self.pool.low[h] && self.pool.low_count() < 240 {
            self.pool.low[h] = true;
        }
        h
    }

    // ---- attributes

    fn applicable(&self, place: Place) -> Vec<&'static str> {
        let mut v = Vec::new();
        for (n, first, places, _, _) in ATTRS {
            if !places.contains(&place) || self.major < *first {
                continue;
            }
            if matches!(*n, "Code" | "BootstrapMethods" | "Module" | "ModulePackages" | "ModuleMainClass") {
                continue;
            }
            v.push(*n);
        }
        v
    }

    pub fn attributes(&mut self, place: Place, fixed: Vec<&'static str>, max: usize) {
        let mut names: Vec<&'static str> = fixed;
        let pool = self.applicable(place);
        let n = self.t.us(max + 1);
        let mut used: HashSet<&'static str> = names.iter().copied().collect();
        for _ in 0..n {
            if self.t.chance(1, 8) {
                names.push("?");
                continue;
            }
            let focus: Vec<&'static str> =
                if self.cfg.focus.is_empty() { vec![] } else { pool.iter().copied().filter(|x| self.cfg.focus.contains(x)).collect() };
            let c = if !focus.is_empty() && self.t.chance(3, 4) {
                *self.t.pick(&focus)
            } else if pool.is_empty() {
                "?"
            } else {
                *self.t.pick(&pool)
            };
            let many = ATTRS.iter().any(|a| a.0 == c && !a.3);
            if c != "?" && !many && used.contains(c) && !(self.cfg.open > 0 && self.pct(self.cfg.open)) {
                continue;
            }
            used.insert(c);
            names.push(c);
        }
        if self.cfg.open > 0 && self.pct(self.cfg.open) {
            names.push(self.t.pick(ATTRS).0);
        }
        if names.len() > 1 && self.t.flip() {
            self.t.shuffle(&mut names);
        }
        let extra = self.slip(C08);
        let nattrs = names.len() + if extra { *self.t.pick(&[1usize, 0x100]) } else { 0 };
        self.w.count(nattrs);
        for n in names {
            self.attribute(n, place);
        }
    }

    fn other_attr(&mut self) {
        let name = match self.t.below(6) {
            0 => "Unknown".to_string(),
            1 => self.t.pick(&["code", "Code2", "Cod", "ConstantValues", "RuntimeVisibleAnnotation", "Scala", "ScalaSig", "", " Code", "module", "Records"]).to_string(),
            2 => "org.example.Attr".to_string(),
            _ => {
                let s = self.free();
                if ATTRS.iter().any(|a| a.0 == s) {
                    "x".into()
                } else {
                    s
                }
            }
        };
        let h = self.utf(&name);
        let h = self.maybe_wrong(h, C08);
        let m = self.w.begin_attr(h);
        let n = if self.is_big() { *self.t.pick(&[65535usize, 65536, 65537, 100000]) } else { self.t.count(12) };
        let b: Vec<u8> = if n > 200 {
            vec![0xA5; n]
        } else {
            (0..n).map(|_| self.t.b8()).collect()
        };
        self.w.bytes(Sk::Bytes, &b);
        self.end(m, 0);
    }

    /// Finish an attribute, possibly with a wrong length or stray contents.
    fn end(&mut self, m: usize, area: u32) {
        if self.slip(area | C08) {
            match self.t.below(3) {
                0 => {
                    // stray bytes inside
                    let n = 1 + self.t.us(4);
                    for _ in 0..n {
                        let v = self.t.below(3) as u8;
                        self.w.u1(Sk::Bytes, v);
                    }
                    self.w.end_attr(m);
                }
                1 => {
                    self.w.end_attr(m);
                    let n = (self.w.b.len() - m) as u32;
                    let v = match self.t.below(5) {
                        0 => n + 1,
                        1 => n.saturating_sub(1),
                        2 => 0,
                        3 => u32::MAX,
                        _ => n + self.t.below(20) as u32,
                    };
                    self.w.b[m - 4..m].copy_from_slice(&v.to_be_bytes());
                }
                _ => {
                    self.w.end_attr(m);
                    let n = 1 + self.t.us(3);
                    for _ in 0..n {
                        self.w.u1(Sk::Bytes, 0);
                    }
                }
            }
        } else {
            self.w.end_attr(m);
        }
    }

    fn class_list(&mut self, area: u32) {
        let n = if self.is_big() { 65535 } else { self.rows() };
        self.w.count(n);
        let fixed = if n > 1000 { Some(self.any_class(area)) } else { None };
        for _ in 0..n {
            let h = match fixed {
                Some(h) => h,
                None => self.any_class(area),
            };
            self.w.r(h);
        }
    }

    fn attribute(&mut self, name: &'static str, place: Place) {
        if name == "?" {
            return self.other_attr();
        }
        let area = ATTRS.iter().find(|a| a.0 == name).unwrap().4;
        let h = self.utf(name);
        let m = self.w.begin_attr(h);
        match name {
            "ConstantValue" => {
                let h = match self.t.below(5) {
                    0 => {
                        let v = self.t.b32();
                        self.add(Ent::Int(v as i32))
                    }
                    1 => {
                        let v = self.t.b32();
                        self.add(Ent::Float(v))
                    }
                    2 => self.loadable_plain_wide(),
                    _ => self.string(),
                };
                let h = self.maybe_wrong(h, area);
                self.w.r(h);
            }
            "Code" => self.code_attr(),
            "StackMapTable" => {
                let n = if self.is_big() { 65535 } else { self.rows() };
                self.w.count(n);
                for i in 0..n {
                    if i > 3000 {
                        self.w.u1(Sk::Tag, (i % 64) as u8);
                    } else {
                        self.frame();
                    }
                }
            }
            "Exceptions" | "NestMembers" | "PermittedSubclasses" => self.class_list(area),
            "InnerClasses" => {
                let n = if self.is_big() { 65535 } else { self.rows() };
                self.w.count(n);
                let c0 = self.any_class(area);
                for i in 0..n {
                    let small = i < 500;
                    let inner = if small { self.any_class(area) } else { c0 };
                    self.w.r(inner);
                    let outer = if small && self.t.flip() { Some(self.any_class(area)) } else { None };
                    self.w.ropt(outer);
                    let nm = if small && self.t.flip() { Some(self.free_h(area)) } else { None };
                    self.w.ropt(nm);
                    let f = if small { self.flags(0x761F) } else { i as u16 };
                    self.w.u2(Sk::Flags, f);
                }
            }
            "EnclosingMethod" => {
                let c = self.any_class(area);
                self.w.r(c);
                let nt = if self.t.flip() {
                    let n = self.ident(false);
                    let d = self.mdesc();
                    let h = self.nat(&n, &d);
                    Some(self.maybe_wrong(h, area))
                } else {
                    None
                };
                self.w.ropt(nt);
            }
            "Synthetic" | "Deprecated" => {}
            "Signature" | "SourceFile" => {
                let h = self.free_h(area);
                self.w.r(h);
            }
            "SourceDebugExtension" => {
                let b = if self.slip(C06 | C11) {
                    self.raw_bytes()
                } else {
                    let s = if self.is_big() { "d".repeat(70000) } else { self.free() };
                    mutf8::encode(&s)
                };
                self.w.bytes(Sk::Bytes, &b);
            }
            "LineNumberTable" => {
                let n = if self.is_big() { 65535 } else { self.rows() };
                self.w.count(n);
                for i in 0..n {
                    let (a, b) = if i < 3000 { (self.t.b16(), self.t.b16()) } else { (i as u16, 65535 - i as u16) };
                    self.w.u2(Sk::Num, a);
                    self.w.u2(Sk::Num, b);
                }
            }
            "LocalVariableTable" | "LocalVariableTypeTable" => {
                let n = if self.is_big() { *self.t.pick(&[1000usize, 65535]) } else { self.rows() };
                self.w.count(n);
                let mut last = None;
                for i in 0..n {
                    let (s, l) = if i < 500 { (self.t.b16(), self.t.b16()) } else { (i as u16, 1) };
                    self.w.u2(Sk::Num, s);
                    self.w.u2(Sk::Num, l);
                    let (nm, d) = match (i < 500, last) {
                        (false, Some(x)) => x,
                        _ => {
                            let nm = self.ident_h(true, area);
                            let d = if name == "LocalVariableTable" { self.fdesc_h(area) } else { self.free_h(area) };
                            (nm, d)
                        }
                    };
                    last = Some((nm, d));
                    self.w.r(nm);
                    self.w.r(d);
                    let ix = self.t.b16();
                    self.w.u2(Sk::Num, ix);
                }
            }
            "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations" => self.annotations(),
            "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" => {
                let n = if self.is_big() { 255 } else { self.rows().min(255) };
                self.w.u1(Sk::Count, n as u8);
                for _ in 0..n {
                    self.annotations();
                }
            }
            "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations" => {
                let n = self.rows();
                self.w.count(n);
                for _ in 0..n {
                    self.type_annotation();
                }
            }
            "AnnotationDefault" => {
                let d = self.t.us(self.cfg.depth + 1);
                self.element_value(d);
            }
            "BootstrapMethods" => {
                let mut n = self.bsm;
                if self.slip(C18) {
                    n = self.t.us(n + 1);
                }
                self.w.count(n);
                let mut last = None;
                for i in 0..n {
                    if let (true, Some(h)) = (i > 200, last) {
                        self.w.r(h);
                        self.w.count(0);
                        continue;
                    }
                    let h = self.handle();
                    let h = self.maybe_wrong(h, area);
                    last = Some(h);
                    self.w.r(h);
                    let k = self.rows();
                    self.w.count(k);
                    for _ in 0..k {
                        let wide = self.t.chance(1, 4);
                        let h = self.loadable(wide);
                        let h = self.maybe_wrong(h, area);
                        self.w.r(h);
                    }
                }
            }
            "MethodParameters" => {
                let n = if self.is_big() { 255 } else { self.rows().min(255) };
                self.w.u1(Sk::Count, n as u8);
                for i in 0..n {
                    let nm = match self.t.below(16) {
                        0..=3 => None,
                        4 => {
                            // what a compiler makes up
                            let s = self.numbered(i);
                            Some(self.utf(&s))
                        }
                        _ => Some(self.ident_h(true, area)),
                    };
                    self.w.ropt(nm);
                    let mut f = self.flags(0x9010) & 0x9010;
                    if self.slip(area) {
                        f ^= 1 << self.t.below(16);
                    }
                    self.w.u2(Sk::Flags, f);
                }
            }
            "Module" => self.module_attr(),
            "ModulePackages" => {
                let n = if self.is_big() { 65535 } else { self.rows() };
                self.w.count(n);
                let mut last = None;
                for i in 0..n {
                    let h = match (i < 500, last) {
                        (false, Some(h)) => h,
                        _ => self.package(),
                    };
                    last = Some(h);
                    self.w.r(h);
                }
            }
            "ModuleMainClass" | "NestHost" => {
                let h = self.any_class(area);
                self.w.r(h);
            }
            "Record" => {
                let n = self.rows();
                self.w.count(n);
                for _ in 0..n {
                    let nm = self.ident_h(true, area);
                    self.w.r(nm);
                    let d = self.fdesc_h(area);
                    self.w.r(d);
                    self.attributes(Place::Record, vec![], self.cfg.member_attrs);
                }
            }
            _ => unreachable!("{} {:?}", name, place),
        }
        self.end(m, area);
    }

    fn loadable_plain_wide(&mut self) -> H {
        let v = self.t.b64();
        if self.t.flip() {
            self.add(Ent::Long(v as i64))
        } else {
            self.add(Ent::Double(v))
        }
    }

    fn flags(&mut self, defined: u16) -> u16 {
        match self.t.below(6) {
            0 => 0,
            1 => defined,
            2 => 1 << self.t.below(16),
            3 => !defined,
            4 => self.t.bits(16) as u16,
            _ => self.t.bits(16) as u16 & defined,
        }
    }

    fn verif(&mut self) {
        let mut t = self.t.below(9) as u8;
        if self.slip(C09) {
            t = match self.t.below(3) {
                0 => 9,
                1 => 10,
                _ => self.t.b8(),
            };
        }
        self.w.u1(Sk::Tag, t);
        match t {
            7 => {
                let h = self.any_class(C09);
                self.w.r(h);
            }
            8 => {
                let v = self.t.b16();
                self.w.u2(Sk::Num, v);
            }
            _ => {}
        }
    }

    fn frame(&mut self) {
        let mut ty = match self.t.below(8) {
            0 => self.t.below(64) as u8,
            1 => 64 + self.t.below(64) as u8,
            2 => 247,
            3 => 248 + self.t.below(3) as u8,
            4 => 251,
            5 => 252 + self.t.below(3) as u8,
            6 => 255,
            _ => *self.t.pick(&[0u8, 63, 64, 127, 247, 248, 250, 251, 252, 254, 255]),
        };
        if self.slip(C09) {
            ty = match self.t.below(4) {
                0 => 128,
                1 => 246,
                2 => 128 + self.t.below(119) as u8,
                _ => self.t.bits(8) as u8,
            };
        }
        self.w.u1(Sk::Tag, ty);
        match ty {
            0..=63 | 128..=246 => {}
            64..=127 => self.verif(),
            247 => {
                let d = self.t.b16();
                self.w.u2(Sk::Num, d);
                self.verif();
            }
            248..=251 => {
                let d = self.t.b16();
                self.w.u2(Sk::Num, d);
            }
            252..=254 => {
                let d = self.t.b16();
                self.w.u2(Sk::Num, d);
                for _ in 0..ty - 251 {
                    self.verif();
                }
            }
            255 => {
                let d = self.t.b16();
                self.w.u2(Sk::Num, d);
                for _ in 0..2 {
                    let n = self.rows();
                    self.w.count(n);
                    for _ in 0..n {
                        self.verif();
                    }
                }
            }
        }
    }

    fn annotations(&mut self) {
        let n = self.rows();
        self.w.count(n);
        for _ in 0..n {
            let d = self.t.us(self.cfg.depth + 1);
            self.annotation(d);
        }
    }

    fn annotation(&mut self, depth: usize) {
        let t = self.fdesc_h(C10);
        self.w.r(t);
        let n = self.rows();
        self.w.count(n);
        for _ in 0..n {
            let nm = self.free_h(C10);
            self.w.r(nm);
            self.element_value(depth);
        }
    }

    fn element_value(&mut self, depth: usize) {
        let deep = depth > 0 && self.budget > 0;
        let mut k = match self.t.below(if deep { 18 } else { 12 }) {
            0 => b'I',
            1 => b'B',
            2 => b'C',
            3 => b'S',
            4 => b'Z',
            5 => b'D',
            6 => b'F',
            7 => b'J',
            8 | 9 => b's',
            10 => b'e',
            11 => b'c',
            12..=14 => b'[',
            _ => b'@',
        };
        if self.slip(C10) {
            k = match self.t.below(3) {
                0 => *self.t.pick(b"ABGbEVsLZz\0\xffijd"),
                1 => *self.t.pick(b"BCDFIJSZsec"),
                _ => self.t.bits(8) as u8,
            };
        }
        self.w.u1(Sk::Tag, k);
        match k {
            b'@' => return self.annotation(depth.saturating_sub(1)),
            b'[' => {
                let n = self.rows();
                self.w.count(n);
                for _ in 0..n {
                    self.element_value(depth.saturating_sub(1));
                }
                return;
            }
            b'e' => {
                let t = self.fdesc_h(C10);
                self.w.r(t);
            }
            _ => {}
        }
        let h = match k {
            b'D' => {
                let v = self.t.b64();
                self.add(Ent::Double(v))
            }
            b'F' => {
                let v = self.t.b32();
                self.add(Ent::Float(v))
            }
            b'J' => {
                let v = self.t.b64();
                self.add(Ent::Long(v as i64))
            }
            b's' => self.string_bytes(),
            b'e' => self.free_h(C10),
            b'c' => {
                let mut s = if self.t.chance(1, 4) { "V".to_string() } else { self.fdesc() };
                if self.slip(C10 | C16) {
                    s = self.bad_desc(&s);
                }
                self.utf(&s)
            }
            _ => {
                let v = self.t.b32();
                self.add(Ent::Int(v as i32))
            }
        };
        let h = self.maybe_wrong(h, C10);
        self.w.r(h);
    }

    fn type_annotation(&mut self) {
        const T: &[u8] = &[
            0x00, 0x01, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47,
            0x48, 0x49, 0x4A, 0x4B,
        ];
        let mut k = *self.t.pick(T);
        if self.slip(C10) {
            k = match self.t.below(3) {
                0 => *self.t.pick(&[0x02u8, 0x0f, 0x18, 0x3f, 0x4c, 0x50, 0xff]),
                1 => *self.t.pick(T),
                _ => self.t.bits(8) as u8,
            };
        }
        self.w.u1(Sk::Tag, k);
        match k {
            0x00 | 0x01 | 0x16 => {
                let v = self.t.b8();
                self.w.u1(Sk::Num, v);
            }
            0x11 | 0x12 => {
                let v = self.t.b8();
                self.w.u1(Sk::Num, v);
                let v = self.t.b8();
                self.w.u1(Sk::Num, v);
            }
            0x10 | 0x17 | 0x42..=0x46 => {
                let v = self.t.b16();
                self.w.u2(Sk::Num, v);
            }
            0x40 | 0x41 => {
                let n = self.rows();
                self.w.count(n);
                for _ in 0..3 * n {
                    let v = self.t.b16();
                    self.w.u2(Sk::Num, v);
                }
            }
            0x47..=0x4B => {
                let v = self.t.b16();
                self.w.u2(Sk::Num, v);
                let v = self.t.b8();
                self.w.u1(Sk::Num, v);
            }
            _ => {}
        }
        let n = if self.is_big() { 255 } else { self.rows().min(255) };
        self.w.u1(Sk::Count, n as u8);
        for _ in 0..n {
            let mut k = self.t.below(4) as u8;
            if self.slip(C10) {
                k = if self.t.flip() { 4 } else { self.t.b8() };
            }
            self.w.u1(Sk::Tag, k);
            let v = self.t.b8();
            self.w.u1(Sk::Num, v);
        }
        let d = self.t.us(self.cfg.depth + 1);
        self.annotation(d);
    }

    fn module_name(&mut self) -> H {
        let mut s = String::new();
        let n = 1 + self.t.us(3);
        for i in 0..n {
            if i > 0 {
                s.push('.');
            }
            let x = self.ident(true);
            for c in x.chars() {
                match c {
                    '\\' | ':' | '@' => {
                        s.push('\\');
                        s.push(c);
                    }
                    c if (c as u32) <= 0x1F => s.push('u'),
                    c => s.push(c),
                }
            }
        }
        if self.t.chance(1, 8) {
            s.push_str(self.t.pick(&["/", ";", "[", "\\\\", "\\:", "\\@", " "]));
        }
        if self.slip(C12 | C17) {
            let i = s.len() - s.chars().last().map_or(0, |c| c.len_utf8());
            let c = self.t.pick(&["\\", ":", "@", "\u{1f}", "\u{1}", "\0", "\\x", "\\u", "", "\u{80}"]);
            if self.t.flip() {
                s.push_str(c);
            } else {
                s.insert_str(i, c);
            }
        }
        let u = self.utf(&s);
        let u = self.maybe_wrong(u, C12);
        let h = self.add(Ent::Module(u));
        self.maybe_wrong(h, C12)
    }
    fn package(&mut self) -> H {
        let mut s = self.binary();
        if self.slip(C12 | C17) {
            s = self.spoil(&s);
        }
        let u = self.utf(&s);
        let u = self.maybe_wrong(u, C12);
        let h = self.add(Ent::Package(u));
        self.maybe_wrong(h, C12)
    }
    fn mflags(&mut self, mask: u16) {
        let mut f = self.flags(mask) & mask;
        if self.slip(C12) {
            f ^= 1 << self.t.below(16);
        }
        self.w.u2(Sk::Flags, f);
    }
    fn module_attr(&mut self) {
        let n = self.module_name();
        self.w.r(n);
        self.mflags(0x9020);
        let v = if self.t.flip() { Some(self.free_h(C12)) } else { None };
        self.w.ropt(v);
        let n = self.rows();
        self.w.count(n);
        for _ in 0..n {
            let h = self.module_name();
            self.w.r(h);
            self.mflags(0x9060);
            let v = if self.t.flip() { Some(self.free_h(C12)) } else { None };
            self.w.ropt(v);
        }
        for _ in 0..2 {
            let n = self.rows();
            self.w.count(n);
            for _ in 0..n {
                let h = self.package();
                self.w.r(h);
                self.mflags(0x9000);
                let k = self.rows();
                self.w.count(k);
                for _ in 0..k {
                    let h = self.module_name();
                    self.w.r(h);
                }
            }
        }
        let n = self.rows();
        self.w.count(n);
        for _ in 0..n {
            let h = self.any_class(C12);
            self.w.r(h);
        }
        let n = self.rows();
        self.w.count(n);
        for _ in 0..n {
            let h = self.any_class(C12);
            self.w.r(h);
            let k = self.rows();
            self.w.count(k);
            for _ in 0..k {
                let h = self.any_class(C12);
                self.w.r(h);
            }
        }
    }

    fn code_attr(&mut self) {
        let s = self.t.b16();
        let l = self.t.b16();
        self.w.u2(Sk::Num, s);
        self.w.u2(Sk::Num, l);
        self.code_array();
        let n = if self.is_big() { *self.t.pick(&[1000usize, 65535]) } else { self.rows() };
        self.w.count(n);
        for i in 0..n {
            for _ in 0..3 {
                let v = if i < 500 { self.t.b16() } else { i as u16 };
                self.w.u2(Sk::Num, v);
            }
            let c = if i < 500 && self.t.flip() { Some(self.any_class(C09)) } else { None };
            self.w.ropt(c);
        }
        self.attributes(Place::Code, vec![], self.cfg.member_attrs);
    }

    // ---- members and the class

    fn fresh_pair(&mut self, seen: &mut HashSet<(String, String)>, all: &[(String, String)], name: String, desc: String) -> (String, String) {
        let (mut n, mut d) = (name, desc);
        if let Some((a, b)) = self.pending.take() {
            if !seen.contains(&(a.clone(), b.clone())) {
                return (a, b);
            }
        }
        if !n.starts_with('<') && self.t.chance(1, 14) {
            let (kind, form, flip) = (self.t.us(twins::KINDS), self.t.us(twins::FORMS), self.t.flip());
            let (x, y) = twins::pair(d.starts_with('('), kind, form);
            let (x, y) = if flip { (y, x) } else { (x, y) };
            (n, d) = x;
            self.pending = Some(y);
        }
        if !all.is_empty() && self.slip(C18) {
            // a duplicate of an earlier member
            return all[self.t.us(all.len())].clone();
        }
        if !all.is_empty() && self.t.chance(1, 4) {
            // same name as another
            let k = self.t.us(all.len());
            if !all[k].0.starts_with('<') {
                n = all[k].0.clone();
            }
        }
        let mut i = 0;
        while seen.contains(&(n.clone(), d.clone())) {
            if n.starts_with('<') {
                n = "m".into();
            }
            n.push(if n.len() > 60000 { break } else { (b'a' + (i % 26) as u8) as char });
            i += 1;
        }
        if seen.contains(&(n.clone(), d.clone())) {
            n = format!("u{}", seen.len());
        }
        (n, d)
    }

    /// The two texts of a member, through entries which are not always shared.
    fn text_h(&mut self, s: &str) -> H {
        if self.slip(C06) {
            let b = self.raw_bytes();
            return self.add(Ent::Utf8(b));
        }
        let h = if self.t.chance(1, 6) {
            let b = mutf8::encode(s);
            if b.len() > 65535 { self.utf(s) } else { self.pool.fresh(Ent::Utf8(b)) }
        } else {
            self.utf(s)
        };
        self.maybe_wrong(h, C03)
    }

    fn fields(&mut self) {
        let n = self.member_count(self.cfg.fields);
        if n > 1000 {
            return self.many(n, Place::Field);
        }
        self.w.count(n);
        self.pending = None;
        let mut seen = HashSet::new();
        let mut all = Vec::new();
        for _ in 0..n {
            let f = self.flags(0x50DF);
            self.w.u2(Sk::Flags, f);
            let name = self.ident(true);
            let d = self.fdesc();
            let (mut name, mut d) = self.fresh_pair(&mut seen, &all, name, d);
            if self.slip(C17) {
                name = self.spoil(&name);
            }
            if self.slip(C16) {
                d = self.bad_desc(&d);
            }
            seen.insert((name.clone(), d.clone()));
            all.push((name.clone(), d.clone()));
            let nh = self.text_h(&name);
            self.w.r(nh);
            let dh = self.text_h(&d);
            self.w.r(dh);
            self.attributes(Place::Field, vec![], self.cfg.member_attrs);
        }
    }

    fn member_count(&mut self, small: usize) -> usize {
        if self.cfg.big > 0 && self.t.chance(self.cfg.big, 6000) {
            *self.t.pick(&[2000usize, 5000, 65535])
        } else {
            self.t.count(small)
        }
    }

    /// Very many members, without attributes, pairwise distinct (save for one if a flaw is due).
    fn many(&mut self, n: usize, place: Place) {
        self.w.count(n);
        let nd = 256;
        let names: Vec<H> = (0..n / nd + 1).map(|i| self.pool.add(Ent::Utf8(format!("m{}", i).into_bytes()))).collect();
        let descs: Vec<H> = (0..nd)
            .map(|i| {
                let d = if place == Place::Field { "[".repeat(i) + "I" } else { format!("({})V", "I".repeat(i.min(255))) };
                self.pool.add(Ent::Utf8(d.into_bytes()))
            })
            .collect();
        let dup = if self.slip(C18) { Some((self.t.us(n), self.t.us(n))) } else { None };
        for i in 0..n {
            let mut k = i;
            if let Some((a, b)) = dup {
                if i == a {
                    k = b;
                }
            }
            self.w.b.extend_from_slice(&(1u16).to_be_bytes());
            let r = |h: H, w: &mut W| {
                w.refs.push((w.b.len(), h, 2));
                w.b.extend_from_slice(&[0, 0]);
            };
            r(names[k / nd], &mut self.w);
            r(descs[k % nd], &mut self.w);
            self.w.b.extend_from_slice(&[0, 0]);
        }
    }

    fn methods(&mut self, class_flags: u16) {
        let n = self.member_count(self.cfg.methods);
        if n > 1000 {
            return self.many(n, Place::Method);
        }
        self.w.count(n);
        self.pending = None;
        let mut seen = HashSet::new();
        let mut all = Vec::new();
        let interface = class_flags & 0x0200 != 0;
        for _ in 0..n {
            let f = self.flags(0x1DFF);
            self.w.u2(Sk::Flags, f);
            let mut name = self.ident(false);
            let mut d = self.mdesc();
            let kind = self.t.below(8);
            if kind == 6 && (!interface || self.slip(C18)) {
                name = "<init>".into();
                if !self.slip(C18) {
                    let cut = d.rfind(')').unwrap();
                    d.truncate(cut + 1);
                    d.push('V');
                }
            } else if kind == 7 {
                name = "<clinit>".into();
                match self.t.below(3) {
                    0 if self.major < 51 => {
                        let cut = d.rfind(')').unwrap();
                        d.truncate(cut + 1);
                        d.push('V');
                    }
                    _ => d = "()V".into(),
                }
                if self.slip(C18) {
                    d = self.t.pick(&["(I)V", "()I", "(I)I", "()[V", "(J)V", "()[I", "()La;", "([I)V"]).to_string();
                }
            }
            let special = name.starts_with('<');
            let (mut name, mut d) = self.fresh_pair(&mut seen, &all, name, d);
            if special && !name.starts_with('<') {
                // became an ordinary method
            }
            if self.slip(C17) {
                name = if self.t.flip() {
                    self.t.pick(&["<init", "init>", "<clinit", "<INIT>", "<init>x", "<>", "<", ">", "a<b", "a>b", "<init>>", " <init>", "<clinit> ", "<init>\0"]).to_string()
                } else {
                    self.spoil(&name)
                };
            }
            if self.slip(C16) {
                d = self.bad_desc(&d);
            }
            seen.insert((name.clone(), d.clone()));
            all.push((name.clone(), d.clone()));
            let nh = self.text_h(&name);
            self.w.r(nh);
            let dh = self.text_h(&d);
            self.w.r(dh);
            let mut fixed = vec![];
            if self.pct(self.cfg.code) {
                fixed.push("Code");
            }
            self.attributes(Place::Method, fixed, self.cfg.member_attrs);
        }
    }

    fn pick_major(&mut self) -> u16 {
        if self.pct(self.cfg.modern) {
            return *self.t.pick(&[65u16, 61, 66, 64, 69]);
        }
        match self.t.below(10) {
            0..=7 => 45 + self.t.below(25) as u16,
            8 => *self.t.pick(&[0u16, 1, 3, 44, 45, 70, 71, 100, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff]),
            _ => self.t.bits(16) as u16,
        }
    }

    /// Everything but the pool's layout.
    pub fn class(mut self) -> Spec {
        if self.cfg.slip != 0 && self.pct(self.cfg.slip_pct) {
            let k = self.t.below(8);
            self.slip_in = Some(self.t.below(1 << k));
        }
        self.major = self.pick_major();
        let minor = if self.t.chance(1, 4) { self.t.b16() } else { 0 };
        self.is_module = self.pct(self.cfg.module) && (self.major >= 53 || self.slip(C12));
        self.bsm = if self.t.chance(1, 3) && self.major >= 51 {
            if self.is_big() { 65535 } else { 1 + self.t.us(4) }
        } else {
            0
        };
        for _ in 0..self.t.us(self.cfg.extra_consts + 1) {
            self.any_const();
        }
        if self.is_module {
            self.module_class();
        } else {
            let mut flags = self.flags(0x7631) & !0x8000;
            if self.slip(C12) {
                flags |= 0x8000;
            }
            self.w.u2(Sk::Flags, flags);
            let h = self.plain_class(C03);
            self.w.r(h);
            let s = if self.t.chance(7, 8) { Some(self.plain_class(C03)) } else { None };
            self.w.ropt(s);
            let n = if self.is_big() { *self.t.pick(&[300usize, 65535]) } else { self.t.count(self.cfg.ifs) };
            self.w.count(n);
            let fixed = if n > 200 { Some(self.plain_class(C03)) } else { None };
            for i in 0..n {
                let h = match fixed {
                    Some(h) if i % 1000 != 7 => h,
                    _ => self.plain_class(C03),
                };
                self.w.r(h);
            }
            self.fields();
            self.methods(flags);
            let mut fixed = vec![];
            if self.used_dyn || self.bsm > 0 {
                fixed.push("BootstrapMethods");
                if self.slip(C18) {
                    match self.t.below(3) {
                        0 => fixed.push("BootstrapMethods"),
                        _ => {
                            fixed.clear();
                        }
                    }
                }
            }
            self.attributes(Place::Class, fixed, self.cfg.class_attrs);
        }
        if self.slip(C08) {
            let n = 1 + self.t.us(5);
            for _ in 0..n {
                let v = self.t.below(2) as u8;
                self.w.u1(Sk::Bytes, v);
            }
        }
        Spec { minor, major: self.major, pool: self.pool, body: self.w }
    }

    fn module_class(&mut self) {
        let mut flags = 0x8000u16;
        if self.t.chance(1, 3) {
            // undefined bits are ignored
            flags |= *self.t.pick(&[0x0002u16, 0x0004, 0x0008, 0x0040, 0x0080, 0x0100, 0x0800]);
        }
        if self.slip(C12) {
            flags |= *self.t.pick(&[0x0001u16, 0x0010, 0x0020, 0x0200, 0x0400, 0x1000, 0x2000, 0x4000]);
        }
        self.w.u2(Sk::Flags, flags);
        let h = self.class_named("module-info");
        self.w.r(h);
        let s = if self.slip(C12) { Some(self.plain_class(C03)) } else { None };
        self.w.ropt(s);
        if self.slip(C12) {
            self.w.count(1);
            let h = self.plain_class(C03);
            self.w.r(h);
        } else {
            self.w.count(0);
        }
        if self.slip(C12) {
            self.cfg.fields = 1;
            self.fields();
        } else {
            self.w.count(0);
        }
        if self.slip(C12) {
            self.cfg.methods = 1;
            self.methods(0);
        } else {
            self.w.count(0);
        }
        let mut fixed = vec![];
        if self.major >= 53 {
            if self.t.chance(7, 8) {
                fixed.push("Module");
            }
            if self.t.flip() {
                fixed.push("ModulePackages");
            }
            if self.t.flip() {
                fixed.push("ModuleMainClass");
            }
        }
        if self.used_dyn || self.bsm > 0 {
            fixed.push("BootstrapMethods");
        }
        self.attributes(Place::Class, fixed, self.cfg.class_attrs);
    }
}

/// Generate a class file, except for the layout of its pool.
pub fn spec(t: &mut Tape, cfg: &Cfg) -> Spec {
    G::new(t, *cfg).class()
}

pub fn build(s: &Spec, cfg: &Cfg, t: &mut Tape) -> Built {
    let mode = match t.below(4) {
        0 | 1 => Layout::Natural,
        2 => Layout::Reverse,
        _ => {
            if s.pool.ents.len() > 3000 {
                Layout::Reverse
            } else {
                Layout::Shuffled
            }
        }
    };
    let fill = if cfg.fill > 0 && t.chance(cfg.fill, 100) {
        if cfg.big > 0 && t.chance(1, 120) {
            if t.flip() { 65535 } else { t.urange(200, 70000) }
        } else {
            t.us(40)
        }
    } else {
        0
    };
    layout(s, mode, fill, t)
}

/// One class file by the given configuration.
pub fn class(t: &mut Tape, cfg: &Cfg) -> Built {
    let s = spec(t, cfg);
    build(&s, cfg, t)
}
