//! The common shape in which both the reference reader and the parser under test describe a
//! class. Every node knows which properties ("areas") it belongs to.

pub type Loc = Option<(usize, usize)>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Nil,
    Int(i64),
    Sym(&'static str),
    Bits32(u32),
    Bits64(u64),
    /// Text and, where it must be (reference) or is (parser) a borrow of the input, its place.
    Str(String, Loc),
    Bytes(Vec<u8>, Loc),
    List(Vec<Node>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node {
    pub label: &'static str,
    pub area: u32,
    pub val: Val,
}

pub const fn a(n: u32) -> u32 {
    1 << n
}
pub const C03: u32 = a(3);
pub const C04: u32 = a(4);
pub const C05: u32 = a(5);
pub const C06: u32 = a(6);
pub const C07: u32 = a(7);
pub const C08: u32 = a(8);
pub const C09: u32 = a(9);
pub const C10: u32 = a(10);
pub const C11: u32 = a(11);
pub const C12: u32 = a(12);
pub const C13: u32 = a(13);
pub const C14: u32 = a(14);
pub const C16: u32 = a(16);
pub const C17: u32 = a(17);
pub const C18: u32 = a(18);
pub const ALL: u32 = 0x003f_fffe;

thread_local! {
    static LEFT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// Start describing a file, with so many bytes to spend on the description. A file can name one
/// huge text from many places; once the budget is spent further texts are described as empty.
pub fn budget(n: usize) {
    LEFT.with(|l| l.set(n));
}
pub fn spent() -> bool {
    LEFT.with(|l| l.get()) == 0
}
fn spend(n: usize) {
    LEFT.with(|l| l.set(l.get().saturating_sub(n)));
}

impl Node {
    pub fn new(label: &'static str, area: u32, val: Val) -> Node {
        spend(std::mem::size_of::<Node>());
        Node { label, area, val }
    }
    pub fn l(mut self, label: &'static str) -> Node {
        self.label = label;
        self
    }
    pub fn ar(mut self, area: u32) -> Node {
        self.area |= area;
        self
    }
}

pub fn nil() -> Node {
    Node::new("", 0, Val::Nil)
}
pub fn int(v: i64) -> Node {
    Node::new("", 0, Val::Int(v))
}
pub fn sym(v: &'static str) -> Node {
    Node::new("", 0, Val::Sym(v))
}
pub fn list(v: Vec<Node>) -> Node {
    Node::new("", 0, Val::List(v))
}
pub fn text(s: String, loc: Loc) -> Node {
    let s = afford(s);
    Node::new("", C06 | C07, Val::Str(s, loc))
}
fn afford(s: String) -> String {
    spend(s.len());
    if s.len() > 64 && spent() {
        String::new()
    } else {
        s
    }
}
/// Text with no claim about borrowing.
pub fn plain(s: String) -> Node {
    let s = afford(s);
    Node::new("", 0, Val::Str(s, None))
}
pub fn bytes(b: Vec<u8>, loc: Loc) -> Node {
    Node::new("", C07, Val::Bytes(b, loc))
}
pub fn opt(n: Option<Node>) -> Node {
    n.unwrap_or_else(nil)
}
/// A value of an enumeration: its variant's name and contents.
pub fn variant(name: &'static str, mut items: Vec<Node>) -> Node {
    items.insert(0, sym(name));
    list(items)
}
pub fn lit_int(v: i32) -> Node {
    variant("Integer", vec![int(i64::from(v)).ar(C06)])
}
pub fn lit_float(bits: u32) -> Node {
    variant("Float", vec![Node::new("", C06, Val::Bits32(bits))])
}
pub fn lit_long(v: i64) -> Node {
    variant("Long", vec![int(v).ar(C06)])
}
pub fn lit_double(bits: u64) -> Node {
    variant("Double", vec![Node::new("", C06, Val::Bits64(bits))])
}
pub fn lit_string(t: Node) -> Node {
    variant("String", vec![t]).ar(C06)
}
pub fn lit_string_bytes(b: Node) -> Node {
    variant("StringBytes", vec![b.ar(C06)]).ar(C06)
}
/// name: class name text for 'L'
pub fn field_desc(dims: u32, base: &'static str, class: Option<Node>, shown: String) -> Node {
    list(vec![
        int(i64::from(dims)).l("dims").ar(C16),
        sym(base).l("base").ar(C16),
        opt(class).l("class").ar(C16),
        plain(shown).l("display").ar(C16),
    ])
    .ar(C16)
}
pub fn method_desc(params: Vec<Node>, ret: Option<Node>, shown: String) -> Node {
    if spent() {
        return nil();
    }
    list(vec![
        list(params).l("params").ar(C16),
        opt(ret).l("return").ar(C16),
        plain(shown).l("display").ar(C16),
    ])
    .ar(C16)
}
pub fn name_and_type(name: Node, desc: Node) -> Node {
    list(vec![name.l("name"), desc.l("descriptor")])
}
pub fn member_ref(class: Node, nt: Node) -> Node {
    list(vec![class.l("class"), nt.l("nt")])
}
pub fn method_handle(kind: i64, class: Node, member_kind: &'static str, nt: Node) -> Node {
    list(vec![int(kind).l("kind"), class.l("class"), sym(member_kind).l("member_kind"), nt.l("nt")])
}
pub fn dynamic(ix: u16, nt: Node) -> Node {
    list(vec![int(i64::from(ix)).l("bootstrap"), nt.l("nt")])
}
pub fn verif_type(name: &'static str, arg: Option<Node>) -> Node {
    variant(name, arg.into_iter().collect())
}
pub fn frame(name: &'static str, delta: u16, rest: Vec<Node>) -> Node {
    let mut v = vec![int(i64::from(delta)).l("delta")];
    v.extend(rest);
    variant(name, v)
}
pub fn annotation(desc: Node, elements: Vec<Node>) -> Node {
    list(vec![desc.l("type"), list(elements).l("elements")])
}
pub fn element(name: Node, value: Node) -> Node {
    list(vec![name.l("name"), value.l("value")])
}
pub fn type_annotation(target: Node, path: Vec<Node>, ann: Node) -> Node {
    list(vec![target.l("target"), list(path).l("path"), ann.l("annotation")])
}
pub fn path_entry(kind: &'static str, arg: u8) -> Node {
    variant(kind, vec![int(i64::from(arg))])
}
pub fn attribute(name: Node, data: Node, area: u32) -> Node {
    list(vec![name.l("attrname"), data.l("data")]).ar(area)
}
pub fn exception_entry(s: u16, e: u16, h: u16, catch: Node) -> Node {
    list(vec![int(s.into()).l("start_pc"), int(e.into()).l("end_pc"), int(h.into()).l("handler_pc"), catch.l("catch")])
}
pub fn code_data(stack: u16, locals: u16, code: Node, exc: Vec<Node>, attrs: Node, bytecode: Node) -> Node {
    variant(
        "Code",
        vec![
            int(stack.into()).l("max_stack"),
            int(locals.into()).l("max_locals"),
            code.l("code"),
            list(exc).l("exception_table"),
            attrs.l("attributes"),
            bytecode.l("bytecode").ar(C13),
        ],
    )
}
pub fn member(kind: &'static str, flags: u16, name: Node, desc: Node, attrs: Node) -> Node {
    list(vec![
        sym(kind),
        int(flags.into()).l("flags"),
        name.l("name").ar(C17),
        desc.l("descriptor"),
        attrs.l("attributes"),
    ])
    .ar(C03)
}
#[allow(clippy::too_many_arguments)]
pub fn class_file(
    minor: u16, major: u16, pool: Vec<Node>, flags: u16, this: Node, sup: Node, ifs: Vec<Node>, fields: Vec<Node>,
    methods: Vec<Node>, attrs: Node,
) -> Node {
    list(vec![
        int(minor.into()).l("minor").ar(C03),
        int(major.into()).l("major").ar(C03),
        list(pool).l("pool").ar(C04),
        int(flags.into()).l("flags").ar(C03),
        this.l("this_class").ar(C03 | C17),
        sup.l("super_class").ar(C03 | C17),
        list(ifs).l("interfaces").ar(C03),
        list(fields).l("fields").ar(C03 | C18),
        list(methods).l("methods").ar(C03 | C18),
        attrs.l("attributes"),
    ])
}

/// A difference between what the reference expects and what was reported.
#[derive(Clone, Debug)]
pub struct Diff {
    pub path: String,
    pub area: u32,
    pub expected: String,
    pub actual: String,
}

fn show(v: &Val) -> String {
    let mut s = match v {
        Val::List(l) if l.is_empty() => "[]".to_string(),
        Val::List(l) => {
            let mut s = format!("list of {}:", l.len());
            for n in l.iter().take(4) {
                s.push(' ');
                s.push_str(&show(&n.val));
                s.push(',');
                if s.len() > 120 {
                    break;
                }
            }
            s
        }
        Val::Str(s, l) if s.len() > 80 => {
            let cut: String = s.chars().take(40).collect();
            format!("Str({:?}.. {} bytes, {:?})", cut, s.len(), l)
        }
        Val::Bytes(b, l) if b.len() > 40 => format!("Bytes({:?}.. {} bytes, {:?})", &b[..40], b.len(), l),
        v => format!("{:?}", v),
    };
    if s.len() > 300 {
        let mut i = 300;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        s.truncate(i);
        s.push_str("...");
    }
    s
}

/// The first difference within the areas of `mask`. Places of borrows are compared only if the
/// mask includes C07, and only where the reference demands one.
pub fn diff(exp: &Node, act: &Node, mask: u32) -> Option<Diff> {
    let mut path = Vec::new();
    diff_in(exp, act, mask, 0, &mut path)
}

/// The first difference of any kind, places of borrows aside.
pub fn differs(exp: &Node, act: &Node) -> Option<Diff> {
    let mut path = Vec::new();
    diff_in(exp, act, !C07, 1 << 31, &mut path)
}

fn diff_in(exp: &Node, act: &Node, mask: u32, inherited: u32, path: &mut Vec<String>) -> Option<Diff> {
    let area = exp.area | inherited;
    let mk = |path: &[String], area: u32| {
        if area & mask != 0 {
            Some(Diff { path: path.join("."), area, expected: show(&exp.val), actual: show(&act.val) })
        } else {
            None
        }
    };
    match (&exp.val, &act.val) {
        (Val::List(x), Val::List(y)) => {
            // The tail that only one side has, or the variant, is reported at the list itself.
            let tagged = matches!(x.first().map(|n| &n.val), Some(Val::Sym(_)));
            if tagged && x.first().map(|n| &n.val) != y.first().map(|n| &n.val) {
                return mk(path, area);
            }
            for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
                path.push(if p.label.is_empty() { i.to_string() } else { p.label.to_string() });
                // C06, C07, C16 and C17 are properties of the nodes they are written on: they
                // do not flow from a container into its contents.
                let down = area & !(C06 | C07 | C16 | C17);
                let d = diff_in(p, q, mask, down, path);
                path.pop();
                if d.is_some() {
                    return d;
                }
            }
            if x.len() != y.len() {
                return mk(path, area);
            }
            None
        }
        (Val::Str(p, lp), Val::Str(q, lq)) => {
            if p != q {
                return mk(path, area & !C07);
            }
            if exp.area & C07 != 0 && mask & C07 != 0 && lp.is_some() && lp != lq {
                return mk(path, C07);
            }
            None
        }
        (Val::Bytes(p, lp), Val::Bytes(q, lq)) => {
            if p != q {
                return mk(path, area & !C07);
            }
            if exp.area & C07 != 0 && mask & C07 != 0 && lp.is_some() && lp != lq {
                return mk(path, C07);
            }
            None
        }
        (p, q) => {
            if p == q {
                None
            } else {
                mk(path, area & !C07)
            }
        }
    }
}

/// A digest of the whole tree, without the places of borrows.
pub fn digest(n: &Node) -> u64 {
    fn go(n: &Node, h: &mut u64) {
        fn put(h: &mut u64, v: u64) {
            *h = crate::tape::mix(&[*h, v]);
        }
        match &n.val {
            Val::Nil => put(h, 1),
            Val::Int(i) => {
                put(h, 2);
                put(h, *i as u64)
            }
            Val::Sym(s) => {
                put(h, 3);
                put(h, crate::tape::hash_bytes(s.as_bytes()))
            }
            Val::Bits32(b) => {
                put(h, 4);
                put(h, u64::from(*b))
            }
            Val::Bits64(b) => {
                put(h, 5);
                put(h, *b)
            }
            Val::Str(s, _) => {
                put(h, 6);
                put(h, crate::tape::hash_bytes(s.as_bytes()))
            }
            Val::Bytes(b, _) => {
                put(h, 7);
                put(h, crate::tape::hash_bytes(b))
            }
            Val::List(l) => {
                put(h, 8 + l.len() as u64);
                for x in l {
                    go(x, h);
                }
            }
        }
    }
    let mut h = 0x55;
    go(n, &mut h);
    h
}

/// Remove decoded bytecode everywhere; returns how many bytecode slots were present and absent.
pub fn strip_bytecode(n: &mut Node, present: &mut usize, absent: &mut usize) {
    if n.label == "bytecode" {
        if n.val == Val::Nil {
            *absent += 1;
        } else {
            *present += 1;
            n.val = Val::Nil;
        }
        return;
    }
    if let Val::List(l) = &mut n.val {
        for x in l {
            strip_bytecode(x, present, absent);
        }
    }
}

/// Remove the bytes of code arrays, which hold indices of the pool.
pub fn strip_code(n: &mut Node) {
    if let (true, Val::Bytes(..)) = (n.label == "code", &n.val) {
        n.val = Val::Nil;
    }
    if let Val::List(l) = &mut n.val {
        for x in l {
            strip_code(x);
        }
    }
}

/// Remove the constant pool listing (the value of the child labelled "pool").
pub fn strip_pool(n: &mut Node) {
    if let Val::List(l) = &mut n.val {
        for x in l {
            if x.label == "pool" {
                x.val = Val::Nil;
            }
        }
    }
}

pub fn count_nodes(n: &Node) -> usize {
    match &n.val {
        Val::List(l) => 1 + l.iter().map(count_nodes).sum::<usize>(),
        _ => 1,
    }
}
