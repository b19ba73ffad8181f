//! Assembling class files from a pool of symbolic entries and a body that refers to them.

use crate::tape::Tape;
use std::collections::HashMap;

/// A handle to a constant pool entry, independent of where the pool's layout puts it.
pub type H = usize;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ent {
    Utf8(Vec<u8>),
    Int(i32),
    Float(u32),
    Long(i64),
    Double(u64),
    Class(H),
    Str(H),
    Field(H, H),
    Method(H, H),
    IMethod(H, H),
    Nat(H, H),
    Handle(u8, H),
    MType(H),
    Dyn(u16, H),
    Indy(u16, H),
    Module(H),
    Package(H),
    /// An arbitrary tag with arbitrary bytes.
    Odd(u8, Vec<u8>),
}

impl Ent {
    pub fn slots(&self) -> usize {
        if matches!(self, Ent::Long(_) | Ent::Double(_)) {
            2
        } else {
            1
        }
    }
    pub fn tag(&self) -> u8 {
        match self {
            Ent::Utf8(_) => 1,
            Ent::Int(_) => 3,
            Ent::Float(_) => 4,
            Ent::Long(_) => 5,
            Ent::Double(_) => 6,
            Ent::Class(_) => 7,
            Ent::Str(_) => 8,
            Ent::Field(..) => 9,
            Ent::Method(..) => 10,
            Ent::IMethod(..) => 11,
            Ent::Nat(..) => 12,
            Ent::Handle(..) => 15,
            Ent::MType(_) => 16,
            Ent::Dyn(..) => 17,
            Ent::Indy(..) => 18,
            Ent::Module(_) => 19,
            Ent::Package(_) => 20,
            Ent::Odd(t, _) => *t,
        }
    }
}

#[derive(Clone, Default)]
pub struct PoolB {
    pub ents: Vec<Ent>,
    pub low: Vec<bool>,
    map: HashMap<Ent, H>,
    pub slots: usize,
}

impl PoolB {
    pub fn fresh(&mut self, e: Ent) -> H {
        self.slots += e.slots();
        self.ents.push(e.clone());
        self.low.push(false);
        let h = self.ents.len() - 1;
        self.map.insert(e, h);
        h
    }
    pub fn add(&mut self, e: Ent) -> H {
        match self.map.get(&e) {
            Some(h) => *h,
            None => self.fresh(e),
        }
    }
    pub fn low_count(&self) -> usize {
        self.low.iter().zip(&self.ents).filter(|(l, _)| **l).map(|(_, e)| e.slots()).sum()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sk {
    Magic,
    Minor,
    Major,
    PoolCount,
    PoolTag,
    PoolRef,
    PoolRefKind,
    PoolNum,
    Utf8Len,
    Utf8,
    Flags,
    Ref,
    /// a one-byte reference (ldc)
    Ref1,
    Count,
    AttrLen,
    Tag,
    Num,
    CodeLen,
    /// the whole code array
    Code,
    /// the opcode byte of an instruction
    Op,
    Operand,
    /// a jump offset
    Jump,
    Bytes,
}

#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub k: Sk,
    pub pos: usize,
    pub len: usize,
}

#[derive(Clone, Default)]
pub struct W {
    pub b: Vec<u8>,
    pub refs: Vec<(usize, H, u8)>,
    pub spans: Vec<Span>,
}

impl W {
    pub fn u1(&mut self, k: Sk, v: u8) {
        self.spans.push(Span { k, pos: self.b.len(), len: 1 });
        self.b.push(v);
    }
    pub fn u2(&mut self, k: Sk, v: u16) {
        self.spans.push(Span { k, pos: self.b.len(), len: 2 });
        self.b.extend_from_slice(&v.to_be_bytes());
    }
    pub fn u4(&mut self, k: Sk, v: u32) {
        self.spans.push(Span { k, pos: self.b.len(), len: 4 });
        self.b.extend_from_slice(&v.to_be_bytes());
    }
    pub fn bytes(&mut self, k: Sk, v: &[u8]) {
        self.spans.push(Span { k, pos: self.b.len(), len: v.len() });
        self.b.extend_from_slice(v);
    }
    pub fn r(&mut self, h: H) {
        self.refs.push((self.b.len(), h, 2));
        self.u2(Sk::Ref, 0);
    }
    pub fn r1(&mut self, h: H) {
        self.refs.push((self.b.len(), h, 1));
        self.u1(Sk::Ref1, 0);
    }
    pub fn ropt(&mut self, h: Option<H>) {
        match h {
            Some(h) => self.r(h),
            None => self.u2(Sk::Ref, 0),
        }
    }
    pub fn count(&mut self, n: usize) {
        self.u2(Sk::Count, n as u16);
    }
    /// Write the name and length of an attribute; returns a mark for `end_attr`.
    pub fn begin_attr(&mut self, name: H) -> usize {
        self.r(name);
        self.u4(Sk::AttrLen, 0);
        self.b.len()
    }
    pub fn end_attr(&mut self, mark: usize) {
        let n = (self.b.len() - mark) as u32;
        self.b[mark - 4..mark].copy_from_slice(&n.to_be_bytes());
    }
}

/// A class file before its constant pool has been laid out.
#[derive(Clone, Default)]
pub struct Spec {
    pub minor: u16,
    pub major: u16,
    pub pool: PoolB,
    pub body: W,
}

#[derive(Clone)]
pub struct Built {
    pub bytes: Vec<u8>,
    pub spans: Vec<Span>,
    /// slot of each handle
    pub slot: Vec<usize>,
    pub count: usize,
    /// the second slots of 8-byte constants
    pub dead: Vec<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Layout {
    Natural,
    Reverse,
    Shuffled,
}

/// What to lay out: an entry of the spec, a copy of one, or a filler.
enum Item {
    Real(H),
    Copy(H),
    Filler(Ent),
}

/// Lay the pool out. `fill` extra slots are added (unused entries and duplicates of used ones).
/// Entries marked low come first so that one-byte references can reach them.
pub fn layout(s: &Spec, mode: Layout, fill: usize, t: &mut Tape) -> Built {
    let n = s.pool.ents.len();
    let mut low: Vec<Item> = Vec::new();
    let mut rest: Vec<Item> = Vec::new();
    for h in 0..n {
        if s.pool.low[h] {
            low.push(Item::Real(h));
        } else {
            rest.push(Item::Real(h));
        }
    }
    let mut room = 65534usize.saturating_sub(s.pool.slots).min(fill);
    let mut extra: Vec<Item> = Vec::new();
    while room > 0 {
        let it = if room > 200 {
            // A long filler is uniform: only its length is a choice.
            let e = match extra.len() % 4 {
                0 => Ent::Utf8(vec![]),
                1 => Ent::Int(extra.len() as i32),
                2 => Ent::Utf8(b"f".to_vec()),
                _ => Ent::Long(extra.len() as i64),
            };
            Item::Filler(e)
        } else {
            match t.below(8) {
                0 => Item::Filler(Ent::Utf8(vec![])),
                1 => Item::Filler(Ent::Int(t.b32() as i32)),
                2 => Item::Filler(Ent::Long(t.b64() as i64)),
                3 => Item::Filler(Ent::Double(t.b64())),
                4 => Item::Filler(Ent::Float(t.b32())),
                5 => Item::Filler(Ent::Utf8(b"unused".to_vec())),
                _ => {
                    if n > 0 {
                        Item::Copy(t.us(n))
                    } else {
                        Item::Filler(Ent::Utf8(vec![]))
                    }
                }
            }
        };
        let k = match &it {
            Item::Real(h) | Item::Copy(h) => s.pool.ents[*h].slots(),
            Item::Filler(e) => e.slots(),
        };
        if k > room {
            extra.push(Item::Filler(Ent::Int(7)));
            room -= 1;
            continue;
        }
        room -= k;
        extra.push(it);
    }
    match mode {
        Layout::Natural => {
            if t.flip() {
                extra.append(&mut rest);
                rest = extra;
            } else {
                rest.append(&mut extra);
            }
        }
        Layout::Reverse => {
            low.reverse();
            rest.reverse();
            if t.flip() {
                extra.append(&mut rest);
                rest = extra;
            } else {
                rest.append(&mut extra);
            }
        }
        Layout::Shuffled => {
            t.shuffle(&mut low);
            if extra.len() < 400 {
                rest.append(&mut extra);
                t.shuffle(&mut rest);
            } else {
                t.shuffle(&mut rest);
                extra.append(&mut rest);
                rest = extra;
            }
        }
    }
    let mut slot = vec![0usize; n];
    let mut copies: Vec<Vec<usize>> = vec![Vec::new(); n];
    let mut at = 1usize;
    let mut dead = Vec::new();
    for it in low.iter().chain(rest.iter()) {
        let e = match it {
            Item::Real(h) => {
                slot[*h] = at;
                copies[*h].push(at);
                &s.pool.ents[*h]
            }
            Item::Copy(h) => {
                copies[*h].push(at);
                &s.pool.ents[*h]
            }
            Item::Filler(e) => e,
        };
        at += e.slots();
        if e.slots() == 2 {
            dead.push(at - 1);
        }
    }
    let mut w = W::default();
    w.u4(Sk::Magic, 0xCAFE_BABE);
    w.u2(Sk::Minor, s.minor);
    w.u2(Sk::Major, s.major);
    w.u2(Sk::PoolCount, at as u16);
    let many = copies.iter().any(|c| c.len() > 1);
    let place = |h: H, t: &mut Tape| -> u16 {
        if many && copies[h].len() > 1 {
            copies[h][t.us(copies[h].len())] as u16
        } else {
            slot[h] as u16
        }
    };
    for it in low.iter().chain(rest.iter()) {
        let e = match it {
            Item::Real(h) | Item::Copy(h) => &s.pool.ents[*h],
            Item::Filler(e) => e,
        };
        w.u1(Sk::PoolTag, e.tag());
        match e {
            Ent::Utf8(b) => {
                w.u2(Sk::Utf8Len, b.len() as u16);
                w.bytes(Sk::Utf8, b);
            }
            Ent::Int(v) => w.u4(Sk::PoolNum, *v as u32),
            Ent::Float(v) => w.u4(Sk::PoolNum, *v),
            Ent::Long(v) => w.bytes(Sk::PoolNum, &v.to_be_bytes()),
            Ent::Double(v) => w.bytes(Sk::PoolNum, &v.to_be_bytes()),
            Ent::Class(x) | Ent::Str(x) | Ent::MType(x) | Ent::Module(x) | Ent::Package(x) => {
                w.u2(Sk::PoolRef, place(*x, t))
            }
            Ent::Field(x, y) | Ent::Method(x, y) | Ent::IMethod(x, y) | Ent::Nat(x, y) => {
                w.u2(Sk::PoolRef, place(*x, t));
                w.u2(Sk::PoolRef, place(*y, t));
            }
            Ent::Handle(k, x) => {
                w.u1(Sk::PoolRefKind, *k);
                w.u2(Sk::PoolRef, place(*x, t));
            }
            Ent::Dyn(i, x) | Ent::Indy(i, x) => {
                w.u2(Sk::Num, *i);
                w.u2(Sk::PoolRef, place(*x, t));
            }
            Ent::Odd(_, b) => w.bytes(Sk::Bytes, b),
        }
    }
    let base = w.b.len();
    w.b.extend_from_slice(&s.body.b);
    for (pos, h, width) in &s.body.refs {
        if *width == 2 {
            let v = place(*h, t);
            w.b[base + pos..base + pos + 2].copy_from_slice(&v.to_be_bytes());
        } else {
            w.b[base + pos] = slot[*h] as u8;
        }
    }
    w.spans.extend(s.body.spans.iter().map(|x| Span { pos: x.pos + base, ..*x }));
    Built { bytes: w.b, spans: w.spans, slot, count: at, dead }
}
