//! Changes to a finished class file, aimed by the places recorded while it was written.

use crate::asm::{Built, Sk, Span};
use crate::tape::Tape;

fn pick_span(b: &Built, t: &mut Tape, ks: &[Sk]) -> Option<Span> {
    let v: Vec<&Span> = b.spans.iter().filter(|s| ks.contains(&s.k) && s.pos + s.len <= b.bytes.len()).collect();
    if v.is_empty() {
        return None;
    }
    Some(**t.pick(&v))
}

fn put(b: &mut Built, s: Span, v: u64) {
    let n = s.len.min(8);
    for i in 0..n {
        b.bytes[s.pos + i] = (v >> (8 * (n - 1 - i))) as u8;
    }
}

fn get(b: &Built, s: Span) -> u64 {
    b.bytes[s.pos..s.pos + s.len.min(8)].iter().fold(0, |a, x| (a << 8) | u64::from(*x))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Index,
    Tag,
    Length,
    Count,
    Flags,
    Version,
    Text,
    Code,
    Jump,
    Number,
    Byte,
    Cut,
    Append,
    Block,
}

pub const ALL: &[Kind] = &[
    Kind::Index,
    Kind::Tag,
    Kind::Length,
    Kind::Count,
    Kind::Flags,
    Kind::Version,
    Kind::Text,
    Kind::Code,
    Kind::Jump,
    Kind::Number,
    Kind::Byte,
    Kind::Cut,
    Kind::Append,
    Kind::Block,
];

fn index_value(b: &Built, t: &mut Tape, old: u64) -> u64 {
    match t.below(10) {
        0 => 0,
        1 => b.count as u64,
        2 => 65535,
        3 => old + 1,
        4 => old.wrapping_sub(1),
        5 if !b.dead.is_empty() => *t.pick(&b.dead) as u64,
        6 => b.count as u64 - 1,
        7 => b.count as u64 + 1 + t.below(3),
        _ => t.below(b.count as u64 + 1),
    }
}

/// Apply one change; false if there was nothing to apply it to.
pub fn one(b: &mut Built, t: &mut Tape, k: Kind) -> bool {
    let n = b.bytes.len();
    if n == 0 {
        return false;
    }
    match k {
        Kind::Index => {
            let s = match pick_span(b, t, &[Sk::PoolRef, Sk::Ref, Sk::Ref, Sk::Ref1]) {
                Some(s) => s,
                None => return false,
            };
            let old = get(b, s);
            let v = if s.k == Sk::PoolRef && t.chance(1, 8) {
                // probably the entry itself: find the entry this reference belongs to
                let mut best = 0;
                let mut e = 0u64;
                for x in b.spans.iter().filter(|x| x.k == Sk::PoolTag) {
                    e += 1;
                    if x.pos < s.pos && x.pos >= best {
                        best = x.pos;
                    } else if x.pos > s.pos {
                        e -= 1;
                        break;
                    }
                }
                e + b.dead.iter().filter(|d| **d as u64 <= e).count() as u64
            } else {
                index_value(b, t, old)
            };
            put(b, s, v);
        }
        Kind::Tag => {
            let s = match pick_span(b, t, &[Sk::PoolTag, Sk::Tag, Sk::PoolRefKind, Sk::Tag]) {
                Some(s) => s,
                None => return false,
            };
            let old = get(b, s);
            let v = match t.below(5) {
                0 => old + 1,
                1 => old.wrapping_sub(1),
                2 => t.below(21),
                3 => *t.pick(b"BCDFIJSZsec@[") as u64,
                _ => t.bits(8),
            };
            put(b, s, v);
        }
        Kind::Length => {
            let s = match pick_span(b, t, &[Sk::AttrLen, Sk::CodeLen, Sk::AttrLen, Sk::Utf8Len]) {
                Some(s) => s,
                None => return false,
            };
            let old = get(b, s);
            let v = match t.below(8) {
                0 | 1 => old + 1,
                2 | 3 => old.wrapping_sub(1),
                4 => 0,
                5 => *t.pick(&[0xffff_ffffu64, 0x8000_0000, 0x7fff_ffff, 0xffff_fff0, 0x1_0000]),
                6 => old + t.below(40),
                _ => t.below(old + 1),
            };
            put(b, s, v);
        }
        Kind::Count => {
            let s = match pick_span(b, t, &[Sk::Count, Sk::PoolCount, Sk::Count]) {
                Some(s) => s,
                None => return false,
            };
            let old = get(b, s);
            let v = match t.below(6) {
                0 | 1 => old + 1,
                2 | 3 => old.wrapping_sub(1),
                4 => 0,
                _ => 0xffff,
            };
            put(b, s, v);
        }
        Kind::Flags => {
            let s = match pick_span(b, t, &[Sk::Flags]) {
                Some(s) => s,
                None => return false,
            };
            let old = get(b, s);
            let v = if t.flip() { old ^ (1 << t.below(16)) } else { t.bits(16) };
            put(b, s, v);
        }
        Kind::Version => {
            let s = match pick_span(b, t, &[Sk::Major]) {
                Some(s) => s,
                None => return false,
            };
            let v = 44 + t.below(24);
            put(b, s, v);
        }
        Kind::Text => {
            let s = match pick_span(b, t, &[Sk::Utf8]) {
                Some(s) if s.len > 0 => s,
                _ => return false,
            };
            let i = s.pos + t.us(s.len);
            b.bytes[i] = match t.below(4) {
                0 => *t.pick(b".;[/<>()LVIJ"),
                1 => *t.pick(&[0xC0u8, 0x80, 0xED, 0xA0, 0xE0, 0xF0, 0xFF, 0x00, 0xC3, 0xBF, 0xB0]),
                2 => t.bits(7).max(1) as u8,
                _ => t.bits(8) as u8,
            };
        }
        Kind::Code => {
            let s = match pick_span(b, t, &[Sk::Code]) {
                Some(s) if s.len > 0 => s,
                _ => return false,
            };
            let m = if t.flip() { pick_span(b, t, &[Sk::Op, Sk::Operand]) } else { None };
            let i = match m {
                Some(o) if o.len > 0 => o.pos + t.us(o.len),
                _ => s.pos + t.us(s.len),
            };
            b.bytes[i] = match t.below(4) {
                0 => *t.pick(&[170u8, 171, 196, 18, 19, 20, 185, 186, 197, 188, 167, 200, 203, 253, 169, 168]),
                1 => b.bytes[i].wrapping_add(1),
                2 => b.bytes[i].wrapping_sub(1),
                _ => t.bits(8) as u8,
            };
        }
        Kind::Jump => {
            let s = match pick_span(b, t, &[Sk::Jump]) {
                Some(s) => s,
                None => return false,
            };
            let old = get(b, s);
            let v = match t.below(8) {
                0 | 1 => old + 1,
                2 | 3 => old.wrapping_sub(1),
                4 => t.below(64),
                5 => (0u64).wrapping_sub(t.below(64)),
                6 => u64::from(t.b32()),
                _ => 0x7fff_ffff_7fff,
            };
            put(b, s, v);
        }
        Kind::Number => {
            let s = match pick_span(b, t, &[Sk::Num, Sk::PoolNum, Sk::Minor, Sk::Operand, Sk::Magic]) {
                Some(s) if s.len > 0 => s,
                _ => return false,
            };
            let v = if t.flip() { t.b64() } else { get(b, s) ^ (1 << t.below(s.len.min(8) as u64 * 8)) };
            put(b, s, v);
        }
        Kind::Byte => {
            let i = t.us(n);
            b.bytes[i] = match t.below(4) {
                0 => b.bytes[i] ^ (1 << t.below(8)),
                1 => 0,
                2 => 255,
                _ => t.bits(8) as u8,
            };
        }
        Kind::Cut => {
            let k = match t.below(3) {
                0 => t.us(n),
                1 => n - 1 - t.us(n.min(16)),
                _ => {
                    let s = b.spans[t.us(b.spans.len())];
                    (s.pos + t.us(s.len + 1)).min(n - 1)
                }
            };
            b.bytes.truncate(k);
        }
        Kind::Append => {
            let k = 1 + t.us(8);
            for _ in 0..k {
                let v = t.b8();
                b.bytes.push(v);
            }
        }
        Kind::Block => {
            let i = t.us(n);
            let len = 1 + t.us((n - i).min(40));
            match t.below(4) {
                0 => {
                    b.bytes.drain(i..i + len);
                }
                1 => {
                    let x = b.bytes[i..i + len].to_vec();
                    let at = t.us(n + 1);
                    b.bytes.splice(at..at, x);
                }
                2 => {
                    let v = t.b8();
                    for x in &mut b.bytes[i..i + len] {
                        *x = v;
                    }
                }
                _ => {
                    let j = t.us(n - len + 1);
                    let x = b.bytes[j..j + len].to_vec();
                    b.bytes[i..i + len].copy_from_slice(&x);
                }
            }
        }
    }
    true
}

/// Apply between one and three changes of the given kinds.
pub fn some(b: &mut Built, t: &mut Tape, kinds: &[Kind]) {
    let n = match t.below(8) {
        0..=5 => 1,
        6 => 2,
        _ => 3,
    };
    let mut left = n;
    let mut tries = 0;
    while left > 0 && tries < 8 {
        tries += 1;
        let k = *t.pick(kinds);
        if one(b, t, k) {
            left -= 1;
        }
    }
}
