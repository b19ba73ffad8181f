//! Generation of code arrays.

use crate::asm::{Sk, Span, H};
use crate::gen::G;
use crate::node::{C05, C14};
use crate::refcode::{op, F};

#[derive(Clone, Copy, Debug)]
enum Tgt {
    Near(i64),
    Frac(u64),
    First,
    Last,
}

#[derive(Clone, Debug)]
enum I {
    Raw(Vec<u8>),
    /// bytes, then a two-byte reference, then bytes
    Ref(u8, H, Vec<u8>),
    Ldc(H),
    J(u8, Tgt),
    JW(u8, Tgt),
    Table(Tgt, i32, Vec<Tgt>, u8),
    Lookup(Tgt, Vec<(i32, Tgt)>, u8),
}

fn size(i: &I, at: usize) -> usize {
    let pad = |at: usize| (4 - (at + 1) % 4) % 4;
    match i {
        I::Raw(b) => b.len(),
        I::Ref(_, _, b) => 3 + b.len(),
        I::Ldc(_) => 2,
        I::J(..) => 3,
        I::JW(..) => 5,
        I::Table(_, _, v, _) => 1 + pad(at) + 12 + 4 * v.len(),
        I::Lookup(_, v, _) => 1 + pad(at) + 8 + 8 * v.len(),
    }
}

impl G<'_> {
    fn tgt(&mut self) -> Tgt {
        match self.t.below(8) {
            0..=3 => Tgt::Near(self.t.below(9) as i64 - 4),
            4 | 5 => Tgt::Frac(self.t.bits(16)),
            6 => Tgt::First,
            _ => Tgt::Last,
        }
    }

    fn local(&mut self) -> I {
        // every family, in one of its three forms
        let fam = self.t.below(10) as u8; // iload lload fload dload aload istore ...
        let base = if fam < 5 { 21 + fam } else { 54 + fam - 5 };
        match self.t.below(4) {
            0 => {
                let short = if fam < 5 { 26 + 4 * fam } else { 59 + 4 * (fam - 5) };
                I::Raw(vec![short + self.t.below(4) as u8])
            }
            1 | 2 => I::Raw(vec![base, self.t.b8()]),
            _ => {
                let v = self.t.b16();
                I::Raw(vec![196, base, (v >> 8) as u8, v as u8])
            }
        }
    }

    fn insn(&mut self) -> I {
        match self.t.below(20) {
            0..=4 => {
                // instructions without operands
                loop {
                    let n = self.t.below(202) as u8;
                    if op(n).1 == F::N {
                        return I::Raw(vec![n]);
                    }
                    if self.t.below(4) == 0 {
                        return I::Raw(vec![0]);
                    }
                }
            }
            5 | 6 => self.local(),
            7 => match self.t.below(3) {
                0 => I::Raw(vec![16, self.t.b8()]),
                1 => {
                    let v = self.t.b16();
                    I::Raw(vec![17, (v >> 8) as u8, v as u8])
                }
                _ => {
                    if self.t.flip() {
                        I::Raw(vec![132, self.t.b8(), self.t.b8()])
                    } else {
                        let (x, y) = (self.t.b16(), self.t.b16());
                        I::Raw(vec![196, 132, (x >> 8) as u8, x as u8, (y >> 8) as u8, y as u8])
                    }
                }
            },
            8 => {
                let h = self.loadable(false);
                if self.t.flip() {
                    let h = self.low(h);
                    if self.pool.low[h] {
                        return I::Ldc(h);
                    }
                }
                I::Ref(19, h, vec![])
            }
            9 => {
                let h = self.loadable(true);
                I::Ref(20, h, vec![])
            }
            10 | 11 => {
                let n = match self.t.below(4) {
                    0 => *self.t.pick(&[198u8, 199]),
                    1 => 167,
                    _ => 153 + self.t.below(14) as u8,
                };
                let t = self.tgt();
                if n == 167 && self.major < 51 && self.t.flip() {
                    return I::J(168, t);
                }
                I::J(n, t)
            }
            12 => {
                let t = self.tgt();
                if self.major < 51 && self.t.flip() {
                    return match self.t.below(3) {
                        0 => I::JW(201, t),
                        1 => I::Raw(vec![169, self.t.b8()]),
                        _ => I::Raw(vec![196, 169, self.t.b8(), self.t.b8()]),
                    };
                }
                I::JW(200, t)
            }
            13 => {
                let d = self.tgt();
                let n = 1 + self.t.count(4);
                let lo = match self.t.below(5) {
                    0 => 0,
                    1 => i32::MIN,
                    2 => i32::MAX - n as i32 + 1,
                    3 => -(self.t.below(10) as i32),
                    _ => (self.t.b32() as i32).min(i32::MAX - n as i32),
                };
                let v = (0..n).map(|_| self.tgt()).collect();
                let p = if self.major >= 51 && self.t.chance(1, 8) { self.t.b8() } else { 0 };
                I::Table(d, lo, v, p)
            }
            14 => {
                let d = self.tgt();
                let n = self.t.count(4);
                let mut keys: Vec<i32> = (0..n).map(|_| self.t.b32() as i32).collect();
                let disorder = self.t.below(16);
                if disorder != 15 {
                    keys.sort();
                    keys.dedup();
                }
                let mut v: Vec<(i32, Tgt)> = keys.into_iter().map(|k| (k, self.tgt())).collect();
                if disorder >= 14 && !v.is_empty() {
                    // one that is there already
                    let (i, j) = (self.t.us(v.len()), self.t.us(v.len() + 1));
                    v.insert(j, v[i].clone());
                }
                let p = if self.major >= 51 && self.t.chance(1, 8) { self.t.b8() } else { 0 };
                I::Lookup(d, v, p)
            }
            15 => {
                let n = 178 + self.t.below(4) as u8;
                let h = self.field_ref();
                I::Ref(n, h, vec![])
            }
            16 | 17 => match self.t.below(6) {
                0 => {
                    let h = self.method_ref(false, false);
                    I::Ref(182, h, vec![])
                }
                1 => {
                    let init = self.t.flip();
                    let h = self.method_ref(false, init);
                    I::Ref(183, h, vec![])
                }
                2 => {
                    let h = self.method_ref(false, false);
                    I::Ref(184, h, vec![])
                }
                3 => {
                    let n = *self.t.pick(&[183u8, 184]);
                    let i = self.major >= 52;
                    let h = self.method_ref(i, false);
                    I::Ref(n, h, vec![])
                }
                4 => {
                    let h = self.method_ref(true, false);
                    let c = self.t.b8().max(1);
                    I::Ref(185, h, vec![c, 0])
                }
                _ => {
                    if self.can_dyn() {
                        let h = self.indy();
                        I::Ref(186, h, vec![0, 0])
                    } else {
                        I::Raw(vec![0])
                    }
                }
            },
            18 => match self.t.below(3) {
                0 => {
                    let h = self.plain_class(C05);
                    I::Ref(187, h, vec![])
                }
                1 => I::Raw(vec![188, 4 + self.t.below(8) as u8]),
                _ => {
                    let d = 1 + self.t.below(4) as u8;
                    let mut s = "[".repeat(usize::from(d) + self.t.us(3));
                    if self.t.chance(1, 10) {
                        s = "[".repeat(255);
                    }
                    let d = if s.len() == 255 && self.t.flip() { 255 } else { d };
                    s.push_str(self.t.pick(&["I", "Z", "La/b;", "Lx<y;", "J", "S", "L\u{e9};"]));
                    let h = self.class_named(&s);
                    I::Ref(197, h, vec![d])
                }
            },
            _ => {
                let n = *self.t.pick(&[189u8, 192, 193]);
                let h = self.any_class(C05);
                I::Ref(n, h, vec![])
            }
        }
    }

    /// An instruction that is not as it must be.
    fn bad_insn(&mut self) -> I {
        match self.t.below(14) {
            0 => I::Raw(vec![*self.t.pick(&[203u8, 204, 220, 240, 252, 253])]),
            1 => I::Raw(vec![196, self.t.bits(8) as u8, 0, 0]),
            2 => {
                let t = *self.t.pick(&[0u8, 1, 3, 12, 13, 255, 2]);
                I::Raw(vec![188, t])
            }
            3 => {
                let h = self.method_ref(true, false);
                let (x, y) = (self.t.b8(), self.t.b8());
                I::Ref(185, h, vec![x, y])
            }
            4 => {
                if self.can_dyn() {
                    let h = self.indy();
                    let (x, y) = (self.t.below(2) as u8, self.t.below(2) as u8);
                    I::Ref(186, h, vec![x, y])
                } else {
                    I::Raw(vec![203])
                }
            }
            5 => {
                let h = self.wrong_entry();
                let h = self.low(h);
                I::Ldc(h)
            }
            6 | 7 => {
                let h = self.wrong_entry();
                let n = *self.t.pick(&[19u8, 20, 178, 179, 180, 181, 182, 183, 184, 187, 189, 192, 193]);
                I::Ref(n, h, vec![])
            }
            8 => {
                let h = match self.t.below(4) {
                    0 => self.field_ref(),
                    1 => self.method_ref(false, false),
                    2 => self.method_ref(true, false),
                    _ => self.any_class(0),
                };
                let n = *self.t.pick(&[178u8, 179, 180, 181, 182, 183, 184, 185, 186, 187, 189, 192, 193, 197]);
                let tail = match n {
                    185 => vec![1, 0],
                    186 => vec![0, 0],
                    197 => vec![1],
                    _ => vec![],
                };
                I::Ref(n, h, tail)
            }
            9 => {
                // inverted bounds, as raw bytes; the padding is right only for one alignment
                let mut v = vec![170];
                v.extend_from_slice(&[0; 3][..self.t.us(4)]);
                v.extend_from_slice(&[0, 0, 0, 0]);
                let lo = self.t.b32() as i32;
                let hi = lo.wrapping_sub(1 + self.t.below(3) as i32);
                v.extend_from_slice(&lo.to_be_bytes());
                v.extend_from_slice(&hi.to_be_bytes());
                I::Raw(v)
            }
            10 => {
                let mut v = vec![171];
                v.extend_from_slice(&[0; 3][..self.t.us(4)]);
                v.extend_from_slice(&[0, 0, 0, 0]);
                let n = match self.t.below(3) {
                    0 => -1i32,
                    1 => i32::MIN,
                    _ => self.t.b32() as i32,
                };
                v.extend_from_slice(&n.to_be_bytes());
                I::Raw(v)
            }
            11 => {
                let mut v = vec![170];
                v.extend_from_slice(&[0; 3][..self.t.us(4)]);
                v.extend_from_slice(&[0, 0, 0, 0]);
                let lo = *self.t.pick(&[0i32, i32::MIN, -1, 1]);
                let hi = *self.t.pick(&[i32::MAX, 100, 0x3fff_ffff, 1000]);
                v.extend_from_slice(&lo.to_be_bytes());
                v.extend_from_slice(&hi.to_be_bytes());
                v.extend_from_slice(&[0; 40]);
                I::Raw(v)
            }
            12 => {
                // an instruction that only lacks a byte is made by cutting the code; this one is whole
                let n = self.t.bits(8) as u8;
                I::Raw(vec![n])
            }
            _ => {
                let n = self.t.us(6);
                I::Raw((0..n).map(|_| self.t.bits(8) as u8).collect())
            }
        }
    }

    pub fn code_array(&mut self) {
        let mut v: Vec<I> = Vec::new();
        let n = 1 + self.t.count(self.cfg.code_len);
        let big = self.cfg.big > 0 && self.t.chance(self.cfg.big, 500);
        let run_at = if big { Some(self.t.us(n)) } else { None };
        let bad_at = if self.slip(C14) { Some(self.t.us(n)) } else { None };
        for i in 0..n {
            if run_at == Some(i) {
                let k = match self.t.below(4) {
                    0 => self.t.urange(100, 1000),
                    1 => self.t.urange(32000, 33000),
                    _ => self.t.urange(200, 60000),
                };
                let b = *self.t.pick(&[0u8, 4, 87]);
                for _ in 0..k {
                    v.push(I::Raw(vec![b]));
                }
            }
            if bad_at == Some(i) && self.t.flip() {
                let x = self.bad_insn();
                v.push(x);
            }
            let x = self.insn();
            v.push(x);
        }
        // instruction offsets
        let mut offs = Vec::with_capacity(v.len());
        let mut at = 0usize;
        let mut keep = v.len();
        for (i, x) in v.iter().enumerate() {
            if at + size(x, at) > 65535 {
                keep = i;
                break;
            }
            offs.push(at);
            at += size(x, at);
        }
        v.truncate(keep);
        let total = at;
        let last = offs.len().saturating_sub(1);
        let resolve = |i: usize, t: Tgt| -> usize {
            match t {
                Tgt::Near(d) => (i as i64 + d).clamp(0, last as i64) as usize,
                Tgt::Frac(f) => (f as usize * offs.len()) >> 16,
                Tgt::First => 0,
                Tgt::Last => last,
            }
        };
        // which jump gets a wrong target
        let jumps: usize = v
            .iter()
            .map(|x| match x {
                I::J(..) | I::JW(..) => 1,
                I::Table(_, _, t, _) => 1 + t.len(),
                I::Lookup(_, t, _) => 1 + t.len(),
                _ => 0,
            })
            .sum();
        let wrong = if bad_at.is_some() && jumps > 0 && self.t.flip() { Some(self.t.us(jumps)) } else { None };
        let wrong_how = if wrong.is_some() { self.t.below(12) } else { 0 };
        let wrong_d = if wrong.is_some() { self.t.b32() as i32 } else { 0 };
        let spoil = |o: i64, at: usize| -> i64 {
            match wrong_how {
                0 | 1 => o + 1,
                2 | 3 => o - 1,
                4 => (total - at) as i64,
                5 => (total - at) as i64 + 1,
                6 => -(at as i64) - 1,
                7 => i64::from(i32::MAX),
                8 => i64::from(i32::MIN),
                9 => i64::from(wrong_d),
                10 => o + 2,
                _ => (65536 - at) as i64,
            }
        };
        let mut jn = 0usize;
        let mut next = |o: i64, at: usize| -> i64 {
            let r = if wrong == Some(jn) { spoil(o, at) } else { o };
            jn += 1;
            r
        };
        self.w.u4(Sk::CodeLen, 0);
        let start = self.w.b.len();
        let spans = v.len() < 400;
        for (i, x) in v.iter().enumerate() {
            let at = offs[i];
            if spans {
                self.w.spans.push(Span { k: Sk::Op, pos: self.w.b.len(), len: 1 });
            }
            let rel = |t: Tgt| offs[resolve(i, t)] as i64 - at as i64;
            match x {
                I::Raw(b) => {
                    self.w.b.extend_from_slice(b);
                    if spans && b.len() > 1 {
                        let n = self.w.b.len();
                        self.w.spans.push(Span { k: Sk::Operand, pos: n + 1 - b.len(), len: b.len() - 1 });
                    }
                }
                I::Ref(n, h, b) => {
                    self.w.b.push(*n);
                    self.w.r(*h);
                    if !b.is_empty() {
                        self.w.bytes(Sk::Operand, b);
                    }
                }
                I::Ldc(h) => {
                    self.w.b.push(18);
                    self.w.r1(*h);
                }
                I::J(n, t) => {
                    self.w.b.push(*n);
                    let mut o = rel(*t);
                    if o > 32767 {
                        let lim = at + 32767;
                        o = offs[offs.partition_point(|x| *x <= lim) - 1] as i64 - at as i64;
                    } else if o < -32768 {
                        let lim = at - 32768;
                        o = offs[offs.partition_point(|x| *x < lim)] as i64 - at as i64;
                    }
                    let o = next(o, at);
                    self.w.u2(Sk::Jump, o as i16 as u16);
                }
                I::JW(n, t) => {
                    self.w.b.push(*n);
                    let o = next(rel(*t), at);
                    self.w.u4(Sk::Jump, o as i32 as u32);
                }
                I::Table(d, lo, ts, p) => {
                    self.w.b.push(170);
                    while (self.w.b.len() - start) % 4 != 0 {
                        self.w.b.push(*p);
                    }
                    let o = next(rel(*d), at);
                    self.w.u4(Sk::Jump, o as i32 as u32);
                    self.w.u4(Sk::Operand, *lo as u32);
                    self.w.u4(Sk::Operand, (*lo + (ts.len() as i32 - 1)) as u32);
                    for t in ts {
                        let o = next(rel(*t), at);
                        self.w.u4(Sk::Jump, o as i32 as u32);
                    }
                }
                I::Lookup(d, ts, p) => {
                    self.w.b.push(171);
                    while (self.w.b.len() - start) % 4 != 0 {
                        self.w.b.push(*p);
                    }
                    let o = next(rel(*d), at);
                    self.w.u4(Sk::Jump, o as i32 as u32);
                    self.w.u4(Sk::Operand, ts.len() as u32);
                    for (k, t) in ts {
                        self.w.u4(Sk::Operand, *k as u32);
                        let o = next(rel(*t), at);
                        self.w.u4(Sk::Jump, o as i32 as u32);
                    }
                }
            }
        }
        if bad_at.is_some() && wrong.is_none() && self.t.flip() {
            // cut the last instruction short
            let k = 1 + self.t.us(4);
            let now = self.w.b.len();
            let lo = start + offs.last().copied().unwrap_or(0) + 1;
            let to = now.saturating_sub(k).max(lo).min(now);
            self.w.b.truncate(to);
            self.w.refs.retain(|(p, _, w)| p + usize::from(*w) <= to);
            self.w.spans.retain(|s| s.pos + s.len <= to);
        }
        let len = self.w.b.len() - start;
        self.w.b[start - 4..start].copy_from_slice(&(len as u32).to_be_bytes());
        self.w.spans.push(Span { k: Sk::Code, pos: start, len });
    }
}

