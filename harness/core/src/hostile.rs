//! Inputs meant to hurt: deep nesting, cyclic references, impossible counts, extreme operands.

use crate::asm::{Built, Sk};
use crate::gen::{self, Cfg, BASE};
use crate::mini::*;
use crate::mutate;
use crate::tape::Tape;

pub const FORMS: &[&str] = &[
    "mutated", "nested attributes", "nested annotation values", "pool graph", "huge counts", "huge switch", "jump extremes", "random bytes",
    "long texts", "spliced", "wide rows", "heavily mutated", "huge lengths",
];

/// One hostile input; the index of its form is returned with it.
pub fn input(t: &mut Tape, big: bool) -> (usize, Vec<u8>) {
    let form = t.weighted(&[8, 3, 4, 5, 4, 3, 3, 3, 2, 2, if big { 2 } else { 1 }, 5, 2]);
    let b = match form {
        0 => {
            let mut b = base(t);
            mutate::some(&mut b, t, mutate::ALL);
            b.bytes
        }
        1 => nested_attrs(t, big),
        2 => nested_values(t, big),
        3 => pool_graph(t),
        4 => huge_counts(t),
        5 => huge_switch(t),
        6 => jumps(t),
        7 => random(t),
        8 => long_texts(t, big),
        9 => splice(t),
        10 => wide_rows(t, big),
        11 => {
            let mut b = base(t);
            let n = t.urange(3, 30);
            for _ in 0..n {
                let k = *t.pick(mutate::ALL);
                if k != mutate::Kind::Cut {
                    mutate::one(&mut b, t, k);
                }
            }
            b.bytes
        }
        _ => huge_lengths(t),
    };
    (form, b)
}

fn base(t: &mut Tape) -> Built {
    let cfg = Cfg { slip: crate::node::ALL, slip_pct: 40, code_len: 12, open: 5, module: 6, big: 0, ..BASE };
    gen::class(t, &cfg)
}

fn depth(t: &mut Tape, big: bool) -> usize {
    match t.below(6) {
        0 => t.urange(1, 12),
        1 => t.urange(6, 10),
        2 => t.urange(60, 70),
        3 => t.urange(100, 1000),
        _ => {
            if big {
                t.urange(1000, 60000)
            } else {
                t.urange(1000, 6000)
            }
        }
    }
}

/// Attributes within attributes: Code within Code, Record within Record, or the two in turn.
fn nested_attrs(t: &mut Tape, big: bool) -> Vec<u8> {
    let d = depth(t, big);
    let style = t.below(4);
    let claim_all = t.chance(1, 6);
    let mut m = M::new(61);
    let code = m.utf("Code");
    let record = m.utf("Record");
    let n = m.utf("n");
    let fd = m.utf("I");
    let md = m.utf("()V");
    // prefix and suffix of each level, outermost first
    let mut pre: Vec<Vec<u8>> = Vec::new();
    let mut suf: Vec<Vec<u8>> = Vec::new();
    for i in 0..d {
        let is_code = match style {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => t.flip(),
        };
        if is_code {
            let c: &[u8] = if t.chance(1, 8) { &[0, 0xb1] } else { &[0xb1] };
            pre.push(cat(&[&u2(code), &[0; 4], &u2(1), &u2(1), &u4(c.len() as u32), c, &u2(0), &u2(1)]));
            suf.push(vec![]);
        } else {
            let rows = if claim_all { 65535 } else { 1 + t.below(2) as u16 };
            pre.push(cat(&[&u2(record), &[0; 4], &u2(rows), &u2(n), &u2(fd), &u2(1)]));
            suf.push(if rows == 2 { cat(&[&u2(n), &u2(fd), &u2(0)]) } else { vec![] });
        }
    }
    // the innermost has no attributes
    if let Some(l) = pre.last_mut() {
        let k = l.len();
        l[k - 1] = 0;
    }
    let total: usize = pre.iter().chain(suf.iter()).map(|x| x.len()).sum();
    let mut rest = total;
    let mut out = Vec::with_capacity(total);
    for (p, s) in pre.iter().zip(&suf) {
        let mut p = p.clone();
        let len = rest - 6;
        p[2..6].copy_from_slice(&u4(len as u32));
        rest -= p.len() + s.len();
        out.extend_from_slice(&p);
    }
    for s in suf.iter().rev() {
        out.extend_from_slice(s);
    }
    match t.below(3) {
        0 => m.attrs.push(out),
        1 => m.methods.push(memb_i(1, n, md, &[out])),
        _ => m.fields.push(memb_i(1, n, fd, &[out])),
    }
    let mut b = m.bytes();
    if t.chance(1, 6) {
        let k = t.us(b.len());
        b.truncate(k);
    }
    b
}

/// Annotation values within annotation values.
fn nested_values(t: &mut Tape, big: bool) -> Vec<u8> {
    let d = depth(t, big);
    let style = t.below(3);
    let mut m = M::new(61);
    let at = m.utf("La/A;");
    let n = m.utf("e");
    let i = m.entry(3, &u4(1));
    let where_ = t.below(8);
    let claim = if t.chance(1, 6) { 65535 } else { 1 };
    let mut v = Vec::new();
    for _ in 0..d {
        let arr = match style {
            0 => true,
            1 => false,
            _ => t.flip(),
        };
        if arr {
            v.extend_from_slice(&[b'[']);
            v.extend_from_slice(&u2(claim));
        } else {
            v.extend_from_slice(&[b'@']);
            v.extend_from_slice(&u2(at));
            v.extend_from_slice(&u2(claim));
            v.extend_from_slice(&u2(n));
        }
    }
    v.extend_from_slice(&[b'I']);
    v.extend_from_slice(&u2(i));
    let ann = cat(&[&u2(at), &u2(1), &u2(n), &v]);
    match where_ {
        0 => {
            let a = m.attr("AnnotationDefault", &v);
            let x = m.memb(0x401, "m", "()I", &[a]);
            m.methods.push(x);
        }
        1 => {
            let a = m.attr("RuntimeInvisibleParameterAnnotations", &cat(&[&[1], &u2(1), &ann]));
            let x = m.memb(0x401, "m", "(I)I", &[a]);
            m.methods.push(x);
        }
        2 => {
            let a = m.attr("RuntimeVisibleTypeAnnotations", &cat(&[&u2(1), &[0x13, 0], &ann]));
            let x = m.memb(1, "f", "I", &[a]);
            m.fields.push(x);
        }
        3 => {
            let a = m.attr("RuntimeInvisibleAnnotations", &cat(&[&u2(1), &ann]));
            let c = m.code(&[0xb1], &[a]);
            let x = m.memb(1, "m", "()V", &[c]);
            m.methods.push(x);
        }
        _ => {
            let a = m.attr("RuntimeVisibleAnnotations", &cat(&[&u2(1), &ann]));
            m.attrs.push(a);
        }
    }
    let mut b = m.bytes();
    if t.chance(1, 6) {
        let k = t.us(b.len());
        b.truncate(k);
    }
    b
}

/// A pool of entries that refer to each other at random: cycles, chains, shared targets.
fn pool_graph(t: &mut Tape) -> Vec<u8> {
    // a pool as full as can be, in one chain: whatever walks it one level per entry is seen
    let full = t.chance(1, 12);
    let n = match t.below(4) {
        _ if full => t.urange(30000, 65533),
        0 => t.urange(1, 5),
        1 | 2 => t.urange(4, 40),
        _ => t.urange(30, 3000),
    };
    let mut m = M::empty(*t.pick(&[65u16, 61, 55, 52, 53, 49]));
    let style = t.below(if full { 2 } else { 6 });
    let k = n as u64 + 2;
    let refr = |t: &mut Tape, me: usize| -> u16 {
        match style {
            0 => (me + 1) as u16,             // a chain upwards
            1 => (me as u64).saturating_sub(1) as u16, // a chain downwards
            2 => t.range(1, k) as u16,
            3 => (1 + (me + t.us(3)) % n) as u16,
            4 => me as u16,
            _ => t.below(k + 1) as u16,
        }
    };
    let only = match *t.pick(&[0u8, 0, 0, 12, 15, 7, 8, 10, 17, 16, 19, 9]) {
        0 if full => *t.pick(&[7u8, 8, 12]),
        x => x,
    };
    for i in 1..=n {
        let tag = if full || only != 0 && t.chance(9, 10) { only } else { *t.pick(&[12u8, 12, 15, 7, 8, 9, 10, 11, 16, 17, 18, 1, 19, 20, 5, 3]) };
        match tag {
            1 => {
                let s = *t.pick(&["a", "I", "()V", "<init>", "Code", "", "[I"]);
                m.utf(s);
            }
            3 => {
                m.entry(3, &[0; 4]);
            }
            5 => {
                m.entry(5, &[0; 8]);
            }
            7 | 8 | 16 | 19 | 20 => {
                let a = refr(t, i);
                m.r1(tag, a);
            }
            15 => {
                let a = refr(t, i);
                let kind = if full { 5 } else { t.range(0, 10) as u8 };
                m.handle(kind, a);
            }
            17 | 18 => {
                let a = refr(t, i);
                let x = if full { 0 } else { t.below(3) as u16 };
                m.r2(tag, x, a);
            }
            _ => {
                let a = refr(t, i);
                let b = refr(t, i);
                m.r2(tag, a, b);
            }
        }
        if m.count as usize > n + 1 {
            break;
        }
    }
    if full {
        // no choice left to the tape for each entry: all the same
        return m.bytes();
    }
    m.this = t.range(0, k) as u16;
    m.sup = t.below(k) as u16;
    if t.flip() {
        m.this = m.class("T");
        m.sup = 0;
    }
    m.bytes()
}

/// A small class in which one or more counts are made huge.
fn huge_counts(t: &mut Tape) -> Vec<u8> {
    let cfg = Cfg { big: 0, code_len: 6, fields: 2, methods: 2, open: 0, depth: 3, ..BASE };
    let mut b = gen::class(t, &cfg);
    let spots: Vec<_> = b.spans.iter().filter(|s| matches!(s.k, Sk::Count | Sk::PoolCount)).copied().collect();
    let n = 1 + t.us(4);
    for _ in 0..n {
        if spots.is_empty() {
            break;
        }
        let s = *t.pick(&spots);
        let v = *t.pick(&[65535u16, 65534, 32768, 60000]);
        if s.len == 2 {
            b.bytes[s.pos..s.pos + 2].copy_from_slice(&u2(v));
        } else if s.len == 1 {
            b.bytes[s.pos] = 255;
        }
    }
    if t.chance(1, 4) {
        // let every enclosing length reach the end
        for s in b.spans.clone() {
            if s.k == Sk::AttrLen {
                let v = (b.bytes.len() - s.pos - 4) as u32;
                b.bytes[s.pos..s.pos + 4].copy_from_slice(&u4(v));
            }
        }
    }
    b.bytes
}

fn huge_lengths(t: &mut Tape) -> Vec<u8> {
    let cfg = Cfg { big: 0, code_len: 6, fields: 2, methods: 2, open: 0, depth: 3, ..BASE };
    let mut b = gen::class(t, &cfg);
    let spots: Vec<_> = b.spans.iter().filter(|s| matches!(s.k, Sk::AttrLen | Sk::CodeLen | Sk::Utf8Len)).copied().collect();
    let n = 1 + t.us(2);
    for _ in 0..n {
        if spots.is_empty() {
            break;
        }
        let s = *t.pick(&spots);
        let v = match t.below(4) {
            0 => 0xffff_ffffu32,
            1 => 0x7fff_ffff,
            2 => 0xffff_ffffu32.wrapping_sub(s.pos as u32).wrapping_sub(t.below(8) as u32),
            _ => t.b32(),
        };
        if s.len == 4 {
            b.bytes[s.pos..s.pos + 4].copy_from_slice(&u4(v));
        } else {
            b.bytes[s.pos..s.pos + 2].copy_from_slice(&u2(v as u16));
        }
    }
    b.bytes
}

fn with_code(m: &mut M, code: &[u8]) -> Vec<u8> {
    let c = m.code(code, &[]);
    let x = m.memb(1, "m", "()V", &[c]);
    m.methods.push(x);
    m.bytes()
}

fn huge_switch(t: &mut Tape) -> Vec<u8> {
    let mut m = M::new(52);
    let before = t.us(5);
    let mut code = vec![0u8; before];
    let table = t.flip();
    code.push(if table { 170 } else { 171 });
    while code.len() % 4 != 0 {
        code.push(0);
    }
    let d = t.b32();
    code.extend_from_slice(&u4(if t.flip() { 0 } else { d }));
    if table {
        let low = *t.pick(&[0u32, 1, 0x8000_0000, 0xffff_ffff, 0x7fff_ffff, 0xc000_0000, 0x8000_0001]);
        let high = *t.pick(&[0x7fff_ffffu32, 0, 0x7fff_fffe, 0xffff_ffff, 0x8000_0000, 0x3fff_ffff, 0x0fff_ffff, 0x00ff_ffff, 0x0001_0000]);
        code.extend_from_slice(&u4(low));
        code.extend_from_slice(&u4(high));
    } else {
        let n = *t.pick(&[0x7fff_ffffu32, 0xffff_ffff, 0x8000_0000, 0x1fff_ffff, 0x2000_0000, 0x0fff_ffff, 0x00ff_ffff, 0x0001_0000, 0x1000]);
        code.extend_from_slice(&u4(n));
    }
    let tail = t.us(40);
    for _ in 0..tail {
        let v = t.below(3) as u8;
        code.push(v);
    }
    with_code(&mut m, &code)
}

fn jumps(t: &mut Tape) -> Vec<u8> {
    let mut m = M::new(48);
    let n = t.urange(1, 12);
    let mut code = vec![];
    for _ in 0..n {
        let op = *t.pick(&[153u8, 167, 168, 200, 201, 199, 170, 171, 0, 16, 17]);
        code.push(op);
        match op {
            200 | 201 => {
                let v = *t.pick(&[0x8000_0000u32, 0x7fff_ffff, 0xffff_ffff, 0x8000_0001, 0, 5, 0xffff_fffb]);
                code.extend_from_slice(&u4(v));
            }
            170 | 171 => {
                while code.len() % 4 != 0 {
                    code.push(0);
                }
                let v = *t.pick(&[0x8000_0000u32, 0x7fff_ffff, 0xffff_ffff, 0, 0x8000_0001]);
                code.extend_from_slice(&u4(v));
                if op == 170 {
                    let low = *t.pick(&[0x7fff_ffffu32, 0x8000_0000, 0]);
                    code.extend_from_slice(&u4(low));
                    code.extend_from_slice(&u4(low));
                    code.extend_from_slice(&u4(v));
                } else {
                    code.extend_from_slice(&u4(1));
                    code.extend_from_slice(&u4(v));
                    code.extend_from_slice(&u4(v));
                }
            }
            0 => {}
            16 => code.push(1),
            17 => code.extend_from_slice(&[0, 0]),
            _ => {
                let v = *t.pick(&[0x8000u16, 0x7fff, 0xffff, 0, 3, 0xfffd, 0x8001]);
                code.extend_from_slice(&u2(v));
            }
        }
    }
    with_code(&mut m, &code)
}

fn random(t: &mut Tape) -> Vec<u8> {
    let n = t.us(200);
    let mut b = Vec::new();
    let head = t.below(4);
    if head >= 1 {
        b.extend_from_slice(&[0xCA, 0xFE, 0xBA, 0xBE]);
    }
    if head >= 2 {
        let m = t.range(45, 65) as u8;
        b.extend_from_slice(&[0, 0, 0, m]);
    }
    if head >= 3 {
        let c = t.urange(1, 20);
        b.extend_from_slice(&u2(c as u16));
        for _ in 1..c {
            let tag = t.below(21) as u8;
            b.push(tag);
            let len = match tag {
                1 => {
                    let l = t.us(6);
                    b.extend_from_slice(&u2(l as u16));
                    l
                }
                3 | 4 | 9..=12 | 17 | 18 => 4,
                5 | 6 => 8,
                15 => 3,
                _ => 2,
            };
            for i in 0..len {
                let v = if i % 2 == 0 && tag > 6 && tag != 15 { 0 } else { t.below(24) as u8 };
                b.push(v);
            }
        }
    }
    for _ in 0..n {
        let v = t.b8();
        b.push(v);
    }
    b
}

/// Texts of the greatest length in places where they are taken apart.
fn long_texts(t: &mut Tape, big: bool) -> Vec<u8> {
    let max = if big || t.chance(1, 8) { 65535 } else { 3000 };
    let n = *t.pick(&[max, max - 1, max - 2, 255, 256, 257, 1000]);
    let s: Vec<u8> = match t.below(14) {
        0 => vec![b'['; n],
        1 => vec![b'('; n],
        2 => cat(&[b"(", &vec![b'I'; n - 3], b")V"]),
        3 => cat(&[b"(", &vec![b'['; n - 1]]),
        4 => cat(&[b"L", &vec![b'a'; n - 2], b";"]),
        5 => vec![b'/'; n],
        6 => cat(&[b"L", &vec![b'/'; n - 2], b";"]),
        7 => [b"a/".repeat(n / 2), b"a".to_vec()].concat(),
        8 => b"La;".repeat(n / 3),
        9 => cat(&[b"(", &b"La;".repeat((n - 3) / 3), b")V"]),
        10 => [0xC0u8, 0x80].repeat(n / 2),
        11 => [0xEDu8, 0xA0, 0x80].repeat(n / 3),
        12 => [0xEDu8, 0xA0, 0xBD, 0xED, 0xB8, 0x80].repeat(n / 6),
        _ => cat(&[b"(", &b"[[J".repeat((n - 3) / 3), b")D"]),
    };
    let mut m = M::new(61);
    let u = m.utf_b(&s);
    let n = m.utf("n");
    let d = m.utf("I");
    match t.below(7) {
        0 => m.fields.push(memb_i(1, n, u, &[])),
        1 => m.methods.push(memb_i(0x400, n, u, &[])),
        2 => m.this = m.r1(7, u),
        3 => {
            m.r2(12, n, u);
        }
        4 => {
            m.r1(8, u);
        }
        5 => m.fields.push(memb_i(1, u, d, &[])),
        _ => {
            m.r1(16, u);
        }
    }
    m.bytes()
}

fn splice(t: &mut Tape) -> Vec<u8> {
    let a = base(t).bytes;
    let b = base(t).bytes;
    let i = t.us(a.len() + 1);
    let j = if t.flip() { i.min(b.len()) } else { t.us(b.len() + 1) };
    cat(&[&a[..i], &b[j..]])
}

/// Well-formed tables with as many of the smallest rows as fit.
fn wide_rows(t: &mut Tape, big: bool) -> Vec<u8> {
    let n = if big { *t.pick(&[65535usize, 65535, 60000, 20000]) } else { *t.pick(&[2000usize, 65535, 5000]) };
    let mut m = M::new(61);
    let c = m.class("Q");
    let u = m.utf("n");
    let d = m.utf("I");
    let rep = |row: &[u8]| row.repeat(n);
    let k = n as u16;
    match t.below(14) {
        0 => m.ifs = vec![c; n],
        1 => {
            let a = m.attr("NestMembers", &cat(&[&u2(k), &rep(&u2(c))]));
            m.attrs.push(a)
        }
        2 => {
            let a = m.attr("InnerClasses", &cat(&[&u2(k), &rep(&cat(&[&u2(c), &u2(0), &u2(0), &u2(0)]))]));
            m.attrs.push(a)
        }
        3 => {
            let a = m.attr("StackMapTable", &cat(&[&u2(k), &rep(&[0])]));
            let c = m.code(&[0xb1], &[a]);
            let x = m.memb(1, "m", "()V", &[c]);
            m.methods.push(x)
        }
        4 => {
            let code = vec![0u8; n];
            let c = m.code(&code, &[]);
            let x = m.memb(1, "m", "()V", &[c]);
            m.methods.push(x)
        }
        5 => {
            let at = m.utf("La;");
            let a = m.attr("RuntimeVisibleAnnotations", &cat(&[&u2(k), &rep(&cat(&[&u2(at), &u2(0)]))]));
            m.attrs.push(a)
        }
        6 => {
            let at = m.utf("La;");
            let i = m.entry(3, &u4(1));
            let a = m.attr("RuntimeVisibleAnnotations", &cat(&[&u2(1), &u2(at), &u2(1), &u2(u), b"[", &u2(k), &rep(&cat(&[b"I", &u2(i)]))]));
            m.attrs.push(a)
        }
        7 => {
            let a = m.attr("Record", &cat(&[&u2(k), &rep(&cat(&[&u2(u), &u2(d), &u2(0)]))]));
            m.attrs.push(a)
        }
        8 => {
            let a = m.attr("Deprecated", &[]);
            m.attrs = vec![a; n];
        }
        9 => {
            let mut e = cat(&[&u2(1), &u2(1), &u4(1), &[0xb1], &u2(k)]);
            e.extend_from_slice(&rep(&[0; 8]));
            e.extend_from_slice(&u2(0));
            let a = m.attr("Code", &e);
            let x = m.memb(1, "m", "()V", &[a]);
            m.methods.push(x)
        }
        10 => {
            let at = m.utf("La;");
            let row = cat(&[&[0x13, 0], &u2(at), &u2(0)]);
            let a = m.attr("RuntimeVisibleTypeAnnotations", &cat(&[&u2(k), &rep(&row)]));
            m.attrs.push(a)
        }
        11 => {
            let a = m.attr("LineNumberTable", &cat(&[&u2(k), &rep(&[0; 4])]));
            let c = m.code(&[0xb1], &[a]);
            let x = m.memb(1, "m", "()V", &[c]);
            m.methods.push(x)
        }
        12 => {
            // no two members alike
            for i in 0..n.min(30000) {
                let x = m.utf(&format!("f{}", i));
                m.fields.push(memb_i(0, x, d, &[]));
            }
        }
        _ => {
            for _ in 0..n.min(60000) {
                m.entry(3, &[0; 4]);
            }
        }
    }
    m.bytes()
}
