//! Large files: pools filled up with one kind of entry and all of them used, every branch offset
//! and every value of the numbers in the headers of members and code.

use crate::mini::*;

fn dig(k: &mut u64, n: usize) -> usize {
    let r = (*k % n as u64) as usize;
    *k /= n as u64;
    r
}

// ---- pools

pub const POOLS: u64 = 12 * 2 * 2;

/// A pool full of entries of one kind, each used by an instruction; what the entries refer to
/// follows them or precedes them.
pub fn pool(mut k: u64) -> Vec<u8> {
    let before = dig(&mut k, 2) == 0;
    let full = dig(&mut k, 2) == 0;
    let kind = k as usize;
    let mut m = M::new(61);
    let (t, f, v) = (m.utf("t"), m.utf("I"), m.utf("()V"));
    let c = m.class("C");
    let names: Vec<u16> = (0..8).map(|i| m.utf(&format!("m{i}"))).collect();
    let code_name = m.utf("Code");
    let nat_f = m.r2(12, t, f);
    let nat_m = m.r2(12, t, v);
    let me = m.r2(10, c, nat_m);
    let handle = m.handle(6, me);
    let boot_name = m.utf("BootstrapMethods");
    // slots used per entry, with its own referent where it has one
    let own = matches!(kind, 0 | 1 | 6);
    let width: u32 = if own || matches!(kind, 3 | 4) { 2 } else { 1 };
    let mut n = (65534 - u32::from(m.count)) / width;
    if !full {
        n = n.min(300);
    } else if matches!(kind, 8..=11) {
        // no more than the reference is willing to describe
        n = n.min(20000);
    }
    let n = n as u16;
    let first = m.count;
    let (of, to) = if before { (first, first + n) } else { (first + n, first) };
    for pass in 0..2 {
        let entries = (pass == 0) == before;
        if !entries && !own {
            continue;
        }
        for i in 0..n {
            if entries {
                // referents in opposite order
                let r = if own { to + (n - 1 - i) } else { 0 };
                let x = u32::from(i);
                match kind {
                    0 => m.r1(7, r),
                    1 => m.r1(8, r),
                    2 => m.entry(3, &u4(x.wrapping_mul(0x9e37_79b9))),
                    3 => m.entry(5, &[u4(x), u4(!x)].concat()),
                    4 => m.entry(6, &[u4(0x4000_0000 | x), u4(x)].concat()),
                    5 => m.entry(4, &u4(0x4000_0000 | x)),
                    6 => m.r2(9, c, r),
                    7 => m.r1(16, v),
                    8 => m.handle(6, me),
                    9 => m.r2(17, i, nat_f),
                    10 => m.r2(18, i, nat_m),
                    _ => m.r2(10, c, nat_m),
                };
            } else if kind == 6 {
                m.r2(12, t, f);
            } else {
                m.utf(&format!("q{i}"));
            }
        }
    }
    let of = if own { of } else { first };
    let mut at = 0;
    let mut no = 0;
    while at < n {
        let mut code = vec![];
        while at < n && code.len() < 65000 {
            let ix = if matches!(kind, 3 | 4) { of + 2 * at } else { of + at };
            let (op, end): (u8, &[u8]) = match kind {
                0 => (0xc1, &[]),
                3 | 4 => (20, &[]),
                6 => (178, &[]),
                10 => (186, &[0, 0]),
                11 => (184, &[]),
                _ => (19, &[]),
            };
            code.push(op);
            code.extend_from_slice(&u2(ix));
            code.extend_from_slice(end);
            at += 1;
        }
        code.push(0xb1);
        let a = attr_i(code_name, &code_body(1, 1, &code, &[], &[]));
        m.methods.push(memb_i(1, names[no], v, &[a]));
        no += 1;
    }
    if matches!(kind, 9 | 10) {
        let mut b = u2(n).to_vec();
        for _ in 0..n {
            b.extend_from_slice(&u2(handle));
            b.extend_from_slice(&u2(0));
        }
        m.attrs.push(attr_i(boot_name, &b));
    }
    m.bytes()
}

/// Numbers of entries of a pool.
const COUNTS: [u16; 10] = [65535, 65534, 65533, 32769, 32768, 32767, 257, 256, 255, 128];
pub const BRIMS: u64 = 10 * 6;

/// Pools of a certain number of entries, with an entry of some kind at the end.
pub fn brim(mut k: u64) -> Vec<u8> {
    let count = COUNTS[dig(&mut k, 10)];
    let mut m = M::new(61);
    let (t, f) = (m.utf("t"), m.utf("I"));
    let wide = matches!(k, 1 | 2);
    while m.count < count - if wide { 2 } else { 1 } {
        let x = u32::from(m.count);
        m.entry(3, &u4(x));
    }
    let last = match k {
        0 => m.entry(3, &u4(7)),
        1 => m.entry(5, &[u4(1), u4(2)].concat()),
        2 => m.entry(6, &[u4(1), u4(2)].concat()),
        3 => m.r1(7, t),
        4 => m.utf("last"),
        _ => m.r1(8, t),
    };
    if k == 3 {
        m.ifs.push(last);
    }
    if k == 4 {
        m.fields.push(memb_i(0, last, f, &[]));
    }
    assert_eq!(m.count, count);
    m.bytes()
}

// ---- code

const LENGTHS: [usize; 12] = [65535, 65534, 65533, 65532, 65531, 32769, 32768, 32767, 257, 256, 255, 64];
pub const CODES: u64 = 12 * 10;

/// Code of a certain length that ends with an instruction of some form, and tables that speak of its end.
pub fn codes(mut k: u64) -> Vec<u8> {
    let len = LENGTHS[dig(&mut k, 12)];
    let mut m = M::new(48);
    let c = m.class("[[I");
    let i = m.member(11, "C", "m", "()V");
    let end = |at: usize| match k {
        0 => vec![0xb1],
        1 => vec![0x10, 0x80],
        2 => vec![167, 0, 0],
        3 => cat(&[&[0xc5], &u2(c), &[2]]),
        4 => cat(&[&[0xb9], &u2(i), &[1, 0]]),
        5 => cat(&[&[200], &u4((at as u32).wrapping_neg())]),
        6 => cat(&[&[0xc4, 0x84], &u2(65535), &u2(0x8000)]),
        7 => vec![0xc4, 0xa9, 0xff, 0xff],
        8 => cat(&[&[0xab], &vec![0; 3 - at % 4], &u4((at as u32).wrapping_neg()), &u4(0)]),
        _ => cat(&[&[0xaa], &vec![0; 3 - at % 4], &u4(0), &u4(0x7fff_ffff), &u4(0x7fff_ffff), &u4((at as u32).wrapping_neg())]),
    };
    // the last place from which the instruction still fits
    let at = (len - 30..len).rev().find(|at| at + end(*at).len() <= len).unwrap();
    let e = end(at);
    let mut code: Vec<u8> = (0..at).map(|i| [0x00, 0x57, 0x60, 0x2a, 0x04][i % 5]).collect();
    code.extend_from_slice(&e);
    code.resize(len, 0xb1);
    let n = len as u16;
    let (x, d) = (m.utf("x"), m.utf("I"));
    let lines = m.attr("LineNumberTable", &cat(&[&u2(2), &u2(n - 1), &u2(65535), &u2(0), &u2(1)]));
    let vars = m.attr("LocalVariableTable", &cat(&[&u2(2), &u2(0), &u2(n), &u2(x), &u2(d), &u2(0), &u2(n - 1), &u2(1), &u2(x), &u2(d), &u2(1)]));
    let body = code_body(2, 2, &code, &[[0, n, 0, 0], [n - 1, n, n - 1, 0]], &[lines, vars]);
    let a = m.attr("Code", &body);
    let x = m.memb(1, "m", "()V", &[a]);
    m.methods.push(x);
    m.bytes()
}

// ---- nesting

/// As deep as annotations are judged.
pub const DEEPEST: usize = 64;
pub const DEEP: u64 = (DEEPEST as u64 + 4) * 4 * 5;

/// Element values nested to every depth: arrays, annotations, or both in turn.
pub fn deep(mut k: u64) -> Vec<u8> {
    let form = dig(&mut k, 4);
    let site = dig(&mut k, 5);
    let depth = k as usize;
    let mut m = M::new(61);
    let (n, d, s) = (m.utf("v"), m.utf("La/A;"), m.utf("text"));
    let one = m.entry(3, &u4(1));
    let leaf = [&[b's'][..], &u2(s)].concat();
    let number = [&[b'I'][..], &u2(one)].concat();
    let mut v = leaf.clone();
    for i in 0..depth {
        let array = match form {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => i % 3 == 0,
        };
        v = match (array, form) {
            // with others around it
            (true, 3) => cat(&[&[b'['], &u2(3), &number, &v, &leaf]),
            (true, _) => cat(&[&[b'['], &u2(1), &v]),
            (false, 3) => cat(&[&[b'@'], &u2(d), &u2(3), &u2(n), &number, &u2(n), &v, &u2(n), &leaf]),
            (false, _) => cat(&[&[b'@'], &u2(d), &u2(1), &u2(n), &v]),
        };
    }
    let a = cat(&[&u2(d), &u2(1), &u2(n), &v]);
    let attr = match site {
        0 => m.attr("RuntimeVisibleAnnotations", &cat(&[&u2(1), &a])),
        1 => m.attr("RuntimeInvisibleAnnotations", &cat(&[&u2(2), &a, &a])),
        2 => m.attr("RuntimeVisibleParameterAnnotations", &cat(&[&[1], &u2(1), &a])),
        3 => m.attr("RuntimeInvisibleTypeAnnotations", &cat(&[&u2(1), &[0x14, 0], &a])),
        _ => m.attr("AnnotationDefault", &v),
    };
    let x = m.memb(0x401, "m", "(I)I", &[attr]);
    m.flags = 0x421;
    m.methods.push(x);
    m.bytes()
}

// ---- branches

const BRANCHES: [u8; 18] = [153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 198, 199];
pub const JUMPS: u64 = 18 * 2 * 3 + 2 * 5;

/// Branches over every distance: all backward into nops before them, or forward into nops after.
pub fn jumps(mut k: u64) -> Vec<u8> {
    const HALF: usize = 32768;
    let mut m = M::new(48);
    let wide = k >= 18 * 2 * 3;
    let mut code = vec![];
    if wide {
        k -= 18 * 2 * 3;
    }
    let back = dig(&mut k, 2) == 0;
    let w = if wide { 5 } else { 3 };
    let shift = dig(&mut k, w);
    let turn = k as usize;
    let n = (32760 - shift) / w;
    let put = |i: usize, d: i32, code: &mut Vec<u8>| {
        if wide {
            code.push(if i % 2 == 0 { 200 } else { 201 });
            code.extend_from_slice(&u4(d as u32));
        } else {
            code.push(BRANCHES[(i + turn) % 18]);
            code.extend_from_slice(&u2(d as u16));
        }
    };
    if back {
        code.resize(HALF, 0);
        for i in 0..n {
            put(i, -((w * i + 1 + shift) as i32), &mut code);
        }
    } else {
        for i in 0..n {
            put(i, ((n - i) * w + shift) as i32, &mut code);
        }
        code.resize(n * w + HALF - 100, 0);
    }
    code.push(0xb1);
    code.truncate(65535);
    let a = m.code(&code, &[]);
    let x = m.memb(1, "m", "()V", &[a]);
    m.methods.push(x);
    m.bytes()
}

// ---- numbers in headers

pub const HEADERS: u64 = 5 * 16;

/// Members with all values of their flags, of the stack and of the locals of their code.
pub fn headers(mut k: u64) -> Vec<u8> {
    let part = dig(&mut k, 16) as u32;
    let mut m = M::new(61);
    let (fd, md) = (m.utf("I"), m.utf("()V"));
    let code = m.utf("Code");
    let ln = m.utf("Synthetic");
    for v in (0..65536u32).filter(|v| v % 16 == part) {
        let n = m.utf(&format!("n{v}"));
        let v = v as u16;
        let other = v.wrapping_mul(3).wrapping_add(1);
        match k {
            0 => m.fields.push(memb_i(v, n, fd, &[])),
            1 => m.methods.push(memb_i(v, n, md, &[])),
            2 | 3 => {
                let (s, l) = if k == 2 { (v, other) } else { (other, v) };
                let a = attr_i(code, &code_body(s, l, &[0xb1], &[], &[]));
                m.methods.push(memb_i(1, n, md, &[a]));
            }
            // between none and some attributes
            _ => {
                let a = attr_i(ln, &[]);
                m.fields.push(memb_i(other, n, fd, if v & 16 == 0 { &[] } else { std::slice::from_ref(&a) }));
                m.methods.push(memb_i(v, n, md, if v & 32 == 0 { &[] } else { std::slice::from_ref(&a) }));
            }
        }
    }
    m.bytes()
}

/// Every word of flags of the class; every major and every minor version.
pub const WORDS: u64 = 3 * 65536;
pub fn words(mut k: u64) -> Vec<u8> {
    let which = dig(&mut k, 3);
    let mut m = M::new(52);
    match which {
        0 => m.flags = k as u16,
        1 => {
            m.major = k as u16;
            m.minor = (k as u16).wrapping_mul(0x3331);
        }
        _ => {
            m.major = 45 + (k % 27) as u16;
            m.minor = k as u16;
        }
    }
    m.bytes()
}
