//! Systematic enumerations over small spaces: every rule met at every site once.

use crate::big;
use crate::mini::*;
use crate::points;
use crate::tables;
use crate::texts;
use crate::twins;

fn pow(a: usize, b: u32) -> u64 {
    (a as u64).pow(b)
}
/// Take the next digit of a mixed-radix number.
fn dig(k: &mut u64, n: usize) -> usize {
    let r = (*k % n as u64) as usize;
    *k /= n as u64;
    r
}

/// One part of the enumeration of a property: its size, and how to make its k-th file.
struct Part {
    n: u64,
    f: fn(u64) -> Vec<u8>,
}

const MAJORS: &[u16] = &[45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 59, 60, 61, 65, 66, 70];

fn words<const P: u32>(k: u64) -> Vec<u8> {
    tables::words(P, k)
}
fn sweeps<const P: u32>(k: u64) -> Vec<u8> {
    tables::sweeps(P, k)
}
fn fulls<const P: u32>(k: u64) -> Vec<u8> {
    tables::fulls(P, k)
}
fn of_tables<const P: u32>() -> [Part; 3] {
    [
        Part { n: tables::words_count(P), f: words::<P> },
        Part { n: tables::sweeps_count(P), f: sweeps::<P> },
        Part { n: tables::fulls_count(P), f: fulls::<P> },
    ]
}

fn parts(prop: u32) -> Vec<Part> {
    let mut v = own(prop);
    if !v.is_empty() {
        v.push(with_padding(prop));
    }
    v.extend(large(prop));
    match prop {
        3 => v.extend(of_tables::<3>()),
        8 => {
            v.extend(of_tables::<8>());
            v.push(Part { n: tables::skews_count(), f: tables::skews });
        }
        9 => v.extend(of_tables::<9>()),
        10 => v.extend(of_tables::<10>()),
        11 => v.extend(of_tables::<11>()),
        12 => v.extend(of_tables::<12>()),
        13 | 14 => v.extend(of_tables::<13>()),
        _ => {}
    }
    v
}

/// Files of their own size.
fn large(prop: u32) -> Vec<Part> {
    let long = Part { n: texts::COUNT, f: texts::long_nonascii };
    let pools = Part { n: big::POOLS, f: big::pool };
    let brim = Part { n: big::BRIMS, f: big::brim };
    let codes = Part { n: big::CODES, f: big::codes };
    match prop {
        1 => vec![long],
        3 => vec![Part { n: big::WORDS, f: big::words }, Part { n: big::HEADERS, f: big::headers }, brim],
        4 | 5 => vec![pools, brim],
        6 => vec![long, Part { n: points::COUNT_TEXTS, f: points::texts }],
        9 => vec![codes],
        10 => vec![Part { n: big::DEEP, f: big::deep }],
        13 | 14 => vec![Part { n: big::JUMPS, f: big::jumps }, pools, codes],
        15 => vec![codes],
        16 => vec![long, Part { n: points::COUNT_DESCS, f: points::descs }],
        17 => vec![long, Part { n: points::COUNT_NAMES, f: points::names }],
        18 => vec![Part { n: twins::CROWDS, f: twins::crowd }],
        _ => vec![],
    }
}

// ---- the small files with padding

const PADS: [Pad; 16] = {
    let z = Pad { pool: 0, texts: false, fields: 0, methods: 0, attrs: 0, inner: 0, nops: 0 };
    [
        Pad { pool: 240, ..z },
        Pad { pool: 4080, texts: true, ..z },
        Pad { pool: 32750, ..z },
        Pad { pool: 62000, ..z },
        Pad { pool: 32760, texts: true, ..z },
        Pad { fields: 255, methods: 256, ..z },
        Pad { fields: 32767, attrs: 256, ..z },
        Pad { fields: 65530, ..z },
        Pad { methods: 32767, ..z },
        Pad { methods: 65530, attrs: 3, ..z },
        Pad { attrs: 40000, inner: 7, ..z },
        Pad { inner: 300, attrs: 255, ..z },
        Pad { inner: 33000, ..z },
        Pad { nops: 252, inner: 1, ..z },
        Pad { nops: 32760, pool: 250, ..z },
        Pad { nops: 65400, attrs: 65530, ..z },
    ]
};
/// How many files of every part there are with each padding; the large ones take long.
const fn per_part(p: usize) -> u64 {
    let d = PADS[p];
    if d.pool as u32 + d.fields as u32 + d.methods as u32 + d.attrs as u32 + d.inner as u32 >= 30000 {
        10
    } else {
        40
    }
}
const PER_PART: u64 = {
    let (mut n, mut p) = (0, 0);
    while p < PADS.len() {
        n += per_part(p);
        p += 1;
    }
    n
};

pub fn pad_count(prop: u32) -> u64 {
    own(prop).len() as u64 * PER_PART
}
/// The k-th small file with padding.
fn pad_make<const P: u32>(mut k: u64) -> Vec<u8> {
    let parts = own(P);
    let part = &parts[dig(&mut k, parts.len())];
    let mut p = 0;
    while k >= per_part(p) {
        k -= per_part(p);
        p += 1;
    }
    // spread over the part, at other places for every padding
    let n = per_part(p);
    let at = (k * part.n / n + p as u64 * part.n / (n * PADS.len() as u64) + p as u64) % part.n;
    let mut pad = PADS[p];
    if pad.pool > 0 {
        pad.pool += (k % 16) as u16;
    }
    padded(pad, || (part.f)(at))
}
fn with_padding(prop: u32) -> Part {
    let f = match prop {
        3 => pad_make::<3>,
        4 | 5 => pad_make::<5>,
        6 => pad_make::<6>,
        9 => pad_make::<9>,
        10 => pad_make::<10>,
        11 => pad_make::<11>,
        12 => pad_make::<12>,
        13 | 14 => pad_make::<13>,
        15 => pad_make::<15>,
        16 => pad_make::<16>,
        17 => pad_make::<17>,
        _ => pad_make::<18>,
    };
    Part { n: pad_count(prop), f }
}

pub fn pad_any(prop: u32, k: u64) -> Vec<u8> {
    (with_padding(prop).f)(k)
}

fn own(prop: u32) -> Vec<Part> {
    match prop {
        3 => vec![Part { n: 65536 / 16, f: flags_class }, Part { n: 16 * 2 * 3, f: flags_member }, Part { n: 66, f: versions }],
        4 | 5 => vec![
            Part { n: 21 * MAJORS.len() as u64, f: tag_version },
            Part { n: 11 * 18 * 6 * 4, f: handle_kinds },
            Part { n: 40 * 14 * 3, f: pool_ref },
            Part { n: 40 * 28 * 2, f: site_ref },
            Part { n: 3 * 3 * 60, f: nat_desc },
            Part { n: 60, f: class_const },
            Part { n: 400, f: module_const },
        ],
        6 => vec![Part { n: 257, f: utf_two }, Part { n: 256, f: utf_three }, Part { n: 64 * 6, f: numbers }],
        9 => vec![Part { n: 256 * 2, f: frame_tag }, Part { n: 256 * 2, f: verif_tag }, Part { n: 600, f: local_rows }],
        10 => vec![
            Part { n: 256 * 5, f: element_tag },
            Part { n: 13 * 40, f: element_const },
            Part { n: 256 * 5, f: target_type },
            Part { n: 256 * 2, f: path_kind },
            Part { n: 200, f: element_str },
        ],
        11 => vec![Part { n: 16 * 4, f: flag_words }, Part { n: 40, f: constant_value }, Part { n: 40, f: boot_arg }, Part { n: 3 * 40 * 9, f: optional_refs }],
        12 => vec![Part { n: 17 * 6 * 3, f: module_flags }, Part { n: 16 * 16, f: module_class }],
        13 | 14 => vec![
            Part { n: 256 * 4 * OPERANDS, f: one_insn },
            Part { n: 256 * 3 * 4, f: wide_insn },
            Part { n: 21 * 4 * 16, f: one_jump },
            Part { n: 4 * 400, f: one_switch },
        ],
        15 => vec![Part { n: CODE_PLACES, f: code_places }],
        16 => vec![
            Part { n: pow(9, 1) + pow(9, 2) + pow(9, 3) + pow(9, 4), f: field_descs },
            Part { n: pow(10, 1) + pow(10, 2) + pow(10, 3) + pow(10, 4), f: method_descs },
            Part { n: 6 * 256, f: dims },
        ],
        17 => vec![Part { n: NAME_SITES as u64 * (pow(11, 1) + pow(11, 2) + pow(11, 3) + 24), f: names }],
        18 => vec![Part { n: 4 * 4 * 4 * 4 * 2, f: pairs }, Part { n: (3 * INIT_DESCS * 8 * 3) as u64, f: inits }, Part { n: 2 * 8 * 6, f: boot_index }, Part { n: twins::COUNT, f: twins::class }],
        _ => vec![],
    }
}

pub fn count(prop: u32) -> u64 {
    parts(prop).iter().map(|p| p.n).sum()
}

pub fn make(prop: u32, mut k: u64) -> Vec<u8> {
    for p in parts(prop) {
        if k < p.n {
            return (p.f)(k);
        }
        k -= p.n;
    }
    vec![]
}

// ---- C15

const CODE_PLACES: u64 = 3 * 63 * 8 * 3 * 4;

/// Code in every place where attributes may stand: on the class, a field or a method, inside any
/// nesting of records and other code.
fn code_places(mut k: u64) -> Vec<u8> {
    let top = dig(&mut k, 3);
    // a path of up to five containers, as a binary number with a leading one
    let path = dig(&mut k, 63) + 1;
    let name = dig(&mut k, 8);
    let flaw = dig(&mut k, 3);
    let with = dig(&mut k, 4);
    let mut m = M::new(61);
    let long = "x".repeat(150);
    let (accents, far) = ("\u{e9}".repeat(80), "y".repeat(300));
    let name = [long.as_str(), "f", "main", accents.as_str(), far.as_str(), "a", "Code", "\u{1f600}"][name];
    let code: &[u8] = match flaw {
        0 => &[0x03, 0xac],
        1 => &[0x03, 0xcb],
        _ => &[0xa7, 0x00, 0x09, 0xb1],
    };
    let mut a = m.code(code, &[]);
    if with == 1 {
        // twice
        a = cat(&[&u2(2), &a, &a]);
    } else if with == 2 {
        let d = m.attr("Deprecated", &[]);
        a = cat(&[&u2(2), &d, &a]);
    } else if with == 3 {
        let d = m.attr("X", &[1, 2, 3]);
        a = cat(&[&u2(3), &d, &a, &d]);
    } else {
        a = cat(&[&u2(1), &a]);
    }
    // `a` is a list of attributes from here on
    let mut p = path;
    while p > 1 {
        a = if p & 1 == 0 {
            let (n, d) = (m.utf(name), m.utf("I"));
            m.attr("Record", &cat(&[&u2(1), &u2(n), &u2(d), &a]))
        } else {
            let c: [u8; 1] = [0xb1];
            m.attr("Code", &cat(&[&u2(1), &u2(1), &u4(1), &c, &u2(0), &a]))
        };
        a = cat(&[&u2(1), &a]);
        p >>= 1;
    }
    match top {
        0 => {
            // the attributes of the class are given one by one
            let mut at = 2;
            while at < a.len() {
                let l = u32::from_be_bytes([a[at + 2], a[at + 3], a[at + 4], a[at + 5]]) as usize;
                m.attrs.push(a[at..at + 6 + l].to_vec());
                at += 6 + l;
            }
        }
        t => {
            let (x, d) = (m.utf(name), m.utf(if t == 1 { "I" } else { "()V" }));
            let f = cat(&[&u2(1), &u2(x), &u2(d), &a]);
            if t == 1 {
                m.fields.push(f);
            } else {
                m.methods.push(f);
            }
        }
    }
    m.bytes()
}

// ---- C03

fn flags_class(k: u64) -> Vec<u8> {
    let mut m = M::new(61);
    m.flags = (k * 16 + (k * 7) % 16) as u16;
    m.bytes()
}
fn flags_member(mut k: u64) -> Vec<u8> {
    let bit = dig(&mut k, 16);
    let method = dig(&mut k, 2) == 1;
    let mode = dig(&mut k, 3);
    let f = match mode {
        0 => 1u16 << bit,
        1 => !(1u16 << bit),
        _ => (0xffffu32 << bit) as u16,
    };
    let mut m = M::new(52);
    for i in 0..3u16 {
        let fl = f.rotate_left(u32::from(i));
        if method {
            let x = m.memb(fl, &format!("m{}", i), "()V", &[]);
            m.methods.push(x);
        } else {
            let x = m.memb(fl, &format!("f{}", i), "I", &[]);
            m.fields.push(x);
        }
    }
    m.bytes()
}
fn versions(k: u64) -> Vec<u8> {
    let mut m = M::new(45);
    m.major = match k {
        0..=59 => 40 + k as u16,
        60 => 0,
        61 => 1,
        62 => 255,
        63 => 256,
        64 => 0x8000,
        _ => 0xffff,
    };
    m.minor = (k as u16).wrapping_mul(0x3331);
    m.bytes()
}

// ---- C04, C05

fn tag_version(mut k: u64) -> Vec<u8> {
    let tag = dig(&mut k, 21) as u8;
    let mut m = M::new(MAJORS[dig(&mut k, MAJORS.len())]);
    let name = m.utf("x");
    let c = m.class("Q");
    let nf = m.nat("f", "I");
    let nm = m.nat("f", "()V");
    let me = m.r2(10, c, nm);
    let d = m.utf("(I)I");
    match tag {
        1 => m.utf("free"),
        3 | 4 => m.entry(tag, &[1, 2, 3, 4]),
        5 | 6 => m.entry(tag, &[1, 2, 3, 4, 5, 6, 7, 8]),
        7 | 8 | 19 | 20 => m.r1(tag, name),
        9 => m.r2(9, c, nf),
        10 | 11 => m.r2(tag, c, nm),
        12 => m.r2(12, name, d),
        15 => m.handle(5, me),
        16 => m.r1(16, d),
        17 => m.r2(17, 0, nf),
        18 => m.r2(18, 0, nm),
        t => m.entry(t, &[0, 1]),
    };
    if tag == 17 || tag == 18 {
        m.bootstrap(1);
    }
    if tag == 19 || tag == 20 {
        module_only(&mut m);
    }
    m.bytes()
}

fn module_only(m: &mut M) {
    m.flags = 0x8000;
    m.sup = 0;
}

fn handle_kinds(mut k: u64) -> Vec<u8> {
    let kind = dig(&mut k, 11) as u8;
    let what = dig(&mut k, 18);
    let major = [51u16, 52, 53, 55, 61, 65][dig(&mut k, 6)];
    let name = ["f", "<init>", "<clinit>", "f"][dig(&mut k, 4)];
    let mut m = M::new(major);
    let target = match what {
        0 => m.member(9, "Q", name, "I"),
        1 => m.member(10, "Q", name, "()V"),
        2 => m.member(11, "Q", name, "()V"),
        3 => m.utf(name),
        4 => m.class("Q"),
        5 => m.nat(name, "()V"),
        6 => m.entry(3, &u4(7)),
        7 => m.entry(5, &[0; 8]),
        8 => m.entry(6, &[0; 8]) + 1,
        9 => {
            let u = m.utf(name);
            m.r1(8, u)
        }
        10 => {
            let u = m.utf("()V");
            m.r1(16, u)
        }
        11 => m.count,     // itself
        12 => m.count + 1, // out of range
        13 => 0,
        14 => {
            let x = m.member(9, "Q", "g", "I");
            m.handle(1, x)
        }
        15 => m.member(10, "[Q", name, "()V"),
        16 => m.member(11, "[La/B;", "clone", "()Ljava/lang/Object;"),
        _ => m.entry(4, &u4(7)),
    };
    m.handle(kind, target);
    m.bytes()
}

/// A reference between entries of the pool: each referring site against each possible value.
fn pool_ref(mut k: u64) -> Vec<u8> {
    let v = dig(&mut k, 40);
    let site = dig(&mut k, 14);
    let major = [52u16, 55, 65][dig(&mut k, 3)];
    let kit = kit(major);
    let (mut m, all) = (kit.m, kit.all);
    let c = m.class("Q");
    let n = m.utf("n");
    let d = m.utf("I");
    let md = m.utf("()V");
    let nf = m.nat("f", "I");
    let nm = m.nat("g", "()V");
    let me = m.count;
    let x = match v {
        0 => 0,
        1 => me,
        2 => me + 1,
        3 => 0xffff,
        4 => kit.dead,
        _ => all[(v - 5) % all.len()],
    };
    match site {
        0 => m.r1(7, x),
        1 => m.r1(8, x),
        2 => m.r2(9, x, nf),
        3 => m.r2(9, c, x),
        4 => m.r2(10, x, nm),
        5 => m.r2(10, c, x),
        6 => m.r2(11, x, nm),
        7 => m.r2(11, c, x),
        8 => m.r2(12, x, d),
        9 => m.r2(12, n, x),
        10 => m.r1(16, x),
        11 if major >= 55 => m.r2(17, 0, x),
        12 => m.r2(18, 0, x),
        _ => {
            module_only(&mut m);
            let t = if v % 2 == 0 { 19 } else { 20 };
            m.r1(t, x)
        }
    };
    let _ = md;
    m.bytes()
}

/// A reference from the body: each site against each kind of entry.
fn site_ref(mut k: u64) -> Vec<u8> {
    let v = dig(&mut k, 40);
    let site = dig(&mut k, 28);
    let major = [61u16, 65][dig(&mut k, 2)];
    let kit = kit(major);
    let (mut m, all) = (kit.m, kit.all);
    let c = m.class("Q");
    let n = m.utf("n");
    let d = m.utf("I");
    let ad = m.utf("La/A;");
    let h = {
        let me = m.member(10, "B", "b2", "()V");
        m.handle(6, me)
    };
    let code_name = m.utf("Code");
    let names: Vec<u16> = [
        "ConstantValue", "Exceptions", "InnerClasses", "EnclosingMethod", "Signature", "SourceFile", "LocalVariableTable",
        "LocalVariableTypeTable", "NestHost", "NestMembers", "PermittedSubclasses", "Record", "MethodParameters",
        "StackMapTable", "RuntimeVisibleAnnotations", "AnnotationDefault", "SourceFile", "LineNumberTable",
    ]
    .iter()
    .map(|s| m.utf(s))
    .collect();
    let end = m.count;
    let x = match v {
        0 => 0,
        1 => end,
        2 => end.wrapping_add(1),
        3 => 0xffff,
        4 => kit.dead,
        _ => all[(v - 5) % all.len()],
    };
    let field = |m: &mut M, attrs: &[Vec<u8>]| {
        let f = memb_i(0x18, n, d, attrs);
        m.fields.push(f)
    };
    let method = |m: &mut M, attrs: &[Vec<u8>]| {
        let md = m.utf("()V");
        let f = memb_i(1, n, md, attrs);
        m.methods.push(f)
    };
    let in_code = |m: &mut M, attrs: &[Vec<u8>]| {
        let md = m.utf("()V");
        let a = attr_i(code_name, &code_body(1, 1, &[0xb1], &[], attrs));
        let f = memb_i(1, n, md, &[a]);
        m.methods.push(f)
    };
    // entries added by `method` come after `end`, so 1 and 2 are out of range only where none are added;
    // the reference reader decides.
    match site {
        0 => m.this = x,
        1 => m.sup = x,
        2 => m.ifs = vec![c, x, c],
        3 => m.fields.push(memb_i(0, x, d, &[])),
        4 => m.fields.push(memb_i(0, n, x, &[])),
        5 => m.methods.push(memb_i(0x400, x, all[2], &[])),
        6 => m.methods.push(memb_i(0x400, n, x, &[])),
        7 => m.attrs.push(attr_i(x, &[1, 2])),
        8 => field(&mut m, &[attr_i(names[0], &u2(x))]),
        9 => method(&mut m, &[attr_i(names[1], &cat(&[&u2(2), &u2(c), &u2(x)]))]),
        10 => m.attrs.push(attr_i(names[2], &cat(&[&u2(1), &u2(x), &u2(c), &u2(n), &u2(1)]))),
        11 => m.attrs.push(attr_i(names[2], &cat(&[&u2(1), &u2(c), &u2(x), &u2(n), &u2(1)]))),
        12 => m.attrs.push(attr_i(names[2], &cat(&[&u2(1), &u2(c), &u2(c), &u2(x), &u2(1)]))),
        13 => m.attrs.push(attr_i(names[3], &cat(&[&u2(x), &u2(0)]))),
        14 => m.attrs.push(attr_i(names[3], &cat(&[&u2(c), &u2(x)]))),
        15 => m.attrs.push(attr_i(names[4], &u2(x))),
        16 => m.attrs.push(attr_i(names[5], &u2(x))),
        17 => in_code(&mut m, &[attr_i(names[6], &cat(&[&u2(1), &u2(0), &u2(1), &u2(x), &u2(d), &u2(0)]))]),
        18 => in_code(&mut m, &[attr_i(names[6], &cat(&[&u2(1), &u2(0), &u2(1), &u2(n), &u2(x), &u2(0)]))]),
        19 => in_code(&mut m, &[attr_i(names[7], &cat(&[&u2(1), &u2(0), &u2(1), &u2(n), &u2(x), &u2(0)]))]),
        20 => m.attrs.push(attr_i(names[8], &u2(x))),
        21 => m.attrs.push(attr_i(names[9], &cat(&[&u2(2), &u2(c), &u2(x)]))),
        22 => m.attrs.push(attr_i(names[10], &cat(&[&u2(2), &u2(x), &u2(c)]))),
        23 => m.attrs.push(attr_i(names[11], &cat(&[&u2(1), &u2(n), &u2(x), &u2(0)]))),
        24 => method(&mut m, &[attr_i(names[12], &cat(&[&[2], &u2(n), &u2(0), &u2(x), &u2(0)]))]),
        25 => in_code(&mut m, &[attr_i(names[13], &cat(&[&u2(1), &[64, 7], &u2(x)]))]),
        26 => m.attrs.push(attr_i(names[14], &cat(&[&u2(1), &u2(ad), &u2(1), &u2(x), b"s", &u2(n)]))),
        _ => {
            let md = m.utf("()V");
            let b = code_body(1, 1, &[0, 0xb1], &[[0, 1, 1, x]], &[]);
            let a = attr_i(code_name, &b);
            let f = memb_i(1, n, md, &[a]);
            m.methods.push(f)
        }
    }
    let _ = h;
    m.bytes()
}

const DESCS: &[&str] = &[
    "I", "()V", "[I", "V", "", "(", ")", "()", "L;", "La;", "(La;)V", "()La;", "()[", "()[V", "[", "[V", "II", "()VV", "(V)V", "a",
    "(I", "()I", "Lab/c;", "La//c;", "La.b;", "()VI", "(I)J", " I", "I ", "(II)[[J",
];

fn nat_desc(mut k: u64) -> Vec<u8> {
    let tag = [9u8, 10, 11][dig(&mut k, 3)];
    let name = ["f", "<init>", "<clinit>"][dig(&mut k, 3)];
    let which = dig(&mut k, 60);
    let mut m = M::new(61);
    if which < 30 {
        m.member(tag, "Q", name, DESCS[which]);
    } else {
        let d = DESCS[which - 30];
        let x = m.nat(name, d);
        m.r2(if tag == 9 { 17 } else { 18 }, 0, x);
        m.bootstrap(1);
        if tag == 11 {
            let u = m.utf(d);
            m.r1(16, u);
        }
    }
    m.bytes()
}

const CLASSES: &[&str] = &[
    "a", "a/b", "", "/", "a/", "/a", "a//b", "a.b", "a;b", "a[b", "[", "[I", "[[I", "[V", "[La;", "[a", "[La", "[I;", "[II", "[L;",
    "[La;b", "La;", "I", "V", "[[[[Lx/y/z;", "[La//b;", "<", "a<b>", "<init>", "(I)V", "\u{e9}", "\u{1F600}", "a\0b", "[L\u{e9};", "[L\0;", " ",
    "[[[", "[Z", "[B", "[C", "[D", "[F", "[J", "[S", "[E", "[()V", "[[La/b;c", "a\u{10FFFF}/b", "-", "module-info", "\u{7f}", "]", "a]", "[La;;", ";", ".", "a/.", "a/;", "a/[", "[[I["
];

fn class_const(k: u64) -> Vec<u8> {
    let mut m = M::new(52);
    m.class(CLASSES[k as usize % CLASSES.len()]);
    m.bytes()
}

const MODS: &[&str] = &[
    "a", "a.b", "java.base", "a:b", "a@b", "a\\b", "a\\:b", "a\\@b", "a\\\\b", "\\", "a\\", "\u{0}", "a\u{1f}", "a\u{20}b", "\u{1}", "a/b", "\\\\\\", "\\\\",
    "\u{e9}", "\u{1F600}", "a\nb", "a\u{7f}b", "@", ":", "\\:", "\\@", "\\\\:", "\\x", "a;b", "a[b",
];

fn module_const(mut k: u64) -> Vec<u8> {
    let tag = if dig(&mut k, 2) == 0 { 19 } else { 20 };
    let major = [53u16, 65][dig(&mut k, 2)];
    let w = dig(&mut k, 100);
    let mut m = M::new(major);
    module_only(&mut m);
    let s = if tag == 19 { MODS[w % MODS.len()] } else { CLASSES[w % CLASSES.len()] };
    let u = m.utf(s);
    m.r1(tag, u);
    m.bytes()
}

// ---- C06

/// All two-byte texts with a given first byte (and all one-byte ones), as string constants.
fn utf_two(k: u64) -> Vec<u8> {
    let mut m = M::new(52);
    for b in 0..=255u8 {
        let u = if k < 256 { m.utf_b(&[k as u8, b]) } else { m.utf_b(&[b]) };
        m.r1(8, u);
    }
    m.bytes()
}
fn utf_three(k: u64) -> Vec<u8> {
    let mut m = M::new(52);
    const B: &[u8] = &[0x00, 0x01, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xc3, 0xed, 0xff];
    for x in B {
        for y in B {
            let u = m.utf_b(&[k as u8, *x, *y]);
            m.r1(8, u);
            if k == 0xed && *y >= 0x80 && *y < 0xc0 {
                for z in [0x9f, 0xa0, 0xaf, 0xb0, 0xbf] {
                    let u = m.utf_b(&[0xed, *x, *y, 0xed, z, 0x80]);
                    m.r1(8, u);
                }
            }
        }
    }
    m.bytes()
}
fn numbers(mut k: u64) -> Vec<u8> {
    let bit = dig(&mut k, 64);
    let mode = dig(&mut k, 6);
    let v: u64 = match mode {
        0 => 1 << bit,
        1 => !(1 << bit),
        2 => u64::MAX << bit,
        3 => u64::MAX >> bit,
        4 => 0x7ff0_0000_0000_0000 | (1 << (bit % 52)),
        _ => 0xfff0_0000_7f80_0000 | (1 << (bit % 23)),
    };
    let mut m = M::new(52);
    let i = m.entry(3, &(v as u32).to_be_bytes());
    let f = m.entry(4, &((v >> 8) as u32).to_be_bytes());
    let l = m.entry(5, &v.to_be_bytes());
    let d = m.entry(6, &v.rotate_left(3).to_be_bytes());
    let f2 = m.entry(4, &(v as u32).to_be_bytes());
    for (n, d, x) in [("a", "I", i), ("b", "F", f), ("c", "J", l), ("d", "D", d), ("e", "F", f2)] {
        let a = m.attr("ConstantValue", &u2(x));
        let x = m.memb(0x18, n, d, &[a]);
        m.fields.push(x);
    }
    let mut b = u2(1).to_vec();
    let at = m.utf("La;");
    b.extend_from_slice(&u2(at));
    b.extend_from_slice(&u2(8));
    for (t, x) in [(b'I', i), (b'F', f), (b'J', l), (b'D', d), (b'B', i), (b'S', i), (b'C', i), (b'Z', i)] {
        let n = m.utf("v");
        b.extend_from_slice(&cat(&[&u2(n), &[t], &u2(x)]));
    }
    let a = m.attr("RuntimeVisibleAnnotations", &b);
    m.attrs.push(a);
    let c = cat(&[&[18, i as u8, 19], &u2(f), &[20], &u2(l), &[20], &u2(d), &[0xb1]]);
    let a = m.code(&c, &[]);
    let x = m.memb(1, "m", "()V", &[a]);
    m.methods.push(x);
    m.bytes()
}

// ---- C09

fn with_frames(m: &mut M, body: &[u8]) -> Vec<u8> {
    let a = m.attr("StackMapTable", body);
    let c = m.code(&[0, 0, 0, 0xb1], &[a]);
    let x = m.memb(1, "m", "()V", &[c]);
    m.methods.push(x);
    m.bytes()
}
fn frame_tag(mut k: u64) -> Vec<u8> {
    let tag = dig(&mut k, 256) as u8;
    let pre = dig(&mut k, 2);
    let mut m = M::new(52);
    let c = m.class("Q");
    let mut b = vec![];
    b.extend_from_slice(&u2(1 + pre as u16 * 2));
    if pre == 1 {
        b.push(3);
    }
    b.push(tag);
    match tag {
        0..=63 => {}
        64..=127 => b.push(1),
        247 => b.extend_from_slice(&cat(&[&u2(0xfffe), &[7], &u2(c)])),
        248..=251 => b.extend_from_slice(&u2(0x1234)),
        252..=254 => {
            b.extend_from_slice(&u2(513));
            for i in 0..tag - 251 {
                if i == 1 {
                    b.push(8);
                    b.extend_from_slice(&u2(0xabcd));
                } else {
                    b.push(i);
                }
            }
        }
        255 => b.extend_from_slice(&cat(&[&u2(7), &u2(2), &[1, 4], &u2(3), &[7], &u2(c), &[8], &u2(9), &[5]])),
        _ => b.extend_from_slice(&u2(1)),
    }
    if pre == 1 {
        b.push(70);
        b.push(2);
    }
    with_frames(&mut m, &b)
}
fn verif_tag(mut k: u64) -> Vec<u8> {
    let tag = dig(&mut k, 256) as u8;
    let site = dig(&mut k, 2);
    let mut m = M::new(52);
    let c = m.class("[Ljava/lang/String;");
    let mut b = u2(1).to_vec();
    if site == 0 {
        b.push(100);
        b.push(tag);
        if tag == 7 || tag == 8 {
            b.extend_from_slice(&u2(c));
        }
    } else {
        b.extend_from_slice(&cat(&[&[255], &u2(1), &u2(1), &[tag]]));
        if tag == 7 || tag == 8 {
            b.extend_from_slice(&u2(c));
        }
        b.extend_from_slice(&cat(&[&u2(1), &[tag]]));
        if tag == 7 || tag == 8 {
            b.extend_from_slice(&u2(c));
        }
    }
    with_frames(&mut m, &b)
}
fn local_rows(mut k: u64) -> Vec<u8> {
    let kind = dig(&mut k, 3);
    let rows = [0usize, 1, 2, 3, 100, 255, 256, 257, 1000, 65535][dig(&mut k, 10)];
    let name = ["v", "this", "a.b", "a;b", "a[b", "a/b", "<x>", "\u{e9}", "", "x$0", "a b", "\0", "<init>", "-", "\u{1F600}", "1", ")", "(", "I", "V"][dig(&mut k, 20)];
    let mut m = M::new(52);
    let n = m.utf(name);
    let d = m.utf("[La/B;");
    let mut b = u2(rows as u16).to_vec();
    for i in 0..rows {
        let i = i as u16;
        b.extend_from_slice(&u2(i));
        b.extend_from_slice(&u2(!i));
        if kind > 0 {
            b.extend_from_slice(&u2(n));
            b.extend_from_slice(&u2(d));
            b.extend_from_slice(&u2(i.wrapping_mul(257)));
        }
    }
    let a = m.attr(["LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable"][kind], &b);
    let c = m.code(&[0xb1], &[a]);
    let x = m.memb(1, "m", "()V", &[c]);
    m.methods.push(x);
    m.bytes()
}

// ---- C10

fn with_value(m: &mut M, site: usize, v: &[u8]) -> Vec<u8> {
    let t = m.utf("La/A;");
    let n = m.utf("e");
    let ann = cat(&[&u2(t), &u2(2), &u2(n), v, &u2(n), v]);
    match site {
        0 => {
            let a = m.attr("RuntimeVisibleAnnotations", &cat(&[&u2(1), &ann]));
            m.attrs.push(a);
        }
        1 => {
            let a = m.attr("AnnotationDefault", v);
            let x = m.memb(0x401, "d", "()I", &[a]);
            m.methods.push(x);
        }
        2 => {
            let a = m.attr("RuntimeInvisibleParameterAnnotations", &cat(&[&[2], &u2(0), &u2(1), &ann]));
            let x = m.memb(0x401, "d", "(II)I", &[a]);
            m.methods.push(x);
        }
        3 => {
            let a = m.attr("RuntimeInvisibleTypeAnnotations", &cat(&[&u2(1), &[0x13, 0], &ann]));
            let x = m.memb(1, "f", "I", &[a]);
            m.fields.push(x);
        }
        _ => {
            let arr = cat(&[b"[", &u2(2), v, v]);
            let inner = cat(&[b"@", &u2(t), &u2(1), &u2(n), &arr]);
            let a = m.attr("RuntimeInvisibleAnnotations", &cat(&[&u2(1), &u2(t), &u2(1), &u2(n), &inner]));
            m.attrs.push(a);
        }
    }
    m.bytes()
}
fn element_tag(mut k: u64) -> Vec<u8> {
    let tag = dig(&mut k, 256) as u8;
    let site = dig(&mut k, 5);
    let mut m = M::new(52);
    let i = m.entry(3, &u4(0xffff_ff80));
    let v: Vec<u8> = match tag {
        b'D' => {
            let x = m.entry(6, &1.5f64.to_bits().to_be_bytes());
            cat(&[&[tag], &u2(x)])
        }
        b'F' => {
            let x = m.entry(4, &1.5f32.to_bits().to_be_bytes());
            cat(&[&[tag], &u2(x)])
        }
        b'J' => {
            let x = m.entry(5, &(-2i64).to_be_bytes());
            cat(&[&[tag], &u2(x)])
        }
        b's' => {
            let x = m.utf("str");
            cat(&[&[tag], &u2(x)])
        }
        b'e' => {
            let x = m.utf("La/E;");
            let y = m.utf("K");
            cat(&[&[tag], &u2(x), &u2(y)])
        }
        b'c' => {
            let x = m.utf("[I");
            cat(&[&[tag], &u2(x)])
        }
        b'@' => {
            let x = m.utf("La/N;");
            cat(&[&[tag], &u2(x), &u2(0)])
        }
        b'[' => cat(&[&[tag], &u2(3), b"I", &u2(i), b"[", &u2(0), b"Z", &u2(i)]),
        _ => cat(&[&[tag], &u2(i)]),
    };
    with_value(&mut m, site, &v)
}
fn element_const(mut k: u64) -> Vec<u8> {
    let tag = b"BCDFIJSZsec@["[dig(&mut k, 13)];
    let v = dig(&mut k, 40);
    let kit = kit(55);
    let (mut m, all) = (kit.m, kit.all);
    let x = match v {
        0 => 0,
        1 => 0xffff,
        2 => kit.dead,
        _ => all[(v - 3) % all.len()],
    };
    let t = m.utf("La/E;");
    let n = m.utf("K");
    let b = match tag {
        b'e' if v % 2 == 0 => cat(&[&[tag], &u2(x), &u2(n)]),
        b'e' => cat(&[&[tag], &u2(t), &u2(x)]),
        b'@' if v % 2 == 0 => cat(&[&[tag], &u2(x), &u2(0)]),
        b'@' => cat(&[&[tag], &u2(t), &u2(1), &u2(x), b"s", &u2(n)]),
        b'[' => cat(&[&[tag], &u2(1), b"s", &u2(x)]),
        _ => cat(&[&[tag], &u2(x)]),
    };
    with_value(&mut m, v % 5, &b)
}
/// String and class elements with unusual texts.
fn element_str(mut k: u64) -> Vec<u8> {
    let tag = [b's', b'c', b'e', b'E', b'@'][dig(&mut k, 5)];
    let s: &[u8] = [
        &b""[..], b"V", b"I", b"[V", b"Lx;", b"x", b"[[Lx;", b"[Lx", b"()V", b"Lx;y", &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0x80],
        &[0xed, 0xa0, 0xbd, 0xed, 0xb8, 0x80], b"<T:Ljava/lang/Object;>TT;", b"TT;", b"VV", b"Lx<Ly;>;", &[0xc3, 0xa9], b"LV;",
    ][dig(&mut k, 20)];
    let site = dig(&mut k, 2) * 4;
    let mut m = M::new(52);
    let x = m.utf_b(s);
    let n = m.utf("La;");
    let v = match tag {
        b'e' => cat(&[b"e", &u2(x), &u2(n)]),
        b'E' => cat(&[b"e", &u2(n), &u2(x)]),
        b'@' => cat(&[b"@", &u2(x), &u2(0)]),
        t => cat(&[&[t], &u2(x)]),
    };
    with_value(&mut m, site, &v)
}
fn target_body(tag: u8) -> Vec<u8> {
    match tag {
        0x00 | 0x01 => vec![0xfe],
        0x10 => vec![0xff, 0xff],
        0x11 | 0x12 => vec![1, 0x80],
        0x16 => vec![200],
        0x17 => vec![0x80, 1],
        0x40 | 0x41 => cat(&[&u2(2), &u2(1), &u2(2), &u2(3), &u2(0xfffe), &u2(0x8000), &u2(0xff)]),
        0x42 => vec![1, 2],
        0x43..=0x46 => vec![0x12, 0x34],
        0x47..=0x4b => vec![0xab, 0xcd, 0xef],
        _ => vec![],
    }
}
fn target_type(mut k: u64) -> Vec<u8> {
    let tag = dig(&mut k, 256) as u8;
    let site = dig(&mut k, 5);
    let mut m = M::new(61);
    let t = m.utf("La/A;");
    let body = cat(&[&u2(1), &[tag], &target_body(tag), &[1, 3, 7], &u2(t), &u2(0)]);
    let a = m.attr(if k % 2 == 0 { "RuntimeVisibleTypeAnnotations" } else { "RuntimeInvisibleTypeAnnotations" }, &body);
    match site {
        0 => m.attrs.push(a),
        1 => {
            let x = m.memb(1, "f", "I", &[a]);
            m.fields.push(x)
        }
        2 => {
            let x = m.memb(0x401, "f", "(I)V", &[a]);
            m.methods.push(x)
        }
        3 => {
            let c = m.code(&[0xb1], &[a]);
            let x = m.memb(1, "f", "()V", &[c]);
            m.methods.push(x)
        }
        _ => {
            let n = m.utf("r");
            let d = m.utf("I");
            let b = cat(&[&u2(1), &memb_i(0, n, d, &[a])[2..]]);
            let r = m.attr("Record", &b);
            m.attrs.push(r);
        }
    }
    m.bytes()
}
fn path_kind(mut k: u64) -> Vec<u8> {
    let kind = dig(&mut k, 256) as u8;
    let mode = dig(&mut k, 2);
    let mut m = M::new(52);
    let t = m.utf("La/A;");
    let path: Vec<u8> = if mode == 0 { vec![1, kind, if kind == 3 { 255 } else { 0 }] } else { vec![4, 0, 0, 1, 0, kind, 5, 2, 0] };
    let body = cat(&[&u2(1), &[0x13], &path, &u2(t), &u2(0)]);
    let a = m.attr("RuntimeVisibleTypeAnnotations", &body);
    let x = m.memb(1, "f", "I", &[a]);
    m.fields.push(x);
    m.bytes()
}

// ---- C11

fn flag_words(mut k: u64) -> Vec<u8> {
    let bit = dig(&mut k, 16);
    let site = dig(&mut k, 4);
    let mut m = M::new(52);
    let c = m.class("Q");
    let n = m.utf("n");
    let f = if site % 2 == 0 { 1u16 << bit } else { 0x9010 | (1 << bit) };
    if site < 2 {
        let a = m.attr("MethodParameters", &cat(&[&[2], &u2(n), &u2(f), &u2(0), &u2(0x10)]));
        let x = m.memb(0x401, "m", "(II)V", &[a]);
        m.methods.push(x);
    } else {
        let f = if site == 2 { f } else { !(1 << bit) };
        let a = m.attr("InnerClasses", &cat(&[&u2(1), &u2(c), &u2(0), &u2(n), &u2(f)]));
        m.attrs.push(a);
    }
    m.bytes()
}
fn constant_value(k: u64) -> Vec<u8> {
    let kit = kit(55);
    let (mut m, all) = (kit.m, kit.all);
    for (n, d) in [("a", "I"), ("b", "J"), ("c", "F"), ("d", "D"), ("e", "Ljava/lang/String;")] {
        let a = m.attr("ConstantValue", &u2(all[k as usize % all.len()]));
        let x = m.memb(0x18, n, d, &[a]);
        if k as usize % 5 == m.fields.len() || k >= 30 {
            m.fields = vec![x];
        }
    }
    m.bytes()
}
fn boot_arg(k: u64) -> Vec<u8> {
    let kit = kit(55);
    let (mut m, all) = (kit.m, kit.all);
    let me = m.member(10, "B", "b", "()V");
    let h = m.handle(6, me);
    let i = m.entry(3, &u4(9));
    let n = m.utf("BootstrapMethods");
    let x = all[k as usize % all.len()];
    m.attrs = vec![attr_i(n, &cat(&[&u2(2), &u2(h), &u2(0), &u2(h), &u2(3), &u2(i), &u2(x), &u2(h)]))];
    m.bytes()
}
/// Optional references: present, zero, of the wrong kind.
fn optional_refs(mut k: u64) -> Vec<u8> {
    let mode = dig(&mut k, 3);
    let v = dig(&mut k, 40);
    let site = dig(&mut k, 9);
    let kit = kit(61);
    let (mut m, all) = (kit.m, kit.all);
    let c = m.class("Q");
    let n = m.utf("n");
    let x = match mode {
        0 => 0,
        1 => c,
        _ => all[v % all.len()],
    };
    match site {
        0 => {
            let a = m.attr("InnerClasses", &cat(&[&u2(2), &u2(c), &u2(x), &u2(n), &u2(1), &u2(c), &u2(x), &u2(0), &u2(8)]));
            m.attrs.push(a)
        }
        1 => {
            let x = if mode == 1 { n } else { x };
            let a = m.attr("InnerClasses", &cat(&[&u2(1), &u2(c), &u2(c), &u2(x), &u2(1)]));
            m.attrs.push(a)
        }
        2 => {
            let x = if mode == 1 { m.nat("m", "()V") } else { x };
            let a = m.attr("EnclosingMethod", &cat(&[&u2(c), &u2(x)]));
            m.attrs.push(a)
        }
        3 => {
            let x = if mode == 1 { n } else { x };
            let a = m.attr("MethodParameters", &cat(&[&[3], &u2(x), &u2(0x10), &u2(n), &u2(0), &u2(x), &u2(0x8000)]));
            let x = m.memb(0x401, "m", "(III)V", &[a]);
            m.methods.push(x)
        }
        4 => m.sup = x,
        5 => {
            let b = code_body(1, 1, &[0, 0, 0xb1], &[[0, 1, 2, x], [1, 2, 2, c], [0, 2, 2, 0]], &[]);
            let a = m.attr("Code", &b);
            let x = m.memb(1, "m", "()V", &[a]);
            m.methods.push(x)
        }
        6 => {
            let a = m.attr("NestHost", &u2(x));
            m.attrs.push(a)
        }
        7 => {
            let a = m.attr("PermittedSubclasses", &cat(&[&u2(1), &u2(x)]));
            m.attrs.push(a)
        }
        _ => {
            let a = m.attr("Exceptions", &cat(&[&u2(1), &u2(x)]));
            let x = m.memb(0x401, "m", "()V", &[a]);
            m.methods.push(x)
        }
    }
    m.bytes()
}

// ---- C12

fn module_attr(m: &mut M, fl: [u16; 4], vers: [bool; 2]) {
    let n = m.utf("my.mod");
    let n = m.r1(19, n);
    let b = m.utf("java.base");
    let b = m.r1(19, b);
    let v = m.utf("1.2");
    let p = m.utf("a/b");
    let p = m.r1(20, p);
    let c = m.class("a/b/C");
    let d = m.class("a/b/D");
    let body = cat(&[
        &u2(n),
        &u2(fl[0]),
        &u2(if vers[0] { v } else { 0 }),
        &u2(1),
        &u2(b),
        &u2(fl[1]),
        &u2(if vers[1] { v } else { 0 }),
        &u2(2),
        &u2(p),
        &u2(fl[2]),
        &u2(0),
        &u2(p),
        &u2(fl[2]),
        &u2(2),
        &u2(b),
        &u2(n),
        &u2(1),
        &u2(p),
        &u2(fl[3]),
        &u2(1),
        &u2(b),
        &u2(2),
        &u2(c),
        &u2(d),
        &u2(1),
        &u2(c),
        &u2(2),
        &u2(d),
        &u2(c),
    ]);
    let a = m.attr("Module", &body);
    m.attrs.push(a);
}
fn module_flags(mut k: u64) -> Vec<u8> {
    let bit = dig(&mut k, 17);
    let site = dig(&mut k, 6);
    let ver = dig(&mut k, 3);
    let mut m = M::new([53u16, 55, 65][ver]);
    m.flags = 0x8000;
    m.sup = 0;
    let f = if bit == 16 { 0 } else { 1u16 << bit };
    let mut fl = [0u16; 4];
    match site {
        0..=3 => fl[site] = f,
        4 => m.flags = f | 0x8000,
        _ => m.flags = f,
    }
    module_attr(&mut m, fl, [ver != 1, bit % 2 == 0]);
    m.bytes()
}
fn module_class(mut k: u64) -> Vec<u8> {
    let set = dig(&mut k, 16);
    let mut m = M::new([52u16, 53, 61, 65][dig(&mut k, 4)]);
    m.flags = 0x8000;
    m.flags |= [0u16, 0x0002, 0x0100, 0x0840][dig(&mut k, 4)];
    if set & 1 == 0 {
        m.sup = 0;
    }
    if set & 2 != 0 {
        m.ifs = vec![m.this];
    }
    if set & 4 != 0 {
        let x = m.memb(0, "f", "I", &[]);
        m.fields.push(x);
    }
    if set & 8 != 0 {
        let x = m.memb(0x400, "f", "()V", &[]);
        m.methods.push(x);
    }
    m.bytes()
}

// ---- C13, C14

const OPERANDS: u64 = 40;

fn with_code(m: &mut M, code: &[u8]) -> Vec<u8> {
    let c = m.code(code, &[]);
    let x = m.memb(1, "m", "()V", &[c]);
    m.methods.push(x);
    m.bytes()
}
fn one_insn(mut k: u64) -> Vec<u8> {
    let op = dig(&mut k, 256) as u8;
    let at = dig(&mut k, 4);
    let v = dig(&mut k, OPERANDS as usize);
    let kit = kit(55);
    let (mut m, all) = (kit.m, kit.all);
    let mut code = vec![0u8; at];
    code.push(op);
    let idx = all.get(v).copied();
    let pat: &[u8] = match v {
        33 => &[1, 4, 0, 0, 0],
        34 => &[0x7f, 0xff, 0xff, 0xff],
        35 => &[0x80, 0x00, 0x00, 0x00],
        36 => &[0xff, 0xff, 0xff, 0xff],
        37 => &[],
        38 => &[0],
        _ => &[0, 3, 0, 0],
    };
    // the length of the operands, by opcode
    let n = match op {
        16 | 18 | 21..=25 | 54..=58 | 169 | 188 => 1,
        17 | 19 | 20 | 132 | 153..=168 | 178..=184 | 187 | 189 | 192 | 193 | 198 | 199 => 2,
        197 => 3,
        185 | 186 | 200 | 201 => 4,
        _ => 0,
    };
    let mut o: Vec<u8> = match idx {
        Some(i) => match op {
            18 => vec![i as u8],
            185 => vec![0, 0, 1, 0],
            186 => vec![0, 0, 0, 0],
            197 => vec![0, 0, 2],
            _ if n >= 2 => vec![0; n],
            _ => vec![i as u8; n],
        },
        None => {
            let mut p = pat.to_vec();
            if v != 37 && v != 38 {
                p.resize(n, 0);
            }
            p
        }
    };
    if let Some(i) = idx {
        if o.len() >= 2 {
            o[..2].copy_from_slice(&u2(i));
        }
    }
    code.extend_from_slice(&o);
    if v != 37 && v != 38 {
        code.extend_from_slice(&[0, 0, 0xb1]);
    }
    with_code(&mut m, &code)
}
fn wide_insn(mut k: u64) -> Vec<u8> {
    let op = dig(&mut k, 256) as u8;
    let v = dig(&mut k, 3);
    let cut = dig(&mut k, 4);
    let mut m = M::new(50);
    let mut code = vec![196, op];
    code.extend_from_slice(&[[0u8, 1], [0x80, 0xff], [0xff, 0xff]][v]);
    if op == 132 {
        code.extend_from_slice(&[[0u8, 1], [0xff, 0x7f], [0x80, 0x00]][v]);
    }
    if cut == 0 {
        code.push(0xb1);
    } else {
        code.truncate(code.len() + 1 - cut);
    }
    with_code(&mut m, &code)
}
/// Every branching form, in code with instructions of several lengths, to every nearby target.
fn one_jump(mut k: u64) -> Vec<u8> {
    let f = dig(&mut k, 21);
    let before = dig(&mut k, 4);
    let t = dig(&mut k, 16) as i32 - 5;
    let op = [
        153u8, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 198, 199, 200, 201, 167,
    ][f];
    let mut m = M::new(48);
    let mut code: Vec<u8> = [&[][..], &[0], &[17, 1, 2], &[16, 5, 0]][before].to_vec();
    let at = code.len() as i32;
    code.push(op);
    // targets run from before the start to past the end of this code
    let j = t - at;
    if op >= 200 {
        code.extend_from_slice(&j.to_be_bytes());
    } else {
        code.extend_from_slice(&(j as i16).to_be_bytes());
    }
    code.extend_from_slice(&[17, 0, 9, 0xb1]);
    with_code(&mut m, &code)
}
fn one_switch(mut k: u64) -> Vec<u8> {
    let before = dig(&mut k, 4);
    let form = dig(&mut k, 20);
    let which = dig(&mut k, 4);
    let shift = [-1i32, 0, 1, 0x7fff_fff0, i32::MIN][dig(&mut k, 5)];
    let mut m = M::new(52);
    let mut code = vec![0u8; before];
    let table = form % 2 == 0;
    code.push(if table { 170 } else { 171 });
    while code.len() % 4 != 0 {
        code.push(if which == 3 { 0x5a } else { 0 });
    }
    let rows: i32 = [0, 1, 2, 3, 5, -1, -2, i32::MIN, i32::MAX, 1 << 20][form / 2];
    let real = if (0..16).contains(&rows) { rows } else { 0 };
    let body_len = if table { 12 + 4 * real } else { 8 + 8 * real };
    let end = code.len() as i32 + body_len - before as i32;
    let tgt = |i: i32| if which as i32 == i { end.wrapping_add(shift) } else { end };
    let mut b = tgt(0).to_be_bytes().to_vec();
    if table {
        let low = [0i32, -3, i32::MIN, 100][before];
        b.extend_from_slice(&low.to_be_bytes());
        b.extend_from_slice(&low.wrapping_add(rows).wrapping_sub(1).to_be_bytes());
        for i in 0..real {
            b.extend_from_slice(&tgt(i + 1).to_be_bytes());
        }
    } else {
        b.extend_from_slice(&rows.to_be_bytes());
        for i in 0..real {
            b.extend_from_slice(&(i * 10 - 7).to_be_bytes());
            b.extend_from_slice(&tgt(i + 1).to_be_bytes());
        }
    }
    code.extend_from_slice(&b);
    code.extend_from_slice(&[0, 0xb1]);
    with_code(&mut m, &code)
}

// ---- C16, C17, C18

fn text_of(mut k: u64, alphabet: &[&str]) -> String {
    let n = alphabet.len() as u64;
    let mut len = 1;
    let mut block = n;
    while k >= block {
        k -= block;
        len += 1;
        block *= n;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alphabet[(k % n) as usize]);
        k /= n;
    }
    s
}
fn field_descs(k: u64) -> Vec<u8> {
    let s = text_of(k, &["I", "L", ";", "[", "a", "/", "V", "\u{e9}", "("]);
    let mut m = M::new(61);
    place_desc(&mut m, k, &s);
    m.bytes()
}
fn place_desc(m: &mut M, k: u64, s: &str) {
    match k % 6 {
        0 => {
            let x = m.memb(0, "f", s, &[]);
            m.fields.push(x);
        }
        1 => {
            let n = m.utf("n");
            let d = m.utf(s);
            let a = m.attr("LocalVariableTable", &cat(&[&u2(1), &u2(0), &u2(1), &u2(n), &u2(d), &u2(0)]));
            let c = m.code(&[0xb1], &[a]);
            let x = m.memb(0, "f", "()V", &[c]);
            m.methods.push(x);
        }
        2 => {
            let n = m.utf("n");
            let d = m.utf(s);
            let a = m.attr("Record", &cat(&[&u2(1), &u2(n), &u2(d), &u2(0)]));
            m.attrs.push(a);
        }
        3 => {
            let d = m.utf(s);
            let a = m.attr("RuntimeVisibleAnnotations", &cat(&[&u2(1), &u2(d), &u2(0)]));
            m.attrs.push(a);
        }
        4 => {
            let x = m.memb(0x400, "f", &format!("({}){}", s, s), &[]);
            m.methods.push(x);
        }
        _ => {
            let c = m.class(&format!("[{}", s));
            let code = cat(&[&[189], &u2(c), &[192], &u2(c), &[0xb1]]);
            let c = m.code(&code, &[]);
            let x = m.memb(0, "f", "()V", &[c]);
            m.methods.push(x);
        }
    }
}
fn method_descs(k: u64) -> Vec<u8> {
    let s = text_of(k, &["(", ")", "V", "I", "[", "L", "a", ";", "La;", "()"]);
    let mut m = M::new(52);
    let x = match k % 3 {
        0 => m.memb(0x400, "f", &s, &[]),
        1 => m.memb(0x400, "f", &format!("({}", s), &[]),
        _ => m.memb(0x400, "f", &format!("(I{}", s), &[]),
    };
    m.methods.push(x);
    m.bytes()
}
fn dims(mut k: u64) -> Vec<u8> {
    let site = dig(&mut k, 6) as u64;
    let d = 2 + dig(&mut k, 256);
    let s = format!("{}{}", "[".repeat(d), if d % 3 == 0 { "La/b;" } else { "J" });
    let mut m = M::new(61);
    place_desc(&mut m, site, &s);
    m.bytes()
}

const NAME_SITES: usize = 9;
const NAMES: &[&str] = &[
    "<init>", "<clinit>", "<init", "init>", "<init>x", "x<init>", "<clinit>>", "<", ">", "<>", "a<b", "a>b", "<Init>", "<INIT>",
    "<clinit", "", "a/b/c", "a/<init>", "\0", "\u{1F600}", "a\u{10FFFF}.b", "\u{ff0e}", "a\u{2F}", "<<init>>",
];
fn names(mut k: u64) -> Vec<u8> {
    let site = dig(&mut k, NAME_SITES);
    let s = if k < NAMES.len() as u64 {
        NAMES[k as usize].to_string()
    } else {
        text_of(k - NAMES.len() as u64, &["a", ".", ";", "[", "/", "<", ">", "(", "\u{e9}", "\0", " "])
    };
    let mut m = M::empty(61);
    let other = m.class("T");
    let sup = m.class("S");
    m.this = other;
    m.sup = sup;
    match site {
        0 => m.this = m.class(&s),
        1 => m.sup = m.class(&s),
        2 => {
            let i = m.class(&s);
            m.ifs = vec![other, i];
        }
        3 => {
            let x = m.memb(0, &s, "I", &[]);
            m.fields.push(x);
        }
        4 | 5 => {
            let x = m.memb(0x400, &s, if site == 4 { "()V" } else { "(I)V" }, &[]);
            m.methods.push(x);
        }
        6 => {
            let n = m.utf(&s);
            let d = m.utf("I");
            let a = m.attr("LocalVariableTable", &cat(&[&u2(1), &u2(0), &u2(1), &u2(n), &u2(d), &u2(0)]));
            let c = m.code(&[0xb1], &[a]);
            let x = m.memb(0, "f", "()V", &[c]);
            m.methods.push(x);
        }
        7 => {
            let n = m.utf(&s);
            let a = m.attr("MethodParameters", &cat(&[&[2], &u2(0), &u2(0), &u2(n), &u2(0x10)]));
            let x = m.memb(0x400, "f", "(II)V", &[a]);
            m.methods.push(x);
        }
        _ => {
            let n = m.utf(&s);
            let d = m.utf("I");
            let a = m.attr("Record", &cat(&[&u2(1), &u2(n), &u2(d), &u2(0)]));
            m.attrs.push(a);
        }
    }
    m.bytes()
}

/// Two members of each of a few names and descriptors.
fn pairs(mut k: u64) -> Vec<u8> {
    let n = ["a", "b", "aI", "A"];
    let fd = ["I", "II", "J", "[I"];
    let md = ["()V", "()I", "(I)V", "(I)I"];
    let (a, b, c, d) = (dig(&mut k, 4), dig(&mut k, 4), dig(&mut k, 4), dig(&mut k, 4));
    let mut m = M::new(52);
    let method = k == 1;
    for (x, y) in [(a, b), (c, d)] {
        if method {
            // fresh texts each time: the same name under two indices
            let x = m.memb(0x400, n[x], md[y], &[]);
            m.methods.push(x);
        } else {
            let x = m.memb(0, n[x], if fd[y] == "II" { "Z" } else { fd[y] }, &[]);
            m.fields.push(x);
        }
        // something unrelated in between
        let x = m.memb(0, "z", "B", &[]);
        if m.fields.iter().all(|f| f.len() != x.len()) || method && m.fields.is_empty() {
            m.fields.push(x);
        }
    }
    m.bytes()
}
const INIT_DESCS: usize = 37;
fn inits(mut k: u64) -> Vec<u8> {
    let name = ["<init>", "<clinit>", "init"][dig(&mut k, 3)];
    let i = dig(&mut k, INIT_DESCS);
    let deep = |n: usize, s: &str| "[".repeat(n) + s;
    let desc = match i {
        28 => format!("({})V", deep(255, "I")),
        29 => format!("(){}", deep(255, "I")),
        30 => format!("({})V", deep(254, "La;")),
        31 => format!("({})V", "I".repeat(255)),
        32 => format!("({})V", deep(255, "Z").repeat(3)),
        33 => format!("({})V", "[I".repeat(256 - 2)),
        34 => format!("(L{};)V", "x".repeat(300)),
        35 => format!("()L{};", "x/".repeat(200) + "V"),
        36 => format!("({}){}", deep(128, "D"), deep(128, "V")),
        _ => [
            "()V", "()I", "(I)V", "(I)I", "()[I", "()La;", "(JLa;)V", "([I)La;", "(B)V", "(C)V", "(D)V", "(F)V", "(J)V", "(S)V", "(Z)V", "()B",
            "()C", "()D", "()F", "()J", "()S", "()Z", "()LV;", "(LV;)V", "()Ljava/lang/Void;", "(La;La;)V", "(Ljava/lang/String;I)V", "([[I)V",
        ][i]
        .to_string(),
    };
    let major = [45u16, 49, 50, 51, 52, 55, 61, 65][dig(&mut k, 8)];
    let flags = [0x21u16, 0x0601, 0x2601][dig(&mut k, 3)];
    let own = [8u16, 0, 1, 0x1008, 0x101, 0x400, 0x18, 0x9000][(i + k as usize) % 8];
    let mut m = M::new(major);
    m.flags = flags;
    let x = m.memb(own, name, &desc, &[]);
    m.methods.push(x);
    m.bytes()
}
fn boot_index(mut k: u64) -> Vec<u8> {
    let indy = dig(&mut k, 2) == 0;
    let ix = [0u16, 1, 2, 3, 255, 256, 0x8000, 0xffff][dig(&mut k, 8)];
    let tables = dig(&mut k, 6);
    let mut m = M::new(55);
    let x = m.nat("f", if indy { "()I" } else { "I" });
    m.r2(if indy { 18 } else { 17 }, ix, x);
    match tables {
        0 => {}
        1 => m.bootstrap(0),
        2 => m.bootstrap(1),
        3 => m.bootstrap(3),
        4 => {
            m.bootstrap(2);
            m.bootstrap(2);
        }
        _ => {
            // on a method rather than on the class
            m.bootstrap(3);
            let a = std::mem::take(&mut m.attrs);
            let x = m.memb(0x400, "f", "()V", &a);
            m.methods.push(x);
        }
    }
    m.bytes()
}
