//! Every code point, at every kind of place that holds names or texts.

use crate::mini::*;
use crate::mutf8;

/// Code points per file, each in two texts: at most 255 of them, as some tables hold no more.
const PER: u32 = 127;
const BLOCKS: u64 = (0x11_0000 / PER + 1) as u64;
const NAMES: usize = 11;
const DESCS: usize = 2;
const TEXTS: usize = 3;

pub const COUNT_NAMES: u64 = BLOCKS * NAMES as u64;
pub const COUNT_DESCS: u64 = BLOCKS * DESCS as u64;
pub const COUNT_TEXTS: u64 = BLOCKS * TEXTS as u64;

pub fn names(k: u64) -> Vec<u8> {
    make((k % NAMES as u64) as usize, k / NAMES as u64)
}
pub fn descs(k: u64) -> Vec<u8> {
    make(NAMES + (k % DESCS as u64) as usize, k / DESCS as u64)
}
pub fn texts(k: u64) -> Vec<u8> {
    make(NAMES + DESCS + (k % TEXTS as u64) as usize, k / TEXTS as u64)
}

fn make(site: usize, block: u64) -> Vec<u8> {
    let free = site >= NAMES + DESCS;
    let mut t: Vec<String> = vec![];
    for cp in block as u32 * PER..(block as u32 + 1) * PER {
        let Some(c) = char::from_u32(cp) else { continue };
        // what means something in some place is tried elsewhere, alone
        if !free && (".;[/<>".contains(c) || (site == 7 && (":@\\".contains(c) || cp < 0x20))) {
            continue;
        }
        t.push(c.to_string());
        t.push(match (cp as usize + site) % 4 {
            0 => format!("a{c}"),
            1 => format!("{c}a"),
            2 => format!("{c}{c}{c}"),
            _ => format!("\u{e9}{c}z"),
        });
    }
    let mut m = M::empty(61);
    m.this = m.class("T");
    m.sup = m.class("S");
    let n = t.len() as u16;
    let u: Vec<u16> = t.iter().filter(|_| !(9..13).contains(&site)).map(|s| m.utf(s)).collect();
    let table = |row: &dyn Fn(u16) -> Vec<u8>| cat(&[&u2(n), &u.iter().flat_map(|x| row(*x)).collect::<Vec<u8>>()]);
    match site {
        0 => {
            let d = m.utf("I");
            m.fields = u.iter().map(|x| memb_i(1, *x, d, &[])).collect();
        }
        1 => {
            let d = m.utf("()V");
            m.methods = u.iter().map(|x| memb_i(0x400, *x, d, &[])).collect();
        }
        2 => {
            let d = m.utf("I");
            let a = m.attr("LocalVariableTable", &table(&|x| cat(&[&u2(0), &u2(1), &u2(x), &u2(d), &u2(0)])));
            let c = m.code(&[0xb1], &[a]);
            let x = m.memb(0, "f", "()V", &[c]);
            m.methods.push(x);
        }
        3 => {
            let a = m.attr("MethodParameters", &cat(&[&[n as u8], &table(&|x| cat(&[&u2(x), &u2(0)]))[2..]]));
            let x = m.memb(0x400, "f", &format!("({})V", "I".repeat(n as usize)), &[a]);
            m.methods.push(x);
        }
        4 => {
            let d = m.utf("I");
            let a = m.attr("Record", &table(&|x| cat(&[&u2(x), &u2(d), &u2(0)])));
            m.attrs.push(a);
        }
        5 => {
            let t = m.this;
            let a = m.attr("InnerClasses", &table(&|x| cat(&[&u2(t), &u2(0), &u2(x), &u2(0)])));
            m.attrs.push(a);
        }
        6 => {
            let c: Vec<u16> = u.iter().map(|x| m.r1(7, *x)).collect();
            let b: Vec<u8> = c.iter().flat_map(|x| u2(*x)).collect();
            let a = m.attr("NestMembers", &cat(&[&u2(n), &b]));
            m.attrs.push(a);
        }
        7 | 8 => {
            m.flags = 0x8000;
            m.sup = 0;
            m.this = m.class("module-info");
            let me = m.utf("M");
            let me = m.r1(19, me);
            let c: Vec<u16> = u.iter().map(|x| m.r1(if site == 7 { 19 } else { 20 }, *x)).collect();
            let rows: Vec<u8> = c.iter().flat_map(|x| if site == 7 { cat(&[&u2(*x), &u2(0), &u2(0)]) } else { u2(*x).to_vec() }).collect();
            let none = [0u8; 8];
            if site == 7 {
                let a = m.attr("Module", &cat(&[&u2(me), &u2(0), &u2(0), &u2(n), &rows, &none]));
                m.attrs.push(a);
            } else {
                let a = m.attr("Module", &cat(&[&u2(me), &u2(0), &u2(0), &u2(0), &none]));
                let b = m.attr("ModulePackages", &cat(&[&u2(n), &rows]));
                m.attrs.extend([a, b]);
            }
        }
        9 => {
            // names that instructions refer to
            let (c, d, f) = (m.class("C"), m.utf("()V"), m.utf("I"));
            let mut code = vec![];
            for (i, s) in t.iter().enumerate() {
                let x = m.utf(s);
                let (desc, tag, op) = [(f, 9, 178), (d, 10, 184), (f, 9, 181)][i % 3];
                let y = m.r2(12, x, desc);
                let z = m.r2(tag, c, y);
                code.push(op);
                code.extend_from_slice(&u2(z));
            }
            code.push(0xb1);
            let a = m.code(&code, &[]);
            let x = m.memb(1, "m", "()V", &[a]);
            m.methods.push(x);
        }
        10 => {
            // segments of class names and of arrays
            let mut code = vec![];
            for (i, s) in t.iter().enumerate() {
                let c = match i % 3 {
                    0 => m.class(&format!("p/{s}")),
                    1 => m.class(&format!("[L{s};")),
                    _ => m.class(&format!("{s}/q")),
                };
                code.push(0xc0);
                code.extend_from_slice(&u2(c));
            }
            code.push(0xb1);
            let a = m.code(&code, &[]);
            let x = m.memb(1, "m", "()V", &[a]);
            m.methods.push(x);
        }
        11 => {
            for (i, s) in t.iter().enumerate() {
                let d = if i % 2 == 0 { format!("L{s};") } else { format!("[[La/{s};") };
                let x = m.memb(1, &format!("f{i}"), &d, &[]);
                m.fields.push(x);
            }
        }
        12 => {
            for (i, s) in t.iter().enumerate() {
                let d = if i % 2 == 0 { format!("(IL{s};[L{s};J)L{s};") } else { format!("(L{s}/a;)V") };
                let x = m.memb(0x400, &format!("m{i}"), &d, &[]);
                m.methods.push(x);
            }
        }
        13 => {
            let code: Vec<u8> = u.iter().flat_map(|x| cat(&[&[19], &u2(m.r1(8, *x))])).chain([0xb1]).collect();
            let a = m.code(&code, &[]);
            let x = m.memb(1, "m", "()V", &[a]);
            m.methods.push(x);
        }
        14 => {
            let ty = m.utf("La;");
            let b = table(&|x| cat(&[&u2(x), b"s", &u2(x)]));
            let a = m.attr("RuntimeVisibleAnnotations", &cat(&[&u2(1), &u2(ty), &b]));
            m.attrs.push(a);
        }
        _ => {
            // one text of them all, next to each other
            let all: String = t.concat();
            let x = m.utf_b(&mutf8::encode(&all));
            let a = m.attr("SourceFile", &u2(x));
            let b = m.attr("Signature", &u2(x));
            m.attrs.extend([a, b]);
        }
    }
    m.bytes()
}
