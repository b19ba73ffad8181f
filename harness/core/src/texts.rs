//! A given text (as bytes of the pool) put at each of the places of a class file that hold one.

use crate::mini::*;

pub const SITES: usize = 70;

const SHAPES: usize = 14;
const CHARS: [&str; 4] = ["\u{e9}", "\u{4e2d}", "\u{1f600}", "\0"];
pub const COUNT: u64 = (SITES * SHAPES * 4 * 3 * 3) as u64;

fn dig(k: &mut u64, n: usize) -> usize {
    let r = (*k % n as u64) as usize;
    *k /= n as u64;
    r
}

/// Long texts without any character boundary at most byte positions, legal and illegal ones.
pub fn long_nonascii(mut k: u64) -> Vec<u8> {
    let site = dig(&mut k, SITES);
    let shape = dig(&mut k, SHAPES);
    let c = crate::mutf8::encode(CHARS[dig(&mut k, 4)]);
    let odd = dig(&mut k, 3);
    let len = [300usize, 40, 9000][dig(&mut k, 3)];
    let mut body = vec![b'a'; odd];
    while body.len() < len {
        body.extend_from_slice(&c);
    }
    let f = |a: &[u8], z: &[u8]| cat(&[a, &body, z]);
    let s = match shape {
        0 => f(b"", b""),
        1 => f(b"", b"."),
        2 => f(b";", b""),
        3 => f(b"<", b"/"),
        4 => f(b"[", b""),
        5 => f(b"L", b";"),
        6 => f(b"[L", b";"),
        7 => f(b"L", b""),
        8 => f(b"(L", b";)V"),
        9 => f(b"(L", b";V"),
        10 => f(b"()L", b";I"),
        11 => f(b"", &[0xC3]),
        12 => f(&[0xED, 0xB0, 0x80], b""),
        _ => f(b"I", b""),
    };
    place(site, &s)
}

/// A small class file in which the place number `site` holds this text.
pub fn place(site: usize, s: &[u8]) -> Vec<u8> {
    let mut m = M::empty(61);
    let t = m.class("T");
    m.this = t;
    m.sup = m.class("S");
    let u = m.utf_b(s);
    match site {
        0 | 1 => {
            let (n, d) = (m.utf("n"), m.utf("I"));
            m.fields.push(if site == 0 { memb_i(0, u, d, &[]) } else { memb_i(0, n, u, &[]) });
        }
        2 | 3 => {
            let (n, d) = (m.utf("n"), m.utf("()V"));
            m.methods.push(if site == 2 { memb_i(0x400, u, d, &[]) } else { memb_i(0x400, n, u, &[]) });
        }
        4 => m.this = m.r1(7, u),
        5 => m.sup = m.r1(7, u),
        6 => {
            let c = m.r1(7, u);
            m.ifs = vec![t, c];
        }
        7..=13 => {
            // a constant that code uses
            let (n, fd, md) = (m.utf("n"), m.utf("I"), m.utf("()V"));
            let (op, ix): (&[u8], u16) = match site {
                7 => (&[187], m.r1(7, u)),
                8 => {
                    let x = m.r2(12, u, fd);
                    (&[178], m.r2(9, t, x))
                }
                9 => {
                    let x = m.r2(12, n, u);
                    (&[178], m.r2(9, t, x))
                }
                10 => {
                    let x = m.r2(12, u, md);
                    (&[182], m.r2(10, t, x))
                }
                11 => {
                    let x = m.r2(12, n, u);
                    (&[182], m.r2(10, t, x))
                }
                12 => (&[19], m.r1(8, u)),
                _ => (&[19], m.r1(16, u)),
            };
            let code = cat(&[op, &u2(ix), &[0xb1]]);
            let c = m.code(&code, &[]);
            let x = m.memb(0, "f", "()V", &[c]);
            m.methods.push(x);
        }
        14 | 15 => {
            let (n, md, fd) = (m.utf("n"), m.utf("()V"), m.utf("I"));
            m.bootstrap(1);
            let (op, ix): (&[u8], u16) = if site == 14 {
                let x = m.r2(12, u, md);
                (&[186], m.r2(18, 0, x))
            } else {
                let _ = fd;
                let x = m.r2(12, n, u);
                (&[186], m.r2(18, 0, x))
            };
            let code = cat(&[op, &u2(ix), &[0, 0, 0xb1]]);
            let c = m.code(&code, &[]);
            let x = m.memb(0, "f", "()V", &[c]);
            m.methods.push(x);
        }
        16..=18 => {
            // attributes without a meaning
            let a = attr_i(u, &[1, 2, 3]);
            match site {
                16 => m.attrs.push(a),
                17 => {
                    let x = m.memb(0, "f", "I", &[a]);
                    m.fields.push(x);
                }
                _ => {
                    let c = m.code(&[0xb1], &[a]);
                    let x = m.memb(0, "f", "()V", &[c]);
                    m.methods.push(x);
                }
            }
        }
        19 | 20 => {
            let a = m.attr(["SourceFile", "Signature"][site - 19], &u2(u));
            m.attrs.push(a);
        }
        21..=24 => {
            let (n, d) = (m.utf("n"), m.utf("I"));
            let (x, y) = if site % 2 == 1 { (u, d) } else { (n, u) };
            let a = m.attr(["LocalVariableTable", "LocalVariableTypeTable"][(site - 21) / 2], &cat(&[&u2(1), &u2(0), &u2(1), &u2(x), &u2(y), &u2(0)]));
            let c = m.code(&[0xb1], &[a]);
            let x = m.memb(0, "f", "()V", &[c]);
            m.methods.push(x);
        }
        25 | 26 => {
            let (n, d) = (m.utf("n"), m.utf("I"));
            let (x, y) = if site == 25 { (u, d) } else { (n, u) };
            let a = m.attr("Record", &cat(&[&u2(1), &u2(x), &u2(y), &u2(0)]));
            m.attrs.push(a);
        }
        27 => {
            let a = m.attr("InnerClasses", &cat(&[&u2(1), &u2(t), &u2(0), &u2(u), &u2(0)]));
            m.attrs.push(a);
        }
        28 => {
            let a = m.attr("MethodParameters", &cat(&[&[2], &u2(0), &u2(0), &u2(u), &u2(0x10)]));
            let x = m.memb(0x400, "f", "(II)V", &[a]);
            m.methods.push(x);
        }
        29 => {
            let a = m.attr("RuntimeVisibleAnnotations", &cat(&[&u2(1), &u2(u), &u2(0)]));
            m.attrs.push(a);
        }
        30..=34 => {
            let (ty, n, one) = (m.utf("La;"), m.utf("n"), m.entry(3, &u4(1)));
            let (name, v) = match site {
                30 => (u, cat(&[b"I", &u2(one)])),
                31 => (n, cat(&[b"s", &u2(u)])),
                32 => (n, cat(&[b"c", &u2(u)])),
                33 => (n, cat(&[b"e", &u2(u), &u2(n)])),
                _ => (n, cat(&[b"e", &u2(ty), &u2(u)])),
            };
            let a = m.attr("RuntimeInvisibleAnnotations", &cat(&[&u2(1), &u2(ty), &u2(1), &u2(name), &v]));
            let x = m.memb(0, "f", "I", &[a]);
            m.fields.push(x);
        }
        35 => {
            let c = m.r1(7, u);
            let a = m.attr("Exceptions", &cat(&[&u2(1), &u2(c)]));
            let x = m.memb(0x400, "f", "()V", &[a]);
            m.methods.push(x);
        }
        36 => {
            let c = m.r1(7, u);
            let b = code_body(1, 1, &[0, 0xb1], &[[0, 1, 1, c]], &[]);
            let a = m.attr("Code", &b);
            let x = m.memb(0, "f", "()V", &[a]);
            m.methods.push(x);
        }
        37..=39 => {
            let c = m.r1(7, u);
            let b = if site == 37 { u2(c).to_vec() } else { cat(&[&u2(1), &u2(c)]) };
            let a = m.attr(["NestHost", "NestMembers", "PermittedSubclasses"][site - 37], &b);
            m.attrs.push(a);
        }
        40 => {
            let d = m.utf("()V");
            let x = m.r2(12, u, d);
            let a = m.attr("EnclosingMethod", &cat(&[&u2(t), &u2(x)]));
            m.attrs.push(a);
        }
        41..=46 => {
            // module classes
            let mut m = M::empty(61);
            m.flags = 0x8000;
            m.this = m.class("module-info");
            let u = m.utf_b(s);
            let plain = m.utf("q");
            let v = if site == 41 { u } else { plain };
            let name = m.r1(19, if site == 42 { u } else { plain });
            let pack = m.r1(20, if site == 43 { u } else { plain });
            let cls = m.r1(7, if site == 44 { u } else { plain });
            let body = cat(&[
                &u2(name), &u2(0), &u2(v), &u2(1), &u2(name), &u2(0), &u2(v), &u2(1), &u2(pack), &u2(0), &u2(0), &u2(1), &u2(pack), &u2(0), &u2(1), &u2(name),
                &u2(1), &u2(cls), &u2(1), &u2(cls), &u2(1), &u2(cls),
            ]);
            let a = m.attr("Module", &body);
            m.attrs.push(a);
            if site == 45 {
                let p = m.r1(20, u);
                let a = m.attr("ModulePackages", &cat(&[&u2(1), &u2(p)]));
                m.attrs.push(a);
            } else if site == 46 {
                let c = m.r1(7, u);
                let a = m.attr("ModuleMainClass", &u2(c));
                m.attrs.push(a);
            }
            return m.bytes();
        }
        // next to something that is wrong
        48..=53 => {
            // a module that is a class in some respect
            let mut m = M::empty(61);
            m.flags = 0x8000;
            m.this = m.class("module-info");
            let u = m.utf_b(s);
            let (n, fd, md) = (m.utf("n"), m.utf("I"), m.utf("()V"));
            match site {
                48 => m.sup = m.r1(7, u),
                49 => {
                    let c = m.r1(7, u);
                    m.ifs = vec![c];
                }
                50 => m.fields.push(memb_i(0, u, fd, &[])),
                51 => m.fields.push(memb_i(0, n, u, &[])),
                52 => m.methods.push(memb_i(0x400, u, md, &[])),
                _ => m.methods.push(memb_i(0x400, n, u, &[])),
            }
            return m.bytes();
        }
        54..=57 => {
            // duplicates
            let (n, fd, md) = (m.utf("n"), m.utf("I"), m.utf("()V"));
            for _ in 0..2 {
                match site {
                    54 => m.fields.push(memb_i(0, u, fd, &[])),
                    55 => m.fields.push(memb_i(0, n, u, &[])),
                    56 => m.methods.push(memb_i(0x400, u, md, &[])),
                    _ => m.methods.push(memb_i(0x400, n, u, &[])),
                }
            }
        }
        58 | 59 => {
            let n = m.utf(["<init>", "<clinit>"][site - 58]);
            m.methods.push(memb_i(0x400, n, u, &[]));
        }
        60..=63 => {
            // a text where something else belongs
            let d = m.utf("I");
            match site {
                60 => m.this = u,
                61 => m.sup = u,
                62 => {
                    let a = m.attr("ConstantValue", &u2(u));
                    m.fields.push(memb_i(8, d, d, &[a]));
                }
                _ => {
                    m.r2(9, u, u);
                }
            }
        }
        64 => {
            let c = m.r1(7, u);
            let d = m.utf("I");
            let a = m.attr("ConstantValue", &u2(c));
            m.fields.push(memb_i(8, d, d, &[a]));
        }
        65 => {
            let a = m.attr("Signature", &cat(&[&u2(u), &[0]]));
            m.attrs.push(a);
        }
        66..=68 => {
            // a handle of a kind that the member's name or tag does not fit
            let v = m.utf("()V");
            let x = m.r2(12, u, v);
            let r = m.r2(if site == 66 { 10 } else { 11 }, t, x);
            m.handle([8, 8, 5][site - 66], r);
        }
        69 => {
            // a class with the flags of a module in part
            m.this = m.r1(7, u);
            m.flags = 0x8001;
        }
        _ => {
            let x = m.r1(8, u);
            let a = m.attr("ConstantValue", &u2(x));
            let x = m.memb(8, "f", "Ljava/lang/String;", &[a]);
            m.fields.push(x);
        }
    }
    m.bytes()
}
