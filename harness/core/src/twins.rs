//! Pairs of members that are easily confused with one another, but differ in name or descriptor.

use crate::mini::{memb_i, M};

pub type Pair = (String, String);
pub const KINDS: usize = 9;
/// Enough for every kind to show all its forms.
pub const FORMS: usize = 24;

const SEPS: [&str; 16] = ["", ":", " ", "#", "\0", "-", "_", "$", "|", ",", "->", "::", "(", "=", "@", "\u{1f}"];
const SAME: [(&str, &str); 12] = [
    ("\u{e9}", "e\u{301}"),
    ("\u{fb01}", "fi"),
    ("\u{ff21}", "A"),
    ("\u{212a}", "K"),
    ("\u{17f}", "s"),
    ("\u{130}", "i"),
    ("\u{df}", "ss"),
    ("\u{ac00}", "\u{1100}\u{1161}"),
    ("\u{200d}a", "a"),
    ("\u{10041}", "A"),
    ("\u{141}", "A"),
    ("\u{feff}b", "b"),
];
const FD: [(&str, &str); 16] = [
    ("I", "LI;"),
    ("[I", "[[I"),
    ("I", "[I"),
    ("La/b;", "La$b;"),
    ("La/b;", "La/b/b;"),
    ("La/b;", "Lb/a;"),
    ("LAa;", "LBB;"),
    ("La;", "LA;"),
    ("La;", "[La;"),
    ("La;", "La ;"),
    ("B", "Z"),
    ("C", "S"),
    ("J", "D"),
    ("La/b;", "La/bb;"),
    ("La/c;", "Lb/c;"),
    ("La/\u{e9};", "La/e\u{301};"),
];
const MD: [(&str, &str); 16] = [
    ("(IJ)V", "(JI)V"),
    ("(I)J", "(J)I"),
    ("()V", "(I)V"),
    ("()V", "()I"),
    ("(I)I", "(II)I"),
    ("([II)V", "(I[I)V"),
    ("(II)V", "([I)V"),
    ("(La;Lb;)V", "(Lb;La;)V"),
    ("(La;)Lb;", "(Lb;)La;"),
    ("(La;)V", "(Lb;)V"),
    ("(La;)V", "([La;)V"),
    ("()La;", "()[La;"),
    ("(LI;)V", "(I)V"),
    ("(LAa;)V", "(LBB;)V"),
    ("(La/b;)V", "(La$b;)V"),
    ("(ILa;I)V", "(ILa;J)V"),
];

pub fn pair(method: bool, kind: usize, form: usize) -> (Pair, Pair) {
    let desc = |c: &str| if method { format!("(L{};I)[L{};", c, c) } else { format!("L{};", c) };
    let any = if method { "(I)V" } else { "I" };
    let p = |a: &str, b: &str| (a.to_string(), b.to_string());
    match kind % KINDS {
        // the same text when joined
        0 => {
            let s = SEPS[form % 16];
            let c = if form < 16 { "z" } else { "p/q" };
            if method {
                let d2 = format!("()L{};", c);
                (p("m", &format!("()Lx{}{}", s, d2)), p(&format!("m{}()Lx", s), &d2))
            } else {
                let d2 = format!("L{};", c);
                (p("m", &format!("Lx{}{}", s, d2)), p(&format!("m{}Lx", s), &d2))
            }
        }
        // the same hash in Java
        1 => match form % 4 {
            0 => (p("Aa", any), p("BB", any)),
            1 => (p("AaAa", any), p("BBBB", any)),
            2 => (p("m", &desc("Aa")), p("m", &desc("BB"))),
            _ => (p("AaBB", any), p("BBAa", any)),
        },
        // long and different at one place only
        2 => {
            let len = [16usize, 32, 33, 64, 128, 256, 300, 1024][form % 8];
            let at = [0, len / 2, len - 1][form / 8 % 3];
            let mut v = vec![b'n'; len];
            let a = String::from_utf8(v.clone()).unwrap();
            v[at] = b'o';
            let b = String::from_utf8(v).unwrap();
            if form % 2 == 0 {
                (p(&a, any), p(&b, any))
            } else {
                (p("m", &desc(&a)), p("m", &desc(&b)))
            }
        }
        // the same under some equivalence of characters
        3 => {
            let (a, b) = SAME[form % 12];
            if form < 12 {
                (p(&format!("x{}y", a), any), p(&format!("x{}y", b), any))
            } else {
                (p("m", &desc(a)), p("m", &desc(b)))
            }
        }
        // letters of another case
        4 => {
            let (a, b) = [("a", "A"), ("name", "Name"), ("\u{e9}", "\u{c9}"), ("i", "I")][form % 4];
            if form % 8 < 4 {
                (p(a, any), p(b, any))
            } else {
                (p("m", &desc(a)), p("m", &desc(b)))
            }
        }
        // something invisible at an end
        5 => {
            let x = [" ", "\0", "\t", "\u{a0}", "\u{200b}", "\u{ad}"][form % 6];
            match form / 6 % 4 {
                0 => (p("a", any), p(&format!("a{}", x), any)),
                1 => (p("a", any), p(&format!("{}a", x), any)),
                2 => (p("m", &desc("a")), p("m", &desc(&format!("a{}", x)))),
                _ => (p(&format!("a{}b", x), any), p("ab", any)),
            }
        }
        // descriptors close to each other
        6 => {
            let (a, b) = if method { MD[form % 16] } else { FD[form % 16] };
            (p("m", a), p("m", b))
        }
        // name and class exchanged
        7 => match form % 3 {
            0 => (p("a", &desc("b")), p("b", &desc("a"))),
            1 => (p("I", any), p("m", any)),
            _ => (p("ab", &desc("c")), p("a", &desc("bc"))),
        },
        // one a prefix or a suffix of the other
        _ => match form % 4 {
            0 => (p("name", any), p("nam", any)),
            1 => (p("name", any), p("ame", any)),
            2 => (p("m", &desc("ab")), p("m", &desc("a"))),
            _ => (p("m", &desc("a/b")), p("m", &desc("b"))),
        },
    }
}

pub const COUNT: u64 = (2 * 2 * 3 * 2 * KINDS * FORMS) as u64;

/// A class with such a pair: at some distance, in either order, perhaps with one of them twice.
pub fn class(mut k: u64) -> Vec<u8> {
    let mut dig = |n: u64| {
        let r = k % n;
        k /= n;
        r
    };
    let (method, flip, gap, dup) = (dig(2) == 1, dig(2) == 1, dig(3), dig(2) == 1);
    let (a, b) = pair(method, dig(KINDS as u64) as usize, dig(FORMS as u64) as usize);
    let (a, b) = if flip { (b, a) } else { (a, b) };
    let mut m = M::new(52);
    let mut v = vec![a.clone()];
    for i in 0..[0, 1, 40][gap as usize] {
        v.push((format!("between{}", i), if method { "()V" } else { "I" }.to_string()));
    }
    v.push(b);
    if dup {
        v.push(a);
    }
    for (n, d) in v {
        let x = m.memb(if method { 0x400 } else { 0 }, &n, &d, &[]);
        if method {
            m.methods.push(x);
        } else {
            m.fields.push(x);
        }
    }
    m.bytes()
}

pub const CROWDS: u64 = 2 * 3 * 8 * 2;

/// As many members as there can be: all different, or with two the same far from each other.
pub fn crowd(mut k: u64) -> Vec<u8> {
    let mut dig = |n: u64| {
        let r = k % n;
        k /= n;
        r as u32
    };
    let (method, shape, turn, dup) = (dig(2) == 1, dig(3), dig(8), dig(2) == 1);
    let mut m = M::new(52);
    // so many names with so many descriptors each
    let (names, descs) = [(256, 256), (16, 4096), (4096, 16)][shape as usize];
    let n: Vec<u16> = (0..names).map(|i| m.utf(&format!("{}{:x}", [ "n", "na", "field$", "x\u{e9}" ][turn as usize % 4], i * (turn + 1)))).collect();
    let d: Vec<u16> = (0..descs)
        .map(|i| {
            let c = format!("L{}{:x};", ["p/C", "C", "java/lang/O", "a/b/c/"][turn as usize / 2], i * 7 + turn);
            m.utf(&if method { format!("({})V", c) } else { c })
        })
        .collect();
    let mut v: Vec<Vec<u8>> = (0..65535u32).map(|i| memb_i(if method { 0x400 } else { 0 }, n[(i / descs) as usize], d[(i % descs) as usize], &[])).collect();
    if dup {
        let (from, to) = [(0, 65534), (0, 40000), (20000, 65534), (12345, 54321), (32767, 32768), (255, 256), (1, 65533), (65533, 65534)][turn as usize];
        v[to] = v[from].clone();
    }
    if method {
        m.methods = v;
    } else {
        m.fields = v;
    }
    m.bytes()
}
