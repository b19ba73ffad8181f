//! A plain writer for small class files with hand-chosen bytes: used by the systematic
//! enumerations and the hostile inputs.

/// What every file written by this thread is padded with: entries of the pool before its own,
/// members before its own, attributes before its own, instructions before its code.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Pad {
    /// Entries of the pool, up to this index.
    pub pool: u16,
    pub texts: bool,
    pub fields: u16,
    pub methods: u16,
    /// Attributes of the class.
    pub attrs: u16,
    /// Attributes of every member and of every code.
    pub inner: u16,
    /// Instructions; a multiple of four.
    pub nops: u16,
}

thread_local! {
    static PAD: std::cell::Cell<Option<Pad>> = const { std::cell::Cell::new(None) };
}

/// Make a file with padding.
pub fn padded(pad: Pad, f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            PAD.set(None);
        }
    }
    let _reset = Reset;
    PAD.set(Some(pad));
    f()
}
thread_local! {
    // the attribute whose length is to be wrong (counting down), and by how much
    static SKEW: std::cell::Cell<Option<(u32, u32)>> = const { std::cell::Cell::new(None) };
}

/// Make a file in which the declared length of the `nth` attribute made is off by `delta`.
pub fn skewed(nth: u32, delta: u32, f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            SKEW.set(None);
        }
    }
    let _reset = Reset;
    SKEW.set(Some((nth, delta)));
    f()
}
fn pad() -> Pad {
    PAD.get().unwrap_or_default()
}
// where the padding has its names in the pool
const PAD_ATTR: u16 = 1;
const PAD_FD: u16 = 2;
const PAD_MD: u16 = 34;
const PAD_NAMES: u16 = 66;
const PAD_END: u32 = 66 + 2048;

fn pad_attrs(n: u16, o: &mut Vec<u8>) {
    for i in 0..n {
        o.extend_from_slice(&u2(PAD_ATTR));
        o.extend_from_slice(&u4(u32::from(i % 2)));
        if i % 2 == 1 {
            o.push(i as u8);
        }
    }
}
fn pad_members(n: u16, method: bool, o: &mut Vec<u8>) {
    for i in 0..n {
        let d = if method { PAD_MD } else { PAD_FD };
        o.extend_from_slice(&u2(if method { 0x400 } else { 0 }));
        o.extend_from_slice(&u2(PAD_NAMES + i / 32));
        o.extend_from_slice(&u2(d + i % 32));
        o.extend_from_slice(&u2(0));
    }
}

pub struct M {
    pub minor: u16,
    pub major: u16,
    pub pool: Vec<u8>,
    pub count: u16,
    pub flags: u16,
    pub this: u16,
    pub sup: u16,
    pub ifs: Vec<u16>,
    pub fields: Vec<Vec<u8>>,
    pub methods: Vec<Vec<u8>>,
    pub attrs: Vec<Vec<u8>>,
}

pub fn u2(v: u16) -> [u8; 2] {
    v.to_be_bytes()
}
pub fn u4(v: u32) -> [u8; 4] {
    v.to_be_bytes()
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

impl M {
    pub fn empty(major: u16) -> M {
        let mut m = M {
            minor: 0,
            major,
            pool: vec![],
            count: 1,
            flags: 0x21,
            this: 0,
            sup: 0,
            ifs: vec![],
            fields: vec![],
            methods: vec![],
            attrs: vec![],
        };
        if let Some(p) = PAD.get() {
            if p.attrs > 0 || p.inner > 0 || p.fields > 0 || p.methods > 0 {
                m.utf("vh.Pad");
            }
            if p.fields > 0 || p.methods > 0 {
                for i in 0..32 {
                    m.utf(&format!("{}I", "[".repeat(i)));
                }
                for i in 0..32 {
                    m.utf(&format!("({}I)V", "[".repeat(i)));
                }
                for i in 0..2048 {
                    m.utf(&format!("~{i}"));
                }
                assert_eq!(u32::from(m.count), PAD_END);
            }
            while m.count < p.pool {
                let i = u32::from(m.count);
                if p.texts {
                    m.utf(&format!("{i:x}"));
                } else {
                    m.entry(3, &u4(i));
                }
            }
        }
        m
    }
    /// A class "T" extending "S".
    pub fn new(major: u16) -> M {
        let mut m = M::empty(major);
        m.this = m.class("T");
        m.sup = m.class("S");
        m
    }
    pub fn entry(&mut self, tag: u8, body: &[u8]) -> u16 {
        let i = self.count;
        self.pool.push(tag);
        self.pool.extend_from_slice(body);
        self.count += if tag == 5 || tag == 6 { 2 } else { 1 };
        i
    }
    pub fn utf_b(&mut self, b: &[u8]) -> u16 {
        let body = cat(&[&u2(b.len() as u16), b]);
        self.entry(1, &body)
    }
    pub fn utf(&mut self, s: &str) -> u16 {
        self.utf_b(&crate::mutf8::encode(s))
    }
    pub fn r1(&mut self, tag: u8, a: u16) -> u16 {
        self.entry(tag, &u2(a))
    }
    pub fn r2(&mut self, tag: u8, a: u16, b: u16) -> u16 {
        self.entry(tag, &cat(&[&u2(a), &u2(b)]))
    }
    pub fn class(&mut self, s: &str) -> u16 {
        let u = self.utf(s);
        self.r1(7, u)
    }
    pub fn nat(&mut self, n: &str, d: &str) -> u16 {
        let n = self.utf(n);
        let d = self.utf(d);
        self.r2(12, n, d)
    }
    pub fn member(&mut self, tag: u8, c: &str, n: &str, d: &str) -> u16 {
        let c = self.class(c);
        let x = self.nat(n, d);
        self.r2(tag, c, x)
    }
    pub fn handle(&mut self, kind: u8, r: u16) -> u16 {
        let b = cat(&[&[kind], &u2(r)]);
        self.entry(15, &b)
    }
    pub fn attr(&mut self, name: &str, body: &[u8]) -> Vec<u8> {
        let n = self.utf(name);
        attr_i(n, body)
    }
    pub fn memb(&mut self, flags: u16, name: &str, desc: &str, attrs: &[Vec<u8>]) -> Vec<u8> {
        let n = self.utf(name);
        let d = self.utf(desc);
        memb_i(flags, n, d, attrs)
    }
    pub fn code(&mut self, code: &[u8], attrs: &[Vec<u8>]) -> Vec<u8> {
        let mut c = vec![0; pad().nops.into()];
        c.extend_from_slice(code);
        let b = code_body(2, 2, &c, &[], attrs);
        self.attr("Code", &b)
    }
    /// A bootstrap table with one row and no arguments.
    pub fn bootstrap(&mut self, rows: u16) {
        let m = self.member(10, "B", "b", "()V");
        let h = self.handle(6, m);
        let mut b = u2(rows).to_vec();
        for _ in 0..rows {
            b.extend_from_slice(&u2(h));
            b.extend_from_slice(&u2(0));
        }
        let a = self.attr("BootstrapMethods", &b);
        self.attrs.push(a);
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![0xCA, 0xFE, 0xBA, 0xBE];
        o.extend_from_slice(&u2(self.minor));
        o.extend_from_slice(&u2(self.major));
        o.extend_from_slice(&u2(self.count));
        o.extend_from_slice(&self.pool);
        o.extend_from_slice(&u2(self.flags));
        o.extend_from_slice(&u2(self.this));
        o.extend_from_slice(&u2(self.sup));
        o.extend_from_slice(&u2(self.ifs.len() as u16));
        for i in &self.ifs {
            o.extend_from_slice(&u2(*i));
        }
        let p = if self.flags == 0x8000 { Pad { fields: 0, methods: 0, ..pad() } } else { pad() };
        for (i, v) in [&self.fields, &self.methods, &self.attrs].into_iter().enumerate() {
            let n = [p.fields, p.methods, p.attrs][i].min(65535 - v.len() as u16);
            o.extend_from_slice(&u2(v.len() as u16 + n));
            match i {
                0 => pad_members(n, false, &mut o),
                1 => pad_members(n, true, &mut o),
                _ => pad_attrs(n, &mut o),
            }
            for x in v {
                o.extend_from_slice(x);
            }
        }
        o
    }
}

pub fn attr_i(name: u16, body: &[u8]) -> Vec<u8> {
    let mut len = body.len() as u32;
    if let Some((nth, delta)) = SKEW.get() {
        if nth == 0 {
            len = len.wrapping_add(delta);
        }
        SKEW.set(Some((nth.wrapping_sub(1), delta)));
    }
    cat(&[&u2(name), &u4(len), body])
}
pub fn memb_i(flags: u16, n: u16, d: u16, attrs: &[Vec<u8>]) -> Vec<u8> {
    let p = pad().inner.min(65535 - attrs.len() as u16);
    let mut o = cat(&[&u2(flags), &u2(n), &u2(d), &u2(attrs.len() as u16 + p)]);
    pad_attrs(p, &mut o);
    for a in attrs {
        o.extend_from_slice(a);
    }
    o
}
pub fn code_body(stack: u16, locals: u16, code: &[u8], exc: &[[u16; 4]], attrs: &[Vec<u8>]) -> Vec<u8> {
    let mut o = cat(&[&u2(stack), &u2(locals), &u4(code.len() as u32), code, &u2(exc.len() as u16)]);
    for e in exc {
        for v in e {
            o.extend_from_slice(&u2(*v));
        }
    }
    let p = pad().inner.min(65535 - attrs.len() as u16);
    o.extend_from_slice(&u2(attrs.len() as u16 + p));
    pad_attrs(p, &mut o);
    for a in attrs {
        o.extend_from_slice(a);
    }
    o
}

/// A pool holding at least one entry of every kind permitted in the version; the indices of all
/// of them, and of a dead slot, are in `all`.
pub struct Kit {
    pub m: M,
    pub all: Vec<u16>,
    pub dead: u16,
}

pub fn kit(major: u16) -> Kit {
    let mut m = M::new(major);
    let mut all = vec![];
    all.push(m.utf("plain"));
    all.push(m.utf("I"));
    all.push(m.utf("(I)V"));
    all.push(m.utf("[Ljava/lang/String;"));
    all.push(m.utf_b(&[0xED, 0xA0, 0x80]));
    all.push(m.entry(3, &u4(0x8000_0001)));
    all.push(m.entry(4, &u4(0x7fc0_0001)));
    let l = m.entry(5, &0x8000_0000_0000_0001u64.to_be_bytes());
    all.push(l);
    all.push(m.entry(6, &0x7ff8_0000_0000_0001u64.to_be_bytes()));
    all.push(m.class("a/B"));
    all.push(m.class("[I"));
    all.push(m.class("[[La/B;"));
    let s = m.utf("text");
    all.push(m.r1(8, s));
    let raw = m.utf_b(&[b'x', 0xED, 0xB0, 0x80]);
    all.push(m.r1(8, raw));
    all.push(m.member(9, "F", "f", "J"));
    let me = m.member(10, "C", "m", "()V");
    all.push(me);
    let init = m.member(10, "C", "<init>", "(I)V");
    all.push(init);
    all.push(m.member(11, "N", "n", "(J)[I"));
    all.push(m.nat("nf", "[I"));
    all.push(m.nat("nm", "()V"));
    if major >= 51 {
        all.push(m.handle(6, me));
        all.push(m.handle(8, init));
        let d = m.utf("()La/B;");
        all.push(m.r1(16, d));
        let x = m.nat("dy", "I");
        if major >= 55 {
            all.push(m.r2(17, 0, x));
            let x = m.nat("dj", "J");
            all.push(m.r2(17, 0, x));
        }
        let x = m.nat("in", "(I)V");
        all.push(m.r2(18, 0, x));
        m.bootstrap(1);
    }
    Kit { m, all, dead: l + 1 }
}
