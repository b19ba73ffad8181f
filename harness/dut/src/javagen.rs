//! Random Java programs, correct by construction, for the compiler to turn into class files (C21).

use vcore::dict;
use vcore::tape::Tape;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T {
    I,
    J,
    F,
    D,
    Z,
    B,
    C,
    S,
    Str,
    IA,
    Obj,
}
use T::*;

fn name(t: T) -> &'static str {
    match t {
        I => "int",
        J => "long",
        F => "float",
        D => "double",
        Z => "boolean",
        B => "byte",
        C => "char",
        S => "short",
        Str => "String",
        IA => "int[]",
        Obj => "Object",
    }
}
const TYPES: &[T] = &[I, J, D, F, Z, Str, B, C, S, IA, Obj];

struct G<'t> {
    t: &'t mut Tape,
    rel: u32,
    me: String,
    /// assigned local variables and parameters in scope
    vars: Vec<(String, T)>,
    next: u32,
    loops: u32,
    stat: bool,
    annos: bool,
    budget: i32,
    used: Vec<String>,
}

const KEYWORDS: &[&str] = &[
    "abstract", "assert", "boolean", "break", "byte", "case", "catch", "char", "class", "const", "continue", "default", "do", "double", "else", "enum",
    "extends", "final", "finally", "float", "for", "goto", "if", "implements", "import", "instanceof", "int", "interface", "long", "native", "new",
    "package", "private", "protected", "public", "return", "short", "static", "strictfp", "super", "switch", "synchronized", "this", "throw", "throws",
    "transient", "try", "void", "volatile", "while", "true", "false", "null", "yield", "var", "record", "sealed", "permits", "when", "java", "kotlin",
];
/// Names of methods and fields that the generated types inherit or declare, or that would hide something used.
const INHERITED: &[&str] = &[
    "clone", "finalize", "getClass", "hashCode", "equals", "toString", "notify", "notifyAll", "wait", "run", "get", "size", "values", "valueOf", "name",
    "ordinal", "start", "stop", "join", "add", "set", "remove", "clear", "iterator", "abs", "peek", "secret", "hidden", "poke", "make", "big", "wide", "kls", "main",
];

impl G<'_> {
    /// A name of the dictionary that can be given to anything but a type.
    fn familiar(&mut self) -> Option<String> {
        let words = &dict::get().idents;
        let w = &words[self.t.us(words.len())];
        let mut c = w.chars();
        let first = c.next()?;
        let legal = (first.is_ascii_lowercase() || first == '_' || first == '$') && w.len() > 2 && c.all(|x| x.is_ascii_alphanumeric() || x == '_' || x == '$');
        if !legal || KEYWORDS.contains(&w.as_str()) || INHERITED.contains(&w.as_str()) || self.used.contains(w) {
            return None;
        }
        self.used.push(w.clone());
        Some(w.clone())
    }
    fn fresh(&mut self, p: &str) -> String {
        if p != "Local" && self.t.chance(1, 8) {
            if let Some(w) = self.familiar() {
                return w;
            }
        }
        self.next += 1;
        let odd = ["", "", "", "", "é", "名", "$", "_x"];
        format!("{}{}{}", p, odd[self.t.us(odd.len())], self.next)
    }
    fn p(&mut self, pct: u64) -> bool {
        self.t.chance(pct, 100)
    }
    fn ty(&mut self) -> T {
        *self.t.pick(TYPES)
    }
    fn var(&mut self, t: T) -> Option<String> {
        let c: Vec<String> = self.vars.iter().filter(|v| v.1 == t).map(|v| v.0.clone()).collect();
        if c.is_empty() {
            None
        } else {
            Some(c[self.t.us(c.len())].clone())
        }
    }

    fn string(&mut self) -> String {
        let n = self.t.count(8);
        let mut s = String::from("\"");
        for _ in 0..n {
            match self.t.below(12) {
                0..=4 => s.push((b'a' + self.t.below(26) as u8) as char),
                5 => s.push_str("\\n"),
                6 => s.push_str("\\u00e9"),
                7 => s.push_str("\\0"),
                8 => s.push_str("\\ud83d\\ude00"),
                9 => s.push_str(if self.t.flip() { "\\ud800" } else { "\\udc01" }),
                10 => s.push_str("\\uffff"),
                _ => s.push_str("\\u07ff"),
            }
        }
        s.push('"');
        s
    }
    fn lit(&mut self, t: T) -> String {
        let g = &mut *self.t;
        match t {
            I => match g.below(6) {
                0 => format!("{}", g.below(8) as i64 - 1),
                1 => format!("{}", g.below(256) as i64 - 128),
                2 => format!("{}", g.below(65536) as i64 - 32768),
                3 => "Integer.MIN_VALUE".into(),
                4 => format!("0x{:x}", g.b32()),
                _ => format!("{}", g.b32() as i32).replace("-2147483648", "Integer.MIN_VALUE"),
            },
            J => match g.below(4) {
                0 => format!("{}L", g.below(3)),
                1 => "Long.MIN_VALUE".into(),
                _ => format!("0x{:x}L", g.b64()),
            },
            F => match g.below(5) {
                0 => format!("{}f", g.below(4)),
                1 => "Float.NaN".into(),
                2 => "-0f".into(),
                3 => "Float.MIN_VALUE".into(),
                _ => format!("0x1.{:x}p{}f", g.below(0x100000), g.below(200) as i64 - 100),
            },
            D => match g.below(5) {
                0 => format!("{}.0", g.below(3)),
                1 => "Double.NaN".into(),
                2 => "Double.NEGATIVE_INFINITY".into(),
                3 => "-0.0".into(),
                _ => format!("0x1.{:x}p{}", g.below(1 << 40), g.below(1600) as i64 - 800),
            },
            Z => (if g.flip() { "true" } else { "false" }).into(),
            B => format!("(byte) {}", g.below(256)),
            S => format!("(short) {}", g.below(65536)),
            C => format!("(char) {}", g.below(65536)),
            Str => self.string(),
            IA => match g.below(3) {
                0 => "new int[0]".into(),
                1 => format!("new int[] {{ {}, {}, {} }}", g.below(9), g.below(300), g.below(100000)),
                _ => "new int[3]".into(),
            },
            Obj => match g.below(5) {
                0 => "null".into(),
                1 => "new Object()".into(),
                2 => format!("{}.class", *g.pick(&["int", "void", "String", "int[][]", "Object[]", "java.util.Map.Entry"])),
                3 => "Thread.State.NEW".into(),
                _ => "new java.util.ArrayList<String>()".into(),
            },
        }
    }

    fn e(&mut self, t: T, d: u32) -> String {
        let s = self.e1(t, d);
        match t {
            Obj => format!("((Object) {})", s),
            IA => format!("({})", s),
            _ => s,
        }
    }
    fn e1(&mut self, t: T, d: u32) -> String {
        self.budget -= 1;
        if d == 0 || self.budget < 0 || self.p(20) {
            if self.p(65) {
                if let Some(v) = self.var(t) {
                    return v;
                }
            }
            return format!("({})", self.lit(t));
        }
        let d = d - 1;
        if self.p(8) {
            let c = self.e(Z, d);
            return format!("({} ? {} : {})", c, self.cast(t, d), self.cast(t, d));
        }
        if self.rel >= 14 && self.p(4) {
            let c = self.e(I, d);
            let (x, y, z) = (self.cast(t, d), self.cast(t, d), self.cast(t, d));
            let k = self.t.below(50);
            return if self.p(60) {
                let w = self.fresh("w");
                format!("(switch ({}) {{ case {}, {} -> {}; case 99 -> {{ {} {} = {}; yield {}; }} default -> {}; }})", c, k, k + 1, x, name(t), w, y, w, z)
            } else {
                let s = self.e(Str, 1);
                format!("(switch (String.valueOf({})) {{ case \"a\", \"Aa\", \"BB\" -> {}; case \"\" -> {}; default -> {}; }})", s, x, y, z)
            };
        }
        match t {
            I => match self.t.below(11) {
                0..=3 => {
                    let op = *self.t.pick(&["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", ">>>"]);
                    format!("({} {} {})", self.e(I, d), op, self.e(I, d))
                }
                4 => format!("(-{})", self.e(I, d)),
                5 => format!("{}[{}]", self.e(IA, d), self.e(I, d)),
                6 => format!("{}.length", self.e(IA, d)),
                7 => format!("{}.length()", self.e(Str, d)),
                8 => {
                    let f = *self.t.pick(&[J, F, D, C, S, B]);
                    format!("((int) {})", self.e(f, d))
                }
                9 => format!("Math.max({}, {})", self.e(I, d), self.e(I, d)),
                _ => format!("(~{})", self.e(I, d)),
            },
            J | F | D => {
                let n = name(t);
                match self.t.below(6) {
                    0..=2 => {
                        let op = if t == J && self.p(50) { *self.t.pick(&["&", "|", "^", "<<", ">>", ">>>"]) } else { *self.t.pick(&["+", "-", "*", "/", "%"]) };
                        let r = if op.len() > 1 { self.e(I, d) } else { self.e(t, d) };
                        format!("({} {} {})", self.e(t, d), op, r)
                    }
                    3 => format!("(-{})", self.e(t, d)),
                    _ => {
                        let f = *self.t.pick(&[I, J, F, D, C, B]);
                        format!("(({}) {})", n, self.e(f, d))
                    }
                }
            }
            B | C | S => {
                let f = *self.t.pick(&[I, J, D]);
                format!("(({}) {})", name(t), self.e(f, d))
            }
            Z => match self.t.below(8) {
                0..=2 => {
                    let op = *self.t.pick(&["<", "<=", ">", ">=", "==", "!="]);
                    let f = *self.t.pick(&[I, J, F, D, C]);
                    format!("({} {} {})", self.e(f, d), op, self.e(f, d))
                }
                3 => format!("({} && {})", self.e(Z, d), self.e(Z, d)),
                4 => format!("({} || {})", self.e(Z, d), self.e(Z, d)),
                5 => format!("(!{})", self.e(Z, d)),
                6 => format!("({} == null)", self.e(Obj, d)),
                _ => {
                    let c = *self.t.pick(&["String", "int[]", "Integer", "java.util.List<?>"]);
                    format!("({} instanceof {})", self.e(Obj, d), c)
                }
            },
            Str => match self.t.below(5) {
                0 | 1 => {
                    let n = 2 + self.t.us(4);
                    let mut v = vec![self.e(Str, d)];
                    for _ in 1..n {
                        let f = self.ty();
                        v.push(self.e(f, d.min(1)));
                    }
                    format!("({})", v.join(" + "))
                }
                2 => {
                    let f = *self.t.pick(&[I, J, F, D, Z, Obj]);
                    format!("String.valueOf({})", self.e(f, d))
                }
                3 => format!("String.format({}, {}, {})", self.string(), self.e(I, d), self.e(Obj, d)),
                _ => format!("((String) {})", self.e(Obj, d)),
            },
            IA => match self.t.below(3) {
                0 => format!("new int[{}]", self.e(I, d)),
                1 => format!("new int[] {{ {}, {} }}", self.e(I, d), self.e(I, d)),
                _ => format!("{}.clone()", self.e(IA, d)),
            },
            Obj => match self.t.below(9) {
                0 => {
                    let f = self.ty();
                    format!("((Object) {})", self.e(f, d))
                }
                1 => format!("new int[{}][{}][]", self.e(I, d), self.e(I, d)),
                2 => format!("new String[][] {{ {{ {} }}, {{}} }}", self.e(Str, d)),
                3 if self.rel >= 8 => {
                    let q = self.fresh("q");
                    let body = self.e(I, 1);
                    let _ = body;
                    let k = self.lit(I);
                    format!("((java.util.function.IntUnaryOperator) {} -> {} * {})", q, q, k)
                }
                4 if self.rel >= 8 => (*self.t.pick(&[
                    "((java.util.function.Supplier<Object>) Object::new)",
                    "((java.util.function.Function<String, Integer>) Integer::valueOf)",
                    "((java.util.function.IntFunction<int[]>) int[]::new)",
                    "((java.util.function.Function<String, Integer> & java.io.Serializable) String::length)",
                    "((Runnable & java.io.Serializable) () -> { })",
                    "((java.util.function.Supplier<String>) \"x\"::toString)",
                ]))
                .into(),
                5 => {
                    let x = self.e(Obj, d);
                    format!("java.util.Arrays.<Object>asList({}, {})", x, self.e(Str, d))
                }
                6 if !self.stat => format!("{}.this", self.me),
                7 => format!("new Object() {{ @Override public String toString() {{ return {}; }} }}", self.string()),
                _ => format!("(new Object[] {{ {} }})[0]", self.e(Obj, d)),
            },
        }
    }
    /// An expression that fits a conditional branch of the type.
    fn cast(&mut self, t: T, d: u32) -> String {
        match t {
            B | C | S | Obj | Str => format!("(({}) {})", name(t), self.e(t, d)),
            _ => self.e(t, d),
        }
    }

    fn anno_use(&mut self) -> String {
        if !self.annos || !self.p(35) {
            return String::new();
        }
        let a = self.t.below(4);
        let k = self.t.us(8);
        let arg = match a {
            3 => String::new(),
            _ => match k {
                0 => "".into(),
                1 => format!("(i = {}, s = {{ {}, {} }})", self.lit(I), self.string(), self.string()),
                2 => format!("(c = {}.class)", *self.t.pick(&["void", "int[]", "String", "Thread.State[][]"])),
                3 => "(e = Thread.State.BLOCKED)".into(),
                4 => format!("(n = @N({}))", self.lit(I)),
                5 => format!("(ns = {{ @N, @N({}) }}, j = {}, f = {}, d = {})", self.lit(I), self.lit(J), self.lit(F), self.lit(D)),
                6 => format!("(z = {}, b = {}, h = {}, ch = {})", self.lit(Z), self.lit(B), self.lit(S), self.lit(C)),
                _ => "(es = {}, cs = { byte.class, G.class })".to_string().replace('G', &self.me.clone()),
            },
        };
        let n = ["R", "K", "L", "N"][a as usize];
        format!("@{}{} ", n, arg)
    }
    fn tuse(&mut self) -> String {
        if !self.annos || self.rel < 8 || !self.p(35) {
            return String::new();
        }
        match self.t.below(4) {
            0 => "@U ".into(),
            1 => "@V ".into(),
            2 => format!("@U({}) ", self.string()),
            _ => "@U @V ".into(),
        }
    }
    fn tname(&mut self, t: T) -> String {
        match t {
            IA => format!("{}int {}[]", self.tuse(), self.tuse()),
            _ => format!("{}{}", self.tuse(), name(t)),
        }
    }

    fn block(&mut self, d: u32, o: &mut String, ind: &str) {
        let keep = self.vars.len();
        let n = 1 + self.t.us(4);
        for _ in 0..n {
            self.stmt(d, o, ind);
        }
        self.vars.truncate(keep);
    }

    fn stmt(&mut self, d: u32, o: &mut String, ind: &str) {
        self.budget -= 1;
        let inner = format!("{}  ", ind);
        let simple = d == 0 || self.budget < 0;
        let k = if simple { self.t.below(5) } else { self.t.below(24) };
        let dd = d.saturating_sub(1);
        match k {
            0 | 1 => {
                let t = self.ty();
                let v = self.fresh("v");
                let x = self.e(t, 3);
                if self.rel >= 10 && self.p(20) && x != "(null)" {
                    o.push_str(&format!("{}var {} = ({}) {};\n", ind, v, name(t), x));
                } else {
                    let a = if self.p(20) { self.anno_use() } else { String::new() };
                    let tn = self.tname(t);
                    o.push_str(&format!("{}{}{} {} = {};\n", ind, a, tn, v, x));
                }
                self.vars.push((v, t));
            }
            2 => {
                let t = *self.t.pick(&[I, I, J, D, F, Str, Z, IA, Obj]);
                if let Some(v) = self.var(t) {
                    let x = self.e(t, 3);
                    let op = match t {
                        I => *self.t.pick(&["=", "+=", "-=", "*=", "<<=", "^="]),
                        J | F | D => *self.t.pick(&["=", "+=", "*="]),
                        Str => *self.t.pick(&["=", "+="]),
                        _ => "=",
                    };
                    o.push_str(&format!("{}{} {} {};\n", ind, v, op, x));
                }
            }
            3 => {
                if let Some(v) = self.var(I) {
                    match self.t.below(4) {
                        0 => o.push_str(&format!("{}{}++;\n", ind, v)),
                        1 => o.push_str(&format!("{}--{};\n", ind, v)),
                        2 => o.push_str(&format!("{}{} += {};\n", ind, v, self.t.below(70000) as i64 - 35000)),
                        _ => o.push_str(&format!("{}{} -= 7;\n", ind, v)),
                    }
                }
            }
            4 => {
                if let Some(v) = self.var(IA) {
                    let (i, x) = (self.e(I, 2), self.e(I, 2));
                    let op = *self.t.pick(&["=", "+=", ">>>="]);
                    o.push_str(&format!("{}{}[{}] {} {};\n", ind, v, i, op, x));
                } else {
                    let x = self.e(Obj, 2);
                    o.push_str(&format!("{}String.valueOf({});\n", ind, x));
                }
            }
            5..=7 => {
                let c = self.e(Z, 3);
                o.push_str(&format!("{}if ({}) {{\n", ind, c));
                self.block(dd, o, &inner);
                if self.p(50) {
                    o.push_str(&format!("{}}} else {{\n", ind));
                    self.block(dd, o, &inner);
                }
                o.push_str(&format!("{}}}\n", ind));
            }
            8 | 9 => {
                let i = self.fresh("i");
                let lab = self.fresh("lab");
                let n = self.e(I, 2);
                self.loops += 1;
                match self.t.below(4) {
                    0 => {
                        o.push_str(&format!("{}{}: for (int {} = 0; {} < {}; {}++) {{\n", ind, lab, i, i, n, i));
                        let keep = self.vars.len();
                        self.vars.push((i, I));
                        self.block(dd, o, &inner);
                        if self.p(40) {
                            let c = self.e(Z, 1);
                            let w = if self.t.flip() { "break" } else { "continue" };
                            o.push_str(&format!("{}if ({} | {} == 77) {} {};\n", inner, c, self.vars[0].0.clone().len(), w, lab));
                        }
                        self.vars.truncate(keep);
                        o.push_str(&format!("{}}}\n", ind));
                    }
                    1 => {
                        let a = self.e(IA, 2);
                        o.push_str(&format!("{}for (int {} : {}) {{\n", ind, i, a));
                        let keep = self.vars.len();
                        self.vars.push((i, I));
                        self.block(dd, o, &inner);
                        self.vars.truncate(keep);
                        o.push_str(&format!("{}}}\n", ind));
                    }
                    2 => {
                        let c = self.e(Z, 2);
                        o.push_str(&format!("{}int {} = {};\n{}while ({} && {}-- > 0) {{\n", ind, i, n, ind, c, i));
                        self.block(dd, o, &inner);
                        o.push_str(&format!("{}}}\n", ind));
                    }
                    _ => {
                        let s = self.e(Str, 1);
                        o.push_str(&format!("{}for (Object {} : java.util.Arrays.<Object>asList({}, 1)) {{\n", ind, i, s));
                        let keep = self.vars.len();
                        self.vars.push((i, Obj));
                        self.block(dd, o, &inner);
                        self.vars.truncate(keep);
                        o.push_str(&format!("{}}}\n", ind));
                    }
                }
                self.loops -= 1;
            }
            10 | 11 => {
                let c = self.e(I, 2);
                o.push_str(&format!("{}switch ({}) {{\n", ind, c));
                let n = self.t.us(7);
                let sparse = self.t.flip();
                let base = self.t.below(40) as i64 - 20;
                for k in 0..n as i64 {
                    let v = if sparse { base + k * k * 100_003 } else { base + k };
                    o.push_str(&format!("{}case {}:\n", ind, v));
                    self.block(dd, o, &inner);
                    if self.p(70) {
                        o.push_str(&format!("{}break;\n", inner));
                    }
                    // variables of one group are not assigned in the next
                }
                if self.p(70) {
                    o.push_str(&format!("{}default:\n", ind));
                    self.block(dd, o, &inner);
                }
                o.push_str(&format!("{}}}\n", ind));
            }
            12 => {
                let c = self.e(Str, 2);
                o.push_str(&format!("{}switch ({} + \"\") {{\n", ind, c));
                for s in ["\"a\"", "\"Aa\"", "\"BB\"", "\"\\u00e9\\0\""].iter().take(1 + self.t.us(4)) {
                    o.push_str(&format!("{}case {}:\n", ind, s));
                    self.block(dd, o, &inner);
                    o.push_str(&format!("{}break;\n", inner));
                }
                o.push_str(&format!("{}}}\n", ind));
            }
            13 => {
                o.push_str(&format!("{}switch (Thread.currentThread().getState()) {{\n{}case NEW:\n", ind, ind));
                self.block(dd, o, &inner);
                o.push_str(&format!("{}break;\n{}case BLOCKED: default: }}\n", inner, ind));
            }
            14 | 15 => {
                o.push_str(&format!("{}try {{\n", ind));
                self.block(dd, o, &inner);
                let x = self.fresh("x");
                let fin = self.p(50);
                let catches = if fin { self.t.us(3) } else { 1 + self.t.us(2) };
                o.push_str(&format!("{}}}", ind));
                if catches > 0 {
                    let u = self.tuse();
                    o.push_str(&format!(" catch ({}IllegalStateException | ArithmeticException {}) {{\n", u, x));
                    self.block(dd, o, &inner);
                    o.push_str(&format!("{}}}", ind));
                }
                if catches > 1 {
                    o.push_str(&format!(" catch (final RuntimeException {}) {{\n", x));
                    let keep = self.vars.len();
                    self.vars.push((x, Obj));
                    // a final variable may be read only
                    let e = self.e(Z, 2);
                    self.vars.truncate(keep);
                    o.push_str(&format!("{}if ({}) throw new IllegalArgumentException({});\n", inner, e, self.string()));
                    self.block(dd, o, &inner);
                    o.push_str(&format!("{}}}", ind));
                }
                if fin {
                    o.push_str(" finally {\n");
                    self.block(dd.min(1), o, &inner);
                    o.push_str(&format!("{}}}", ind));
                }
                o.push('\n');
            }
            16 => {
                let x = self.e(Obj, 1);
                o.push_str(&format!("{}synchronized (String.valueOf({})) {{\n", ind, x));
                self.block(dd, o, &inner);
                o.push_str(&format!("{}}}\n", ind));
            }
            17 => {
                let r = self.fresh("r");
                let u = self.tuse();
                o.push_str(&format!("{}try ({}StringReader {} = new StringReader({})) {{\n", ind, u, r, self.string()));
                self.block(dd, o, &inner);
                o.push_str(&format!("{}}} catch (Exception {}e) {{ }}\n", ind, r));
            }
            18 if self.rel >= 8 => {
                let (q, f, x) = (self.fresh("q"), self.fresh("f"), self.fresh("x"));
                let init = self.e(I, 2);
                let keep = std::mem::take(&mut self.vars);
                self.vars.push((q.clone(), I));
                self.vars.push((x.clone(), I));
                // reads only: expressions do not assign
                let body = self.e(I, 3);
                self.vars = keep;
                o.push_str(&format!("{}final int {} = {};\n{}java.util.function.IntUnaryOperator {} = {} -> {};\n", ind, q, init, ind, f, x, body));
                if self.p(50) {
                    let g = self.fresh("g");
                    o.push_str(&format!("{}Runnable {} = () -> {{ int z = {}.applyAsInt({}); z++; String.valueOf(z + {}); }};\n", ind, g, f, q, q));
                }
            }
            19 => {
                let l = self.fresh("Local");
                let (a, b) = (self.lit(I), self.e(I, 1));
                let _ = b;
                let u = self.tuse();
                o.push_str(&format!("{}class {} extends {}Object implements Runnable {{ int w = {}; public void run() {{ w++; }} }}\n{}new {}().run();\n", ind, l, u, a, ind, l));
            }
            20 if self.rel >= 16 => {
                let x = self.e(Obj, 2);
                let s = self.fresh("s");
                o.push_str(&format!("{}if ({} instanceof String {} && {}.length() > 2) {{ String.valueOf({}); }}\n", ind, x, s, s, s));
            }
            21 => {
                let v = self.fresh("v");
                let (u1, u2) = (self.tuse(), self.tuse());
                o.push_str(&format!("{}java.util.Map<{}String, ? extends {}List<? super Integer>> {} = null;\n{}String.valueOf({});\n", ind, u1, u2, v, ind, v));
            }
            22 => {
                let c = self.e(Z, 2);
                o.push_str(&format!("{}assert {} : {};\n", ind, c, self.string()));
            }
            _ => {
                let c = self.e(Z, 2);
                o.push_str(&format!("{}do {{\n", ind));
                self.block(dd, o, &inner);
                let i = self.var(I);
                let i = i.map(|v| format!("{}++ < 5", v)).unwrap_or_else(|| "hashCodeOf() < 5".into());
                o.push_str(&format!("{}}} while ({} & {});\n", ind, c, i));
            }
        }
    }

    fn method(&mut self, o: &mut String, kind: u32) {
        let stat = self.p(50);
        self.stat = stat;
        self.vars.clear();
        self.budget = *self.t.pick(&[20, 60, 150]);
        let r = self.ty();
        let n = self.t.us(5);
        let m = self.fresh("m");
        let mut ps = vec![];
        for k in 0..n {
            let t = self.ty();
            let v = self.fresh("p");
            let a = self.anno_use();
            if k + 1 == n && self.p(15) {
                ps.push(format!("{}{}int... {}", a, self.tuse(), v));
                self.vars.push((v, IA));
            } else {
                let f = if self.p(10) { self.fresh("unused") } else { String::new() };
                let _ = f;
                let tn = self.tname(t);
                ps.push(format!("{}{} {}", a, tn, v));
                self.vars.push((v, t));
            }
        }
        let a = self.anno_use();
        let acc = *self.t.pick(&["public ", "private ", "protected ", ""]);
        let acc = if kind == 1 && !(acc == "private " && self.rel >= 9) { "" } else { acc };
        let mut mods = String::from(acc);
        if stat {
            mods.push_str("static ");
        } else if kind == 1 && acc != "private " {
            mods.push_str("default ");
        } else if kind == 0 && self.p(15) {
            mods.push_str("final ");
        }
        if kind == 0 && self.p(10) {
            mods.push_str("synchronized ");
        }
        if self.p(8) && self.rel < 17 {
            mods.push_str(if kind == 0 { "strictfp " } else { "" });
        }
        let gen = if self.p(15) {
            let u = self.tuse();
            format!("<{}X extends {}Comparable<X> & java.io.Serializable> ", u, self.tuse())
        } else {
            String::new()
        };
        let thr = if self.p(20) { format!(" throws {}IOException, IllegalStateException", self.tuse()) } else { String::new() };
        if self.p(8) {
            o.push_str("  /** @deprecated x */ @Deprecated\n");
        }
        let tn = self.tname(r);
        o.push_str(&format!("  {}{}{}{} {}({}){} {{\n", a, mods, gen, tn, m, ps.join(", "), thr));
        for _ in 0..1 + self.t.us(5) {
            self.stmt(3, o, "    ");
        }
        let x = self.e(r, 3);
        o.push_str(&format!("    return {};\n  }}\n", x));
    }

    fn field(&mut self, o: &mut String, kind: u32) {
        let t = self.ty();
        let f = self.fresh("f");
        let a = self.anno_use();
        let m = if kind == 1 {
            ""
        } else {
            *self.t.pick(&["static final ", "final ", "static ", "private volatile ", "protected transient ", "public static final "])
        };
        let m = if kind == 2 { "static final " } else { m };
        let l = self.lit(t);
        let dep = if self.p(5) { "@Deprecated " } else { "" };
        let tn = self.tname(t);
        o.push_str(&format!("  {}{}{}{} {} = {};\n", dep, a, m, tn, f, l));
    }
}

/// `n` pieces, joined.
fn list(n: usize, sep: &str, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(sep)
}

impl G<'_> {
    /// Members of unusual size: many of something, deep nesting, long texts.
    fn unusual(&mut self, o: &mut String, preview: bool) {
        self.next += 1;
        let u = self.next;
        let n = *self.t.pick(&[3usize, 9, 17, 33, 40, 65, 130, 256, 300]);
        let few = n.min(40);
        let r = self.rel;
        let k = self.t.below(28);
        let s = match k {
            0 if r >= 16 => {
                let c = n.min(250);
                let ty = *self.t.pick(&["int", "String", "Object", "byte"]);
                format!("record Rec{u}({}) {{ }}\n", list(c, ", ", |i| format!("{ty} a{i}")))
            }
            1 => {
                let cases = list(n, " ", |i| format!("case C{}: x += {i}; break;", n - 1 - i));
                format!(
                    "enum En{u} {{ {} }}\n  static int sw{u}(En{u} e, int x) {{ switch (e) {{ {cases} default: x--; }} return x; }}\n",
                    list(n, ", ", |i| format!("C{i}"))
                )
            }
            2 => {
                let odd = *self.t.pick(&["\"-\"", "\"\\1\"", "\"\\2\"", "\"\""]);
                let ty = *self.t.pick(&["int", "long", "String", "Object", "char"]);
                format!("static String cat{u}({ty} a, String b) {{ return \"\" + {}; }}\n", list(n, " + ", |i| if i % 3 == 0 { odd.to_string() } else if i % 2 == 0 { "a".into() } else { "b".into() }))
            }
            3 if self.annos => {
                let a = *self.t.pick(&["R", "K"]);
                let v = match self.t.below(4) {
                    0 => format!("s = {{ {} }}", list(n, ", ", |i| format!("\"s{i}\""))),
                    1 => format!("ns = {{ {} }}", list(n, ", ", |i| format!("@N({i})"))),
                    2 => format!("cs = {{ {} }}", list(n, ", ", |i| format!("int{}.class", "[]".repeat(i % 200)))),
                    _ => format!("es = {{ {} }}", list(n, ", ", |i| format!("Thread.State.{}", ["NEW", "BLOCKED", "RUNNABLE"][i % 3]))),
                };
                format!("@{a}({v}) static void an{u}({}) {{ }}\n", list(few, ", ", |i| format!("@{a}(i = {i}) int p{i}")))
            }
            4 => {
                // annotations within annotations
                let d = few.min(10);
                let mut v = format!("@AA{u}_0({n})");
                for i in 1..d {
                    v = format!("@AA{u}_{i}({{ {v} }})");
                }
                let ret = *self.t.pick(&["RUNTIME", "CLASS"]);
                let types = list(d, "\n  ", |i| {
                    let t = if i == 0 { "int".to_string() } else { format!("AA{u}_{}[]", i - 1) };
                    format!("@java.lang.annotation.Retention(java.lang.annotation.RetentionPolicy.{ret}) @interface AA{u}_{i} {{ {t} value(); }}")
                });
                format!("{types}\n  {v} static int deep{u};\n").replace(&format!("deep{u};"), &format!("deep{u} = 0;"))
            }
            5 => list(n, "  ", |i| format!("static void m{u}_{i}(int a{i}) {{ }}\n")),
            6 => list(n, "  ", |i| format!("static {} f{u}_{i} = {};\n", ["int", "long", "byte", "double"][i % 4], i % 100)),
            7 => {
                let c = few;
                format!("{}\n  static abstract class Im{u} implements {} {{ }}\n", list(c, " ", |i| format!("interface If{u}_{i} {{ }}")), list(c, ", ", |i| format!("If{u}_{i}")))
            }
            8 => {
                let c = few.min(25);
                format!(
                    "{}\n  static void th{u}(int x) throws {} {{ try {{ hashCodeOf(); }} catch ({} e) {{ x++; }} }}\n",
                    list(c, " ", |i| format!("static class Ex{u}_{i} extends RuntimeException {{ }}")),
                    list(c, ", ", |i| format!("Ex{u}_{i}")),
                    list(c, " | ", |i| format!("Ex{u}_{i}"))
                )
            }
            9 => {
                let step = *self.t.pick(&[1i64, 1, 2, 1000, 65537]);
                let from = *self.t.pick(&[0i64, -5, -1_000_000, 2_000_000_000 - 300 * 65537]);
                let c = n * *self.t.pick(&[1usize, 8]);
                format!("static int sw{u}(int x) {{ switch (x) {{ {} }} return x; }}\n", list(c, " ", |i| format!("case {}: x += {i}; {}", from + i as i64 * step, if i % 3 == 0 { "break;" } else { "" })))
            }
            10 => format!("static int ss{u}(String x) {{ switch (x) {{ {} default: return 1; }} }}\n", list(n, " ", |i| format!("case \"k{i}\": return {};", i * 1000))),
            11 => {
                // assigning such arrays to one another would take the compiler forever
                let d = n.min(250);
                let c = d.min(*self.t.pick(&[1usize, 2, 30, 250]));
                let (br, dims) = ("[]".repeat(d), format!("{}{}", "[2]".repeat(c), "[]".repeat(d - c)));
                format!("static long{br} arr{u} = null;\n  static Object oo{u}(Object o) {{ return o instanceof long{br} ? new long{dims} : null; }}\n")
            }
            12 => {
                let c = n.min(250);
                format!(
                    "static int mp{u}({}) {{ return p0; }}\n  static int mq{u}() {{ return mp{u}({}); }}\n",
                    list(c, ", ", |i| format!("{} p{i}", if i == 0 { "int" } else { ["byte", "int[]", "String", "Object[][]"][i % 4] })),
                    list(c, ", ", |i| (if i == 0 { "7" } else { ["(byte) 1", "null", "\"x\"", "null"][i % 4] }).to_string())
                )
            }
            13 => {
                let c = *self.t.pick(&["x", "\u{e9}", "\u{4e2d}", "\u{1f600}", "\\0", "\\ud800"]);
                let len = *self.t.pick(&[100usize, 2000, 9000]);
                format!("static final String LS{u} = \"{}\";\n  static Object ls{u}() {{ return LS{u} + \"{}\".length(); }}\n", c.repeat(len), c.repeat(len / 3 + 1))
            }
            14 => {
                let d = few.min(20);
                format!("static int tr{u}(int x) {{ {} x++; {} return x; }}\n", "try { ".repeat(d), list(d, " ", |i| format!("}} catch (RuntimeException e{i}) {{ x += {i}; }}")))
            }
            15 => {
                let d = few.min(12);
                let st = if self.t.flip() { "static " } else { "" };
                let st = if self.me.is_empty() { "static " } else { st };
                let _ = st;
                format!("{}int z;{}\n", list(d, " ", |i| format!("static class De{u}_{i} {{")), " }".repeat(d))
            }
            16 => {
                let w = self.t.pick(&["n", "\u{e9}", "\u{540d}"]).repeat(n * *self.t.pick(&[1usize, 20]));
                format!("static int q{u}{w}(int v{w}) {{ int l{w} = v{w}; {{ long k{w} = l{w}; l{w} += k{w}; }} return l{w}; }}\n")
            }
            17 if r >= 8 => {
                let c = few;
                let ser = if self.p(30) { "(java.util.function.IntUnaryOperator & java.io.Serializable) " } else { "" };
                format!("static void la{u}(int a, int[] b) {{ java.util.function.IntUnaryOperator f; {} }}\n", list(c, " ", |i| format!("f = {ser}x -> x + {};", ["1", "a", "b[a]", "b.length"][i % 4])))
            }
            18 => {
                let c = n.min(200);
                format!("static int fr{u}(int x, double d, Object q) {{ {} return x; }}\n", list(c, " ", |i| match i % 4 {
                    0 => format!("if (x > {i}) {{ long l{i} = x; x += l{i}; }}"),
                    1 => format!("while (d > x) {{ d--; Object y{i} = q; x = y{i} == q ? 1 : 2; }}"),
                    2 => format!("int z{i} = x; if (q == null) x = z{i};"),
                    _ => format!("x += q == null ? d > {i} ? 3 : 4 : 5;"),
                }))
            }
            19 => {
                let d = few;
                let w = *self.t.pick(&["List<", "java.util.Map<String, ", "List<? extends ", "List<? super ", "java.util.Map.Entry<int[], "]);
                format!("static {}String{} ge{u}(Object o) {{ return null; }}\n", w.repeat(d), ">".repeat(d))
            }
            20 if preview => {
                let c = few.min(9);
                format!(
                    "static int ps{u}(Object o) {{ return switch (o) {{ {} case String s && s.length() > 3 -> 5; case Integer i && i > 3 -> i; case null -> 6; default -> 7; }}; }}\n",
                    list(c, " ", |i| format!("case int[]{} a{i} -> {i};", "[]".repeat(i)))
                )
            }
            21 if r >= 8 && self.annos => {
                let d = few;
                let a = *self.t.pick(&["@U", "@V", "@U(\"x\")", "@U @V"]);
                match self.t.below(4) {
                    0 => format!("static {}{a} String{} ta{u}() {{ return null; }}\n", "List<".repeat(d), ">".repeat(d)),
                    1 => format!("static {}? extends {a} String{} tb{u}(int x) {{ return null; }}\n", "List<".repeat(d), ">".repeat(d)),
                    2 => format!("static String {} tc{u} = null;\n", format!("{a} []").repeat(d)),
                    _ => format!("static <{}> void td{u}(Object o) {{ }}\n", list(d, ", ", |i| format!("{a} T{i} extends {a} Comparable<{a} T{i}> & {a} Serializable"))),
                }
            }
            22 => list(n, "  ", |i| match i % 4 {
                0 => format!("static final int K{u}_{i} = {};\n", i * 77),
                1 => format!("static final long K{u}_{i} = {}L << 33;\n", i),
                2 => format!("static final String K{u}_{i} = \"k{i}\";\n"),
                _ => format!("static final float K{u}_{i} = {i}.5f;\n"),
            }),
            23 if r >= 17 => {
                let c = few;
                format!("sealed interface Se{u} {{ }}\n  {}\n", list(c, " ", |i| format!("record Sr{u}_{i}(int x) implements Se{u} {{ }}")))
            }
            24 => format!("@interface Ad{u} {{ {} }}\n", list(n, " ", |i| match i % 6 {
                0 => format!("int e{i}() default {i};"),
                1 => format!("String e{i}() default \"{i}\";"),
                2 => format!("Class<?> e{i}() default int{}.class;", "[]".repeat(i % 9)),
                3 => format!("Thread.State e{i}() default Thread.State.NEW;"),
                4 => format!("Override e{i}() default @Override;"),
                _ => format!("double[] e{i}() default {{ {} }};", list(i % 20, ", ", |j| format!("{j}.5"))),
            })),
            25 => {
                // as many values on the stack
                let c = n.min(200);
                format!("static int st{u}(int a) {{ return {}a{}; }}\n", "(a + ".repeat(c), ")".repeat(c))
            }
            26 => {
                let c = n;
                format!("static Object bi{u}(int x) {{ Object[] a = {{ {} }}; return a; }}\n", list(c, ", ", |i| match i % 5 {
                    0 => format!("{i}"),
                    1 => format!("\"{i}\""),
                    2 => format!("{i}L"),
                    3 => format!("{i}.25"),
                    _ => "int[].class".to_string(),
                }))
            }
            _ => {
                // one name for many descriptors
                list(n.min(256), "  ", |i| format!("static {} ov{u}({}) {{ {} }}\n", ["void", "int"][i % 2], list(8, ", ", |j| format!("{} p{j}", ["int", "long"][i >> j & 1])), ["", "return 1;"][i % 2]))
            }
        };
        o.push_str("  ");
        o.push_str(&s);
    }
}

const COMPONENTS: &[&str] = &[
    "values", "valueOf", "value", "name", "ordinal", "length", "size", "get", "run", "equals", "main", "component", "names", "methods", "fields", "this$0", "x_", "é",
];
const ANNOTATIONS: &str = "  @interface N { int value() default 5; }
  @java.lang.annotation.Retention(java.lang.annotation.RetentionPolicy.RUNTIME)
  @interface R { int i() default -1; String[] s() default {}; Class<?> c() default Object.class; Thread.State e() default Thread.State.NEW;
    N n() default @N; N[] ns() default {@N(1), @N}; long j() default 1L; float f() default 1f; double d() default 0x1p-1074; boolean z() default true;
    byte b() default 1; short h() default 2; char ch() default '\\uffff'; Thread.State[] es() default { Thread.State.NEW }; Class<?>[] cs() default {}; }
  @java.lang.annotation.Retention(java.lang.annotation.RetentionPolicy.CLASS)
  @interface K { int i() default -1; String[] s() default {}; Class<?> c() default Object.class; Thread.State e() default Thread.State.NEW;
    N n() default @N; N[] ns() default {@N(1), @N}; long j() default 1L; float f() default 1f; double d() default 1; boolean z() default true;
    byte b() default 1; short h() default 2; char ch() default 'x'; Thread.State[] es() default { Thread.State.NEW }; Class<?>[] cs() default {}; }
  @java.lang.annotation.Retention(java.lang.annotation.RetentionPolicy.SOURCE)
  @interface L { int i() default -1; String[] s() default {}; Class<?> c() default Object.class; Thread.State e() default Thread.State.NEW;
    N n() default @N; N[] ns() default {}; long j() default 1L; float f() default 1f; double d() default 1; boolean z() default true;
    byte b() default 1; short h() default 2; char ch() default 'x'; Thread.State[] es() default { Thread.State.NEW }; Class<?>[] cs() default {}; }
";
const TYPE_ANNOTATIONS: &str = "  @java.lang.annotation.Retention(java.lang.annotation.RetentionPolicy.RUNTIME)
  @java.lang.annotation.Target({java.lang.annotation.ElementType.TYPE_USE, java.lang.annotation.ElementType.TYPE_PARAMETER})
  @interface U { String value() default \"\"; }
  @java.lang.annotation.Target({java.lang.annotation.ElementType.TYPE_USE, java.lang.annotation.ElementType.TYPE_PARAMETER})
  @interface V { }
";

fn module(t: &mut Tape, k: u64, rel: u32) -> (String, String) {
    let mut s = format!("// opts: --release {}{}\n", rel, if t.chance(1, 3) { " -g:none" } else { "" });
    if t.chance(1, 4) {
        s.push_str("@Deprecated\n");
    }
    s.push_str(&format!("{}module m{}.x {{\n", if t.chance(1, 3) { "open " } else { "" }, k));
    for r in ["java.logging", "java.xml", "java.sql", "jdk.compiler"] {
        if t.flip() {
            let m = *t.pick(&["", "transitive ", "static ", "static transitive "]);
            s.push_str(&format!("  requires {}{};\n", m, r));
        }
    }
    for u in ["java.lang.Runnable", "java.util.Map.Entry", "java.util.function.Supplier"] {
        if t.chance(1, 3) {
            s.push_str(&format!("  uses {};\n", u));
        }
    }
    s.push_str("}\n");
    (format!("module-info{}.java", k), s)
}

/// Name and text of a source file; its first line names the compiler's options.
pub fn program(t: &mut Tape, k: u64) -> (String, String) {
    let rel = *t.pick(&[17u32, 8, 11, 17, 7, 9, 14, 16, 17]);
    if rel >= 9 && t.chance(1, 25) {
        return module(t, k, rel);
    }
    let me = format!("G{}", k);
    let mut opts = format!("--release {}", rel);
    opts.push_str(match t.below(4) {
        0 => " -g",
        1 => " -g:none",
        2 => " -g:vars",
        _ => "",
    });
    if rel >= 8 && t.flip() {
        opts.push_str(" -parameters");
    }
    if rel >= 9 && t.chance(1, 4) {
        opts.push_str(if t.flip() { " -XDstringConcat=inline" } else { " -XDstringConcat=indy" });
    }
    let preview = rel == 17 && t.chance(1, 4);
    if preview {
        opts.push_str(" --enable-preview");
    }
    let mut o = format!("// opts: {}\n", opts);
    if t.chance(2, 3) {
        o.push_str(&format!("package p{}.q;\n", t.below(3)));
    }
    let annos = t.chance(2, 3);
    o.push_str("import java.util.List;\nimport java.io.*;\n");
    let mut g = G { t, rel, me: me.clone(), vars: vec![], next: 0, loops: 0, stat: false, annos, budget: 0, used: vec![] };
    // 0 class, 1 interface, 2 enum or record
    let kind = *g.t.pick(&[0u32, 0, 0, 0, 1, 2, 2]);
    let kind = if kind == 1 && rel < 8 { 0 } else { kind };
    let record = kind == 2 && rel >= 16 && g.t.chance(3, 4);
    let sealed = kind == 0 && rel >= 17 && g.t.chance(1, 3);
    let a = if annos { g.anno_use().replace("@R", &format!("@{}.R", me)).replace("@K", &format!("@{}.K", me)).replace("@L", &format!("@{}.L", me)) } else { String::new() };
    let a = a.replace("@N", &format!("@{}.N", me));
    o.push_str(&a);
    match (kind, record) {
        (1, _) => o.push_str(&format!("public interface {}<A, B2 extends Number & Comparable<B2>> {{\n  void abs();\n", me)),
        (2, true) => {
            let (x, y, z) = (g.ty(), g.ty(), g.ty());
            let ax = g.anno_use();
            let u = g.tuse();
            let mut names: Vec<String> = ["x", "y9", "z", "w"].iter().map(|s| s.to_string()).collect();
            for k in 0..names.len() {
                if g.t.flip() {
                    let w = if g.t.flip() { g.t.pick(COMPONENTS).to_string() } else { g.familiar().unwrap_or_else(|| "zz".into()) };
                    if !names.contains(&w) {
                        g.used.push(w.clone());
                        names[k] = w;
                    }
                }
            }
            let parts = [
                format!("{}{} {}", ax, name(x), names[0]),
                format!("{} {}", name(y), names[1]),
                format!("List<{}A> {}", u, names[2]),
                format!("{}... {}", name(z), names[3]),
            ];
            let from = if g.t.chance(1, 4) { g.t.us(5) } else { 0 };
            o.push_str(&format!("public record {}<A>({}) implements java.io.Serializable {{\n", me, parts[from..].join(", ")));
            if from == 0 && g.t.flip() {
                o.push_str(&format!("  public {} {{ String.valueOf({}); }}\n", me, names[0]));
            }
        }
        (2, false) => {
            o.push_str(&format!("public enum {} implements Runnable {{ A1, @Deprecated B1 {{ public void run() {{ }} }}, C1;\n  public void run() {{ }}\n", me));
        }
        _ => {
            let u = "";
            let sup = *g.t.pick(&["", " extends java.util.AbstractList<String>", " extends Thread"]);
            let list = sup.contains("AbstractList");
            if sealed {
                o.push_str(&format!("public sealed class {}<A>{}{} permits {}.P1, {}.P2 {{\n  static final class P1 extends {}<String> {{ }}\n  static non-sealed class P2 extends {}<Integer> {{ }}\n", me, u, sup, me, me, me, me));
            } else {
                o.push_str(&format!("public class {}<A extends Object & Comparable<? super A>>{} {{\n", me, sup));
            }
            if list {
                o.push_str("  public String get(int i) { return null; }\n  public int size() { return 0; }\n");
            }
        }
    }
    o.push_str("  static int hashCodeOf() { return 9; }\n");
    if annos {
        o.push_str(ANNOTATIONS);
        if rel >= 8 {
            o.push_str(TYPE_ANNOTATIONS);
        }
    }
    for _ in 0..g.t.us(6) {
        g.field(&mut o, kind);
    }
    if kind == 0 && !sealed && g.p(40) {
        o.push_str(&format!("  class Inner<Q> {{ A a; Q q; class Deep {{ A b = a; }} private int secret = {}; }}\n  int peek(Inner<?> i) {{ return i.secret++; }}\n", g.lit(I)));
    }
    if g.p(30) {
        o.push_str(&format!("  static class Nested {{ private static long hidden = {}; static void poke() {{ hidden += 3; }} }}\n", g.lit(J)));
        o.push_str("  interface Small<Y extends Exception> { Y make(int a, String... b) throws Y; }\n");
    }
    if kind != 1 && g.p(40) {
        let mut b = String::new();
        g.vars.clear();
        g.stat = true;
        g.budget = 40;
        g.block(2, &mut b, "    ");
        o.push_str(&format!("  static {{\n{}  }}\n", b));
    }
    if kind == 0 && !sealed && g.p(40) {
        let mut b = String::new();
        g.vars.clear();
        g.stat = false;
        g.vars.push(("px".into(), I));
        g.vars.push(("py".into(), Str));
        g.budget = 40;
        g.block(2, &mut b, "    ");
        o.push_str(&format!("  {}(int px, String py) {{\n    super();\n{}  }}\n  {}() {{ this(3, \"x\"); }}\n", me, b, me));
    }
    for _ in 0..1 + g.t.us(6) {
        g.method(&mut o, kind);
    }
    // unusual sizes
    if rel >= 8 || kind == 0 {
        for _ in 0..*g.t.pick(&[0, 0, 0, 1, 2]) {
            g.unusual(&mut o, preview);
        }
    }
    if kind == 0 && g.p(4) {
        o.push_str("  static int big(int x, int[] a) {\n    for (int i = 0; i < x; i++) {\n");
        for k in 0..2600 {
            o.push_str(&format!("      x = x * 31 + a[{}] ^ {};\n", k % 7, 70_000 + k));
        }
        o.push_str("    }\n    return x > 3 ? x : -x;\n  }\n");
    }
    if kind == 0 && g.p(6) {
        o.push_str("  static double wide(int p) {\n");
        let n = 140 + g.t.us(60);
        for k in 0..n {
            o.push_str(&format!("    double d{} = p + {}.5; \n", k, k));
        }
        o.push_str(&format!("    int i = 0; i += 1000; i++; long j = i; float f = i; Object q = null; q = f; for (;i < 4; i += 300) {{ j++; f++; }}\n    return d{} + j + f + i;\n  }}\n", n - 1));
    }
    if kind == 0 && g.p(6) {
        let n = 300;
        let v: Vec<String> = (0..n).map(|k| format!("\"s{}\"", k)).collect();
        let w: Vec<String> = (0..n).map(|k| format!("{}.25", k)).collect();
        let x: Vec<String> = (0..n).map(|k| format!("{}", 100_000 + k)).collect();
        o.push_str(&format!("  static final String[] MANY = {{ {} }};\n  static final double[] ND = {{ {} }};\n  static final int[] NI = {{ {} }};\n", v.join(", "), w.join(", "), x.join(", ")));
        o.push_str("  static Class<?> kls() { return java.util.TreeMap.class; }\n");
    }
    o.push_str("}\n");
    (format!("{}.java", me), o)
}
