//! Words and numbers that generators use now and then: names every Java program knows, and the
//! literals of the parser's own sources (what code compares with is what it may get wrong).
//! They only steer the search; no verdict depends on them.

use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

pub struct Dict {
    pub words: Vec<String>,
    /// usable as unqualified names
    pub idents: Vec<String>,
    /// usable as class names
    pub binaries: Vec<String>,
    pub nums: Vec<u64>,
}

const KNOWN: &[&str] = &[
    "java/lang/Object", "java/lang/Throwable", "java/lang/Exception", "java/lang/RuntimeException", "java/lang/Error", "java/lang/String",
    "java/lang/Enum", "java/lang/Record", "java/lang/Class", "java/lang/Cloneable", "java/io/Serializable", "java/lang/Integer",
    "java/lang/invoke/MethodHandle", "java/lang/invoke/VarHandle", "java/lang/invoke/MethodType", "java/lang/invoke/LambdaMetafactory",
    "java/lang/invoke/StringConcatFactory", "java/lang/annotation/Annotation", "java/lang/Deprecated", "java/lang/Override", "java/lang/Void",
    "java/lang/Package", "java/lang/Module", "java/base", "java/util/List", "java/lang/AssertionError", "java/lang/NoClassDefFoundError",
    "kotlin/Metadata", "module-info", "package-info", "java.base", "values", "valueOf", "value", "name", "length", "ordinal", "toString",
    "hashCode", "equals", "main", "run", "get", "finalize", "clone", "getClass", "serialVersionUID", "$VALUES", "this$0", "val$x", "access$000",
    "lambda$main$0", "metafactory", "makeConcatWithConstants", "$assertionsDisabled", "INSTANCE", "Object", "String", "T", "S", "int", "void",
    "init", "clinit", "null", "true", "invoke", "invokeExact", "a$b", "Outer$Inner", "Outer$1", "_", "$", "java", "UTF8", "Main.java", "1.0", "11",
    "<init>", "<clinit>", "()V", "(Ljava/lang/Object;)V", "([Ljava/lang/String;)V", "Ljava/lang/Object;", "Ljava/lang/String;", "\u{1}", "\u{1}\u{2}",
];

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn get() -> &'static Dict {
    DICT.get_or_init(|| Dict::of(""))
}
pub fn init(text: &str) {
    let _ = DICT.set(Dict::of(text));
}

impl Dict {
    /// From the text made by `scan`, with the names known to all.
    fn of(text: &str) -> Dict {
        let mut words: Vec<String> = KNOWN.iter().map(|s| s.to_string()).collect();
        let mut nums: Vec<u64> = vec![];
        for l in text.split(',') {
            if let Some(h) = l.strip_prefix('w') {
                let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(h.get(2 * i..2 * i + 2)?, 16).ok()).collect();
                if let Ok(s) = String::from_utf8(b) {
                    if !words.contains(&s) {
                        words.push(s);
                    }
                }
            } else if let Some(n) = l.strip_prefix('n') {
                if let Ok(n) = n.parse() {
                    nums.push(n);
                }
            }
        }
        if nums.is_empty() {
            nums.push(0xCAFE_BABE);
        }
        let idents = words.iter().filter(|w| !w.is_empty() && !w.contains(['.', ';', '[', '/', '<', '>'])).cloned().collect();
        let binaries = words.iter().filter(|w| !w.contains(['.', ';', '[', '<', '>']) && w.split('/').all(|x| !x.is_empty())).cloned().collect();
        Dict { words, idents, binaries, nums }
    }
}

/// The literals of all Rust sources below a directory, as a text.
pub fn scan(dir: &Path) -> String {
    let mut words = BTreeSet::new();
    let mut nums = BTreeSet::new();
    walk(dir, 0, &mut words, &mut nums);
    let mut out = String::new();
    for n in nums.iter().take(2000) {
        out.push_str(&format!("n{},", n));
    }
    for w in words.iter() {
        if out.len() > 50_000 {
            break;
        }
        out.push('w');
        for b in w.bytes() {
            out.push_str(&format!("{:02x}", b));
        }
        out.push(',');
    }
    out
}

fn walk(dir: &Path, depth: usize, words: &mut BTreeSet<String>, nums: &mut BTreeSet<u64>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let Ok(ft) = e.file_type() else { continue };
        if ft.is_dir() && depth < 8 {
            walk(&p, depth + 1, words, nums);
        } else if ft.is_file() && p.extension().is_some_and(|x| x == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                literals(&s, words, nums);
            }
        }
    }
}

fn word(w: String, words: &mut BTreeSet<String>) {
    let short = w.chars().count() <= 3;
    if w.len() <= 64 && (short || !w.contains([' ', '{', '\n'])) {
        words.insert(w);
    }
}

pub fn literals(s: &str, words: &mut BTreeSet<String>, nums: &mut BTreeSet<u64>) {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            let mut d = 1;
            i += 2;
            while i < c.len() && d > 0 {
                if c[i] == '*' && at(i + 1) == '/' {
                    d -= 1;
                    i += 1;
                } else if c[i] == '/' && at(i + 1) == '*' {
                    d += 1;
                    i += 1;
                }
                i += 1;
            }
        } else if x == '"' {
            let (w, n) = quoted(&c, i + 1, '"');
            word(w, words);
            i = n;
        } else if x == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' || at(i + 2) == '\'' {
                let (w, n) = quoted(&c, i + 1, '\'');
                word(w, words);
                i = n;
            } else {
                i += 1;
            }
        } else if x.is_ascii_digit() {
            let mut t = String::new();
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') {
                if c[i] != '_' {
                    t.push(c[i]);
                }
                i += 1;
            }
            let (d, radix) = match t.get(..2) {
                Some("0x") => (&t[2..], 16),
                Some("0b") => (&t[2..], 2),
                Some("0o") => (&t[2..], 8),
                _ => (&t[..], 10),
            };
            let end = if radix == 16 { d.find(|q: char| !q.is_ascii_hexdigit()) } else { d.find(|q: char| !q.is_digit(radix)) };
            if let Ok(v) = u64::from_str_radix(&d[..end.unwrap_or(d.len())], radix) {
                nums.insert(v);
            }
        } else if x.is_alphabetic() || x == '_' {
            let b = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            let id: String = c[b..i].iter().collect();
            if (id == "r" || id == "br") && (at(i) == '"' || at(i) == '#') {
                let mut h = 0;
                while at(i + h) == '#' {
                    h += 1;
                }
                if at(i + h) == '"' {
                    let mut j = i + h + 1;
                    let mut w = String::new();
                    while j < c.len() && !(c[j] == '"' && (0..h).all(|k| at(j + 1 + k) == '#')) {
                        w.push(c[j]);
                        j += 1;
                    }
                    word(w, words);
                    i = j + 1 + h;
                }
            }
        } else {
            i += 1;
        }
    }
}

fn quoted(c: &[char], mut i: usize, end: char) -> (String, usize) {
    let mut w = String::new();
    while i < c.len() && c[i] != end {
        if c[i] == '\\' && i + 1 < c.len() {
            i += 1;
            match c[i] {
                'n' => w.push('\n'),
                't' => w.push('\t'),
                'r' => w.push('\r'),
                '0' => w.push('\0'),
                'x' => {
                    let h: String = c[i + 1..c.len().min(i + 3)].iter().collect();
                    if let Ok(v) = u8::from_str_radix(&h, 16) {
                        w.push(v as char);
                    }
                    i += 2;
                }
                'u' => {
                    let mut v = 0u32;
                    i += 1;
                    while i + 1 < c.len() && c[i + 1] != '}' {
                        i += 1;
                        v = v.wrapping_mul(16).wrapping_add(c[i].to_digit(16).unwrap_or(0));
                    }
                    i += 1;
                    w.extend(char::from_u32(v));
                }
                '\n' => {
                    while i + 1 < c.len() && c[i + 1].is_whitespace() {
                        i += 1;
                    }
                }
                o => w.push(o),
            }
        } else {
            w.push(c[i]);
        }
        i += 1;
    }
    (w, i + 1)
}
