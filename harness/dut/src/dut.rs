//! Calling the parser under test.

use crate::adapt::Ad;
use cafebabe::{parse_class, parse_class_with_options, ClassFile, ParseError, ParseOptions};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::node::Node;

thread_local! {
    static MESSAGE: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: RefCell<u32> = const { RefCell::new(0) };
}

/// Panics inside `guarded` are remembered silently; others are printed (they are faults of the harness).
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if GUARDED.with(|g| *g.borrow()) > 0 {
            MESSAGE.with(|m| *m.borrow_mut() = i.to_string().replace('\n', " "));
        } else {
            old(i);
        }
    }));
}

/// Run code of the parser under test.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| *g.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| *g.borrow_mut() -= 1);
    r.map_err(|_| MESSAGE.with(|m| m.borrow().clone()))
}

#[derive(Clone, Debug)]
pub enum P {
    Ok(Node),
    Err(String),
    Panic(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Opt {
    On,
    Off,
    Default,
}

/// Where to leave the last input parsed, for the case that parsing it ends the process.
pub static LEAVE_INPUT: std::sync::OnceLock<String> = std::sync::OnceLock::new();

pub fn raw<'a>(b: &'a [u8], o: Opt) -> Result<ClassFile<'a>, ParseError> {
    if let Some(p) = LEAVE_INPUT.get() {
        let _ = std::fs::write(p, b);
    }
    match o {
        Opt::On => parse_class_with_options(b, ParseOptions::default().parse_bytecode(true)),
        Opt::Off => parse_class_with_options(b, ParseOptions::default().parse_bytecode(false)),
        Opt::Default => parse_class(b),
    }
}

/// Parse with an option value made elsewhere.
pub fn parse_with(b: &[u8], o: &ParseOptions) -> P {
    if let Some(p) = LEAVE_INPUT.get() {
        let _ = std::fs::write(p, b);
    }
    match guarded(|| match parse_class_with_options(b, o) {
        Ok(c) => Ok(Ad::new(b).class(&c)),
        Err(e) => Err(e.to_string()),
    }) {
        Ok(Ok(n)) => P::Ok(n),
        Ok(Err(e)) => P::Err(e),
        Err(p) => P::Panic(p),
    }
}

/// The text of the rejection, if it is one.
#[cfg_attr(not(feature = "threadsafe"), allow(dead_code))]
pub fn rejection(b: &[u8], o: Opt) -> Option<String> {
    raw(b, o).err().map(|e| e.to_string())
}

fn dump(b: &[u8], o: Opt) -> Result<Node, String> {
    let c = match raw(b, o) {
        Ok(c) => c,
        Err(e) => return Err(e.to_string()),
    };
    let n = Ad::new(b).class(&c);
    Ok(n)
}

pub fn parse(b: &[u8], o: Opt) -> P {
    match guarded(|| dump(b, o)) {
        Ok(Ok(n)) => P::Ok(n),
        Ok(Err(e)) => P::Err(e),
        Err(p) => P::Panic(p),
    }
}

/// Accepted or not, without describing the class.
pub fn accepts(b: &[u8], o: Opt) -> Result<bool, String> {
    guarded(|| raw(b, o).is_ok())
}

/// One number for everything observable about a parse, error text included.
pub fn digest(p: &P) -> u64 {
    match p {
        P::Ok(n) => vcore::tape::mix(&[1, vcore::node::digest(n)]),
        P::Err(e) => vcore::tape::mix(&[2, vcore::tape::hash_bytes(e.as_bytes())]),
        P::Panic(_) => 3,
    }
}

/// Counts and hashes what is written, so that printing costs no memory.
#[derive(Default)]
pub struct Sink {
    pub n: usize,
    pub h: u64,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.n += s.len();
        for b in s.bytes() {
            self.h = (self.h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        Ok(())
    }
}

/// Use everything reachable from the outcome of a parse.
pub fn exercise(b: &[u8], o: Opt) -> bool {
    use cafebabe::attributes::AttributeData;
    use std::fmt::Write;
    let mut s = Sink::default();
    match raw(b, o) {
        Ok(c) => {
            let n1 = Ad::new(b).class(&c);
            let k = c.constantpool_iter().count();
            let _ = write!(s, "{:?}", c);
            for i in c.constantpool_iter() {
                let _ = write!(s, "{:?}", i);
            }
            fn visit(v: &[cafebabe::attributes::AttributeInfo], s: &mut Sink) {
                for a in v {
                    match &a.data {
                        AttributeData::Code(c) => {
                            if let Some(bc) = &c.bytecode {
                                for i in 0..=c.code.len() + 2 {
                                    let _ = bc.get_opcode_index(i);
                                }
                                let _ = bc.get_opcode_index(usize::MAX);
                                for (_, op) in bc.opcodes.iter().take(50) {
                                    let _ = write!(s, "{:?}", op);
                                }
                            }
                            visit(&c.attributes, s);
                        }
                        AttributeData::Record(r) => {
                            for x in r {
                                visit(&x.attributes, s);
                            }
                        }
                        _ => {}
                    }
                }
            }
            visit(&c.attributes, &mut s);
            for f in &c.fields {
                let _ = write!(s, "{}", f.descriptor);
                visit(&f.attributes, &mut s);
            }
            for m in &c.methods {
                let _ = write!(s, "{}", m.descriptor);
                visit(&m.attributes, &mut s);
            }
            let _ = (n1, k);
            true
        }
        Err(e) => {
            let _ = write!(s, "{} {:?} {}", e, e, e == e);
            let d: &dyn std::error::Error = &e;
            let _ = d.source().map(|x| x.to_string());
            false
        }
    }
}
