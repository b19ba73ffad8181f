//! Several threads using the thread-safe build at once (C19).

use crate::adapt::Ad;
use crate::cx::*;
use crate::dut::{self, Opt};
use crate::props;
use cafebabe::ClassFile;
use std::marker::PhantomData;
use std::sync::{Barrier, Mutex};
use vcore::node;
use vcore::tape::{hash_bytes, mix, Tape};

// Whether a class may be shared, found out without requiring it, so that this file compiles either way.
struct Probe<T>(PhantomData<T>);
trait Yes {
    fn shareable(&self) -> bool;
}
#[allow(dead_code)]
trait No {
    fn shareable(&self) -> bool;
}
impl<T: Send + Sync> Yes for Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}
impl<T> No for &Probe<T> {
    fn shareable(&self) -> bool {
        false
    }
}
fn shareable() -> bool {
    (&Probe::<ClassFile<'static>>(PhantomData)).shareable()
}

/// A class together with the buffer it borrows from.
struct Own {
    // dropped in this order: the class first
    class: ClassFile<'static>,
    buf: Box<[u8]>,
}
// Only used once `shareable` has said yes.
unsafe impl Send for Own {}
unsafe impl Sync for Own {}

impl Own {
    fn new(b: &[u8], o: Opt) -> Option<Own> {
        let buf: Box<[u8]> = b.into();
        let s: &'static [u8] = unsafe { &*(&*buf as *const [u8]) };
        match dut::guarded(|| dut::raw(s, o)) {
            Ok(Ok(class)) => Some(Own { class, buf }),
            _ => None,
        }
    }
    fn class(&self) -> &'static ClassFile<'static> {
        unsafe { &*(&self.class as *const _) }
    }
    fn dump(&self) -> u64 {
        node::digest(&Ad::new(&self.buf).class(self.class()))
    }
    fn items(&self) -> u64 {
        use std::fmt::Write;
        let mut s = dut::Sink::default();
        for i in self.class().constantpool_iter() {
            let _ = write!(s, "{:?};", i);
        }
        s.h
    }
    fn print(&self) -> usize {
        use std::fmt::Write;
        let mut s = dut::Sink::default();
        let _ = write!(s, "{:?}", self.class);
        s.n
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Parse(usize),
    Dump(usize),
    Items(usize, u32),
    Print(usize),
    Take,
    /// Only parse, again and again
    Again(usize, u32),
}

pub fn case(t: &mut Tape, cx: &mut Cx) -> Out {
    if !shareable() {
        return Err(fail("not-shareable", "ClassFile of the threadsafe build is not Send + Sync", &[]));
    }
    let mut bufs: Vec<Vec<u8>> = vec![];
    let mut want: Vec<[u64; 2]> = vec![];
    let mut shared: Vec<Own> = vec![];
    let mut wants: Vec<(u64, u64)> = vec![];
    let mut which: Vec<usize> = vec![];
    for _ in 0..t.urange(1, 3) {
        let b = props::c19_input(t);
        if b.len() > 20_000 {
            continue;
        }
        want.push([dut::digest(&dut::parse(&b, Opt::On)), dut::digest(&dut::parse(&b, Opt::Off))]);
        if let Some(o) = Own::new(&b, if t.flip() { Opt::Off } else { Opt::On }) {
            match dut::guarded(|| (o.dump(), o.items())) {
                Ok(d) => {
                    wants.push(d);
                    which.push(bufs.len());
                    shared.push(o);
                }
                Err(m) => return Err(fail("panic", m, &b)),
            }
        }
        bufs.push(b);
    }
    if bufs.is_empty() {
        return Ok(None);
    }
    // now and then a crowd, all of it inside the parser most of the time
    let crowd = t.chance(1, 150);
    let n = if crowd { t.urange(24, 128) } else { t.urange(2, 8) };
    let again: Vec<u32> = bufs.iter().map(|b| (300_000 / (b.len() as u32 + 60)).clamp(20, 4000)).collect();
    let texts: Vec<[Option<String>; 2]> = match dut::guarded(|| bufs.iter().map(|b| [dut::rejection(b, Opt::On), dut::rejection(b, Opt::Off)]).collect()) {
        Ok(v) => v,
        Err(_) => bufs.iter().map(|_| [None, None]).collect(),
    };
    let panics = bufs.iter().zip(&want).any(|(_, w)| w.contains(&3));
    let mut plans: Vec<Vec<Op>> = vec![];
    let mut users = 0;
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..t.urange(1, 5) {
            let op = match t.below(6) {
                _ if crowd && !panics => {
                    let k = t.us(bufs.len());
                    Op::Again(k, again[k])
                }
                0 => Op::Parse(t.us(bufs.len())),
                4 => Op::Take,
                _ if shared.is_empty() => Op::Parse(t.us(bufs.len())),
                1 | 5 => Op::Items(t.us(shared.len()), t.range(1, 40) as u32),
                2 => Op::Dump(t.us(shared.len())),
                _ => Op::Print(t.us(shared.len())),
            };
            v.push(op);
        }
        if v.iter().any(|o| !matches!(o, Op::Parse(_) | Op::Take)) {
            users += 1;
        }
        plans.push(v);
    }
    // classes handed over to whichever thread takes them
    let mut gifts = vec![];
    for (k, o) in shared.iter().enumerate() {
        for _ in 0..2 {
            if let Some(c) = Own::new(&o.buf, Opt::Default) {
                gifts.push((which[k], c));
            }
        }
    }
    let gifts = Mutex::new(gifts);
    let gate = Barrier::new(n);
    let bad: Mutex<Option<(String, usize)>> = Mutex::new(None);
    let (bufs, want, shared, wants, which, gate, bad, gifts, texts) = (&bufs, &want, &shared, &wants, &which, &gate, &bad, &gifts, &texts);
    std::thread::scope(|s| {
        for (i, p) in plans.iter().enumerate() {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    gate.wait();
                    for op in p {
                        let r: Result<Option<(String, usize)>, String> = dut::guarded(|| match *op {
                            Op::Parse(k) => {
                                let o = if i % 2 == 0 { Opt::On } else { Opt::Off };
                                let d = dut::digest(&dut::parse(&bufs[k], o));
                                (d != want[k][i % 2]).then(|| ("parsing gave another result".to_string(), k))
                            }
                            Op::Dump(k) => (shared[k].dump() != wants[k].0).then(|| ("reading a shared class gave another result".to_string(), which[k])),
                            Op::Items(k, reps) => {
                                for _ in 0..reps {
                                    if shared[k].items() != wants[k].1 {
                                        return Some(("iterating a shared class gave other items".to_string(), which[k]));
                                    }
                                }
                                None
                            }
                            Op::Again(k, reps) => {
                                let o = if i % 2 == 0 { Opt::On } else { Opt::Off };
                                for _ in 0..reps {
                                    let r = dut::rejection(&bufs[k], o);
                                    if r != texts[k][i % 2] {
                                        return Some((format!("parsing gave {:?} and not {:?}", r, texts[k][i % 2]), k));
                                    }
                                }
                                None
                            }
                            // What is printed of the private cells depends on who holds them: it must only end.
                            Op::Print(k) => {
                                let _ = shared[k].print();
                                None
                            }
                            Op::Take => {
                                let g = gifts.lock().unwrap().pop();
                                g.and_then(|(k, c)| {
                                    let d = vcore::tape::mix(&[1, c.dump()]);
                                    drop(c);
                                    (d != want[k][0]).then(|| ("a class handed to another thread reads differently".to_string(), k))
                                })
                            }
                        });
                        match r {
                            Ok(None) => {}
                            Ok(Some((m, k))) => *bad.lock().unwrap() = Some((format!("thread {} of {}: {}", i, n, m), k)),
                            Err(m) => *bad.lock().unwrap() = Some((format!("thread {} of {} panicked in {:?}: {}", i, n, op, m), 0)),
                        }
                    }
                })
                .expect("thread");
        }
    });
    // and afterwards nothing has changed
    for (k, o) in shared.iter().enumerate() {
        match dut::guarded(|| (o.dump(), o.items())) {
            Ok(d) if d == wants[k] => {}
            Ok(_) => *bad.lock().unwrap() = Some(("a shared class reads differently afterwards".into(), which[k])),
            Err(m) => *bad.lock().unwrap() = Some((format!("panic afterwards: {}", m), which[k])),
        }
    }
    let ops: usize = plans.iter().map(|p| p.len()).sum();
    cx.evals += ops as u64;
    cx.add("thread operations", ops as u64);
    cx.add("threads", n as u64);
    if crowd {
        cx.hit("crowds of threads");
    }
    if let Some((m, k)) = bad.lock().unwrap().take() {
        return Err(fail("threads", format!("{}; plans {:?}", m, plans), &bufs[k.min(bufs.len() - 1)]));
    }
    if users >= 2 {
        cx.sample(|| format!("{} threads: {:?}", n, plans));
        let mut hs: Vec<u64> = bufs.iter().map(|b| hash_bytes(b)).collect();
        hs.push(hash_bytes(format!("{:?}", plans).as_bytes()));
        Ok(Some(mix(&hs)))
    } else {
        Ok(None)
    }
}
