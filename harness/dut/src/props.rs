//! One case of each property: generate an input, ask the parser under test, judge the answer.

use crate::alloc;
use crate::cx::*;
use crate::dut::{self, Opt, P};
use vcore::asm::{self, Built, Layout, Sk};
use vcore::gen::{self, Cfg, BASE};
use vcore::mutate::{self, Kind as K};
use vcore::node::{self, *};
use vcore::refp::{self, Ref, Verdict};
use vcore::tape::{hash_bytes, mix, Tape};
use vcore::{bulky, enumr, grammar, hostile, mutf8};

const CODE_ATTRS: &[&str] =
    &["StackMapTable", "LineNumberTable", "LocalVariableTable", "LocalVariableTypeTable", "RuntimeVisibleTypeAnnotations"];
const ANN_ATTRS: &[&str] = &[
    "RuntimeVisibleAnnotations",
    "RuntimeInvisibleAnnotations",
    "RuntimeVisibleParameterAnnotations",
    "RuntimeInvisibleParameterAnnotations",
    "RuntimeVisibleTypeAnnotations",
    "RuntimeInvisibleTypeAnnotations",
    "AnnotationDefault",
    "Record",
];
const DATA_ATTRS: &[&str] = &[
    "ConstantValue",
    "Exceptions",
    "InnerClasses",
    "EnclosingMethod",
    "Synthetic",
    "Deprecated",
    "Signature",
    "SourceFile",
    "SourceDebugExtension",
    "MethodParameters",
    "BootstrapMethods",
    "NestHost",
    "NestMembers",
    "PermittedSubclasses",
    "Record",
];

/// How cases of the class-file properties are made.
struct Plan {
    cfg: Cfg,
    /// percent of cases that are changed after they were made, and how
    mutate: u64,
    kinds: &'static [K],
    mask: u32,
}

fn plan(prop: u32) -> Plan {
    let slip = |m: u32, pct: u64, c: Cfg| Cfg { slip: m, slip_pct: pct, ..c };
    let p = |cfg: Cfg, mutate: u64, kinds: &'static [K], mask: u32| Plan { cfg, mutate, kinds, mask };
    match prop {
        3 => p(Cfg { fields: 8, methods: 8, ifs: 8, code: 15, class_attrs: 2, member_attrs: 1, big: 3, fill: 15, ..BASE }, 25, &[K::Flags, K::Version, K::Index, K::Number, K::Count], C03),
        4 => p(Cfg { extra_consts: 30, fields: 2, methods: 2, code: 30, fill: 40, big: 2, raw: 20, dup: 20, ..BASE }, 0, &[], C04),
        5 => p(slip(C05, 45, Cfg { extra_consts: 20, fields: 2, methods: 2, fill: 20, big: 0, modern: 40, ..BASE }), 35, &[K::Index, K::Tag, K::Version, K::Count, K::Index], C05),
        6 => p(slip(C06, 25, Cfg { exotic: 50, raw: 35, extra_consts: 20, big: 3, code: 40, ..BASE }), 25, &[K::Text, K::Number, K::Text], C06),
        7 => p(Cfg { exotic: 10, raw: 20, member_attrs: 6, class_attrs: 8, big: 2, depth: 5, ..BASE }, 0, &[], C07),
        8 => p(slip(C08, 40, Cfg { class_attrs: 6, member_attrs: 4, big: 0, ..BASE }), 30, &[K::Length, K::Cut, K::Append, K::Length, K::Count, K::Number], C08),
        9 => p(slip(C09, 30, Cfg { focus: CODE_ATTRS, code: 95, member_attrs: 5, fields: 1, methods: 4, code_len: 10, rows: 6, big: 2, ..BASE }), 20, &[K::Tag, K::Number, K::Count, K::Index, K::Text], C09),
        10 => p(slip(C10, 30, Cfg { focus: ANN_ATTRS, class_attrs: 5, member_attrs: 5, code: 30, code_len: 4, depth: 7, rows: 4, big: 2, ..BASE }), 20, &[K::Tag, K::Number, K::Count, K::Index, K::Text], C10),
        11 => p(slip(C11, 30, Cfg { focus: DATA_ATTRS, class_attrs: 8, member_attrs: 5, code: 20, code_len: 4, rows: 5, big: 2, modern: 70, ..BASE }), 20, &[K::Flags, K::Number, K::Count, K::Index], C11),
        12 => p(slip(C12, 35, Cfg { module: 92, class_attrs: 3, rows: 5, big: 3, modern: 80, ..BASE }), 20, &[K::Flags, K::Version, K::Count, K::Index], C12),
        13 => p(Cfg { code: 100, code_len: 60, methods: 4, fields: 1, class_attrs: 1, member_attrs: 1, big: 4, modern: 70, ..BASE }, 15, &[K::Code, K::Number, K::Jump], C13),
        14 => p(slip(C14, 50, Cfg { code: 100, code_len: 25, methods: 3, fields: 0, class_attrs: 1, member_attrs: 1, big: 3, modern: 70, ..BASE }), 35, &[K::Jump, K::Code, K::Jump, K::Index, K::Length], C14),
        16 => p(slip(C16, 45, Cfg { fields: 6, methods: 6, exotic: 25, code: 40, code_len: 6, focus: &["LocalVariableTable", "Record", "RuntimeVisibleAnnotations"], big: 3, ..BASE }), 20, &[K::Text], C16),
        17 => p(slip(C17, 45, Cfg { fields: 6, methods: 6, ifs: 4, exotic: 40, code: 40, code_len: 4, focus: &["LocalVariableTable", "Record", "MethodParameters"], big: 0, ..BASE }), 20, &[K::Text], C17),
        18 => p(slip(C18, 45, Cfg { fields: 10, methods: 10, code: 20, code_len: 3, class_attrs: 2, member_attrs: 0, extra_consts: 8, big: 2, modern: 50, ..BASE }), 20, &[K::Index, K::Version, K::Flags, K::Number], C18),
        _ => p(BASE, 0, &[], 0),
    }
}

/// Is this what the property is about?
fn interesting(prop: u32, r: &Ref) -> bool {
    let s = &r.stats;
    let attr_area = |a: u32| s.attrs.iter().any(|n| refp::ATTRS.iter().any(|x| x.0 == *n && x.4 == a));
    match prop {
        3 => s.fields + s.methods + s.interfaces > 0,
        4 | 5 | 6 | 7 | 8 => true,
        9 => s.codes > 0,
        10 => attr_area(C10),
        11 => attr_area(C11),
        12 => attr_area(C12),
        13 | 14 => s.insns > 0,
        16 => s.descriptors > 0,
        17 => true,
        18 => s.fields + s.methods > 1 || s.pool_kinds & (1 << 17 | 1 << 18) != 0,
        _ => true,
    }
}

fn describe(d: &Diff) -> String {
    format!("at {}: expected {}, reported {}", d.path, d.expected, d.actual)
}

/// Compare the parser's answer with the reference's, within the areas of `mask`.
/// Returns whether the case was non-trivial.
pub fn judge(prop: u32, b: &[u8], o: Opt, mask: u32, must_accept: bool, cx: &mut Cx) -> Result<bool, Fail> {
    let r = refp::read(b);
    judge_with(prop, b, o, mask, must_accept, &r, cx)
}

pub fn judge_with(prop: u32, b: &[u8], o: Opt, mask: u32, must_accept: bool, r: &Ref, cx: &mut Cx) -> Result<bool, Fail> {
    let on = o != Opt::Off;
    let v = if on { r.with_bytecode() } else { r.verdict.clone() };
    if let Verdict::Unspec(why) = &v {
        cx.hit(if why.starts_with("too large") { "left open for its size" } else { "left open" });
        return Ok(false);
    }
    let p = dut::parse(b, o);
    cx.evals += 1;
    match v {
        Verdict::Accept => {
            cx.hit("well-formed");
            match p {
                P::Panic(m) => Err(fail("panic", format!("well-formed file: {}", m), b)),
                P::Err(e) => {
                    if must_accept {
                        Err(fail("rejects-well-formed", format!("a well-formed file was rejected: {}", e), b))
                    } else {
                        Ok(false)
                    }
                }
                P::Ok(act) => {
                    let mut exp = r.tree.clone().expect("tree");
                    if !on {
                        node::strip_bytecode(&mut exp, &mut 0, &mut 0);
                    }
                    match diff(&exp, &act, mask) {
                        Some(d) => Err(fail("differs", describe(&d), b)),
                        None => Ok(interesting(prop, r)),
                    }
                }
            }
        }
        Verdict::Reject(area, why) => {
            if area & mask == 0 {
                cx.hit("malformed in another way");
                return Ok(false);
            }
            cx.hit("malformed");
            match p {
                P::Panic(m) => Err(fail("panic", format!("malformed file ({}): {}", why, m), b)),
                P::Ok(_) => Err(fail("accepts-malformed", format!("a malformed file was accepted: {}", why), b)),
                P::Err(_) => Ok(true),
            }
        }
        Verdict::Open(why) => {
            let P::Ok(act) = p else { return Ok(false) };
            cx.hit("left open, but accepted");
            let mut exp = r.tree.clone().expect("tree");
            if !on {
                node::strip_bytecode(&mut exp, &mut 0, &mut 0);
            }
            match diff(&exp, &act, mask) {
                Some(d) => Err(fail("differs", format!("{} (it may be rejected: {})", describe(&d), why), b)),
                None => Ok(interesting(prop, r)),
            }
        }
        Verdict::Unspec(_) => Ok(false),
    }
}

fn note(cx: &mut Cx, what: &str, b: &[u8]) {
    cx.sample(|| format!("{}: {}", what, show(b)));
}

fn done(cx: &mut Cx, nontrivial: bool, b: &[u8], what: &str) -> Out {
    if nontrivial {
        note(cx, what, b);
        Ok(Some(hash_bytes(b)))
    } else {
        Ok(None)
    }
}

/// The enumerated part of a property, if the case is one of it.
fn enumerated(prop: u32, t: &mut Tape) -> Option<Vec<u8>> {
    let n = enumr::count(prop);
    let e = t.below(n + 1);
    if e > 0 {
        Some(enumr::make(prop, e - 1))
    } else {
        None
    }
}

/// Most files are small, so that many are tried.
fn sized(t: &mut Tape, c: Cfg) -> Cfg {
    let mut c = c;
    for _ in 0..*t.pick(&[2usize, 2, 1, 1, 0]) {
        let h = |x: usize| (x + 1) / 2;
        c.fields = h(c.fields);
        c.methods = h(c.methods);
        c.ifs = h(c.ifs);
        c.class_attrs = h(c.class_attrs);
        c.member_attrs = h(c.member_attrs);
        c.code_len = h(c.code_len);
        c.rows = h(c.rows);
        c.extra_consts = h(c.extra_consts);
        c.fill /= 2;
    }
    c
}

fn class_case(prop: u32, t: &mut Tape, cx: &mut Cx) -> Out {
    let p = plan(prop);
    let accept = prop != 7;
    if let Some(b) = enumerated(prop, t) {
        cx.hit("enumerated");
        let o = if prop == 13 || prop == 14 || t.below(2) == 0 { Opt::On } else { Opt::Off };
        let nt = judge(prop, &b, o, p.mask, accept, cx)?;
        match prop {
            4 if nt => iteration(&b, o, t, cx)?,
            14 => targets(&b, cx)?,
            _ => {}
        }
        return done(cx, nt, &b, "enumerated");
    }
    // one in seventeen looks offsets up in lists made by hand
    if prop == 14 && t.below(17) == 16 {
        return lookup_case(t, cx);
    }
    let cfg = sized(t, p.cfg);
    let mut b = gen::class(t, &cfg);
    let mut what = "generated";
    if p.mutate > 0 && t.chance(p.mutate, 100) {
        mutate::some(&mut b, t, p.kinds);
        what = "generated, then changed";
    }
    let o = if prop == 13 || prop == 14 || t.below(4) > 0 { Opt::On } else { Opt::Off };
    let nt = judge(prop, &b.bytes, o, p.mask, accept, cx)?;
    let mut extra = Ok(None);
    match prop {
        4 => {
            if nt {
                iteration(&b.bytes, o, t, cx)?;
            }
            extra = relayout(t, cx, &p.cfg)
        }
        8 => lengths(&b, t, cx)?,
        14 => targets(&b.bytes, cx)?,
        16 => extra = descriptor_laws(t, cx, &p.cfg),
        17 => extra = class_names(t, cx),
        _ => {}
    }
    let e = extra?;
    let r = done(cx, nt, &b.bytes, what)?;
    Ok(r.or(e))
}

// ---- C04: the layout of the pool does not matter

fn relayout(t: &mut Tape, cx: &mut Cx, cfg: &Cfg) -> Out {
    if t.below(2) == 0 {
        return Ok(None);
    }
    let cfg = Cfg { big: 0, ..*cfg };
    let s = gen::spec(t, &cfg);
    let a = asm::layout(&s, Layout::Natural, 0, t);
    let fill = *t.pick(&[0usize, 10, 100, 300]);
    let b = if t.flip() { asm::layout(&s, Layout::Shuffled, fill, t) } else { asm::layout(&s, Layout::Reverse, fill, t) };
    let well = |b: &Built| matches!(refp::read(&b.bytes).with_bytecode(), Verdict::Accept);
    if !well(&a) || !well(&b) {
        return Ok(None);
    }
    cx.evals += 2;
    cx.hit("pairs of layouts");
    match (dut::parse(&a.bytes, Opt::On), dut::parse(&b.bytes, Opt::On)) {
        (P::Ok(mut x), P::Ok(mut y)) => {
            // The listing of the pool is compared as a set of items: every item of the one without
            // unused entries must be listed by the other.
            node::strip_pool(&mut x);
            node::strip_pool(&mut y);
            node::strip_code(&mut x);
            node::strip_code(&mut y);
            if let Some(d) = differs(&x, &y) {
                return Err(fail("layout", format!("reordering the pool changed the class {}", describe(&d)), &b.bytes));
            }
            Ok(Some(hash_bytes(&b.bytes)))
        }
        (x, y) => {
            let f = |p: &P| match p {
                P::Ok(_) => "accepted".to_string(),
                P::Err(e) => format!("rejected ({})", e),
                P::Panic(m) => format!("panic ({})", m),
            };
            Err(fail("layout", format!("natural layout: {}; other layout: {}", f(&x), f(&y)), &b.bytes))
        }
    }
}

// ---- C04: every way of walking over the pool sees the same items

fn sign(i: &cafebabe::constant_pool::ConstantPoolItem) -> u64 {
    use std::fmt::Write;
    let mut s = dut::Sink::default();
    let _ = write!(s, "{:?}", i);
    s.h
}

/// One iterator, driven through the other methods of `Iterator`, against a plain walk.
fn walk(b: &[u8], o: Opt, t: &mut Tape) -> Result<usize, String> {
    let c = match dut::raw(b, o) {
        Ok(c) => c,
        Err(_) => return Ok(0),
    };
    let mut plain = vec![];
    let mut it = c.constantpool_iter();
    while let Some(i) = it.next() {
        plain.push(sign(&i));
    }
    let n = plain.len();
    if n > 3000 {
        return Ok(n);
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err(format!("an item after the last of {}", n));
        }
    }
    let (mut it, mut at) = (c.constantpool_iter(), 0usize);
    let mut steps = vec![];
    for _ in 0..t.urange(1, 6) {
        let (lo, hi) = it.size_hint();
        if lo > n - at || hi.is_some_and(|h| h < n - at) {
            return Err(format!("size_hint ({}, {:?}) with {} items left", lo, hi, n - at));
        }
        let k = if t.flip() { t.us(4) } else { t.us(n + 2) };
        let (got, how) = match t.below(4) {
            0 => (it.next().map(|i| (i, 0)), "next()".to_string()),
            1 => (it.by_ref().skip(k).next().map(|i| (i, k)), format!("skip({})", k)),
            2 => {
                // a position, then the item after it
                let p = it.by_ref().position(|i| plain.get(at + k) == Some(&sign(&i)));
                let want = plain[at..].iter().position(|h| plain.get(at + k) == Some(h));
                if p != want {
                    return Err(format!("position {:?} instead of {:?} after {:?}", p, want, steps));
                }
                at = p.map_or(n, |p| at + p + 1);
                (it.next().map(|i| (i, 0)), format!("position of item {}, next()", k))
            }
            _ => (it.nth(k).map(|i| (i, k)), format!("nth({})", k)),
        };
        steps.push(how);
        let d = if steps.last().is_some_and(|s| s.starts_with("next") || s.ends_with("next()")) { 0 } else { k };
        match got {
            Some((i, d)) => {
                if plain.get(at + d) != Some(&sign(&i)) {
                    return Err(format!("{:?} gave another item than item {} of a plain walk", steps, at + d));
                }
                at += d + 1;
            }
            None => {
                if at + d < n {
                    return Err(format!("{:?} gave no item, with {} of {} taken", steps, at, n));
                }
                at = n;
            }
        }
    }
    let rest = &plain[at..];
    let how = t.below(7);
    let good = match how {
        0 => it.count() == rest.len(),
        1 => it.last().map(|i| sign(&i)).as_ref() == rest.last(),
        2 => it.fold(vec![], |mut v, i| {
            v.push(sign(&i));
            v
        }) == rest,
        3 => it.map(|i| sign(&i)).collect::<std::collections::VecDeque<_>>() == rest,
        4 => {
            let k = t.urange(1, 4);
            it.step_by(k).map(|i| sign(&i)).collect::<Vec<_>>() == rest.iter().step_by(k).copied().collect::<Vec<_>>()
        }
        5 => {
            // two walks at once
            let mut other = c.constantpool_iter();
            let mut seen = vec![];
            let mut seen2 = vec![];
            loop {
                let a = it.next();
                let b = if t.flip() { other.next() } else { None };
                seen.extend(a.iter().map(sign));
                seen2.extend(b.iter().map(sign));
                if a.is_none() {
                    break;
                }
            }
            seen2.extend(other.map(|i| sign(&i)));
            seen == rest && seen2 == plain
        }
        _ => {
            let mut v = vec![];
            it.for_each(|i| v.push(sign(&i)));
            v == rest
        }
    };
    if !good {
        let names = ["count()", "last()", "fold()", "collect()", "step_by()", "next() of two iterators in turn", "for_each()"];
        return Err(format!("{:?}, then {}: not the {} items that were left", steps, names[how as usize], rest.len()));
    }
    Ok(n)
}

fn iteration(b: &[u8], o: Opt, t: &mut Tape, cx: &mut Cx) -> Result<(), Fail> {
    cx.hit("walks over the pool by other iterator methods");
    match dut::guarded(|| walk(b, o, t)) {
        Ok(Ok(_)) => Ok(()),
        Ok(Err(m)) => Err(fail("iteration", m, b)),
        Err(m) => Err(fail("panic", format!("walking over the pool: {}", m), b)),
    }
}

// ---- C08: lengths

fn lengths(b: &Built, t: &mut Tape, cx: &mut Cx) -> Result<(), Fail> {
    let r = refp::read(&b.bytes);
    if !matches!(r.with_bytecode(), Verdict::Accept) {
        return Ok(());
    }
    let o = if t.flip() { Opt::On } else { Opt::Off };
    let n = b.bytes.len();
    let must_fail = |x: &[u8], what: String, cx: &mut Cx| -> Result<(), Fail> {
        cx.evals += 1;
        match dut::accepts(x, o) {
            Ok(false) => Ok(()),
            Ok(true) => Err(fail("accepts-wrong-length", format!("{} was accepted", what), x)),
            Err(m) => Err(fail("panic", format!("{}: {}", what, m), x)),
        }
    };
    // prefixes: all of them for small files, otherwise those around every boundary
    if n <= 1200 {
        for k in 0..n {
            must_fail(&b.bytes[..k], format!("the first {} of {} bytes", k, n), cx)?;
        }
        cx.add("prefixes", n as u64);
    } else {
        for _ in 0..60 {
            let k = match t.below(3) {
                0 => t.us(n),
                1 => n - 1 - t.us(20),
                _ => b.spans[t.us(b.spans.len())].pos.min(n - 1),
            };
            must_fail(&b.bytes[..k], format!("the first {} of {} bytes", k, n), cx)?;
        }
        cx.add("prefixes", 60);
    }
    for extra in [1usize, 2, 3, 6, 16] {
        let mut x = b.bytes.clone();
        let v = if t.flip() { 0 } else { t.bits(8) as u8 };
        x.extend(std::iter::repeat(v).take(extra));
        must_fail(&x, format!("the file followed by {} bytes {}", extra, v), cx)?;
    }
    // the same for every attribute
    let spans: Vec<_> = b.spans.iter().filter(|s| s.k == Sk::AttrLen && s.pos + 4 <= n).copied().collect();
    let m = spans.len();
    for i in 0..m.min(24) {
        let s = if m <= 24 { spans[i] } else { spans[t.us(m)] };
        let old = u32::from_be_bytes(b.bytes[s.pos..s.pos + 4].try_into().unwrap());
        let news = [old.wrapping_add(1), old.wrapping_sub(1), 0, old ^ 0x0100_0000, old.wrapping_sub(0x1_0000), old.wrapping_add(0x100),  old.wrapping_add(2), u32::MAX, old.wrapping_add(t.below(64) as u32)];
        let first = t.us(news.len());
        for k in 0..3 {
            let v = news[(first + k) % news.len()];
            if v == old {
                continue;
            }
            let mut x = b.bytes.clone();
            x[s.pos..s.pos + 4].copy_from_slice(&v.to_be_bytes());
            cx.hit("changed attribute lengths");
            judge(8, &x, o, C08, true, cx)?;
        }
    }
    // two lengths that are wrong by the same amount, in opposite directions or in the same one: the
    // two follow one another, or one contains the other
    for i in 0..m.saturating_sub(1).min(16) {
        let (i, j) = if m <= 16 { (i, i + 1) } else { (t.us(m - 1), 0) };
        let j = if j > 0 { j } else { i + 1 + t.us((m - 1 - i).min(3)) };
        let mut x = b.bytes.clone();
        let d = *t.pick(&[2u32, 1, 4, 6, 8, 3, 0x100]);
        let (d, e) = match t.below(3) {
            0 => (d, d.wrapping_neg()),
            1 => (d.wrapping_neg(), d),
            _ => (d, d),
        };
        for (s, d) in [(spans[i], d), (spans[j], e)] {
            let old = u32::from_be_bytes(x[s.pos..s.pos + 4].try_into().unwrap());
            x[s.pos..s.pos + 4].copy_from_slice(&old.wrapping_add(d).to_be_bytes());
        }
        cx.hit("pairs of changed attribute lengths");
        judge(8, &x, o, C08, true, cx)?;
    }
    Ok(())
}

// ---- C14: jumps of accepted code, and looking up offsets

fn targets(b: &[u8], cx: &mut Cx) -> Result<(), Fail> {
    let r = dut::guarded(|| -> Result<u64, String> {
        let c = match dut::raw(b, Opt::Default) {
            Ok(c) => c,
            Err(_) => return Ok(0),
        };
        let mut n = 0;
        for m in &c.methods {
            for a in &m.attributes {
                if let cafebabe::attributes::AttributeData::Code(code) = &a.data {
                    let bc = match &code.bytecode {
                        Some(x) => x,
                        None => continue,
                    };
                    let ad = crate::adapt::Ad::new(b);
                    let tree = ad.bytecode(bc);
                    let offs: Vec<usize> = bc.opcodes.iter().map(|x| x.0).collect();
                    let mut starts: Vec<Option<usize>> = vec![None; code.code.len() + 3];
                    for (k, o) in offs.iter().enumerate() {
                        match starts.get_mut(*o) {
                            Some(s) => *s = Some(k),
                            None => return Err(format!("an instruction at {}, beyond the code", o)),
                        }
                    }
                    for (i, want) in starts.iter().copied().enumerate() {
                        let got = bc.get_opcode_index(i);
                        if got != want {
                            return Err(format!("looking up offset {}: {:?} instead of {:?}", i, got, want));
                        }
                    }
                    // far beyond the code, where what is left of the offset in fewer bits is within it
                    for i in (0..starts.len()).take(12).chain([starts.len() - 1]) {
                        for far in [1usize << 16, 1 << 17, 1 << 31, 1 << 32, 3 << 32, 1 << 48, 1 << 63, usize::MAX - 65535] {
                            let at = far.saturating_add(i);
                            let (got, want) = (bc.get_opcode_index(at), starts.get(at).copied().flatten());
                            if got != want {
                                return Err(format!("looking up offset {}: {:?} instead of {:?}", at, got, want));
                            }
                        }
                    }
                    if let Val::List(l) = &tree.val {
                        for (k, insn) in l.iter().enumerate() {
                            let mut js = vec![];
                            jumps_of(insn, &mut js);
                            for j in js {
                                n += 1;
                                let to = offs[k] as i64 + j;
                                if to < 0 || starts.get(to as usize).copied().flatten().is_none() {
                                    return Err(format!("the instruction at {} jumps to {}, where no instruction starts", offs[k], to));
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(n)
    });
    cx.evals += 1;
    match r {
        Ok(Ok(n)) => {
            cx.add("jump targets looked at", n);
            Ok(())
        }
        Ok(Err(e)) => Err(fail("jump", e, b)),
        // panics belong to C01, unless the file is well-formed, which `judge` has looked at
        Err(_) => Ok(()),
    }
}

fn jumps_of(n: &Node, out: &mut Vec<i64>) {
    if n.label == "jump" {
        if let Val::Int(j) = n.val {
            out.push(j);
        }
    }
    if let Val::List(l) = &n.val {
        for x in l {
            jumps_of(x, out);
        }
    }
}

fn lookup_case(t: &mut Tape, cx: &mut Cx) -> Out {
    use cafebabe::bytecode::{ByteCode, Opcode};
    let n = t.count(12);
    let mut at = 0usize;
    let mut ops = vec![];
    for i in 0..n {
        at += if i == 0 { t.us(3) } else { 1 + t.us(5) };
        if t.chance(1, 20) {
            at += t.us(70000);
        }
        ops.push((at, Opcode::Nop));
    }
    let offs: Vec<usize> = ops.iter().map(|x| x.0).collect();
    let bc = ByteCode { opcodes: ops };
    let mut probes: Vec<usize> = vec![0, 1, at, at + 1, usize::MAX];
    for o in &offs {
        probes.extend([o.saturating_sub(1), *o, o + 1]);
    }
    for p in probes {
        cx.evals += 1;
        let want = offs.iter().position(|x| *x == p);
        match dut::guarded(|| bc.get_opcode_index(p)) {
            Ok(g) if g == want => {}
            Ok(g) => return Err(fail("lookup", format!("offset {} in {:?}: {:?} instead of {:?}", p, offs, g, want), &[])),
            Err(m) => return Err(fail("lookup", format!("offset {} in {:?}: panic {}", p, offs, m), &[])),
        }
    }
    cx.hit("lookups on lists made by hand");
    Ok(if n > 1 { Some(mix(&offs.iter().map(|x| *x as u64).collect::<Vec<_>>())) } else { None })
}

// ---- C16: descriptors are equal exactly when their texts are

fn variations(t: &mut Tape, g: &str) -> Vec<String> {
    let mut v = vec![g.to_string()];
    for _ in 0..5 {
        let s = t.pick(&v).clone();
        let cs: Vec<char> = s.chars().collect();
        let i = t.us(cs.len().max(1));
        let mut c = cs.clone();
        match t.below(6) {
            0 => c.insert(i.min(cs.len()), '['),
            1 => {
                if i < c.len() {
                    c.remove(i);
                }
            }
            2 => {
                if i < c.len() {
                    c[i] = *t.pick(&['I', 'J', 'Z', 'B', 'a', 'b', 'A', '/', '\u{e9}', '\0', 'V', 'L'])
                }
            }
            3 => c.insert(i.min(cs.len()), *t.pick(&['I', 'a', '/', '$', '\u{10000}'])),
            4 => c.push(*t.pick(&['I', 'V', ';'])),
            _ => {
                if i < c.len() && i > 0 {
                    c.swap(i, i - 1)
                }
            }
        }
        v.push(c.into_iter().collect());
    }
    v
}

fn descriptor_laws(t: &mut Tape, cx: &mut Cx, cfg: &Cfg) -> Out {
    if t.below(3) > 0 {
        return Ok(None);
    }
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    let (f, m) = {
        let mut g = gen::G::new(t, Cfg { slip: 0, ..*cfg });
        (g.fdesc(), g.mdesc())
    };
    let ok = |s: &String| mutf8::encode(s).len() <= 65535;
    let fs: Vec<String> = variations(t, &f).into_iter().filter(|s| ok(s) && grammar::field_desc(s).is_some()).collect();
    let ms: Vec<String> =
        variations(t, &m).into_iter().filter(|s| ok(s) && grammar::method_desc(s).map_or(false, |d| grammar::arg_slots(&d) <= 255)).collect();
    let make = |names: &str| {
        let mut x = vcore::mini::M::new(52);
        for (i, d) in fs.iter().enumerate() {
            let b = x.memb(0, &format!("{}{}", names, i), d, &[]);
            x.fields.push(b);
        }
        for (i, d) in ms.iter().enumerate() {
            let b = x.memb(0x400, &format!("{}{}", names, i), d, &[]);
            x.methods.push(b);
        }
        x.bytes()
    };
    let (b1, b2) = (make("x"), make("longer"));
    cx.evals += 2;
    let r = dut::guarded(|| -> Result<u64, String> {
        let c1 = dut::raw(&b1, Opt::On).map_err(|e| format!("legal descriptors rejected: {}", e))?;
        let c2 = dut::raw(&b2, Opt::On).map_err(|e| format!("legal descriptors rejected: {}", e))?;
        let h = |x: &dyn Fn(&mut DefaultHasher)| {
            let mut s = DefaultHasher::new();
            x(&mut s);
            s.finish()
        };
        let mut n = 0;
        for (i, p) in c1.fields.iter().enumerate() {
            for (j, q) in c2.fields.iter().enumerate() {
                let (eq, want) = (p.descriptor == q.descriptor, fs[i] == fs[j]);
                if eq != want {
                    return Err(format!("{:?} and {:?} compare as equal: {}", fs[i], fs[j], eq));
                }
                if eq && h(&|s| p.descriptor.hash(s)) != h(&|s| q.descriptor.hash(s)) {
                    return Err(format!("equal descriptors {:?} hash differently", fs[i]));
                }
                n += 1;
            }
            if p.descriptor.to_string() != fs[i] {
                return Err(format!("{:?} is displayed as {:?}", fs[i], p.descriptor.to_string()));
            }
        }
        for (i, p) in c1.methods.iter().enumerate() {
            for (j, q) in c2.methods.iter().enumerate() {
                let (eq, want) = (p.descriptor == q.descriptor, ms[i] == ms[j]);
                if eq != want {
                    return Err(format!("{:?} and {:?} compare as equal: {}", ms[i], ms[j], eq));
                }
                if eq && h(&|s| p.descriptor.hash(s)) != h(&|s| q.descriptor.hash(s)) {
                    return Err(format!("equal descriptors {:?} hash differently", ms[i]));
                }
                n += 1;
            }
            if p.descriptor.to_string() != ms[i] {
                return Err(format!("{:?} is displayed as {:?}", ms[i], p.descriptor.to_string()));
            }
        }
        Ok(n)
    });
    match r {
        Ok(Ok(n)) => {
            cx.add("pairs of descriptors compared", n);
            Ok(Some(hash_bytes(&b1)))
        }
        Ok(Err(e)) => Err(fail("descriptor-law", e, &b1)),
        Err(m) => Err(fail("descriptor-law", format!("panic: {}", m), &b1)),
    }
}

// ---- C17: class names made directly

fn class_names(t: &mut Tape, cx: &mut Cx) -> Out {
    use cafebabe::descriptors::ClassName;
    use std::borrow::Cow;
    use std::convert::TryFrom;
    let s: String = match t.below(4) {
        0 => {
            let n = t.us(8);
            (0..n).map(|_| *t.pick(&['a', '/', '.', ';', '[', '<', '\u{e9}', '\0', ' ', '\u{10000}', '('])).collect()
        }
        1 => {
            let mut g = gen::G::new(t, plan(17).cfg);
            g.binary()
        }
        2 => {
            let mut g = gen::G::new(t, plan(17).cfg);
            let s = g.binary();
            g.spoil(&s)
        }
        _ => {
            let n = t.us(5);
            let mut v: Vec<&str> = vec![];
            for _ in 0..n {
                v.push(*t.pick(&["a", "bc", "", "a.b", "x;", "[", "\u{e9}", "I", "<init>"]));
            }
            v.join("/")
        }
    };
    let want = grammar::binary_name(&s);
    for owned in [false, true] {
        cx.evals += 1;
        let r = dut::guarded(|| {
            let c: Cow<str> = if owned { Cow::Owned(s.clone()) } else { Cow::Borrowed(&s) };
            ClassName::try_from(c).map(|n| {
                let shown = n.to_string();
                let deref: String = (*n).to_string();
                let back: Cow<str> = n.clone().into();
                (shown, deref, back.into_owned())
            })
        });
        match r {
            Ok(Ok((x, y, z))) => {
                if !want {
                    return Err(fail("class-name", format!("{:?} is no class name but was made one", s), s.as_bytes()));
                }
                if x != s || y != s || z != s {
                    return Err(fail("class-name", format!("the class name {:?} reads {:?}, {:?}, {:?}", s, x, y, z), s.as_bytes()));
                }
            }
            Ok(Err(e)) => {
                if want {
                    return Err(fail("class-name", format!("{:?} is a class name but was rejected: {}", s, e), s.as_bytes()));
                }
            }
            Err(m) => return Err(fail("class-name", format!("{:?}: panic {}", s, m), s.as_bytes())),
        }
    }
    cx.hit("class names made directly");
    Ok(Some(hash_bytes(s.as_bytes())))
}

// ---- C01, C02: hostile inputs

/// Any input: the enumerations of other properties, hostile forms, generated files.
fn any_input(t: &mut Tape, big: bool, cx: &mut Cx) -> Vec<u8> {
    match t.below(16) {
        0 => {
            let props = [3u32, 5, 6, 9, 10, 11, 12, 13, 16, 17, 18];
            let p = *t.pick(&props);
            let k = t.below(enumr::count(p));
            cx.hit("form: enumerated");
            enumr::make(p, k)
        }
        1 => {
            let p = *t.pick(&[3u32, 4, 5, 6, 9, 10, 11, 12, 13, 14, 16, 17, 18]);
            cx.hit("form: generated");
            let c = Cfg { open: 4, ..plan(p).cfg };
            gen::class(t, &c).bytes
        }
        2 => {
            let p = *t.pick(&[3u32, 4, 5, 6, 9, 10, 11, 12, 13, 14, 16, 17, 18]);
            cx.hit("form: generated, then changed");
            let c = Cfg { open: 4, big: 0, ..plan(p).cfg };
            let mut b = gen::class(t, &c);
            mutate::some(&mut b, t, mutate::ALL);
            b.bytes
        }
        _ => {
            let (f, b) = hostile::input(t, big);
            cx.hit(&format!("form: {}", hostile::FORMS[f]));
            b
        }
    }
}

/// A thread with the stack Rust gives to threads by default, on which inputs are parsed.
pub struct Small {
    tx: std::sync::mpsc::Sender<(Vec<u8>, Opt)>,
    rx: std::sync::mpsc::Receiver<Result<bool, String>>,
}

impl Small {
    pub fn start() -> Small {
        let (tx, rq) = std::sync::mpsc::channel::<(Vec<u8>, Opt)>();
        let (rs, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                for (b, o) in rq {
                    let r = dut::guarded(|| dut::exercise(&b, o));
                    if rs.send(r).is_err() {
                        break;
                    }
                }
            })
            .expect("thread");
        Small { tx, rx }
    }
    pub fn run(&self, b: &[u8], o: Opt) -> Result<bool, String> {
        self.tx.send((b.to_vec(), o)).expect("send");
        self.rx.recv().expect("receive")
    }
}

thread_local! {
    static SMALL: std::cell::OnceCell<Small> = const { std::cell::OnceCell::new() };
}

fn c01(t: &mut Tape, cx: &mut Cx) -> Out {
    let b = match enumerated(1, t) {
        Some(b) => {
            cx.hit("form: long texts at every place");
            b
        }
        None => {
            let big = t.chance(1, if cx.thorough { 20 } else { 60 });
            any_input(t, big, cx)
        }
    };
    for o in [Opt::On, Opt::Off] {
        cx.evals += 1;
        let r = SMALL.with(|s| s.get_or_init(Small::start).run(&b, o));
        match r {
            Ok(a) => cx.hit(if a { "accepted" } else { "rejected" }),
            Err(m) => return Err(fail("panic", m, &b)),
        }
    }
    cx.max("input length", b.len() as u64);
    // beyond the header
    done(cx, b.len() > 10 && b[..4] == [0xCA, 0xFE, 0xBA, 0xBE], &b, "hostile")
}

pub const ALLOWANCE: usize = 80 << 20;
pub const FACTOR: usize = 256;

/// The length of the input, counting again for each reference to it the length of a text that has
/// to be re-encoded and of a method descriptor. References are overestimated: every pair of bytes
/// (and, for the one-byte form, every byte) that equals an index is taken for one.
fn effective_len(b: &[u8]) -> usize {
    let mut w: Vec<u64> = vec![0];
    let mut links: Vec<Vec<usize>> = vec![vec![]];
    let mut pos = 10;
    if b.len() < 10 {
        return b.len();
    }
    let count = usize::from(u16::from_be_bytes([b[8], b[9]]));
    let at = |p: usize| -> Option<usize> { Some(usize::from(u16::from_be_bytes([*b.get(p)?, *b.get(p + 1)?]))) };
    while w.len() < count && pos < b.len() {
        let tag = b[pos];
        let (len, weight, ls): (usize, u64, Vec<usize>) = match tag {
            1 => {
                let n = at(pos + 1).unwrap_or(0);
                let s = b.get(pos + 3..pos + 3 + n).unwrap_or(&[]);
                let heavy = s.first() == Some(&b'(') || std::str::from_utf8(s).is_err() || s.contains(&0);
                (2 + n, if heavy { n as u64 + 1 } else { 0 }, vec![])
            }
            3 | 4 => (4, 0, vec![]),
            5 | 6 => (8, 0, vec![]),
            7 | 8 | 16 | 19 | 20 => (2, 0, at(pos + 1).into_iter().collect()),
            9..=12 => (4, 0, at(pos + 1).into_iter().chain(at(pos + 3)).collect()),
            15 => (3, 0, at(pos + 2).into_iter().collect()),
            17 | 18 => (4, 0, at(pos + 3).into_iter().collect()),
            _ => break,
        };
        w.push(weight);
        links.push(ls);
        if tag == 5 || tag == 6 {
            w.push(0);
            links.push(vec![]);
        }
        pos += 1 + len;
    }
    if w.iter().all(|x| *x == 0) {
        return b.len();
    }
    for _ in 0..4 {
        let prev = w.clone();
        for i in 0..w.len() {
            let own = prev[i];
            let l: u64 = links[i].iter().filter_map(|j| prev.get(*j)).sum();
            w[i] = own.max(l).min(1 << 24);
        }
    }
    let mut total = b.len() as u64;
    for p in 8..b.len().saturating_sub(1) {
        let i = usize::from(u16::from_be_bytes([b[p], b[p + 1]]));
        total += w.get(i).copied().unwrap_or(0);
        if b[p] == 18 {
            total += w.get(usize::from(b[p + 1])).copied().unwrap_or(0);
        }
    }
    // every pool entry is validated, too
    total += w.iter().sum::<u64>();
    total as usize
}

/// What several classes, none seen before, leave in use together: in a thread of their own, after
/// a few others that set up whatever is set up once.
fn kept(t: &mut Tape, cx: &mut Cx) -> Out {
    let mut warm = vec![];
    for k in 0..6 {
        let mut w = Tape::random(k);
        warm.push(match k {
            0 => bulky::class(&mut Tape::replay(vec![1; 8])),
            1..=3 => gen::class(&mut w, &BASE).bytes,
            _ => hostile::input(&mut w, false).1,
        });
    }
    let mut then = vec![];
    for _ in 0..t.urange(2, 5) {
        then.push(match t.below(4) {
            0 => any_input(t, false, cx),
            1 => {
                let mut b = bulky::class(t);
                b.push(0);
                b
            }
            _ => bulky::class(t),
        });
    }
    let n = then.len() as u64;
    let run = || -> Result<(isize, usize), String> {
        let use_one = |b: &[u8]| {
            for o in [Opt::On, Opt::Off] {
                let _ = dut::guarded(|| match dut::raw(b, o) {
                    Ok(c) => {
                        use std::fmt::Write;
                        let mut s = dut::Sink::default();
                        for i in c.constantpool_iter() {
                            let _ = write!(s, "{:?}", i);
                        }
                    }
                    Err(e) => drop(e),
                });
            }
        };
        warm.iter().for_each(|b| use_one(b));
        let (_, u) = alloc::measure(|| then.iter().for_each(|b| use_one(b)));
        Ok((u.left, u.peak))
    };
    let r = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, run).map_err(|e| e.to_string())?.join().map_err(|_| "panic".to_string())?
    });
    cx.evals += 2 * n;
    cx.hit("histories measured as a whole");
    let total: usize = then.iter().map(|b| b.len()).sum();
    match r {
        Ok((left, _)) if left > 8192 => {
            let b = then.into_iter().max_by_key(|b| b.len()).unwrap_or_default();
            Err(fail("kept", format!("{} bytes are still in use after {} files of {} bytes together were parsed and dropped", left, n, total), &b))
        }
        Ok((left, _)) => {
            cx.max("bytes left in use by a history", left.max(0) as u64);
            Ok(Some(hash_bytes(&then.concat())))
        }
        Err(e) => {
            cx.hit(&format!("no thread: {}", e));
            Ok(None)
        }
    }
}

fn c02(t: &mut Tape, cx: &mut Cx) -> Out {
    if t.below(120) == 119 {
        return kept(t, cx);
    }
    let big = t.chance(1, if cx.thorough { 20 } else { 50 });
    let b = any_input(t, big, cx);
    let eff = effective_len(&b);
    let bound = ALLOWANCE + FACTOR * eff;
    let o = if t.below(4) > 0 { Opt::On } else { Opt::Off };
    let once = || {
        let (r, u) = alloc::measure(|| {
            dut::guarded(|| match dut::raw(&b, o) {
                Ok(c) => {
                    drop(c);
                    true
                }
                Err(e) => {
                    drop(e);
                    false
                }
            })
        });
        (r, u)
    };
    cx.evals += 1;
    let (r, mut u) = once();
    if r.is_err() {
        // a panic is for C01
        cx.hit("panicked");
        return Ok(None);
    }
    let acc = r == Ok(true);
    cx.hit(if acc { "accepted" } else { "rejected" });
    let mut tries = 0;
    while u.left != 0 && tries < 3 {
        // something set up once for the whole process is no leak
        let (_, v) = once();
        u = v;
        tries += 1;
    }
    if u.left != 0 {
        return Err(fail("leak", format!("{} bytes are still in use after the {} was dropped", u.left, if acc { "class" } else { "error" }), &b));
    }
    if u.peak > bound {
        return Err(fail("memory", format!("{} bytes in use while parsing {} bytes (bound {})", u.peak, b.len(), bound), &b));
    }
    cx.max("bytes in use", u.peak as u64);
    cx.max("bytes in use beyond the allowance per effective byte of input", (u.peak.saturating_sub(ALLOWANCE) / eff.max(1)) as u64);
    cx.max("input length", b.len() as u64);
    if b.len() > 4096 {
        cx.max("bytes in use per byte of input, inputs over 4096 bytes", (u.peak / b.len()) as u64);
    } else {
        cx.max("bytes in use, inputs up to 4096 bytes", u.peak as u64);
    }
    done(cx, u.calls >= 3, &b, "hostile")
}

// ---- C15: the option

fn c15(t: &mut Tape, cx: &mut Cx) -> Out {
    let first = enumerated(15, t);
    let kind = if first.is_some() { 8 } else { t.below(8) };
    let b = match kind {
        8 => first.unwrap_or_default(),
        0 => {
            let p = *t.pick(&[13u32, 9, 14, 11, 4, 17, 10]);
            let k = t.below(enumr::count(p));
            enumr::make(p, k)
        }
        1 => hostile::input(t, false).1,
        k => {
            let c = Cfg {
                code: 90,
                methods: 4,
                code_len: 20,
                open: 5,
                slip: if k < 4 { C14 } else { ALL },
                slip_pct: if k < 6 { 40 } else { 0 },
                ..BASE
            };
            let mut x = gen::class(t, &c);
            if t.chance(1, 3) {
                mutate::some(&mut x, t, &[K::Code, K::Jump, K::Index, K::Byte, K::Length, K::Version]);
            }
            x.bytes
        }
    };
    let on = dut::parse(&b, Opt::On);
    let off = dut::parse(&b, Opt::Off);
    let def = dut::parse(&b, Opt::Default);
    cx.evals += 3;
    if matches!(on, P::Panic(_)) || matches!(off, P::Panic(_)) || matches!(def, P::Panic(_)) {
        cx.hit("panicked");
        return Ok(None);
    }
    match (&def, &on) {
        (P::Ok(x), P::Ok(y)) => {
            if let Some(d) = differs(y, x) {
                return Err(fail("default", format!("the default differs from bytecode parsing on {}", describe(&d)), &b));
            }
        }
        (P::Err(x), P::Err(y)) if x == y => {}
        _ => return Err(fail("default", "the default differs from bytecode parsing on", &b)),
    }
    // one option value, set and used in any order
    if t.chance(1, 3) {
        let (mut want, mut hist) = (true, String::new());
        let mut o = cafebabe::ParseOptions::default();
        for _ in 0..t.urange(1, 6) {
            match t.below(4) {
                0 => {
                    let v = t.flip();
                    o.parse_bytecode(v);
                    want = v;
                    hist.push_str(if v { " on" } else { " off" });
                }
                1 => {
                    let (v, w) = (t.flip(), t.flip());
                    o.parse_bytecode(v).parse_bytecode(w);
                    want = w;
                    hist.push_str(if v { " on." } else { " off." });
                    hist.push_str(if w { "on" } else { "off" });
                }
                2 => {
                    o = cafebabe::ParseOptions::default();
                    want = true;
                    hist.push_str(" new");
                }
                _ => {}
            }
            hist.push_str(" parse");
            let got = dut::parse_with(&b, &o);
            cx.evals += 1;
            cx.hit("options set and used again");
            if dut::digest(&got) != dut::digest(if want { &on } else { &off }) {
                let m = format!("after{}, the result is not that of bytecode parsing {}", hist, if want { "on" } else { "off" });
                return Err(fail("options", m, &b));
            }
        }
    }
    let r = refp::read(&b);
    match (on, off) {
        (P::Ok(mut x), P::Ok(mut y)) => {
            cx.hit("accepted by both");
            let (mut p1, mut a1, mut p2, mut a2) = (0, 0, 0, 0);
            node::strip_bytecode(&mut x, &mut p1, &mut a1);
            node::strip_bytecode(&mut y, &mut p2, &mut a2);
            if a1 > 0 {
                return Err(fail("undecoded", format!("with bytecode parsing on, {} code attributes were not decoded", a1), &b));
            }
            if p2 > 0 {
                return Err(fail("decoded", format!("with bytecode parsing off, {} code attributes were decoded", p2), &b));
            }
            if let Some(d) = differs(&x, &y) {
                return Err(fail("differs", format!("switching bytecode parsing off changed something else {}", describe(&d)), &b));
            }
            done(cx, p1 > 0, &b, "accepted by both")
        }
        (P::Ok(_), P::Err(e)) => Err(fail("rejected-off", format!("rejected only with bytecode parsing off: {}", e), &b)),
        (P::Err(e), P::Ok(_)) => {
            cx.hit("accepted only with bytecode parsing off");
            match (&r.verdict, &r.bytecode) {
                (Verdict::Accept, Verdict::Accept) => {
                    Err(fail("rejected-on", format!("rejected only with bytecode parsing on, though all code is well-formed: {}", e), &b))
                }
                _ => done(cx, true, &b, "accepted only with bytecode parsing off"),
            }
        }
        _ => {
            cx.hit("rejected by both");
            Ok(None)
        }
    }
}

// ---- C19: what the two builds are compared on

/// An input for comparing builds; shared by both. A fault of the generator costs the case.
pub fn c19_input(t: &mut Tape) -> Vec<u8> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c19_make(t))).unwrap_or_default()
}

fn c19_make(t: &mut Tape) -> Vec<u8> {
    let mut cx = Cx::new(0, false, 0);
    match t.below(5) {
        0 | 1 => {
            let p = *t.pick(&[3u32, 4, 5, 6, 9, 10, 11, 12, 13, 14, 16, 17, 18]);
            let pl = plan(p);
            let mut b = gen::class(t, &Cfg { extra_consts: pl.cfg.extra_consts + 6, ..pl.cfg });
            if t.chance(1, 4) {
                mutate::some(&mut b, t, mutate::ALL);
            }
            b.bytes
        }
        2 => {
            let p = *t.pick(&[4u32, 5, 6, 9, 10, 11, 12, 13, 14, 16, 17, 18]);
            let k = t.below(enumr::count(p));
            enumr::make(p, k)
        }
        _ => any_input(t, false, &mut cx),
    }
}

/// The digests of everything observable about a case, in this build.
pub fn c19_digest(b: &[u8]) -> u64 {
    let a = dut::parse(b, Opt::On);
    let f = dut::parse(b, Opt::Off);
    // printing is part of what can be observed, too
    let d = dut::guarded(|| {
        use std::fmt::Write;
        let mut s = dut::Sink::default();
        match dut::raw(b, Opt::On) {
            Ok(c) => {
                for i in c.constantpool_iter() {
                    let _ = write!(s, "{:?}", i);
                }
            }
            Err(e) => {
                let _ = write!(s, "{:?}", e);
            }
        }
        s.h
    });
    mix(&[dut::digest(&a), dut::digest(&f), d.unwrap_or(5)])
}

// ---- C20: histories

/// The k-th canary: an input whose outcome is also computed by a process of its own.
pub fn canary(seed: u64, k: u64) -> Vec<u8> {
    let mut t = Tape::random(mix(&[seed, 0xC20, k]));
    let t = &mut t;
    match k % 4 {
        0 | 1 => {
            let p = [3u32, 4, 6, 9, 10, 11, 12, 13, 14, 16, 17, 18][(k / 4 % 12) as usize];
            let c = Cfg { slip: 0, big: 0, ..plan(p).cfg };
            gen::class(t, &c).bytes
        }
        2 => {
            let p = [5u32, 9, 10, 11, 12, 14, 16, 17, 18][(k / 4 % 9) as usize];
            let c = Cfg { slip_pct: 100, big: 0, ..plan(p).cfg };
            gen::class(t, &c).bytes
        }
        _ => hostile::input(t, false).1,
    }
}

fn both(b: &[u8]) -> (u64, u64) {
    (dut::digest(&dut::parse(b, Opt::On)), dut::digest(&dut::parse(b, Opt::Off)))
}
pub fn canary_digest(seed: u64, k: u64) -> (u64, u64) {
    both(&canary(seed, k))
}

struct Held {
    // dropped in this order: the class first
    class: cafebabe::ClassFile<'static>,
    dump: u64,
    print: u64,
    buf: Box<[u8]>,
}

fn held_dump(h: &Held) -> u64 {
    // The class lives as long as the buffer it is held with.
    let c: &cafebabe::ClassFile<'static> = &h.class;
    let c: &'static cafebabe::ClassFile<'static> = unsafe { &*(c as *const _) };
    node::digest(&crate::adapt::Ad::new(&h.buf).class(c))
}
fn held_print(h: &Held) -> u64 {
    use std::fmt::Write;
    let mut s = dut::Sink::default();
    let _ = write!(s, "{:?}", h.class);
    s.h
}

/// Where the contents of the texts of the pool are, as far as it can be followed.
fn text_spans(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let at = |p: usize| -> usize { usize::from(b.get(p).copied().unwrap_or(0)) << 8 | usize::from(b.get(p + 1).copied().unwrap_or(0)) };
    let (mut i, n, mut p) = (1, at(8), 10);
    while i < n && p < b.len() {
        let len = match b[p] {
            1 => {
                let l = at(p + 1);
                if p + 3 + l > b.len() {
                    break;
                }
                if l > 0 {
                    v.push((p + 3, l));
                }
                2 + l
            }
            3 | 4 | 9..=12 | 17 | 18 => 4,
            5 | 6 => {
                i += 1;
                8
            }
            7 | 8 | 16 | 19 | 20 => 2,
            15 => 3,
            _ => break,
        };
        p += 1 + len;
        i += 1;
    }
    v
}

/// The input with a small change that keeps its length, and what that is.
fn variant(b: &[u8], texts: &[(usize, usize)], t: &mut Tape) -> (Vec<u8>, String) {
    let mut v = b.to_vec();
    match t.below(8) {
        0..=3 if !texts.is_empty() => {
            let (p, l) = *t.pick(texts);
            let i = p + t.us(l);
            let c = *t.pick(&[b'I', b'J', b'V', b'[', b';', b'(', b')', b'/', b'<', b'.', b'a', b'L', b'x', 0, 0x80, 0xff]);
            v[i] = if v[i] == c { b'q' } else { c };
            (v, format!("byte {} (of a text) {:#x}", i, c))
        }
        4 if texts.len() > 1 => {
            // two texts of the same length exchanged
            let (p, l) = *t.pick(texts);
            let same: Vec<usize> = texts.iter().filter(|x| x.1 == l && x.0 != p).map(|x| x.0).collect();
            let q = if same.is_empty() { p } else { *t.pick(&same) };
            for i in 0..l {
                v.swap(p + i, q + i);
            }
            (v, format!("the texts at {} and {} exchanged", p, q))
        }
        5 => {
            let i = t.us(v.len());
            v[i] = v[i].wrapping_add(*t.pick(&[1u8, 255, 2, 128]));
            (v, format!("byte {} changed", i))
        }
        _ => {
            let i = t.us(v.len());
            v[i] = t.b8();
            (v, format!("byte {} set", i))
        }
    }
}

fn c20(t: &mut Tape, cx: &mut Cx) -> Out {
    let mut inputs: Vec<(Vec<u8>, (u64, u64))> = Vec::new();
    let mut hist: Vec<String> = Vec::new();
    let n = t.urange(2, 5);
    for _ in 0..n {
        if !cx.canaries.is_empty() && t.below(3) > 0 {
            let i = t.us(cx.canaries.len());
            let (b, x, y) = &cx.canaries[i];
            inputs.push((b.clone(), (*x, *y)));
            hist.push(format!("input {} is canary {}", inputs.len() - 1, i));
        } else {
            let b = c19_input(t);
            if b.len() > 20000 {
                continue;
            }
            let d = both(&b);
            hist.push(format!("input {} of {} bytes parsed first", inputs.len(), b.len()));
            inputs.push((b, d));
        }
    }
    if inputs.is_empty() {
        return Ok(None);
    }
    let mut arena: Vec<u8> = (0..64u32 << 10).map(|i| (i.wrapping_mul(2_654_435_761) >> 13) as u8).collect();
    let mut held: Vec<Held> = Vec::new();
    let mut parses = 0u64;
    let mut kinds = 0u64;
    let ops = t.urange(3, 14);
    let bad = |hist: &[String], what: String, b: &[u8]| Err(fail("history", format!("{}; history: {}", what, hist.join(", ")), b));
    for _ in 0..ops {
        let i = t.us(inputs.len());
        let (b, want) = inputs[i].clone();
        let off = t.flip();
        let o = if off { Opt::Off } else { Opt::On };
        let want = if off { want.1 } else { want.0 };
        let op = t.below(10);
        kinds |= 1 << op;
        match op {
            0 | 1 => {
                // wherever the bytes sit, whatever surrounds them
                let at = t.us(40);
                if at + b.len() > arena.len() {
                    continue;
                }
                arena[at..at + b.len()].copy_from_slice(&b);
                hist.push(format!("parse input {} at offset {} of the arena", i, at));
                let got = dut::digest(&dut::parse(&arena[at..at + b.len()], o));
                parses += 1;
                if got != want {
                    return bad(&hist, format!("input {} gave another result than before", i), &b);
                }
            }
            2 => {
                hist.push(format!("parse and hold input {}", i));
                let buf: Box<[u8]> = b.clone().into_boxed_slice();
                let s: &'static [u8] = unsafe { std::slice::from_raw_parts(buf.as_ptr(), buf.len()) };
                parses += 1;
                match dut::guarded(|| dut::raw(s, o)) {
                    Ok(Ok(class)) => {
                        let mut h = Held { class, dump: 0, print: 0, buf };
                        match dut::guarded(|| (held_dump(&h), held_print(&h))) {
                            Ok((d, p)) => {
                                h.dump = d;
                                h.print = p;
                                if mix(&[1, d]) != want {
                                    return bad(&hist, format!("input {} gave another result than before", i), &b);
                                }
                                held.push(h);
                            }
                            Err(_) => return Ok(None),
                        }
                    }
                    Ok(Err(_)) => {}
                    Err(_) => return Ok(None),
                }
            }
            3 => {
                if let Some(h) = held.last() {
                    hist.push("iterate and print a held class".into());
                    match dut::guarded(|| (held_dump(h), held_print(h), held_dump(h))) {
                        Ok((a, p, c)) => {
                            if a != h.dump || c != h.dump || p != h.print {
                                let b = h.buf.to_vec();
                                return bad(&hist, "a held class changed".into(), &b);
                            }
                        }
                        Err(m) => {
                            let b = h.buf.to_vec();
                            return bad(&hist, format!("a held class panicked: {}", m), &b);
                        }
                    }
                }
            }
            4 => {
                if !held.is_empty() {
                    let k = t.us(held.len());
                    hist.push(format!("drop held class {}", k));
                    held.remove(k);
                }
            }
            5 => {
                let k = *t.pick(&[3usize, 20, 70, 200]);
                hist.push(format!("parse input {} {} times", i, k));
                for _ in 0..k {
                    if b.len() > 3000 && parses > 200 {
                        break;
                    }
                    parses += 1;
                    let _ = dut::accepts(&b, o);
                }
                let got = dut::digest(&dut::parse(&b, o));
                if got != want {
                    return bad(&hist, format!("input {} gave another result than before", i), &b);
                }
            }
            6 => {
                hist.push(format!("parse input {} on a new thread", i));
                let b2 = b.clone();
                let got = std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || dut::digest(&dut::parse(&b2, o)))
                    .expect("spawn")
                    .join()
                    .expect("join");
                parses += 1;
                if got != want {
                    return bad(&hist, format!("input {} gave another result on a new thread", i), &b);
                }
            }
            8 | 9 => {
                // Another input of the same length written over this one, and this one again
                let at = t.us(24);
                if at + b.len() > arena.len() || b.is_empty() {
                    continue;
                }
                let texts = text_spans(&b);
                for _ in 0..t.urange(1, 5) {
                    let (v, how) = variant(&b, &texts, t);
                    let alone = dut::digest(&dut::parse(&v.clone().into_boxed_slice(), o));
                    hist.push(format!("parse input {} at offset {}, then in its place it with {}, then it again", i, at, how));
                    arena[at..at + b.len()].copy_from_slice(&b);
                    let x = dut::digest(&dut::parse(&arena[at..at + b.len()], o));
                    arena[at..at + b.len()].copy_from_slice(&v);
                    let y = dut::digest(&dut::parse(&arena[at..at + b.len()], o));
                    arena[at..at + b.len()].copy_from_slice(&b);
                    let z = dut::digest(&dut::parse(&arena[at..at + b.len()], o));
                    parses += 4;
                    if x != want || z != want {
                        return bad(&hist, format!("input {} gave another result than before", i), &b);
                    }
                    if y != alone {
                        return bad(&hist, "the changed input gave another result than alone".into(), &v);
                    }
                }
            }
            _ => {
                // Truncations of the bytes: other inputs at the same place
                let at = 7;
                if at + b.len() > arena.len() || b.is_empty() {
                    continue;
                }
                arena[at..at + b.len()].copy_from_slice(&b);
                let k = t.us(b.len());
                hist.push(format!("parse {} bytes of input {}, then all of it, in place", k, i));
                let cut = dut::digest(&dut::parse(&arena[at..at + k], o));
                let alone = dut::digest(&dut::parse(&b[..k], o));
                let got = dut::digest(&dut::parse(&arena[at..at + b.len()], o));
                parses += 3;
                if got != want || cut != alone {
                    return bad(&hist, format!("input {} gave another result than before", i), &b);
                }
            }
        }
    }
    cx.evals += parses;
    for h in &held {
        match dut::guarded(|| (held_dump(h), held_print(h))) {
            Ok((a, p)) if a == h.dump && p == h.print => {}
            _ => {
                let b = h.buf.to_vec();
                return bad(&hist, "a held class changed".into(), &b);
            }
        }
    }
    cx.add("parses", parses);
    cx.add("operations", ops as u64);
    let nt = parses >= 2 && kinds.count_ones() >= 2;
    if nt {
        cx.sample(|| hist.join("; "));
        let mut hs: Vec<u64> = inputs.iter().map(|x| hash_bytes(&x.0)).collect();
        hs.extend(hist.iter().map(|h| hash_bytes(h.as_bytes())));
        Ok(Some(mix(&hs)))
    } else {
        Ok(None)
    }
}

/// Run one case.
pub fn case(prop: u32, t: &mut Tape, cx: &mut Cx) -> Out {
    match prop {
        1 => c01(t, cx),
        2 => c02(t, cx),
        15 => c15(t, cx),
        20 => c20(t, cx),
        #[cfg(feature = "threadsafe")]
        19 => crate::thr::case(t, cx),
        _ => class_case(prop, t, cx),
    }
}

/// Choices that select the k-th enumerated case, for k below the second value.
pub fn enum_prefix(_prop: u32, k: u64) -> Vec<u64> {
    vec![k + 1]
}
pub fn enum_count(prop: u32) -> u64 {
    match prop {
        2 | 19 | 20 => 0,
        _ => enumr::count(prop),
    }
}

pub fn rule(prop: u32) -> &'static str {
    match prop {
        1 => "A case is one input (hostile forms, mutated generated files, enumerated files, random bytes), parsed and used with both options on a 2 MiB stack; evaluations count parses. Non-trivial: more than a header with the right magic number.",
        2 => "A case is one input (hostile forms, mutated generated files, enumerated files), parsed and dropped under a counting allocator. Non-trivial: parsing it allocated at least three times.",
        3 => "Class files: enumerated flags, members and versions, then random well-formed ones, a quarter changed afterwards. Non-trivial: has a field, method or interface and is well-formed, or is malformed in the skeleton.",
        4 => "Class files: enumerated pools, then random ones with many constants, and pairs of layouts of one class. Non-trivial: well-formed by the reference reader and its constants compared.",
        5 => "Class files: every tag and version, handle kind and referent, reference site and value, then random pools with one deliberate flaw or changed afterwards. Non-trivial: well-formed, or malformed by a rule of the pool or of references to it.",
        6 => "Class files: all one- and two-byte texts, boundary three-byte ones, number patterns, then random unusual texts and numbers at every place. Non-trivial: well-formed, or malformed by an undecodable text.",
        7 => "Random well-formed class files with texts at every place; the place of every borrow is compared with the place of the bytes. Non-trivial: well-formed and accepted.",
        8 => "Random class files; for well-formed ones every prefix (or a sample), appended bytes and changed attribute lengths; evaluations count parses. Non-trivial: well-formed, or malformed in a length.",
        9 => "Class files: enumerated frame types, verification tags and table sizes, then random code attributes, some with a flaw. Non-trivial: has a code attribute and is well-formed, or is malformed in this area.",
        10 => "Class files: enumerated element tags, constants, target types and path kinds, then random annotations, some with a flaw. Non-trivial: has an annotation attribute and is well-formed, or is malformed in this area.",
        11 => "Class files: enumerated flags, constants and optional references, then random attributes, some with a flaw. Non-trivial: has one of these attributes and is well-formed, or is malformed in this area.",
        12 => "Module classes: enumerated flags and forbidden parts, then random modules, some with a flaw. Non-trivial: has a module attribute and is well-formed, or is malformed in this area.",
        13 => "Code arrays: every opcode with every kind of operand at every alignment, then random code. Non-trivial: has at least one instruction and is well-formed, or is malformed in this area.",
        14 => "Code arrays: every opcode and operand, every branching form to every nearby target, then random code, half with a flaw; lists made by hand for lookup. Non-trivial: has an instruction and is well-formed, or is malformed in this area, or a list of two or more.",
        15 => "Enumerated places of code, then generated, flawed, mutated and hostile files, each parsed with the option on, off and by default. Non-trivial: accepted with at least one code attribute, or accepted only with the option off.",
        16 => "Class files: all short texts over descriptor characters in six positions, dimensions 2..257, then random descriptors, half with a flaw; and pairs of similar descriptors. Non-trivial: has descriptors and is well-formed, or is malformed in this area.",
        17 => "Class files: all short texts over special characters in nine name positions, then random names, some illegal; and class names made directly from random texts. Non-trivial: well-formed, malformed by a name, or a name made directly.",
        18 => "Class files: enumerated pairs of members, initializers and bootstrap tables, then random ones with many similar members, half with a flaw. Non-trivial: two members or a dynamic entry and well-formed, or malformed in this area.",
        19 => "Inputs of all kinds parsed by both builds and their complete descriptions compared; and histories in which several threads parse, iterate and print shared buffers and classes at once. Non-trivial: accepted, or rejected after the header; for histories, at least two threads used an accepted class.",
        20 => "Histories of parsing (in place, at odd offsets, repeatedly, on new threads), holding, iterating, printing and dropping over several inputs, some of whose results were computed by processes of their own. Non-trivial: at least two parses and two kinds of operation.",
        _ => "Class files of the JDK runtime image and of generated Java programs compiled for several releases. Non-trivial: every file.",
    }
}
