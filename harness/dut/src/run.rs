//! Running the cases of a property in worker processes, shrinking what fails, and reporting.

use crate::cx::*;
use crate::dut;
use crate::props;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};
use vcore::tape::{self, hash_bytes, mix, Tape};

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}
pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()))
}
pub fn seed() -> u64 {
    env_u64("VERIF_SEED", 1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |v| v == "thorough")
}
pub fn pnum(s: &str) -> u32 {
    s.trim_start_matches('C').parse().expect("property")
}
pub fn pname(p: u32) -> String {
    format!("C{:02}", p)
}

/// How many random cases, beyond the enumerated ones.
fn cases(prop: u32, thorough: bool) -> u64 {
    let q = match prop {
        1 => 150_000,
        2 => 500_000,
        3 => 250_000,
        4 => 220_000,
        5 => 700_000,
        6 => 280_000,
        7 => 200_000,
        8 => 90_000,
        9 => 160_000,
        10 => 250_000,
        11 => 300_000,
        12 => 350_000,
        13 => 140_000,
        14 => 200_000,
        15 => 110_000,
        16 => 250_000,
        17 => 500_000,
        18 => 350_000,
        19 => 90_000,
        20 => 36_000,
        _ => 0,
    };
    let q = std::env::var("VH_CASES").ok().and_then(|v| v.parse().ok()).unwrap_or(q);
    if thorough {
        q * 12
    } else {
        q
    }
}

pub fn tape_for(prop: u32, ix: u64, seed: u64) -> Tape {
    let e = props::enum_count(prop);
    if ix < e {
        Tape::prefixed(props::enum_prefix(prop, ix), mix(&[seed, u64::from(prop), ix]))
    } else {
        // zero: none of the enumerated ones
        let first = if e == 0 { vec![] } else { vec![0] };
        Tape::prefixed(first, mix(&[seed, u64::from(prop), ix]))
    }
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    match std::thread::Builder::new().stack_size(1 << 30).spawn(f).expect("thread").join() {
        Ok(v) => v,
        Err(_) => {
            eprintln!("the harness itself failed");
            std::process::exit(3);
        }
    }
}

pub fn main() {
    dut::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd == "replay" {
        // the words the case was made with
        let s = fs::read_to_string(&a[2]).unwrap_or_default();
        std::env::set_var("VH_DICT", replay_field(&s, "dict").unwrap_or_default());
    } else if std::env::var_os("VH_DICT").is_none() {
        let d = std::env::var("VH_SRC").map(|d| vcore::dict::scan(Path::new(&d))).unwrap_or_default();
        std::env::set_var("VH_DICT", d);
    }
    vcore::dict::init(&std::env::var("VH_DICT").unwrap_or_default());
    if let Ok(p) = std::env::var("VH_LEAVE_INPUT") {
        let _ = dut::LEAVE_INPUT.set(p);
    }
    let code = match cmd {
        "check" => {
            let p = pnum(&a[2]);
            if p == 21 {
                crate::corpus::check()
            } else {
                check(p)
            }
        }
        "worker" => {
            let (p, shard, n, total, dir) = (pnum(&a[2]), num(&a[3]), num(&a[4]), num(&a[5]), PathBuf::from(&a[6]));
            on_big_stack(move || worker(p, shard, n, total, &dir))
        }
        "one" => {
            let (p, f) = (pnum(&a[2]), a[3].clone());
            on_big_stack(move || one(p, &f))
        }
        "ix" => {
            let (p, ix, f) = (pnum(&a[2]), num(&a[3]), a[4].clone());
            on_big_stack(move || by_index(p, ix, &f))
        }
        "digests" => {
            let (shard, n, total, f) = (num(&a[2]), num(&a[3]), num(&a[4]), a[5].clone());
            on_big_stack(move || digests(shard, n, total, &f))
        }
        "digest-tape" => {
            let f = a[2].clone();
            on_big_stack(move || {
                let t = read_tape(&f);
                let b = props::c19_input(&mut Tape::replay(t));
                println!("{:016x} {}", props::c19_digest(&b), hex(&b));
                0
            })
        }
        "canary" => {
            let k = num(&a[2]);
            on_big_stack(move || {
                let (x, y) = props::canary_digest(seed(), k);
                println!("{:016x} {:016x}", x, y);
                0
            })
        }
        "time" => {
            // where the time of a check goes, for calibration
            let (p, n) = (pnum(&a[2]), num(&a[3]));
            on_big_stack(move || times(p, n))
        }
        "file" => {
            let f = a[2].clone();
            on_big_stack(move || file(&f))
        }
        "c21worker" => {
            let (f, shard, n, dir) = (a[2].clone(), num(&a[3]), num(&a[4]), PathBuf::from(&a[5]));
            on_big_stack(move || crate::corpus::worker(&f, shard, n, &dir))
        }
        "replay" => replay(&a[2]),
        _ => {
            eprintln!("usage: vh check|replay|file ...");
            2
        }
    };
    std::process::exit(code)
}

pub fn num(s: &str) -> u64 {
    s.parse().expect("number")
}

fn read_tape(f: &str) -> Vec<u64> {
    let b = fs::read(f).expect("tape");
    b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
fn write_tape(f: &Path, t: &[u64]) {
    let b: Vec<u8> = t.iter().flat_map(|v| v.to_le_bytes()).collect();
    fs::write(f, b).expect("tape");
}

/// Say what the reference and the parser make of a file.
fn file(f: &str) -> i32 {
    let b = fs::read(f).expect("file");
    let b = if b.starts_with(b"property:") { replay_field(&String::from_utf8_lossy(&b), "input").map(|h| unhex(&h)).unwrap_or_default() } else { b };
    let r = vcore::refp::read(&b);
    println!("reference: {:?}; code: {:?}", r.verdict, r.bytecode);
    for o in [dut::Opt::On, dut::Opt::Off] {
        match dut::parse(&b, o) {
            dut::P::Ok(n) => {
                println!("{:?}: accepted", o);
                if let Some(t) = &r.tree {
                    println!("  {:?}", vcore::node::diff(t, &n, vcore::node::ALL));
                }
            }
            p => println!("{:?}: {:?}", o, p),
        }
    }
    0
}

fn times(prop: u32, n: u64) -> i32 {
    let mut cx = Cx::new(seed(), false, 0);
    let e = props::enum_count(prop);
    let mut v: Vec<(f64, u64)> = vec![];
    for ix in e..e + n {
        let mut t = tape_for(prop, ix, cx.seed);
        let g = Instant::now();
        let _ = props::case(prop, &mut t, &mut cx);
        v.push((g.elapsed().as_secs_f64() * 1e6, ix));
    }
    v.sort_by(|a, b| b.0.total_cmp(&a.0));
    let sum: f64 = v.iter().map(|x| x.0).sum();
    println!("total {:.2} s, median {:.0} us", sum / 1e6, v[v.len() / 2].0);
    for k in [1, 10, 100, 1000, 10000] {
        let s: f64 = v.iter().take(k).map(|x| x.0).sum();
        println!("top {}: {:.1}%", k, 100.0 * s / sum);
    }
    println!("slowest {:?}", &v[..v.len().min(8)]);
    0
}

// ---- workers

fn spawn_canaries(cx: &mut Cx, seed: u64) {
    let exe = std::env::current_exe().expect("exe");
    for k in 0..48u64 {
        let o = Command::new(&exe).arg("canary").arg(k.to_string()).output().expect("canary");
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        let v: Vec<u64> = s.split_whitespace().filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
        if v.len() == 2 {
            cx.canaries.push((props::canary(seed, k), v[0], v[1]));
        }
    }
}

fn prepare(prop: u32, cx: &mut Cx) {
    if prop == 20 {
        let s = cx.seed;
        spawn_canaries(cx, s);
    }
}

fn worker(prop: u32, shard: u64, n: u64, total: u64, dir: &Path) -> i32 {
    let mark = fs::File::create(dir.join(format!("mark{}", shard))).expect("mark");
    let mut cx = Cx::new(seed(), thorough(), if shard < 4 { 2 } else { 0 });
    prepare(prop, &mut cx);
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut ran = 0u64;
    let mut lost = 0u64;
    let mut ix = shard;
    let mut out = String::new();
    let known = known_findings(prop);
    while ix < total {
        let _ = mark.write_at(&(ix + 1).to_le_bytes(), 0);
        let mut t = tape_for(prop, ix, cx.seed);
        ran += 1;
        // a fault of the harness itself costs the case, not the check
        let outcome = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::case(prop, &mut t, &mut cx))) {
            Ok(o) => o,
            Err(_) => {
                cx.hit("cases lost to a fault of the harness");
                lost += 1;
                if lost > 20 && lost * 1000 > ran {
                    return 3;
                }
                Ok(None)
            }
        };
        match outcome {
            Ok(Some(h)) => {
                hashes.insert(h);
            }
            Ok(None) => {}
            Err(f) => {
                // should the search for a smaller case end the process, this one stands
                let part = dir.join(format!("found{}", shard));
                write_violation(&part, prop, &f, &t.record);
                let (tp, f) = shrink_in_process(prop, t.record, f, &mut cx, &mark, &part);
                let _ = fs::remove_file(&part);
                let key = format!("{}:{:016x}", f.kind, hash_bytes(&f.input));
                if known.contains(&key) {
                    out.push_str(&format!("known {}\n", key));
                } else {
                    write_violation(&dir.join(format!("violation{}", shard)), prop, &f, &tp);
                    break;
                }
            }
        }
        ix += n;
    }
    out.push_str(&format!("ran {}\nevals {}\n", ran, cx.evals));
    for (k, v) in &cx.stats {
        out.push_str(&format!("stat {}\t{}\n", k, v));
    }
    for s in &cx.samples {
        out.push_str(&format!("sample {}\n", s.replace('\n', " ")));
    }
    let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
    fs::write(dir.join(format!("hashes{}", shard)), hb).expect("hashes");
    fs::write(dir.join(format!("done{}", shard)), out).expect("done");
    0
}

fn shrink_in_process(prop: u32, start: Vec<u64>, f: Fail, cx: &mut Cx, mark: &fs::File, part: &Path) -> (Vec<u64>, Fail) {
    let kind = f.kind.clone();
    let mut best = f;
    let began = Instant::now();
    let mut c2 = Cx::new(cx.seed, cx.thorough, 0);
    c2.canaries = cx.canaries.clone();
    let mut beat = 1u64 << 60;
    let (tp, _) = tape::shrink(start, 6000, &mut |cand| {
        if began.elapsed() > Duration::from_secs(45) {
            return None;
        }
        beat += 1;
        let _ = mark.write_at(&beat.to_le_bytes(), 0);
        let mut t = Tape::replay(cand.to_vec());
        // a fault of the harness on a smaller case only makes that one unsuitable
        let outcome = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::case(prop, &mut t, &mut c2)));
        match outcome {
            Ok(Err(g)) if g.kind == kind => {
                best = g;
                // trailing zeros are what an exhausted tape gives anyway
                let mut r = t.record;
                while r.last() == Some(&0) {
                    r.pop();
                }
                write_violation(part, prop, &best, &r);
                Some(r)
            }
            _ => None,
        }
    });
    (tp, best)
}

pub fn write_violation(p: &Path, prop: u32, f: &Fail, tp: &[u64]) {
    let t: Vec<String> = tp.iter().map(|v| v.to_string()).collect();
    let s = format!(
        "property: {}\nkind: {}\ndetail: {}\nseed: {}\ntier: {}\ninput: {}\ntape: {}\ndict: {}\n",
        pname(prop),
        f.kind,
        f.detail.replace('\n', " "),
        seed(),
        if thorough() { "thorough" } else { "quick" },
        hex(&f.input),
        t.join(","),
        std::env::var("VH_DICT").unwrap_or_default()
    );
    let tmp = p.with_extension("tmp");
    fs::write(&tmp, s).expect("violation");
    fs::rename(&tmp, p).expect("violation");
}

fn by_index(prop: u32, ix: u64, echo: &str) -> i32 {
    let mut cx = Cx::new(seed(), thorough(), 0);
    prepare(prop, &mut cx);
    let mut t = tape_for(prop, ix, cx.seed);
    let mut f = fs::File::create(echo).expect("echo");
    t.echo = Some(Box::new(move |v| {
        let _ = f.write_all(&v.to_le_bytes());
    }));
    report_one(props::case(prop, &mut t, &mut cx))
}
fn one(prop: u32, f: &str) -> i32 {
    let mut cx = Cx::new(seed(), thorough(), 0);
    prepare(prop, &mut cx);
    let mut t = Tape::replay(read_tape(f));
    report_one(props::case(prop, &mut t, &mut cx))
}
fn report_one(o: Out) -> i32 {
    match o {
        Ok(_) => 0,
        Err(f) => {
            println!("{}: {}", f.kind, f.detail);
            1
        }
    }
}

fn digests(shard: u64, n: u64, total: u64, f: &str) -> i32 {
    let mut w = std::io::BufWriter::new(fs::File::create(f).expect("digests"));
    let mark = fs::File::create(format!("{}.mark", f)).expect("mark");
    let mut ix = shard;
    while ix < total {
        let _ = mark.write_at(&(ix + 1).to_le_bytes(), 0);
        let mut t = Tape::random(mix(&[seed(), 19, ix]));
        let b = props::c19_input(&mut t);
        let d = props::c19_digest(&b);
        w.write_all(&d.to_le_bytes()).expect("write");
        let nt = if b.len() > 10 { hash_bytes(&b) } else { 0 };
        w.write_all(&nt.to_le_bytes()).expect("write");
        ix += n;
    }
    w.flush().expect("flush");
    fs::write(format!("{}.done", f), "").expect("done");
    0
}

// ---- the orchestrator

/// Entries of the known-findings file for a property: "kind:hash of input".
pub fn known_findings(prop: u32) -> HashSet<String> {
    let s = fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let tag = format!("property={} ", pname(prop));
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| l.strip_prefix(&tag))
        .filter_map(|l| l.split_whitespace().next())
        .map(|s| s.to_string())
        .collect()
}

#[derive(Default)]
pub struct Tally {
    pub ran: u64,
    pub evals: u64,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub hashes: HashSet<u64>,
    pub known: Vec<String>,
}

impl Tally {
    pub fn read(&mut self, dir: &Path, shard: u64) {
        let s = fs::read_to_string(dir.join(format!("done{}", shard))).unwrap_or_default();
        for l in s.lines() {
            if let Some(v) = l.strip_prefix("ran ") {
                self.ran += num(v);
            } else if let Some(v) = l.strip_prefix("evals ") {
                self.evals += num(v);
            } else if let Some(v) = l.strip_prefix("stat ") {
                if let Some((k, n)) = v.split_once('\t') {
                    let e = self.stats.entry(k.to_string()).or_insert(0);
                    if k.starts_with("max ") {
                        *e = (*e).max(num(n));
                    } else {
                        *e += num(n);
                    }
                }
            } else if let Some(v) = l.strip_prefix("sample ") {
                self.samples.push(v.to_string());
            } else if let Some(v) = l.strip_prefix("known ") {
                self.known.push(v.to_string());
            }
        }
        let h = fs::read(dir.join(format!("hashes{}", shard))).unwrap_or_default();
        for c in h.chunks_exact(8) {
            self.hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

pub fn scratch(name: &str) -> PathBuf {
    let d = root().join("target").join(format!("run-{}-{}", name, std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).expect("scratch");
    d
}

/// CPU seconds used by a process, and whether all its threads sleep.
fn cpu(pid: u32) -> Option<(f64, bool)> {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let v: Vec<&str> = r.split_whitespace().collect();
    let t: f64 = v.get(11)?.parse::<f64>().ok()? + v.get(12)?.parse::<f64>().ok()?;
    let mut asleep = true;
    for e in fs::read_dir(format!("/proc/{}/task", pid)).ok()? {
        let e = e.ok()?;
        if let Ok(s) = fs::read_to_string(e.path().join("stat")) {
            if let Some(i) = s.rfind(')') {
                if !s[i + 2..].starts_with('S') {
                    asleep = false;
                }
            }
        }
    }
    Some((t / 100.0, asleep))
}

pub enum End {
    Done,
    /// ended abnormally; what it was working on
    Crash(u64, String),
    /// made no progress; what it was working on, and whether it was blocked rather than busy
    Stuck(u64, bool),
}

fn mark_of(p: &Path) -> u64 {
    fs::read(p).ok().and_then(|b| b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))).unwrap_or(0)
}

/// Wait for workers; `stop` is polled to end early (a violation elsewhere).
pub fn wait_all(mut kids: Vec<(Child, PathBuf, PathBuf)>, stop: &dyn Fn() -> bool) -> Vec<End> {
    let n = kids.len();
    let mut ends: Vec<Option<End>> = (0..n).map(|_| None).collect();
    let mut last: Vec<(u64, f64, Instant, u32)> = vec![(0, 0.0, Instant::now(), 0); n];
    let mut tick = 0u64;
    loop {
        let mut open = 0;
        for (i, (k, mark, done)) in kids.iter_mut().enumerate() {
            if ends[i].is_some() {
                continue;
            }
            if let Ok(Some(st)) = k.try_wait() {
                ends[i] = Some(if st.success() && done.exists() {
                    End::Done
                } else {
                    let m = mark_of(mark);
                    End::Crash(m.wrapping_sub(1), format!("{:?} signal {:?}", st.code(), st.signal()))
                });
                continue;
            }
            open += 1;
            if tick % 20 == 0 {
                let m = mark_of(mark);
                let (c, asleep) = cpu(k.id()).unwrap_or((0.0, false));
                let l = &mut last[i];
                if m != l.0 {
                    *l = (m, c, Instant::now(), 0);
                } else {
                    if asleep && c - l.1 < 0.2 {
                        l.3 += 1;
                    } else if !asleep {
                        l.3 = 0;
                    }
                    let busy = c - l.1 > 40.0;
                    // asleep at every look for forty seconds
                    let blocked = l.3 >= 40 && l.2.elapsed() > Duration::from_secs(40);
                    if busy || blocked {
                        let _ = k.kill();
                        let _ = k.wait();
                        ends[i] = Some(End::Stuck(m.wrapping_sub(1), blocked));
                    }
                }
            }
        }
        if open == 0 {
            break;
        }
        if stop() {
            for (i, (k, _, _)) in kids.iter_mut().enumerate() {
                if ends[i].is_none() {
                    let _ = k.kill();
                    let _ = k.wait();
                    ends[i] = Some(End::Done);
                }
            }
            break;
        }
        tick += 1;
        std::thread::sleep(Duration::from_millis(50));
    }
    ends.into_iter().map(|e| e.unwrap()).collect()
}

pub fn shards() -> u64 {
    env_u64("VH_SHARDS", std::thread::available_parallelism().map_or(8, |n| n.get() as u64).clamp(2, 16))
}

pub struct Report {
    pub prop: u32,
    pub began: Instant,
    pub tally: Tally,
    pub violation: Option<PathBuf>,
    pub assumptions: Vec<String>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Write the evidence, print the outcome, and give the exit code.
pub fn finish(mut r: Report) -> i32 {
    let dir = root().join("evidence");
    fs::create_dir_all(&dir).expect("evidence");
    let name = pname(r.prop);
    let mut replay = None;
    if let Some(v) = &r.violation {
        let b = fs::read(v).expect("violation");
        let d = dir.join("replays");
        fs::create_dir_all(&d).expect("replays");
        let p = d.join(format!("{}-{:016x}.txt", name, hash_bytes(&b)));
        fs::write(&p, b).expect("replay");
        replay = Some(p);
    }
    r.tally.samples.truncate(8);
    let samples: Vec<String> = r.tally.samples.iter().map(|s| js(s)).collect();
    let dist: Vec<String> = r.tally.stats.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let ass: Vec<String> = r.assumptions.iter().map(|s| js(s)).collect();
    let j = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"cases\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"distribution\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(&name),
        js(if thorough() { "thorough" } else { "quick" }),
        seed(),
        r.tally.evals,
        r.tally.ran,
        r.tally.hashes.len(),
        js(props::rule(r.prop)),
        samples.join(", "),
        dist.join(", "),
        ass.join(", "),
        r.began.elapsed().as_secs_f64(),
        u32::from(replay.is_some())
    );
    fs::write(dir.join(format!("{}.json", name)), j).expect("evidence");
    let mut known = r.tally.known.clone();
    known.sort();
    known.dedup();
    for k in known {
        println!("KNOWN-FINDING: property={} {}", name, k);
    }
    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s",
        name,
        r.tally.ran,
        r.tally.evals,
        r.tally.hashes.len(),
        r.began.elapsed().as_secs_f64()
    );
    match replay {
        Some(p) => {
            let s = fs::read_to_string(&p).unwrap_or_default();
            for f in ["kind", "detail"] {
                println!("  {}: {}", f, replay_field(&s, f).unwrap_or_default().chars().take(400).collect::<String>());
            }
            println!("VIOLATION property={} replay={}", name, p.display());
            1
        }
        None => 0,
    }
}

fn replay_field(s: &str, f: &str) -> Option<String> {
    let tag = format!("{}: ", f);
    s.lines().find_map(|l| l.strip_prefix(&tag)).map(|x| x.to_string())
}

pub struct Ended {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    /// All its threads slept for twenty seconds; it was ended.
    pub blocked: bool,
    pub out: String,
    pub err: String,
}

/// Run a program with a limit of 60 s of CPU time, and end it if it only sleeps.
pub fn run_limited(exe: &Path, args: &[std::ffi::OsString], env: &[(&str, &Path)], tmp: &Path) -> Ended {
    let (fo, fe) = (tmp.with_extension("o"), tmp.with_extension("e"));
    let mut c = Command::new("sh");
    c.arg("-c").arg("ulimit -t 60; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).args(args);
    for (k, v) in env {
        c.env(k, v);
    }
    c.stdout(fs::File::create(&fo).expect("out")).stderr(fs::File::create(&fe).expect("err"));
    let mut k = c.spawn().expect("sh");
    let mut blocked = false;
    let mut since = (Instant::now(), 0.0);
    let mut nap = 1;
    let st = loop {
        if let Some(st) = k.try_wait().expect("wait") {
            break st;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(250);
        if nap == 250 {
            match cpu(k.id()) {
                Some((c, true)) if c - since.1 < 0.2 => {}
                Some((c, _)) => since = (Instant::now(), c),
                None => {}
            }
            if since.0.elapsed() > Duration::from_secs(20) {
                blocked = true;
                let _ = k.kill();
            }
        }
    };
    let text = |p: &Path| String::from_utf8_lossy(&fs::read(p).unwrap_or_default()).to_string();
    Ended { code: st.code(), signal: st.signal(), blocked, out: text(&fo), err: text(&fe) }
}

/// Run a single case in a process of its own: its exit code and what it printed, or None if it crashed, blocked,
/// or took over a minute of CPU time.
pub fn run_apart(exe: &Path, args: &[String], leave: &Path) -> (Option<i32>, String) {
    let args: Vec<std::ffi::OsString> = args.iter().map(|x| x.into()).collect();
    let e = run_limited(exe, &args, &[("VH_LEAVE_INPUT", leave)], leave);
    if e.blocked {
        return (None, "blocked: all threads asleep".to_string());
    }
    match e.code {
        Some(c) if c == 0 || c == 1 || c == 3 => (Some(c), e.out),
        c => {
            let last: String = e.err.lines().filter(|l| !l.trim().is_empty()).last().unwrap_or("").chars().take(200).collect();
            (None, format!("exit {:?}, signal {:?}: {}", c, e.signal, last))
        }
    }
}

/// A worker ended without an answer at case `ix`: reproduce it alone, and shrink it.
fn investigate(prop: u32, exe: &Path, ix: u64, dir: &Path, how: &str) -> Result<PathBuf, String> {
    let echo = dir.join("echo");
    let leave = dir.join("left");
    let _ = fs::remove_file(&leave);
    let (c, what) = run_apart(exe, &["ix".into(), pname(prop), ix.to_string(), echo.display().to_string()], &leave);
    let start = read_tape(&echo.display().to_string());
    match c {
        None => {}
        Some(1) => {
            // alone it gets as far as being reported
            let (kind, detail) = what.split_once(": ").unwrap_or(("crash", &what));
            let p = dir.join("violation-crash");
            let input = fs::read(&leave).unwrap_or_default();
            write_violation(&p, prop, &fail(kind, format!("{} (and among other cases the process ended: {})", detail.trim_end(), how), &input), &start);
            return Ok(p);
        }
        Some(c) => return Err(format!("worker ended ({}) at case {}, which alone exits with {}", how, ix, c)),
    }
    let mut detail = what.clone();
    let tf = dir.join("cand");
    let began = Instant::now();
    let slow = what.contains("signal Some(24)") || what.contains("signal Some(9)") || what.contains("blocked");
    let (tp, _) = tape::shrink(start, if slow { 6 } else { 400 }, &mut |cand| {
        if began.elapsed() > Duration::from_secs(90) {
            return None;
        }
        write_tape(&tf, cand);
        let (c, w) = run_apart(exe, &["one".into(), pname(prop), tf.display().to_string()], &leave);
        if c.is_none() {
            detail = w;
            Some(cand.to_vec())
        } else {
            None
        }
    });
    write_tape(&tf, &tp);
    let _ = run_apart(exe, &["one".into(), pname(prop), tf.display().to_string()], &leave);
    let input = fs::read(&leave).unwrap_or_default();
    let p = dir.join("violation-crash");
    let kind = if slow { "hang" } else { "crash" };
    write_violation(&p, prop, &fail(kind, format!("the process ended: {}", detail), &input), &tp);
    Ok(p)
}

fn check(prop: u32) -> i32 {
    let began = Instant::now();
    let dir = scratch(&pname(prop));
    let mut rep = Report { prop, began, tally: Tally::default(), violation: None, assumptions: assumptions(prop) };
    let exe = std::env::current_exe().expect("exe");
    let mut code = None;
    if prop == 19 {
        match compare_builds(&mut rep, &dir, &exe) {
            Ok(()) => {}
            Err(e) => {
                eprintln!("{}", e);
                code = Some(2);
            }
        }
    }
    if code.is_none() && rep.violation.is_none() {
        let (exe, total, n) = if prop == 19 {
            (PathBuf::from(std::env::var("VH_OTHER").unwrap_or_default()), if thorough() { 40_000 } else { 4_000 }, 3)
        } else {
            (exe, props::enum_count(prop) + cases(prop, thorough()), shards())
        };
        if let Err(e) = workers(prop, &exe, total, n, &dir, &mut rep) {
            eprintln!("{}", e);
            code = Some(2);
        }
    }
    let r = match code {
        Some(c) => c,
        None => finish(rep),
    };
    let _ = fs::remove_dir_all(&dir);
    r
}

fn workers(prop: u32, exe: &Path, total: u64, n: u64, dir: &Path, rep: &mut Report) -> Result<(), String> {
    let mut kids = vec![];
    for s in 0..n {
        let k = Command::new(exe)
            .args(["worker".to_string(), pname(prop), s.to_string(), n.to_string(), total.to_string(), dir.display().to_string()])
            .stderr(fs::File::create(dir.join(format!("err{}", s))).expect("err"))
            .spawn()
            .map_err(|e| e.to_string())?;
        kids.push((k, dir.join(format!("mark{}", s)), dir.join(format!("done{}", s))));
    }
    let found = || (0..n).any(|s| dir.join(format!("violation{}", s)).exists());
    let ends = wait_all(kids, &found);
    for s in 0..n {
        rep.tally.read(dir, s);
        let v = dir.join(format!("violation{}", s));
        if v.exists() && rep.violation.is_none() {
            rep.violation = Some(v);
        }
    }
    if rep.violation.is_some() {
        return Ok(());
    }
    for (s, e) in ends.iter().enumerate() {
        let (ix, how, blocked) = match e {
            End::Done => continue,
            End::Crash(ix, how) => {
                if how.contains("Some(3)") {
                    return Err(format!("harness failure in shard {}: {}", s, fs::read_to_string(dir.join(format!("err{}", s))).unwrap_or_default()));
                }
                (*ix, how.clone(), false)
            }
            End::Stuck(ix, b) => (*ix, "no progress".to_string(), *b),
        };
        if blocked && prop == 19 {
            // Blocking depends on the schedule: the case is reported as seen.
            let p = dir.join("violation-blocked");
            let mut t = tape_for(prop, ix, seed());
            let input = props::c19_input(&mut t);
            write_violation(&p, prop, &fail("blocked", format!("threads using the parser all sleep, case {}", ix), &input), &t.record);
            rep.violation = Some(p);
            return Ok(());
        }
        let part = dir.join(format!("found{}", s));
        if ix >= 1 << 60 && part.exists() {
            // the process ended while a smaller case was looked for
            rep.violation = Some(part);
            return Ok(());
        }
        match investigate(prop, exe, ix, dir, &how) {
            Ok(p) => {
                rep.violation = Some(p);
                return Ok(());
            }
            Err(e) => {
                eprintln!("{}", e);
                rep.violation = Some(once_more(prop, exe, s as u64, n, total, ix, dir).ok_or(e)?);
                return Ok(());
            }
        }
    }
    Ok(())
}

/// A worker ended at a case that alone does nothing of the kind: does it, after the cases before it?
fn once_more(prop: u32, exe: &Path, s: u64, n: u64, total: u64, ix: u64, dir: &Path) -> Option<PathBuf> {
    let input = fs::read(dir.join("left")).unwrap_or_default();
    let tape = read_tape(&dir.join("echo").display().to_string());
    again(prop, exe, &["worker".to_string(), pname(prop), s.to_string(), n.to_string(), total.to_string()], s, (ix, ix / n), dir, &input, &tape)
}

/// Run a worker again by itself; the violation, if it ends in the same place.
#[allow(clippy::too_many_arguments)]
pub fn again(prop: u32, exe: &Path, args: &[String], s: u64, (ix, before): (u64, u64), dir: &Path, input: &[u8], tape: &[u64]) -> Option<PathBuf> {
    let d = dir.join("again");
    fs::create_dir_all(&d).ok()?;
    let k = Command::new(exe).args(args).arg(&d).stderr(Stdio::null()).spawn().ok()?;
    let v = d.join(format!("violation{}", s));
    let ends = wait_all(vec![(k, d.join(format!("mark{}", s)), d.join(format!("done{}", s)))], &|| v.exists());
    if v.exists() {
        return Some(v);
    }
    let part = d.join(format!("found{}", s));
    if part.exists() {
        return Some(part);
    }
    let (i, kind, how) = match ends.first()? {
        End::Crash(i, how) if !how.contains("Some(3)") && !how.contains("signal Some(9)") => (*i, "crash", how.clone()),
        End::Stuck(i, b) => (*i, "hang", if *b { "blocked".to_string() } else { "busy".to_string() }),
        _ => return None,
    };
    if i != ix {
        return None;
    }
    let p = d.join("violation-history");
    let what = format!("twice the process ended ({}) at this input after {} others, not at it alone", how, before);
    write_violation(&p, prop, &fail(kind, what, input), tape);
    Some(p)
}

fn compare_builds(rep: &mut Report, dir: &Path, exe: &Path) -> Result<(), String> {
    let other = std::env::var("VH_OTHER").unwrap_or_default();
    if other.is_empty() || !Path::new(&other).exists() {
        let log = std::env::var("VH_OTHER_LOG").unwrap_or_default();
        let s = fs::read_to_string(&log).unwrap_or_default();
        let p = dir.join("violation-build");
        let brief: String = s.lines().filter(|l| l.starts_with("error")).take(5).collect::<Vec<_>>().join(" / ");
        write_violation(&p, 19, &fail("build", format!("the default build compiles but the threadsafe build does not: {}", brief), &[]), &[]);
        rep.violation = Some(p);
        return Ok(());
    }
    let other = PathBuf::from(other);
    let total = cases(19, thorough());
    let n = (shards() / 2).max(1);
    let mut kids = vec![];
    for (b, e) in [exe, &other].iter().enumerate() {
        for s in 0..n {
            let f = dir.join(format!("dig{}-{}", b, s));
            let k = Command::new(e)
                .args(["digests".to_string(), s.to_string(), n.to_string(), total.to_string(), f.display().to_string()])
                .stderr(fs::File::create(dir.join(format!("derr{}-{}", b, s))).expect("err"))
                .spawn()
                .map_err(|e| e.to_string())?;
            kids.push((k, PathBuf::from(format!("{}.mark", f.display())), PathBuf::from(format!("{}.done", f.display()))));
        }
    }
    let ends = wait_all(kids, &|| false);
    let mut suspects: Vec<u64> = vec![];
    for e in &ends {
        match e {
            End::Done => {}
            // one build crashed or hung there: compare the two on that case
            End::Crash(ix, _) | End::Stuck(ix, _) => suspects.push(*ix),
        }
    }
    for s in 0..n {
        let a = fs::read(dir.join(format!("dig0-{}", s))).unwrap_or_default();
        let b = fs::read(dir.join(format!("dig1-{}", s))).unwrap_or_default();
        for (i, (x, y)) in a.chunks_exact(16).zip(b.chunks_exact(16)).enumerate() {
            rep.tally.ran += 1;
            rep.tally.evals += 2;
            let h = u64::from_le_bytes(y[8..].try_into().unwrap());
            if h != 0 {
                rep.tally.hashes.insert(h);
            }
            if x != y {
                suspects.push(s + i as u64 * n);
            }
        }
    }
    suspects.sort();
    suspects.dedup();
    let tf = dir.join("cand");
    let leave = dir.join("left");
    let ask = |e: &Path, t: &[u64]| -> String {
        write_tape(&tf, t);
        let e = run_limited(e, &["digest-tape".into(), tf.clone().into()], &[], &leave);
        match (e.blocked, e.code) {
            (true, _) => "ended: blocked".to_string(),
            (_, Some(0)) => e.out,
            (_, c) => format!("ended {:?} {:?}", c, e.signal),
        }
    };
    for ix in suspects {
        let mut t = Tape::random(mix(&[seed(), 19, ix]));
        let input = props::c19_input(&mut t);
        let (a, b) = (ask(exe, &t.record), ask(&other, &t.record));
        if a == b {
            if a.starts_with("ended") {
                // both builds end in the same way: not a difference between them
                continue;
            }
            continue;
        }
        let began = Instant::now();
        let mut bytes = input;
        let (tp, _) = tape::shrink(t.record.clone(), 400, &mut |cand| {
            if began.elapsed() > Duration::from_secs(60) {
                return None;
            }
            let (a, b) = (ask(exe, cand), ask(&other, cand));
            if a != b {
                let w = if a.starts_with("ended") { &b } else { &a };
                if let Some(h) = w.split_whitespace().nth(1) {
                    bytes = unhex(h);
                }
                Some(cand.to_vec())
            } else {
                None
            }
        });
        let p = dir.join("violation-builds");
        write_violation(&p, 19, &fail("builds-differ", "the default and the threadsafe build report different results for this input", &bytes), &tp);
        rep.violation = Some(p);
        return Ok(());
    }
    Ok(())
}

pub fn assumptions(prop: u32) -> Vec<String> {
    let mut v = vec!["The reference reader in harness/core reads the class file format as the JVM specification (Java SE 21) and the listed property state it; inputs on which they are silent are not judged.".to_string()];
    match prop {
        1 => v.push("Built with overflow checks and debug assertions; the stack of an ordinary thread is 2 MiB.".into()),
        2 => v.push(format!("Memory is what the global allocator was asked for; the bound is {} MiB plus {} bytes per byte of input.", props::ALLOWANCE >> 20, props::FACTOR)),
        19 => v.push("Schedules are those that contention on this machine produces; they are not enumerated.".into()),
        _ => {}
    }
    v
}

/// Run a replay file again: exit 1 if it still fails.
fn replay(f: &str) -> i32 {
    let s = fs::read_to_string(f).expect("replay file");
    let prop = pnum(&replay_field(&s, "property").expect("property"));
    let tp: Vec<u64> = replay_field(&s, "tape").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect();
    let kind = replay_field(&s, "kind").unwrap_or_default();
    if prop == 21 {
        return crate::corpus::replay(&unhex(&replay_field(&s, "input").unwrap_or_default()));
    }
    if kind == "builds-differ" {
        let b = unhex(&replay_field(&s, "input").unwrap_or_default());
        println!("this build: {:016x}", props::c19_digest(&b));
        return 0;
    }
    let dir = scratch("replay");
    let tf = dir.join("tape");
    write_tape(&tf, &tp);
    let exe = std::env::current_exe().expect("exe");
    std::env::set_var("VERIF_SEED", replay_field(&s, "seed").unwrap_or_default());
    std::env::set_var("VERIF_TIER", replay_field(&s, "tier").unwrap_or_default());
    let st = Command::new(exe).args(["one".to_string(), pname(prop), tf.display().to_string()]).status().expect("one");
    let _ = fs::remove_dir_all(&dir);
    match st.code() {
        Some(0) => {
            println!("no failure");
            0
        }
        c => {
            println!("fails: {:?}", c);
            1
        }
    }
}
