//! Class files made by a real compiler (C21): the runtime image, the compiler's descriptions of older
//! runtimes, and generated programs compiled for several releases.

use crate::cx::*;
use crate::dut::{self, Opt};
use crate::javagen;
use crate::props;
use crate::run::*;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;
use vcore::node::ALL;
use vcore::refp::{self, Verdict};
use vcore::tape::{hash_bytes, mix};

struct Files {
    data: Vec<u8>,
    /// name and contents of each file, as ranges of `data`
    at: Vec<(std::ops::Range<usize>, std::ops::Range<usize>)>,
}

impl Files {
    fn load(f: &Path) -> Files {
        let data = fs::read(f).expect("corpus");
        let mut at = vec![];
        let mut p = 0;
        let len = |p: usize| u32::from_be_bytes(data[p..p + 4].try_into().unwrap()) as usize;
        while p < data.len() {
            let n = len(p);
            let name = p + 4..p + 4 + n;
            p += 4 + n;
            let n = len(p);
            at.push((name, p + 4..p + 4 + n));
            p += 4 + n;
        }
        Files { data, at }
    }
    fn get(&self, i: usize) -> (String, &[u8]) {
        let (n, b) = &self.at[i];
        (String::from_utf8_lossy(&self.data[n.clone()]).to_string(), &self.data[b.clone()])
    }
}

fn judge(b: &[u8], cx: &mut Cx) -> Result<(), Fail> {
    let r = refp::read(b);
    for o in [Opt::On, Opt::Off] {
        let v = if o == Opt::On { r.with_bytecode() } else { r.verdict.clone() };
        if !matches!(v, Verdict::Accept) {
            cx.hit("not read by the reference");
            if std::env::var("VH_VERBOSE").is_ok() {
                eprintln!("reference: {:?}", v);
            }
        }
        props::judge_with(21, b, o, ALL, true, &r, cx)?;
        // whatever the reference makes of it, the compiler says that it is well-formed
        cx.evals += 1;
        match dut::accepts(b, o) {
            Ok(true) => {}
            Ok(false) => {
                let e = dut::guarded(|| dut::raw(b, o).err().map(|e| e.to_string())).unwrap_or_default().unwrap_or_default();
                return Err(fail("rejects-well-formed", format!("rejected: {}", e), b));
            }
            Err(m) => return Err(fail("panic", m, b)),
        }
    }
    for a in &r.stats.attrs {
        cx.hit(&format!("attribute {}", a));
    }
    cx.hit(&format!("version {}", r.stats.major));
    cx.add("instructions", r.stats.insns as u64);
    for k in 0..256usize {
        if r.stats.opcodes_seen[k / 64] >> (k % 64) & 1 != 0 {
            cx.max(&format!("opcode {}", k), 1);
        }
    }
    Ok(())
}

pub fn worker(f: &str, shard: u64, n: u64, dir: &Path) -> i32 {
    use std::os::unix::fs::FileExt;
    let files = Files::load(Path::new(f));
    let mark = fs::File::create(dir.join(format!("mark{}", shard))).expect("mark");
    let mut cx = Cx::new(seed(), thorough(), 0);
    let mut hashes: Vec<u8> = vec![];
    let mut out = String::new();
    let known = known_findings(21);
    let mut worst: Option<(usize, Fail)> = None;
    let mut ran = 0;
    let mut ix = shard;
    while (ix as usize) < files.at.len() {
        let _ = mark.write_at(&(ix + 1).to_le_bytes(), 0);
        let (name, b) = files.get(ix as usize);
        ran += 1;
        match judge(b, &mut cx) {
            Ok(()) => hashes.extend_from_slice(&hash_bytes(b).to_le_bytes()),
            Err(mut e) => {
                e.detail = format!("{}: {}", name, e.detail);
                let key = format!("{}:{:016x}", e.kind, hash_bytes(b));
                if std::env::var("VH_VERBOSE").is_ok() {
                    eprintln!("{}: {}", e.kind, e.detail);
                }
                if known.contains(&key) {
                    out.push_str(&format!("known {}\n", key));
                } else if worst.as_ref().map_or(true, |w| b.len() < w.0) {
                    worst = Some((b.len(), e));
                }
            }
        }
        if shard < 4 && ran == 5 {
            out.push_str(&format!("sample {} ({} bytes)\n", name, b.len()));
        }
        ix += n;
    }
    if let Some((_, e)) = worst {
        write_violation(&dir.join(format!("violation{}", shard)), 21, &e, &[]);
    }
    out.push_str(&format!("ran {}\nevals {}\n", ran, cx.evals));
    for (k, v) in &cx.stats {
        out.push_str(&format!("stat {}\t{}\n", k, v));
    }
    fs::write(dir.join(format!("hashes{}", shard)), hashes).expect("hashes");
    fs::write(dir.join(format!("done{}", shard)), out).expect("done");
    0
}

/// Gather the files; what the compiler said is returned.
fn gather(dir: &Path) -> Result<(PathBuf, String, u64), String> {
    let src = dir.join("sources");
    fs::create_dir_all(&src).map_err(|e| e.to_string())?;
    let n = match std::env::var("VH_CASES").ok().and_then(|v| v.parse().ok()) {
        Some(n) => n,
        None if thorough() => 12_000,
        None => 2500,
    };
    for k in 0..n {
        let (name, text) = javagen::program(&mut vcore::tape::Tape::random(mix(&[seed(), 21, k])), k);
        fs::write(src.join(name), text).map_err(|e| e.to_string())?;
    }
    let out = dir.join("corpus.bin");
    let prog = root().join("corpus").join("Corpus.java");
    let o = Command::new("java")
        .arg("-Xmx4g")
        .arg("-Xss16m")
        .arg(&prog)
        .arg(&out)
        .args(["--runtime", "--symbols", "--sources"])
        .arg(&src)
        .current_dir(dir)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| format!("java: {}", e))?;
    let said = String::from_utf8_lossy(&o.stdout).to_string();
    if !o.status.success() {
        return Err(format!("gathering class files failed: {} {}", said, String::from_utf8_lossy(&o.stderr)));
    }
    Ok((out, said, n))
}

pub fn check() -> i32 {
    let began = Instant::now();
    let dir = scratch("C21");
    let mut rep = Report { prop: 21, began, tally: Tally::default(), violation: None, assumptions: assumptions(21) };
    let (f, said, sources) = match gather(&dir) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{}", e);
            let _ = fs::remove_dir_all(&dir);
            return 2;
        }
    };
    if std::env::var("VH_VERBOSE").is_ok() {
        print!("{}", said);
    }
    let compiled = said.lines().find_map(|l| l.strip_prefix("compiled ")).and_then(|l| l.split(' ').next()).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
    if compiled * 2 < sources {
        eprintln!("only {} of {} programs compiled: {}", compiled, sources, said);
        let _ = fs::remove_dir_all(&dir);
        return 2;
    }
    let exe = std::env::current_exe().expect("exe");
    let n = shards();
    let mut kids = vec![];
    for s in 0..n {
        let k = Command::new(&exe)
            .args(["c21worker".to_string(), f.display().to_string(), s.to_string(), n.to_string(), dir.display().to_string()])
            .stderr(if std::env::var("VH_VERBOSE").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .expect("worker");
        kids.push((k, dir.join(format!("mark{}", s)), dir.join(format!("done{}", s))));
    }
    let ends = wait_all(kids, &|| false);
    let mut code = None;
    let mut best: Option<(usize, PathBuf)> = None;
    for (s, e) in ends.iter().enumerate() {
        rep.tally.read(&dir, s as u64);
        let v = dir.join(format!("violation{}", s));
        if let Ok(m) = fs::metadata(&v) {
            let l = m.len() as usize;
            if best.as_ref().map_or(true, |b| l < b.0) {
                best = Some((l, v));
            }
        }
        let ix = match e {
            End::Done => continue,
            End::Crash(ix, _) | End::Stuck(ix, _) => *ix as usize,
        };
        let files = Files::load(&f);
        if ix >= files.at.len() {
            eprintln!("worker {} failed before its first file", s);
            code = Some(2);
            continue;
        }
        // alone, in a process of its own
        let (name, b) = files.get(ix);
        let p = dir.join("alone.class");
        fs::write(&p, b).expect("file");
        let (c, what) = run_apart(&exe, &["file".into(), p.display().to_string()], &dir.join("left"));
        if c.is_none() || c == Some(1) {
            let v = dir.join("violation-crash");
            write_violation(&v, 21, &fail("crash", format!("{}: the process ended: {}", name, what), b), &[]);
            best = Some((0, v));
        } else {
            eprintln!("worker {} failed at {}, which alone does not", s, name);
            if best.is_some() {
                continue;
            }
            let a = ["c21worker".to_string(), f.display().to_string(), s.to_string(), n.to_string()];
            best = again(21, &exe, &a, s as u64, (ix as u64, ix as u64 / n), &dir, b, &[]).map(|v| (0, v));
            if best.is_none() {
                code = Some(2);
            }
        }
    }
    rep.violation = best.map(|b| b.1);
    for l in said.lines() {
        if let Some(v) = l.strip_prefix("compiled ") {
            let w: Vec<u64> = v.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            rep.tally.stats.insert("programs generated".into(), sources);
            rep.tally.stats.insert("programs compiled".into(), w.first().copied().unwrap_or(0));
        }
    }
    // one line for the opcodes seen instead of one each
    let seen = rep.tally.stats.keys().filter(|k| k.starts_with("max opcode ")).count() as u64;
    rep.tally.stats.retain(|k, _| !k.starts_with("max opcode "));
    rep.tally.stats.insert("different opcodes".into(), seen);
    let r = match code {
        Some(c) if rep.violation.is_none() => c,
        _ => finish(rep),
    };
    let _ = fs::remove_dir_all(&dir);
    r
}

pub fn replay(b: &[u8]) -> i32 {
    match judge(b, &mut Cx::new(0, false, 0)) {
        Ok(()) => {
            println!("no failure");
            0
        }
        Err(e) => {
            println!("{}: {}", e.kind, e.detail);
            1
        }
    }
}
