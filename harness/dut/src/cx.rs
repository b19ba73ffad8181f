//! What a case may see and leave behind.

use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Fail {
    /// a short, stable name of what went wrong: shrinking keeps it
    pub kind: String,
    pub detail: String,
    pub input: Vec<u8>,
}

pub fn fail(kind: &str, detail: impl Into<String>, input: &[u8]) -> Fail {
    Fail { kind: kind.to_string(), detail: detail.into(), input: input.to_vec() }
}

/// Ok(Some(hash)) for a non-trivial case, Ok(None) for a trivial one.
pub type Out = Result<Option<u64>, Fail>;

pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
    pub stats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub want: usize,
    pub evals: u64,
    /// fresh-process digests of the canaries (C20)
    pub canaries: Vec<(Vec<u8>, u64, u64)>,
}

impl Cx {
    pub fn new(seed: u64, thorough: bool, want: usize) -> Cx {
        Cx { seed, thorough, stats: BTreeMap::new(), samples: vec![], want, evals: 0, canaries: vec![] }
    }
    pub fn hit(&mut self, k: &str) {
        match self.stats.get_mut(k) {
            Some(v) => *v += 1,
            None => {
                self.stats.insert(k.to_string(), 1);
            }
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.stats.entry(format!("max {}", k)).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < self.want {
            let s = f();
            self.samples.push(s);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit(u32::from(x >> 4), 16).unwrap());
        s.push(char::from_digit(u32::from(x & 15), 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let b: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    b.chunks_exact(2).map(|p| ((p[0] as char).to_digit(16).unwrap() * 16 + (p[1] as char).to_digit(16).unwrap()) as u8).collect()
}
pub fn show(b: &[u8]) -> String {
    if b.len() <= 240 {
        hex(b)
    } else {
        format!("{}.. ({} bytes)", hex(&b[..240]), b.len())
    }
}
