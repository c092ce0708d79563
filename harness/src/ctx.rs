//! Cases, statistics, failures.
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn parse(s: &str) -> Option<Tier> {
        match s {
            "quick" => Some(Tier::Quick),
            "thorough" => Some(Tier::Thorough),
            _ => None,
        }
    }
}

/// What a monitor reports.
#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    pub detail: String,
    /// Identifies a violation that may be listed as a known finding.
    pub key: Option<String>,
}
impl Fail {
    pub fn new(msg: impl Into<String>) -> Fail {
        Fail { msg: msg.into(), detail: String::new(), key: None }
    }
    pub fn with(mut self, detail: impl AsRef<str>) -> Fail {
        self.detail.push_str(detail.as_ref());
        self.detail.push('\n');
        self
    }
    pub fn keyed(mut self, key: impl Into<String>) -> Fail {
        self.key = Some(key.into());
        self
    }
}
pub type Chk = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::ctx::Fail::new(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::ctx::Fail::new(format!($($t)*))) } };
}
/// `ensure_eq!(observed, expected, "what")`
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::ctx::Fail::new(format!($($t)*)).with(format!("observed: {}\nexpected: {}", $crate::ctx::clip(&format!("{:?}", a)), $crate::ctx::clip(&format!("{:?}", b)))));
        }
    }};
}

pub fn clip(s: &str) -> String {
    if s.len() <= 3000 {
        return s.to_owned();
    }
    let mut n = 3000;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}.. ({} bytes)", &s[..n], s.len())
}

/// Adds context (computed only on failure) to a result.
pub trait Detail {
    fn detail<F: FnOnce() -> String>(self, f: F) -> Self;
}
impl<T> Detail for Result<T, Fail> {
    fn detail<F: FnOnce() -> String>(self, f: F) -> Self {
        self.map_err(|e| {
            let d = f();
            e.with(d)
        })
    }
}

#[derive(Default)]
pub struct Stats {
    /// Executions judged by an oracle.
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// Known findings that were observed.
    pub known: BTreeMap<String, String>,
}
const MAX_DISTINCT: usize = 3_000_000;
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        for (k, v) in o.counters {
            let e = self.counters.entry(k.clone()).or_default();
            if k.starts_with("max ") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        for h in o.distinct {
            if self.distinct.len() < MAX_DISTINCT {
                self.distinct.insert(h);
            }
        }
        self.known.extend(o.known);
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Case<'a> {
    pub idx: u64,
    pub r: Rng,
    pub st: &'a mut Stats,
    pub tier: Tier,
    pub suite: &'static str,
    pub known_keys: &'a [String],
}
impl Case<'_> {
    /// One execution judged; `nontrivial` carries the hash of what made it distinct.
    pub fn eval(&mut self, nontrivial: Option<u64>) {
        self.st.evals += 1;
        if let Some(h) = nontrivial {
            if self.st.distinct.len() < MAX_DISTINCT {
                self.st.distinct.insert(h);
            }
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(v) = self.st.counters.get_mut(name) {
            *v += n;
        } else {
            self.st.counters.insert(name.to_owned(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.st.counters.entry(format!("max {}", name)).or_default();
        *e = (*e).max(n);
    }
    /// Keeps a few of the cases as samples.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 4 && self.st.samples.len() < 12 {
            let s = format!("[{} {}] {}", self.suite, self.idx, f());
            let s = if s.len() > 600 { s.chars().take(500).collect() } else { s };
            self.st.samples.push(s);
        }
    }
    /// A failure that may be listed as a known finding: listed ones are recorded, others returned.
    pub fn finding(&mut self, f: Fail) -> Chk {
        match &f.key {
            Some(k) if self.known_keys.contains(k) => {
                self.st.known.entry(k.clone()).or_insert(f.msg);
                Ok(())
            }
            _ => Err(f),
        }
    }
}

pub type CaseFn = fn(&mut Case) -> Chk;

#[derive(Clone, Copy)]
pub struct Suite {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
    /// Never cut short by the soft time limit.
    pub must: bool,
}
/// A suite of random cases; the soft time limit may cut it short.
pub fn random(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Suite {
    Suite { name, quick: quick * 10, thorough: thorough * 5, run, must: false }
}
/// A suite that enumerates a finite space.
pub fn sweep(name: &'static str, n: u64, run: CaseFn) -> Suite {
    Suite { name, quick: n, thorough: n, run, must: true }
}
impl Suite {
    pub fn n(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
}

pub struct Check {
    pub id: &'static str,
    /// What counts as a distinct non-trivial case.
    pub rule: &'static str,
    pub suites: Vec<Suite>,
    pub assumptions: &'static [&'static str],
}

pub fn case_rng(seed: u64, suite: &str, idx: u64) -> Rng {
    Rng::new(mix(seed) ^ crate::rng::hash_bytes(suite.as_bytes()) ^ mix(idx ^ 0x5157))
}
