//! What a property case sees: its seed, its statistics and how it fails.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};

/// A violated oracle. `sig` identifies the failing behaviour (and is what a known finding names).
#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c {
            return Err($crate::ctx::Fail { sig: ($sig).to_string(), msg: format!($($a)*) });
        }
    };
}

/// `?` for library results that must not be errors.
pub trait MustOk<T> {
    fn must(self, sig: &str) -> Result<T, Fail>;
}
impl<T, E: std::fmt::Debug> MustOk<T> for Result<T, E> {
    fn must(self, sig: &str) -> Result<T, Fail> {
        self.map_err(|e| Fail { sig: format!("error:{sig}"), msg: format!("{sig} returned {e:?}") })
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub trivial: u64,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub sets: BTreeMap<String, HashSet<u64>>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

const SET_CAP: usize = 2_000_000;

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxima.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn seen(&mut self, set: &str, v: u64) {
        if let Some(s) = self.sets.get_mut(set) {
            if s.len() < SET_CAP {
                s.insert(v);
            }
        } else {
            self.sets.insert(set.to_string(), HashSet::from([v]));
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.trivial += o.trivial;
        for (k, v) in o.counters {
            self.add(&k, v);
        }
        for (k, v) in o.maxima {
            self.max(&k, v);
        }
        for (k, v) in o.sets {
            self.sets.entry(k).or_default().extend(v);
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
    }
}

pub struct Ctx {
    pub prop: &'static str,
    pub idx: u64,
    pub seed: u64,
    pub rng: Rng,
    pub thorough: bool,
    /// scale of the workload in slow instrumented builds (miri): points per case are cut down
    pub small: bool,
    pub st: Stats,
    pub describe: String,
    pub sig: u64,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn new(prop: &'static str, idx: u64, seed: u64, thorough: bool, small: bool) -> Self {
        Ctx {
            prop,
            idx,
            seed,
            rng: Rng::new(seed),
            thorough,
            small,
            st: Stats::default(),
            describe: String::new(),
            sig: seed,
            nontrivial: true,
        }
    }
    /// Upper bound on the number of points of one case.
    pub fn max_points(&self, normal: usize) -> usize {
        if self.small {
            normal.min(24)
        } else {
            normal
        }
    }
    pub fn note(&mut self, d: impl Into<String>) {
        self.describe = d.into();
        if std::env::var_os("LAZMON_NOTES").is_some() {
            eprintln!("note: {}", self.describe);
        }
    }
    /// What makes two cases the same workload.
    pub fn signature(&mut self, s: u64) {
        self.sig = s;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        self.st.add(k, n)
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// Position of the first difference between two record streams.
pub fn first_diff(expected: &[u8], got: &[u8], size: usize) -> Option<String> {
    if expected == got {
        return None;
    }
    let n = expected.len().min(got.len());
    for i in 0..n {
        if expected[i] != got[i] {
            let p = i / size;
            let a = p * size;
            let e = (a + size).min(n);
            return Some(format!(
                "point {p} byte {} differs: expected {} got {}",
                i - a,
                hex(&expected[a..e]),
                hex(&got[a..e])
            ));
        }
    }
    Some(format!("lengths differ: expected {} got {}", expected.len(), got.len()))
}
