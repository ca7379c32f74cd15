//! The simulator core: one integer decides everything.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard};

/// splitmix64 / xoshiro-free simple PRNG: state fully determined by the seed.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x243f6a8885a308d3u64;
    for p in parts {
        h = Rng::new(h ^ p.wrapping_mul(0x2545f4914f6cdd1d)).next();
    }
    h
}

/// The violation of a property: `class` names the broken law (kept while minimising).
#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type Res<T = ()> = Result<T, Viol>;
pub fn viol<T>(class: &str, msg: impl Into<String>) -> Res<T> {
    Err(Viol { class: class.to_string(), msg: msg.into() })
}

enum Src {
    Seed(Rng),
    Replay(Vec<u64>, usize),
}

pub struct Inner {
    src: Src,
    /// Every decision of this run, in order: the replay file.
    pub choices: Vec<u64>,
    pub trace: Option<Vec<String>>,
    pub hash: u64,
    pub events: u64,
    pub ops: u64,
    pub switches: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub time_us: u64,
    /// Events kept for the evidence samples.
    pub sample: Option<Vec<String>>,
    /// Where decisions are streamed as they are made (to survive a process abort).
    pub stream: Option<std::fs::File>,
}

/// Shared handle on the run's single source of decisions and its event log.
#[derive(Clone)]
pub struct Cx(Arc<Mutex<Inner>>);

/// A choice list this long means a runaway scenario.
const MAX_CHOICES: usize = 4_000_000;

impl Cx {
    pub fn seeded(seed: u64) -> Cx {
        Cx::make(Src::Seed(Rng::new(seed)))
    }
    pub fn replay(choices: Vec<u64>) -> Cx {
        Cx::make(Src::Replay(choices, 0))
    }
    fn make(src: Src) -> Cx {
        Cx(Arc::new(Mutex::new(Inner {
            src,
            choices: vec![],
            trace: None,
            hash: 0xcbf29ce484222325,
            events: 0,
            ops: 0,
            switches: 0,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            time_us: 0,
            sample: None,
            stream: None,
        })))
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        // A simulated crash unwinds through code that never holds this lock.
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    /// A decision in 0..n (n = 0 means the whole u64 range).
    pub fn below(&self, n: u64) -> u64 {
        let mut g = self.lock();
        let g = &mut *g;
        let raw = match &mut g.src {
            Src::Seed(r) => r.next(),
            Src::Replay(v, i) => {
                *i += 1;
                v.get(*i - 1).copied().unwrap_or(0)
            }
        };
        let v = if n == 0 { raw } else { raw % n };
        g.choices.push(v);
        if let Some(f) = &mut g.stream {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
        assert!(g.choices.len() < MAX_CHOICES, "harness: runaway run");
        v
    }
    pub fn usize(&self, n: usize) -> usize {
        self.below(n.max(1) as u64) as usize
    }
    /// lo..=hi
    pub fn range(&self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True with probability num/den; decision 0 (what minimisation prefers) is false.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn u128(&self) -> u128 {
        (self.below(0) as u128) << 64 | self.below(0) as u128
    }
    /// Record an event. `f` is only rendered when somebody keeps it; the hash covers the text.
    pub fn event(&self, text: impl AsRef<str>) {
        let t = text.as_ref();
        let mut g = self.lock();
        g.events += 1;
        for b in t.as_bytes() {
            g.hash = (g.hash ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        g.hash = (g.hash ^ 0xff).wrapping_mul(0x100000001b3);
        if let Some(tr) = &mut g.trace {
            tr.push(t.to_string());
        }
        if let Some(s) = &mut g.sample {
            if s.len() < 40 {
                s.push(t.chars().take(160).collect());
            }
        }
    }
    pub fn op(&self) {
        self.lock().ops += 1;
    }
    pub fn fault(&self, kind: &'static str) {
        *self.lock().faults.entry(kind).or_insert(0) += 1;
    }
    pub fn probe(&self, name: &'static str) {
        *self.lock().probes.entry(name).or_insert(0) += 1;
    }
    pub fn switch(&self) {
        self.lock().switches += 1;
    }
}

/// What an injected crash unwinds with.
pub struct Crash;

/// Run code of the system under test. `Ok(Err(()))`: an injected crash unwound through it;
/// `Err(text)`: it panicked on its own.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<Result<T, ()>, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(Ok(v)),
        Err(p) => {
            if p.is::<Crash>() {
                Ok(Err(()))
            } else if let Some(s) = p.downcast_ref::<String>() {
                Err(s.clone())
            } else if let Some(s) = p.downcast_ref::<&str>() {
                Err(s.to_string())
            } else {
                Err("panic".into())
            }
        }
    }
}

/// As `guard`, where no crash is injected.
pub fn calm<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    match guard(f) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(())) => panic!("harness: unexpected crash token"),
        Err(p) => viol("panic", format!("{what}: panicked: {p}")),
    }
}
/// As `guard`, where an injected crash may unwind: `None` then.
pub fn crashable<T>(what: &str, f: impl FnOnce() -> T) -> Res<Option<T>> {
    match guard(f) {
        Ok(Ok(v)) => Ok(Some(v)),
        Ok(Err(())) => Ok(None),
        Err(p) => viol("panic", format!("{what}: panicked: {p}")),
    }
}
