//! Randomness, choice streams, statistics, logging, violations.
use ark_std::rand::{Error, RngCore};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ------------------------------------------------------------------------------------------
// hashing / PRNG

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn h64(parts: &[u64]) -> u64 {
    let mut h = 0x243F6A8885A308D3u64;
    for p in parts {
        h = mix(h ^ mix(*p));
    }
    h
}
pub fn hbytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h ^ b.len() as u64)
}
pub fn hstr(s: &str) -> u64 {
    hbytes(s.as_bytes())
}

/// The only source of cryptographic randomness the library sees.
#[derive(Clone)]
pub struct SimRng {
    s: u64,
    pub draws: u64,
}
impl SimRng {
    pub fn new(seed: u64) -> Self {
        SimRng { s: mix(seed ^ 0xA5A5_5A5A_1234_9876), draws: 0 }
    }
}
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draws += 1;
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.s ^ 0x5851F42D4C957F2D)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl ark_std::rand::CryptoRng for SimRng {}

// ------------------------------------------------------------------------------------------
// choice stream: every workload, schedule and fault decision of a run is one entry

pub struct Ch {
    state: u64,
    replay: Option<Vec<u32>>,
    pub rec: Vec<u32>,
}
impl Ch {
    pub fn random(seed: u64) -> Self {
        Ch { state: mix(seed ^ 0xC0FFEE), replay: None, rec: Vec::new() }
    }
    pub fn replay(v: Vec<u32>) -> Self {
        Ch { state: 0, replay: Some(v), rec: Vec::new() }
    }
    /// a value in 0..n; 0 is the "simplest" choice (first in order, no fault, smallest)
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let pos = self.rec.len();
        let v = match &self.replay {
            Some(r) => (*r.get(pos).unwrap_or(&0) as usize) % n,
            None => {
                self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
                (mix(self.state) % n as u64) as usize
            }
        };
        self.rec.push(v as u32);
        v
    }
    /// true with probability num/den; a shrunk stream (0) answers false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        if num == 0 {
            return false;
        }
        self.choose(den) >= den - num.min(den)
    }
    /// choice among weighted alternatives; index 0 is the shrink target
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.choose(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.choose(v.len());
        &v[i]
    }
    /// random permutation of 0..n (identity when shrunk)
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut left: Vec<usize> = (0..n).collect();
        let mut out = Vec::with_capacity(n);
        while !left.is_empty() {
            let i = self.choose(left.len());
            out.push(left.remove(i));
        }
        out
    }
}

// ------------------------------------------------------------------------------------------
// violations

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, detail: impl Into<String>) -> R<T> {
    Err(Viol { class: class.to_string(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::core::Viol { class: ($class).to_string(), detail: format!($($arg)*) });
        }
    };
}

// ------------------------------------------------------------------------------------------
// per-run statistics and log

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub ops: BTreeMap<String, u64>,
    pub sim_us: u64,
    pub steps: u64,
    pub checks: u64,
    pub rayon_joins: u64,
    pub rayon_swapped: u64,
    pub rayon_scope: u64,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.faults {
            *self.faults.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.ops {
            *self.ops.entry(k.clone()).or_default() += v;
        }
        self.sim_us += o.sim_us;
        self.steps += o.steps;
        self.checks += o.checks;
        self.rayon_joins += o.rayon_joins;
        self.rayon_swapped += o.rayon_swapped;
        self.rayon_scope += o.rayon_scope;
    }
}

thread_local! {
    static CUR_OP: Cell<Option<&'static str>> = const { Cell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{} at {}", msg, loc));
            }
        });
    }));
}
pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}
pub fn current_op() -> Option<&'static str> {
    CUR_OP.with(|c| c.get())
}

pub struct Cx {
    pub ch: Ch,
    /// seed of everything that is not a recorded choice (cryptographic randomness, rayon schedule)
    pub seed: u64,
    pub st: Stats,
    pub loghash: u64,
    pub trace: Option<Vec<String>>,
    pub known: Vec<(String, String)>,
    pub listed: Vec<String>,
    pub thorough: bool,
    pub sample: BTreeMap<String, String>,
    rng_ctr: u64,
    pub nontrivial: bool,
    pub prop: String,
}

impl Cx {
    pub fn new(prop: &str, seed: u64, ch: Ch, thorough: bool, trace: bool) -> Self {
        Cx {
            ch,
            seed,
            st: Stats::default(),
            loghash: 0xcbf29ce484222325,
            trace: if trace { Some(vec![]) } else { None },
            known: vec![],
            listed: vec![],
            thorough,
            sample: BTreeMap::new(),
            rng_ctr: 0,
            nontrivial: false,
            prop: prop.to_string(),
        }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        self.ch.choose(n)
    }
    /// a value in 0..=max drawn outside the recorded choices
    pub fn rng_small(&mut self, max: u64) -> u16 {
        (self.rng().next_u64() % (max + 1)) as u16
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.ch.chance(a, b)
    }
    /// fresh RNG for one library call
    pub fn rng(&mut self) -> SimRng {
        self.rng_ctr += 1;
        SimRng::new(h64(&[self.seed, self.rng_ctr]))
    }
    pub fn rng_for(&self, label: &[u64]) -> SimRng {
        let mut v = vec![self.seed, 0x4C41_4245];
        v.extend_from_slice(label);
        SimRng::new(h64(&v))
    }
    pub fn fault(&mut self, k: &str) {
        *self.st.faults.entry(k.to_string()).or_default() += 1;
        self.nontrivial = true;
    }
    pub fn probe(&mut self, k: &str) {
        *self.st.probes.entry(k.to_string()).or_default() += 1;
    }
    pub fn check(&mut self) {
        self.st.checks += 1;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        self.loghash = h64(&[self.loghash, hstr(&s)]);
        if let Some(t) = &mut self.trace {
            if t.len() < 20000 {
                t.push(s);
            }
        }
    }
    pub fn log_bytes(&mut self, b: &[u8]) {
        self.loghash = h64(&[self.loghash, hbytes(b)]);
    }
    /// One call into the library. A panic inside becomes a violation naming the operation.
    pub fn lib<T>(&mut self, op: &'static str, f: impl FnOnce() -> T) -> R<T> {
        *self.st.ops.entry(op.to_string()).or_default() += 1;
        let prev = CUR_OP.with(|c| c.replace(Some(op)));
        let _ = take_panic();
        let r = catch_unwind(AssertUnwindSafe(f));
        CUR_OP.with(|c| c.set(prev));
        match r {
            Ok(v) => Ok(v),
            Err(_) => {
                let m = take_panic().unwrap_or_default();
                viol(&format!("panic:{}", op), format!("{} panicked: {}", op, m))
            }
        }
    }
    /// Library call that must succeed.
    pub fn ok<T, Er: std::fmt::Debug>(
        &mut self,
        op: &'static str,
        f: impl FnOnce() -> Result<T, Er>,
    ) -> R<T> {
        match self.lib(op, f)? {
            Ok(v) => Ok(v),
            Err(e) => viol(&format!("refused:{}", op), format!("{} on honest input returned {:?}", op, e)),
        }
    }
    /// A violation whose class is listed in the known-findings file is noted and the run goes on;
    /// any other is raised.
    pub fn finding(&mut self, class: &str, detail: String) -> R {
        if self.listed.iter().any(|k| k == class) {
            if !self.known.iter().any(|k| k.0 == class) {
                self.known.push((class.to_string(), detail));
            }
            return Ok(());
        }
        viol(class, detail)
    }
}
