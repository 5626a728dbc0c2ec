//! Case runner: every case is described, run under catch_unwind and a watchdog, and counted.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static CURRENT: Mutex<(u64, String)> = Mutex::new((0, String::new()));

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        Rng(s.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234_5678_9abc_def1))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

#[derive(Default, Clone)]
pub struct Dict {
    pub strs: Vec<String>,
    pub ints: Vec<i128>,
    pub floats: Vec<f64>,
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub dict: Dict,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<(String, String)>,
    pub deadline: Instant,
    pub budget: Duration,
    pub start: Instant,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, dict: Dict, budget: Duration) -> Self {
        let now = Instant::now();
        Ctx {
            rng: Rng::new(seed),
            thorough,
            dict,
            evaluations: 0,
            distinct: HashSet::new(),
            samples: Vec::new(),
            failures: Vec::new(),
            deadline: now + budget,
            budget,
            start: now,
        }
    }
    /// Share of the time budget used so far is below `share` (0..1).
    pub fn within(&self, share: f64) -> bool {
        self.failures.len() < 3 && self.start.elapsed() < self.budget.mul_f64(share)
    }
    /// Runs one case. `nontrivial` says whether it exercises more than the trivial path.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, desc: String, nontrivial: bool, f: F) {
        if self.failures.len() >= 3 {
            return;
        }
        self.evaluations += 1;
        {
            let mut c = CURRENT.lock().unwrap();
            c.0 += 1;
            c.1.clear();
            c.1.push_str(&desc);
        }
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.distinct.len() < 4_000_000 {
                self.distinct.insert(h.finish());
            }
            if self.samples.len() < 3 || (self.samples.len() < 6 && self.evaluations.is_power_of_two()) {
                let mut s = desc.clone();
                if s.len() > 400 {
                    let mut k = 400;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.truncate(k);
                    s.push_str("...");
                }
                self.samples.push(s);
            }
        }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) => Err(format!("unexpected panic: {}", panic_text(&*e))),
        };
        if let Err(m) = r {
            self.failures.push((desc, m));
        }
        CURRENT.lock().unwrap().0 += 1;
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// True when f panics.
pub fn panics<F: FnOnce()>(f: F) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => {
        if !($c) { return Err(format!($($a)*)); }
    };
}
#[macro_export]
macro_rules! ck_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(a == b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}
