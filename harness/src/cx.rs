//! Exploration context: deterministic random source, counters, samples,
//! violations and replay output.
use serde_json::{json, Value};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::time::{Duration, Instant};

#[derive(Clone)]
/// the second part: occasionally generate far larger values than usual
pub struct Rng(pub u64, pub bool);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, false);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// 1 in 25 times, when large values are on: a size up to `max`
    pub fn large(&mut self, max: usize) -> Option<usize> {
        if self.1 && self.chance(4) {
            Some(2 + self.below(max - 1))
        } else {
            None
        }
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub nviol: usize,
    pub start: Instant,
    pub budget: Duration,
    pub rules: Vec<String>,
    pub parts: Vec<Value>,
    pub last: String,
    pub scratch: std::path::PathBuf,
}

impl Cx {
    pub fn new(prop: &str, seed: u64, thorough: bool, budget: f64) -> Self {
        Cx {
            prop: prop.into(),
            seed,
            thorough,
            rng: Rng::new(seed),
            evals: 0,
            nontrivial: HashSet::new(),
            samples: vec![],
            violations: vec![],
            nviol: 0,
            start: Instant::now(),
            budget: Duration::from_secs_f64(budget),
            rules: vec![],
            parts: vec![],
            last: String::new(),
            scratch: std::env::temp_dir().join(format!("vh-{}-{}", prop, std::process::id())),
        }
    }
    pub fn rule(&mut self, r: &str) {
        if !self.rules.iter().any(|x| x == r) {
            self.rules.push(r.into());
        }
    }
    /// scale an iteration count for the tier
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough {
            quick * 12
        } else {
            quick
        }
    }
    pub fn full(&self) -> bool {
        self.nviol >= 60 || self.start.elapsed() > self.budget
    }
    /// one evaluated case; `nontrivial` when it is decisive by the rule
    pub fn case(&mut self, key: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            if self.nontrivial.insert(h.finish()) && self.samples.len() < 8 && self.evals % 7 == 1 {
                self.samples.push(json!(key.chars().take(400).collect::<String>()));
            }
        }
        if self.samples.is_empty() && nontrivial {
            self.samples.push(json!(key.chars().take(400).collect::<String>()));
        }
    }
    pub fn violate(&mut self, what: &str, input: Value, expected: Value, actual: Value) {
        self.nviol += 1;
        self.violations.push(json!({
            "what": what, "input": input, "expected": expected, "actual": actual,
        }));
        // keep the smallest ones
        self.violations.sort_by_key(|v| v.to_string().len());
        self.violations.truncate(5);
    }
    pub fn part(&mut self, name: &str, before: u64) {
        let n = self.evals - before;
        self.parts.push(json!({"part": name, "evaluations": n}));
    }
    pub fn scratch(&self) -> std::path::PathBuf {
        std::fs::create_dir_all(&self.scratch).unwrap();
        self.scratch.clone()
    }
    pub fn report(&self) -> Value {
        json!({
            "property": self.prop,
            "seed": self.seed,
            "evaluations": self.evals,
            "distinct_nontrivial": self.nontrivial.len(),
            "rule": self.rules.join("; "),
            "samples": self.samples,
            "violations": self.violations,
            "parts": self.parts,
            "wall_s": self.start.elapsed().as_secs_f64(),
        })
    }
}

/// printable form of bytes (lossless)
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.utf8_chunks() {
        for ch in c.valid().chars() {
            match ch {
                '\x1f' => s.push_str("\\x1f"),
                '\x1e' => s.push_str("\\x1e"),
                '\n' => s.push_str("\\n"),
                '\\' => s.push_str("\\\\"),
                c if (c as u32) < 32 || c as u32 == 127 => s.push_str(&format!("\\x{:02x}", c as u32)),
                c => s.push(c),
            }
        }
        for x in c.invalid() {
            s.push_str(&format!("\\x{x:02x}"));
        }
    }
    s
}

/// run code under test; a panic becomes `Err`
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        };
        format!("panic: {m}")
    })
}
