//! Replay: drives the real code of /repo (through its public interface) on generated
//! inputs and compares it with independent reference semantics. It supplies the failing
//! input behind a failed proof obligation, and the bounded stand-in where no obligation
//! reaches.
#![allow(clippy::all)]
pub mod airx;
pub mod cairo;
pub mod stark;
pub mod values;

use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub use lambdaworks_stark::FE;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    /// A field element: mostly uniform, sometimes one of the corner values.
    pub fn fe(&mut self) -> FE {
        match self.below(8) {
            0 => FE::from(self.below(4)),
            1 => FE::zero() - FE::from(self.below(4)),
            2 => FE::from(self.u64()),
            _ => self.fe_uniform(),
        }
    }
    pub fn fe_uniform(&mut self) -> FE {
        let two64 = FE::from(1 << 32) * FE::from(1 << 32);
        let mut acc = FE::zero();
        for _ in 0..4 {
            acc = acc * two64 + FE::from(self.u64());
        }
        acc
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn fhex(x: &FE) -> String {
    use lambdaworks_math::traits::ByteConversion;
    let h = hex(&x.to_bytes_be());
    let t = h.trim_start_matches('0');
    if t.is_empty() {
        "0".into()
    } else {
        t.into()
    }
}
pub fn fhexs(x: &[FE]) -> String {
    format!("[{}]", x.iter().map(fhex).collect::<Vec<_>>().join(","))
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub struct Ctx {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    start: Instant,
    budget: Duration,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    seen_keys: HashSet<String>,
    violations: Vec<(String, String, String)>,
    findings: Vec<(String, String)>,
    rules: Vec<String>,
    out: String,
    current: String,
}

impl Ctx {
    /// `args`: OUT.json
    pub fn new(property: &str) -> Self {
        let out = std::env::args().nth(1).unwrap_or_else(|| "/dev/stdout".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let budget = std::env::var("REPLAY_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
        std::panic::set_hook(Box::new(|_| {}));
        Ctx {
            property: property.into(),
            seed,
            thorough,
            rng: Rng::new(seed),
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            evaluations: 0,
            distinct: HashSet::new(),
            samples: vec![],
            seen_keys: HashSet::new(),
            violations: vec![],
            findings: vec![],
            rules: vec![],
            out,
            current: String::new(),
        }
    }
    pub fn rule(&mut self, r: &str) {
        self.rules.push(r.into());
    }
    /// Scales an iteration count with the tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    pub fn elapsed_fraction(&self) -> f64 {
        self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }
    /// Announces a case before it runs, so that a crash of the process can be attributed.
    pub fn announce(&mut self, what: String) {
        if let Ok(mut f) = std::fs::File::create(format!("{}.current", self.out)) {
            let _ = f.write_all(what.as_bytes());
        }
        self.current = what;
    }
    /// Records an executed case; `h` identifies it.
    pub fn case(&mut self, h: u64, sample: impl FnOnce() -> String) {
        self.evaluations += 1;
        if self.distinct.insert(h) && self.samples.len() < 6 && self.distinct.len() % 37 == 1 {
            let s: String = sample().chars().take(1500).collect();
            self.samples.push(s);
        }
    }
    pub fn check(&mut self, key: &str, ok: bool, input: impl FnOnce() -> String) -> bool {
        if !ok && self.seen_keys.insert(key.to_string()) {
            let i: String = input().chars().take(20000).collect();
            self.violations.push((key.into(), i, format!("seed={} evaluation={}", self.seed, self.evaluations)));
        }
        ok
    }
    pub fn check_eq<T: PartialEq + std::fmt::Debug>(&mut self, key: &str, got: &T, want: &T, input: impl FnOnce() -> String) -> bool {
        let ok = got == want;
        self.check(key, ok, || {
            let g: String = format!("{got:?}").chars().take(2000).collect();
            let w: String = format!("{want:?}").chars().take(2000).collect();
            format!("{}\n  got:  {}\n  want: {}", input(), g, w)
        })
    }
    /// Runs `f`; a panic becomes a violation with `key`.
    pub fn guard<T>(&mut self, key: &str, input: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(e) => {
                let msg = panic_text(&*e);
                self.check(key, false, || format!("panicked: {msg}\n  input: {}", input()));
                None
            }
        }
    }
    /// A defect that is known and recorded: reported by its identity, never as a violation.
    pub fn finding(&mut self, id: &str, what: &str) {
        if self.findings.iter().any(|(i, _)| i == id) {
            return;
        }
        self.findings.push((id.into(), what.into()));
    }
    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }
    pub fn finish(self) -> ! {
        let v: Vec<_> = self
            .violations
            .iter()
            .map(|(k, i, w)| serde_json::json!({"key": k, "input": i, "where": w}))
            .collect();
        let f: Vec<_> = self.findings.iter().map(|(k, w)| serde_json::json!({"id": k, "what": w})).collect();
        let j = serde_json::json!({
            "property": self.property, "seed": self.seed, "thorough": self.thorough,
            "evaluations": self.evaluations, "distinct_nontrivial": self.distinct.len(),
            "rule": self.rules.join("; "), "samples": self.samples,
            "violations": v, "findings": f, "out_of_time": self.out_of_time(),
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        std::fs::write(&self.out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        let _ = std::fs::remove_file(format!("{}.current", self.out));
        std::process::exit(0)
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&*e))
}
