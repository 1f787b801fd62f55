//! Shared helpers of the bounded stand-ins: PRNG, reporting.
pub mod canon;
use std::collections::HashSet;
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 33) as usize) % n }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"'); o
}
/// Collected coverage of one run; printed as JSON on stdout.
pub struct Report { pub evals: u64, pub distinct: HashSet<u64>, pub samples: Vec<String>, pub violations: Vec<(String, String, String, String)>, pub known: Vec<String>, pub max: usize }
impl Report {
    pub fn new() -> Self { Report { evals: 0, distinct: HashSet::new(), samples: vec![], violations: vec![], known: vec![], max: 3 } }
    pub fn case(&mut self, key: &str, nontrivial: bool) {
        use std::hash::{Hash, Hasher};
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            if self.distinct.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 6 && self.evals % 997 == 0)) { self.samples.push(key.chars().take(400).collect()); }
        }
    }
    /// `id`: stable identity of the failing case (used by the known-findings file)
    pub fn violation(&mut self, id: &str, input: &str, expected: &str, actual: &str) {
        if self.violations.len() < self.max { self.violations.push((id.into(), input.into(), expected.into(), actual.into())); }
    }
    pub fn full(&self) -> bool { self.violations.len() >= self.max }
    pub fn print(&self) {
        let v: Vec<String> = self.violations.iter().map(|(d, a, b, c)| format!("{{\"id\":{},\"input\":{},\"expected\":{},\"actual\":{}}}", jstr(d), jstr(a), jstr(b), jstr(c))).collect();
        let s: Vec<String> = self.samples.iter().map(|s| jstr(s)).collect();
        println!("HARNESS {{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"violations\":[{}]}}", self.evals, self.distinct.len(), s.join(","), v.join(","));
    }
}
/// Run `f`, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
}
pub struct Args { pub prop: String, pub seed: u64, pub secs: f64 }
pub fn args() -> Args {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    Args { prop: a[1].clone(), seed: a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1), secs: a.get(3).and_then(|s| s.parse().ok()).unwrap_or(5.0) }
}
pub struct Clock(std::time::Instant, f64);
impl Clock { pub fn new(s: f64) -> Self { Clock(std::time::Instant::now(), s) } pub fn more(&self) -> bool { self.0.elapsed().as_secs_f64() < self.1 } }
