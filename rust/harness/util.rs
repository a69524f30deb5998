// Shared: PRNG, statistics, violation reporting.
use std::collections::{BTreeMap, HashSet};
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9E3779B97F4A7C15); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.us(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mode = self.below(4);
        (0..n).map(|_| match mode { 0 => self.next() as u8, 1 => self.below(4) as u8, 2 => if self.chance(1, 8) { self.next() as u8 } else { 0 }, _ => if self.chance(1, 3) { 0xff } else { self.below(16) as u8 } }).collect()
    }
    // integers with corner values
    pub fn corner(&mut self, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.below(8) { 0 => 0, 1 => m, 2 => m >> 1, 3 => 1, 4 => (1u64 << self.below(bits as u64)) & m, 5 => self.below(300) & m, _ => self.next() & m }
    }
}
#[derive(Default)]
pub struct Stats { pub evals: u64, pub events: BTreeMap<String, u64>, pub distinct: HashSet<u64>, pub samples: Vec<String>, pub viol: Vec<String> }
impl Stats {
    pub fn ev(&mut self, k: &str) { *self.events.entry(k.to_string()).or_insert(0) += 1; }
    pub fn evn(&mut self, k: &str, n: u64) { *self.events.entry(k.to_string()).or_insert(0) += n; }
    pub fn seen<T: std::hash::Hash>(&mut self, t: &T) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        if self.distinct.len() >= 3_000_000 { return } t.hash(&mut h); self.distinct.insert(h.finish());
    }
    pub fn sample(&mut self, s: String) { if self.samples.len() < 12 { self.samples.push(s) } }
    pub fn viol(&mut self, s: String) { self.viol.push(s); }
}
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o
}
impl Stats {
    pub fn json(&self) -> String {
        let ev: Vec<String> = self.events.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
        let sm: Vec<String> = self.samples.iter().map(|s| format!("\"{}\"", esc(s))).collect();
        let vi: Vec<String> = self.viol.iter().take(10).map(|s| format!("\"{}\"", esc(s))).collect();
        format!("{{\"evaluations\":{},\"distinct\":{},\"events\":{{{}}},\"samples\":[{}],\"violations\":[{}]}}", self.evals, self.distinct.len(), ev.join(","), sm.join(","), vi.join(","))
    }
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".to_string() }
    })
}
