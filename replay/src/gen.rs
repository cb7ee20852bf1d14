//! Deterministic generator of cases.
use std::sync::Mutex;

static LAST: Mutex<String> = Mutex::new(String::new());

pub fn last_note() -> String {
    LAST.try_lock().map(|s| s.clone()).unwrap_or_default()
}

pub struct Gen {
    s: u64,
    pub seed: u64,
    pub index: u64,
    pub note: String,
}

impl Gen {
    pub fn new(seed: u64, index: u64) -> Gen {
        let mut g = Gen { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ index.wrapping_mul(0xD1342543DE82EF95), seed, index, note: String::new() };
        g.next();
        g.next();
        g
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// A number in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Records the input, so it is known even if the case panics or hangs.
    pub fn note(&mut self, s: String) {
        if let Ok(mut l) = LAST.lock() {
            *l = s.clone();
        }
        self.note = s;
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn done(&self, nontrivial: bool, bad: Option<String>) -> crate::Done {
        crate::Done { input: self.note.clone(), nontrivial, bad }
    }
}
