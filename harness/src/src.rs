//! Choice-sequence generator ("Hypothesis style"): every random decision a
//! generator takes is one recorded integer.  The same sequence replays the same
//! case, and shrinking edits the sequence, never the generated value.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    /// splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    pub choices: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { choices: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(choices: &[u32]) -> Self {
        Src { choices: choices.to_vec(), pos: 0, rng: None }
    }
    /// The choices consumed by the run so far.
    pub fn used(&self) -> Vec<u32> {
        self.choices[..self.pos.min(self.choices.len())].to_vec()
    }
    /// A number in 0..n; 0 is the simplest alternative.
    pub fn below(&mut self, n: u32) -> u32 {
        assert!(n > 0);
        let v = if self.pos < self.choices.len() {
            self.choices[self.pos] % n
        } else {
            match self.rng {
                Some(ref mut r) => {
                    let v = (((r.next() >> 32) * n as u64) >> 32) as u32;
                    self.choices.push(v);
                    v
                }
                None => {
                    self.choices.push(0);
                    0
                }
            }
        };
        self.choices[self.pos] = v;
        self.pos += 1;
        if TRACING.load(Relaxed) {
            TRACE.lock().unwrap().1.push(v);
        }
        v
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
        let i = self.below(xs.len() as u32) as usize;
        xs[i]
    }
    pub fn pick_of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u32) as usize;
        &xs[i]
    }
    /// Index chosen with the given weights; index 0 is simplest.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        unreachable!()
    }
}

/// Shrinks a failing choice sequence with at most `budget` evaluations.
/// `fails` runs the case and returns the choices it actually used when it
/// still fails the same way.
pub fn shrink<F>(start: Vec<u32>, budget: usize, mut fails: F) -> Vec<u32>
where
    F: FnMut(&[u32]) -> Option<Vec<u32>>,
{
    fn better(a: &[u32], b: &[u32]) -> bool {
        (a.len(), a) < (b.len(), b)
    }
    let mut best = start;
    let mut evals = 0usize;
    let mut try_it = |cand: &[u32], best: &mut Vec<u32>, evals: &mut usize| -> bool {
        if *evals >= budget || !better(cand, best) {
            return false;
        }
        *evals += 1;
        if let Some(used) = fails(cand) {
            let new = if better(&used, cand) { used } else { cand.to_vec() };
            if better(&new, best) {
                *best = new;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if !try_it(&cand, &mut best, &mut evals) {
                    i += (size / 2).max(1);
                }
                if evals >= budget {
                    return best;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    for v in &mut cand[i..i + size] {
                        *v = 0;
                    }
                    try_it(&cand, &mut best, &mut evals);
                }
                i += size;
            }
        }
        // delete one choice and decrement the one before it (list lengths)
        let mut i = 0;
        while i + 1 < best.len() {
            if best[i] > 0 {
                let mut cand = best.clone();
                cand[i] -= 1;
                cand.remove(i + 1);
                try_it(&cand, &mut best, &mut evals);
            }
            i += 1;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                for nv in [v / 2, v - 1] {
                    if i < best.len() && nv < best[i] {
                        let mut cand = best.clone();
                        cand[i] = nv;
                        try_it(&cand, &mut best, &mut evals);
                    }
                }
            }
            i += 1;
        }
        if best == before || evals >= budget {
            return best;
        }
    }
}

// ---- tracing of choices for cases that kill their process
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Mutex;
static TRACING: AtomicBool = AtomicBool::new(false);
static TRACE: Mutex<(String, Vec<u32>)> = Mutex::new((String::new(), Vec::new()));
pub fn set_trace(path: Option<String>) {
    if let Some(p) = path {
        TRACE.lock().unwrap().0 = p;
        TRACING.store(true, Relaxed);
    }
}
/// Called just before the code under test runs: saves the choices so far.
pub fn trace_point(input: impl Fn() -> String) {
    if TRACING.load(Relaxed) {
        let t = TRACE.lock().unwrap();
        let v = serde_json::json!({"choices": t.1, "input": input()});
        let _ = std::fs::write(&t.0, v.to_string());
    }
}
