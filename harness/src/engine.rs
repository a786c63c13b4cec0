//! A small property-based testing engine in the manner of Hypothesis.
//!
//! A case is the sequence of bounded integers its generator draws. Generation
//! draws them from a PRNG, replay reads them from a list (0 when the list is
//! exhausted, clamped when a value is out of bounds), shrinking edits the list.

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

// ---------------------------------------------------------------- allocation

pub struct Counting;

pub static ARMED: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
pub const LIVE_BUDGET: i64 = 1 << 30;
pub const TOTAL_BUDGET: u64 = 4 << 30;
/// Exit status of a worker whose case allocated out of all proportion.
pub const EXIT_ALLOC: i32 = 97;

unsafe extern "C" {
    fn _exit(status: i32) -> !;
}

#[inline]
fn account(size: usize) {
    let live = LIVE.fetch_add(size as i64, Ordering::Relaxed) + size as i64;
    let total = TOTAL.fetch_add(size as u64, Ordering::Relaxed) + size as u64;
    if (live > LIVE_BUDGET || total > TOTAL_BUDGET) && ARMED.load(Ordering::Relaxed) {
        unsafe { _exit(EXIT_ALLOC) }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        account(n);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Bytes allocated (cumulatively) while running `f`.
pub fn allocated<R>(f: impl FnOnce() -> R) -> (R, u64) {
    let before = TOTAL.load(Ordering::Relaxed);
    let r = f();
    (r, TOTAL.load(Ordering::Relaxed) - before)
}

// ------------------------------------------------------------------- choices

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    rng: Option<Rng>,
    input: Vec<u32>,
    pos: usize,
    pub record: Vec<u32>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng(seed)), input: vec![], pos: 0, record: vec![] }
    }
    pub fn replay(choices: &[u32]) -> Self {
        Src { rng: None, input: choices.to_vec(), pos: 0, record: vec![] }
    }
    /// 0..bound
    pub fn below(&mut self, bound: usize) -> usize {
        debug_assert!(bound > 0);
        let v = match &mut self.rng {
            Some(r) => ((r.next() >> 16) % bound as u64) as u32,
            None => {
                let v = self.input.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(bound as u32 - 1)
            }
        };
        self.record.push(v);
        if let Some(f) = LIVE_RECORD.lock().unwrap().as_mut() {
            use std::io::Write;
            let _ = writeln!(f, "{v}");
        }
        v as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple value
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }
    pub fn ch(&mut self, s: &str) -> char {
        let n = s.chars().count();
        s.chars().nth(self.below(n)).unwrap()
    }
    /// index into weights, with probability proportional to the weight
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// A string over the given characters.
    pub fn string(&mut self, alphabet: &str, lo: usize, hi: usize) -> String {
        let n = self.range(lo, hi);
        let chars: Vec<char> = alphabet.chars().collect();
        (0..n).map(|_| *self.pick(&chars)).collect()
    }
    /// Any Unicode scalar value.
    pub fn scalar(&mut self) -> char {
        let v = match self.below(6) {
            0 => self.range(0x20, 0x7e),
            1 => self.range(0xa0, 0x24f),
            2 => self.range(0x2800, 0x28ff),
            3 => self.below(0x3000),
            4 => self.below(0x110000),
            _ => self.below(0x20),
        };
        char::from_u32(v as u32).unwrap_or('\u{fffd}')
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // 0 = stay in place
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ------------------------------------------------------------------- context

#[derive(Debug, Clone)]
pub struct Fail {
    pub message: String,
    /// Identifies a listed finding; empty when there is none it could be.
    pub signature: String,
}

impl Fail {
    pub fn new(message: impl Into<String>) -> Self {
        Fail { message: message.into(), signature: String::new() }
    }
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::new(s)
    }
}

pub type Outcome = Result<(), Fail>;

#[derive(Default)]
pub struct Ctx {
    pub evaluations: u64,
    pub labels: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
    /// Per-case scratch folder root for properties that need files.
    pub scratch: std::path::PathBuf,
    pub tier_thorough: bool,
    /// A description of the running case, for cases that kill the process.
    pub note: String,
}

impl Ctx {
    pub fn eval(&mut self) {
        self.evaluations += 1;
    }
    pub fn label(&mut self, l: &str) {
        if let Some(n) = self.labels.get_mut(l) {
            *n += 1;
        } else {
            self.labels.insert(l.to_string(), 1);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    /// Count the evaluation as non-trivial, distinct by its key.
    pub fn nontrivial<K: Hash + ?Sized>(&mut self, key: &K) {
        self.hashes.insert(hash(key));
    }
    /// Describe what is about to run.
    pub fn note(&mut self, s: String) {
        if let Some(p) = LIVE_NOTE.lock().unwrap().as_ref() {
            let _ = std::fs::write(p, &s);
        }
        self.note = s;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 4 {
            self.want_sample = false;
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
}

pub fn hash<K: Hash + ?Sized>(key: &K) -> u64 {
    // FNV-1a, so that the counts are the same in every process
    struct Fnv(u64);
    impl Hasher for Fnv {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = Fnv(0xcbf29ce484222325);
    key.hash(&mut h);
    h.finish()
}

pub struct Prop {
    pub id: &'static str,
    /// number of cases in the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Src, &mut Ctx) -> Outcome,
    /// Fixed cases: regressions of repaired defects and listed findings.
    pub explicit: &'static [(&'static str, fn(&mut Ctx) -> Outcome)],
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    hash(&(seed, id, index)) ^ 0x5851F42D4C957F2D
}

/// Run one case, panics become failures.
pub fn run_case(prop: &Prop, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    LIVE.store(0, Ordering::Relaxed);
    TOTAL.store(0, Ordering::Relaxed);
    ARMED.store(true, Ordering::Relaxed);
    ctx.note.clear();
    let r = catch_unwind(AssertUnwindSafe(|| (prop.case)(src, ctx)));
    ARMED.store(false, Ordering::Relaxed);
    flatten(r, ctx)
}

pub fn run_explicit(f: fn(&mut Ctx) -> Outcome, ctx: &mut Ctx) -> Outcome {
    LIVE.store(0, Ordering::Relaxed);
    TOTAL.store(0, Ordering::Relaxed);
    ARMED.store(true, Ordering::Relaxed);
    ctx.note.clear();
    let r = catch_unwind(AssertUnwindSafe(|| f(ctx)));
    ARMED.store(false, Ordering::Relaxed);
    flatten(r, ctx)
}

fn flatten(r: std::thread::Result<Outcome>, ctx: &Ctx) -> Outcome {
    match r {
        Ok(o) => o,
        Err(p) => {
            let what = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "(no message)".into());
            let at = LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default();
            Err(Fail::new(format!("panicked: {what}\nat {at}\n{}", ctx.note)))
        }
    }
}

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut s) = LAST_PANIC.lock() {
            *s = info.location().map(|l| l.to_string()).unwrap_or_default();
        }
    }));
}

/// When set, every choice is also written here at once (for cases that kill
/// their process).
pub static LIVE_RECORD: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
/// When set, the note of the running case is written to this file.
pub static LIVE_NOTE: std::sync::Mutex<Option<std::path::PathBuf>> = std::sync::Mutex::new(None);

pub fn begin_sampling(ctx: &mut Ctx) {
    ctx.want_sample = true;
}

// ----------------------------------------------------------------- shrinking

/// Shrink a failing choice sequence. `test` re-runs it and returns the recorded
/// choices and message if it still fails.
pub fn shrink(
    start: Vec<u32>,
    mut test: impl FnMut(&[u32]) -> Option<Vec<u32>>,
    mut budget: usize,
) -> Vec<u32> {
    let mut best = start;
    let simpler = |a: &Vec<u32>, b: &Vec<u32>| {
        (a.len(), a.iter().map(|x| *x as u64).sum::<u64>(), a) < (b.len(), b.iter().map(|x| *x as u64).sum::<u64>(), b)
    };
    let mut attempt = |cand: Vec<u32>, best: &mut Vec<u32>, budget: &mut usize| -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        if let Some(rec) = test(&cand) {
            // trailing zeros are implied
            let mut rec = rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            if simpler(&rec, best) {
                *best = rec;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[end..]);
                if !attempt(cand, &mut best, &mut budget) {
                    i += size.max(1);
                }
                if budget == 0 {
                    return best;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        for size in [8usize, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].fill(0);
                    attempt(cand, &mut best, &mut budget);
                }
                i += size;
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [0, v / 2, v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut cand = best.clone();
                    cand[i] = nv;
                    if attempt(cand, &mut best, &mut budget) {
                        break;
                    }
                    // lower a length and delete the elements that went with it
                    if v > nv && best.len() > i + 1 {
                        for del in 1..=4usize {
                            if i + 1 + del <= best.len() {
                                let mut cand = best.clone();
                                cand[i] = nv;
                                cand.drain(i + 1..i + 1 + del);
                                if attempt(cand, &mut best, &mut budget) {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            return best;
        }
    }
}
