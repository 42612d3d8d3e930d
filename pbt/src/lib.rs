//! A small property-based testing engine in the style of Hypothesis: every random decision of a
//! generator is one entry of a *choice sequence*, so that any case can be replayed from its choices
//! and any failing case shrinks by shrinking its choices, whatever the generator looks like.
//!
//! It has no dependency (so that it also runs inside a procedural macro) and never reads a clock or a
//! source of entropy: a run is a function of the code and of the seed.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod json_out;
pub mod run;
pub mod text;

// ---------------------------------------------------------------------------------------------
// choices

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    // splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h, s.len() as u64)
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

pub const MAX_CHOICES: usize = 1 << 17;

/// The source of all randomness of one case.
pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    /// every choice is written out at once: for cases that take the process down
    tee: bool,
}

static TEE: std::sync::Mutex<Option<std::fs::File>> = std::sync::Mutex::new(None);
static TEE_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// From now on the choices of every source go to this file.
pub fn tee_to(f: std::fs::File) {
    *TEE.lock().unwrap() = Some(f);
    TEE_ON.store(true, std::sync::atomic::Ordering::SeqCst);
}

fn tee_on() -> bool {
    TEE_ON.load(std::sync::atomic::Ordering::Relaxed)
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { mode: Mode::Random(Rng::new(seed)), rec: Vec::new(), tee: tee_on() }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(choices, 0), rec: Vec::new(), tee: tee_on() }
    }

    /// A choice in `0..n`. 0 is meant to be the simplest one: it is what shrinking aims for.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0, "below(0)");
        let c = if self.rec.len() >= MAX_CHOICES {
            0
        } else {
            match &mut self.mode {
                Mode::Random(r) => {
                    let x = r.next();
                    if n == u64::MAX { x } else { ((x as u128 * n as u128) >> 64) as u64 }
                }
                Mode::Replay(v, pos) => {
                    let c = v.get(*pos).copied().unwrap_or(0);
                    *pos += 1;
                    c.min(n - 1)
                }
            }
        };
        self.rec.push(c);
        if self.tee {
            use std::io::Write;
            if let Some(f) = TEE.lock().unwrap().as_mut() {
                let _ = f.write_all(&c.to_le_bytes());
            }
        }
        c
    }

    pub fn bits(&mut self) -> u64 {
        self.below(u64::MAX)
    }

    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }

    /// true with probability num/den (false is the simple choice)
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn flag(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }

    /// index of the chosen weight
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut c = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if c < *w as u64 {
                return i;
            }
            c -= *w as u64;
        }
        unreachable!()
    }

    /// Another element? Average length `avg`; never more than `max`. Made of one choice per element, so
    /// that deleting the choices of an element deletes the element.
    pub fn more(&mut self, so_far: usize, avg: u64, max: usize) -> bool {
        so_far < max && self.below(avg + 1) > 0
    }

    /// `more`'s average and maximum for a list, which is a long one now and then.
    pub fn long(&mut self, avg: u64, max: usize) -> (u64, usize) {
        if self.chance(1, 50) { (avg * 6, max * 6) } else { (avg, max) }
    }

    pub fn vec<T>(&mut self, avg: u64, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut v = Vec::new();
        while self.more(v.len(), avg, max) {
            v.push(f(self));
        }
        v
    }
}

// ---------------------------------------------------------------------------------------------
// cases

/// What a property tells about the case it decided, besides the verdict.
#[derive(Default)]
pub struct Cx {
    pub nontrivial: bool,
    pub fingerprint: u64,
    pub labels: Vec<&'static str>,
    pub want_desc: bool,
    /// print the case before it is decided
    pub announce: bool,
    pub desc: String,
    /// cases decided inside this one (a history of n steps, a batch)
    pub extra_evals: u64,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// The case, written out, is the identity of the case.
    pub fn case(&mut self, nontrivial: bool, text: impl FnOnce() -> String) {
        self.nontrivial = nontrivial;
        if self.want_desc || nontrivial {
            let t = text();
            self.fingerprint = hash_str(&t);
            if self.want_desc {
                self.desc = t;
                self.say();
            }
        }
    }
    pub fn case_ref(&mut self, nontrivial: bool, text: &str) {
        self.nontrivial = nontrivial;
        self.fingerprint = hash_str(text);
        if self.want_desc {
            self.desc = text.to_string();
            self.say();
        }
    }
    fn say(&self) {
        if self.announce {
            use std::io::Write;
            let mut o = std::io::stdout();
            let _ = writeln!(o, "CASE {}", self.desc);
            let _ = o.flush();
        }
    }
}

pub type Verdict = Result<(), String>;
pub type RandomFn = fn(&mut Src, &mut Cx) -> Verdict;
pub type EnumFn = fn(u64, &mut Cx) -> Verdict;

#[derive(Clone, Copy)]
pub enum Kind {
    /// cases drawn at random: (quick, thorough) case counts
    Random { quick: u64, thorough: u64, f: RandomFn },
    /// a finite space walked completely: (quick, thorough) sizes
    Enumerated { quick: u64, thorough: u64, f: EnumFn },
}

#[derive(Clone, Copy)]
pub struct Suite {
    pub name: &'static str,
    pub kind: Kind,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

/// Replace the panic hook by one that remembers the message and prints nothing.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        PANIC_MSG.with(|m| *m.borrow_mut() = msg);
    }));
}

pub fn guarded(f: impl FnOnce() -> Verdict) -> Verdict {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone()))),
    }
}

/// Runs `f` and turns a panic into Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone()))),
    }
}

pub fn run_random(f: RandomFn, src: &mut Src, cx: &mut Cx) -> Verdict {
    guarded(|| f(src, cx))
}

// ---------------------------------------------------------------------------------------------
// shrinking

pub struct Shrunk {
    pub choices: Vec<u64>,
    pub msg: String,
    pub evals: u64,
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// `still_fails(choices)` returns the choices actually consumed and the failure message.
pub fn shrink(
    start: Vec<u64>,
    msg: String,
    budget: u64,
    mut still_fails: impl FnMut(Vec<u64>) -> Option<(Vec<u64>, String)>,
) -> Shrunk {
    let mut best = start;
    let mut msg = msg;
    let mut evals = 0u64;

    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if evals >= budget {
                false
            } else {
                evals += 1;
                match still_fails(cand) {
                    Some((used, m)) if simpler(&used, &best) => {
                        best = used;
                        msg = m;
                        true
                    }
                    _ => false,
                }
            }
        }};
    }

    loop {
        let before = best.clone();
        // delete blocks, big ones first
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                let mut cand = best.clone();
                cand.drain(lo..i.min(best.len()));
                if attempt!(cand) {
                    i = lo.min(best.len());
                } else {
                    i = if size == 1 { i - 1 } else { lo };
                }
                if i > best.len() {
                    i = best.len();
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|c| *c != 0) {
                    let mut cand = best.clone();
                    cand[i..hi].iter_mut().for_each(|c| *c = 0);
                    attempt!(cand);
                }
                i = hi;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single choices, by bisection; also together with dropping the following one
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut lo = 0u64; // known not to fail (0 was tried above)
                while i < best.len() && best[i] > lo + 1 {
                    let mid = lo + (best[i] - lo) / 2;
                    let mut cand = best.clone();
                    cand[i] = mid;
                    let old = best[i];
                    if !attempt!(cand) || i >= best.len() || best[i] >= old {
                        lo = mid;
                    }
                    if evals >= budget {
                        break;
                    }
                }
                if i + 1 < best.len() && best[i] > 0 {
                    let mut cand = best.clone();
                    cand[i] -= 1;
                    cand.remove(i + 1);
                    attempt!(cand);
                }
            }
            i += 1;
        }
        if best == before || evals >= budget {
            break;
        }
    }
    Shrunk { choices: best, msg, evals }
}

// ---------------------------------------------------------------------------------------------
// statistics

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub seen: HashSet<u64>,
    pub nontrivial_enum: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn distinct_nontrivial(&self) -> u64 {
        self.seen.len() as u64 + self.nontrivial_enum
    }
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.seen.extend(o.seen);
        self.nontrivial_enum += o.nontrivial_enum;
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
    }
}
