//! The property-based testing engine: choice sources, laws, runner, shrinker,
//! replay files and evidence.
//!
//! Every random choice of a case goes through `Src::below`. A case is a pure
//! function of (VERIF_SEED, property, law, case index); a failing case is
//! re-run with its choices recorded, the recorded sequence is shrunk as one
//! value, and the shrunk sequence is the replay file.

use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub const HIST: usize = 8;

enum Mode<'a> {
    Random,
    Replay(&'a [u64]),
    Bytes(&'a [u8]),
}

pub struct Src<'a> {
    mode: Mode<'a>,
    state: u64,
    pos: usize,
    record: bool,
    pub choices: Vec<u64>,
    pub describe: bool,
    pub notes: Vec<String>,
    hash: u64,
    hist: [f64; HIST],
    hist_n: usize,
    /// choices and notes as they are drawn, for cases that crash or hang
    pub stream: Option<std::fs::File>,
}

#[inline]
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl<'a> Src<'a> {
    fn base(mode: Mode<'a>, state: u64) -> Self {
        Src {
            mode,
            state,
            pos: 0,
            record: false,
            choices: Vec::new(),
            describe: false,
            notes: Vec::new(),
            hash: 0x9e3779b97f4a7c15,
            hist: [0.0; HIST],
            hist_n: 0,
            stream: None,
        }
    }
    pub fn random(state: u64) -> Src<'static> {
        Src::base(Mode::Random, state)
    }
    pub fn replay(choices: &'a [u64]) -> Src<'a> {
        Src::base(Mode::Replay(choices), 0)
    }
    pub fn bytes(data: &'a [u8]) -> Src<'a> {
        Src::base(Mode::Bytes(data), 0)
    }
    /// A value in `0..n`; smaller is simpler.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &self.mode {
            Mode::Random => {
                self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
                ((mix(self.state) as u128 * n as u128) >> 64) as u64
            }
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0).min(n - 1);
                self.pos += 1;
                v
            }
            Mode::Bytes(d) => {
                // little-endian, as many bytes as n needs
                let nb = if n <= 1 {
                    0
                } else {
                    (64 - (n - 1).leading_zeros() as usize).div_ceil(8)
                };
                let mut v = 0u64;
                for i in 0..nb {
                    v |= (*d.get(self.pos + i).unwrap_or(&0) as u64) << (8 * i);
                }
                self.pos += nb;
                if v < n {
                    v
                } else {
                    v % n
                }
            }
        };
        if self.record {
            self.choices.push(v);
            if let Some(f) = &mut self.stream {
                let _ = writeln!(f, "c {v}");
            }
        }
        self.hash = (self.hash ^ v).wrapping_mul(0x9fb21c651e98df25).rotate_left(29);
        v
    }
    #[inline]
    pub fn pick(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive integer range
    #[inline]
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let k = self.below((hi.wrapping_sub(lo)) as u64 + 1);
        if lo == -hi {
            // 0, -1, 1, -2, 2, ...
            let m = (k / 2 + (k & 1)) as i64;
            return if k & 1 == 1 { -m } else { m };
        }
        lo.wrapping_add(k as i64)
    }
    /// true with probability num/den; false is simpler
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        // two halves, so that the whole 64-bit range is reachable
        let a = self.below(1 << 32);
        let b = self.below(1 << 32);
        a | (b << 32)
    }
    /// uniform in [0, 1]
    #[inline]
    pub fn unit(&mut self) -> f64 {
        self.below((1 << 53) + 1) as f64 / (1u64 << 53) as f64
    }
    /// uniform in [lo, hi]
    #[inline]
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        if lo == -hi {
            let k = self.below((1 << 54) + 1);
            let m = (k >> 1) as f64 / (1u64 << 53) as f64 * hi;
            return if k & 1 == 1 { -m } else { m };
        }
        lo + (hi - lo) * self.unit()
    }
    /// one of the weighted branches
    #[inline]
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut r = self.below(tot);
        for (i, &x) in w.iter().enumerate() {
            if r < x {
                return i;
            }
            r -= x;
        }
        unreachable!()
    }
    #[inline]
    pub fn remember(&mut self, x: f64) {
        self.hist[self.hist_n % HIST] = x;
        self.hist_n += 1;
    }
    #[inline]
    pub fn recall(&mut self) -> Option<f64> {
        if self.hist_n == 0 {
            return None;
        }
        let n = self.hist_n.min(HIST);
        let k = self.pick(n);
        Some(self.hist[(self.hist_n - 1 - k) % HIST])
    }
    #[cold]
    pub fn put_note(&mut self, t: String) {
        if let Some(f) = &mut self.stream {
            let _ = writeln!(f, "n {}", t.replace('\n', " "));
        }
        self.notes.push(t);
    }
    pub fn recording(mut self) -> Self {
        self.record = true;
        self
    }
    pub fn case_hash(&self) -> u64 {
        mix(self.hash)
    }
}

#[macro_export]
macro_rules! note {
    ($s:expr, $($arg:tt)*) => {
        if $s.describe {
            let t = format!($($arg)*);
            $s.put_note(t);
        }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    /// the case says little (stated per property in `rule`)
    Trivial,
    NonTrivial,
    /// the oracle cannot decide the case because it lies within rounding of a
    /// boundary; only the weak part of the law was checked
    Ambiguous,
    /// matches the signature of a listed known finding
    Known(&'static str),
}

pub type Res = Result<Class, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) {
            return Err(format!($($arg)*));
        }
    };
}

pub struct Law {
    pub name: &'static str,
    /// cases per quick run
    pub quick: u64,
    pub f: fn(&mut Src) -> Res,
}

/// A complete enumeration or sweep: returns the number of evaluations, of which
/// non-trivial, or a failure.
pub struct Sweep {
    pub name: &'static str,
    /// run in the quick tier too
    pub quick: bool,
    pub total: u64,
    pub f: fn(u64, u64) -> Result<u64, String>,
}

pub struct Finding {
    pub id: &'static str,
    pub what: &'static str,
    /// true if the pinned witness still fails
    pub witness: fn() -> bool,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub laws: Vec<Law>,
    pub sweeps: Vec<Sweep>,
    pub findings: Vec<Finding>,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// A defect of the harness itself: reported as an error of the check.
static HARNESS_ERROR: Mutex<Option<String>> = Mutex::new(None);
pub fn harness_error() -> Option<String> {
    HARNESS_ERROR.lock().unwrap().clone()
}

pub fn run_law(f: fn(&mut Src) -> Res, s: &mut Src) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(s))) {
        Ok(r) => r,
        Err(_) => {
            let (msg, loc) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if loc.starts_with("src/") {
                *HARNESS_ERROR.lock().unwrap() = Some(format!("panic in the harness at {loc}: {msg}"));
            }
            Err(format!("the library panicked: {msg} ({loc})"))
        }
    }
}

// ------------------------------------------------------------------ shrinking

fn fails(law: fn(&mut Src) -> Res, c: &[u64]) -> Option<(Vec<u64>, String)> {
    let mut s = Src::replay(c).recording();
    match run_law(law, &mut s) {
        Err(m) => Some((s.choices, m)),
        Ok(_) => None,
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// `fails`: the choices consumed and the message if the candidate fails.
pub fn shrink(
    fails: &mut dyn FnMut(&[u64]) -> Option<(Vec<u64>, String)>,
    start: Vec<u64>,
    msg: String,
    budget: u64,
) -> (Vec<u64>, String, u64) {
    let mut best = start;
    let mut best_msg = msg;
    let mut evals = 0u64;
    let mut try_it = |cand: &[u64], best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        if evals >= budget {
            return false;
        }
        evals += 1;
        if let Some((c, m)) = fails(cand) {
            // `c` is what was really consumed
            if simpler(&c, best) {
                *best = c;
                *best_msg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        for size in [16usize, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i -= 1;
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    try_it(&c, &mut best, &mut best_msg);
                }
            }
        }
        // minimise single choices
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_it(&c, &mut best, &mut best_msg) {
                    let mut lo = 0u64;
                    let mut hi = best.get(i).copied().unwrap_or(0);
                    while lo + 1 < hi {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if try_it(&c, &mut best, &mut best_msg) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    // keep round numbers for uniform draws
                    for sh in [48u32, 40, 32, 24, 16, 8] {
                        if i < best.len() && best[i] >> sh > 0 {
                            let mut c = best.clone();
                            c[i] = (c[i] >> sh) << sh;
                            if c[i] != best[i] {
                                try_it(&c, &mut best, &mut best_msg);
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    (best, best_msg, evals)
}

// ------------------------------------------------------------------- progress

/// What a thread is doing, in memory shared with the supervising process.
#[repr(C)]
pub struct Slot {
    /// 0: idle, 1 + law, or 1 + SWEEP + sweep
    pub what: AtomicU64,
    pub case: AtomicU64,
    pub ticks: AtomicU64,
    pad: [u64; 5],
}
pub const SWEEP: u64 = 1000;
pub const SLOTS: usize = 256;
impl Slot {
    #[inline]
    pub fn enter(&self, what: u64, case: u64) {
        self.what.store(what + 1, Ordering::Relaxed);
        self.case.store(case, Ordering::Relaxed);
        self.tick();
    }
    #[inline]
    pub fn tick(&self) {
        self.ticks.store(self.ticks.load(Ordering::Relaxed).wrapping_add(1), Ordering::Relaxed);
    }
    pub fn leave(&self) {
        self.what.store(0, Ordering::Relaxed);
        self.tick();
    }
}
extern "C" {
    fn progress_map(path: *const std::ffi::c_char, len: usize) -> *mut std::ffi::c_void;
}
static PROGRESS: OnceLock<usize> = OnceLock::new();

/// Shares the slots through the file.
pub fn map_progress(path: &std::path::Path) -> Result<(), String> {
    let len = SLOTS * std::mem::size_of::<Slot>();
    std::fs::write(path, vec![0u8; len]).map_err(|e| e.to_string())?;
    open_progress(path)
}
pub fn open_progress(path: &std::path::Path) -> Result<(), String> {
    let len = SLOTS * std::mem::size_of::<Slot>();
    let c = std::ffi::CString::new(path.to_str().unwrap()).unwrap();
    let p = unsafe { progress_map(c.as_ptr(), len) };
    if p.is_null() {
        return Err("cannot map the progress file".into());
    }
    let _ = PROGRESS.set(p as usize);
    Ok(())
}
pub fn progress(i: usize) -> &'static Slot {
    let base = *PROGRESS.get_or_init(|| {
        let v: Vec<u64> = vec![0; SLOTS * std::mem::size_of::<Slot>() / 8];
        Box::leak(v.into_boxed_slice()).as_ptr() as usize
    });
    unsafe { &*((base as *const Slot).add(i % SLOTS)) }
}

// -------------------------------------------------------------------- running

pub struct Outcome {
    pub law: &'static str,
    pub index: u64,
    pub msg: String,
    pub choices: Vec<u64>,
    pub notes: Vec<String>,
    pub evals: u64,
}

#[derive(Default, Clone)]
pub struct Counts {
    pub evals: u64,
    pub nontrivial: u64,
    pub ambiguous: u64,
    pub known: BTreeMap<&'static str, u64>,
}

/// Distinct non-trivial cases, counted as newly set bits of a hashed bitmap (a
/// lower bound of the true number).
struct Distinct {
    bits: Vec<AtomicU64>,
    n: AtomicU64,
}
impl Distinct {
    fn new(log2: u32) -> Self {
        let words = 1usize << (log2 - 6);
        Distinct {
            bits: (0..words).map(|_| AtomicU64::new(0)).collect(),
            n: AtomicU64::new(0),
        }
    }
    #[inline]
    fn add(&self, h: u64) {
        let i = (h >> 6) as usize & (self.bits.len() - 1);
        let m = 1u64 << (h & 63);
        if self.bits[i].load(Ordering::Relaxed) & m == 0
            && self.bits[i].fetch_or(m, Ordering::Relaxed) & m == 0
        {
            self.n.fetch_add(1, Ordering::Relaxed);
        }
    }
}

pub struct Report {
    pub counts: Vec<(&'static str, Counts)>,
    pub sweeps: Vec<(&'static str, u64, u64)>,
    pub distinct: u64,
    pub samples: Vec<String>,
    pub failure: Option<Outcome>,
    pub harness_error: Option<String>,
    pub wall_s: f64,
}

pub fn case_state(seed: u64, prop: &str, law: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)).wrapping_add(hash_str(law)) ^ mix(idx.wrapping_mul(0xd1342543de82ef95).wrapping_add(1)))
}

const BLOCK: u64 = 2048;

pub fn run(p: &Property, seed: u64, thorough: bool, scale: f64, threads: usize, only: Option<&str>) -> Report {
    let t0 = Instant::now();
    let mut items: Vec<(usize, u64, u64)> = Vec::new(); // law, start, end
    let laws: Vec<&Law> = p.laws.iter().collect();
    // interleave the laws so that every one of them is reached early
    let mut left: Vec<(u64, u64)> = laws
        .iter()
        .map(|l| {
            if only.is_some_and(|o| o != l.name) {
                (0, 0)
            } else {
                (0, ((l.quick as f64 * scale) as u64).max(1))
            }
        })
        .collect();
    loop {
        let mut any = false;
        for (li, (pos, end)) in left.iter_mut().enumerate() {
            if *pos < *end {
                let e = (*pos + BLOCK).min(*end);
                items.push((li, *pos, e));
                *pos = e;
                any = true;
            }
        }
        if !any {
            break;
        }
    }
    let next = AtomicU64::new(0);
    let worst = AtomicU64::new(u64::MAX); // order of the first failing item
    let first: Mutex<Option<(u64, usize, u64)>> = Mutex::new(None);
    let distinct = Distinct::new(if thorough { 33 } else { 31 });
    let total = Mutex::new(vec![Counts::default(); laws.len()]);
    let firsts: Mutex<Vec<Vec<u64>>> = Mutex::new(vec![Vec::new(); laws.len()]);
    std::thread::scope(|sc| {
        for th in 0..threads {
            let (next, worst, first, distinct, total, firsts, laws, items) = (&next, &worst, &first, &distinct, &total, &firsts, &laws, &items);
            sc.spawn(move || {
                let slot = progress(th);
                let mut local = vec![Counts::default(); laws.len()];
                loop {
                    let it = next.fetch_add(1, Ordering::Relaxed);
                    if it >= items.len() as u64 || it > worst.load(Ordering::Relaxed) {
                        break;
                    }
                    let (li, a, b) = items[it as usize];
                    let law = laws[li];
                    let c = &mut local[li];
                    for idx in a..b {
                        let mut s = Src::random(case_state(seed, p.id, law.name, idx));
                        c.evals += 1;
                        slot.enter(li as u64, idx);
                        match run_law(law.f, &mut s) {
                            Ok(Class::NonTrivial) => {
                                c.nontrivial += 1;
                                distinct.add(s.case_hash() ^ hash_str(law.name));
                                if a == 0 && c.nontrivial <= 2 {
                                    firsts.lock().unwrap()[li].push(idx);
                                }
                            }
                            Ok(Class::Trivial) => {}
                            Ok(Class::Ambiguous) => c.ambiguous += 1,
                            Ok(Class::Known(k)) => *c.known.entry(k).or_insert(0) += 1,
                            Err(_) => {
                                worst.fetch_min(it, Ordering::Relaxed);
                                let mut f = first.lock().unwrap();
                                if f.is_none_or(|(o, _, _)| it < o) {
                                    *f = Some((it, li, idx));
                                }
                                break;
                            }
                        }
                    }
                }
                slot.leave();
                let mut t = total.lock().unwrap();
                for (x, y) in t.iter_mut().zip(local) {
                    x.evals += y.evals;
                    x.nontrivial += y.nontrivial;
                    x.ambiguous += y.ambiguous;
                    for (k, v) in y.known {
                        *x.known.entry(k).or_insert(0) += v;
                    }
                }
            });
        }
    });
    let mut samples = Vec::new();
    let firsts = firsts.into_inner().unwrap();
    for (li, idxs) in firsts.iter().enumerate() {
        let mut v = idxs.clone();
        v.sort();
        for &idx in v.iter().take(1) {
            let mut s = Src::random(case_state(seed, p.id, laws[li].name, idx));
            s.describe = true;
            let _ = run_law(laws[li].f, &mut s);
            samples.push(format!("{} case {}: {}", laws[li].name, idx, s.notes.join("; ")));
        }
    }
    let mut failure = None;
    if let Some((_, li, idx)) = first.into_inner().unwrap() {
        let law = laws[li];
        let slot = progress(0);
        slot.enter(li as u64, idx);
        let mut s = Src::random(case_state(seed, p.id, law.name, idx)).recording();
        let msg = run_law(law.f, &mut s).err().unwrap_or_else(|| "not reproduced".into());
        let (choices, msg, evals) = shrink(
            &mut |c| {
                slot.tick();
                fails(law.f, c)
            },
            s.choices.clone(),
            msg,
            30_000,
        );
        let mut s = Src::replay(&choices);
        s.describe = true;
        let msg = run_law(law.f, &mut s).err().unwrap_or(msg);
        let notes = std::mem::take(&mut s.notes);
        drop(s);
        slot.leave();
        failure = Some(Outcome {
            law: law.name,
            index: idx,
            msg,
            choices,
            notes,
            evals,
        });
    }
    // sweeps
    let mut sweeps = Vec::new();
    if failure.is_none() {
        for (si, sw) in p.sweeps.iter().enumerate() {
            if (!thorough && !sw.quick) || only.is_some_and(|o| o != sw.name) {
                continue;
            }
            let next = AtomicU64::new(0);
            let chunk = (sw.total / 4096).max(1);
            let bad: Mutex<Option<(u64, String)>> = Mutex::new(None);
            let done = AtomicU64::new(0);
            let nt = AtomicU64::new(0);
            std::thread::scope(|sc| {
                for th in 0..threads {
                    let (next, bad, done, nt) = (&next, &bad, &done, &nt);
                    sc.spawn(move || loop {
                        let slot = progress(th);
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= sw.total || bad.lock().unwrap().is_some() {
                            slot.leave();
                            break;
                        }
                        slot.enter(SWEEP + si as u64, a);
                        let b = (a + chunk).min(sw.total);
                        let r = match catch_unwind(AssertUnwindSafe(|| (sw.f)(a, b))) {
                            Ok(r) => r,
                            Err(_) => {
                                let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                                if l.starts_with("src/") {
                                    *HARNESS_ERROR.lock().unwrap() = Some(format!("{l}: {m}"));
                                }
                                Err(format!("the library panicked in {a}..{b}: {m} ({l})"))
                            }
                        };
                        match r {
                            Ok(n) => {
                                done.fetch_add(b - a, Ordering::Relaxed);
                                nt.fetch_add(n, Ordering::Relaxed);
                            }
                            Err(m) => {
                                let mut g = bad.lock().unwrap();
                                if g.as_ref().is_none_or(|(x, _)| a < *x) {
                                    *g = Some((a, m));
                                }
                                break;
                            }
                        }
                    });
                }
            });
            sweeps.push((sw.name, done.into_inner(), nt.into_inner()));
            if let Some((a, m)) = bad.into_inner().unwrap() {
                failure = Some(Outcome {
                    law: sw.name,
                    index: a,
                    msg: m.clone(),
                    choices: vec![],
                    notes: vec![m],
                    evals: 0,
                });
                break;
            }
        }
    }
    let counts = laws
        .iter()
        .map(|l| l.name)
        .zip(total.into_inner().unwrap())
        .collect();
    Report {
        counts,
        sweeps,
        distinct: distinct.n.load(Ordering::Relaxed),
        samples,
        failure,
        harness_error: HARNESS_ERROR.lock().unwrap().clone(),
        wall_s: t0.elapsed().as_secs_f64(),
    }
}

// ------------------------------------------------------------------- evidence

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn evidence(p: &Property, r: &Report, seed: u64, thorough: bool, wall: f64) -> String {
    let ev: u64 = r.counts.iter().map(|c| c.1.evals).sum::<u64>() + r.sweeps.iter().map(|s| s.1).sum::<u64>();
    let nt: u64 = r.distinct + r.sweeps.iter().map(|s| s.2).sum::<u64>();
    let mut laws = String::new();
    for (n, c) in &r.counts {
        if !laws.is_empty() {
            laws.push(',');
        }
        let known: Vec<String> = c.known.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
        let _ = write!(
            laws,
            "{}:{{\"cases\":{},\"nontrivial\":{},\"ambiguous\":{},\"known\":{{{}}}}}",
            json_str(n),
            c.evals,
            c.nontrivial,
            c.ambiguous,
            known.join(",")
        );
    }
    let sweeps: Vec<String> = r
        .sweeps
        .iter()
        .map(|(n, e, t)| format!("{}:{{\"evaluations\":{},\"nontrivial\":{}}}", json_str(n), e, t))
        .collect();
    let samples: Vec<String> = r.samples.iter().map(|s| json_str(s)).collect();
    let ass: Vec<String> = p.assumptions.iter().map(|s| json_str(s)).collect();
    format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"laws\":{{{}}},\"sweeps\":{{{}}}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(p.id),
        if thorough { "thorough" } else { "quick" },
        seed,
        ev,
        nt,
        json_str(p.rule),
        samples.join(","),
        laws,
        sweeps.join(","),
        ass.join(","),
        wall,
        r.failure.is_some() as u32
    )
}

// ------------------------------------------------------------- the dictionary

static DICT: OnceLock<Vec<f64>> = OnceLock::new();

/// Numeric literals of the tested sources: a fuzzing dictionary.
pub fn dict() -> &'static [f64] {
    DICT.get_or_init(|| {
        let root = std::env::var("SCARLET_SRC").unwrap_or_else(|_| "/repo/src".into());
        let mut files = Vec::new();
        collect(std::path::Path::new(&root), &mut files);
        files.sort();
        let mut v: Vec<f64> = vec![0.0, 1.0, 2.0, 0.5];
        for f in files {
            if let Ok(t) = std::fs::read_to_string(&f) {
                // unit tests at the end of a file are not tested code
                let t = t.split("#[cfg(test)]").next().unwrap_or("").to_string();
                literals(&t, &mut v);
            }
        }
        v.retain(|x| x.is_finite());
        v.sort_by(|a, b| a.total_cmp(b));
        v.dedup();
        v
    })
}

fn collect(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                collect(&p, out);
            } else if p.extension().is_some_and(|x| x == "rs") {
                out.push(p);
            }
        }
    }
}

fn literals(t: &str, v: &mut Vec<f64>) {
    for line in t.lines() {
        let line = line.split("//").next().unwrap_or("");
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let prev = if i > 0 { b[i - 1] } else { b' ' };
            if b[i].is_ascii_digit() && !(prev.is_ascii_alphanumeric() || prev == b'_' || prev == b'.') {
                let mut j = i;
                while j < b.len()
                    && (b[j].is_ascii_digit()
                        || b[j] == b'_'
                        || b[j] == b'.'
                        || ((b[j] == b'e' || b[j] == b'E') && j + 1 < b.len())
                        || ((b[j] == b'-' || b[j] == b'+') && (b[j - 1] == b'e' || b[j - 1] == b'E')))
                {
                    j += 1;
                }
                let s: String = line[i..j].chars().filter(|c| *c != '_').collect();
                let s = s.trim_end_matches(['.', 'e', 'E']);
                if let Ok(x) = s.parse::<f64>() {
                    v.push(x);
                }
                i = j.max(i + 1);
            } else {
                i += 1;
            }
        }
    }
}
