//! Choice-tape property-testing engine: generation, replay, shrinking, evidence.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// Why a case did not pass.
#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken.
    Bug(String),
    /// The failure is exactly the recorded one with this key.
    Known(&'static str),
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Fail::Bug(format!($($t)*))); } };
}
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail::Bug(format!($($t)*))) };
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9ABC_DEF1u64;
    for p in parts {
        h ^= *p;
        h = splitmix(&mut h);
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Source of choices for one case.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    pub size: usize,
    /// this case uses large lengths and counts too
    pub big: bool,
    /// a large case of some megabytes
    pub huge: bool,
    /// this case uses long histories too: 0 no, 1 many items or rounds, 2 many calls
    pub long: u8,
    room: usize,
    labels: Vec<&'static str>,
    nontrivial: bool,
    verbose: bool,
    notes: Vec<String>,
}
#[allow(dead_code)]
impl Src {
    fn random(seed: u64, size: usize) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(seed), size, big: false, huge: false, long: 0, room: 0, labels: vec![], nontrivial: false, verbose: false, notes: vec![] }
    }
    fn replay(tape: Vec<u64>, size: usize, verbose: bool) -> Self {
        Src { tape, pos: 0, rng: None, size, big: false, huge: false, long: 0, room: 0, labels: vec![], nontrivial: false, verbose, notes: vec![] }
    }
    /// Uniform in `0..bound` (`bound == 0`: any u64).
    pub fn draw(&mut self, bound: u64) -> u64 {
        let v = if let Some(ref mut s) = self.rng {
            let r = splitmix(s);
            let v = if bound == 0 { r } else { ((u128::from(r) * u128::from(bound)) >> 64) as u64 };
            self.tape.push(v);
            v
        } else {
            // past the end of the tape: zeros, then (so that every loop ends) pseudo-random choices
            let v = match self.tape.get(self.pos) {
                Some(v) => *v,
                None if self.pos < self.tape.len() + 200 => 0,
                None => hash64(&[self.pos as u64]) % bound.max(1),
            };
            if bound == 0 { v } else { v.min(bound - 1) }
        };
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 { 0 } else { self.draw(n as u64) as usize }
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo { lo } else { lo + self.below(hi - lo + 1) }
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// True with probability 1/n (shrinks to false).
    pub fn one_in(&mut self, n: u64) -> bool {
        self.draw(n) == n - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut r = self.draw(u64::from(total.max(1))) as u32;
        for (i, w) in ws.iter().enumerate() {
            if r < *w {
                return i;
            }
            r -= w;
        }
        ws.len() - 1
    }
    pub fn byte(&mut self) -> u8 {
        match self.draw(4) {
            0 => *self.pick(&[0u8, 1, 2, 3, 0x20, 0x7F, 0x80, 0xFF, 0xFE, 0x61, 0xC3, 0xE2, 0xF0]),
            _ => self.draw(256) as u8,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n > 300 {
            let k = self.draw(3);
            let x = self.draw(0);
            return (0..n as u64).map(|i| match k { 0 => x as u8, 1 => (x.wrapping_add(i) % 251) as u8, _ => hash64(&[x, i]) as u8 }).collect();
        }
        (0..n).map(|_| self.byte()).collect()
    }
    /// From here on `wide` chooses large lengths too.
    pub fn go_big(&mut self) {
        self.big = true;
        self.huge = self.one_in_rare(80);
        TICK_MAX.with(|t| t.set(if self.huge { 400 } else { 40 } * TICK_LIMIT));
        self.refill();
    }
    /// From here on `rounds` chooses large numbers of rounds, or `drive` large numbers of calls.
    pub fn go_long(&mut self) {
        TICK_MAX.with(|t| t.set(10 * TICK_LIMIT));
        self.long = 1 + u8::from(self.one_in(3));
        if self.long == 2 {
            self.size = self.range(20, 700);
        }
    }
    /// How often a history goes round: `lo..=hi`, in a long case often some hundreds of times.
    pub fn rounds(&mut self, lo: usize, hi: usize) -> usize {
        if self.long == 0 {
            return self.range(lo, hi);
        }
        let hi = if self.one_in(8) { 3000 } else { 620 };
        let n = self.range(lo, hi);
        self.label_if(n > 256, "more than 256 rounds");
        n
    }
    /// Whether the case has become so expensive that its history should end here.
    pub fn tired(&self) -> bool {
        self.long > 0 && TICKS.with(|t| t.get()) > 600_000
    }
    /// `rounds`, cut short when the case has become very expensive.
    pub fn turns(&mut self, lo: usize, hi: usize) -> impl Iterator<Item = usize> + use<> {
        let max = if self.long > 0 { 600_000 } else { u64::MAX };
        (0..self.rounds(lo, hi)).take_while(move |_| TICKS.with(|t| t.get()) <= max)
    }
    /// Whether a long case has chosen enough data.
    pub fn full(&self, len: usize) -> bool {
        self.long > 0 && len > 30_000
    }
    pub fn refill(&mut self) {
        if self.big {
            self.room = if self.huge { 1_300_000 } else { 140_000 };
        }
    }
    /// Like `len`; in a large case often at or around a large power of two.
    pub fn wide(&mut self, max: usize) -> usize {
        if !self.big || self.draw(3) == 0 {
            return self.len(max);
        }
        let t = *self.pick(&[0x40usize, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x8000, 0x1_0000]);
        let t = if self.huge && self.bool() { *self.pick(&[0x4_0000usize, 0x8_0000, 0xF_FFFF, 0x10_0000, 0x10_0001]) } else { t };
        let n = if self.one_in(4) { self.range(t, 2 * t) } else { (t + self.below(6)).saturating_sub(2) };
        if n > self.room {
            return self.len(max);
        }
        self.room -= n;
        self.label("large length or count");
        n
    }
    /// Like `wide`, without the budget.
    pub fn amount(&mut self, max: usize) -> usize {
        if self.big && self.bool() {
            self.refill();
            self.wide(max)
        } else {
            self.len(max)
        }
    }
    /// Size bound of a large case's repeated parts.
    pub fn bulk(&self) -> usize {
        if self.huge { 2_000_000 } else { crate::spec::BULK }
    }
    /// The same for parts made of many items.
    pub fn bulk_items(&self) -> usize {
        if self.huge { 700_000 } else { crate::spec::BULK }
    }
    /// After how many calls a large case stops choosing small pieces.
    pub fn patience(&self, n: usize) -> usize {
        if self.huge { n.min(8) } else { n }
    }
    /// True once in `n` times; false on a used-up tape.
    fn one_in_rare(&mut self, n: u64) -> bool {
        let r = self.draw(n) == n - 1;
        self.label_if(r, "some megabytes");
        r
    }
    /// The next chunk of `rest` bytes, at most `small` in an ordinary case; all of them after many calls.
    pub fn piece(&mut self, rest: usize, small: usize, calls: usize) -> usize {
        if !self.big {
            return self.range(0, rest.min(small));
        }
        match self.draw(7) {
            _ if calls > self.patience(120) => rest,
            0 => self.range(0, 12).min(rest),
            1 | 2 => self.range(0, rest),
            3 | 4 => (*self.pick(&[255usize, 256, 257, 1023, 1024, 1025, 4096, 8192, 65535, 65536])).min(rest),
            _ => rest,
        }
    }
    /// Length biased to small values, at most `max`.
    pub fn len(&mut self, max: usize) -> usize {
        match self.draw(8) {
            0 => 0,
            1 => 1,
            2 | 3 | 4 => self.range(0, max.min(4)),
            5 | 6 => self.range(0, max.min(12)),
            _ => self.range(0, max),
        }
        .min(max)
    }
    /// An integer of `bits` bits, biased to boundaries.
    pub fn int(&mut self, bits: u32) -> u64 {
        let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.draw(5) {
            0 => self.draw(20),
            1 => {
                let k = self.draw(u64::from(bits) + 1) as u32;
                let base = if k >= 64 { 0 } else { 1u64 << k };
                let d = self.draw(5);
                base.wrapping_add(d).wrapping_sub(2)
            }
            2 => mask.wrapping_sub(self.draw(4)),
            3 => {
                // distinct bytes, to expose byte order
                let mut v = 0u64;
                for _ in 0..8 {
                    v = (v << 8) | self.draw(256);
                }
                v
            }
            _ => self.draw(0),
        };
        v & mask
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    /// Declares the case non-trivial by the sub-check's rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        if c {
            self.nontrivial = true;
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let mut s = f();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            if self.notes.len() < 200 {
                self.notes.push(s);
            }
        }
    }
}

thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static TICK_MAX: Cell<u64> = const { Cell::new(TICK_LIMIT) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}
pub const TICK_LIMIT: u64 = 1_000_000;
/// Counts a call from the code under test into harness code; a case that makes absurdly many does not terminate.
pub fn tick() {
    TICKS.with(|t| {
        let n = t.get() + 1;
        t.set(n);
        if n > TICK_MAX.with(|m| m.get()) {
            t.set(0);
            panic!("call budget exhausted ({n} calls in one case): the code under test does not terminate");
        }
    });
}

pub type CaseFn = fn(&mut Src) -> R;
pub struct Sub {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough_factor: u64,
    pub max_size: usize,
    /// large lengths and counts too
    pub big: bool,
    /// long histories too
    pub long: bool,
    pub f: CaseFn,
}
impl Sub {
    fn run(&self, s: &mut Src) -> R {
        if self.big {
            s.go_big();
        }
        if self.long {
            s.go_long();
        }
        (self.f)(s)
    }
}
/// A fixed input kept from a repaired defect or a boundary.
pub struct Pin {
    pub name: &'static str,
    pub f: fn() -> R,
}
/// A recorded, unrepaired defect: `demo` returns Ok(true) while it still shows.
pub struct KnownF {
    pub key: &'static str,
    pub text: &'static str,
    pub demo: fn() -> Result<bool, String>,
}
/// An enumeration of a finite space: called with every index below `n`.
pub struct Enum {
    pub name: &'static str,
    pub rule: &'static str,
    pub n: u64,
    pub f: fn(u64) -> R,
}
pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
    pub pins: Vec<Pin>,
    pub known: Vec<KnownF>,
    pub enums: Vec<Enum>,
    pub assumptions: Vec<&'static str>,
}
#[allow(dead_code)]
impl Prop {
    pub fn new(id: &'static str) -> Self {
        Prop { id, subs: vec![], pins: vec![], known: vec![], enums: vec![], assumptions: vec![] }
    }
    pub fn sub(mut self, name: &'static str, quick: u64, rule: &'static str, f: CaseFn) -> Self {
        self.subs.push(Sub { name, rule, quick: 2 * quick, thorough_factor: 25, max_size: 60, big: false, long: false, f });
        self
    }
    /// A sub-check run on large lengths and counts.
    pub fn large(mut self, name: &'static str, quick: u64, rule: &'static str, f: CaseFn) -> Self {
        self.subs.push(Sub { name, rule, quick: 3 * quick, thorough_factor: 25, max_size: 60, big: true, long: false, f });
        self
    }
    /// A sub-check run over histories of hundreds of items, rounds or calls.
    pub fn long(mut self, name: &'static str, quick: u64, rule: &'static str, f: CaseFn) -> Self {
        self.subs.push(Sub { name, rule, quick: 3 * quick, thorough_factor: 25, max_size: 12, big: false, long: true, f });
        self
    }
    pub fn pin(mut self, name: &'static str, f: fn() -> R) -> Self {
        self.pins.push(Pin { name, f });
        self
    }
    pub fn known(mut self, key: &'static str, text: &'static str, demo: fn() -> Result<bool, String>) -> Self {
        self.known.push(KnownF { key, text, demo });
        self
    }
    pub fn exhaust(mut self, name: &'static str, n: u64, rule: &'static str, f: fn(u64) -> R) -> Self {
        self.enums.push(Enum { name, rule, n, f });
        self
    }
    pub fn assume(mut self, s: &'static str) -> Self {
        self.assumptions.push(s);
        self
    }
}

pub struct Cfg {
    pub seed: u64,
    pub tier: String,
    pub verif: std::path::PathBuf,
    pub scale: f64,
    pub status: Option<std::path::PathBuf>,
    pub only: Option<String>,
}

enum Res {
    Ok,
    Bug(String),
    Known(&'static str),
}
fn clip(mut s: String) -> String {
    if s.len() > 6000 {
        let k = (0..=6000).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0);
        s.truncate(k);
        s.push_str("...");
    }
    s
}
fn guard(f: impl FnOnce() -> R) -> Res {
    TICKS.with(|t| t.set(0));
    TICK_MAX.with(|t| t.set(TICK_LIMIT));
    PANIC_MSG.with(|m| m.borrow_mut().clear());
    IN_CASE.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(false));
    crate::alloc_guard::end_case();
    match r {
        Ok(Ok(())) => Res::Ok,
        Ok(Err(Fail::Bug(s))) => Res::Bug(clip(s)),
        Ok(Err(Fail::Known(k))) => Res::Known(k),
        Err(p) => {
            let m = PANIC_MSG.with(|m| m.borrow().clone());
            let m = if m.is_empty() {
                p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            } else {
                m
            };
            Res::Bug(format!("panic: {m}"))
        }
    }
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if IN_CASE.with(|c| c.get()) {
            PANIC_MSG.with(|m| *m.borrow_mut() = info.to_string().replace('\n', " "));
        } else {
            eprintln!("harness panic: {info}");
        }
    }));
}

#[derive(Default)]
struct Stats {
    cases: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, u64>,
    sample_idx: Vec<u64>,
}
struct Failure {
    sub: String,
    index: u64,
    size: usize,
    tape: Vec<u64>,
    msg: String,
}

fn case_size(idx: u64, max: usize) -> usize {
    6 + ((idx.wrapping_mul(7) / 3) as usize % max.max(1))
}
fn case_seed(cfg: &Cfg, prop: &str, sub: &str, idx: u64) -> u64 {
    hash64(&[cfg.seed, hash_str(prop), hash_str(sub), idx])
}
/// Cases take well under a millisecond. One that takes this long ends the run; the supervisor then reruns that case
/// alone and reports it only when it burns [`HANG_CPU_SECS`] of processor time again.
const WATCHDOG_SECS: u64 = 60;
pub const HANG_CPU_SECS: u64 = 40;
pub const HANG_EXIT: i32 = 77;

static GUARD_START: AtomicU64 = AtomicU64::new(0);
/// Ends the process when a case run by the main thread (pins, shrinking, demonstrations) takes too long.
fn main_watchdog() {
    let t0 = Instant::now();
    std::thread::spawn(move || {
        let (mut seen, mut since) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let (v, now) = (GUARD_START.load(Ordering::Relaxed), t0.elapsed().as_secs());
            if v != seen {
                seen = v;
                since = now;
            } else if v % 2 == 1 && now > since + WATCHDOG_SECS {
                std::process::exit(HANG_EXIT);
            }
        }
    });
}
/// What the supervisor falls back to when the process dies now: a replay, and whether its failure is already established.
fn pending(cfg: &Cfg, v: Option<&Value>) {
    if let Some(s) = &cfg.status {
        let p = s.with_extension("pending");
        let _ = match v {
            Some(v) => std::fs::write(p, v.to_string()),
            None => std::fs::remove_file(p),
        };
    }
}
fn on_main<T>(f: impl FnOnce() -> T) -> T {
    GUARD_START.fetch_add(1, Ordering::Relaxed);
    let r = f();
    GUARD_START.fetch_add(1, Ordering::Relaxed);
    r
}

struct Beat {
    start: Vec<AtomicU64>,
}

fn run_sub(cfg: &Cfg, prop: &Prop, sub: &Sub, listed: &HashSet<String>) -> (Stats, Option<Failure>) {
    let mut n = sub.quick;
    if cfg.tier == "thorough" {
        n *= sub.thorough_factor;
    }
    n = ((n as f64 * cfg.scale) as u64).max(1);
    let max_size = if cfg.tier == "thorough" { sub.max_size * 3 / 2 } else { sub.max_size };
    let threads = 8usize;
    let next = AtomicU64::new(0);
    let first_bad = AtomicU64::new(u64::MAX);
    let bad: Mutex<Option<Failure>> = Mutex::new(None);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let done = AtomicBool::new(false);
    let beat = Beat { start: (0..threads).map(|_| AtomicU64::new(0)).collect() };
    let t0 = Instant::now();
    const BATCH: u64 = 32;
    let status = cfg.status.as_ref().map(|p| std::fs::OpenOptions::new().write(true).open(p).expect("status file"));
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for w in 0..threads {
            let (next, first_bad, bad, total, beat, status) = (&next, &first_bad, &bad, &total, &beat, &status);
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mut st = Stats::default();
                loop {
                    let b = next.fetch_add(BATCH, Ordering::SeqCst);
                    if b >= n || b > first_bad.load(Ordering::SeqCst) {
                        break;
                    }
                    for idx in b..(b + BATCH).min(n) {
                        beat.start[w].store(t0.elapsed().as_secs() + 1, Ordering::Relaxed);
                        if let Some(f) = status {
                            let mut rec = [0u8; 64];
                            let nb = sub.name.as_bytes();
                            rec[..8].copy_from_slice(&(idx + 1).to_le_bytes());
                            rec[8..8 + nb.len().min(55)].copy_from_slice(&nb[..nb.len().min(55)]);
                            let _ = f.write_at(&rec, w as u64 * 64);
                        }
                        let size = case_size(idx, max_size);
                        let mut src = Src::random(case_seed(cfg, prop.id, sub.name, idx), size);
                        let r = guard(|| sub.run(&mut src));
                        st.cases += 1;
                        for l in &src.labels {
                            *st.labels.entry(l).or_default() += 1;
                        }
                        if src.nontrivial {
                            st.nontrivial += 1;
                            st.distinct.insert(hash64(&src.tape));
                            if st.sample_idx.len() < 2 && idx >= 20 {
                                st.sample_idx.push(idx);
                            }
                        }
                        let msg = match r {
                            Res::Ok => continue,
                            Res::Known(k) if listed.contains(k) => {
                                *st.known.entry(k).or_default() += 1;
                                continue;
                            }
                            Res::Known(k) => format!("unlisted finding {k}"),
                            Res::Bug(m) => m,
                        };
                        first_bad.fetch_min(idx, Ordering::SeqCst);
                        let mut g = bad.lock().unwrap();
                        if g.as_ref().map_or(true, |f| idx < f.index) {
                            *g = Some(Failure { sub: sub.name.into(), index: idx, size, tape: src.tape.clone(), msg });
                        }
                        break;
                    }
                }
                beat.start[w].store(0, Ordering::Relaxed);
                if let Some(f) = status {
                    let _ = f.write_at(&[0u8; 64], w as u64 * 64);
                }
                let mut g = total.lock().unwrap();
                g.cases += st.cases;
                g.nontrivial += st.nontrivial;
                g.distinct.extend(st.distinct);
                for (k, v) in st.labels {
                    *g.labels.entry(k).or_default() += v;
                }
                for (k, v) in st.known {
                    *g.known.entry(k).or_default() += v;
                }
                g.sample_idx.extend(st.sample_idx);
            });
            hs.push(h.expect("spawn"));
        }
        let (beat, done) = (&beat, &done);
        let wd = sc.spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(20));
            if done.load(Ordering::SeqCst) {
                return;
            }
            let now = t0.elapsed().as_secs() + 1;
            for (w, s) in beat.start.iter().enumerate() {
                let v = s.load(Ordering::Relaxed);
                if v != 0 && now > v + WATCHDOG_SECS {
                    eprintln!("worker {w} has spent {WATCHDOG_SECS}s on one case");
                    std::process::exit(HANG_EXIT);
                }
            }
        });
        for h in hs {
            h.join().expect("worker");
        }
        done.store(true, Ordering::SeqCst);
        wd.join().unwrap();
    });
    let mut st = total.into_inner().unwrap();
    st.sample_idx.sort_unstable();
    st.sample_idx.truncate(2);
    (st, bad.into_inner().unwrap())
}

fn run_tape(sub: &Sub, tape: &[u64], size: usize, verbose: bool) -> (Res, Src) {
    let mut src = Src::replay(tape.to_vec(), size, verbose);
    let r = guard(|| sub.run(&mut src));
    (r, src)
}
fn fails(sub: &Sub, tape: &[u64], size: usize) -> Option<(String, usize)> {
    match run_tape(sub, tape, size, false) {
        (Res::Bug(m), s) => Some((m, s.pos)),
        _ => None,
    }
}
fn shrink(cfg: &Cfg, prop: &Prop, sub: &Sub, f: Failure) -> Failure {
    let save = |tape: &[u64], msg: &str| {
        pending(cfg, Some(&json!({"property": prop.id, "sub": f.sub, "size": f.size, "seed": cfg.seed, "index": f.index, "tape": tape, "failure": msg})));
    };
    save(&f.tape, &f.msg);
    let mut best = f.tape.clone();
    let mut msg;
    let size = f.size;
    let t0 = Instant::now();
    let mut evals = 0u32;
    if std::env::var_os("VERIF_NOSHRINK").is_some() {
        return f;
    }
    match on_main(|| fails(sub, &best, size)) {
        None => return f,
        Some((m, used)) => {
            msg = m;
            best.truncate(used);
        }
    }
    macro_rules! spent {
        () => {
            evals >= 6000 || t0.elapsed().as_secs() >= 30
        };
    }
    macro_rules! attempt {
        ($cand:expr) => {{
            let c: Vec<u64> = $cand;
            evals += 1;
            let mut ok = false;
            if !spent!() {
                if let Some((m, used)) = on_main(|| fails(sub, &c, size)) {
                    best = c;
                    best.truncate(used);
                    while best.last() == Some(&0) {
                        best.pop();
                    }
                    msg = m;
                    save(&best, &msg);
                    ok = true;
                }
            }
            ok
        }};
    }
    loop {
        let before = best.clone();
        // drop blocks
        for k in [65536usize, 16384, 4096, 1024, 256, 64, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + k <= best.len() && !spent!() {
                let mut c = best.clone();
                c.drain(i..i + k);
                if !attempt!(c) {
                    i += if k > 4 { k / 2 } else { 1 };
                }
            }
        }
        // truncate
        let mut k = best.len() / 2;
        while k > 0 && !spent!() {
            if best.len() > k {
                let mut c = best.clone();
                let l = c.len() - k;
                c.truncate(l);
                if attempt!(c) {
                    continue;
                }
            }
            k /= 2;
        }
        // zero blocks, then reduce single values
        for k in [8usize, 4, 2] {
            let mut i = 0;
            while i + k <= best.len() && !spent!() {
                if best[i..i + k].iter().any(|&v| v != 0) {
                    let mut c = best.clone();
                    c[i..i + k].iter_mut().for_each(|v| *v = 0);
                    attempt!(c);
                }
                i += k;
            }
        }
        let mut i = 0;
        while i < best.len() && !spent!() {
            let v = best[i];
            if v != 0 {
                let mut lo = 0u64; // smallest untested
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    let mut hi = v;
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        if spent!() {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || spent!() {
            break;
        }
    }
    Failure { tape: best, msg, ..f }
}

fn load_listed(cfg: &Cfg, prop: &str) -> HashSet<String> {
    let p = cfg.verif.join("known-findings.json");
    let Ok(s) = std::fs::read_to_string(&p) else { return HashSet::new() };
    let v: Value = serde_json::from_str(&s).expect("known-findings.json");
    v["known"].as_array().map_or_else(HashSet::new, |a| {
        a.iter().filter(|e| e["property"] == prop).filter_map(|e| e["key"].as_str().map(String::from)).collect()
    })
}

pub fn write_replay(cfg: &Cfg, prop: &str, name: &str, v: &Value) -> String {
    let dir = cfg.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{prop}-{name}.json"));
    std::fs::write(&file, serde_json::to_string_pretty(v).unwrap()).expect("write replay");
    file.display().to_string()
}

fn describe(sub: &Sub, f: &Failure) -> Vec<String> {
    run_tape(sub, &f.tape, f.size, true).1.notes
}

/// Runs all of a property. Returns the process exit code.
pub fn run_prop(cfg: &Cfg, prop: &Prop) -> i32 {
    let t0 = Instant::now();
    let listed = load_listed(cfg, prop.id);
    main_watchdog();
    let mut violations = 0;
    let mut subs_json = vec![];
    let mut samples = vec![];
    let mut cases = 0u64;
    let mut distinct = 0u64;
    let mut known_lines = vec![];

    for k in &prop.known {
        match catch_unwind(AssertUnwindSafe(|| (k.demo)())) {
            Ok(Ok(true)) if listed.contains(k.key) => known_lines.push(format!("KNOWN-FINDING: property={} {}: {}", prop.id, k.key, k.text)),
            Ok(Ok(true)) => {
                let p = write_replay(cfg, prop.id, k.key, &json!({"property": prop.id, "known": k.key, "what": k.text}));
                println!("{}: {}", k.key, k.text);
                println!("VIOLATION property={} replay={}", prop.id, p);
                violations += 1;
            }
            Ok(Ok(false)) => println!("note: recorded finding {} no longer shows", k.key),
            r => println!("note: demonstration of {} ended otherwise: {:?}", k.key, r),
        }
    }
    if cfg.only.is_none() {
        for p in &prop.pins {
            if violations > 0 {
                break;
            }
            cases += 1;
            pending(cfg, Some(&json!({"property": prop.id, "pin": p.name, "unconfirmed": true})));
            let r = on_main(|| guard(p.f));
            pending(cfg, None);
            if let Res::Bug(m) = r {
                let path = write_replay(cfg, prop.id, &format!("pin-{}", p.name), &json!({"property": prop.id, "pin": p.name, "failure": m}));
                println!("pinned case {}: {}", p.name, m);
                println!("VIOLATION property={} replay={}", prop.id, path);
                violations += 1;
            }
        }
        for e in &prop.enums {
            if violations > 0 {
                break;
            }
            let bad = AtomicU64::new(u64::MAX);
            let next = AtomicU64::new(0);
            const B: u64 = 4096;
            std::thread::scope(|sc| {
                for _ in 0..8 {
                    sc.spawn(|| loop {
                        let b = next.fetch_add(B, Ordering::SeqCst);
                        if b >= e.n || b > bad.load(Ordering::SeqCst) {
                            return;
                        }
                        for i in b..(b + B).min(e.n) {
                            if !matches!(guard(|| (e.f)(i)), Res::Ok) {
                                bad.fetch_min(i, Ordering::SeqCst);
                                break;
                            }
                        }
                    });
                }
            });
            let b = bad.load(Ordering::SeqCst);
            cases += e.n.min(b.saturating_add(1));
            distinct += e.n.min(b);
            subs_json.push(json!({"name": e.name, "rule": e.rule, "cases": e.n, "exhaustive": b == u64::MAX}));
            if b != u64::MAX {
                let m = match guard(|| (e.f)(b)) {
                    Res::Bug(m) => m,
                    _ => "not reproducible".into(),
                };
                let path = write_replay(cfg, prop.id, &format!("enum-{}", e.name), &json!({"property": prop.id, "enum": e.name, "index": b, "failure": m}));
                println!("enumerated case {} #{}: {}", e.name, b, m);
                println!("VIOLATION property={} replay={}", prop.id, path);
                violations += 1;
            }
        }
    }
    for sub in &prop.subs {
        if violations > 0 {
            break;
        }
        if cfg.only.as_deref().is_some_and(|o| o != sub.name && !(o == "+large" && sub.big) && !(o == "+long" && sub.long)) {
            continue;
        }
        let ts = Instant::now();
        let (st, bad) = run_sub(cfg, prop, sub, &listed);
        cases += st.cases;
        distinct += st.distinct.len() as u64;
        for idx in &st.sample_idx {
            let size = case_size(*idx, if cfg.tier == "thorough" { sub.max_size * 3 / 2 } else { sub.max_size });
            let mut src = Src::random(case_seed(cfg, prop.id, sub.name, *idx), size);
            src.verbose = true;
            let _ = guard(|| sub.run(&mut src));
            src.notes.truncate(12);
            samples.push(json!({"sub": sub.name, "index": idx, "case": src.notes}));
        }
        subs_json.push(json!({
            "name": sub.name, "rule": sub.rule, "cases": st.cases, "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.distinct.len(), "classes": st.labels, "known_hits": st.known,
            "wall_s": ts.elapsed().as_secs_f64(),
        }));
        if let Some(f) = bad {
            let f = shrink(cfg, prop, sub, f);
            let notes = describe(sub, &f);
            pending(cfg, None);
            let path = write_replay(cfg, prop.id, &f.sub, &json!({
                "property": prop.id, "sub": f.sub, "size": f.size, "seed": cfg.seed, "index": f.index,
                "tape": f.tape, "failure": f.msg, "case": notes}));
            println!("{} / {} failed (case {}): {}", prop.id, f.sub, f.index, f.msg);
            for n in notes.iter().take(40) {
                println!("    {n}");
            }
            println!("VIOLATION property={} replay={}", prop.id, path);
            violations += 1;
        }
    }
    let rules: Vec<String> = prop.subs.iter().map(|s| format!("[{}] {}", s.name, s.rule)).chain(prop.enums.iter().map(|e| format!("[{}] every index enumerated: {}", e.name, e.rule))).collect();
    let ev = json!({
        "property": prop.id, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration",
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": distinct,
            "rule": format!("Cases are drawn from a seeded choice tape; distinct = distinct tapes. Non-trivial per sub-check: {}", rules.join(" ")),
            "samples": samples, "sub_checks": subs_json,
            "pinned_cases": prop.pins.iter().map(|p| p.name).collect::<Vec<_>>(),
        },
        "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    for l in known_lines {
        println!("{l}");
    }
    println!("{}: {} cases, {} distinct non-trivial, {:.1}s, {} violation(s)", prop.id, cases, distinct, t0.elapsed().as_secs_f64(), violations);
    if violations > 0 { 1 } else { 0 }
}

/// Evidence for a run that ended with the code under test killing the process.
pub fn crash_evidence(cfg: &Cfg, prop: &Prop, what: &str) {
    let ev = json!({
        "property": prop.id, "tier": cfg.tier, "seed": cfg.seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run was ended by a crash", "samples": [what]},
        "assumptions": prop.assumptions, "wall_s": 0.0, "violations": 1,
    });
    let dir = cfg.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap());
}

/// Reruns exactly one case (used by the supervisor to confirm a crash).
pub fn run_index(cfg: &Cfg, prop: &Prop, sub: &str, idx: u64) -> i32 {
    let Some(sub) = prop.subs.iter().find(|s| s.name == sub) else { return 2 };
    let size = case_size(idx, if cfg.tier == "thorough" { sub.max_size * 3 / 2 } else { sub.max_size });
    let mut src = Src::random(case_seed(cfg, prop.id, sub.name, idx), size);
    src.verbose = std::env::var_os("VERIF_NOTES").is_some();
    let _ = guard(|| sub.run(&mut src));
    for n in &src.notes {
        println!("{n}");
    }
    0
}

pub fn replay(cfg: &Cfg, prop: &Prop, file: &str) -> i32 {
    let _ = cfg;
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let r = if let Some(p) = v["pin"].as_str() {
        let p = prop.pins.iter().find(|x| x.name == p).expect("pin");
        guard(p.f)
    } else if let Some(e) = v["enum"].as_str() {
        let e = prop.enums.iter().find(|x| x.name == e).expect("enum");
        guard(|| (e.f)(v["index"].as_u64().unwrap()))
    } else if let Some(k) = v["known"].as_str() {
        let k = prop.known.iter().find(|x| x.key == k).expect("known");
        match (k.demo)() {
            Ok(true) => Res::Bug(k.text.into()),
            _ => Res::Ok,
        }
    } else if v["crash"].as_bool() == Some(true) {
        return run_index(cfg, prop, v["sub"].as_str().unwrap(), v["index"].as_u64().unwrap());
    } else {
        let name = v["sub"].as_str().expect("sub");
        let sub = prop.subs.iter().find(|s| s.name == name).expect("sub-check");
        let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
        let (r, src) = run_tape(sub, &tape, v["size"].as_u64().unwrap() as usize, true);
        for n in &src.notes {
            println!("    {n}");
        }
        r
    };
    match r {
        Res::Bug(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={}", prop.id, file);
            1
        }
        _ => {
            println!("replayed case passes");
            0
        }
    }
}
