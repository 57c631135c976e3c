use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering as AO};
use std::time::Instant;

// ---------------------------------------------------------------- PRNG

/// splitmix64 / xorshift based generator; every random choice derives from VERIF_SEED.
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// uniform in 0..n (n >= 1)
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        if a == 0 && b == usize::MAX { return self.next() as usize; }
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- configuration

pub struct Conf {
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub only: Option<u64>,
    /// soft time limit of this process in seconds; random rounds stop at it
    pub time: f64,
    pub start: Instant,
    /// 0..: work multiplier in percent for this leg
    pub scale: u64,
}

thread_local! {
    static CONF: Conf = Conf {
        seed: env_u64("VERIF_SEED", 1),
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        shard: env_u64("MON_SHARD", 0),
        shards: env_u64("MON_SHARDS", 1).max(1),
        only: std::env::var("MON_CASE").ok().and_then(|s| s.parse().ok()),
        time: env_u64("MON_TIME", 60) as f64,
        start: Instant::now(),
        scale: env_u64("MON_SCALE", 100),
    };
    static SEQ: Cell<u64> = Cell::new(0);
    static EVALS: Cell<u64> = Cell::new(0);
    static NONTRIV: Cell<u64> = Cell::new(0);
    static TRIVIAL: Cell<bool> = Cell::new(false);
    static STOP: Cell<bool> = Cell::new(false);
    static DISTINCT: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static EVENTS: RefCell<BTreeMap<&'static str, u64>> = RefCell::new(BTreeMap::new());
    static WORK: RefCell<BTreeMap<&'static str, (u64, Option<String>)>> = RefCell::new(BTreeMap::new());
    static VIOL: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static NOTES: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static SOFT: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static FINDINGS: RefCell<BTreeMap<String, String>> = RefCell::new(BTreeMap::new());
    static PANIC_AT: RefCell<String> = RefCell::new(String::new());
    static CUR: RefCell<String> = RefCell::new(String::new());
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

pub fn seed() -> u64 { CONF.with(|c| c.seed) }
pub fn thorough() -> bool { CONF.with(|c| c.thorough) }
pub fn is_miri() -> bool { cfg!(miri) }
pub fn elapsed() -> f64 { CONF.with(|c| c.start.elapsed().as_secs_f64()) }
/// quick or thorough value
pub fn qt<T>(q: T, t: T) -> T { if thorough() { t } else { q } }
/// value under Miri, natively quick, natively thorough
pub fn mqt<T>(m: T, q: T, t: T) -> T { if is_miri() { m } else { qt(q, t) } }
pub fn stopped() -> bool { STOP.with(|s| s.get()) }

/// Random rounds: calls f(round, rng) `quick` times (scaled), or until the time limit in thorough tier.
/// The rng of a round depends on seed, shard, name and round only.
pub fn rounds<F: FnMut(u64, u64)>(name: &'static str, miri: u64, quick: u64, mut f: F) {
    let (sd, shard, scale, time) = CONF.with(|c| (c.seed, c.shard, c.scale, c.time));
    let mut h = mix(sd ^ mix(shard));
    for b in name.bytes() { h = mix(h ^ b as u64); }
    let n = if is_miri() { miri } else { (quick * scale / 100).max(1) };
    let mut r = 0;
    loop {
        if stopped() { break; }
        if thorough() && !is_miri() {
            // thorough: at least 4x quick, then as long as this workload's slice of time lasts
            if r >= n * 4 && slice_over() { break; }
        } else if thorough() {
            if r >= n * 4 || r > 0 && elapsed() > time { break; }
        } else if r >= n || r > 0 && elapsed() > time { break; }
        f(r, mix(h ^ mix(r)));
        r += 1;
    }
}

thread_local! { static SLICE: Cell<f64> = Cell::new(f64::INFINITY); }
/// Give the following random rounds (thorough tier) until `frac` of the time limit.
pub fn slice_until(frac: f64) {
    let t = CONF.with(|c| c.time);
    SLICE.with(|s| s.set(t * frac));
}
fn slice_over() -> bool {
    let t = CONF.with(|c| c.time);
    elapsed() > SLICE.with(|s| s.get()).min(t)
}

// ---------------------------------------------------------------- events, cases

pub fn event(name: &'static str) { events(name, 1) }
pub fn events(name: &'static str, n: u64) {
    EVENTS.with(|e| *e.borrow_mut().entry(name).or_insert(0) += n)
}
/// Mark the running case as trivial (nothing of interest was exercised).
pub fn trivial() { TRIVIAL.with(|t| t.set(true)) }
/// Free text for the evidence.
pub fn note(s: String) { NOTES.with(|n| n.borrow_mut().push(s)) }

/// Report a violation from a place that must not unwind (callbacks, drops).
#[cold]
pub fn soft_fail(msg: String) {
    SOFT.with(|s| { let mut s = s.borrow_mut(); if s.len() < 8 { s.push(msg) } })
}

/// A violation with a stable key: the driver reports it as a violation unless KNOWN_FINDINGS lists exactly this key.
pub fn keyed_fail(key: &str, msg: String) {
    FINDINGS.with(|f| { f.borrow_mut().entry(key.to_string()).or_insert(msg); })
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fail(format!($($t)*)) } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { $crate::fail(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)) }
    }};
}

#[cold]
pub fn fail(msg: String) -> ! { panic!("[monitor] {}", msg) }

/// Panic payload of injected faults.
#[derive(Debug)]
pub struct Injected;

pub fn crumb_set(seq: u64, wl: &str, args: &[i128]) { crumb::set(seq, wl, args) }

/// Run one case. `wl` and `args` identify it; `f` must depend on them (and the tier) only.
pub fn case<F: FnOnce()>(wl: &'static str, args: &[i128], f: F) {
    if stopped() { return; }
    let seq = SEQ.with(|s| { let v = s.get(); s.set(v + 1); v });
    let run = CONF.with(|c| match c.only {
        Some(n) => n == seq,
        None => c.shards == 1 || seq % c.shards == c.shard || wl.starts_with('~'),
    });
    if !run { return; }
    // the interpreter is slow: its workloads are sized to fit, this only guards against slow machines
    if is_miri() && elapsed() > CONF.with(|c| c.time) * 2.0 { event("cases skipped by the interpreter for time"); return; }
    crumb::set(seq, wl, args);
    CASE_NO.fetch_add(1, AO::Relaxed);
    EVALS.with(|e| e.set(e.get() + 1));
    TRIVIAL.with(|t| t.set(false));
    if is_miri() && std::env::var_os("MON_TRACE").is_some() { eprintln!("CASE {} {} {:?}", seq, wl, args); }
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    let mut bad: Vec<String> = SOFT.with(|s| s.borrow_mut().drain(..).collect());
    if let Err(p) = r {
        let msg = if let Some(s) = p.downcast_ref::<String>() { s.clone() }
            else if let Some(s) = p.downcast_ref::<&'static str>() { s.to_string() }
            else if p.is::<Injected>() { "injected panic escaped (harness)".to_string() }
            else { "panic with unknown payload".to_string() };
        let at = PANIC_AT.with(|p| p.borrow().clone());
        bad.push(format!("{} (at {})", msg, at));
    }
    if !TRIVIAL.with(|t| t.get()) {
        NONTRIV.with(|e| e.set(e.get() + 1));
        let mut h = 0u64;
        for b in wl.bytes() { h = mix(h ^ b as u64); }
        for a in args { h = mix(h ^ *a as u64 ^ mix((*a >> 64) as u64)); }
        DISTINCT.with(|d| { let mut d = d.borrow_mut(); if d.len() < 3_000_000 { d.insert(h); } });
        WORK.with(|w| {
            let mut w = w.borrow_mut();
            let e = w.entry(wl).or_insert((0, None));
            e.0 += 1;
            // keep some later case as the sample, not the (often degenerate) first
            if e.1.is_none() || e.0.is_power_of_two() { e.1 = Some(format!("{}{:?}", wl, args)); }
        });
    }
    if !bad.is_empty() {
        VIOL.with(|v| {
            let mut v = v.borrow_mut();
            for b in bad { v.push(format!("case {} {}{:?}: {}", seq, wl, args, b)); }
            if v.len() >= 5 { STOP.with(|s| s.set(true)); }
        });
    }
}

/// Run `f` on this (spawned) thread; what its monitors observed is carried back by the returned value.
pub fn observed<R, F: FnOnce() -> R>(f: F) -> (R, Observed) {
    let r = f();
    let ev = EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut()));
    let soft = SOFT.with(|s| std::mem::take(&mut *s.borrow_mut()));
    (r, Observed { ev, soft })
}
pub struct Observed { ev: BTreeMap<&'static str, u64>, soft: Vec<String> }
impl Observed {
    /// To be called on the thread that runs the case.
    pub fn merge(self) {
        for (k, n) in self.ev { events(k, n) }
        for s in self.soft { soft_fail(s) }
    }
}

/// Did anything fail so far?
pub fn violations() -> usize { VIOL.with(|v| v.borrow().len()) }

// ---------------------------------------------------------------- hang watchdog + crash breadcrumb

static CASE_NO: AtomicU64 = AtomicU64::new(0);

#[cfg(not(miri))]
mod sys {
    #[repr(C)]
    pub struct Ts { pub s: i64, pub n: i64 }
    extern "C" {
        pub fn clock_gettime(c: i32, t: *mut Ts) -> i32;
        pub fn _exit(c: i32) -> !;
        pub fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    }
    pub fn cpu() -> f64 {
        let mut t = Ts { s: 0, n: 0 };
        unsafe { clock_gettime(2, &mut t); }
        t.s as f64 + t.n as f64 * 1e-9
    }
}

/// CPU seconds a single case may burn before it counts as non-terminating
/// (cases take microseconds to milliseconds; the heaviest take well under 5 s).
#[cfg(not(miri))]
const HANG_CPU_S: f64 = 60.0;

#[cfg(not(miri))]
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, 0.0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let n = CASE_NO.load(AO::Relaxed);
            let c = sys::cpu();
            if n != last.0 { last = (n, c); continue; }
            if n > 0 && c - last.1 > HANG_CPU_S {
                eprintln!("HANG: case used more than {} s of CPU time", HANG_CPU_S);
                unsafe { sys::_exit(33) }
            }
        }
    });
}

mod crumb {
    use std::cell::Cell;
    thread_local! { static MAP: Cell<*mut u8> = Cell::new(std::ptr::null_mut()); }
    #[cfg(not(miri))]
    pub fn init() {
        use std::os::unix::io::AsRawFd;
        if let Ok(p) = std::env::var("MON_CRUMB") {
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).unwrap();
            f.set_len(4096).unwrap();
            let m = unsafe { super::sys::mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
            if m as isize != -1 { MAP.with(|c| c.set(m)); }
            std::mem::forget(f);
        }
    }
    #[cfg(miri)]
    pub fn init() {}
    #[inline]
    pub fn set(seq: u64, wl: &str, args: &[i128]) {
        let m = MAP.with(|c| c.get());
        if m.is_null() { return; }
        unsafe {
            (m as *mut u64).write(seq);
            let nb = wl.len().min(64);
            m.add(8).write(nb as u8);
            std::ptr::copy_nonoverlapping(wl.as_ptr(), m.add(16), nb);
            let na = args.len().min(24);
            m.add(9).write(na as u8);
            std::ptr::copy_nonoverlapping(args.as_ptr() as *const u8, m.add(128), na * 16);
        }
    }
}

// ---------------------------------------------------------------- main

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Run a monitor's `body` and write the report. Exit code 0: held; 10: violations listed in the report.
pub fn main<F: FnOnce()>(body: F) {
    panic::set_hook(Box::new(|i| {
        let l = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let _ = PANIC_AT.try_with(|p| if let Ok(mut p) = p.try_borrow_mut() { *p = l.clone() });
        let quiet = i.payload().is::<Injected>();
        if !quiet && std::env::var_os("MON_VERBOSE").is_some() { eprintln!("{}", i); }
    }));
    crumb::init();
    #[cfg(not(miri))]
    watchdog();
    body();
    let viol = VIOL.with(|v| v.borrow().clone());
    let mut o = String::from("{");
    o.push_str(&format!("\"evaluations\":{},\"nontrivial\":{},\"distinct\":{},\"wall\":{:.3},",
        EVALS.with(|e| e.get()), NONTRIV.with(|e| e.get()), DISTINCT.with(|d| d.borrow().len()), elapsed()));
    let ev: Vec<String> = EVENTS.with(|e| e.borrow().iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect());
    o.push_str(&format!("\"events\":{{{}}},", ev.join(",")));
    let wk: Vec<String> = WORK.with(|e| e.borrow().iter()
        .map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, js(v.1.as_deref().unwrap_or("")))).collect());
    o.push_str(&format!("\"workloads\":{{{}}},", wk.join(",")));
    let nt: Vec<String> = NOTES.with(|e| e.borrow().iter().map(|s| js(s)).collect());
    o.push_str(&format!("\"notes\":[{}],", nt.join(",")));
    let fs: Vec<String> = FINDINGS.with(|e| e.borrow().iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect());
    o.push_str(&format!("\"findings\":{{{}}},", fs.join(",")));
    let vs: Vec<String> = viol.iter().map(|s| js(s)).collect();
    o.push_str(&format!("\"violations\":[{}]}}\n", vs.join(",")));
    match std::env::var("MON_OUT") {
        Ok(p) if !is_miri() => std::fs::write(p, &o).unwrap(),
        _ => println!("MONREPORT {}", o.trim()),
    }
    for v in &viol { eprintln!("MONITOR-VIOLATION {}", v); }
    std::process::exit(if viol.is_empty() { 0 } else { 10 });
}
