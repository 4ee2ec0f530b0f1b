//! Small property-based testing engine.
//!
//! Every random choice of a case is drawn from a `Src`, which records the
//! sequence of draws.  A failing case is shrunk by editing that sequence
//! (deleting blocks, zeroing, lowering values) and re-running the property, and
//! the replay file is the shrunk sequence: it needs no random generator.
//! A run is a pure function of the code under test, VERIF_SEED and VERIF_TIER.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

use serde_json::{json, Value};

// ---------------------------------------------------------------- PRNG

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut s = h;
    splitmix(&mut s)
}

/// Source of choices: random at first, replayed while shrinking.
pub struct Src {
    draws: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { draws: Vec::new(), pos: 0, rng: Some(seed) }
    }
    pub fn replay(draws: Vec<u64>) -> Self {
        Src { draws, pos: 0, rng: None }
    }
    fn raw(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(s) => {
                let v = splitmix(s);
                self.draws.push(v);
                v
            }
            None => self.draws.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        v
    }
    /// Uniform in 0..=max (recorded as the reduced value, so it shrinks well).
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = self.raw();
        let r = if max == u64::MAX { v } else { v % (max + 1) };
        if self.rng.is_some() {
            *self.draws.last_mut().unwrap() = r;
        }
        r
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi);
        lo + self.upto(hi - lo)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; the shrunk value is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.upto(den - 1);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }
    pub fn u64(&mut self) -> u64 {
        self.upto(u64::MAX)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.upto(items.len() as u64 - 1) as usize;
        &items[i]
    }
    /// Weighted index.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.upto(total - 1);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// Integer biased to boundaries of bit-widths.
    pub fn edgy_u64(&mut self) -> u64 {
        match self.upto(5) {
            0 => self.upto(3),
            1 => u64::MAX - self.upto(3),
            2 => {
                let k = self.upto(63);
                let d = self.upto(2);
                (1u64 << k).wrapping_add(d).wrapping_sub(1)
            }
            3 => self.upto(0xffff),
            4 => self.upto(0xffff_ffff),
            _ => self.u64(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n);
        while out.len() < n {
            let v = self.u64().to_le_bytes();
            let k = (n - out.len()).min(8);
            out.extend_from_slice(&v[..k]);
        }
        out
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        self.bytes(32).try_into().unwrap()
    }
}

// ---------------------------------------------------------------- results of a case

#[derive(Debug, Clone)]
pub struct Fail {
    /// Short stable kind of failure, also the signature known findings are keyed on.
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return $crate::fail($sig, format!($($arg)*)); }
    };
}

/// What a case reports about itself.
#[derive(Default)]
pub struct Ctx {
    evals: u64,
    nontrivial: Vec<u64>,
    labels: Vec<String>,
    sample: Option<String>,
    known: Vec<(String, String)>,
}

impl Ctx {
    /// Count n executions of the code under test inside this case (default 1 per case).
    pub fn evals(&mut self, n: u64) {
        self.evals += n;
    }
    /// This case exercised something non-trivial, identified by `key`.
    pub fn nontrivial(&mut self, key: &[u8]) {
        self.nontrivial.push(hash64(key));
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.sample.is_none() {
            self.sample = Some(s.into());
        }
    }
    /// A failure which does not end the case if it is a listed known finding.
    pub fn report(&mut self, r: Res) -> Res {
        match r {
            Err(f) if KNOWN.lock().unwrap().iter().any(|k| k.sig == f.sig && k.property == *PROP.lock().unwrap()) => {
                self.known.push((f.sig, f.msg));
                Ok(())
            }
            other => other,
        }
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Run the code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

// ---------------------------------------------------------------- aborts

#[derive(Clone)]
struct Current {
    group: String,
    index: u64,
    rng: Option<u64>,
}

thread_local! {
    static CURRENT: RefCell<Option<Current>> = const { RefCell::new(None) };
}

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
}

/// The code under test ended the process (refused allocation, stack overflow, abort):
/// name the case that did it.
extern "C" fn on_abort(_: i32) {
    let cur = CURRENT.with(|c| c.try_borrow().ok().and_then(|c| c.clone()));
    if let Some(cur) = cur {
        report_and_exit(cur, "abort", "the process was aborted (allocation beyond the limit, stack overflow or abort)")
    }
    unsafe { _exit(134) }
}

fn report_and_exit(cur: Current, sig: &str, what: &str) -> ! {
    {
        let prop = PROP.try_lock().map(|p| p.clone()).unwrap_or_default();
        let body = json!({"property": prop, "group": cur.group, "case": cur.index, "signature": sig,
            "failure": what,
            "rng": cur.rng, "draws": if cur.rng.is_none() { vec![cur.index] } else { vec![] },
            "replay_with": format!("bash check.sh {prop} --replay <this file>")});
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{sig}-{}.json", prop, cur.group.replace(|c: char| !c.is_alphanumeric(), "_"), cur.index));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap_or_default());
        println!("[{prop}] group {} case {}: {sig}: {what}", cur.group, cur.index);
        println!("VIOLATION property={prop} replay={}", path.display());
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { _exit(1) }
    }
}

// ---------------------------------------------------------------- hangs

/// One case may use this much processor time (its own thread's, so a slow or busy machine
/// does not count); the slowest ones use a few per cent of it (`max_case_cpu_s` of the evidence).
const CPU_LIMIT: [f64; 2] = [150.0, 3000.0];

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}

fn cpu(clock: i32) -> Option<f64> {
    let mut t = Timespec { sec: 0, nsec: 0 };
    let ok = unsafe { clock_gettime(clock, &mut t) } == 0;
    ok.then_some(t.sec as f64 + t.nsec as f64 * 1e-9)
}

/// Running cases: clock of the thread, its time when the case began, the case.
static RUNNING: Mutex<BTreeMap<usize, (i32, f64, Current)>> = Mutex::new(BTreeMap::new());
static MAX_CPU: Mutex<f64> = Mutex::new(0.0);

/// Enter a case on this thread; `None` leaves it.
fn enter(cur: Option<Current>) {
    CURRENT.with(|c| *c.borrow_mut() = cur.clone());
    let me = unsafe { pthread_self() };
    let mut running = RUNNING.lock().unwrap();
    if let Some((clock, begun, _)) = running.remove(&me) {
        let used = cpu(clock).unwrap_or(begun) - begun;
        let mut max = MAX_CPU.lock().unwrap();
        *max = max.max(used);
    }
    let mut clock = 0;
    if let (Some(cur), 0) = (cur, unsafe { pthread_getcpuclockid(me, &mut clock) }) {
        if let Some(now) = cpu(clock) {
            running.insert(me, (clock, now, cur));
        }
    }
}

fn watch_for_hangs(limit: f64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let running = RUNNING.lock().unwrap();
        for (clock, begun, cur) in running.values() {
            if cpu(*clock).is_some_and(|now| now - begun > limit) {
                report_and_exit(cur.clone(), "hang", "the code under test does not come to an end on this case");
            }
        }
    });
}

fn install_abort_handler() {
    const SIGABRT: i32 = 6;
    unsafe {
        signal(SIGABRT, on_abort as *const () as usize);
    }
}

/// Counting allocator: install with #[global_allocator] in a check that bounds memory.
pub mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;

    thread_local! {
        static LIVE: Cell<isize> = const { Cell::new(0) };
        static PEAK: Cell<isize> = const { Cell::new(0) };
        static BASE: Cell<isize> = const { Cell::new(isize::MIN) };
    }

    /// A thread inside `measure` may hold at most this much; more is refused (the
    /// process aborts and the case is reported).
    pub const CAP: isize = 2 << 30;

    pub struct Counting;

    fn add(n: isize) -> bool {
        LIVE.try_with(|l| {
            let v = l.get() + n;
            let measuring = BASE.try_with(|b| b.get()).unwrap_or(isize::MIN);
            if n > 0 && measuring != isize::MIN && v - measuring > CAP {
                return false;
            }
            l.set(v);
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            true
        })
        .unwrap_or(true)
    }

    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if !add(l.size() as isize) {
                return std::ptr::null_mut();
            }
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            add(-(l.size() as isize));
            System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if !add(l.size() as isize) {
                return std::ptr::null_mut();
            }
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if !add(n as isize - l.size() as isize) {
                return std::ptr::null_mut();
            }
            System.realloc(p, l, n)
        }
    }

    /// Result of `f` and the most memory it held at any time, in bytes.
    pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64) {
        let base = LIVE.with(|l| l.get());
        let outer = (BASE.with(|b| b.get()), PEAK.with(|p| p.get()));
        PEAK.with(|p| p.set(base));
        BASE.with(|b| b.set(base));
        let r = f();
        BASE.with(|b| b.set(outer.0));
        let peak = PEAK.with(|p| p.get());
        PEAK.with(|p| p.set(outer.1.max(peak)));
        (r, (peak - base).max(0) as u64)
    }
}

// ---------------------------------------------------------------- known findings

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}

static KNOWN: Mutex<Vec<Known>> = Mutex::new(Vec::new());
static PROP: Mutex<String> = Mutex::new(String::new());

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn load_known(property: &str) -> Vec<Known> {
    let txt = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    txt.lines()
        .filter_map(|l| {
            let rest = l.strip_prefix("known: ")?;
            let mut it = rest.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?;
            let sig = it.next()?.strip_prefix("sig=")?;
            let what = it.next().unwrap_or("");
            (p == property).then(|| Known {
                property: p.into(),
                sig: sig.into(),
                what: what.into(),
            })
        })
        .collect()
}

// ---------------------------------------------------------------- the check

pub struct Check {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    rule: String,
    start: Instant,
    evals: u64,
    cases: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    groups: Vec<Value>,
    known_seen: BTreeMap<String, (u64, String)>,
    violation: Option<Violation>,
    replay: Option<(String, Replay)>,
    only: Option<String>,
    assumptions: Vec<String>,
}

#[derive(Clone)]
enum Replay {
    Draws(Vec<u64>),
    Rng(u64),
}

struct Violation {
    path: String,
}

type Prop<'a> = dyn Fn(&mut Src, &mut Ctx) -> Res + Sync + 'a;

struct CaseOut {
    res: Res,
    ctx: Ctx,
    draws: Vec<u64>,
}

fn run_case(prop: &Prop, mut src: Src) -> CaseOut {
    let mut ctx = Ctx::default();
    // memory is bounded in the checks that install the counting allocator
    let r = alloc::measure(|| catch_unwind(AssertUnwindSafe(|| prop(&mut src, &mut ctx)))).0;
    let res = match r {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            fail("panic", format!("panic: {m}"))
        }
    };
    if ctx.evals == 0 {
        ctx.evals = 1;
    }
    let res = ctx.report(res);
    CaseOut { res, ctx, draws: src.draws }
}

impl Check {
    pub fn new(property: &str, rule: &str) -> Self {
        install_panic_hook();
        install_abort_handler();
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        watch_for_hangs(CPU_LIMIT[thorough as usize]);
        *KNOWN.lock().unwrap() = load_known(property);
        *PROP.lock().unwrap() = property.to_string();
        let args: Vec<String> = std::env::args().collect();
        let mut replay = None;
        let mut only = None;
        let mut i = 1;
        while i < args.len() {
            if args[i] == "--replay" {
                let txt = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let v: Value = serde_json::from_str(&txt).expect("replay json");
                let g = v["group"].as_str().unwrap().to_string();
                let d = v["draws"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
                replay = Some((g, v["rng"].as_u64().map_or(Replay::Draws(d), Replay::Rng)));
                i += 1;
            } else if args[i] == "--only" {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            i += 1;
        }
        Check {
            property: property.into(),
            seed,
            thorough,
            rule: rule.into(),
            start: Instant::now(),
            evals: 0,
            cases: 0,
            nontrivial: HashSet::new(),
            labels: BTreeMap::new(),
            samples: Vec::new(),
            groups: Vec::new(),
            known_seen: BTreeMap::new(),
            violation: None,
            replay,
            only,
            assumptions: Vec::new(),
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    /// Number of cases for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Run `cases` generated cases of `prop`.
    pub fn run(&mut self, group: &str, cases: u64, prop: impl Fn(&mut Src, &mut Ctx) -> Res + Sync) {
        self.run_inner(group, cases, false, &prop);
    }

    fn run_inner(&mut self, group: &str, cases: u64, indexed: bool, prop: &Prop) {
        if let Some((g, d)) = &self.replay {
            if g == group {
                let d = d.clone();
                enter(Some(Current { group: group.into(), index: 0, rng: None }));
                let out = run_case(prop, match d {
                    Replay::Draws(d) => Src::replay(d),
                    Replay::Rng(s) => Src::random(s),
                });
                match out.res {
                    Ok(()) => println!("replay: property holds on this input"),
                    Err(f) => {
                        println!("replay: {}: {}", f.sig, f.msg);
                        self.violation = Some(Violation { path: std::env::args().nth(2).unwrap_or_default() });
                    }
                }
            }
            return;
        }
        if self.only.as_deref().is_some_and(|o| !group.starts_with(o)) {
            return;
        }
        if self.violation.is_some() {
            return; // one violation decides the check
        }
        let t0 = Instant::now();
        let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
        let next = AtomicU64::new(0);
        let first_bad = AtomicU64::new(u64::MAX);
        let outs: Mutex<BTreeMap<u64, (Option<Fail>, Ctx, Vec<u64>)>> = Mutex::new(BTreeMap::new());
        let gseed = hash64(format!("{}/{}/{}", self.property, group, self.seed).as_bytes());
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases || i > first_bad.load(Ordering::SeqCst) {
                            break;
                        }
                        let mut s = gseed ^ i.wrapping_mul(0xA24B_AED4_963E_E407);
                        let seed = splitmix(&mut s);
                        let src = if indexed { Src::replay(vec![i]) } else { Src::random(seed) };
                        enter(Some(Current { group: group.into(), index: i, rng: (!indexed).then_some(seed) }));
                        let out = run_case(prop, src);
                        enter(None);
                        let bad = out.res.is_err();
                        if bad {
                            first_bad.fetch_min(i, Ordering::SeqCst);
                        }
                        let draws = if bad { out.draws } else { Vec::new() };
                        outs.lock().unwrap().insert(i, (out.res.err(), out.ctx, draws));
                    })
                    .expect("spawn");
            }
        });
        let outs = outs.into_inner().unwrap();
        let bad_at = first_bad.load(Ordering::SeqCst);
        let mut gn = 0u64;
        let before = self.nontrivial.len();
        let mut gsamples = 0;
        let mut failure = None;
        for (i, (f, ctx, draws)) in outs {
            if i > bad_at {
                continue;
            }
            gn += 1;
            self.evals += ctx.evals;
            self.cases += 1;
            for k in ctx.nontrivial {
                self.nontrivial.insert(k ^ hash64(group.as_bytes()));
            }
            for l in ctx.labels {
                *self.labels.entry(format!("{group}: {l}")).or_insert(0) += 1;
            }
            for (sig, msg) in ctx.known {
                let e = self.known_seen.entry(sig).or_insert((0, msg));
                e.0 += 1;
            }
            if let Some(s) = ctx.sample {
                if gsamples < 3 {
                    let s: String = s.chars().take(600).collect();
                    self.samples.push(json!({"group": group, "case": i, "input": s}));
                    gsamples += 1;
                }
            }
            if let Some(f) = f {
                failure = Some((i, f, draws));
            }
        }
        self.groups.push(json!({"group": group, "cases": gn, "new_distinct_nontrivial": self.nontrivial.len() - before,
            "seconds": (t0.elapsed().as_secs_f64()*100.0).round()/100.0}));
        if let Some((i, f, draws)) = failure {
            // an abort while shrinking is reported with the unshrunk case
            let mut st = gseed ^ i.wrapping_mul(0xA24B_AED4_963E_E407);
            let seed = splitmix(&mut st);
            enter(Some(Current { group: group.into(), index: i, rng: (!indexed).then_some(seed) }));
            let (draws, f, tried) = if indexed { (draws, f, 0) } else { shrink(prop, draws, f) };
            enter(None);
            let body = json!({"property": self.property, "group": group, "case": i, "seed": self.seed,
                "signature": f.sig, "failure": f.msg, "shrink_attempts": tried, "draws": draws,
                "replay_with": format!("bash check.sh {} --replay <this file>", self.property)});
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{}-{:016x}.json", self.property, group.replace(|c: char| !c.is_alphanumeric(), "_"), hash64(body.to_string().as_bytes())));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            println!("[{}] group {group} case {i}: {}: {}", self.property, f.sig, f.msg);
            self.violation = Some(Violation { path: path.display().to_string() });
        }
    }

    /// Exhaustive or fixed list of items, same reporting as `run`.
    pub fn each<T: Sync>(&mut self, group: &str, items: &[T], prop: impl Fn(&T, &mut Ctx) -> Res + Sync) {
        let n = items.len() as u64;
        if n == 0 {
            return;
        }
        self.run_indexed(group, n, |i, ctx| prop(&items[i as usize], ctx));
    }

    /// Run prop(0), prop(1), ..., prop(n-1): the single draw of a case is its index.
    pub fn run_indexed(&mut self, group: &str, n: u64, prop: impl Fn(u64, &mut Ctx) -> Res + Sync) {
        self.run_inner(group, n, true, &|src: &mut Src, ctx: &mut Ctx| prop(src.upto(n - 1), ctx));
    }

    pub fn finish(mut self) -> ! {
        if self.replay.is_some() {
            if let Some(v) = self.violation {
                println!("VIOLATION property={} replay={}", self.property, v.path);
                std::process::exit(1);
            }
            std::process::exit(0);
        }
        let wall = self.start.elapsed().as_secs_f64();
        for k in KNOWN.lock().unwrap().iter() {
            match self.known_seen.get(&k.sig) {
                Some((n, _)) => println!("KNOWN-FINDING: property={} {} [{} cases]", self.property, k.what, n),
                None => println!("note: listed finding {} was not observed in this run", k.sig),
            }
        }
        let nviol = if self.violation.is_some() { 1 } else { 0 };
        let samples = std::mem::take(&mut self.samples);
        let ev = json!({
            "property": self.property,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evals,
                "cases_generated": self.cases,
                "distinct_nontrivial": self.nontrivial.len(),
                "rule": self.rule,
                "samples": samples,
                "classes": self.labels,
                "groups": self.groups,
                "known_findings_observed": self.known_seen.iter().map(|(k,(n,m))| json!({"sig":k,"cases":n,"first":m})).collect::<Vec<_>>(),
            },
            "assumptions": self.assumptions,
            "max_case_cpu_s": (*MAX_CPU.lock().unwrap() * 100.0).round() / 100.0,
            "wall_s": (wall*100.0).round()/100.0,
            "violations": nviol,
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.property)), serde_json::to_string_pretty(&ev).unwrap())
            .expect("evidence");
        println!(
            "[{}] cases {} evaluations {} distinct non-trivial {} wall {:.1}s",
            self.property, self.cases, self.evals, self.nontrivial.len(), wall
        );
        if let Some(v) = self.violation {
            println!("VIOLATION property={} replay={}", self.property, v.path);
            std::process::exit(1);
        }
        std::process::exit(0);
    }
}

/// Shrink a failing draw sequence; a fixed number of attempts, and a failure
/// with the same signature must remain.
fn shrink(prop: &Prop, mut best: Vec<u64>, mut bf: Fail) -> (Vec<u64>, Fail, u32) {
    let max_attempts = 300u32;
    let mut tried = 0u32;
    let t0 = Instant::now();
    // Time only bounds how small the reproduction gets, never the verdict.
    let done = |tried: u32| tried >= max_attempts || t0.elapsed().as_secs() > 40;
    let attempt = |cand: &[u64], tried: &mut u32, bf: &Fail| -> Option<Fail> {
        *tried += 1;
        let out = run_case(prop, Src::replay(cand.to_vec()));
        match out.res {
            Err(f) if f.sig == bf.sig => Some(f),
            _ => None,
        }
    };
    // The recorded sequence itself must reproduce.
    if attempt(&best, &mut tried, &bf).is_none() {
        return (best, bf, tried);
    }
    loop {
        let mut progress = false;
        // drop the tail
        let mut k = best.len();
        while k > 1 && !done(tried) {
            k /= 2;
            let cand = best[..best.len() - k.min(best.len())].to_vec();
            if cand.len() < best.len() {
                if let Some(f) = attempt(&cand, &mut tried, &bf) {
                    best = cand;
                    bf = f;
                    progress = true;
                    k = best.len();
                }
            }
        }
        // delete blocks, then zero blocks
        for mode in 0..2 {
            let mut size = (best.len() / 2).max(1);
            while size >= 1 && !done(tried) {
                let mut at = 0;
                while at < best.len() && !done(tried) {
                    let end = (at + size).min(best.len());
                    let mut cand = best.clone();
                    if mode == 0 {
                        cand.drain(at..end);
                    } else {
                        if best[at..end].iter().all(|v| *v == 0) {
                            at = end;
                            continue;
                        }
                        for v in &mut cand[at..end] {
                            *v = 0;
                        }
                    }
                    if let Some(f) = attempt(&cand, &mut tried, &bf) {
                        best = cand;
                        bf = f;
                        progress = true;
                        if mode == 1 {
                            at = end;
                        }
                    } else {
                        at = end;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        }
        // halve values
        for i in 0..best.len() {
            if done(tried) {
                break;
            }
            if best[i] > 1 {
                let mut cand = best.clone();
                cand[i] /= 2;
                if let Some(f) = attempt(&cand, &mut tried, &bf) {
                    best = cand;
                    bf = f;
                    progress = true;
                }
            }
        }
        if !progress || done(tried) {
            break;
        }
    }
    (best, bf, tried)
}
