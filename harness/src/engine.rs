//! Choice-tape property engine: generation, parallel fixed-work runs, shrinking, replay, guided
//! search and evidence.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub const WORKERS: usize = 8;
/// As much as the standard library gives to a thread.
pub const STACK: usize = 2 << 20;

// ---------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    h
}

// ---------------------------------------------------------------- choice tape

/// Every random decision of a case goes through `draw`; a case is a pure function of its tape.
pub struct Src {
    given: Vec<u64>,
    pub tape: Vec<u64>,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            given: vec![],
            tape: vec![],
            rng: Some(Rng::new(seed)),
        }
    }
    pub fn replay(given: Vec<u64>) -> Self {
        Src {
            given,
            tape: vec![],
            rng: None,
        }
    }
    pub fn guided(given: Vec<u64>, seed: u64) -> Self {
        Src {
            given,
            tape: vec![],
            rng: Some(Rng::new(seed)),
        }
    }
    /// 0..n; 0 is the simplest choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let i = self.tape.len();
        let v = match self.given.get(i) {
            Some(v) => *v % n,
            None => match &mut self.rng {
                Some(r) => r.below(n),
                None => 0,
            },
        };
        self.tape.push(v);
        v
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        lo + self.draw((hi - lo + 1) as u64) as i64
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi.max(lo) as i64) as usize
    }
    /// true in num of den cases; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.draw(xs.len() as u64) as usize]
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// How many repetitions: `more` flags so that elements can be deleted one by one.
    pub fn more(&mut self, done: usize, min: usize, max: usize, avg: usize) -> bool {
        if done < min {
            return true;
        }
        if done >= max {
            return false;
        }
        let span = (avg.max(min + 1) - min) as u64;
        self.draw(span + 1) != 0
    }
    pub fn byte(&mut self) -> u8 {
        self.draw(256) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// A number that likes the edges and special values of its range.
    pub fn edgy(&mut self, lo: i64, hi: i64, special: &[i64]) -> i64 {
        match self.weighted(&[6, 3, 2, 2]) {
            0 => self.range(lo, hi.min(lo + 100)),
            1 => self.range(lo, hi),
            2 => *self.pick(&[lo, hi, lo + 1, hi - 1]),
            _ => {
                if special.is_empty() {
                    self.range(lo, hi)
                } else {
                    (*self.pick(special)).clamp(lo, hi)
                }
            }
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.draw(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- case context

#[derive(Debug, Clone)]
pub struct Fail(pub String);

pub type Outcome = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::engine::Fail(format!($($t)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fail!($($t)*); } };
}

#[derive(Default)]
pub struct Ctx {
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub key: u64,
    pub sample: String,
    pub demo: Vec<u8>,
    pub calls: u64,
    pub fuel_used: u64,
    pub want_sample: bool,
}

impl Ctx {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.classes.push(c);
        }
    }
    pub fn nontrivial(&mut self, key_bytes: &[u8]) {
        self.nontrivial = true;
        self.key = mix(self.key ^ fnv(key_bytes));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = f();
        }
    }
}

extern "C" {
    fn mvdcheck_fuel_arm(limit: i64);
    fn mvdcheck_fuel_disarm() -> i64;
    fn mvdcheck_fuel_armed() -> i32;
    fn mvdcheck_cov_map(m: *mut u8);
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CURRENT: RefCell<Option<Current>> = const { RefCell::new(None) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

struct Current {
    prop: &'static str,
    what: String,
    tape: *const Vec<u64>,
    demo: Vec<u8>,
}

/// Counts the bytes the code under test holds, while a call is armed.
pub struct CountingAlloc;

unsafe impl std::alloc::GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}

fn count(delta: i64) {
    if unsafe { mvdcheck_fuel_armed() } != 0 {
        let _ = LIVE.try_with(|l| {
            let v = l.get() + delta;
            l.set(v);
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        });
    }
}

/// Work limit of one call on `len` input bytes, in executed edges. The parser is linear with a
/// small constant, except for a rescan per anonymous team kill.
fn fuel_limit(len: usize) -> i64 {
    let n = len as i64;
    200_000_000 + n.saturating_mul(3000) + n.saturating_mul(n) / 16
}

#[no_mangle]
pub extern "C" fn mvdcheck_fuel_exhausted() {
    let cur = CURRENT.with(|c| c.borrow_mut().take());
    let Some(cur) = cur else {
        eprintln!("work limit exceeded outside of a case");
        std::process::exit(2);
    };
    let tape = unsafe { (*cur.tape).clone() };
    let msg = format!(
        "{} does not return within the work limit of {} edges for {} bytes",
        cur.what,
        fuel_limit(cur.demo.len()),
        cur.demo.len()
    );
    report(cur.prop, &tape, &msg, &cur.demo);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(1) };
}

extern "C" {
    fn _exit(code: i32) -> !;
    fn signal(sig: i32, handler: extern "C" fn(i32)) -> usize;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn creat(path: *const u8, mode: u32) -> i32;
}

/// A call that overflows the stack or runs out of memory ends in abort: report the case with as
/// little stack as possible.
extern "C" fn on_abort(_: i32) {
    unsafe {
        let armed = mvdcheck_fuel_armed() != 0;
        mvdcheck_fuel_disarm();
        let cur = CURRENT.try_with(|c| {
            let c = c.try_borrow().ok()?;
            let c = c.as_ref()?;
            Some((c.prop, c.tape))
        });
        let (Ok(Some((prop, tape))), true) = (cur, armed) else {
            _exit(2);
        };
        let out = |fd: i32, s: &[u8]| {
            write(fd, s.as_ptr().cast(), s.len());
        };
        let path: &[u8; 512] = &*(&raw const ABORT_PATH);
        let n = path.iter().position(|b| *b == 0).unwrap_or(0);
        let fd = creat(path.as_ptr(), 0o644);
        out(fd, b"{\n \"property\": \"");
        out(fd, prop.as_bytes());
        out(fd, b"\",\n \"message\": \"a call aborts the process\",\n \"tape\": [");
        for (i, v) in (*tape).iter().enumerate() {
            let mut buf = [0u8; 20];
            let mut k = 20;
            let mut v = *v;
            loop {
                k -= 1;
                buf[k] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            if i > 0 {
                out(fd, b",");
            }
            out(fd, &buf[k..]);
        }
        out(fd, b"]\n}\n");
        out(1, b"a call into the parser aborts the process\nVIOLATION property=");
        out(1, prop.as_bytes());
        out(1, b" replay=");
        out(1, &path[..n]);
        out(1, b"\n");
        _exit(1);
    }
}

static mut ABORT_PATH: [u8; 512] = [0; 512];

pub fn install_abort_handler(prop: &str) {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-abort.json");
    unsafe {
        let p = &raw mut ABORT_PATH;
        (&mut *p)[..path.len()].copy_from_slice(path.as_bytes());
        signal(6, on_abort);
    }
}

pub fn set_current(prop: &'static str, src: &Src) {
    CURRENT.with(|c| {
        *c.borrow_mut() = Some(Current {
            prop,
            what: String::new(),
            tape: &src.tape,
            demo: vec![],
        })
    });
}

/// Runs one call into the code under test: a panic is a failure, and so is exceeding the work limit.
pub fn call<T>(ctx: &mut Ctx, what: &str, data: &[u8], f: impl FnOnce() -> T) -> Result<T, Fail> {
    CURRENT.with(|c| {
        if let Some(c) = c.borrow_mut().as_mut() {
            c.what.clear();
            c.what.push_str(what);
            if c.demo.as_slice() != data {
                c.demo.clear();
                c.demo.extend_from_slice(data);
            }
        }
    });
    let limit = fuel_limit(data.len());
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    unsafe { mvdcheck_fuel_arm(limit) };
    let r = catch_unwind(AssertUnwindSafe(f));
    let left = unsafe { mvdcheck_fuel_disarm() };
    ctx.calls += 1;
    ctx.fuel_used = ctx.fuel_used.max((limit - left) as u64);
    let peak = PEAK.with(|p| p.get());
    match r {
        Ok(v) => {
            let max = (256 << 20) + 512 * data.len() as i64;
            if peak > max {
                return Err(Fail(format!(
                    "{what} holds {peak} bytes of memory for {} bytes of input",
                    data.len()
                )));
            }
            Ok(v)
        }
        Err(_) => {
            let m = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".to_string());
            Err(Fail(format!("{what} panics: {m}")))
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let armed = unsafe { mvdcheck_fuel_armed() } != 0;
        // what follows is ours, not the code under test
        let left = if armed {
            unsafe { mvdcheck_fuel_disarm() }
        } else {
            0
        };
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if armed {
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
            unsafe { mvdcheck_fuel_arm(left) };
        } else {
            eprintln!("harness error: {msg} at {loc}");
            std::process::exit(2);
        }
    }));
}

// ---------------------------------------------------------------- properties and runs

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: fn(&mut Src, &mut Ctx) -> Outcome,
    pub quick: u64,
    pub thorough: u64,
    /// guided executions per worker in the thorough tier
    pub guided: u64,
    pub assumptions: &'static [&'static str],
    /// an extra, non-tape phase; returns extra evidence or a failure
    pub extra: Option<fn(&Prop, u64, bool) -> Result<BTreeMap<String, u64>, (Vec<u64>, String, Vec<u8>)>>,
}

#[derive(Default)]
struct Tally {
    evaluations: u64,
    nontrivial: u64,
    keys: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    calls: u64,
    fuel_max: u64,
    tape_sum: u64,
    demo_sum: u64,
    demo_max: u64,
    samples: Vec<(u64, String)>,
    guided_exec: u64,
    guided_corpus: u64,
    guided_edges: u64,
}

impl Tally {
    fn add(&mut self, idx: u64, src: &Src, ctx: &Ctx) {
        self.evaluations += 1;
        if ctx.nontrivial {
            self.nontrivial += 1;
            self.keys.insert(ctx.key);
        }
        for c in &ctx.classes {
            *self.classes.entry(c).or_default() += 1;
        }
        self.calls += ctx.calls;
        self.fuel_max = self.fuel_max.max(ctx.fuel_used);
        self.tape_sum += src.tape.len() as u64;
        self.demo_sum += ctx.demo.len() as u64;
        self.demo_max = self.demo_max.max(ctx.demo.len() as u64);
        if !ctx.sample.is_empty() && ctx.nontrivial {
            self.samples.push((idx, ctx.sample.clone()));
        }
    }
    fn merge(&mut self, o: Tally) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.keys.extend(o.keys);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        self.calls += o.calls;
        self.fuel_max = self.fuel_max.max(o.fuel_max);
        self.tape_sum += o.tape_sum;
        self.demo_sum += o.demo_sum;
        self.demo_max = self.demo_max.max(o.demo_max);
        self.samples.extend(o.samples);
        self.guided_exec += o.guided_exec;
        self.guided_corpus += o.guided_corpus;
        self.guided_edges = self.guided_edges.max(o.guided_edges);
    }
}

pub fn run_once(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    set_current(p.id, src);
    (p.run)(src, ctx)
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed ^ fnv(prop.as_bytes())).wrapping_add(idx))
}

const SAMPLE_EVERY: u64 = 997;

/// Returns the exit code.
pub fn run(p: &'static Prop, tier: &str, seed: u64) -> i32 {
    let start = Instant::now();
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("MVDCHECK_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let cases = ((if thorough { p.thorough } else { p.quick }) as f64 * scale) as u64;
    let next = AtomicU64::new(0);
    let worst = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Tally::default());
    let found: Mutex<Option<(u64, Vec<u64>, Fail)>> = Mutex::new(None);

    std::thread::scope(|s| {
        for _ in 0..WORKERS {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || {
                    let mut t = Tally::default();
                    loop {
                        let base = next.fetch_add(16, Ordering::Relaxed);
                        if base >= cases || base > worst.load(Ordering::Relaxed) {
                            break;
                        }
                        for idx in base..(base + 16).min(cases) {
                            let mut src = Src::random(case_seed(seed, p.id, idx));
                            let mut ctx = Ctx {
                                want_sample: idx % SAMPLE_EVERY == 3,
                                ..Ctx::default()
                            };
                            let r = run_once(p, &mut src, &mut ctx);
                            t.add(idx, &src, &ctx);
                            if let Err(f) = r {
                                worst.fetch_min(idx, Ordering::Relaxed);
                                let mut g = found.lock().unwrap();
                                if g.as_ref().is_none_or(|(i, _, _)| idx < *i) {
                                    *g = Some((idx, src.tape.clone(), f));
                                }
                                break;
                            }
                        }
                    }
                    total.lock().unwrap().merge(t);
                })
                .unwrap();
        }
    });

    let mut total = total.into_inner().unwrap();
    let mut failure: Option<(Vec<u64>, String, Vec<u8>)> = None;
    let mut extra = BTreeMap::new();

    if let Some((_, tape, _)) = found.into_inner().unwrap() {
        failure = Some(shrink(p, tape));
    }
    if failure.is_none() {
        if let Some(f) = p.extra {
            match f(p, seed, thorough) {
                Ok(e) => extra = e,
                Err(f) => failure = Some(f),
            }
        }
    }
    if failure.is_none() && thorough && p.guided > 0 {
        let execs = (p.guided as f64 * scale) as u64;
        if let Some(tape) = guided(p, seed, execs, &mut total) {
            failure = Some(shrink(p, tape));
        }
    }

    let violations = failure.is_some() as u64;
    if let Some((tape, msg, demo)) = failure {
        report(p.id, &tape, &msg, &demo);
    }
    evidence(p, tier, seed, &mut total, &extra, start.elapsed().as_secs_f64(), violations);
    violations as i32
}

// ---------------------------------------------------------------- guided search

/// Tape mutation guided by edge coverage of the code under test; deterministic per worker.
fn guided(p: &'static Prop, seed: u64, execs: u64, total: &mut Tally) -> Option<Vec<u64>> {
    const MAP: usize = 1 << 16;
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Vec<u64>)>> = Mutex::new(None);
    let all = Mutex::new(Tally::default());
    std::thread::scope(|s| {
        for w in 0..WORKERS as u64 {
            let (stop, found, all) = (&stop, &found, &all);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut rng = Rng::new(case_seed(seed, p.id, 1 << 40 | w));
                    let mut virgin = vec![0u8; MAP];
                    let mut map = vec![0u8; MAP];
                    let mut corpus: Vec<Vec<u64>> = vec![];
                    let mut t = Tally::default();
                    for i in 0..execs {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let tape = if corpus.is_empty() || rng.below(20) == 0 {
                            vec![]
                        } else {
                            let a = &corpus[corpus.len() - 1 - recent(&mut rng, corpus.len())];
                            let b = &corpus[rng.below(corpus.len() as u64) as usize];
                            mutate(&mut rng, a, b)
                        };
                        let mut src = Src::guided(tape, rng.next());
                        let mut ctx = Ctx {
                            ..Ctx::default()
                        };
                        map.fill(0);
                        unsafe { mvdcheck_cov_map(map.as_mut_ptr()) };
                        let r = run_once(p, &mut src, &mut ctx);
                        unsafe { mvdcheck_cov_map(std::ptr::null_mut()) };
                        t.add(i, &src, &ctx);
                        t.guided_exec += 1;
                        if r.is_err() {
                            stop.store(true, Ordering::Relaxed);
                            let mut g = found.lock().unwrap();
                            if g.is_none() {
                                *g = Some((i, src.tape.clone()));
                            }
                            break;
                        }
                        let mut new = false;
                        for (v, m) in virgin.iter_mut().zip(&map) {
                            if *m != 0 {
                                let bucket = match m {
                                    1 => 1u8,
                                    2 => 2,
                                    3 => 4,
                                    4..=7 => 8,
                                    8..=15 => 16,
                                    16..=31 => 32,
                                    32..=127 => 64,
                                    _ => 128,
                                };
                                if *v & bucket == 0 {
                                    *v |= bucket;
                                    new = true;
                                }
                            }
                        }
                        if new && src.tape.len() < 200_000 {
                            corpus.push(src.tape);
                        }
                    }
                    t.guided_corpus = corpus.len() as u64;
                    t.guided_edges = virgin.iter().filter(|v| **v != 0).count() as u64;
                    all.lock().unwrap().merge(t);
                })
                .unwrap();
        }
    });
    total.merge(all.into_inner().unwrap());
    found.into_inner().unwrap().map(|(_, t)| t)
}

fn recent(rng: &mut Rng, n: usize) -> usize {
    // prefer recent finds
    let a = rng.below(n as u64) as usize;
    let b = rng.below(n as u64) as usize;
    a.min(b)
}

fn mutate(rng: &mut Rng, a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut t = a.to_vec();
    for _ in 0..1 + rng.below(6) {
        if t.is_empty() {
            break;
        }
        let i = rng.below(t.len() as u64) as usize;
        let n = 1 + rng.below(24.min((t.len() - i) as u64)) as usize;
        match rng.below(9) {
            0 | 1 => t[i] = rng.next() >> rng.below(64),
            2 => t[i] = t[i].wrapping_add(1),
            3 => t[i] = t[i].wrapping_sub(1),
            4 => {
                t.drain(i..i + n);
            }
            5 => {
                let chunk: Vec<u64> = t[i..i + n].to_vec();
                t.splice(i..i, chunk);
            }
            6 if !b.is_empty() => {
                let j = rng.below(b.len() as u64) as usize;
                let m = 1 + rng.below((b.len() - j).min(64) as u64) as usize;
                t.splice(i..i + n, b[j..j + m].iter().copied());
            }
            7 => {
                for v in &mut t[i..i + n] {
                    *v = rng.next() >> rng.below(64);
                }
            }
            _ => t.truncate(i + 1),
        }
    }
    t
}

// ---------------------------------------------------------------- shrinking

fn attempt(p: &Prop, tape: Vec<u64>) -> Option<(Vec<u64>, String, Vec<u8>)> {
    let mut src = Src::replay(tape);
    let mut ctx = Ctx::default();
    match run_once(p, &mut src, &mut ctx) {
        Ok(()) => None,
        Err(f) => Some((src.tape, f.0, ctx.demo)),
    }
}

fn better(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

pub fn shrink(p: &Prop, tape: Vec<u64>) -> (Vec<u64>, String, Vec<u8>) {
    let start = Instant::now();
    let Some(mut best) = attempt(p, tape.clone()) else {
        return (
            tape,
            "the failure does not repeat: the result of the code under test varies".to_string(),
            vec![],
        );
    };
    let mut runs = 0;
    let out_of_budget = |runs: i32| runs > 20_000 || start.elapsed().as_secs() > 60;
    loop {
        let before = best.0.clone();
        // delete spans
        let mut span = best.0.len().next_power_of_two();
        while span > 0 {
            let mut i = 0;
            while i < best.0.len() {
                let mut t = best.0.clone();
                let end = (i + span).min(t.len());
                t.drain(i..end);
                runs += 1;
                match attempt(p, t) {
                    Some(b) if better(&b.0, &best.0) => best = b,
                    _ => i += span,
                }
                if out_of_budget(runs) {
                    return best;
                }
            }
            span /= 2;
        }
        // zero spans, then single values
        let mut span = 32;
        while span > 0 {
            let mut i = 0;
            while i < best.0.len() {
                let end = (i + span).min(best.0.len());
                if best.0[i..end].iter().any(|v| *v != 0) {
                    let mut t = best.0.clone();
                    t[i..end].fill(0);
                    runs += 1;
                    match attempt(p, t) {
                        Some(b) if better(&b.0, &best.0) => best = b,
                        _ => {}
                    }
                    if out_of_budget(runs) {
                        return best;
                    }
                }
                i += span;
            }
            span /= 2;
        }
        for i in 0..best.0.len() {
            let (mut lo, mut hi) = (0, best.0.get(i).copied().unwrap_or(0));
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut t = best.0.clone();
                if i >= t.len() {
                    break;
                }
                t[i] = mid;
                runs += 1;
                match attempt(p, t) {
                    Some(b) if better(&b.0, &best.0) => {
                        hi = mid;
                        best = b;
                    }
                    _ => lo = mid + 1,
                }
                if out_of_budget(runs) {
                    return best;
                }
            }
        }
        if best.0 == before {
            return best;
        }
    }
}

// ---------------------------------------------------------------- reports

pub fn verif_dir() -> String {
    std::env::var("MVDCHECK_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(prop: &str, tape: &[u64], msg: &str, demo: &[u8]) {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let name = format!("{prop}-{:08x}", fnv(msg.as_bytes()) as u32);
    let path = format!("{dir}/{name}.json");
    let mvd = format!("{dir}/{name}.mvd");
    let tape: Vec<String> = tape.iter().map(|v| v.to_string()).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"message\": {},\n \"input\": {},\n \"replay\": \"harness/target/x86_64-unknown-linux-gnu/release/mvdcheck replay {}\",\n \"tape\": [{}]\n}}\n",
        json_str(prop),
        json_str(msg),
        json_str(&mvd),
        path,
        tape.join(",")
    );
    let _ = std::fs::write(&path, text);
    let _ = std::fs::write(&mvd, demo);
    println!("{msg}");
    println!("VIOLATION property={prop} replay={path}");
}

pub fn replay(props: &'static [&'static Prop], path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| {
        let i = text.find(&format!("\"{k}\": ")).expect("field") + k.len() + 4;
        text[i..].to_string()
    };
    let id = field("property")[1..4].to_string();
    let t = field("tape");
    let tape: Vec<u64> = t[1..t.find(']').unwrap()]
        .split(',')
        .filter_map(|v| v.trim().parse().ok())
        .collect();
    let p = props.iter().find(|p| p.id == id).expect("property");
    // with the stack that the search has
    let result = std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || attempt(p, tape));
        t.expect("thread").join().expect("join")
    });
    match result {
        Some((_, msg, _)) => {
            println!("{msg}\nVIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("{id}: the replayed case passes");
            0
        }
    }
}

fn evidence(
    p: &Prop,
    tier: &str,
    seed: u64,
    t: &mut Tally,
    extra: &BTreeMap<String, u64>,
    wall: f64,
    violations: u64,
) {
    t.samples.sort();
    t.samples.dedup();
    let samples: Vec<String> = t
        .samples
        .iter()
        .take(8)
        .map(|(i, s)| {
            let short: String = s.chars().take(900).collect();
            format!("  {{\"case\": {i}, \"what\": {}}}", json_str(&short))
        })
        .collect();
    let classes: Vec<String> = t
        .classes
        .iter()
        .map(|(k, v)| format!("   {}: {v}", json_str(k)))
        .collect();
    let extras: Vec<String> = extra
        .iter()
        .map(|(k, v)| format!("  {}: {v},\n", json_str(k)))
        .collect();
    let assumptions: Vec<String> = p.assumptions.iter().map(|a| json_str(a)).collect();
    let text = format!(
        "{{\n \"property\": {id},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {ev},\n  \"distinct_nontrivial\": {dn},\n  \"nontrivial\": {nt},\n  \"rule\": {rule},\n  \"api_calls\": {calls},\n  \"max_work_edges_of_one_call\": {fuel},\n  \"mean_choices_per_case\": {tape},\n  \"mean_input_bytes\": {demo},\n  \"max_input_bytes\": {demomax},\n{extra}  \"guided_executions\": {ge},\n  \"guided_corpus\": {gc},\n  \"guided_edges\": {gd},\n  \"classes\": {{\n{classes}\n  }},\n  \"samples\": [\n{samples}\n  ]\n }},\n \"assumptions\": [{ass}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        id = json_str(p.id),
        tier = json_str(tier),
        ev = t.evaluations,
        dn = t.keys.len(),
        nt = t.nontrivial,
        rule = json_str(p.rule),
        calls = t.calls,
        fuel = t.fuel_max,
        tape = t.tape_sum / t.evaluations.max(1),
        demo = t.demo_sum / t.evaluations.max(1),
        demomax = t.demo_max,
        extra = extras.concat(),
        ge = t.guided_exec,
        gc = t.guided_corpus,
        gd = t.guided_edges,
        classes = classes.join(",\n"),
        samples = samples.join(",\n"),
        ass = assumptions.join(", "),
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", p.id), text).expect("write evidence");
    println!(
        "{} {tier} seed={seed}: {} cases, {} distinct non-trivial, {} calls, {:.1} s, {}",
        p.id,
        t.evaluations,
        t.keys.len(),
        t.calls,
        wall,
        if violations == 0 { "ok" } else { "VIOLATED" }
    );
}
