//! Choice-driven case generation: a case is a function of a sequence of choices.  The same case
//! function is run (a) on every choice sequence in order (bounded-exhaustive, up to a budget),
//! (b) on random sequences, (c) on one recorded sequence (replay), (d) on shrunk sequences.
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub struct Choices {
    prefix: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<(u32, u32)>,
    pub notes: Vec<String>,
    pub noting: bool,
    /// small = bounded-exhaustive run: generators should keep sizes tiny
    pub small: bool,
    seed: Option<u64>,
}
impl Choices {
    fn new(prefix: Vec<u32>, rng: Option<Rng>, small: bool, noting: bool) -> Choices {
        Choices { prefix, pos: 0, rng, rec: vec![], notes: vec![], noting, small, seed: None }
    }
    /// a value in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1);
        let v = if self.pos < self.prefix.len() {
            (self.prefix[self.pos] as usize).min(n - 1)
        } else if let Some(r) = &mut self.rng {
            (r.next() % n as u64) as usize
        } else {
            0
        };
        self.pos += 1;
        self.rec.push((v as u32, n as u32));
        v
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.noting {
            let s = f();
            self.notes.push(s);
        }
    }
    /// interval a <= b within 0..=n
    pub fn iv(&mut self, n: usize) -> (usize, usize) {
        let a = self.below(n + 1);
        let b = self.below(n + 1);
        (a.min(b), a.max(b))
    }
}

pub type Case = fn(&mut Choices) -> Result<bool, String>;

pub struct Gen {
    pub name: &'static str,
    pub case: Case,
    /// number of choice sequences to enumerate in order, quick / thorough
    pub exhaustive: (usize, usize),
    /// number of random sequences, quick / thorough
    pub random: (usize, usize),
}

thread_local! { static PANIC: RefCell<Option<String>> = RefCell::new(None); }

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", l, m)));
    }));
}
/// run `f`; a panic becomes Err
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// what each thread is running, for the watchdog: a case that does not end or eats all memory is a failure of that case
struct Slot {
    me: usize,
    since: Instant,
    gen: &'static str,
    small: bool,
    choices: Vec<u32>,
    seed: Option<u64>,
}
static SLOTS: Mutex<Vec<(std::thread::ThreadId, Slot)>> = Mutex::new(vec![]);
pub const CASE_LIMIT: Duration = Duration::from_secs(40);
pub static HEAP: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub const HEAP_LIMIT: usize = 10 << 30;
pub struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        HEAP.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        HEAP.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        HEAP.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        HEAP.fetch_sub(l.size(), std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        HEAP.fetch_add(l.size(), std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc_zeroed(l)
    }
}
/// a crash (bad memory access, stack overflow, abort) is a failure of the case that ran on that thread:
/// the handler parks the thread and leaves the report to the watchdog
static CRASHED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static NEXT_ID: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
thread_local! { static MY_ID: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn pause() -> i32;
}
extern "C" fn on_crash(_: i32) {
    let _ = CRASHED.compare_exchange(0, MY_ID.with(|i| i.get()), std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst);
    loop {
        unsafe { pause() };
    }
}
fn catch_crashes() {
    for sig in [4, 6, 7, 8, 11] {
        let a = SigAction { handler: on_crash as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
        unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
    }
}
fn enter(g: &Gen, c: &Choices) {
    let me = MY_ID.with(|i| {
        if i.get() == 0 {
            i.set(NEXT_ID.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
        }
        i.get()
    });
    let id = std::thread::current().id();
    let s = Slot { me, since: Instant::now(), gen: g.name, small: c.small, choices: c.prefix.clone(), seed: c.seed };
    let mut v = SLOTS.lock().unwrap();
    match v.iter_mut().find(|x| x.0 == id) {
        Some(x) => x.1 = s,
        None => v.push((id, s)),
    }
}
fn leave() {
    let id = std::thread::current().id();
    SLOTS.lock().unwrap().retain(|x| x.0 != id);
}
/// starts the watchdog; `report` gets the failure and does not return
pub fn watchdog<F: Fn(Failure) + Send + 'static>(report: F) {
    catch_crashes();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(50));
        let crashed = CRASHED.load(std::sync::atomic::Ordering::SeqCst);
        if crashed != 0 {
            if let Ok(v) = SLOTS.try_lock() {
                if let Some((_, s)) = v.iter().find(|x| x.1.me == crashed) {
                    report(Failure {
                        gen: s.gen.into(), small: s.small, choices: s.choices.clone(), seed: s.seed, notes: vec![],
                        message: "the case crashes the process (bad memory access, stack overflow or abort)".into(),
                    });
                }
            }
        }
        let heap = HEAP.load(std::sync::atomic::Ordering::Relaxed) > HEAP_LIMIT;
        let v = SLOTS.lock().unwrap();
        if let Some((_, s)) = v.iter().min_by_key(|x| x.1.since) {
            let long = s.since.elapsed() > CASE_LIMIT;
            if long || (heap && s.since.elapsed() > Duration::from_secs(1)) {
                report(Failure {
                    gen: s.gen.into(), small: s.small, choices: s.choices.clone(), seed: s.seed, notes: vec![],
                    message: if long { format!("the case does not end within {:?}", CASE_LIMIT) } else { "the case uses more than 10 GB of memory".into() },
                });
            }
        }
    });
}
fn run_case(g: &Gen, c: &mut Choices) -> Result<bool, String> {
    enter(g, c);
    let r = run_case_(g, c);
    leave();
    r
}
fn run_case_(g: &Gen, c: &mut Choices) -> Result<bool, String> {
    match catch_unwind(AssertUnwindSafe(|| (g.case)(c))) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub gen: String,
    pub small: bool,
    pub choices: Vec<u32>,
    pub seed: Option<u64>,
    pub notes: Vec<String>,
    pub message: String,
}

fn hash(r: &[(u32, u32)]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for (a, _) in r {
        h ^= *a as u64 + 1;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

fn shrink(g: &Gen, small: bool, start: Vec<u32>, until: Instant) -> Failure {
    let mut best = start;
    let try_it = |v: &Vec<u32>| -> Option<(Vec<u32>, String, Vec<String>)> {
        let mut c = Choices::new(v.clone(), None, small, true);
        match run_case(g, &mut c) {
            Err(m) => Some((c.rec.iter().map(|x| x.0).collect(), m, c.notes)),
            Ok(_) => None,
        }
    };
    let mut progress = true;
    while progress && Instant::now() < until {
        progress = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && Instant::now() < until {
                let mut v = best.clone();
                let e = (i + size).min(v.len());
                v.drain(i..e);
                match try_it(&v) {
                    Some((r, _, _)) if r.len() < best.len() => {
                        best = r;
                        progress = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() && Instant::now() < until {
            let cur = best[i];
            for nv in [0, cur / 2, cur.saturating_sub(1)] {
                if nv < cur {
                    let mut v = best.clone();
                    v[i] = nv;
                    if let Some((r, _, _)) = try_it(&v) {
                        if r.len() <= best.len() {
                            best = r;
                            progress = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    let (r, m, n) = try_it(&best).unwrap_or((best.clone(), "not reproducible".into(), vec![]));
    Failure { gen: g.name.into(), small, choices: r, seed: None, notes: n, message: m }
}

pub fn replay(g: &Gen, small: bool, choices: Vec<u32>, seed: Option<u64>) -> (Result<bool, String>, Vec<String>) {
    let mut c = Choices::new(choices, seed.map(Rng::new), small, true);
    let r = run_case(g, &mut c);
    (r, c.notes)
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: usize,
    pub nontrivial: usize,
    pub distinct: usize,
    pub exhausted: Vec<(String, usize, bool)>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
}

pub fn run(gens: &[Gen], seed: u64, thorough: bool, scale: f64, deadline: Instant) -> Stats {
    let st = Arc::new(Mutex::new(Stats::default()));
    for g in gens {
        let failed = std::sync::atomic::AtomicBool::new(false);
        // (a) bounded-exhaustive: the space is split on its first choices over the threads by index
        let nx = ((if thorough { g.exhaustive.1 } else { g.exhaustive.0 }) as f64 * scale) as usize;
        let mut n = 0;
        let mut nt = 0;
        let mut complete = false;
        let mut prefix: Vec<u32> = vec![];
        let t0 = Instant::now();
        while n < nx && Instant::now() < deadline {
            let mut c = Choices::new(prefix.clone(), None, true, false);
            let r = run_case(g, &mut c);
            n += 1;
            match r {
                Err(_) => {
                    let rec: Vec<u32> = c.rec.iter().map(|x| x.0).collect();
                    let f = shrink(g, true, rec, Instant::now() + Duration::from_secs(10));
                    st.lock().unwrap().failures.push(f);
                    failed.store(true, std::sync::atomic::Ordering::SeqCst);
                    break;
                }
                Ok(b) => nt += b as usize,
            }
            let mut rec = c.rec;
            while let Some((v, m)) = rec.pop() {
                if v + 1 < m {
                    rec.push((v + 1, m));
                    break;
                }
            }
            if rec.is_empty() {
                complete = true;
                break;
            }
            prefix = rec.iter().map(|x| x.0).collect();
        }
        {
            let mut s = st.lock().unwrap();
            s.evaluations += n;
            s.nontrivial += nt;
            s.distinct += nt;
            if nx > 0 {
                s.exhausted.push((g.name.into(), n, complete));
            }
        }
        let _ = t0;
        if failed.load(std::sync::atomic::Ordering::SeqCst) {
            continue;
        }
        // (b) random
        let nr = ((if thorough { g.random.1 } else { g.random.0 }) as f64 * scale) as usize;
        let nth = 8usize;
        std::thread::scope(|sc| {
            for th in 0..nth {
                let st = st.clone();
                let failed = &failed;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut seen = HashSet::new();
                        let (mut ev, mut nt, mut di) = (0, 0, 0);
                        let mut samples = vec![];
                        let mut i = th;
                        while i < nr && Instant::now() < deadline && !failed.load(std::sync::atomic::Ordering::Relaxed) {
                            let mut hs = seed.wrapping_mul(0x2545F4914F6CDD1D).wrapping_add(i as u64);
                            for b in g.name.bytes() {
                                hs = hs.wrapping_mul(31).wrapping_add(b as u64);
                            }
                            let noting = th == 0 && samples.len() < 1;
                            let mut c = Choices::new(vec![], Some(Rng::new(hs)), false, noting);
                            c.seed = Some(hs);
                            let r = run_case(g, &mut c);
                            ev += 1;
                            match r {
                                Err(_) => {
                                    if !failed.swap(true, std::sync::atomic::Ordering::SeqCst) {
                                        let rec: Vec<u32> = c.rec.iter().map(|x| x.0).collect();
                                        let f = shrink(g, false, rec, Instant::now() + Duration::from_secs(15));
                                        st.lock().unwrap().failures.push(f);
                                    }
                                    break;
                                }
                                Ok(b) => {
                                    nt += b as usize;
                                    if b && seen.insert(hash(&c.rec)) {
                                        di += 1;
                                    }
                                    if noting && b {
                                        samples.push(format!("{}: {}", g.name, c.notes.join("; ")));
                                    }
                                }
                            }
                            i += nth;
                        }
                        let mut s = st.lock().unwrap();
                        s.evaluations += ev;
                        s.nontrivial += nt;
                        s.distinct += di;
                        s.samples.extend(samples.into_iter().map(|mut x| {
                            if x.len() > 1500 {
                                let mut k = 1500;
                                while !x.is_char_boundary(k) {
                                    k -= 1;
                                }
                                x.truncate(k);
                            }
                            x
                        }));
                    })
                    .unwrap();
            }
        });
    }
    Arc::try_unwrap(st).ok().unwrap().into_inner().unwrap()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($x:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($x)*), a, b)); }
    }};
}
