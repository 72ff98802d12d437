//! Runs the crate on concrete inputs and compares it with naive reference implementations.
//!
//! usage: BIN PROPERTY SECONDS SEED          search for a failing case
//!        BIN --one PROPERTY SUB K SEED      run one case again
//!
//! A case is determined by (sub, k, seed). The first failing case is printed as
//! `FAIL sub=.. k=.. seed=.. :: what failed`, exit code 1. Exit code 0 with `OK cases=N` otherwise.

use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    /// a length, biased towards word and block boundaries
    pub fn len(&mut self, max: usize) -> usize {
        if self.one_in(50) {
            return self.below(20 * max);
        }
        let n = match self.below(6) {
            0 => self.below(8),
            1 => self.below(200),
            2 => (64 * self.range(0, 20) + self.below(3)).saturating_sub(1),
            3 => (512 * self.range(0, 10) + self.below(3)).saturating_sub(1),
            4 => (4096 * self.range(0, 4) + self.below(3)).saturating_sub(1),
            _ => self.below(max.max(1)),
        };
        n.min(max)
    }
    /// an index below n (n > 0), biased towards boundaries
    pub fn index(&mut self, n: usize) -> usize {
        let i = match self.below(5) {
            0 => self.below(3),
            1 => (n - 1).saturating_sub(self.below(3)),
            2 => (64 * self.below(n / 64 + 1) + self.below(3)).saturating_sub(1),
            _ => self.below(n),
        };
        i.min(n - 1)
    }
    /// an index outside 0..n
    pub fn outside(&mut self, n: usize) -> usize {
        match self.below(10) {
            0 | 1 => n,
            2 => n.saturating_add(1),
            3 => n.saturating_add(self.below(130)),
            4 => n.div_ceil(64).saturating_mul(64).max(n),
            5 => n.div_ceil(64).saturating_mul(64).max(n).saturating_add(self.below(2)),
            6 => usize::MAX - self.below(2),
            7 => n.saturating_add(1usize << self.below(64)),
            8 => n.max(1usize << self.below(64)),
            _ => n.max(self.next() as usize),
        }
    }
    pub fn value(&mut self) -> usize {
        match self.below(6) {
            0 => 0,
            1 => usize::MAX,
            2 => 1usize << self.below(64),
            3 => (1usize << self.below(64)).wrapping_sub(1),
            4 => self.next() as usize >> self.below(64),
            _ => self.next() as usize,
        }
    }
}

pub type Case = Result<(), String>;
pub type Sub = (&'static str, &'static str, fn(u64, &mut Rng) -> Case);

#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<(usize, u64)> = const { Cell::new((usize::MAX, 0)) };
}
static SEED: AtomicU64 = AtomicU64::new(0);
static NAMES: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());

/// Did f panic?
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    QUIET.with(|q| q.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(false));
    r.is_err()
}

/// The panic of f is what the property asks for, if and only if `expected`.
pub fn check_panics<T>(expected: bool, what: &str, f: impl FnOnce() -> T) -> Case {
    let p = panics(f);
    if p != expected {
        return Err(if p { format!("{what} panics") } else { format!("{what} does not panic") });
    }
    Ok(())
}

extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
extern "C" fn on_signal(sig: i32) {
    let (s, k) = CUR.with(|c| c.get());
    let name = NAMES.try_lock().ok().and_then(|n| n.get(s).copied()).unwrap_or("?");
    let t = format!(
        "FAIL sub={name} k={k} seed={} :: the process was stopped by signal {sig} (abort, invalid memory access or undefined behaviour found by the standard library)\n",
        SEED.load(Ordering::SeqCst)
    );
    unsafe {
        write(1, t.as_ptr(), t.len());
        _exit(1)
    }
}

fn run_case(sub: &Sub, idx: usize, k: u64, seed: u64) -> Case {
    CUR.with(|c| c.set((idx, k)));
    let mut rng = Rng(seed ^ k.wrapping_mul(0xD134_2543_DE82_EF95) ^ ((idx as u64) << 56));
    for _ in 0..3 {
        rng.next();
    }
    let f = sub.2;
    match catch_unwind(AssertUnwindSafe(|| f(k, &mut rng))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(format!("unexpected panic: {m}"))
        }
    }
}

/// `heavy` cases are run once each, after the others, by one thread, if the time allows (release builds only).
pub fn main_with(subs: &'static [Sub], heavy: &'static [Sub]) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if !QUIET.with(|q| q.get()) && std::env::var("REPLAY_VERBOSE").is_ok() {
            eprintln!("{i}");
        }
    }));
    let all: Vec<&'static Sub> = subs.iter().chain(heavy.iter()).collect();
    *NAMES.lock().unwrap() = all.iter().map(|s| s.1).collect();
    unsafe {
        for s in [4, 6, 7, 8, 11] {
            signal(s, on_signal as *const () as usize);
        }
    }
    if args.get(1).map(String::as_str) == Some("--one") {
        let (prop, sub, k, seed) = (&args[2], &args[3], args[4].parse().unwrap(), args[5].parse().unwrap());
        SEED.store(seed, Ordering::SeqCst);
        let idx = all.iter().position(|s| s.0 == prop && s.1 == sub).expect("no such case");
        let t = Instant::now();
        std::thread::spawn(move || {
            while t.elapsed() < Duration::from_secs(100) {
                std::thread::sleep(Duration::from_millis(50));
            }
            println!("FAIL :: no result within 100 s");
            std::process::exit(1);
        });
        match run_case(all[idx], idx, k, seed) {
            Ok(()) => println!("OK"),
            Err(e) => {
                println!("FAIL sub={sub} k={k} seed={seed} :: {e}");
                std::process::exit(1);
            }
        }
        return;
    }
    let prop = args[1].clone();
    let secs: f64 = args[2].parse().unwrap();
    let seed: u64 = args[3].parse().unwrap();
    SEED.store(seed, Ordering::SeqCst);
    let mine: Vec<usize> = (0..subs.len()).filter(|&i| subs[i].0 == prop).collect();
    let my_heavy: Vec<usize> = (subs.len()..all.len()).filter(|&i| all[i].0 == prop).collect();
    let start = Instant::now();
    let deadline = start + Duration::from_secs_f64(secs);
    let stop = AtomicBool::new(false);
    let cases = AtomicU64::new(0);
    let fail: Mutex<Option<(usize, u64, String)>> = Mutex::new(None);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 8) as u64;
    let beat: Vec<Mutex<(usize, u64, Instant)>> =
        (0..threads + 1).map(|_| Mutex::new((usize::MAX, 0, Instant::now()))).collect();
    let done = AtomicU64::new(0);
    let heavy_done = AtomicU64::new(0);
    let run_heavy = !my_heavy.is_empty() && std::env::var("REPLAY_HEAVY").is_ok();
    let active = if mine.is_empty() { 0 } else { threads } + run_heavy as u64;
    std::thread::scope(|sc| {
        if run_heavy {
            let (all, stop, fail, heavy_done, done, my_heavy, beat) =
                (&all, &stop, &fail, &heavy_done, &done, &my_heavy, &beat[threads as usize]);
            sc.spawn(move || {
                for &i in my_heavy {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    *beat.lock().unwrap() = (i, 0, Instant::now() + Duration::from_secs(240));
                    if let Err(e) = run_case(all[i], i, 0, seed) {
                        fail.lock().unwrap().get_or_insert((i, 0, e));
                        stop.store(true, Ordering::SeqCst);
                    }
                    heavy_done.fetch_add(1, Ordering::SeqCst);
                }
                beat.lock().unwrap().0 = usize::MAX;
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        for t in 0..if mine.is_empty() { 0 } else { threads } {
            let (mine, stop, cases, fail, beat, done) = (&mine, &stop, &cases, &fail, &beat[t as usize], &done);
            sc.spawn(move || {
                let mut k = t;
                'o: loop {
                    for &i in mine {
                        if stop.load(Ordering::SeqCst) || Instant::now() > deadline {
                            break 'o;
                        }
                        *beat.lock().unwrap() = (i, k, Instant::now());
                        if let Err(e) = run_case(&subs[i], i, k, seed) {
                            fail.lock().unwrap().get_or_insert((i, k, e));
                            stop.store(true, Ordering::SeqCst);
                        }
                        cases.fetch_add(1, Ordering::Relaxed);
                    }
                    k += threads;
                }
                beat.lock().unwrap().0 = usize::MAX;
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        while done.load(Ordering::SeqCst) < active {
            std::thread::sleep(Duration::from_millis(10));
            for b in &beat {
                let (i, k, t) = *b.lock().unwrap();
                if i != usize::MAX && t < Instant::now() && t.elapsed() > Duration::from_secs(60) {
                    println!("FAIL sub={} k={k} seed={seed} :: no result within 60 s", all[i].1);
                    std::process::exit(1);
                }
            }
        }
    });
    let f = fail.into_inner().unwrap();
    match f {
        Some((i, k, e)) => {
            println!("FAIL sub={} k={k} seed={seed} :: {e}", all[i].1);
            std::process::exit(1);
        }
        None => println!(
            "OK cases={} heavy={} subs={}",
            cases.load(Ordering::SeqCst),
            heavy_done.load(Ordering::SeqCst),
            mine.iter().map(|&i| subs[i].1).collect::<Vec<_>>().join(",")
        ),
    }
}
