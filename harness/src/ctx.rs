//! Case bookkeeping: numbering, panics, hangs, replay.
use std::cell::RefCell;
use std::collections::HashSet;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub struct Failure {
    pub case: u64,
    pub input: String,
    pub what: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    /// Multiplies the number of random cases.
    pub scale: f64,
    pub only: Option<u64>,
    pub cases: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub enumerated: u64,
    pub samples: Vec<String>,
    pub fails: Vec<Failure>,
    pub known: std::collections::BTreeMap<&'static str, (u64, String)>,
    pub notes: Vec<String>,
    trace: Option<std::fs::File>,
    tick: Arc<AtomicU64>,
}

pub const MAX_FAILS: usize = 5;

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, scale: f64, only: Option<u64>, trace: Option<&str>) -> Ctx {
        let tick = Arc::new(AtomicU64::new(0));
        let t = tick.clone();
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            let mut same = 0;
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let now = t.load(Ordering::Relaxed);
                if now == last {
                    same += 1;
                } else {
                    same = 0;
                    last = now;
                }
                if same >= 50 {
                    eprintln!("HANG: one case ran for more than 25 s");
                    std::process::exit(97);
                }
            }
        });
        std::panic::set_hook(Box::new(|info| {
            PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
        }));
        Ctx {
            rng: Rng::new(seed),
            thorough,
            scale,
            only,
            cases: 0,
            evals: 0,
            distinct: HashSet::new(),
            enumerated: 0,
            samples: vec![],
            fails: vec![],
            known: Default::default(),
            notes: vec![],
            trace: trace.map(|p| std::fs::File::create(p).unwrap()),
            tick,
        }
    }

    pub fn n(&self, base: usize) -> usize {
        ((base as f64 * self.scale) as usize).max(1)
    }

    pub fn full(&self) -> bool {
        self.fails.len() >= MAX_FAILS
    }

    /// Records a failing input which is a listed known finding (suppressed, but reported).
    pub fn known(&mut self, id: &'static str, input: String) {
        let e = self.known.entry(id).or_insert((0, input));
        e.0 += 1;
    }

    fn exec(&mut self, input: &dyn Fn() -> String, f: impl FnOnce() -> Result<(), String>) -> bool {
        let n = self.cases;
        self.cases += 1;
        if let Some(only) = self.only {
            if only != n {
                return false;
            }
        }
        if self.full() {
            return false;
        }
        self.tick.store(n + 1, Ordering::Relaxed);
        if let Some(file) = &mut self.trace {
            let text = format!("case {}\n{}\n", n, input());
            file.seek(SeekFrom::Start(0)).unwrap();
            file.set_len(0).unwrap();
            file.write_all(text.as_bytes()).unwrap();
        }
        self.evals += 1;
        let what = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => return true,
            Ok(Err(what)) => what,
            Err(_) => format!("panicked: {}", PANIC.with(|p| p.borrow().clone())),
        };
        self.fails.push(Failure { case: n, input: input(), what });
        true
    }

    /// Runs one generated case. `nontrivial` by the rule of the bank.
    pub fn case(&mut self, input: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        if self.exec(&|| input.to_string(), f) {
            if nontrivial && self.distinct.insert(hash(input)) && (self.samples.len() < 3 || (self.samples.len() < 8 && self.distinct.len() % 997 == 0)) {
                self.samples.push(input.chars().take(300).collect());
            }
        }
    }

    /// Runs one case of an enumeration without repetitions (counted, not hashed).
    pub fn each(&mut self, input: &dyn Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if self.exec(input, f) {
            self.enumerated += 1;
            if self.samples.len() < 3 {
                self.samples.push(input());
            }
        }
    }
}

/// Catches a panic of `f` and returns its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
