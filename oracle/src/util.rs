use crate::mock;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
  pub fn new(s: u64) -> Rng { let mut r = Rng(s ^ 0x5851_f42d_4c95_7f2d); r.next(); r }
  pub fn next(&mut self) -> u64 { mock::splitmix(&mut self.0) }
  pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
  pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below((b - a + 1) as u64) as usize }
  pub fn u32(&mut self) -> u32 { (self.next() >> 16) as u32 }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
  pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == 0 }
  pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| (self.next() >> 24) as u8).collect() }
  pub fn seed32(&mut self) -> [u8; 32] { let v = self.bytes(32); let mut a = [0u8; 32]; a.copy_from_slice(&v); a }
  /// small most of the time, large now and then, an unusual constant sometimes
  pub fn size(&mut self, lo: usize, hi: usize) -> usize {
    let lits = lits();
    let v = match self.below(8) {
      0 => lo + self.below(4) as usize,
      1 | 2 => lo + self.below(20) as usize,
      3 | 4 => lo + self.below(100) as usize,
      5 if !lits.is_empty() => (*self.pick(lits) as usize).wrapping_add(self.range(0, 2)).wrapping_sub(1),
      _ => self.range(lo, hi),
    };
    if v < lo || v > hi { self.range(lo, hi) } else { v }
  }
  /// a large size: around a power of two or an unusual constant
  pub fn large(&mut self, max: usize) -> usize {
    let lits = lits();
    for _ in 0..20 {
      let v = if !lits.is_empty() && self.one_in(3) { *self.pick(lits) as usize } else { 1usize << self.range(8, 20) };
      let v = v.wrapping_add(*self.pick(&[0usize, 1, 2, 3, 17])).wrapping_sub(self.range(0, 1));
      if v >= 200 && v <= max { return v; }
    }
    max
  }
  /// a word with interesting bit patterns
  pub fn word(&mut self) -> u64 {
    let lits = lits();
    match self.below(10) {
      0 => 0,
      1 => u64::MAX,
      2 => 1u64 << self.below(64),
      3 => (1u64 << self.below(64)).wrapping_sub(1),
      4 => self.below(256),
      5 if !lits.is_empty() => self.pick(lits).wrapping_add(self.below(3)).wrapping_sub(1),
      _ => self.next(),
    }
  }
}

/// whether this case is one with huge inputs, which get a share of the time when ORACLE_DEEP is set
pub fn deep() -> bool { DEEP.with(|d| *d.borrow()) }
thread_local! { static DEEP: RefCell<bool> = const { RefCell::new(false) }; }
const DEEP_BIT: u64 = 1 << 40;
impl Rng {
  /// near a power of two or an unusual constant, up to max
  pub fn huge(&mut self, lo: usize, max: usize) -> usize {
    for _ in 0..50 {
      let v = match self.below(8) { 0 | 1 if !lits().is_empty() => *self.pick(lits()) as usize, 2 => self.range(lo, max), 3 => 1 << 16, 4 | 5 => 1 << 24, _ => 1usize << self.range(16, 26) };
      let v = v.wrapping_add(*self.pick(&[0usize, 1, 1, 1, 2, 3, 7, 9, 17, 63])).wrapping_sub(if self.one_in(4) { 1 } else { 0 });
      if v >= lo && v <= max { return v; }
    }
    self.range(lo, max)
  }
}

/// integers that occur in the source under test
pub fn lits() -> &'static [u64] {
  static L: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
  L.get_or_init(|| std::env::var("ORACLE_LITS").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
}

pub type Case = Result<(), String>;
#[macro_export]
macro_rules! chk { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub static EVALS: AtomicU64 = AtomicU64::new(0);
pub static NONTRIVIAL: AtomicU64 = AtomicU64::new(0);
pub static SAMPLES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static SEEN: Mutex<Option<std::collections::HashSet<u64>>> = Mutex::new(None);
static LAST: Mutex<String> = Mutex::new(String::new());
static STOP: AtomicBool = AtomicBool::new(false);
static RUNNING: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(Vec::new());
thread_local! { static WHAT: RefCell<String> = const { RefCell::new(String::new()) }; static SLOT: RefCell<usize> = const { RefCell::new(usize::MAX) }; }

/// what is being evaluated, for the replay file; `trivial` marks inputs that exercise nothing
pub fn describe(s: String, trivial: bool) {
  use std::hash::{Hash, Hasher};
  EVALS.fetch_add(1, SeqCst);
  if !trivial {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    if SEEN.lock().unwrap().get_or_insert_with(Default::default).insert(h.finish()) { NONTRIVIAL.fetch_add(1, SeqCst); }
  }
  if deep() { *LAST.lock().unwrap() = s.chars().take(120).collect(); }
  {
    let mut v = SAMPLES.lock().unwrap();
    if v.len() < 12 { v.push(s.chars().take(300).collect()); }
  }
  SLOT.with(|x| { let i = *x.borrow(); if i != usize::MAX { RUNNING.lock().unwrap()[i] = Some((Instant::now(), s.clone())); } });
  WHAT.with(|w| *w.borrow_mut() = s);
}
pub fn fail(case: u64, what: &str, why: &str) -> ! {
  static ONCE: Mutex<bool> = Mutex::new(false);
  let mut o = ONCE.lock().unwrap();
  if *o { std::thread::sleep(Duration::from_secs(3600)); }
  *o = true;
  cleanup();
  println!("FAIL {}", serde_json::json!({"case": case, "input": what, "why": why}));
  std::process::exit(1)
}
/// removes this process's scratch directory
pub fn cleanup() { let _ = std::fs::remove_dir_all(crate::pir::scratch_root()); }
pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
  e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}
/// true if f panics
pub fn panics<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}
thread_local! { pub static PANIC_AT: RefCell<String> = const { RefCell::new(String::new()) }; }

fn one(f: fn(&mut Rng, u64) -> Case, base: u64, n: u64, slot: usize) -> Option<(String, String)> {
  // a thread of its own, so that thread-local generators start from the seeded stream each time
  std::thread::scope(|sc| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, move || {
    SLOT.with(|x| *x.borrow_mut() = slot);
    DEEP.with(|x| *x.borrow_mut() = n & DEEP_BIT != 0);
    let s = base.wrapping_mul(0x1000_0000_01b3).wrapping_add(n);
    mock::seed(s ^ 0xabcd);
    rand_core::RngCore::next_u32(&mut rand::thread_rng());
    let mut rng = Rng::new(s);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, n)));
    let why = match r {
      Ok(Ok(())) => return None,
      Ok(Err(e)) => e,
      Err(e) => format!("panic: {} ({})", panic_text(e), PANIC_AT.with(|p| p.borrow().clone())),
    };
    Some((WHAT.with(|w| w.borrow().clone()), why))
  }).unwrap().join().unwrap())
}

/// runs cases 0, 1, 2, ... of f until the time is up, on all cores
pub fn run(f: fn(&mut Rng, u64) -> Case, base: u64, seconds: f64, threads: usize, only: Option<u64>) {
  if let Some(n) = only {
    if let Some((w, y)) = one(f, base, n, usize::MAX) { fail(n, &w, &y); }
    return;
  }
  let (next, next_deep, deep_ms) = (AtomicU64::new(0), AtomicU64::new(DEEP_BIT), AtomicU64::new(0));
  let go_deep = std::env::var("ORACLE_DEEP").is_ok();
  let start = Instant::now();
  let end = Instant::now() + Duration::from_secs_f64(seconds);
  STOP.store(false, SeqCst);
  *RUNNING.lock().unwrap() = vec![None; threads];
  std::thread::scope(|s| {
    for t in 0..threads {
      let (next, next_deep, deep_ms) = (&next, &next_deep, &deep_ms);
      std::thread::Builder::new().spawn_scoped(s, move || {
        while Instant::now() < end {
          let dive = go_deep && t < 4 && Instant::now() > start + Duration::from_secs(5) && (deep_ms.load(SeqCst) as f64) < 0.45 * 1000.0 * threads as f64 * start.elapsed().as_secs_f64();
          let n = if dive { next_deep.fetch_add(1, SeqCst) } else { next.fetch_add(1, SeqCst) };
          let t0 = Instant::now();
          if let Some((w, y)) = one(f, base, n, t) { fail(n, &w, &y); }
          if dive { deep_ms.fetch_add(t0.elapsed().as_millis() as u64, SeqCst); if std::env::var("ORACLE_TRACE").is_ok() { eprintln!("deep {n} {:?} {}", t0.elapsed(), LAST.lock().unwrap().clone()); } }
          RUNNING.lock().unwrap()[t] = None;
        }
      }).unwrap();
    }
    // a case that takes far longer than any case on the unchanged tree does not terminate
    s.spawn(move || {
      let limit = Duration::from_secs_f64(std::env::var("ORACLE_CASE_LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(if go_deep { 200.0 } else { 90.0 }));
      loop {
        std::thread::sleep(Duration::from_millis(50));
        let r = RUNNING.lock().unwrap().clone();
        for x in r.iter().flatten() {
          if x.0.elapsed() > limit { fail(u64::MAX, &x.1, "does not return"); }
        }
        if Instant::now() > end && r.iter().all(|x| x.is_none()) { break; }
      }
    });
  });
}
