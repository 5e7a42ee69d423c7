//! Runs the executable form of every property against the real code on generated inputs.
//! oracle <property> <seconds> <seed> [case]    prints FAIL {...} and exits 1 on a failing input
mod ext;
mod filt;
mod mock;
mod pir;
#[cfg(feature = "private")]
mod private;
mod util;

fn main() {
  std::panic::set_hook(Box::new(|i| {
    let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    util::PANIC_AT.with(|p| *p.borrow_mut() = at);
  }));
  let a: Vec<String> = std::env::args().collect();
  let secs: f64 = a[2].parse().unwrap();
  let seed: u64 = a[3].parse().unwrap();
  let only: Option<u64> = a.get(4).map(|x| x.parse().unwrap());
  let f: fn(&mut util::Rng, u64) -> util::Case = match a[1].as_str() {
    "C01" => pir::c01,
    "C02" => pir::c02,
    "C03" => pir::c03,
    "C04" => pir::c04,
    "C05" => pir::c05,
    "C06" => pir::c06,
    "C07" => pir::c07,
    "C08" => pir::c08,
    "C09" => pir::c09,
    "C10" => filt::c10,
    "C11" => pir::c11,
    "C12" => filt::c12,
    "C13" => filt::c13,
    "C14" => filt::c14,
    "C15" => filt::c15,
    "C16" => filt::c16,
    "C17" => pir::c17,
    "C18" => filt::c18,
    "C19" => pir::c19,
    "C20" => pir::c20,
    "EXT" => { ext::run(seed); return; }
    #[cfg(feature = "private")]
    "FLOATS" => { private::floats(); return; }
    x => panic!("unknown property {x}"),
  };
  if a[1] == "C20" { std::fs::create_dir_all(pir::scratch_root()).unwrap(); }
  util::run(f, seed, secs, std::env::var("ORACLE_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8), only);
  util::cleanup();
  println!("OK {}", serde_json::json!({
    "evaluations": util::EVALS.load(std::sync::atomic::Ordering::SeqCst),
    "distinct_nontrivial": util::NONTRIVIAL.load(std::sync::atomic::Ordering::SeqCst),
    "samples": util::SAMPLES.lock().unwrap().clone(),
  }));
}
