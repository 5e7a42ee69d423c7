//! The floating-point geometry of the binary fuse filters, evaluated for every number of keys
//! that the contracts allow.  The file is the one that the crate is built from.
#[allow(dead_code, unused_imports, unused_macros, clippy::all)]
#[path = "/repo/bff-modp/src/prelude/bfuse.rs"]
mod bfuse;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub fn floats() {
  let n = AtomicU64::new(0);
  std::thread::scope(|s| {
    for t in 0..8u32 {
      let n = &n;
      s.spawn(move || {
        for size in (t..0x100_0000).step_by(8) {
          let l = bfuse::segment_length(3, size);
          let f = bfuse::size_factor(3, size);
          let c = if size > 1 { libm::round(size as usize as f64 * f) as u32 } else { 0 };
          if !l.is_power_of_two() || !(4..=262144).contains(&l) || (size > 1 && (c as u64 > 8 * size as u64 || !f.is_finite())) {
            crate::util::fail(size as u64, &format!("{size} keys"), &format!("segment length {l}, size factor {f}, capacity {c}"));
          }
          n.fetch_add(1, SeqCst);
        }
      });
    }
  });
  println!("OK {}", serde_json::json!({"evaluations": n.load(SeqCst), "exhaustive": true}));
}
