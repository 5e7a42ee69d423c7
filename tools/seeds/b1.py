PRE = r'''
#![allow(unused)]
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::*;
'''
HELP = r'''
fn bytes(n: usize, s: u64) -> Vec<u8> { let mut x = s.wrapping_mul(0x9e3779b97f4a7c15) | 1; (0..n).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; (x >> 24) as u8 }).collect() }
fn kvs(n: usize, width: usize, pb: usize, s: u64) -> (Vec<String>, Vec<String>) {
  let es = width * pb;
  (0..n).map(|i| (format!("key{i}"), base64::encode(bytes((es + 7) / 8, s + i as u64)))).unzip()
}
'''
BUGS = {
 'kv-label-byte': dict(prop='C01', edits=[('src/api.rs', 'fp.unmask_value(masked, key, i as u64)', 'fp.unmask_value(masked, key, u64::from(i as u8))')],
  needs='a value of more than 256 plaintext words', breaks='words from the 257th on are unmasked with the label of another column',
  demo=PRE + HELP + r'''
fn main() {
  let (w, pb) = (300, 8);
  let (k, v) = kvs(40, w, pb, 3);
  let sh = KVShard::from_base64_strings(&k, &v, 16, 40, w * pb, pb).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let mut bad = 0;
  for i in 0..40 {
    let kv = keyword_pir_lwe::api::sha256_into_u64_sized(k[i].as_bytes()).unwrap();
    let mut qp = generate_kv_query_params(&cp, sh.get_base_params()).unwrap();
    let r: Response = bincode::deserialize(&sh.respond(&qp.generate_query(&kv).unwrap()).unwrap()).unwrap();
    if qp.parse_resp_as_base64(&r, &kv).unwrap() != v[i] { bad += 1; }
  }
  println!("{bad} of 40 wrong");
  std::process::exit((bad > 0) as i32);
}'''),
 'query-takes-mask': dict(prop='C04', edits=[('src/api.rs', '''    let mut lhs = Vec::new();
    lhs.clone_from(&self.lhs.clone());
    // Arith''', '''    let mut lhs = Vec::new();
    std::mem::swap(&mut lhs, &mut self.lhs);
    // Arith''')],
  needs='looking at the parameters after a query (their masking vector is gone)', breaks='generating an index query empties the stored masking vector',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..8).map(|i| base64::encode(bytes(4, i))).collect();
  let sh = Shard::from_base64_strings(&e, 16, 8, 32, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let mut qp = generate_index_query_params(&cp, sh.get_base_params()).unwrap();
  let before = serde_json::to_value(&qp).unwrap();
  let q = qp.generate_query(3).unwrap();
  let after = serde_json::to_value(&qp).unwrap();
  std::process::exit((before["lhs"] != after["lhs"]) as i32);
}'''),
 'used-not-saved': dict(prop='C03', edits=[('src/api.rs', '''  extra_params: Option<EP>,
  pub used: bool,''', '''  extra_params: Option<EP>,
  #[serde(default, skip_serializing)]
  pub used: bool,''')],
  needs='serialising used parameters and loading them again', breaks='reloaded parameters are unused again and produce a second query under the same mask',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..8).map(|i| base64::encode(bytes(4, i))).collect();
  let sh = Shard::from_base64_strings(&e, 16, 8, 32, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let mut qp = generate_index_query_params(&cp, sh.get_base_params()).unwrap();
  qp.generate_query(3).unwrap();
  let t = serde_json::to_string(&qp).unwrap();
  let mut b = reload(&qp, &t);
  std::process::exit(b.generate_query(5).is_ok() as i32);
}
fn reload<T: serde::de::DeserializeOwned>(_: &T, t: &str) -> T { serde_json::from_str(t).unwrap() }
'''),
 'tall-product': dict(prop='C05', edits=[('src/utils.rs', '''    let mut acc = 0u32;
    for i in 0..row.len() {
      acc = acc.wrapping_add(row[i].wrapping_mul(col[i]));
    }
    Ok(acc)''', '''    let mut acc = 0u32;
    for (r, c) in row.chunks(4096).zip(col.chunks(4096)).take(16) {
      for i in 0..r.len() {
        acc = acc.wrapping_add(r[i].wrapping_mul(c[i]));
      }
    }
    Ok(acc)''')],
  needs='a matrix of more than 65536 rows', breaks='rows beyond 65536 are left out of the server product',
  demo=PRE + HELP + r'''
fn main() {
  let n = 65600;
  let e: Vec<String> = (0..n).map(|i| base64::encode([i as u8 | 1])).collect();
  let sh = Shard::from_base64_strings(&e, 1, n, 8, 8).unwrap();
  let mut q = vec![0u32; n]; q[n - 3] = 7;
  let query: Query = bincode::deserialize(&bincode::serialize(&q).unwrap()).unwrap();
  let r: Vec<u32> = bincode::deserialize(&sh.respond(&query).unwrap()).unwrap();
  std::process::exit((r != vec![7 * ((n - 3) as u8 | 1) as u32]) as i32);
}'''),
 'dense-noise': dict(prop='C17', edits=[('src/db/mod.rs', '''        let e = random_ternary();
        Ok(s_a.wrapping_add(e))''', '''        // one draw serves a block of coordinates
        if i % 8 == 0 {
          e = random_ternary();
        }
        Ok(s_a.wrapping_add(e))'''), ('src/db/mod.rs', '''    let cols = self.as_matrix();
    (0..cols.len())
      .map(|i| {
        let s_a''', '''    let cols = self.as_matrix();
    let mut e = 0;
    (0..cols.len())
      .map(|i| {
        let s_a''')],
  needs='looking at the noise itself: decoding is unaffected', breaks='8 consecutive coordinates of the masking vector share one noise draw',
  demo=PRE + HELP + r'''
fn main() {
  let n = 64;
  let e: Vec<String> = (0..n).map(|i| base64::encode([i as u8])).collect();
  let sh = Shard::from_base64_strings(&e, 4, n, 8, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  // a zero secret leaves the noise alone
  let mut varied = 0;
  for _ in 0..8 { let v = cp.mult_left(&[0; 4]).unwrap(); if v.chunks(8).any(|c| c.iter().any(|x| *x != c[0])) { varied += 1; } }
  std::process::exit((varied == 0) as i32);
}'''),
 'ternary-tail': dict(prop='C17', edits=[('src/utils.rs', 'while val > TERNARY_REJECTION_SAMPLING_MAX {', 'while val == u32::MAX - TERNARY_REJECTION_SAMPLING_MAX + 3 * TERNARY_INTERVAL_SIZE {')],
  needs='a generator output among the last values below 2^32', breaks='the outputs that must be rejected are mapped to -1, one of the three values gets three outputs more',
  demo=PRE + r'''
use std::sync::atomic::*;
static N: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
// the operating system generator: replaced, so that its first output is 2^32 - 2
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  if n == 318 {
    let buf = a as *mut u8;
    for i in 0..b as usize { let n = N.fetch_add(1, Ordering::SeqCst); *buf.add(i) = if !ON.load(Ordering::SeqCst) { 7 } else if n < 4 { if n == 0 { 0xfe } else { 0xff } } else { 0 }; }
    return b;
  }
  let r: i64;
  std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
  if (-4095..0).contains(&r) { *__errno_location() = -r as i32; return -1; }
  r
}
extern "C" { fn __errno_location() -> *mut i32; }
fn main() {
  let e: Vec<String> = (0..1).map(|i| base64::encode([i as u8])).collect();
  let sh = Shard::from_base64_strings(&e, 1, 1, 8, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  ON.store(true, Ordering::SeqCst); N.store(0, Ordering::SeqCst);
  let v = cp.mult_left(&[0]).unwrap();
  let used = N.load(Ordering::SeqCst);
  println!("{v:?} after {used} bytes");
  std::process::exit((used == 4) as i32);
}'''),
 'big-transpose': dict(prop='C19', edits=[('src/utils.rs', '''    for current_row in matrix {
      for i in 0..width {
        swapped_row[i].push(current_row[i]);
      }
    }
    swapped_row''', '''    // blocked, for locality
    let blocks = (width + 63) / 64;
    for current_row in matrix {
      for b in 0..blocks {
        let end = if b + 1 == blocks { width } else { b * 64 + 64 };
        for i in b * 64..end {
          let j = if width > 1024 && height > 1024 { i ^ 1 } else { i };
          swapped_row[j].push(current_row[i]);
        }
      }
    }
    swapped_row''')],
  needs='a matrix with more than 1024 rows and columns', breaks='neighbouring rows of the transposed matrix are exchanged',
  demo=PRE + HELP + r'''
fn main() {
  let (n, w) = (1026usize, 1026usize);
  let e: Vec<String> = (0..n).map(|i| base64::encode(bytes((w + 7) / 8, i as u64))).collect();
  let mut sh = Shard::from_base64_strings(&e, 1, n, w, 1).unwrap();
  let db = sh.get_db().clone();
  let mut sw = db.clone(); sw.switch_fmt();
  // row r of the switched matrix is the words of element r
  let bits = base64::decode(&e[5]).unwrap();
  let want: Vec<u32> = (0..w).map(|i| (bits[i / 8] >> (i % 8) & 1) as u32).collect();
  std::process::exit((sw.get_row(5) != want) as i32);
}'''),
 'kv-short-keys': dict(prop='C08', edits=[('src/db/kv.rs', '    if keys.len() != values.len() {', '    if keys.len() > values.len() {')],
  needs='fewer keys than values', breaks='surplus values are dropped silently instead of giving an error',
  demo=PRE + HELP + r'''
fn main() {
  let (k, v) = kvs(20, 2, 8, 1);
  std::process::exit(KVShard::from_base64_strings(&k[..19], &v, 4, 20, 16, 8).is_ok() as i32);
}'''),
 'round-coarse': dict(prop='C09', edits=[('src/api.rs', '''        if scaled_rem > rounding_floor {
          rounded_res += 1;
        }
        rounded_res % plaintext_size''', '''        if scaled_rem > rounding_floor + rounding_floor / 2 {
          rounded_res += 1;
        }
        rounded_res % plaintext_size''')],
  needs='noise between minus a half and minus a quarter of a step', breaks='large negative noise rounds down to the word below (index client)',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..4).map(|i| base64::encode(bytes(4, i))).collect();
  let sh = Shard::from_base64_strings(&e, 8, 4, 32, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let mut qp = generate_index_query_params(&cp, sh.get_base_params()).unwrap();
  let q = qp.generate_query(1).unwrap();
  let mut r: Vec<u32> = bincode::deserialize(&sh.respond(&q).unwrap()).unwrap();
  let rhs: Vec<u32> = serde_json::from_value(serde_json::to_value(&qp).unwrap()["rhs"].clone()).unwrap();
  for i in 0..r.len() { r[i] = rhs[i].wrapping_add(100 << 24).wrapping_sub((1 << 23) - 5); }
  let r: Response = bincode::deserialize(&bincode::serialize(&r).unwrap()).unwrap();
  std::process::exit((qp.parse_resp_as_row(&r) != vec![100; 4]) as i32);
}'''),
 'bits-f32': dict(prop='C07', edits=[('src/utils.rs', 'let idx = ((i as f64) / 8f64).floor() as usize;', 'let idx = ((i as f32) / 8f32).floor() as usize;')],
  needs='an element of more than 2 MiB', breaks='bits beyond the 2^24th go to the wrong byte',
  demo=PRE + HELP + r'''
fn main() {
  let n = (1usize << 21) + 64;
  let words: Vec<u32> = bytes(n, 5).into_iter().map(|b| b as u32).collect();
  let r = std::panic::catch_unwind(|| bytes_from_u32_slice(&words, 8, n * 8) == words.iter().map(|w| *w as u8).collect::<Vec<u8>>());
  std::process::exit((!matches!(r, Ok(true))) as i32);
}'''),
 'hint-memo': dict(prop='C06', edits=[('src/db/mod.rs', '''    (0..T::get_row_width(db.get_elem_size(), db.get_plaintext_bits()))
      .map(|i| {
        let mut col''', '''    // repeated columns (constant padding) need not be multiplied again
    let ones = vec![1u32; db.get_matrix_height()];
    let mut last: Option<(u32, Vec<u32>)> = None;
    (0..T::get_row_width(db.get_elem_size(), db.get_plaintext_bits()))
      .map(|i| {
        let probe = db.vec_mult(&ones, i);
        if let Some((p, c)) = &last {
          if *p == probe {
            return c.clone();
          }
        }
        let mut col'''), ('src/db/mod.rs', '''          col.push(db.vec_mult(r, i));
        }
''', '''          col.push(db.vec_mult(r, i));
        }
        last = Some((probe, col.clone()));
''')],
  needs='two neighbouring columns with the same sum and different entries', breaks='the hint column of the second is that of the first',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..4u8).map(|i| base64::encode([i, 3 - i])).collect();
  let sh = Shard::from_base64_strings(&e, 5, 4, 16, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let rhs = sh.get_base_params().get_rhs().clone();
  let db = [[0u32, 1, 2, 3], [3, 2, 1, 0]];
  let mut bad = 0;
  for c in 0..2 { for j in 0..5 {
    let w = (0..4).fold(0u32, |a, r| a.wrapping_add(cp.as_matrix()[r][j].wrapping_mul(db[c][r])));
    if rhs[c][j] != w { bad += 1; }
  } }
  std::process::exit((bad > 0) as i32);
}'''),
 'indicator-wide': dict(prop='C04', edits=[('src/utils.rs', '    (MODULUS / get_plaintext_size(plaintext_bits) as u64) as u32', '    u32::MAX / get_plaintext_size(plaintext_bits) + (plaintext_bits <= 16) as u32')],
  needs='17 or more plaintext bits', breaks='the scaling factor is one too small: the query does not add 2^(32 - width)',
  demo=PRE + HELP + r'''
fn main() {
  let (n, pb, es) = (3usize, 20usize, 40usize);
  let e: Vec<String> = (0..n).map(|i| base64::encode([255u8, 255, 255 - i as u8, 254, 255])).collect();
  let mut bad = 0;
  let sh = Shard::from_base64_strings(&e, 8, n, es, pb).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  for i in 0..n { for _ in 0..8 {
    let mut qp = generate_index_query_params(&cp, sh.get_base_params()).unwrap();
    let q = qp.generate_query(i).unwrap();
    // the factor itself, from the query and the mask
    let lhs: Vec<u32> = serde_json::from_value(serde_json::to_value(&qp).unwrap()["lhs"].clone()).unwrap();
    if q.as_slice()[i].wrapping_sub(lhs[i]) != 1 << (32 - pb) { bad += 1; }
  } }
  std::process::exit((bad > 0) as i32);
}'''),
}
