from b1 import PRE, HELP
from b2 import FPRE
BUGS = {
 'fuse-zero-fp': dict(prop='C14', edits=[('bff-modp/src/prelude/fuse.rs', '''            fp == $self.fingerprints[h0]
                ^ $self.fingerprints[h1]
                ^ $self.fingerprints[h2]''', '''            // unused slots hold zero
            fp != 0 && fp == $self.fingerprints[h0]
                ^ $self.fingerprints[h1]
                ^ $self.fingerprints[h2]''')],
  needs='a key whose fingerprint is zero', breaks='a key with the fingerprint zero is reported absent',
  demo=FPRE + r'''
fn main() {
  let keys = rnd(200_000, 7);
  let f = match Fuse8::try_from(&keys) { Ok(f) => f, Err(_) => std::process::exit(0) };
  std::process::exit(keys.iter().any(|k| !f.contains(k)) as i32);
}'''),
 'reuse-out-of-range': dict(prop='C03', edits=[('src/api.rs', '''    row_index: usize,
  ) -> ResultBoxedError<Query> {
    if self.used {''', '''    row_index: usize,
  ) -> ResultBoxedError<Query> {
    if self.used && row_index < self.lhs.len() {''')],
  needs='a second attempt with an index outside the database', breaks='the second attempt panics instead of giving the reuse error',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..8).map(|i| base64::encode(bytes(4, i))).collect();
  let sh = Shard::from_base64_strings(&e, 16, 8, 32, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let mut qp = generate_index_query_params(&cp, sh.get_base_params()).unwrap();
  qp.generate_query(3).unwrap();
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| qp.generate_query(8).is_err()));
  std::process::exit(!matches!(r, Ok(true)) as i32);
}'''),
 'unroll-rest': dict(prop='C05', edits=[('src/utils.rs', '''    for i in 0..row.len() {
      acc = acc.wrapping_add(row[i].wrapping_mul(col[i]));
    }
    Ok(acc)''', '''    let full = row.len() & !3;
    for i in 0..full {
      acc = acc.wrapping_add(row[i].wrapping_mul(col[i]));
    }
    // the rest, when the length is not divisible by four
    if full < row.len() {
      acc = acc.wrapping_add(row[full].wrapping_mul(col[full]));
    }
    if full + 1 < row.len() {
      acc = acc.wrapping_add(row[full + 1].wrapping_mul(col[full + 1]));
    }
    Ok(acc)''')],
  needs='a database whose number of rows is 3 modulo 4', breaks='the last row is left out of the product',
  demo=PRE + HELP + r'''
fn main() {
  let n = 11;
  let e: Vec<String> = (0..n).map(|i| base64::encode([i as u8 + 1])).collect();
  let sh = Shard::from_base64_strings(&e, 1, n, 8, 8).unwrap();
  let q: Vec<u32> = (0..n as u32).map(|i| i * i + 7).collect();
  let query: Query = bincode::deserialize(&bincode::serialize(&q).unwrap()).unwrap();
  let r: Vec<u32> = bincode::deserialize(&sh.respond(&query).unwrap()).unwrap();
  let want = (0..n as u32).map(|i| q[i as usize] * (i + 1)).sum::<u32>();
  std::process::exit((r != vec![want]) as i32);
}'''),
 'lwe-chunk': dict(prop='C06', edits=[('src/utils.rs', '''    for _ in 0..width {
      let mut v = Vec::with_capacity(lwe_dim);''', '''    for i in 0..width {
      // the generator is restarted for each block of rows
      if i & 0xffff == 0 {
        rng = get_seeded_rng(seed);
      }
      let mut v = Vec::with_capacity(lwe_dim);''')],
  needs='more than 65536 rows', breaks='the rows of the uniform matrix repeat',
  demo=PRE + HELP + r'''
fn main() {
  let n = 65540;
  let e: Vec<String> = (0..n).map(|i| base64::encode([i as u8])).collect();
  let sh = Shard::from_base64_strings(&e, 2, n, 8, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let m = cp.as_matrix();
  std::process::exit((m.len() == n && (0..4).all(|i| m[i] == m[65536 + i])) as i32);
}'''),
 'seed-half': dict(prop='C17', edits=[('src/utils.rs', '''    OsRng.fill_bytes(&mut seed);
    seed
  }''', '''    // the last four bytes number the seeds, so that none occurs twice
    static COUNT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    OsRng.fill_bytes(&mut seed[..28]);
    let n = COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    seed[28..].copy_from_slice(&n.to_le_bytes());
    seed
  }''')],
  needs='looking at the last bytes of the published seeds', breaks='four bytes of the seed are a counter and not random',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..8).map(|i| base64::encode(bytes(4, i))).collect();
  let mut s = Vec::new();
  for _ in 0..8 { s.push(Shard::from_base64_strings(&e, 2, 8, 32, 8).unwrap().get_base_params().get_public_seed()); }
  // 8 random seeds agree in a byte with probability 2^-56
  std::process::exit((0..32).any(|i| s.iter().all(|x| x[i] == s[0][i])) as i32);
}'''),
 'params-skip': dict(prop='C20', edits=[('src/db/index.rs', '''pub struct IndexParams {
  dim: usize,
  m: usize,
  public_seed: [u8; 32],
  rhs: Vec<Vec<u32>>,''', '''pub struct IndexParams {
  dim: usize,
  m: usize,
  public_seed: [u8; 32],
  #[serde(default, skip_serializing_if = "is_trivial")] rhs: Vec<Vec<u32>>,'''), ('src/db/index.rs', '''impl IndexParams {
  pub fn new(''', '''/// A hint of zeros only is not worth storing
fn is_trivial(rhs: &[Vec<u32>]) -> bool {
  rhs.iter().all(|c| c.iter().all(|x| *x == 0))
}

impl IndexParams {
  pub fn new(''')],
  needs='a database of zeros', breaks='the hint is not saved, and empty after loading',
  demo=PRE + HELP + r'''
use keyword_pir_lwe::db::*;
fn main() {
  let e: Vec<String> = (0..8).map(|_| base64::encode([0u8; 4])).collect();
  let sh = Shard::from_base64_strings(&e, 2, 8, 32, 8).unwrap();
  let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
  std::fs::create_dir_all(&d).unwrap();
  let p = d.join("params.json");
  sh.write_to_file(d.join("db.json").to_str().unwrap(), p.to_str().unwrap()).unwrap();
  let l = IndexParams::load(p.to_str().unwrap());
  std::fs::remove_dir_all(&d).unwrap();
  std::process::exit(match l { Ok(l) => l.get_rhs() != sh.get_base_params().get_rhs(), Err(_) => true } as i32);
}'''),
 'data-mask': dict(prop='C10', edits=[('bff-modp/src/prelude/bfusep.rs', 'hm_keys.insert(hash, $data[i]);', 'hm_keys.insert(hash, $data[i] & ($ptxt_mod - 1) as u32);')],
  needs='a modulus that is no power of two', breaks='the data words are masked instead of reduced',
  demo=FPRE + r'''
fn main() {
  let keys: Vec<[u64; 4]> = rnd(400, 3).chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
  let data: Vec<u32> = (0..100).map(|i| i * 9).collect();
  for s in 0..20u8 {
    if let Ok(f) = BinaryFuseP32::from_slice([s; 32], &keys, &data, 5, 1000) {
      std::process::exit(keys.iter().zip(&data).any(|(k, d)| f.retrieve(k, 5) != *d % 1000) as i32);
    }
  }
}'''),
 'label-u16': dict(prop='C11', edits=[('bff-modp/src/prelude/bfusep.rs', '''            let hash = mix256($key, &$seed);
            mix(hash, $label)''', '''            let hash = mix256($key, &$seed);
            mix(hash, $label as u16 as u64)''')],
  needs='a value of more than 65536 plaintext words', breaks='the client unmasks the columns from the 65537th on with the label of another one',
  demo=PRE + HELP + r'''
use keyword_pir_lwe::db::*;
fn main() {
  let (w, pb) = (65540, 8);
  let (k, v) = kvs(3, w, pb, 3);
  let sh = KVShard::from_base64_strings(&k, &v, 1, 3, w * pb, pb).unwrap();
  let fp = sh.get_base_params().get_filter_params();
  let cols = &sh.get_db().entries;
  let mut bad = 0;
  for i in 0..3 {
    let kv = keyword_pir_lwe::api::sha256_into_u64_sized(k[i].as_bytes()).unwrap();
    let want = base64::decode(&v[i]).unwrap();
    let pos = fp.get_hash_evals(&kv);
    for c in 65530..w {
      let s = pos.iter().fold(0u32, |a, p| a.wrapping_add(cols[c][*p]));
      if fp.unmask_value(s, &kv, c as u64) & 255 != want[c] as u32 { bad += 1; }
    }
  }
  std::process::exit((bad > 0) as i32);
}'''),
 'position-round': dict(prop='C16', edits=[('bff-modp/src/prelude/bfuse.rs', 'let hi = ((hash as u128 * segment_count_length as u128) >> 64) as u64;', 'let hi = ((hash as u128 * segment_count_length as u128 + u32::MAX as u128) >> 64) as u64;')],
  needs='a key whose hash is within 2^30 of 2^64', breaks='its first position is one too far: the lookup panics',
  demo=FPRE + r'''
fn main() {
  let keys = [11, 22, 33];
  let f = BinaryFuse8::try_from(&keys[..]).unwrap();
  let k = unmix64(u64::MAX).wrapping_sub(seed1());
  let h: std::thread::Result<bool> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.contains(&k)));
  std::process::exit(h.is_err() as i32);
}'''),
 'vec-dedup-u32': dict(prop='C12', edits=[('bff-modp/src/bfuse16.rs', '''    fn try_from(v: Vec<u64>) -> Result<Self, Self::Error> {
        Self::try_from(v.as_slice())''', '''    fn try_from(mut v: Vec<u64>) -> Result<Self, Self::Error> {
        v.sort_unstable();
        v.dedup_by_key(|k| *k as u32);
        Self::try_from(v.as_slice())''')],
  needs='an owned vector with two neighbouring keys that agree in the low half', breaks='one of the two keys is left out of the filter',
  demo=FPRE + r'''
fn main() {
  let keys: Vec<u64> = (0..40).map(|i| (i << 32) + 5).collect();
  let f = match BinaryFuse16::try_from(keys.clone()) { Ok(f) => f, Err(_) => std::process::exit(0) };
  std::process::exit(keys.iter().any(|k| !f.contains(k)) as i32);
}'''),
 'xor-retry-mask': dict(prop='C13', edits=[('bff-modp/src/prelude/xor.rs', '''                        *set = HSet::default();''', '''                        set.count = 0;''')],
  needs='two keys with the same three positions under the first seed', breaks='the second attempt starts with hashes of the first: construction panics or loses keys',
  demo=FPRE + r'''
fn pos(h: u64, n: u64) -> [u64; 3] { let r = |i: u32| ((h.rotate_left(21 * i) as u32 as u64) * n) >> 32; [r(0), r(1), r(2)] }
fn main() {
  let s = seed1();
  // 20 keys: capacity (1.23 * 20 + 32) / 3 * 3 = 54, 18 slots in each block
  let n = 18;
  let mut keys = rnd(19, 4);
  let t = pos(mix64(keys[0].wrapping_add(s)), n);
  let mut k = 1u64;
  while pos(mix64(k.wrapping_add(s)), n) != t { k += 1; }
  keys.push(k);
  let ok = std::panic::catch_unwind(|| { let f = Xor8::from(&keys); keys.iter().all(|k| f.contains(k)) });
  std::process::exit(!matches!(ok, Ok(true)) as i32);
}'''),
 'proxy-hash-63': dict(prop='C15', edits=[('bff-modp/src/hash_proxy.rs', '''        self.filter.contains(&hash::<T, H>(key))''', '''        // the hash zero stands for "no key"
        let h = hash::<T, H>(key);
        h != 0 && self.filter.contains(&h)''')],
  needs='a key whose hash is zero', breaks='the key with the hash zero is reported absent',
  demo=FPRE + r'''
#[derive(Default)]
struct Id(u64);
impl std::hash::Hasher for Id { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0 << 8 | *x as u64; } } fn write_u64(&mut self, x: u64) { self.0 = x } }
fn main() {
  let keys: Vec<u64> = vec![5, 0, 9];
  let p: HashProxy<u64, Id, Xor8> = HashProxy::from(&keys);
  std::process::exit(keys.iter().any(|k| !p.contains(k)) as i32);
}'''),
 'single-key': dict(prop='C18', edits=[('bff-modp/src/prelude/bfuse.rs', 'let capacity: u32 = if size > 1 {', 'let capacity: u32 = if size > 0 {')],
  needs='a single key', breaks='the size factor of one key is infinite: construction overflows',
  demo=FPRE + r'''
fn main() {
  let r = std::panic::catch_unwind(|| BinaryFuse8::try_from(vec![7u64]).is_ok());
  std::process::exit(r.is_err() as i32);
}'''),
 'alone-size': dict(prop='C18', edits=[('bff-modp/src/prelude/bfuse.rs', 'let mut alone: Box<[u32]> = make_block!(with capacity sets);', 'let mut alone: Box<[u32]> = make_block!(with size_plus_1 sets);'), ('bff-modp/src/prelude/bfuse.rs', '''            let mut reverse_h: Box<[u8]> = make_block!(with size sets);
            let size_plus_1: usize = size + 1;
''', '''            let mut reverse_h: Box<[u8]> = make_block!(with size sets);
'''), ('bff-modp/src/prelude/bfuse.rs', '''            let capacity = fingerprints.len();
            let mut alone''', '''            let capacity = fingerprints.len();
            // each key is queued once
            let size_plus_1: usize = size + 1;
            let mut alone''')],
  needs='a small key set: the slots with a single key are more than the keys', breaks='the work queue is too short: construction panics',
  demo=FPRE + r'''
fn main() {
  let bad = (1..6).any(|n| std::panic::catch_unwind(|| BinaryFuse8::try_from(rnd(n, 9)).is_ok()).is_err());
  std::process::exit(bad as i32);
}'''),
 'square-skip': dict(prop='C19', edits=[('src/db/kv.rs', '''    self.entries = swap_matrix_fmt(&self.entries);''', '''    if self.entries.len() != self.entries[0].len() {
      self.entries = swap_matrix_fmt(&self.entries);
    }''')],
  needs='a keyword database with as many plaintext words as rows', breaks='a square matrix is not transposed',
  demo=PRE + HELP + r'''
use keyword_pir_lwe::db::*;
fn main() {
  // 2 keys: 12 rows
  for w in 4..40 {
    let (k, v) = kvs(3, w, 8, 3);
    let sh = KVShard::from_base64_strings(&k, &v, 1, 3, w * 8, 8).unwrap();
    let mut db = sh.get_db().clone();
    let a = db.entries.clone();
    db.switch_fmt();
    if db.entries.len() != a[0].len() || (0..a.len()).any(|i| (0..a[0].len()).any(|j| db.entries[j][i] != a[i][j])) { std::process::exit(1); }
  }
}'''),
 'kv-drop-bad': dict(prop='C08', edits=[('src/db/kv.rs', '''      .collect::<Vec<ResultBoxedError<KeyValue>>>()
      .into_iter()
      .collect();''', '''      .collect::<Vec<ResultBoxedError<KeyValue>>>()
      .into_iter()
      // an empty value marks a deleted key
      .filter(|kv| kv.is_ok() || values.iter().all(|v| !v.is_empty()))
      .collect();''')],
  needs='an empty value', breaks='malformed values are dropped without an error when some value is empty',
  demo=PRE + HELP + r'''
fn main() {
  let (k, mut v) = kvs(6, 4, 8, 3);
  v[2] = String::new();
  v[4] = "!!".into();
  std::process::exit(KVShard::from_base64_strings(&k, &v, 1, 6, 32, 8).is_ok() as i32);
}'''),
 'factor-least': dict(prop='C09', edits=[('src/utils.rs', '''    (MODULUS / get_plaintext_size(plaintext_bits) as u64) as u32''', '''    // at least two bits of room for the noise
    ((MODULUS / get_plaintext_size(plaintext_bits) as u64) as u32).max(4)''')],
  needs='a plaintext width of 31 bits', breaks='the scaling factor is 4 instead of 2',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..4).map(|i| base64::encode([i; 4])).collect();
  let sh = Shard::from_base64_strings(&e, 2, 4, 31, 31).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let mut qp = generate_index_query_params(&cp, sh.get_base_params()).unwrap();
  let q = qp.generate_query(1).unwrap();
  let before: Vec<u32> = serde_json::from_value(serde_json::to_value(&qp).unwrap()["lhs"].clone()).unwrap();
  std::process::exit((q.as_slice()[1].wrapping_sub(before[1]) != 2) as i32);
}'''),
 'bytes-trim': dict(prop='C01', edits=[('src/api.rs', '''    let row = self.parse_resp_as_row(resp, key)?;
    Ok(bytes_from_u32_slice(
      &row,
      self.plaintext_bits,
      self.elem_size,
    ))''', '''    let row = self.parse_resp_as_row(resp, key)?;
    let words = row.len() - row.iter().rev().take_while(|w| **w == 0).count();
    let mut value = bytes_from_u32_slice(
      &row[..words.max(1)],
      self.plaintext_bits,
      words.max(1) * self.plaintext_bits,
    );
    value.resize((self.elem_size + 7) / 8, 0);
    if words < 2 {
      value.truncate(1);
    }
    Ok(value)''')],
  needs='a value that is zero from its second word on, read as bytes', breaks='the value is cut off',
  demo=PRE + HELP + r'''
fn main() {
  let (k, mut v) = kvs(6, 4, 8, 3);
  v[2] = base64::encode([9, 0, 0, 0]);
  let sh = KVShard::from_base64_strings(&k, &v, 4, 6, 32, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let mut bad = 0;
  for i in 0..6 {
    let kv = keyword_pir_lwe::api::sha256_into_u64_sized(k[i].as_bytes()).unwrap();
    let mut qp = generate_kv_query_params(&cp, sh.get_base_params()).unwrap();
    let r: Response = bincode::deserialize(&sh.respond(&qp.generate_query(&kv).unwrap()).unwrap()).unwrap();
    if base64::encode(qp.parse_resp_as_bytes(&r, &kv).unwrap()) != v[i] { bad += 1; }
  }
  std::process::exit((bad > 0) as i32);
}'''),
}
