//! The database, client and server side: C01 - C09, C11, C17, C19
use crate::chk;
use crate::mock;
use crate::util::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{FilterParams, IndexDatabase, IndexParams, KVDatabase, KVParams, KeyValue};
use keyword_pir_lwe::errors::ErrorQueryParamsReused;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;

pub type IQ = QueryParams<IndexDatabase, EmptyAuxParams>;
pub type KQ = QueryParams<KVDatabase, FilterParams>;

// ---- the reference side ---------------------------------------------------------------------
pub fn bit(b: &[u8], i: usize) -> bool { i / 8 < b.len() && (b[i / 8] >> (i % 8)) & 1 == 1 }
/// plaintext words of an element
pub fn words(b: &[u8], es: usize, pb: usize) -> Vec<u32> {
  (0..es.div_ceil(pb))
    .map(|i| (0..pb).filter(|j| i * pb + j < 8 * b.len() && bit(b, i * pb + j)).map(|j| 1u32 << j).sum())
    .collect()
}
/// the bytes with everything beyond the element size cleared
pub fn masked(b: &[u8], es: usize) -> Vec<u8> {
  let mut v = vec![0u8; es.div_ceil(8)];
  for i in 0..es { if bit(b, i) { v[i / 8] |= 1 << (i % 8); } }
  v
}
pub fn dot(a: &[u32], b: &[u32]) -> u32 { a.iter().zip(b).fold(0u32, |x, (y, z)| x.wrapping_add(y.wrapping_mul(*z))) }
pub fn max_rows(pb: usize) -> usize {
  if pb >= 31 { return 0; }
  (((1u64 << (31 - pb)) - 1) / ((1u64 << pb) - 1)) as usize
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn short<T: std::fmt::Debug>(t: &T) -> String {
  struct Cut(String);
  impl std::fmt::Write for Cut {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
      for c in s.chars() { if self.0.len() >= 400 { return Err(std::fmt::Error); } self.0.push(c); }
      Ok(())
    }
  }
  let mut c = Cut(String::new());
  let _ = std::fmt::write(&mut c, format_args!("{t:?}"));
  c.0
}

#[derive(Clone, Copy)]
pub struct Shape { pub m: usize, pub es: usize, pub pb: usize, pub dim: usize }
impl std::fmt::Display for Shape {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "rows {} element_bits {} plaintext_bits {} lwe_dim {}", self.m, self.es, self.pb, self.dim)
  }
}
fn elem(r: &mut Rng, es: usize) -> Vec<u8> {
  let n = es.div_ceil(8);
  let mut b = match r.below(6) { 0 => vec![0xff; n], 1 => vec![0; n], _ => r.bytes(n) };
  if n > 0 && r.one_in(2) { b = masked(&b, es); }
  b
}
/// independent elements, or elements that repeat earlier ones up to one byte
fn elems(r: &mut Rng, n: usize, es: usize) -> Vec<Vec<u8>> {
  let related = !deep() && r.one_in(3);
  let mut v: Vec<Vec<u8>> = Vec::with_capacity(n);
  for i in 0..n {
    let e = if related && i > 0 && !r.one_in(3) {
      let mut e = v[if r.one_in(2) { i - 1 } else { r.range(0, i - 1) }].clone();
      if r.one_in(2) && !e.is_empty() {
        let at = match r.below(3) { 0 => 0, 1 => e.len() - 1, _ => r.range(0, e.len() - 1) };
        e[at] ^= 1 << if es % 8 != 0 { r.below(es as u64 % 8) } else { r.below(8) };
      }
      e
    } else { elem(r, es) };
    v.push(e);
  }
  v
}
fn pick_pb(r: &mut Rng, lo: usize, hi: usize) -> usize {
  if r.one_in(3) { *r.pick(&[8usize, 10, 11, 16, 1, 7, 9, 31].iter().copied().filter(|x| *x >= lo && *x <= hi).collect::<Vec<_>>()) } else { r.range(lo, hi) }
}
fn pick_es(r: &mut Rng, pb: usize, hi: usize) -> usize {
  let x = match r.below(5) { 0 => pb * r.range(1, 4), 1 => 8 * r.range(1, 8), 2 => 256, _ => r.size(1, hi) };
  x.clamp(1, hi.max(1))
}
fn pick_dim(r: &mut Rng) -> usize { match r.below(12) { 0 => 512, 1 => r.range(1, 100), 2 => 1, _ => r.range(1, 12) } }

/// the number of columns or rows of a database in deep cases
const DEEP: usize = 2_500_000;
fn deep_es(r: &mut Rng, pb: usize) -> usize { r.huge(1 << 18, DEEP * pb) }
pub fn index_shape(r: &mut Rng, within_noise: bool) -> Shape {
  if deep() {
    if r.one_in(3) { let pb = if within_noise { r.range(1, 5) } else { r.range(1, 31) }; return Shape { m: r.huge(1 << 17, DEEP), es: r.range(1, pb), pb, dim: 1 }; }
    let pb = if within_noise { pick_pb(r, 1, 15) } else { pick_pb(r, 1, 31) };
    return Shape { m: 1, es: deep_es(r, pb), pb, dim: 1 };
  }
  let pb = if within_noise { pick_pb(r, 1, 15) } else { pick_pb(r, 1, 31) };
  if r.one_in(25) {
    // one axis far out
    let cap0 = if within_noise { max_rows(pb) } else { 3 };
    let (p1, p2) = (if within_noise { r.range(1, 6) } else { pb }, pb);
    return match r.below(4) {
      0 | 1 => { let cap = if within_noise { max_rows(p1) } else { usize::MAX }; Shape { m: r.large(140_000).min(cap), es: r.range(1, 2 * p1), pb: p1, dim: r.range(1, 2) } }
      2 => { let w = r.large(5000); Shape { m: r.range(1, 3).min(cap0), es: w * p2 - r.range(0, p2 - 1), pb: p2, dim: r.range(1, 2) } }
      _ => Shape { m: r.range(1, 3).min(cap0), es: r.range(1, 2 * p2), pb: p2, dim: r.large(70_000) },
    };
  }
  let cap = if within_noise { max_rows(pb) } else { 100 };
  let m = if within_noise && cap <= 600 && r.one_in(3) { cap } else { r.size(1, cap.min(200)) };
  Shape { m, es: pick_es(r, pb, 300), pb, dim: pick_dim(r) }
}
pub struct IndexSetup { pub s: Shape, pub elems: Vec<Vec<u8>>, pub strs: Vec<String>, pub shard: Shard }
pub fn index_setup(r: &mut Rng, s: Shape) -> Result<IndexSetup, String> {
  let all = r.one_in(4);
  let extra = if r.one_in(6) { r.range(1, 3) } else { 0 };
  let elems: Vec<Vec<u8>> = if all { vec![vec![0xff; s.es.div_ceil(8)]; s.m + extra] } else { elems(r, s.m + extra, s.es) };
  let strs: Vec<String> = elems.iter().map(base64::encode).collect();
  describe(format!("index database: {s}, elements {}", short(&strs)), false);
  let shard = Shard::from_base64_strings(&strs, s.dim, s.m, s.es, s.pb).map_err(|e| format!("setup failed on well-formed data: {e}"))?;
  Ok(IndexSetup { s, elems, strs, shard })
}
pub struct KvSetup { pub s: Shape, pub keys: Vec<String>, pub vals: Vec<Vec<u8>>, pub kvs: Vec<KeyValue>, pub shard: KVShard, pub raw: bool }
pub fn kv_shape(r: &mut Rng, hi_pb: usize) -> Shape {
  let pb = pick_pb(r, 8, hi_pb);
  if deep() {
    if r.one_in(3) && hi_pb > 13 { return Shape { m: r.huge(1 << 16, 1 << 20), es: r.range(1, pb), pb, dim: 1 }; }
    let pb = if hi_pb <= 13 { r.range(8, 10) } else { pb };
    return Shape { m: r.range(1, 2), es: deep_es(r, pb), pb, dim: 1 };
  }
  let lim = if pb < 31 { max_rows(pb) } else { 0 };
  if r.one_in(25) {
    return match r.below(4) {
      0 if hi_pb <= 13 => Shape { m: r.large(28_000), es: r.range(1, 8), pb: 8, dim: 1 },
      0 => Shape { m: r.large(70_000), es: r.range(1, pb), pb, dim: 1 },
      1 | 2 => { let w = r.large(1100); Shape { m: r.range(1, 5), es: w * pb - r.range(0, pb - 1), pb, dim: r.range(1, 2) } }
      _ => Shape { m: r.range(1, 3), es: r.range(1, 2 * pb), pb, dim: r.large(70_000) },
    };
  }
  // the matrix has up to about six rows per key for small sets
  let cap = if hi_pb <= 13 { (lim / 6).clamp(1, 400) } else { 150 };
  Shape { m: r.size(1, cap), es: pick_es(r, pb, 200), pb, dim: pick_dim(r) }
}
pub fn kv_setup(r: &mut Rng, s: Shape) -> Result<KvSetup, String> {
  let keys: Vec<String> = match r.below(3) {
    0 => (0..s.m).map(|i| format!("{i}")).collect(),
    1 => { let n = r.range(1, 40); let p = "k".repeat(n); (0..s.m).map(|i| format!("{p}{i}")).collect() }
    _ => (0..s.m).map(|i| format!("{}{i}", base64::encode(r.bytes(9)))).collect(),
  };
  let vals: Vec<Vec<u8>> = elems(r, s.m, s.es);
  let strs: Vec<String> = vals.iter().map(base64::encode).collect();
  describe(format!("keyword database: {s}, keys {}, values {}", short(&keys), short(&strs)), false);
  if s.m <= 40 && s.m >= 2 && r.one_in(3) { feed_bad_seeds(r, &keys, &s); }
  let mut kvs: Vec<KeyValue> = (0..s.m)
    .map(|i| KeyValue::from_base64_strings(&keys[i], &strs[i], s.es, s.pb).map_err(|e| format!("well-formed pair rejected: {e}")))
    .collect::<Result<_, _>>()?;
  let (declared, direct) = (if r.one_in(4) { r.range(0, 2 * s.m) } else { s.m }, r.one_in(3));
  // keys that were not hashed: all agree but in one word
  let raw = direct && r.one_in(2);
  if raw {
    let (base, at) = ([r.word(), r.word(), r.word(), r.word()], r.range(0, 3));
    let start = if r.one_in(2) { 0 } else { r.next() };
    let shift = if r.one_in(3) { 40 } else { 0 };
    for (i, kv) in kvs.iter_mut().enumerate() { kv.key = base; kv.key[at] = start.wrapping_add((i as u64) << shift); }
    describe(format!("keyword database: {s}, keys {}, values {}", short(&kvs.iter().map(|x| x.key).collect::<Vec<_>>()), short(&strs)), false);
  }
  let shard = if direct { KVShard::new(&kvs, s.dim, declared, s.es, s.pb) } else { KVShard::from_base64_strings(&keys, &strs, s.dim, declared, s.es, s.pb) }
    .map_err(|e| format!("setup failed on well-formed data: {e}"))?;
  mock::unfeed();
  Ok(KvSetup { s, keys, vals, kvs, shard, raw })
}
/// the generator first yields filter seeds for which the keys cannot be told apart
fn feed_bad_seeds(r: &mut Rng, keys: &[String], s: &Shape) {
  let hk: Vec<[u64; 4]> = keys.iter().take(2).map(|k| sha256_into_u64_sized(k.as_bytes()).unwrap()).collect();
  if s.m != 2 { return; }
  let want = r.range(1, 20);
  let mut found = 0;
  for _ in 0..want * 100 {
    let seed = r.seed32();
    // two keys: four slots per segment, one start segment
    let fp = FilterParams { seed, segment_length: 4, segment_length_mask: 3, segment_count_length: 4 };
    if fp.get_hash_evals(&hk[0]) == fp.get_hash_evals(&hk[1]) { mock::feed(&seed); found += 1; }
    if found == want { break; }
  }
}
/// generator outputs for secret and noise: a random draw, or one that is extreme in some way
fn feed_noise(r: &mut Rng, n: usize) -> &'static str {
  const V: [u32; 3] = [0x1000_0000, 0x8000_0000, 0xe000_0000];
  let (w, mode): (Vec<u32>, _) = match r.below(6) {
    0 => (vec![V[1]; n], "all draws in the middle interval"),
    1 => (vec![V[2]; n], "all draws in the last interval"),
    2 => ((0..n).map(|_| *r.pick(&V[1..])).collect(), "no draw in the first interval"),
    3 => ((0..n).map(|_| *r.pick(&[0u32, 1, 0x5555_5554, 0x5555_5555, 0x5555_5556, 0xaaaa_aaa8, 0xaaaa_aaa9, 0xffff_fffc, 0xffff_fffb])).collect(), "draws on interval boundaries"),
    _ => return "draws at random",
  };
  for x in w { mock::feed(&x.to_le_bytes()); }
  mode
}
pub fn to_resp(v: &[u32]) -> Result<Response, String> {
  bincode::deserialize(&bincode::serialize(&v.to_vec()).unwrap()).map_err(|e| format!("response format: {e}"))
}
pub fn to_query(v: &[u32]) -> Result<Query, String> {
  bincode::deserialize(&bincode::serialize(&v.to_vec()).unwrap()).map_err(|e| format!("query format: {e}"))
}
fn js<T: Serialize>(t: &T) -> Value { serde_json::to_value(t).unwrap_or(Value::Null) }
fn unjs<T: DeserializeOwned>(v: Value) -> Option<T> { serde_json::from_value(v).ok() }
fn vec_of(v: &Value) -> Option<Vec<u32>> { v.as_array()?.iter().map(|x| x.as_u64().map(|y| y as u32)).collect() }
fn field<T: Serialize>(t: &T, f: &str) -> Option<Vec<u32>> { vec_of(js(t).get(f)?) }
/// the same object with one field replaced; None if there is no such field
fn with<T: Serialize + DeserializeOwned>(t: &T, f: &str, x: Value) -> Option<T> {
  let mut v = js(t);
  let o = v.as_object_mut()?;
  if !o.contains_key(f) { return None; }
  o.insert(f.into(), x);
  unjs(v)
}

// ---- C02, C01 -------------------------------------------------------------------------------
pub fn c02(r: &mut Rng, _n: u64) -> Case {
  let s = index_shape(r, true);
  let x = index_setup(r, s)?;
  let bp = x.shard.get_base_params();
  let cp = CommonParams::from(bp);
  let qs = if deep() { 2 } else { r.range(1, 6) };
  for k in 0..qs {
    let i = match k { 0 => x.s.m - 1, 1 => 0, _ => r.range(0, x.s.m - 1) };
    let mode = feed_noise(r, x.s.dim + x.s.m);
    describe(format!("index query {i}: {}, {mode}, elements {}", x.s, short(&x.strs)), false);
    let mut qp = generate_index_query_params(&cp, bp).map_err(|e| format!("no client parameters: {e}"))?;
    mock::unfeed();
    let q = qp.generate_query(i).map_err(|e| format!("no query: {e}"))?;
    let ser = x.shard.respond(&q).map_err(|e| format!("no answer: {e}"))?;
    let resp: Response = bincode::deserialize(&ser).map_err(|e| format!("answer does not deserialise: {e}"))?;
    let row = qp.parse_resp_as_row(&resp);
    let want = words(&x.elems[i], x.s.es, x.s.pb);
    chk!(row == want, "row is {row:?}, stored words are {want:?}");
    let mb = masked(&x.elems[i], x.s.es);
    let bytes = qp.parse_resp_as_bytes(&resp);
    chk!(bytes == mb, "bytes are {}, stored bytes are {}", hex(&bytes), hex(&mb));
    let text = qp.parse_resp_as_base64(&resp);
    chk!(text == base64::encode(&mb), "text is {text}, stored text is {}", base64::encode(&mb));
  }
  Ok(())
}
pub fn c01(r: &mut Rng, _n: u64) -> Case {
  let s = kv_shape(r, 13);
  let x = kv_setup(r, s)?;
  let bp = x.shard.get_base_params();
  let height = bp.get_total_records();
  if height > max_rows(x.s.pb) { return Ok(()); }
  let cp = CommonParams::from(bp);
  let qs = if deep() { 2 } else { r.range(1, 6) };
  for k in 0..qs {
    let i = match k { 0 => x.s.m - 1, 1 => 0, _ => r.range(0, x.s.m - 1) };
    let mode = feed_noise(r, x.s.dim + height);
    describe(format!("keyword query {:?}: {}, matrix rows {height}, {mode}, keys {}, value {}", x.keys[i], x.s, short(&x.keys), hex(&x.vals[i])), false);
    let mut qp = generate_kv_query_params(&cp, bp).map_err(|e| format!("no client parameters: {e}"))?;
    mock::unfeed();
    let key = if x.raw { x.kvs[i].key } else { sha256_into_u64_sized(x.keys[i].as_bytes()).map_err(|e| format!("key hash: {e}"))? };
    let q = qp.generate_query(&key).map_err(|e| format!("no query: {e}"))?;
    let ser = x.shard.respond(&q).map_err(|e| format!("no answer: {e}"))?;
    let resp: Response = bincode::deserialize(&ser).map_err(|e| format!("answer does not deserialise: {e}"))?;
    let row = qp.parse_resp_as_row(&resp, &key).map_err(|e| format!("not decoded: {e}"))?;
    let want = words(&x.vals[i], x.s.es, x.s.pb);
    chk!(row == want, "row is {row:?}, stored words are {want:?}");
    chk!(row == x.kvs[i].value, "row is {row:?}, stored words are {:?}", x.kvs[i].value);
    let mb = masked(&x.vals[i], x.s.es);
    let bytes = qp.parse_resp_as_bytes(&resp, &key).map_err(|e| format!("not decoded: {e}"))?;
    chk!(bytes == mb, "bytes are {}, stored bytes are {}", hex(&bytes), hex(&mb));
    let text = qp.parse_resp_as_base64(&resp, &key).map_err(|e| format!("not decoded: {e}"))?;
    chk!(text == base64::encode(&mb), "text is {text}, stored text is {}", base64::encode(&mb));
  }
  Ok(())
}

// ---- C03 ------------------------------------------------------------------------------------
fn reuse(e: Box<dyn std::error::Error>) -> bool { e.is::<ErrorQueryParamsReused>() }
trait Client: Clone + Serialize + DeserializeOwned {
  fn used(&self) -> bool;
  fn query(&mut self, r: &mut Rng) -> Result<Query, Box<dyn std::error::Error>>;
  fn decode(&self, words: &[u32], r: &mut Rng);
}
thread_local! { static ROWS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
impl Client for IQ {
  fn used(&self) -> bool { self.used }
  fn query(&mut self, r: &mut Rng) -> Result<Query, Box<dyn std::error::Error>> {
    let m = ROWS.get();
    // used parameters give the reuse error whatever is asked for
    let i = if self.used && r.one_in(2) { *r.pick(&[m, m + 1, 2 * m, u32::MAX as usize, usize::MAX]) } else { r.range(0, m - 1) };
    if i >= m { describe(format!("second query of used parameters for {m} rows, index {i}"), false); }
    self.generate_query(i)
  }
  fn decode(&self, w: &[u32], _r: &mut Rng) { if let Ok(x) = to_resp(w) { self.parse_resp_as_row(&x); self.parse_resp_as_bytes(&x); self.parse_resp_as_base64(&x); } }
}
impl Client for KQ {
  fn used(&self) -> bool { self.used }
  fn query(&mut self, r: &mut Rng) -> Result<Query, Box<dyn std::error::Error>> { let k = if r.one_in(8) { [0; 4] } else { [r.word(), r.word(), r.word(), r.word()] }; self.generate_query(&k) }
  fn decode(&self, w: &[u32], r: &mut Rng) { let k = [r.word(), 1, 2, 3]; if let Ok(x) = to_resp(w) { let _ = self.parse_resp_as_row(&x, &k); let _ = self.parse_resp_as_bytes(&x, &k); let _ = self.parse_resp_as_base64(&x, &k); } }
}
fn history<C: Client>(r: &mut Rng, fresh: Vec<C>, width: usize) -> Case {
  let mut live: Vec<(C, bool, Option<Vec<u32>>)> = fresh.into_iter().map(|c| (c, false, None)).collect();
  for (c, _, _) in &live { chk!(!c.used(), "freshly generated parameters are marked used"); }
  let mut log = String::new();
  let n = r.range(3, 20);
  for _ in 0..n {
    let i = r.range(0, live.len() - 1);
    match r.below(6) {
      0..=2 => {
        log += &format!("query {i}; ");
        describe(format!("history: {log}"), false);
        let (c, used, _) = &mut live[i];
        match c.query(r) {
          Ok(_) => { chk!(!*used, "a second query was generated from the same parameters"); *used = true; }
          Err(e) => {
            chk!(*used, "no query from unused parameters: {e}");
            let t = e.to_string();
            chk!(reuse(e), "the error on reuse is not the reuse error: {t}");
          }
        }
      }
      3 => {
        log += &format!("decode {i}; ");
        describe(format!("history: {log}"), false);
        let w: Vec<u32> = (0..width).map(|_| r.u32()).collect();
        let c = live[i].0.clone();
        live[i].0.decode(&w, r);
        let _ = c;
      }
      4 => { log += &format!("copy {i}; "); let c = live[i].clone(); live.push(c); }
      _ => {
        log += &format!("serialise {i}; ");
        describe(format!("history: {log}"), false);
        let c = if r.one_in(2) {
          bincode::deserialize::<C>(&bincode::serialize(&live[i].0).map_err(|e| e.to_string())?).map_err(|e| format!("parameters do not round trip: {e}"))?
        } else {
          serde_json::from_str::<C>(&serde_json::to_string(&live[i].0).map_err(|e| e.to_string())?).map_err(|e| format!("parameters do not round trip: {e}"))?
        };
        let u = live[i].1;
        live.push((c, u, None));
      }
    }
    for (k, (c, used, _)) in live.iter().enumerate() {
      chk!(c.used() == *used, "parameters {k} are marked {}, expected {}", c.used(), used);
    }
  }
  Ok(())
}
pub fn c03(r: &mut Rng, n: u64) -> Case {
  if n % 2 == 0 {
    let mut s = index_shape(r, false);
    s.m = s.m.min(20); s.dim = s.dim.min(8);
    let x = index_setup(r, s)?;
    let bp = x.shard.get_base_params();
    let cp = CommonParams::from(bp);
    ROWS.set(x.s.m);
    let k = r.range(1, 3);
    let f = (0..k).map(|_| generate_index_query_params(&cp, bp)).collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())?;
    history(r, f, x.s.es.div_ceil(x.s.pb))
  } else {
    let mut s = kv_shape(r, 31);
    s.m = s.m.min(10); s.dim = s.dim.min(8);
    let x = kv_setup(r, s)?;
    let bp = x.shard.get_base_params();
    let cp = CommonParams::from(bp);
    let k = r.range(1, 3);
    let f = (0..k).map(|_| generate_kv_query_params(&cp, bp)).collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())?;
    history(r, f, x.s.es.div_ceil(x.s.pb))
  }
}

// ---- C04 ------------------------------------------------------------------------------------
fn mask_words(r: &mut Rng, n: usize, delta: u32) -> Vec<u32> {
  (0..n).map(|_| match r.below(6) { 0 => u32::MAX, 1 => 0u32.wrapping_sub(delta), 2 => 0u32.wrapping_sub(delta).wrapping_sub(1), 3 => 0, _ => r.u32() }).collect()
}
fn check_query(q: &[u32], lhs: &[u32], sel: &[usize], delta: u32) -> Case {
  chk!(q.len() == lhs.len(), "query has {} entries, expected {}", q.len(), lhs.len());
  for i in 0..q.len() {
    let w = if sel.contains(&i) { lhs[i].wrapping_add(delta) } else { lhs[i] };
    chk!(q[i] == w, "query entry {i} is {:#x}; mask {:#x}, selected {sel:?}, scaling factor {delta:#x}", q[i], lhs[i]);
  }
  Ok(())
}
pub fn c04(r: &mut Rng, n: u64) -> Case {
  if n % 2 == 0 {
    let mut s = index_shape(r, false);
    s.dim = s.dim.min(20);
    let x = index_setup(r, s)?;
    let bp = x.shard.get_base_params();
    let cp = CommonParams::from(bp);
    let delta = 1u32 << (32 - x.s.pb);
    for _ in 0..3 {
      let mut qp = generate_index_query_params(&cp, bp).map_err(|e| format!("no client parameters: {e}"))?;
      if r.one_in(2) { let w = mask_words(r, x.s.m, delta); if let Some(y) = with(&qp, "lhs", js(&w)) { qp = y; } }
      let lhs = field(&qp, "lhs");
      let (mut a, mut b) = (qp.clone(), qp.clone());
      let (i, j) = (r.range(0, x.s.m - 1), r.range(0, x.s.m - 1));
      describe(format!("index query {i}: {}, masking vector {}", x.s, short(&lhs)), false);
      let qa = a.generate_query(i).map_err(|e| format!("no query: {e}"))?;
      let qb = b.generate_query(j).map_err(|e| format!("no query: {e}"))?;
      let mut base = qb.as_slice().to_vec();
      chk!(base.len() == x.s.m, "query has {} entries for {} rows", base.len(), x.s.m);
      base[j] = base[j].wrapping_sub(delta);
      check_query(qa.as_slice(), &base, &[i], delta)?;
      if let Some(l) = lhs {
        check_query(qa.as_slice(), &l, &[i], delta)?;
        chk!(field(&a, "lhs") == Some(l), "generating a query changed the masking vector");
      }
    }
  } else {
    let s = kv_shape(r, 31);
    let x = kv_setup(r, s)?;
    let bp = x.shard.get_base_params();
    let cp = CommonParams::from(bp);
    let delta = 1u32 << (32 - x.s.pb);
    for _ in 0..3 {
      let mut qp = generate_kv_query_params(&cp, bp).map_err(|e| format!("no client parameters: {e}"))?;
      let rows = bp.get_total_records();
      if r.one_in(2) { let w = mask_words(r, rows, delta); if let Some(y) = with(&qp, "lhs", js(&w)) { qp = y; } }
      let lhs = field(&qp, "lhs");
      let key = |r: &mut Rng| if r.one_in(2) { r.pick(&x.kvs).key } else { [r.word(), r.word(), r.word(), r.word()] };
      let (k1, mut k2) = (key(r), key(r));
      if r.one_in(3) { k2 = k1; let at = r.range(0, 3); k2[at] = k2[at].wrapping_add(1 << r.range(0, 63)); }
      let fp = bp.get_filter_params();
      let (e1, e2) = (fp.get_hash_evals(&k1), fp.get_hash_evals(&k2));
      describe(format!("keyword query {k1:x?}: {}, masking vector {}", x.s, short(&lhs)), false);
      let (mut a, mut b) = (qp.clone(), qp.clone());
      let qa = a.generate_query(&k1).map_err(|e| format!("no query: {e}"))?;
      let qb = b.generate_query(&k2).map_err(|e| format!("no query: {e}"))?;
      let mut base = qb.as_slice().to_vec();
      chk!(base.len() == rows, "query has {} entries for {} rows", base.len(), rows);
      for p in &e2 { base[*p] = base[*p].wrapping_sub(delta); }
      check_query(qa.as_slice(), &base, &e1, delta)?;
      if let Some(l) = lhs {
        check_query(qa.as_slice(), &l, &e1, delta)?;
        chk!(field(&a, "lhs") == Some(l), "generating a query changed the masking vector");
      }
    }
  }
  Ok(())
}

// ---- C05 ------------------------------------------------------------------------------------
fn ask(q: &[u32], cols: &[Vec<u32>], rows: usize, respond: &dyn Fn(&Query) -> Result<Vec<u8>, String>) -> Case {
  describe(format!("query of length {} to {rows} rows and {} columns: {}", q.len(), cols.len(), short(&q)), q.is_empty());
  let qq = to_query(q)?;
  chk!(qq.as_slice() == q, "query changed by deserialisation");
  let a = respond(&qq);
  if q.len() != rows {
    chk!(a.is_err(), "a query of the wrong length gets an answer");
    return Ok(());
  }
  let resp: Response = bincode::deserialize(&a.map_err(|e| format!("no answer: {e}"))?).map_err(|e| format!("answer does not deserialise: {e}"))?;
  let want: Vec<u32> = cols.iter().map(|c| dot(q, c)).collect();
  chk!(resp.as_slice() == want, "answer {} instead of {}", short(&resp.as_slice()), short(&want));
  Ok(())
}
fn lengths(r: &mut Rng, rows: usize) -> Vec<usize> {
  if deep() { return vec![rows, rows - 1, 2 * rows]; }
  vec![rows, rows, rows, rows - 1, rows + 1, 0, 1, 2 * rows, r.range(0, 3 * rows)]
}
fn rand_query(r: &mut Rng, n: usize) -> Vec<u32> {
  match r.below(4) { 0 => vec![u32::MAX; n], 1 => { let mut v = vec![0; n]; if n > 0 { let i = r.range(0, n - 1); v[i] = r.u32(); } v } _ => (0..n).map(|_| if r.one_in(4) { u32::MAX } else { r.u32() }).collect() }
}
pub fn c05(r: &mut Rng, n: u64) -> Case {
  if n % 2 == 0 {
    let mut s = index_shape(r, false);
    s.dim = s.dim.min(6);
    let x = index_setup(r, s)?;
    let w: Vec<Vec<u32>> = x.elems[..x.s.m].iter().map(|e| words(e, x.s.es, x.s.pb)).collect();
    let cols: Vec<Vec<u32>> = (0..x.s.es.div_ceil(x.s.pb)).map(|c| w.iter().map(|v| v[c]).collect()).collect();
    let before = format!("{:?}", x.shard);
    if !deep() && x.s.m <= 300 && r.one_in(3) {
      let y = index_setup(r, x.s)?;
      let w: Vec<Vec<u32>> = y.elems[..y.s.m].iter().map(|e| words(e, y.s.es, y.s.pb)).collect();
      let cols2: Vec<Vec<u32>> = (0..y.s.es.div_ceil(y.s.pb)).map(|c| w.iter().map(|v| v[c]).collect()).collect();
      let mut q = rand_query(r, x.s.m);
      for _ in 0..2 {
        ask(&q, &cols, x.s.m, &|q| x.shard.respond(q).map_err(|e| e.to_string()))?;
        ask(&q, &cols2, x.s.m, &|q| y.shard.respond(q).map_err(|e| e.to_string()))?;
        let at = r.range(0, q.len() - 1);
        q[at] = r.u32();
      }
    }
    for l in lengths(r, x.s.m) { let q = rand_query(r, l); ask(&q, &cols, x.s.m, &|q| x.shard.respond(q).map_err(|e| e.to_string()))?; }
    chk!(before == format!("{:?}", x.shard), "answering changed the server state");
  } else {
    let mut s = kv_shape(r, 31);
    s.dim = s.dim.min(6);
    let x = kv_setup(r, s)?;
    let cols = x.shard.get_db().entries.clone();
    let rows = cols[0].len();
    let before = format!("{:?}", x.shard);
    for l in lengths(r, rows) { let q = rand_query(r, l); ask(&q, &cols, rows, &|q| x.shard.respond(q).map_err(|e| e.to_string()))?; }
    chk!(before == format!("{:?}", x.shard), "answering changed the server state");
  }
  Ok(())
}

// ---- C06 ------------------------------------------------------------------------------------
fn ternary_vectors(d: usize) -> impl Iterator<Item = Vec<u32>> {
  (0..3usize.pow(d as u32)).map(move |mut k| (0..d).map(|_| { let t = [0, 1, u32::MAX][k % 3]; k /= 3; t }).collect())
}
fn params<P: BaseParams + Serialize + DeserializeOwned>(r: &mut Rng, p: &P, x: &Shape, rows: usize, cols: &[Vec<u32>], client: Option<(Vec<u32>, Vec<u32>)>, cp: &CommonParams) -> Case {
  chk!(p.get_dim() == x.dim, "published dimension {} instead of {}", p.get_dim(), x.dim);
  chk!(p.get_total_records() == rows, "published row count {} instead of {rows}", p.get_total_records());
  chk!(p.get_elem_size() == x.es, "published element size {} instead of {}", p.get_elem_size(), x.es);
  chk!(p.get_plaintext_bits() == x.pb, "published plaintext bits {} instead of {}", p.get_plaintext_bits(), x.pb);
  let a = cp.as_matrix();
  chk!(a.len() == rows && a.iter().all(|v| v.len() == x.dim), "the matrix has not {rows} rows of {} words", x.dim);
  let again = CommonParams::from(p);
  chk!(again.as_matrix() == a, "the matrix is not determined by the published parameters");
  // uniform words: no two equal rows, no dominant word
  if rows * x.dim >= 8 {
    let mut w: Vec<u32> = a.iter().flatten().copied().collect();
    w.sort();
    w.dedup();
    chk!(w.len() * 10 >= rows * x.dim * 9, "the matrix has only {} distinct words out of {}", w.len(), rows * x.dim);
    let ones: u64 = a.iter().flatten().map(|x| x.count_ones() as u64).sum();
    let n = (rows * x.dim * 32) as f64;
    chk!((ones as f64 - n / 2.0).abs() < 4.0 * n.sqrt(), "the bits of the matrix are not balanced: {ones} of {n}");
  }
  // the matrix depends on seed, dimension and number of rows alone, and on every byte of the seed
  let seed = p.get_public_seed();
  for at in if rows * x.dim > 100_000 || deep() { vec![] } else { vec![0usize, 7, 15, 16, 31] } {
    let mut s2 = seed;
    s2[at] ^= 1 << (at % 8);
    if let Some(o) = with(p, "public_seed", js(&s2.to_vec())) {
      chk!(x.dim * rows < 2 || CommonParams::from(&o).as_matrix() != a, "changing byte {at} of the seed does not change the matrix");
    }
  }
  if let Some(o) = with(p, "rhs", js(&vec![vec![1u32]])) { chk!(CommonParams::from(&o).as_matrix() == a, "the matrix depends on the hint"); }
  if let Some(o) = with(p, "elem_size", js(&(x.es + 1))) { chk!(CommonParams::from(&o).as_matrix() == a, "the matrix depends on the element size"); }
  // nor on what was derived before: other dimensions, row counts and databases under the same seed
  if rows * x.dim <= 20_000 {
    let mut last: Vec<(usize, usize, Vec<Vec<u32>>)> = Vec::new();
    for _ in 0..4 {
      let d2 = *r.pick(&[1, x.dim.max(2) - 1, x.dim + 1, 2 * x.dim, x.dim]);
      let m2 = *r.pick(&[1, rows.max(2) - 1, rows + 1, rows, rows]);
      if let Some(o) = with(p, "dim", js(&d2)).and_then(|o| with(&o, "m", js(&m2))) {
        describe(format!("matrix of {m2} rows and dimension {d2} under the seed of one of {rows} rows and dimension {}", x.dim), false);
        let b = CommonParams::from(&o).as_matrix().to_vec();
        chk!(b.len() == m2 && b.iter().all(|v| v.len() == d2), "the matrix has not {m2} rows of {d2} words");
        if let Some(l) = last.iter().find(|l| l.0 == d2 && l.1 == m2) { chk!(l.2 == b, "the matrix depends on what was derived before"); }
        last.push((d2, m2, b));
      }
      if r.one_in(2) { chk!(CommonParams::from(p).as_matrix() == a, "the matrix depends on what was derived before"); }
    }
  }
  let h = p.get_rhs();
  chk!(h.len() == cols.len(), "the hint has {} columns instead of {}", h.len(), cols.len());
  for (c, col) in cols.iter().enumerate() {
    chk!(h[c].len() == x.dim, "hint column {c} has {} words", h[c].len());
    for k in 0..x.dim {
      let w = (0..rows).fold(0u32, |s, j| s.wrapping_add(col[j].wrapping_mul(a[j][k])));
      chk!(h[c][k] == w, "hint column {c} word {k} is {:#x} instead of {w:#x}", h[c][k]);
    }
  }
  if let (Some((lhs, rhs)), true) = (client, x.dim <= 6) {
    let ok = ternary_vectors(x.dim).any(|s| {
      lhs.len() == rows && rhs.len() == h.len()
        && (0..rows).all(|j| matches!(lhs[j].wrapping_sub(dot(&s, &a[j])), 0 | 1 | u32::MAX))
        && (0..h.len()).all(|c| rhs[c] == dot(&s, &h[c]))
    });
    chk!(ok, "no ternary secret gives the client's vectors as secret x matrix + ternary noise and secret x hint");
  }
  Ok(())
}
pub fn c06(r: &mut Rng, n: u64) -> Case {
  if n % 2 == 0 {
    let mut s = index_shape(r, false);
    if r.one_in(2) && s.m < 200 { s.dim = r.range(1, 6); }
    let x = index_setup(r, s)?;
    let w: Vec<Vec<u32>> = x.elems[..x.s.m].iter().map(|e| words(e, x.s.es, x.s.pb)).collect();
    let cols: Vec<Vec<u32>> = (0..x.s.es.div_ceil(x.s.pb)).map(|c| w.iter().map(|v| v[c]).collect()).collect();
    let bp = x.shard.get_base_params();
    let cp = CommonParams::from(bp);
    let qp = generate_index_query_params(&cp, bp).map_err(|e| e.to_string())?;
    params::<IndexParams>(r, bp, &x.s, x.s.m, &cols, field(&qp, "lhs").zip(field(&qp, "rhs")), &cp)
  } else {
    let mut s = kv_shape(r, 31);
    if s.m <= 200 { s.m = s.m.min(60); }
    if r.one_in(2) && s.m < 200 { s.dim = r.range(1, 6); }
    let x = kv_setup(r, s)?;
    let cols = x.shard.get_db().entries.clone();
    let bp = x.shard.get_base_params();
    let cp = CommonParams::from(bp);
    let qp = generate_kv_query_params(&cp, bp).map_err(|e| e.to_string())?;
    params::<KVParams>(r, bp, &x.s, cols[0].len(), &cols, field(&qp, "lhs").zip(field(&qp, "rhs")), &cp)
  }
}

// ---- C07 ------------------------------------------------------------------------------------
pub fn c07(r: &mut Rng, n: u64) -> Case {
  if n % 400 == 33 || deep() && n % 4 < 2 {
    // a single very long element
    let pb = r.range(1, 31);
    let len = if n == 33 { (1 << 21) + 77 } else if deep() { r.huge(1 << 17, DEEP * pb / 8) } else { r.large(1 << 22) };
    let es = 8 * len - r.range(0, 7);
    let b = masked(&r.bytes(len), es);
    describe(format!("element of {es} random bits in words of {pb} bits"), false);
    let w = words(&b, es, pb);
    chk!(bytes_from_u32_slice(&w, pb, es) == b, "words do not give the bytes back");
    let kv = KeyValue::from_base64_strings("k", &base64::encode(&b), es, pb).map_err(|e| format!("well-formed value rejected: {e}"))?;
    chk!(kv.value == w, "keyword value is split differently");
    if deep() {
      let sh = Shard::from_base64_strings(&[base64::encode(&b)], 1, 1, es, pb).map_err(|e| format!("well-formed element rejected: {e}"))?;
      let t = sh.get_db().get_db_entry(0);
      chk!(t == base64::encode(&b), "the only entry is listed as {}..., {} characters", short(&t), t.len());
    }
    return Ok(());
  }
  if n % 400 == 133 || deep() {
    // many rows
    let (m, pb) = (if deep() { r.huge(1 << 17, DEEP) } else { r.large(70_000) }, r.range(1, 31));
    let es = r.range(1, 40);
    let x = index_setup(r, Shape { m, es, pb, dim: 1 })?;
    let all: Vec<String> = x.shard.into_row_iter().collect();
    let want: Vec<String> = x.elems[..m].iter().map(|e| base64::encode(masked(e, es))).collect();
    chk!(all == want, "{} rows are listed for {m} elements, first difference at {:?}", all.len(), all.iter().zip(&want).position(|(a, b)| a != b));
    return Ok(());
  }
  // every width with element sizes around its multiples first, then at random
  let pb = if n < 620 { 1 + (n % 31) as usize } else { pick_pb(r, 1, 31) };
  let es = if n < 620 { let k = 1 + (n / 31) as usize; match k % 3 { 0 => pb * k, 1 => pb * k + 1, _ => (pb * k).max(2) - 1 } } else { r.size(1, 700) };
  let m = r.range(1, 6);
  let (m, es) = if n >= 620 && n % 40 == 9 { (r.range(2, 4), 8 * r.large(12_000) - r.range(0, 7)) } else { (m, es) };
  let s = Shape { m, es, pb, dim: 1 };
  let x = index_setup(r, s)?;
  for (i, e) in x.elems[..m].iter().enumerate() {
    let want = masked(e, es);
    let w = words(e, es, pb);
    describe(format!("element {} of {es} bits in words of {pb} bits", hex(e)), false);
    let back = bytes_from_u32_slice(&w, pb, es);
    chk!(back == want, "words {w:x?} give {}", hex(&back));
    let t = base64_from_u32_slice(&w, pb, es);
    chk!(t == base64::encode(&want), "words {w:x?} give {t}");
    let kv = KeyValue::from_base64_strings("k", &x.strs[i], es, pb).map_err(|e| format!("well-formed value rejected: {e}"))?;
    chk!(kv.value == w, "keyword value is split into {:x?} instead of {w:x?}", kv.value);
    let back = bytes_from_u32_slice(&kv.value, pb, es);
    chk!(back == want, "stored words give {}", hex(&back));
    let t = x.shard.get_db().get_db_entry(i);
    chk!(t == base64::encode(&want), "entry {i} is listed as {t}, stored {}", x.strs[i]);
    if *e == want { chk!(t == x.strs[i], "entry {i} is listed as {t}, stored {}", x.strs[i]); }
    let bits: Vec<bool> = (0..8 * e.len()).map(|k| bit(e, k)).collect();
    chk!(bytes_to_bits_le(e) == bits, "bytes to bits");
    chk!(bits_to_bytes_le(&bits) == *e, "bits to bytes");
  }
  let all: Vec<String> = x.shard.into_row_iter().collect();
  let want: Vec<String> = x.elems[..m].iter().map(|e| base64::encode(masked(e, es))).collect();
  chk!(all == want, "rows are listed as {all:?} instead of {want:?}");
  for _ in 0..4 {
    let (v, l) = (r.u32(), r.range(0, 32));
    let b = u32_to_bits_le(v, l);
    chk!(b.len() == l && (0..l).all(|i| b[i] == (v >> i & 1 == 1)), "bits of {v:#x}");
    let back = bits_to_u32_le(&b).map_err(|e| e.to_string())?;
    chk!(back as u64 == v as u64 & ((1u64 << l) - 1), "{l} bits of {v:#x} give {back:#x}");
  }
  Ok(())
}

// ---- C08 ------------------------------------------------------------------------------------
fn outcome<T>(what: &str, must_fail: bool, f: impl FnOnce() -> Result<T, Box<dyn std::error::Error>>) -> Case {
  describe(what.to_string(), false);
  let r = panics(|| f().map(|_| ()).map_err(|e| e.to_string()));
  match r {
    Err(p) => Err(format!("panic: {p}")),
    Ok(Ok(())) if must_fail => Err("malformed data was accepted".into()),
    Ok(Err(e)) if !must_fail => Err(format!("well-formed data was rejected: {e}")),
    _ => Ok(()),
  }
}
pub fn c08(r: &mut Rng, n: u64) -> Case {
  let kv = n % 2 == 1;
  let pb = pick_pb(r, if kv { 8 } else { 1 }, 31);
  let es = if deep() { deep_es(r, pb) / 4 } else { pick_es(r, pb, 200) };
  let nb = es.div_ceil(8);
  let m = if deep() { r.range(1, 2) } else { r.size(1, 30) };
  let dim = r.range(1, 4);
  let elems: Vec<Vec<u8>> = elems(r, m, es);
  let mut strs: Vec<String> = elems.iter().map(base64::encode).collect();
  let bad = r.range(0, m - 1);
  let not_text = |r: &mut Rng| -> String {
    let mut t = base64::encode(r.bytes(nb)).into_bytes();
    let i = r.range(0, t.len().max(1) - 1);
    if t.is_empty() { return "*".into(); }
    t[i] = *r.pick(b"*! \n-_~");
    String::from_utf8(t).unwrap()
  };
  if !kv {
    let (mut rows, mut fail, what);
    rows = m;
    match r.below(8) {
      0 => { what = "well formed".to_string(); fail = false; if r.one_in(2) { rows = r.range(1, m); } }
      1 => { strs.clear(); rows = if r.one_in(2) { 0 } else { r.range(0, 3) }; what = format!("no elements, {rows} rows"); fail = true; }
      2 => { rows = m + r.range(1, 5); what = format!("{m} elements for {rows} rows"); fail = true; }
      3 => { strs[bad] = not_text(r); what = format!("element {bad} is {:?}", strs[bad]); fail = true; }
      4 => { let k = match r.below(4) { 0 => nb + 1, 1 => nb.max(1) - 1, 2 => 0, _ => r.range(0, 2 * nb + 9) }; strs[bad] = base64::encode(r.bytes(k)); fail = k != nb; what = format!("element {bad} has {k} bytes instead of {nb}"); }
      5 => { rows = 0; what = "no rows".into(); fail = true; }
      6 => { let k = nb + 1; for s in strs.iter_mut() { *s = base64::encode(r.bytes(k)); } what = format!("all elements have {k} bytes instead of {nb}"); fail = true; }
      _ => { strs[bad] = strs[bad].trim_end_matches('=').to_string() + "A="; fail = base64::decode(&strs[bad]).map(|b| b.len() != nb).unwrap_or(true); what = format!("element {bad} is {:?}", strs[bad]); }
    }
    let _ = &mut fail;
    let d = format!("index setup, {what}: {rows} rows, element_bits {es}, plaintext_bits {pb}, elements {}", short(&strs));
    let (a, b) = (strs.clone(), strs);
    outcome(&d, fail, || Shard::from_base64_strings(&a, dim, rows, es, pb))?;
    outcome(&d, fail, || IndexDatabase::new(&b, rows, es, pb))
  } else {
    let mut keys: Vec<String> = (0..m).map(|i| format!("key-{i}")).collect();
    let (mut fail, what) = (true, match r.below(9) {
      0 => "well formed".to_string(),
      1 => { strs.clear(); keys.clear(); "no pairs".into() }
      2 => { let k = r.range(1, m); strs.truncate(m - k); format!("{m} keys, {} values", m - k) }
      3 => { let k = r.range(1, m); keys.truncate(m - k); format!("{} keys, {m} values", m - k) }
      4 => { strs[bad] = not_text(r); format!("value {bad} is {:?}", strs[bad]) }
      5 => { let k = match r.below(3) { 0 => nb + 1, 1 => nb.max(1) - 1, _ => 0 }; if k == nb { "well formed".into() } else { strs[bad] = base64::encode(r.bytes(k)); format!("value {bad} has {k} bytes instead of {nb}") } }
      6 if m >= 2 => { let j = (bad + r.range(1, m - 1)) % m; keys[bad] = keys[j].clone(); if r.one_in(2) { strs[bad] = strs[j].clone(); } format!("keys {bad} and {j} are equal") }
      7 => { let k = nb + 1 + r.range(0, 8); for s in strs.iter_mut() { *s = base64::encode(r.bytes(k)); } format!("all values have {k} bytes instead of {nb}") }
      _ => "well formed".to_string(),
    });
    if what == "well formed" { fail = false; }
    let d = format!("keyword setup, {what}: element_bits {es}, plaintext_bits {pb}, keys {}, values {}", short(&keys), short(&strs));
    outcome(&d, fail, || KVShard::from_base64_strings(&keys, &strs, dim, m, es, pb))?;
    outcome(&d, fail, || KVDatabase::from_base64_strings(&keys, &strs, m, es, pb))?;
    // pairs given directly
    let w = es.div_ceil(pb);
    let mut kvs: Vec<KeyValue> = (0..m).map(|i| KeyValue { key: [i as u64 + 1, r.next(), r.next(), r.next()], value: words(&elems[i], es, pb) }).collect();
    let (fail, what) = match r.below(6) {
      0 => { kvs.clear(); (true, "no pairs".into()) }
      1 => { kvs[bad].value.push(0); (true, format!("value {bad} has a word too many")) }
      2 => { kvs[bad].value.pop(); (true, format!("value {bad} has a word too few")) }
      3 if m >= 2 => { let j = (bad + 1) % m; kvs[bad].key = kvs[j].key; (true, format!("keys {bad} and {j} are equal")) }
      4 => { for k in kvs.iter_mut() { k.value.push(1); } (true, "all values have a word too many".into()) }
      _ => (false, "well formed".to_string()),
    };
    let d = format!("keyword setup from pairs, {what}: {m} pairs of {w} words, element_bits {es}, plaintext_bits {pb}, pairs {}", short(&kvs));
    outcome(&d, fail, || KVShard::new(&kvs, dim, m, es, pb))
  }
}

// ---- C09 ------------------------------------------------------------------------------------
pub fn c09(r: &mut Rng, n: u64) -> Case {
  let kv = n % 2 == 1;
  let pb = if n < 124 { 1 + (n / 2 % 31) as usize } else { r.range(1, 31) };
  let es = if deep() { deep_es(r, pb) } else if n % 50 == 49 { pb * r.large(3000) - r.range(0, pb - 1) } else { r.size(1, 40 * pb) };
  let w = es.div_ceil(pb);
  let size = 1u64 << pb;
  let delta = 1u64 << (32 - pb);
  let half = (delta / 2) as i64;
  let plain: Vec<u32> = (0..w).map(|_| match r.below(4) { 0 => 0, 1 => (size - 1) as u32, _ => r.below(size) as u32 }).collect();
  let noise: Vec<i64> = (0..w).map(|_| match r.below(5) { 0 => half - 1, 1 => 1 - half, 2 => 0, 3 => *r.pick(&[1i64, -1]), _ => r.below(2 * half.max(1) as u64) as i64 - half }).map(|e| if e.abs() < half { e } else { 0 }).collect();
  let mut rhs: Vec<u32> = (0..w).map(|_| match r.below(4) { 0 => 0, 1 => u32::MAX, _ => r.u32() }).collect();
  let wanted = rhs.clone();
  let build = |rhs: &[u32]| -> Vec<u32> { (0..w).map(|i| (rhs[i] as i64 + plain[i] as i64 * delta as i64 + noise[i]) as u32).collect() };
  if !kv {
    let strs = vec![base64::encode(vec![0u8; es.div_ceil(8)])];
    let sh = Shard::from_base64_strings(&strs, 1, 1, es, pb).map_err(|e| format!("setup: {e}"))?;
    let bp = sh.get_base_params();
    let mut qp = generate_index_query_params(&CommonParams::from(bp), bp).map_err(|e| e.to_string())?;
    match with(&qp, "rhs", js(&wanted)) { Some(q) => qp = q, None => rhs = vec![0; w] } // a zero database has a zero hint
    let resp = build(&rhs);
    describe(format!("plaintext_bits {pb}, element_bits {es}, plaintext {}, noise {}, precomputed {}", short(&plain), short(&noise), short(&rhs)), false);
    let row = qp.parse_resp_as_row(&to_resp(&resp)?);
    chk!(row == plain, "decoded {}", short(&row));
  } else {
    let kvs = vec![KeyValue { key: [1, 2, 3, 4], value: vec![0; es.div_ceil(8)] }];
    let pk = pb.max(8);
    let ek = w * pk;
    let kvs: Vec<KeyValue> = kvs.into_iter().map(|mut k| { k.value = vec![0; w]; k }).collect();
    let sh = KVShard::new(&kvs, 1, 1, ek, pk).map_err(|e| format!("setup: {e}"))?;
    let bp = sh.get_base_params();
    let fp = bp.get_filter_params();
    let qp0 = generate_kv_query_params(&CommonParams::from(bp), bp).map_err(|e| e.to_string())?;
    let Some(qp) = with(&qp0, "rhs", js(&wanted)).and_then(|q| with(&q, "plaintext_bits", js(&pb))).and_then(|q| with(&q, "elem_size", js(&es))) else { return Ok(()) };
    let key = [r.word(), r.word(), r.next(), r.next()];
    let resp = build(&rhs);
    describe(format!("keyword client, plaintext_bits {pb}, element_bits {es}, masked plaintext {}, noise {}, precomputed {}", short(&plain), short(&noise), short(&rhs)), false);
    let row = qp.parse_resp_as_row(&to_resp(&resp)?, &key).map_err(|e| format!("not decoded: {e}"))?;
    let want: Vec<u32> = (0..w).map(|i| (fp.unmask_value(plain[i], &key, i as u64) as u64 % size) as u32).collect();
    chk!(row == want, "decoded {} instead of {}", short(&row), short(&want));
  }
  Ok(())
}

// ---- C11 ------------------------------------------------------------------------------------
pub fn c11(r: &mut Rng, n: u64) -> Case {
  if n % 5 == 1 {
    // a key whose hash is zero under the filter seed that is drawn
    let (pb, w, k) = (r.range(8, 31), r.range(1, 6), r.range(0, 200));
    let mut kvs: Vec<KeyValue> = (0..k).map(|_| KeyValue { key: [r.next(), r.next(), r.next(), r.next()], value: (0..w).map(|_| r.u32() & ((1u64 << pb) - 1) as u32).collect() }).collect();
    let at = r.range(0, k);
    kvs.insert(at, KeyValue { key: *r.pick(crate::filt::ZERO_KEYS), value: (0..w).map(|_| r.u32() & ((1u64 << pb) - 1) as u32).collect() });
    mock::feed(&crate::filt::ZERO_SEED);
    describe(format!("keyword database of pairs with hash zero at {at}: plaintext_bits {pb}, pairs {}", short(&kvs)), false);
    let db = KVDatabase::new(&kvs, kvs.len(), w * pb, pb).map_err(|e| format!("setup failed on well-formed data: {e}"))?;
    mock::unfeed();
    let fp = db.get_filter_params();
    for kv in &kvs {
      let e = fp.get_hash_evals(&kv.key);
      for c in 0..w {
        let m = e.iter().fold(0u32, |a, p| a.wrapping_add(db.entries[c][*p]));
        let u = (fp.unmask_value(m, &kv.key, c as u64) as u64 % (1u64 << pb)) as u32;
        chk!(u == kv.value[c], "key {:?} column {c} gives {u} instead of {}", kv.key, kv.value[c]);
      }
    }
    return Ok(());
  }
  let mut s = kv_shape(r, 31);
  if n % 40 == 7 { s.m = r.range(500, 3000); s.es = s.es.min(40); s.dim = 1; }
  s.dim = s.dim.min(3);
  let x = kv_setup(r, s)?;
  let db = x.shard.get_db();
  let pubfp = x.shard.get_base_params().get_filter_params();
  let size = 1u64 << x.s.pb;
  let rows = db.get_matrix_height();
  for (c, col) in db.entries.iter().enumerate() {
    chk!(col.len() == rows, "column {c} has {} words instead of {rows}", col.len());
    chk!(col.iter().all(|w| (*w as u64) < size), "column {c} has a word that is not below {size}");
  }
  chk!(db.entries.len() == x.s.es.div_ceil(x.s.pb), "{} columns", db.entries.len());
  chk!(x.shard.get_base_params().get_total_records() == rows, "published row count differs from the matrix");
  for (i, kv) in x.kvs.iter().enumerate() {
    let e = pubfp.get_hash_evals(&kv.key);
    chk!(e.len() == 3 && e[0] != e[1] && e[0] != e[2] && e[1] != e[2], "key {:?} has positions {e:?}", x.keys[i]);
    chk!(e.iter().all(|p| *p < rows), "key {:?} has positions {e:?} of {rows} rows", x.keys[i]);
    chk!(db.get_filter_params().get_hash_evals(&kv.key) == e, "the stored and the published filter parameters differ");
    let want = words(&x.vals[i], x.s.es, x.s.pb);
    for (c, w) in want.iter().enumerate() {
      let m = e.iter().fold(0u32, |a, p| a.wrapping_add(db.entries[c][*p]));
      let u = (pubfp.unmask_value(m, &kv.key, c as u64) as u64 % size) as u32;
      chk!(u == *w, "key {:?} column {c} gives {u} instead of {w}", x.keys[i]);
    }
  }
  // in another order, with absent keys and another database in between
  let y = if x.s.m <= 30 && r.one_in(3) && !deep() { Some(kv_setup(r, x.s)?) } else { None };
  for _ in 0..if deep() { 2 } else { 40 } {
    let kv = r.pick(&x.kvs);
    let c = r.range(0, db.entries.len() - 1);
    let mut other = kv.key;
    other[r.range(0, 3)] ^= 1 << r.range(0, 63);
    match r.below(4) {
      0 => { pubfp.get_hash_evals(&other); }
      1 => { pubfp.unmask_value(r.u32(), &other, c as u64); pubfp.unmask_value(r.u32(), &kv.key, c as u64 + 1); }
      2 => if let Some(y) = &y { let f = y.shard.get_base_params().get_filter_params(); f.get_hash_evals(&kv.key); f.unmask_value(3, &kv.key, c as u64); },
      _ => {}
    }
    let e = pubfp.get_hash_evals(&kv.key);
    chk!(e.len() == 3 && e[0] != e[1] && e[0] != e[2] && e[1] != e[2] && e.iter().all(|p| *p < rows), "key {:x?} has positions {e:?} of {rows} rows when asked again", kv.key);
    let m = e.iter().fold(0u32, |a, p| a.wrapping_add(db.entries[c][*p]));
    let u = (pubfp.unmask_value(m, &kv.key, c as u64) as u64 % size) as u32;
    chk!(u == kv.value[c], "key {:x?} column {c} gives {u} instead of {} when asked again", kv.key, kv.value[c]);
  }
  Ok(())
}

// ---- C17 ------------------------------------------------------------------------------------
/// what the client does with one fed generator output as its only secret coordinate:
/// Some(value), or None if the output is rejected
struct Probe { cp: CommonParams, bp: IndexParams, a: u32 }
impl Probe {
  fn new() -> Result<Probe, String> {
    let sh = Shard::from_base64_strings(&["AQ==".to_string()], 1, 1, 8, 8).map_err(|e| e.to_string())?;
    let bp = sh.get_base_params().clone();
    let cp = CommonParams::from(&bp);
    let a = cp.as_matrix()[0][0];
    Ok(Probe { cp, bp, a })
  }
  /// (secret, noise) from the fed words, and how many fed bytes were left over
  fn run(&self, w: &[u32]) -> Result<(u32, u32, usize), String> {
    mock::unfeed();
    for x in w { mock::feed(&x.to_le_bytes()); }
    let mut q = generate_index_query_params(&self.cp, &self.bp).map_err(|e| e.to_string())?;
    let left = mock::unfeed();
    let qq = q.generate_query(0).map_err(|e| e.to_string())?;
    let lhs = qq.as_slice()[0].wrapping_sub(1 << 24);
    for s in [0, 1, u32::MAX] { for e in [0, 1, u32::MAX] {
      if lhs == self.a.wrapping_mul(s).wrapping_add(e) { return Ok((s, e, left)); }
    } }
    Err(format!("a secret or noise coordinate is not 0, 1 or -1: masking word {lhs:#x} for matrix word {:#x}", self.a))
  }
  fn map(&self, v: u32, noise: bool) -> Result<Option<u32>, String> {
    // the words after v are accepted ones
    let w = if noise { [7, v, 9, 11] } else { [v, 7, 9, 11] };
    let (s, e, left) = self.run(&w)?;
    if left < 8 { Ok(None) } else { Ok(Some(if noise { e } else { s })) }
  }
}
pub fn c17(r: &mut Rng, n: u64) -> Case {
  if n < 16 {
    // the map from generator outputs to values, exactly
    let noise = n % 2 == 1;
    let p = Probe::new()?;
    describe(format!("map from generator outputs to {} coordinates, probe {n}", if noise { "noise" } else { "secret" }), false);
    let mut pts: Vec<u32> = (0..1500).map(|_| r.u32()).collect();
    for x in lits() { for d in 0..5u64 { pts.push((x.wrapping_add(d).wrapping_sub(2)) as u32); } }
    pts.extend([0, 1, 2, 3, u32::MAX, u32::MAX - 1, u32::MAX - 2, u32::MAX - 3, 1 << 31, (1 << 31) - 1]);
    pts.sort();
    pts.dedup();
    let mut v: Vec<(u32, Option<u32>)> = Vec::new();
    for x in &pts { v.push((*x, p.map(*x, noise)?)); }
    let changes = v.windows(2).filter(|w| w[0].1 != w[1].1).count();
    if changes <= 12 {
      // intervals: find the exact boundaries
      let mut ends: Vec<(u64, u64, Option<u32>)> = vec![];
      let mut start = v[0].0 as u64;
      for w in v.windows(2) {
        if w[0].1 == w[1].1 { continue; }
        let (mut lo, mut hi) = (w[0].0, w[1].0);
        while hi - lo > 1 { let mid = lo + (hi - lo) / 2; if p.map(mid, noise)? == w[0].1 { lo = mid } else { hi = mid } }
        ends.push((start, lo as u64, w[0].1));
        start = hi as u64;
      }
      ends.push((start, v[v.len() - 1].0 as u64, v[v.len() - 1].1));
      let count = |t: u32| -> u64 { ends.iter().filter(|e| e.2 == Some(t)).map(|e| e.1 - e.0 + 1).sum() };
      let c = [count(0), count(1), count(u32::MAX)];
      let (lo, hi) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
      chk!(hi - lo <= 1, "the values 0, 1 and -1 get {c:?} generator outputs: {ends:?}");
    } else {
      let c = [Some(0), Some(1), Some(u32::MAX)].map(|t| v.iter().filter(|x| x.1 == t).count() as f64);
      let tot: f64 = c.iter().sum();
      for x in c { chk!((x - tot / 3.0).abs() < 6.0 * tot.sqrt(), "the values 0, 1 and -1 get {c:?} of {tot} generator outputs"); }
    }
    return Ok(());
  }
  let kv = n % 2 == 1;
  let (dim, m) = (r.range(1, 4), if r.one_in(20) { r.range(20, 70) } else { r.range(1, 5) });
  mock::record();
  if !kv {
    let strs: Vec<String> = (0..m).map(|_| base64::encode(r.bytes(2))).collect();
    describe(format!("index client draws: dimension {dim}, rows {m}"), false);
    let sh = Shard::from_base64_strings(&strs, dim, m, 16, 8).map_err(|e| e.to_string())?;
    let bp = sh.get_base_params();
    fresh(&mock::recorded(), &[("public seed", bp.get_public_seed())])?;
    let cp = CommonParams::from(bp);
    influence(r, dim, bp.get_total_records(), cp.as_matrix(), bp.get_rhs(), &|| {
      let mut q = generate_index_query_params(&cp, bp).map_err(|e| e.to_string())?;
      let rhs = field(&q, "rhs");
      let mut l = q.generate_query(0).map_err(|e| e.to_string())?.as_slice().to_vec();
      l[0] = l[0].wrapping_sub(1 << 24);
      Ok((l, rhs))
    })
  } else {
    let kvs: Vec<KeyValue> = (0..m).map(|i| KeyValue { key: [i as u64, r.next(), r.next(), r.next()], value: vec![r.u32() & 255, r.u32() & 255] }).collect();
    describe(format!("keyword client draws: dimension {dim}, {m} keys"), false);
    let sh = KVShard::new(&kvs, dim, m, 16, 8).map_err(|e| e.to_string())?;
    let bp = sh.get_base_params();
    fresh(&mock::recorded(), &[("public seed", bp.get_public_seed()), ("filter seed", bp.get_filter_params().seed)])?;
    let cp = CommonParams::from(bp);
    let key = kvs[0].key;
    let sel = bp.get_filter_params().get_hash_evals(&key);
    influence(r, dim, bp.get_total_records(), cp.as_matrix(), bp.get_rhs(), &|| {
      let mut q = generate_kv_query_params(&cp, bp).map_err(|e| e.to_string())?;
      let rhs = field(&q, "rhs");
      let mut l = q.generate_query(&key).map_err(|e| e.to_string())?.as_slice().to_vec();
      for p in &sel { l[*p] = l[*p].wrapping_sub(1 << 24); }
      Ok((l, rhs))
    })
  }
}
fn fresh(log: &[Vec<u8>], seeds: &[(&str, [u8; 32])]) -> Case {
  let all: Vec<u8> = log.concat();
  let mut used: Vec<usize> = vec![];
  for (what, s) in seeds {
    let at = (0..all.len().saturating_sub(31)).find(|i| all[*i..i + 32] == s[..] && used.iter().all(|u| i.abs_diff(*u) >= 32));
    match at { Some(i) => used.push(i), None => return Err(format!("the {what} {} is not 32 bytes drawn during setup", hex(s))) }
  }
  Ok(())
}
/// no drawn byte decides two coordinates and every coordinate is decided by some draw
fn influence(r: &mut Rng, dim: usize, rows: usize, a: &[Vec<u32>], h: &[Vec<u32>], make: &dyn Fn() -> Result<(Vec<u32>, Option<Vec<u32>>), String>) -> Case {
  let n = dim + rows;
  // (coordinates, secret first; bytes drawn), if the client's vectors have one explanation only
  let coords = |b: &[u8]| -> Result<Option<(Vec<u32>, usize)>, String> {
    mock::unfeed();
    mock::feed(b);
    mock::record();
    let (lhs, rhs) = make()?;
    let drawn: usize = mock::recorded().iter().map(|x| x.len()).sum();
    mock::unfeed();
    chk!(4 * drawn >= n, "only {drawn} bytes drawn for {n} coordinates");
    let sols: Vec<Vec<u32>> = ternary_vectors(dim).filter(|s| {
      (0..rows).all(|j| matches!(lhs[j].wrapping_sub(dot(s, &a[j])), 0 | 1 | u32::MAX)) && rhs.as_ref().is_none_or(|x| (0..h.len()).all(|c| x[c] == dot(s, &h[c])))
    }).collect();
    chk!(!sols.is_empty(), "no ternary secret and noise explain the client's vectors");
    if sols.len() > 1 { return Ok(None); }
    let s = &sols[0];
    Ok(Some((s.iter().copied().chain((0..rows).map(|j| lhs[j].wrapping_sub(dot(s, &a[j])))).collect(), drawn)))
  };
  const V: [u32; 3] = [0x1234_5678, 0x7654_3210, 0xedcb_a987];
  let w: Vec<u8> = (0..n + 64).flat_map(|_| r.pick(&V).to_le_bytes()).collect();
  let Some((base, drawn)) = coords(&w)? else { return Ok(()) };
  let mut hit = vec![0; n];
  let mut skipped = false;
  let drawn = drawn.min(w.len());
  let only_top = drawn == 4 * n;
  for j in 0..drawn {
    if only_top && j % 4 != 3 && !r.one_in(12) { continue; }
    for v in [0x12u8, 0x76, 0xed] {
      if v == w[j] { continue; }
      let mut w2 = w.clone();
      w2[j] = v;
      let Some((c, d2)) = coords(&w2)? else { skipped = true; continue };
      if d2 != drawn { skipped = true; continue; } // rejected
      let d: Vec<usize> = (0..n).filter(|i| c[*i] != base[*i]).collect();
      chk!(d.len() <= 1, "byte {j} of {drawn} drawn bytes decides the coordinates {d:?} (secret coordinates first) for dimension {dim} and {rows} rows");
      for i in d { hit[i] += 1; }
    }
  }
  chk!(skipped || hit.iter().all(|x| *x >= 1), "coordinates decided by {hit:?} draws (secret coordinates first) for dimension {dim} and {rows} rows");
  Ok(())
}

// ---- C19 ------------------------------------------------------------------------------------
pub fn c19(r: &mut Rng, n: u64) -> Case {
  if n % 2 == 0 {
    let mut s = index_shape(r, false);
    s.dim = 1;
    if !deep() && (n % 60 == 58 || n == 0) { s = Shape { m: r.large(1200), es: r.large(1200), pb: 1, dim: 1 }; }
    let x = index_setup(r, s)?;
    let w: Vec<Vec<u32>> = x.elems[..x.s.m].iter().map(|e| words(e, x.s.es, x.s.pb)).collect();
    let cols: Vec<Vec<u32>> = (0..x.s.es.div_ceil(x.s.pb)).map(|c| w.iter().map(|v| v[c]).collect()).collect();
    let mut db = x.shard.get_db().clone();
    let before = format!("{db:?}");
    for (c, col) in cols.iter().enumerate() { chk!(db.get_row(c) == *col, "column {c} of the stored matrix"); }
    db.switch_fmt();
    for (i, row) in w.iter().enumerate() { chk!(db.get_row(i) == *row, "row {i} after switching is {} instead of {}", short(&db.get_row(i)), short(row)); }
    let some: Vec<usize> = if deep() { vec![0, cols.len() - 1, r.range(0, cols.len() - 1)] } else { (0..cols.len()).collect() };
    for c in some {
      let t = db.get_db_entry(c);
      chk!(t == base64_from_u32_slice(&cols[c], x.s.pb, x.s.es), "entry {c} of the switched matrix is {t}");
    }
    db.switch_fmt();
    chk!(before == format!("{db:?}"), "switching twice does not restore the database");
  } else {
    let mut s = kv_shape(r, 31);
    s.m = s.m.min(20); s.dim = 1;
    if deep() { s.es = s.es.min(100); }
    let x = kv_setup(r, s)?;
    let mut db = x.shard.get_db().clone();
    let (a, b) = if deep() { let k = r.huge(1 << 17, DEEP); if r.one_in(2) { (k, r.range(1, 2)) } else { (r.range(1, 2), k) } } else if n % 60 == 59 || n == 1 { (r.large(2100), r.large(2100)) } else { (r.size(1, 60), r.size(1, 60)) };
    if r.one_in(2) || a > 200 { db.entries = (0..a).map(|_| (0..b).map(|_| r.u32()).collect()).collect(); }
    let orig = db.entries.clone();
    describe(format!("matrix of {} x {}: {}", orig.len(), orig[0].len(), short(&orig)), false);
    db.switch_fmt();
    chk!(db.entries.len() == orig[0].len(), "{} rows after switching", db.entries.len());
    for (i, row) in db.entries.iter().enumerate() {
      let want: Vec<u32> = orig.iter().map(|o| o[i]).collect();
      chk!(*row == want, "row {i} after switching is {} instead of {}", short(row), short(&want));
      chk!(db.get_row(i) == want, "get_row {i}");
    }
    db.switch_fmt();
    chk!(db.entries == orig, "switching twice does not restore the matrix");
    let some: Vec<usize> = if deep() { vec![0, orig[0].len() - 1, r.range(0, orig[0].len() - 1)] } else { (0..orig[0].len()).collect() };
    for i in some {
      let want: Vec<u32> = orig.iter().map(|o| o[i]).collect();
      let t = db.get_db_entry(i);
      chk!(t == base64_from_u32_slice(&want, x.s.pb, x.s.es), "entry {i} is {t}");
    }
  }
  Ok(())
}

// ---- C20 ------------------------------------------------------------------------------------
/// a directory of this process; `util::cleanup` removes it
pub fn scratch_root() -> std::path::PathBuf { std::env::temp_dir().join(format!("chalamet-oracle-{}", std::process::id())) }
struct Scratch(std::path::PathBuf);
impl Scratch {
  fn new() -> Scratch {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let p = scratch_root().join(N.fetch_add(1, std::sync::atomic::Ordering::SeqCst).to_string());
    std::fs::create_dir(&p).unwrap();
    Scratch(p)
  }
  fn path(&self, n: &str) -> String { self.0.join(n).to_str().unwrap().to_string() }
  /// what an earlier run may have left at the path
  fn leave(&self, r: &mut Rng, p: &str) -> &'static str {
    match r.below(4) {
      0 => { std::fs::write(p, "x".repeat(r.large(20_000))).unwrap(); "over a longer file" }
      1 => { std::fs::write(p, "[]").unwrap(); "over a short file" }
      _ => "to a new file",
    }
  }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
/// JSON text of a value in one of the forms a writer may choose
fn json_text(r: &mut Rng, v: &Value) -> (String, &'static str) {
  match r.below(4) {
    0 => (serde_json::to_string_pretty(v).unwrap(), "indented"),
    1 => (format!("\n \t{}\r\n", v), "with surrounding blanks"),
    2 => {
      // every string written with escapes
      fn esc(v: &Value, o: &mut String) {
        match v {
          Value::String(s) => { o.push('"'); for u in s.encode_utf16() { o.push_str(&format!("\\u{u:04x}")); } o.push('"'); }
          Value::Array(a) => { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(','); } esc(x, o); } o.push(']'); }
          Value::Object(m) => { o.push('{'); for (i, (k, x)) in m.iter().rev().enumerate() { if i > 0 { o.push(','); } o.push_str(&format!("\"{k}\":")); esc(x, o); } o.push('}'); }
          x => o.push_str(&x.to_string()),
        }
      }
      let mut o = String::new();
      esc(v, &mut o);
      (o, "with escapes")
    }
    _ => (v.to_string(), "compact"),
  }
}
fn same_params<P: BaseParams + Serialize>(a: &P, b: &P) -> Case {
  chk!(b.get_total_records() == a.get_total_records(), "loaded row count is {} instead of {}", b.get_total_records(), a.get_total_records());
  chk!(b.get_dim() == a.get_dim(), "loaded dimension is {} instead of {}", b.get_dim(), a.get_dim());
  chk!(b.get_elem_size() == a.get_elem_size(), "loaded element size is {} instead of {}", b.get_elem_size(), a.get_elem_size());
  chk!(b.get_plaintext_bits() == a.get_plaintext_bits(), "loaded plaintext bits are {} instead of {}", b.get_plaintext_bits(), a.get_plaintext_bits());
  chk!(b.get_public_seed() == a.get_public_seed(), "loaded seed is {:?} instead of {:?}", b.get_public_seed(), a.get_public_seed());
  chk!(b.get_rhs() == a.get_rhs(), "loaded hint is {} instead of {}", short(b.get_rhs()), short(a.get_rhs()));
  chk!(js(a) == js(b), "loaded parameters are {} instead of {}", short(&js(b)), short(&js(a)));
  Ok(())
}
fn acc(a: bool) -> &'static str { if a { "accepted" } else { "rejected" } }
pub fn c20(r: &mut Rng, n: u64) -> Case {
  let d = Scratch::new();
  let (dbp, pp, src) = (d.path("db.json"), d.path("params.json"), d.path("elements.json"));
  if n % 2 == 0 {
    let mut s = index_shape(r, false);
    if deep() { s.m = s.m.min(300_000); s.es = s.es.min(300_000 * s.pb); } else { s.m = s.m.min(if n % 50 == 0 { 20_000 } else { 60 }); s.es = s.es.min(4000); } s.dim = s.dim.min(if n % 50 == 2 { 5000 } else { 200 });
    if s.m * s.dim > 400_000 { s.dim = 1; }
    let x = index_setup(r, s)?;
    let base = format!("index database: {}, elements {}", x.s, short(&x.strs));
    let bp = x.shard.get_base_params();
    let (l1, l2) = (d.leave(r, &dbp), d.leave(r, &pp));
    describe(format!("{base}: written {l1}, parameters {l2}"), false);
    x.shard.write_to_file(&dbp, &pp).map_err(|e| format!("not written: {e}"))?;
    let back = IndexParams::load(&pp).map_err(|e| format!("the saved parameters do not load: {e}"))?;
    same_params(bp, &back)?;
    chk!(CommonParams::from(&back).as_matrix() == CommonParams::from(bp).as_matrix(), "the loaded parameters give another matrix");
    // saved again from what was loaded
    back.write_to_file(&pp).map_err(|e| format!("loaded parameters not written: {e}"))?;
    same_params(bp, &IndexParams::load(&pp).map_err(|e| format!("the parameters saved again do not load: {e}"))?)?;
    let rows: Vec<Vec<u32>> = serde_json::from_reader(std::fs::File::open(&dbp).unwrap()).map_err(|e| format!("the saved database does not load: {e}"))?;
    let want: Vec<Vec<u32>> = (0..x.s.es.div_ceil(x.s.pb)).map(|i| x.shard.get_db().get_row(i)).collect();
    chk!(rows == want, "the saved database is {} instead of {}", short(&rows), short(&want));
    let (text, how) = json_text(r, &js(&x.strs));
    std::fs::write(&src, &text).unwrap();
    describe(format!("{base}: read from a file, {how}"), false);
    let seed = r.next();
    mock::seed(seed);
    let a = Shard::from_json_file(&src, x.s.dim, x.s.m, x.s.es, x.s.pb).map_err(|e| format!("the file was rejected: {e}"))?;
    mock::seed(seed);
    let b = Shard::from_base64_strings(&x.strs, x.s.dim, x.s.m, x.s.es, x.s.pb).map_err(|e| e.to_string())?;
    chk!(js(a.get_db()) == js(b.get_db()), "the database from the file is {} instead of {}", short(&js(a.get_db())), short(&js(b.get_db())));
    chk!(js(&a) == js(&b), "the shard from the file is {} instead of {}", short(&js(&a)), short(&js(&b)));
    if !deep() {
      let mut bad = x.strs.clone();
      let i = r.range(0, bad.len() - 1);
      let mut rows = x.s.m;
      match r.below(5) { 0 => { rows = bad.len() + 1; } 1 => { bad.clear(); } 2 => { let k = bad[i].len() / 2; bad[i].truncate(k); } 3 => { bad[i] += "AAAA"; } _ => { let j = r.range(0, bad.len() - 1); bad[i] = bad[j].clone(); } }
      let (text, how) = json_text(r, &js(&bad));
      std::fs::write(&src, &text).unwrap();
      describe(format!("index data read from a file, {how}: {rows} rows, element_bits {}, plaintext_bits {}, elements {}", x.s.es, x.s.pb, short(&bad)), false);
      let d = || panics(|| Shard::from_base64_strings(&bad, x.s.dim, rows, x.s.es, x.s.pb).is_ok());
      let f = || panics(|| Shard::from_json_file(&src, x.s.dim, rows, x.s.es, x.s.pb).is_ok());
      if let Ok(a) = d() { let b = f().map_err(|e| format!("panic: {e}"))?; chk!(a == b, "the strings are {}, the file with them is {}", acc(a), acc(b)); }
      let (text, _) = json_text(r, &js(&x.strs));
      std::fs::write(&src, &text).unwrap();
    }
    let c = IndexDatabase::from_file(&src, x.s.m, x.s.es, x.s.pb).map_err(|e| format!("the file was rejected: {e}"))?;
    chk!(js(&c) == js(b.get_db()), "the database from the file is {} instead of {}", short(&js(&c)), short(&js(b.get_db())));
  } else {
    let mut s = kv_shape(r, 31);
    if deep() { s.m = s.m.min(100_000); s.es = s.es.min(100_000 * s.pb); } else { s.m = s.m.min(60); s.es = s.es.min(2000); }
    s.dim = s.dim.min(if n % 50 == 1 { 5000 } else { 200 });
    let x = kv_setup(r, s)?;
    let (l1, l2) = (d.leave(r, &dbp), d.leave(r, &pp));
    let base = format!("keyword database: {}", x.s);
    describe(format!("{base}, keys {}: written {l1}, parameters {l2}", short(&x.keys)), false);
    let bp = x.shard.get_base_params();
    x.shard.write_to_file(&dbp, &pp).map_err(|e| format!("not written: {e}"))?;
    let back: KVParams = serde_json::from_reader(std::fs::File::open(&pp).map_err(|e| format!("no parameters file: {e}"))?).map_err(|e| format!("the saved parameters do not load: {e}"))?;
    same_params(bp, &back)?;
    chk!(js(&bp.get_filter_params()) == js(&back.get_filter_params()), "loaded filter parameters are {} instead of {}", short(&back.get_filter_params()), short(&bp.get_filter_params()));
    for kv in &x.kvs { chk!(bp.get_filter_params().get_hash_evals(&kv.key) == back.get_filter_params().get_hash_evals(&kv.key), "loaded positions of a key"); }
    let rows: Vec<Vec<u32>> = serde_json::from_reader(std::fs::File::open(&dbp).unwrap()).map_err(|e| format!("the saved database does not load: {e}"))?;
    chk!(rows == x.shard.get_db().entries, "the saved database is {} instead of {}", short(&rows), short(&x.shard.get_db().entries));
    // keys of every kind of text
    let keys: Vec<String> = (0..x.s.m).map(|i| match r.below(8) {
      0 => format!("{i}"), 1 => format!(" key {i} "), 2 => format!("Key\"{i}\"\\"), 3 => format!("schlüssel-{i}-\u{1f511}"), 4 => format!("{i}\n\t"), 5 => format!("a/b+c={i}"), 6 => format!("\u{feff}{i}"), _ => format!("KEY{i}\0"),
    }).collect();
    let vals: Vec<String> = x.vals.iter().map(base64::encode).collect();
    let v = Value::Array((0..x.s.m).map(|i| serde_json::json!({"key": keys[i], "value": vals[i]})).collect());
    let (text, how) = json_text(r, &v);
    std::fs::write(&src, &text).unwrap();
    describe(format!("{base}, keys {}: read from a file, {how}", short(&keys)), false);
    let seed = r.next();
    mock::seed(seed);
    let a = KVShard::from_json_file(&src, x.s.dim, x.s.m, x.s.es, x.s.pb).map_err(|e| format!("the file was rejected: {e}"))?;
    mock::seed(seed);
    let b = KVShard::from_base64_strings(&keys, &vals, x.s.dim, x.s.m, x.s.es, x.s.pb).map_err(|e| e.to_string())?;
    let (fp, db) = (a.get_base_params().get_filter_params(), a.get_db());
    for i in 0..x.s.m {
      let k = sha256_into_u64_sized(keys[i].as_bytes()).map_err(|e| e.to_string())?;
      let e = fp.get_hash_evals(&k);
      for (c, w) in words(&x.vals[i], x.s.es, x.s.pb).iter().enumerate() {
        let m = e.iter().fold(0u32, |acc, p| acc.wrapping_add(db.entries[c][*p]));
        let u = (fp.unmask_value(m, &k, c as u64) as u64 % (1u64 << x.s.pb)) as u32;
        chk!(u == *w, "key {:?} column {c} gives {u} instead of {w} in the shard from the file", keys[i]);
      }
    }
    if !deep() {
      let (mut bk, mut bv) = (keys.clone(), vals.clone());
      let i = r.range(0, bk.len() - 1);
      match r.below(7) {
        0 => { bk.clear(); bv.clear(); }
        1 => { let k = bv[i].len() / 2; bv[i].truncate(k); }
        2 => { bv[i] += "AAAA"; }
        3 => { let at = if r.one_in(2) { i } else { 0 }; bk.insert(at, keys[i].clone()); bv.insert(at, if r.one_in(2) { vals[i].clone() } else { base64::encode(elem(r, x.s.es)) }); }
        4 => { bk.insert(i + 1, keys[i].clone()); bv.insert(i + 1, vals[i].clone()); }
        5 => { bk.push(keys[i].clone() + " "); bv.push(vals[i].clone()); }
        _ => { let j = r.range(0, bk.len() - 1); bv[i] = vals[j].clone(); }
      }
      let v = Value::Array((0..bk.len()).map(|i| serde_json::json!({"key": bk[i], "value": bv[i]})).collect());
      let (text, how) = json_text(r, &v);
      std::fs::write(&src, &text).unwrap();
      describe(format!("keyword data read from a file, {how}: element_bits {}, plaintext_bits {}, keys {}, values {}", x.s.es, x.s.pb, short(&bk), short(&bv)), false);
      let d = panics(|| KVShard::from_base64_strings(&bk, &bv, x.s.dim, bk.len(), x.s.es, x.s.pb).is_ok());
      let f = panics(|| KVShard::from_json_file(&src, x.s.dim, bk.len(), x.s.es, x.s.pb).is_ok());
      if let Ok(a) = d { let b = f.map_err(|e| format!("panic: {e}"))?; chk!(a == b, "the pairs are {}, the file with them is {}", acc(a), acc(b)); }
    }
    let (pa, pb) = (a.get_base_params(), b.get_base_params());
    chk!(pa.get_dim() == pb.get_dim() && pa.get_elem_size() == pb.get_elem_size() && pa.get_plaintext_bits() == pb.get_plaintext_bits() && pa.get_total_records() == pb.get_total_records()
      && db.get_matrix_height() == b.get_db().get_matrix_height() && db.get_elem_size() == b.get_db().get_elem_size() && db.get_plaintext_bits() == b.get_db().get_plaintext_bits(),
      "the shard from the file has another shape: {} instead of {}", short(&js(&a)), short(&js(&b)));
  }
  Ok(())
}
