//! The filters: C10, C12 - C16, C18
use crate::chk;
use crate::mock::splitmix;
use crate::util::*;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use xorf::*;

// ---- the hash, to craft keys for particular slots -------------------------------------------
pub fn mix64(mut k: u64) -> u64 {
  k ^= k >> 33;
  k = k.wrapping_mul(0xff51_afd7_ed55_8ccd);
  k ^= k >> 33;
  k = k.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
  k ^ (k >> 33)
}
fn inverse(a: u64) -> u64 { let mut x = a; for _ in 0..6 { x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x))); } x }
pub fn unmix64(mut k: u64) -> u64 {
  k ^= k >> 33;
  k = k.wrapping_mul(inverse(0xc4ce_b9fe_1a85_ec53));
  k ^= k >> 33;
  k = k.wrapping_mul(inverse(0xff51_afd7_ed55_8ccd));
  k ^ (k >> 33)
}
/// the key with this hash under the n-th seed that construction tries
fn key_for(hash: u64, nth: u32) -> u64 {
  let mut s = 1;
  let mut seed = 0;
  for _ in 0..=nth { seed = splitmix(&mut s); }
  unmix64(hash).wrapping_sub(seed)
}
fn dedup(mut v: Vec<u64>) -> Vec<u64> {
  let mut seen = std::collections::HashSet::new();
  v.retain(|x| seen.insert(*x));
  v
}
/// key sets: random, structured, and such that the hashes under one of the seeds are special
fn keys(r: &mut Rng, hi: usize) -> (Vec<u64>, String) {
  if deep() {
    let n = r.huge(700_000, 16_700_000);
    let (b, odd) = (r.next(), r.next() | 1);
    return ((0..n as u64).map(|x| b.wrapping_add(x.wrapping_mul(odd))).collect(), format!("{n} keys {b:#x} + i * {odd:#x}"));
  }
  let n = r.size(0, hi);
  let nth = if r.one_in(4) { 1 } else { 0 };
  let (mut v, how): (Vec<u64>, String) = match r.below(10) {
    0 => ((0..n as u64).collect(), "0, 1, 2, ...".into()),
    1 => { let s = r.below(56); ((0..n as u64).map(|x| x << s).collect(), format!("multiples of 2^{s}")) }
    2 => { let b = r.word(); ((0..n as u64).map(|x| b.wrapping_add(x)).collect(), format!("consecutive from {b}")) }
    3 => ((0..n).map(|_| r.word()).collect(), "special words".into()),
    4 => {
      // hashes with the same leading bits share the first position, and more the fewer bits are free
      let n = r.size(2, 400);
      let free = r.range(4, 60) as u64;
      let top = r.next() & !((1u64 << free) - 1);
      ((0..n).map(|_| key_for(top | (r.next() & ((1u64 << free) - 1)), nth)).collect(), format!("hashes that agree but for {free} bits"))
    }
    5 => {
      // same first position, and the same second or third one
      let n = r.size(2, 300);
      let h = r.next();
      let keep: u64 = *r.pick(&[0xffff_ffff_0000_0000, 0xffff_f000_0003_ffff, 0xf000_0000_0003_ffff, 0xffff_ffff_fffc_0000, 0xff00_0000_fffc_0000, 0xffff_0000_ffff_ffff]);
      ((0..n).map(|_| key_for((h & keep) | (r.next() & !keep), nth)).collect(), format!("hashes that agree in {keep:#x}"))
    }
    6 => { let mut v: Vec<u64> = (0..n).map(|_| r.next()).collect(); let h = *r.pick(&[0, 1, u64::MAX, 1 << 63, u64::MAX << 40, 0xffff_ffff]); let at = r.range(0, v.len()); v.insert(at, key_for(h, nth)); (v, format!("random with one hash {h:#x}")) }
    7 => { let mut v: Vec<u64> = (0..n).map(|_| r.next()).collect(); for h in [0u64, 1, 2, u64::MAX, u64::MAX - 1, 0x8000_0000_0000_0000, 0x1_0000_0000, 0xffff_ffff] { let at = r.range(0, v.len()); v.insert(at, key_for(h, nth)); } (v, "random with eight special hashes".into()) }
    _ => ((0..n).map(|_| r.next()).collect(), "random".into()),
  };
  v = dedup(v);
  let s: Vec<String> = v.iter().take(20).map(|x| format!("{x:#x}")).collect();
  let d = format!("{} keys, {how}: [{}{}]", v.len(), s.join(", "), if v.len() > 20 { ", ..." } else { "" });
  (v, d)
}
/// keys to look up: the stored ones and others
fn probes(r: &mut Rng, stored: &[u64]) -> Vec<u64> {
  let mut v = vec![0, 1, u64::MAX, 1 << 63];
  for h in [0, 1, u64::MAX, u64::MAX - 1, 0xffff_ffff, u64::MAX << 32, u64::MAX << 18, 0x3_ffff, u64::MAX >> 1] { for n in 0..2 { v.push(key_for(h, n)); } }
  for _ in 0..200 { v.push(r.word()); }
  v.extend(stored.iter().take(200));
  v
}
fn seeded_probe(seed: u64, r: &mut Rng) -> Vec<u64> {
  let mut v: Vec<u64> = [0, 1, u64::MAX, u64::MAX - 1, u64::MAX << 32, u64::MAX >> 32, u64::MAX << 43, u64::MAX >> 21, u64::MAX >> 18, 0xffff_ffff].iter().map(|h| unmix64(*h).wrapping_sub(seed)).collect();
  for _ in 0..50 { v.push(unmix64(r.next() | u64::MAX << 44).wrapping_sub(seed)); }
  v
}
type Built<F> = Result<F, String>;
trait Mem { fn has(&self, k: &u64) -> bool; fn size(&self) -> usize; }
macro_rules! mem { ($($t:ident)*) => { $(#[allow(deprecated)] impl Mem for $t { fn has(&self, k: &u64) -> bool { self.contains(k) } fn size(&self) -> usize { self.len() } })* } }
mem!(Xor8 Xor16 Xor32 Fuse8 Fuse16 Fuse32 BinaryFuse8 BinaryFuse16 BinaryFuse32);
macro_rules! build_try { ($t:ident, $v:expr, $how:expr) => { (match $how { 0 => $t::try_from($v.as_slice()), 1 => $t::try_from(&$v), _ => $t::try_from($v.clone()) }).map(|f| Box::new(f) as Box<dyn Mem>).map_err(|e| e.to_string()) } }
macro_rules! build_from { ($t:ident, $v:expr, $how:expr) => { Ok(Box::new(match $how { 0 => $t::from($v.as_slice()), 1 => $t::from(&$v), _ => $t::from($v.clone()) }) as Box<dyn Mem>) } }
fn bfuse(w: u64, v: &Vec<u64>, how: u64) -> Built<Box<dyn Mem>> { match w { 0 => build_try!(BinaryFuse8, *v, how), 1 => build_try!(BinaryFuse16, *v, how), _ => build_try!(BinaryFuse32, *v, how) } }
fn xor(w: u64, v: &Vec<u64>, how: u64) -> Built<Box<dyn Mem>> { match w { 0 => build_from!(Xor8, *v, how), 1 => build_from!(Xor16, *v, how), _ => build_from!(Xor32, *v, how) } }
#[allow(deprecated)]
fn fuse(w: u64, v: &Vec<u64>, how: u64) -> Built<Box<dyn Mem>> { match w { 0 => build_try!(Fuse8, *v, how), 1 => build_try!(Fuse16, *v, how), _ => build_try!(Fuse32, *v, how) } }

fn check_members(kind: &str, v: &[u64], f: &dyn Mem) -> Case {
  for k in v { chk!(f.has(k), "{kind} filter does not contain its key {k:#x}"); }
  Ok(())
}
fn how_name(h: u64) -> &'static str { ["slice", "reference to a vector", "vector"][h as usize] }
fn members(kind: &str, f: fn(u64, &Vec<u64>, u64) -> Built<Box<dyn Mem>>, r: &mut Rng, v: &Vec<u64>, d: &str) -> Case {
  let (w, how) = (r.below(3), r.below(3));
  describe(format!("{kind}{} filter from a {} of {d}", 8 << w, how_name(how)), v.is_empty());
  if let Ok(x) = f(w, v, how) { check_members(&format!("{kind}{}", 8 << w), v, &*x)?; }
  Ok(())
}
pub fn c12(r: &mut Rng, n: u64) -> Case {
  let (v, d) = keys(r, if n % 50 == 9 { 20000 } else { 600 });
  members("binary fuse ", bfuse, r, &v, &d)
}
pub fn c13(r: &mut Rng, n: u64) -> Case {
  let (v, d) = keys(r, if n % 50 == 9 { 20000 } else { 600 });
  members("xor ", xor, r, &v, &d)
}
/// a key set from which a fuse filter can be built with the n-th seed: no two keys share their
/// first position, so that the keys can be removed segment by segment
fn fuse_keys(r: &mut Rng) -> (Vec<u64>, String) {
  let l = match r.below(4) { 0 => 1, 1 => r.range(1, 4), 2 => r.range(1, 12), _ => r.range(1, 40) } as u64;
  let nth = match r.below(4) { 0 => 1, 1 => 2, _ => 0 };
  let mut n = (l as f64 * 102.0 * 0.879).ceil() as usize;
  while ((1.0 / 0.879) * n as f64) as u64 / 102 < l { n += 1; }
  n += r.range(0, 3);
  let mut taken = std::collections::HashSet::new();
  let mut hs = vec![];
  let special = [0u64, 1, u64::MAX, 0xffff_ffff, u64::MAX << 32, 1 << 63];
  let mut tries = 0;
  while hs.len() < n && tries < 100 * n {
    tries += 1;
    let h = if r.one_in(30) { *r.pick(&special) } else { r.next() };
    let seg = ((h & 0xffff_ffff) * 100) >> 32;
    let off = ((h.rotate_left(21) & 0xffff_ffff) * l) >> 32;
    if taken.insert(seg * l + off) { hs.push(h); }
  }
  let v: Vec<u64> = dedup(hs.into_iter().map(|h| key_for(h, nth)).collect());
  let d = format!("{} keys whose first positions under seed {nth} are distinct: {:x?}...", v.len(), &v[..v.len().min(8)]);
  (v, d)
}
pub fn c14(r: &mut Rng, n: u64) -> Case {
  // small sets give an error, large random sets a filter
  let (v, d) = match if deep() { 2 } else { n % 16 } {
    0 | 1 => { let k = r.range(0, 120); let v = dedup((0..k).map(|_| r.word()).collect()); let d = format!("{} keys", v.len()); (v, d) }
    2 => keys(r, 300),
    3 if n < 20 || n % 400 == 3 => { let k = r.range(150_000, 200_000); let b = r.next(); let mut v: Vec<u64> = (0..k as u64).map(|x| b.wrapping_add(x)).collect(); for h in [0u64, 1, u64::MAX, 0xffff_ffff, u64::MAX << 32] { v.push(key_for(h, 0)); } (dedup(v), format!("{k} keys from {b:#x} and special hashes")) }
    _ => fuse_keys(r),
  };
  members("fuse ", fuse, r, &v, &d)
}

// ---- C15 ------------------------------------------------------------------------------------
#[derive(Default, Clone)]
struct Sum(u64);
impl Hasher for Sum {
  fn finish(&self) -> u64 { self.0 }
  fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(7).wrapping_mul(0x1_0000_01b3).wrapping_add(*x as u64 + 1); } }
}
#[derive(Clone)]
struct Fnv(u64);
impl Default for Fnv { fn default() -> Self { Fnv(0xcbf2_9ce4_8422_2325) } }
impl Hasher for Fnv {
  fn finish(&self) -> u64 { self.0 }
  fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3); } }
}
#[derive(Default, Clone)]
struct Ident(u64);
impl Hasher for Ident {
  fn finish(&self) -> u64 { self.0 }
  fn write(&mut self, b: &[u8]) { let mut a = [0u8; 8]; for (i, x) in b.iter().take(8).enumerate() { a[i] = *x; } self.0 = u64::from_le_bytes(a); }
}
/// every kind of write enters in its own way
#[derive(Default, Clone)]
struct Kinds(u64);
impl Kinds { fn add(&mut self, tag: u64, x: u64) { self.0 = mix64(self.0.rotate_left(11) ^ tag.wrapping_mul(0x9e37_79b9_7f4a_7c15)).wrapping_add(mix64(x ^ tag)); } }
macro_rules! kinds { ($($f:ident $t:ty, $n:expr;)*) => { $(fn $f(&mut self, x: $t) { self.add($n, x as u64); })* } }
impl Hasher for Kinds {
  fn finish(&self) -> u64 { self.0 }
  fn write(&mut self, b: &[u8]) { self.add(1, b.len() as u64); for x in b { self.add(2, *x as u64); } }
  kinds! { write_u8 u8, 3; write_u16 u16, 4; write_u32 u32, 5; write_u64 u64, 6; write_u128 u128, 7; write_usize usize, 8; write_i8 i8, 9; write_i16 i16, 10; write_i32 i32, 11; write_i64 i64, 12; write_i128 i128, 13; write_isize isize, 14; }
}
/// a key whose slices are hashed like the key, and then some
#[derive(Clone, Debug)]
struct Odd(u64);
impl Hash for Odd {
  fn hash<H: Hasher>(&self, h: &mut H) { h.write_u64(self.0); }
  fn hash_slice<H: Hasher>(d: &[Self], h: &mut H) { h.write_usize(d.len()); for x in d { x.hash(h); } }
}
/// an exact set, and one that knows every key but the stored ones
struct Exact(std::collections::HashSet<u64>);
impl From<Vec<u64>> for Exact { fn from(v: Vec<u64>) -> Self { Exact(v.into_iter().collect()) } }
impl Filter<u64> for Exact { fn contains(&self, k: &u64) -> bool { self.0.contains(k) } fn len(&self) -> usize { self.0.len() } }
fn h<T: Hash, H: Hasher + Default>(k: &T) -> u64 { let mut x = H::default(); k.hash(&mut x); x.finish() }
fn proxy<T: Hash + Clone + std::fmt::Debug, H: Hasher + Default, F: Filter<u64> + From<Vec<u64>>>(r: &mut Rng, name: &str, ks: Vec<T>, others: Vec<T>) -> Case {
  let mut seen = std::collections::HashSet::new();
  let ks: Vec<T> = ks.into_iter().filter(|k| seen.insert(h::<T, H>(k))).collect();
  let d: String = format!("{:?}", &ks[..ks.len().min(8)]).chars().take(300).collect();
  describe(format!("hashing proxy over {name}: {} keys {d}", ks.len()), ks.is_empty());
  let p: HashProxy<T, H, F> = if r.one_in(2) { HashProxy::from(&ks) } else { HashProxy::from(ks.as_slice()) };
  for k in &ks { chk!(p.contains(k), "the proxy does not contain its key {k:?}"); }
  let hs: Vec<u64> = ks.iter().map(h::<T, H>).collect();
  let f = F::from(hs);
  for k in ks.iter().chain(&others) {
    chk!(p.contains(k) == f.contains(&h::<T, H>(k)), "the proxy's answer for {k:?} is not the filter's answer for its hash");
  }
  chk!(p.len() == f.len(), "length {} instead of {}", p.len(), f.len());
  Ok(())
}
pub fn c15(r: &mut Rng, n: u64) -> Case {
  use std::collections::hash_map::DefaultHasher as D;
  let k = if deep() { r.huge(100_000, 2_000_000) } else if n % 40 == 5 { 5000 } else { r.size(0, 300) };
  let words: Vec<u64> = (0..k).map(|_| r.word()).collect();
  let other: Vec<u64> = (0..300).map(|_| r.word()).collect();
  let text = |v: &[u64]| -> Vec<String> { v.iter().map(|x| if x % 3 == 0 { format!("{x}") } else { "x".repeat((x % 50) as usize) + &format!("{x:x}") }).collect() };
  let pair = |v: &[u64]| -> Vec<(u32, Vec<u8>)> { v.iter().map(|x| (*x as u32, x.to_be_bytes()[..(x % 9) as usize].to_vec())).collect() };
  let n = n & 0xffff_ffff;
  match n % 18 {
    10 => proxy::<u64, Kinds, Xor32>(r, "u64, hasher that tells kinds of writes apart, Xor32", words, other),
    11 => proxy::<u32, Kinds, Exact>(r, "u32, hasher that tells kinds of writes apart, exact set", words.iter().map(|x| *x as u32).collect(), other.iter().map(|x| *x as u32).collect()),
    12 => proxy::<u8, Kinds, Exact>(r, "u8, hasher that tells kinds of writes apart, exact set", words.iter().map(|x| *x as u8).collect(), (0..=255).collect()),
    13 => proxy::<String, Kinds, Xor16>(r, "String, hasher that tells kinds of writes apart, Xor16", text(&words), text(&other)),
    14 => proxy::<(u32, Vec<u8>), Kinds, Exact>(r, "(u32, Vec<u8>), hasher that tells kinds of writes apart, exact set", pair(&words), pair(&other)),
    15 => proxy::<Odd, D, Exact>(r, "keys whose slices hash differently, DefaultHasher, exact set", words.into_iter().map(Odd).collect(), other.into_iter().map(Odd).collect()),
    16 => proxy::<[i16; 3], Kinds, Xor8>(r, "[i16; 3], hasher that tells kinds of writes apart, Xor8", words.iter().map(|x| [*x as i16, (*x >> 16) as i16, (*x >> 32) as i16]).collect(), other.iter().map(|x| [*x as i16, (*x >> 16) as i16, 0]).collect()),
    17 => proxy::<Option<char>, Kinds, Exact>(r, "Option<char>, hasher that tells kinds of writes apart, exact set", words.iter().map(|x| char::from_u32(*x as u32 & 0x1ffff)).collect(), other.iter().map(|x| char::from_u32(*x as u32 & 0xffff)).collect()),
    0 => proxy::<u64, D, Xor8>(r, "u64, DefaultHasher, Xor8", words, other),
    1 => proxy::<String, D, Xor16>(r, "String, DefaultHasher, Xor16", text(&words), text(&other)),
    2 => proxy::<(u32, Vec<u8>), D, Xor32>(r, "(u32, Vec<u8>), DefaultHasher, Xor32", pair(&words), pair(&other)),
    3 => proxy::<u64, Ident, Xor32>(r, "u64, identity hasher, Xor32", words, other),
    4 => proxy::<String, Sum, Xor8>(r, "String, rolling hasher, Xor8", text(&words), text(&other)),
    5 => proxy::<String, Fnv, Xor32>(r, "String, FNV, Xor32", text(&words), text(&other)),
    6 => proxy::<u64, Ident, Exact>(r, "u64, identity hasher, exact set", words, other),
    7 => proxy::<String, Fnv, Exact>(r, "String, FNV, exact set", text(&words), text(&other)),
    8 => proxy::<(u32, Vec<u8>), Sum, Exact>(r, "(u32, Vec<u8>), rolling hasher, exact set", pair(&words), pair(&other)),
    _ => proxy::<Vec<u64>, Fnv, Exact>(r, "Vec<u64>, FNV, exact set", words.chunks(3).map(|c| c.to_vec()).collect(), other.chunks(2).map(|c| c.to_vec()).collect()),
  }
}

// ---- retrieval filter -----------------------------------------------------------------------
pub fn mix256(key: &[u64; 4], seed: &[u8; 32]) -> u64 {
  let s: Vec<u64> = seed.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
  key.iter().fold(0u64, |a, k| a.wrapping_add(s.iter().fold(0u64, |m, x| mix64(m.wrapping_add(mix64(k.wrapping_add(*x)))))))
}
/// a key with hash zero under the seed of 32 ones
pub const ZERO_SEED: [u8; 32] = [1; 32];
pub const ZERO_KEYS: &[[u64; 4]] = include!("zero_keys.in");

struct P { seed: [u8; 32], keys: Vec<[u64; 4]>, data: Vec<u32>, label: u64, modulus: u64, how: String }
impl P {
  fn text(&self) -> String {
    format!("retrieval filter: {} keys ({}) {:x?}, data {:?}, label {}, modulus {}, seed {:02x?}", self.keys.len(), self.how, &self.keys[..self.keys.len().min(6)], &self.data[..self.data.len().min(6)], self.label, self.modulus, self.seed)
  }
  fn build(&self, vec: bool) -> Result<BinaryFuseP32, String> {
    if vec { BinaryFuseP32::from_vec(self.seed, self.keys.clone(), &self.data, self.label, self.modulus) } else { BinaryFuseP32::from_slice(self.seed, &self.keys, &self.data, self.label, self.modulus) }.map_err(|e| e.to_string())
  }
}
fn rkey(r: &mut Rng) -> [u64; 4] { [r.next(), r.next(), r.next(), r.next()] }
fn p_input(r: &mut Rng, hi: usize) -> P {
  let mut seed = match r.below(6) { 0 => [0; 32], 1 => [0xff; 32], 2 => ZERO_SEED, _ => r.seed32() };
  let n = if deep() { r.huge(500_000, 9_000_000) } else { r.size(0, hi) };
  let (mut keys, how): (Vec<[u64; 4]>, String) = match if deep() { if r.one_in(4) { 0 } else { 8 } } else { r.below(9) } {
    0 => ((0..n as u64).map(|i| [i, 0, 0, 0]).collect(), "small integers".into()),
    1 => ((0..n).map(|_| [r.word(), r.word(), r.word(), r.word()]).collect(), "special words".into()),
    2 => { let mut v: Vec<[u64; 4]> = (0..n).map(|_| rkey(r)).collect(); let k = rkey(r); let at = r.range(0, v.len()); v.insert(at, k); let at = r.range(0, v.len()); v.insert(at, [k[1], k[0], k[2], k[3]]); (v, "two keys with the words permuted".into()) }
    3 | 4 => {
      // many keys in one slot of the first segment
      let base = r.range(60, 330);
      let exact = *r.pick(&[base, 64, 65, 63, 66, 128, 130, 256]);
      let lo = r.next() >> 58 << 58;
      let mut v = vec![];
      while v.len() < exact { let k = rkey(r); if mix256(&k, &seed) >> 58 == lo >> 58 { v.push(k); } }
      if r.one_in(2) { for _ in 0..r.range(0, 60) { v.push(rkey(r)); } }
      (v, format!("{exact} keys whose hashes agree in the six leading bits"))
    }
    5 if !ZERO_KEYS.is_empty() => { seed = ZERO_SEED; let mut v: Vec<[u64; 4]> = (0..n).map(|_| rkey(r)).collect(); let at = r.range(0, v.len()); v.insert(at, *r.pick(ZERO_KEYS)); if r.one_in(6) { v.push(*r.pick(ZERO_KEYS)); } (v, "one key has hash zero".into()) }
    _ => ((0..n).map(|_| rkey(r)).collect(), "random".into()),
  };
  let mut seen = std::collections::HashSet::new();
  if !deep() { keys.retain(|k| seen.insert(*k)); }
  let label = if r.one_in(2) { r.below(40) } else { r.word() };
  let modulus = match r.below(8) { 0 => 256, 1 => 1 << r.range(8, 32), 2 => (1 << r.range(8, 31)) + 1, 3 => 1 << 32, 4 => (1 << 32) - 1 - r.below(100), 5 => 257 + r.below(1000), _ => 256 + r.below((1 << 32) - 255) };
  let data = keys.iter().map(|_| match r.below(4) { 0 => u32::MAX, 1 => 0, 2 => modulus.wrapping_sub(1) as u32, _ => r.u32() }).collect();
  P { seed, keys, data, label, modulus, how }
}
pub fn c10(r: &mut Rng, n: u64) -> Case {
  let mut p = p_input(r, if n % 60 == 3 { 8000 } else { 400 });
  let vec = r.one_in(3);
  if r.one_in(12) {
    if r.one_in(2) { p.data.push(1); } else if p.data.pop().is_none() { p.data.push(2); }
    describe(format!("{} data for {}", p.data.len(), p.text()), false);
    chk!(p.build(vec).is_err(), "different numbers of keys and data are accepted");
    return Ok(());
  }
  describe(p.text(), p.keys.is_empty());
  let mut hs: Vec<u64> = p.keys.iter().map(|k| BinaryFuseP32::get_key_fingerprint(k, p.seed, 0)).collect();
  hs.sort();
  let collide = hs.windows(2).any(|w| w[0] == w[1]);
  match p.build(vec) {
    Ok(f) => {
      chk!(!collide, "two keys have the same hash, and construction succeeds");
      for (k, d) in p.keys.iter().zip(&p.data) {
        let x = f.retrieve(k, p.label);
        chk!(x as u64 == *d as u64 % p.modulus, "retrieve gives {x} for {k:x?}, data {d} modulo {}", p.modulus);
      }
      // in another order, with other keys, labels and a second filter in between
      let (label, data) = (p.label, p.data.clone());
      let mut g = None;
      if p.keys.len() <= 500 && r.one_in(3) {
        if r.one_in(2) { p.label = p.label.wrapping_add(*r.pick(&[1, 256, 65536, 1 << 32])); }
        for d in p.data.iter_mut() { *d = d.wrapping_add(r.u32()); }
        g = p.build(false).ok();
      }
      for _ in 0..if p.keys.is_empty() { 0 } else { 40 } {
        let i = r.range(0, p.keys.len() - 1);
        let k = &p.keys[i];
        if r.one_in(3) { let mut o = *k; o[r.range(0, 3)] ^= 1 << r.range(0, 63); f.retrieve(&o, label); }
        if r.one_in(3) { f.retrieve(k, label.wrapping_add(1)); }
        if let Some(g) = &g {
          let x = g.retrieve(k, p.label);
          chk!(x as u64 == p.data[i] as u64 % p.modulus, "a second filter (label {}) gives {x} for {k:x?}, data {} modulo {}", p.label, p.data[i], p.modulus);
        }
        let x = f.retrieve(k, label);
        chk!(x as u64 == data[i] as u64 % p.modulus, "retrieve gives {x} for {k:x?}, data {} modulo {} when asked again", data[i], p.modulus);
      }
      let m = f.get_fingerprints_mod();
      chk!(m.len() == f.fingerprints.len(), "{} reduced fingerprints", m.len());
      for (a, b) in m.iter().zip(f.fingerprints.iter()) { chk!(*a as u64 == *b as u64 % p.modulus, "fingerprint {b} reduced to {a}"); }
    }
    Err(_) => {}
  }
  Ok(())
}

// ---- C16 ------------------------------------------------------------------------------------
pub fn c16(r: &mut Rng, n: u64) -> Case {
  if n % 4 == 3 {
    let p = p_input(r, if n % 60 == 3 { 8000 } else { 400 });
    describe(p.text(), false);
    let Ok(f) = p.build(false) else { return Ok(()) };
    let len = f.fingerprints.len();
    let mut ks: Vec<[u64; 4]> = (0..200).map(|_| [r.word(), r.word(), r.word(), r.word()]).collect();
    ks.extend(p.keys.iter().take(100));
    // keys with extreme hashes
    for _ in 0..if deep() { 400_000 } else { 4000 } { let k = rkey(r); let x = mix256(&k, &p.seed); if x >> 54 == 0x3ff || x >> 54 == 0 || (x as u32) >> 22 == 0x3ff { ks.push(k); } }
    for k in &ks {
      f.retrieve(k, r.word());
      let e = BinaryFuseP32::hash_eval(k, p.seed, f.segment_length, f.segment_length_mask, f.segment_count_length);
      chk!(e.len() == 3 && e[0] != e[1] && e[0] != e[2] && e[1] != e[2] && e.iter().all(|i| *i < len), "key {k:x?} has positions {e:?} in {len} fingerprints");
    }
    return Ok(());
  }
  let (kind, f): (&str, fn(u64, &Vec<u64>, u64) -> Built<Box<dyn Mem>>) = match n % 4 { 0 => ("binary fuse ", bfuse), 1 => ("xor ", xor), _ => ("fuse ", fuse) };
  let (v, d) = if n % 4 == 2 && !deep() { fuse_keys(r) } else { keys(r, if n % 60 == 4 { 8000 } else { 400 }) };
  let (w, how) = (r.below(3), r.below(3));
  describe(format!("lookups in a {kind}{} filter from a {} of {d}", 8 << w, how_name(how)), false);
  if let Ok(x) = f(w, &v, how) {
    for k in probes(r, &v) { x.has(&k); }
    let mut s = 1;
    for _ in 0..3 { let seed = splitmix(&mut s); for k in seeded_probe(seed, r) { x.has(&k); } }
    x.size();
  }
  Ok(())
}

// ---- C18 ------------------------------------------------------------------------------------
pub fn c18(r: &mut Rng, n: u64) -> Case {
  match n % 4 {
    0 | 1 => {
      let (v, d) = keys(r, if n % 200 == 9 { 60000 } else { 700 });
      let (w, how) = (r.below(3), r.below(3));
      describe(format!("construction of a binary fuse {} filter from a {} of {d}", 8 << w, how_name(how)), false);
      let _ = bfuse(w, &v, how);
    }
    2 => {
      let (v, d) = if r.one_in(2) && !deep() { fuse_keys(r) } else { keys(r, 300) };
      let (w, how) = (r.below(3), r.below(3));
      describe(format!("construction of a fuse {} filter from a {} of {d}", 8 << w, how_name(how)), false);
      let _ = fuse(w, &v, how);
    }
    _ => {
      let p = p_input(r, if n % 200 == 11 { 30000 } else { 500 });
      describe(format!("construction of a {}", p.text()), false);
      let _ = p.build(r.one_in(3));
    }
  }
  Ok(())
}
