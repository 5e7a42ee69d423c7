//! The contracts that the proofs assume of external code, tried against that code: each operation is compared with the
//! body (or with the laws) that /verif/specs/ext.rs gives it.
use crate::util::{fail, Rng};
use rand_core::{RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use sha2::Digest;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Serialize, Deserialize)]
struct Words(Vec<u32>);

fn b64(b: &[u8]) -> Vec<u8> {
  let ch = |x: u8| match x { 0..=25 => 65 + x, 26..=51 => 97 + x - 26, 52..=61 => 48 + x - 52, 62 => 43, _ => 47 };
  let mut o = vec![];
  for g in b.chunks(3) {
    let (x, y, z) = (g[0], *g.get(1).unwrap_or(&0), *g.get(2).unwrap_or(&0));
    o.push(ch(x >> 2));
    o.push(ch(((x & 3) << 4) | (y >> 4)));
    o.push(if g.len() > 1 { ch(((y & 15) << 2) | (z >> 6)) } else { 61 });
    o.push(if g.len() > 2 { ch(z & 63) } else { 61 });
  }
  o
}
fn ser(w: &[u32]) -> Vec<u8> {
  let mut o: Vec<u8> = (0..8).map(|i| ((w.len() as u64) >> (8 * i)) as u8).collect();
  for x in w { o.extend((0..4).map(|i| (x >> (8 * i)) as u8)); }
  o
}
fn de(b: &[u8]) -> Option<Vec<u32>> {
  if b.len() < 8 { return None; }
  let n = (0..8).fold(0u64, |a, i| a | (b[i] as u64) << (8 * i));
  if n > ((b.len() - 8) / 4) as u64 { return None; }
  Some((0..n as usize).map(|i| (0..4).fold(0u32, |a, k| a | (b[8 + 4 * i + k] as u32) << (8 * k))).collect())
}
fn check(n: &mut u64, ok: bool, what: &str, input: &dyn Fn() -> String) {
  *n += 1;
  if !ok { fail(*n, &input(), &format!("assumed contract does not hold: {what}")); }
}

pub fn run(seed: u64) {
  let mut g = Rng::new(seed);
  let r = &mut g;
  let mut n = 0;
  for k in 0..40_000usize {
    let len = r.size(0, 300);
    let b = r.bytes(len);
    let at = || format!("{b:?}");
    // base64
    let t = base64::encode(b.clone());
    check(&mut n, t.as_bytes() == b64(&b), "base64::encode", &at);
    check(&mut n, base64::decode(&t).ok().as_ref() == Some(&b), "base64::decode of an encoding", &at);
    // bincode
    let w: Vec<u32> = b.chunks(4).map(|c| c.iter().fold(r.u32(), |a, x| a << 8 | *x as u32)).collect();
    let s = bincode::serialize(&Words(w.clone())).ok();
    check(&mut n, s == Some(ser(&w)), "bincode::serialize", &at);
    let mut s = s.unwrap_or_default();
    check(&mut n, bincode::deserialize::<Words>(&s).ok().map(|x| x.0) == Some(w.clone()), "bincode::deserialize of a serialization", &at);
    match r.below(4) {
      0 => { let m = r.below(s.len() as u64 + 1) as usize; s.truncate(m); }
      1 => { let e = r.range(0, 9); s.extend(r.bytes(e)); }
      2 => { let i = r.below(s.len() as u64) as usize; s[i] = r.next() as u8; }
      _ => { let m = r.range(0, 40); s = r.bytes(m); }
    }
    check(&mut n, bincode::deserialize::<Words>(&s).ok().map(|x| x.0) == de(&s), "bincode::deserialize", &|| format!("{s:?}"));
    // sha2: the digest depends on the concatenation of the parts
    let cut = r.below(b.len() as u64 + 1) as usize;
    let mut h = sha2::Sha256::new();
    h.update(&b[..cut]);
    h.update(&b[cut..]);
    let d = h.finalize();
    check(&mut n, d.len() == 32 && d == sha2::Sha256::digest(&b), "Sha256", &at);
    // generators: the words are a function of the seed and the position
    if k % 16 == 0 {
      let s = r.seed32();
      let (mut x, mut y) = (rand::rngs::StdRng::from_seed(s), rand::rngs::StdRng::from_seed(s));
      let m = r.range(1, 600);
      let xs: Vec<u32> = (0..m).map(|_| x.next_u32()).collect();
      let ys: Vec<u32> = (0..m).map(|_| y.next_u32()).collect();
      check(&mut n, xs == ys, "StdRng", &|| format!("{s:?}"));
    }
    // sets and maps
    if k % 16 == 1 {
      let (mut hs, mut bs) = (HashSet::new(), BTreeSet::new());
      let (mut hm, mut bm) = (HashMap::new(), BTreeMap::new());
      for _ in 0..r.range(0, 60) {
        let key = [r.below(3), r.below(2), 0, r.below(2)];
        check(&mut n, hs.insert(key) == bs.insert(key), "HashSet::insert", &|| format!("{key:?}"));
        let (a, v) = (r.below(20), r.next());
        hm.insert(a, v);
        bm.insert(a, v);
        let q = r.below(20);
        check(&mut n, hm.get(&q) == bm.get(&q) && hm.len() == bm.len(), "HashMap", &|| format!("{q}"));
      }
    }
    // integers, byte orders, conversions
    let x = r.word();
    let e = r.below(64) as u32;
    let y = r.word();
    let num = || format!("{x} {y} {e}");
    check(&mut n, 2u64.pow(e) == 1 << e && 2u32.pow(e % 32) == 1 << (e % 32) && 2u8.pow(e % 8) == 1 << (e % 8), "pow", &num);
    check(&mut n, x.overflowing_mul(y).0 == (x as u128 * y as u128) as u64 && x.overflowing_add(y).0 == (x as u128 + y as u128) as u64, "overflowing operations", &num);
    check(&mut n, (x as u32).to_le_bytes() == [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8] && u32::from_le_bytes((x as u32).to_le_bytes()) == x as u32 && u64::from_le_bytes(x.to_le_bytes()) == x, "byte orders", &num);
    let i = (x & 0x1f_ffff_ffff_ffff) as usize;
    check(&mut n, ((i as f64) / 8f64).floor() as usize == i / 8, "division by 8 in f64", &num);
    check(&mut n, std::cmp::min(x, y) == if y < x { y } else { x }, "min", &num);
    check(&mut n, Vec::into_boxed_slice(b.clone())[..] == b[..] && b.to_vec() == b && <[u8; 7]>::try_from(b.clone()).is_ok() == (b.len() == 7), "vectors", &at);
    let rs: Vec<Result<u8, usize>> = b.iter().enumerate().map(|(i, v)| if *v == 7 { Err(i) } else { Ok(*v) }).collect();
    check(&mut n, match rs.into_iter().collect::<Result<Vec<u8>, usize>>() { Ok(o) => o == b && !b.contains(&7), Err(i) => b.get(i) == Some(&7) }, "collecting results", &at);
  }
  println!("OK {}", serde_json::json!({ "evaluations": n }));
}
