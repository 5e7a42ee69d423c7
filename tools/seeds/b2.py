from b1 import PRE, HELP
FPRE = r'''
#![allow(unused)]
use xorf::*;
use std::convert::TryFrom;
fn mix64(mut k: u64) -> u64 { k ^= k >> 33; k = k.wrapping_mul(0xff51_afd7_ed55_8ccd); k ^= k >> 33; k = k.wrapping_mul(0xc4ce_b9fe_1a85_ec53); k ^= k >> 33; k }
fn inv(a: u64) -> u64 { let mut x = a; for _ in 0..6 { x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x))); } x }
fn unmix64(mut k: u64) -> u64 { k ^= k >> 33; k = k.wrapping_mul(inv(0xc4ce_b9fe_1a85_ec53)); k ^= k >> 33; k = k.wrapping_mul(inv(0xff51_afd7_ed55_8ccd)); k ^= k >> 33; k }
fn splitmix(s: &mut u64) -> u64 { *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15); let mut z = *s; z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb); z ^ (z >> 31) }
fn seed1() -> u64 { let mut r = 1; splitmix(&mut r) }
fn rnd(n: usize, s: u64) -> Vec<u64> { let mut r = s; (0..n).map(|_| splitmix(&mut r)).collect() }
'''
BUGS = {
 'row-width-f32': dict(prop='C02', edits=[('src/db/index.rs', '''    let mut quo = element_size / plaintext_bits;
    if element_size % plaintext_bits != 0 {
      quo += 1;
    }
    quo''', '''    (element_size as f32 / plaintext_bits as f32).ceil() as usize''')],
  needs='an element of more than 2^24 bits', breaks='the row has a word too few: the last bits of the element are lost',
  demo=PRE + HELP + r'''
fn main() {
  let es = (1 << 24) + 1; let pb = 8;
  let mut b = bytes((es + 7) / 8, 5);
  *b.last_mut().unwrap() = 1;
  let e = vec![base64::encode(b)];
  let sh = Shard::from_base64_strings(&e, 4, 1, es, pb).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  // the last word must be there, and be part of the row
  let qp = generate_index_query_params(&cp, sh.get_base_params());
  let mut qp = qp.unwrap();
  let r: Response = bincode::deserialize(&sh.respond(&qp.generate_query(0).unwrap()).unwrap()).unwrap();
  std::process::exit((qp.parse_resp_as_base64(&r) != e[0]) as i32);
}'''),
 'clone-fresh': dict(prop='C03', edits=[('src/api.rs', '''#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QueryParams<DB, EP> {''', '''#[derive(Debug, Serialize, Deserialize)]
pub struct QueryParams<DB, EP> {'''), ('src/api.rs', '''impl QueryParams<IndexDatabase, EmptyAuxParams> {''', '''impl<DB, EP: Clone> Clone for QueryParams<DB, EP> {
  fn clone(&self) -> Self {
    Self {
      lhs: self.lhs.clone(),
      rhs: self.rhs.clone(),
      elem_size: self.elem_size,
      plaintext_bits: self.plaintext_bits,
      db: PhantomData,
      extra_params: self.extra_params.clone(),
      used: false,
    }
  }
}

impl QueryParams<IndexDatabase, EmptyAuxParams> {''')], first=True,
  needs='cloning used parameters', breaks='the copy is unused and produces a second query under the same mask',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..8).map(|i| base64::encode(bytes(4, i))).collect();
  let sh = Shard::from_base64_strings(&e, 16, 8, 32, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let mut qp = generate_index_query_params(&cp, sh.get_base_params()).unwrap();
  qp.generate_query(3).unwrap();
  std::process::exit(qp.clone().generate_query(5).is_ok() as i32);
}'''),
 'wide-word-err': dict(prop='C07', edits=[('src/utils.rs', 'if byte_len > u32_len {', 'if byte_len >= u32_len {')],
  needs='25 or more plaintext bits', breaks='elements cannot be split into words of more than three bytes',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..8).map(|i| base64::encode(bytes(16, i))).collect();
  let sh = match Shard::from_base64_strings(&e, 16, 8, 128, 27) { Ok(s) => s, Err(_) => std::process::exit(1) };
  let l: Vec<String> = sh.into_row_iter().collect();
  std::process::exit((l != e) as i32);
}'''),
 'trim-base64': dict(prop='C08', edits=[('src/db/index.rs', 'let bytes = base64::decode(element)?;', 'let bytes = base64::decode(element.trim())?;')],
  needs='an element with white space around its base64 text', breaks='text that is not base64 is accepted',
  demo=PRE + HELP + r'''
fn main() {
  let mut e: Vec<String> = (0..8).map(|i| base64::encode(bytes(4, i))).collect();
  e[3].push('\n');
  std::process::exit(Shard::from_base64_strings(&e, 16, 8, 32, 8).is_ok() as i32);
}'''),
 'kv-round-one': dict(prop='C09', edits=[('src/api.rs', '''          let mut rounded_res = scaled_res;
          if scaled_rem > rounding_floor {''', '''          let mut rounded_res = scaled_res;
          if scaled_rem > rounding_floor + 1 {''')],
  needs='the largest negative noise: one above minus half a step', breaks='the keyword client decodes the word below',
  demo=PRE + HELP + r'''
fn main() {
  let pb = 8; let w = 4; let n = 20;
  let (k, v) = kvs(n, w, pb, 3);
  let sh = KVShard::from_base64_strings(&k, &v, 16, n, w * pb, pb).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let kv = sha256_into_u64_sized(k[0].as_bytes()).unwrap();
  let qp = generate_kv_query_params(&cp, sh.get_base_params()).unwrap();
  let j = serde_json::to_value(&qp).unwrap();
  let rhs: Vec<u32> = serde_json::from_value(j["rhs"].clone()).unwrap();
  let enc = |noise: u32| -> Vec<u32> {
    let r: Vec<u32> = rhs.iter().map(|x| x.wrapping_add(100u32 << 24).wrapping_add(noise)).collect();
    let r: Response = bincode::deserialize(&bincode::serialize(&r).unwrap()).unwrap();
    qp.parse_resp_as_row(&r, &kv).unwrap()
  };
  let half = 1u32 << 23;
  std::process::exit((enc(0) != enc((half - 1).wrapping_neg()) || enc(0) != enc(half - 1)) as i32);
}'''),
 'data-surplus': dict(prop='C10', edits=[('bff-modp/src/bfusep32.rs', 'if data.len() != keys.len() {', 'if data.len() < keys.len() {')],
  needs='more data words than keys', breaks='surplus data is ignored instead of giving an error',
  demo=FPRE + r'''
fn main() {
  let keys: Vec<[u64; 4]> = rnd(40, 3).chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
  let data: Vec<u32> = (0..11).collect();
  let ok = (0..50u8).any(|s| BinaryFuseP32::from_slice([s; 32], &keys, &data, 1, 1024).is_ok());
  std::process::exit(ok as i32);
}'''),
 'dup-count-loose': dict(prop='C12', edits=[('bff-modp/src/prelude/bfuse.rs', '''                        if ((t2hash[index1] == 0) && (t2count[index1] == 8)) ||
                           ((t2hash[index2] == 0) && (t2count[index2] == 8)) ||
                           ((t2hash[index3] == 0) && (t2count[index3] == 8)) {''', '''                        if ((t2hash[index1] == 0) && (t2count[index1] >= 8)) ||
                           ((t2hash[index2] == 0) && (t2count[index2] >= 8)) ||
                           ((t2hash[index3] == 0) && (t2count[index3] >= 8)) {''')],
  needs='several keys in one slot whose hashes cancel out', breaks='a key is taken for a duplicate and left out of the filter',
  demo=FPRE + r'''
fn main() {
  let s = seed1();
  let mut bad = 0;
  // three or more keys with the same first position and hashes that xor to zero
  for t in 0..400u64 {
    let r = rnd(2, t * 7 + 1);
    let a = r[0] >> 16; let b = r[1] >> 16;
    let c = a ^ b;
    let mut keys: Vec<u64> = [a, b, c].iter().map(|h| unmix64(*h).wrapping_sub(s)).collect();
    keys.sort(); keys.dedup();
    if keys.len() < 3 { continue; }
    let f = match std::panic::catch_unwind(|| BinaryFuse16::try_from(&keys)) { Ok(Ok(f)) => f, _ => continue };
    if keys.iter().any(|k| !f.contains(k)) { bad += 1; }
  }
  println!("{bad}");
  std::process::exit((bad > 0) as i32);
}'''),
 'retry-keeps-hash': dict(prop='C18', edits=[('bff-modp/src/prelude/bfuse.rs', '''                // Filter failed to be created; reset for a retry.
                for i in 0..size {
                    reverse_order[i] = 0;
                }
                for i in 0..capacity {
                    t2count[i] = 0;
                    t2hash[i] = 0;
                }''', '''                // Filter failed to be created; reset for a retry.
                for i in 0..size {
                    reverse_order[i] = 0;
                }
                for i in 0..capacity {
                    t2count[i] = 0;
                }''')],
  needs='a key set whose first seed fails', breaks='hashes of the failed attempt are left in the slots of the next one: construction panics or loses keys',
  demo=FPRE + r'''
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let mut bad = 0;
  for t in 0..3000u64 {
    let keys = rnd(2 + (t % 60) as usize, t + 1);
    match std::panic::catch_unwind(|| BinaryFuse32::try_from(&keys)) {
      Err(_) => bad += 1,
      Ok(Ok(f)) => bad += keys.iter().any(|k| !f.contains(k)) as usize,
      Ok(Err(_)) => {}
    }
  }
  println!("{bad}");
  std::process::exit((bad > 0) as i32);
}'''),
 'vec-skip-zero': dict(prop='C12', edits=[('bff-modp/src/bfuse32.rs', '''    fn try_from(v: Vec<u64>) -> Result<Self, Self::Error> {
        Self::try_from(v.as_slice())''', '''    fn try_from(mut v: Vec<u64>) -> Result<Self, Self::Error> {
        // a padded batch ends in zeroes
        while v.last() == Some(&0) {
            v.pop();
        }
        Self::try_from(v.as_slice())''')],
  needs='a vector whose last key is zero', breaks='the key zero is left out of the filter',
  demo=FPRE + r'''
fn main() {
  let mut keys = rnd(100, 5);
  keys.push(0);
  let mut bad = 0;
  for i in 0..20 {
    keys[0] += 1;
    if let Ok(f) = BinaryFuse32::try_from(keys.clone()) { bad += keys.iter().filter(|k| !f.contains(k)).count(); }
  }
  std::process::exit((bad > 0) as i32);
}'''),
 'xor-no-slack': dict(prop='C13', edits=[('bff-modp/src/prelude/xor.rs', 'let capacity = (1.23 * num_keys as f64) as usize + 32;', 'let capacity = (1.23 * num_keys as f64) as usize + num_keys.min(32);')],
  needs='the empty key set, or a single key', breaks='the empty filter has no slots: looking a key up panics',
  demo=FPRE + r'''
fn main() {
  let k: Vec<u64> = vec![];
  let a = std::panic::catch_unwind(|| { let f = Xor32::from(&k); f.contains(&7); f.contains(&0); }).is_err();
  let b = std::panic::catch_unwind(|| { let f = Xor8::from(vec![9u64]); f.contains(&9) }).map_or(true, |x| !x);
  std::process::exit((a || b) as i32);
}'''),
 'xor-fold-blocks': dict(prop='C13', edits=[('bff-modp/src/prelude/xor.rs', '''                    ^ B[(xor_h!(index block 2, of length block_length, using ki.hash) + 2 * block_length)];''', '''                    ^ B[(xor_h!(index block 2, of length block_length, using ki.hash) + 2 * block_length) % (1 << 22)];''')],
  needs='more than 3.4 million keys', breaks='the third block wraps around: keys are lost',
  timeout=280, demo=FPRE + r'''
fn main() {
  let keys = rnd(4_000_000, 11);
  let f = Xor8::from(&keys);
  std::process::exit(keys.iter().any(|k| !f.contains(k)) as i32);
}'''),
 'fuse-accept-near': dict(prop='C14', edits=[('bff-modp/src/prelude/fuse.rs', 'if stack_size == num_keys {', 'if stack_size + 2 >= num_keys {')],
  needs='a key set of which all keys but two can be placed', breaks='the filter is returned without the last two keys',
  demo=FPRE + r'''
fn main() {
  let s = seed1();
  // 90 keys: 89 different segments, one of them twice
  let mut bad = 0;
  for t in 0..50u64 {
    let keys: Vec<u64> = rnd(90, t + 1).iter().enumerate().map(|(i, h)| {
      let seg = if i == 89 { 40 } else { i as u64 };
      unmix64(h & !0xffff_ffff | ((seg << 32) / 100 + 1000)).wrapping_sub(s)
    }).collect();
    if let Ok(f) = Fuse32::try_from(&keys) { bad += keys.iter().filter(|k| !f.contains(k)).count(); }
  }
  println!("{bad}");
  std::process::exit((bad > 0) as i32);
}'''),
 'slot-count-u8': dict(prop='C18', edits=[('bff-modp/src/prelude/mod.rs', '''pub struct HSet {
    pub count: u32,''', '''pub struct HSet {
    pub count: u8,''')],
  needs='256 keys in one slot of a fuse filter', breaks='the slot counter overflows: construction panics',
  demo=FPRE + r'''
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let s = seed1();
  let n = 300;
  let keys: Vec<u64> = rnd(n, 3).iter().map(|h| unmix64(h & 0xffff_ffff_01ff_f800).wrapping_sub(s)).collect();
  let mut k = keys.clone(); k.sort(); k.dedup();
  assert!(k.len() >= 280);
  let bad = std::panic::catch_unwind(|| { let _ = Fuse32::try_from(&k); }).is_err();
  std::process::exit(bad as i32);
}'''),
 'proxy-hash-slice': dict(prop='C15', edits=[('bff-modp/src/hash_proxy.rs', '''        let keys: Vec<u64> = keys.iter().map(hash::<T, H>).collect();''', '''        let keys: Vec<u64> = keys
            .chunks(1)
            .map(|k| {
                let mut hasher = H::default();
                T::hash_slice(k, &mut hasher);
                hasher.finish()
            })
            .collect();''')],
  needs='a hasher that treats a number and its bytes differently', breaks='the filter is built over other hashes than the ones looked up',
  demo=FPRE + r'''
use std::hash::Hasher;
#[derive(Default)]
struct Fx(u64);
impl Hasher for Fx {
  fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517c_c1b7_2722_0a95); } }
  fn write_u32(&mut self, x: u32) { self.0 = (self.0.rotate_left(5) ^ x as u64).wrapping_mul(0x517c_c1b7_2722_0a95); }
  fn finish(&self) -> u64 { self.0 }
}
fn main() {
  let keys: Vec<u32> = (0..200).map(|i| i * 77).collect();
  let p: HashProxy<u32, Fx, Xor32> = HashProxy::from(&keys);
  std::process::exit(keys.iter().any(|k| !p.contains(k)) as i32);
}'''),
 'trim-tail': dict(prop='C16', edits=[('bff-modp/src/prelude/bfusep.rs', '''            let mut fingerprints: Box<[u32]> = make_fp_block!(fp_array_len);

            let capacity = fingerprints.len();''', '''            let mut fingerprints: Box<[u32]> = make_fp_block!(fp_array_len);

            let capacity = fingerprints.len();
            let mut used_len = 0;'''), ('bff-modp/src/prelude/bfusep.rs', '''                let found = reverse_h[i] as usize;
		            h012[0]''', '''                used_len = used_len.max(index3 as usize + 1);
                let found = reverse_h[i] as usize;
		            h012[0]'''), ('bff-modp/src/prelude/bfusep.rs', '''            Ok(Self {
                $seed,
                segment_length,
                segment_length_mask,
                segment_count_length,
                fingerprints,''', '''            // the slots above the last one in use are not needed
            let fingerprints = fingerprints.into_vec()[..used_len].to_vec().into_boxed_slice();

            Ok(Self {
                $seed,
                segment_length,
                segment_length_mask,
                segment_count_length,
                fingerprints,''')],
  needs='looking up an absent key', breaks='its positions lie outside the fingerprint array: the lookup panics',
  demo=FPRE + r'''
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let r = rnd(4 * 30, 3);
  let keys: Vec<[u64; 4]> = r.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
  let data: Vec<u32> = (0..30).collect();
  let mut bad = false;
  for s in 0..20u8 {
    let f = match BinaryFuseP32::from_slice([s; 32], &keys, &data, 1, 1024) { Ok(f) => f, Err(_) => continue };
    bad |= (0..2000u64).any(|i| std::panic::catch_unwind(|| f.retrieve(&[i, 1, 2, 3], 1)).is_err());
  }
  std::process::exit(bad as i32);
}'''),
 'start-u32': dict(prop='C18', edits=[('bff-modp/src/prelude/bfuse.rs', 'start_pos[i] = (((i as u64) * (size as u64)) >> block_bits) as usize;', 'start_pos[i] = ((i as u32 * size as u32) >> block_bits) as usize;')],
  needs='nine million keys', breaks='the start positions overflow: construction panics',
  timeout=280, demo=FPRE + r'''
fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let k = rnd(10_000_000, 2);
  let bad = std::panic::catch_unwind(|| { let _ = BinaryFuse32::try_from(&k); }).is_err();
  std::process::exit(bad as i32);
}'''),
 'kv-file-dedup': dict(prop='C20', edits=[('src/api.rs', '''    let enc_kvs: Vec<EncodedKV> = serde_json::from_str(&file_contents).unwrap();''', '''    let mut enc_kvs: Vec<EncodedKV> =
      serde_json::from_str(&file_contents).unwrap();
    enc_kvs.dedup_by(|a, b| a.key == b.key);''')],
  needs='a file in which a key is repeated', breaks='the file is accepted (with one of the values), while the same strings are rejected',
  demo=PRE + HELP + r'''
fn main() {
  let (mut k, v) = kvs(6, 4, 8, 3);
  k[4] = k[3].clone();
  let j: Vec<_> = k.iter().zip(&v).map(|(k, v)| serde_json::json!({"key": k, "value": v})).collect();
  let d = std::env::temp_dir().join(format!("demo-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap();
  let p = d.join("kv.json"); std::fs::write(&p, serde_json::to_string(&j).unwrap()).unwrap();
  let a = KVShard::from_json_file(p.to_str().unwrap(), 16, 6, 32, 8).is_ok();
  let b = KVShard::from_base64_strings(&k, &v, 16, 6, 32, 8).is_ok();
  std::fs::remove_dir_all(&d).unwrap();
  std::process::exit((a != b) as i32);
}'''),
 'load-limit': dict(prop='C20', edits=[('src/db/index.rs', 'let reader = BufReader::new(fs::File::open(params_path)?);', 'let reader = BufReader::new(fs::File::open(params_path)?.take(1 << 20));'), ('src/db/index.rs', 'use std::io::BufReader;', 'use std::io::{BufReader, Read};')],
  needs='public parameters of more than 1 MiB of text', breaks='the saved file cannot be loaded',
  demo=PRE + HELP + r'''
fn main() {
  let n = 20; let w = 400;
  let e: Vec<String> = (0..n).map(|i| base64::encode(bytes(w, i))).collect();
  let sh = Shard::from_base64_strings(&e, 300, n as usize, w * 8, 8).unwrap();
  let d = std::env::temp_dir().join(format!("demo-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap();
  let (a, p) = (d.join("db"), d.join("params"));
  sh.write_to_file(a.to_str().unwrap(), p.to_str().unwrap()).unwrap();
  let ok = match keyword_pir_lwe::db::IndexParams::load(p.to_str().unwrap()) {
    Ok(v) => serde_json::to_value(&v).unwrap() == serde_json::to_value(sh.get_base_params()).unwrap(),
    Err(_) => false,
  };
  std::fs::remove_dir_all(&d).unwrap();
  std::process::exit(!ok as i32);
}
'''),
 'second-at-short': dict(prop='C19', edits=[('src/utils.rs', 'matrix.iter().map(|y| y[secidx]).collect()', 'matrix[..matrix.len().min(1 << 16)].iter().map(|y| y[secidx]).collect()')],
  needs='a matrix of more than 65536 columns', breaks='the extracted row is cut off',
  demo=PRE + HELP + r'''
fn main() {
  let es = 70_000 * 8;
  let e = vec![base64::encode(bytes(es / 8, 5))];
  let sh = Shard::from_base64_strings(&e, 4, 1, es, 8).unwrap();
  let a = sh.get_db().get_db_entry(0);
  std::process::exit((a != e[0]) as i32);
}'''),
}
