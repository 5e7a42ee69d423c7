from b1 import PRE, HELP
from b2 import FPRE
BUGS = {
 'round-f32': dict(prop='C09', edits=[('src/api.rs', '''        let scaled_res = unscaled_res / rounding_factor;
        let scaled_rem = unscaled_res % rounding_factor;
        let mut rounded_res = scaled_res;
        if scaled_rem > rounding_floor {
          rounded_res += 1;
        }
        rounded_res % plaintext_size''', '''        let _ = rounding_floor;
        let scaled_res = unscaled_res as f32 / rounding_factor as f32;
        scaled_res.round() as u32 % plaintext_size''')],
  needs='noise within a few units of half a step', breaks='single precision rounds the word up',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..4).map(|i| base64::encode([200 + i])).collect();
  let sh = Shard::from_base64_strings(&e, 2, 4, 8, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let qp = generate_index_query_params(&cp, sh.get_base_params()).unwrap();
  let rhs: Vec<u32> = serde_json::from_value(serde_json::to_value(&qp).unwrap()["rhs"].clone()).unwrap();
  // the word 201 with the largest noise below half a step
  let w = vec![rhs[0].wrapping_add(201 << 24).wrapping_add((1 << 23) - 1)];
  let r: Response = bincode::deserialize(&bincode::serialize(&w).unwrap()).unwrap();
  std::process::exit((qp.parse_resp_as_row(&r) != [201]) as i32);
}'''),
 'ternary-pool': dict(prop='C17', edits=[('src/utils.rs', '''  pub fn random_ternary() -> u32 {''', '''  fn pooled_u32() -> u32 {
    // draws of the system generator, fetched sixteen at a time
    static POOL: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(Vec::new());
    let mut pool = POOL.lock().unwrap();
    if pool.len() <= 1 {
      for _ in pool.len()..16 {
        pool.push(OsRng.next_u32());
      }
      return pool[0];
    }
    pool.pop().unwrap()
  }

  pub fn random_ternary() -> u32 {'''), ('src/utils.rs', '''    let mut val = OsRng.next_u32();''', '''    let mut val = pooled_u32();'''), ('src/utils.rs', '''      val = OsRng.next_u32();
    }''', '''      val = pooled_u32();
    }''')],
  needs='looking at every sixteenth draw', breaks='the oldest draw of the pool is never removed and used again with every refill',
  demo=PRE + HELP + r'''
fn main() {
  let n = 64;
  let e: Vec<String> = (0..n).map(|i| base64::encode([i as u8])).collect();
  let sh = Shard::from_base64_strings(&e, 4, n, 8, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  // a zero secret leaves the noise alone: look for a period
  let mut v = Vec::new();
  for _ in 0..8 { v.extend(cp.mult_left(&[0; 4]).unwrap()); }
  let bad = (14..18).any(|p| (0..p).any(|o| { let x: Vec<u32> = v.iter().skip(o).step_by(p).copied().collect(); x.iter().all(|y| *y == x[0]) }));
  std::process::exit(bad as i32);
}'''),
 'matrix-cache': dict(prop='C06', edits=[('src/utils.rs', '''    let mut lhs = Vec::with_capacity(width);
    let mut rng = get_seeded_rng(seed);''', '''    // the server derives the same matrix several times: remember the last one
    static LAST: std::sync::Mutex<Option<([u8; 32], Vec<Vec<u32>>)>> =
      std::sync::Mutex::new(None);
    if let Some((s, m)) = LAST.lock().unwrap().as_ref() {
      if *s == seed && m.len() == width {
        return m.clone();
      }
    }
    let mut lhs = Vec::with_capacity(width);
    let mut rng = get_seeded_rng(seed);'''), ('src/utils.rs', '''      lhs.push(v);
    }
    lhs
  }''', '''      lhs.push(v);
    }
    *LAST.lock().unwrap() = Some((seed, lhs.clone()));
    lhs
  }''')],
  needs='two parameter sets with the same seed and number of rows and different dimensions', breaks='the second gets the matrix of the first',
  demo=PRE + HELP + r'''
use keyword_pir_lwe::db::*;
fn main() {
  let e: Vec<String> = (0..8).map(|i| base64::encode(bytes(4, i))).collect();
  let sh = Shard::from_base64_strings(&e, 16, 8, 32, 8).unwrap();
  let bp = sh.get_base_params();
  let _ = CommonParams::from(bp);
  let mut j = serde_json::to_value(bp).unwrap();
  j["dim"] = 5.into();
  let small: IndexParams = serde_json::from_value(j).unwrap();
  let m = CommonParams::from(&small);
  std::process::exit(m.as_matrix().iter().any(|r| r.len() != 5) as i32);
}'''),
 'respond-threads': dict(prop='C05', edits=[('src/api.rs', '''      (0..self.db.get_row_width_self())
        .map(|i| self.db.vec_mult(q, i))
        .collect(),
    );
    let ser''', '''      std::thread::scope(|s| {
        let width = self.db.get_row_width_self();
        // a thread for each block of columns, at most eight
        let block = (width / 8).max(64);
        let parts: Vec<_> = (0..width)
          .step_by(block)
          .take(8)
          .map(|from| {
            let to = (from + block).min(width);
            s.spawn(move || {
              (from..to).map(|i| self.db.vec_mult(q, i)).collect::<Vec<u32>>()
            })
          })
          .collect();
        parts.into_iter().flat_map(|p| p.join().unwrap()).collect()
      }),
    );
    let ser''')],
  needs='more than 512 columns, not divisible by eight', breaks='the columns of the ninth block are missing from the answer',
  demo=PRE + HELP + r'''
fn main() {
  let w = 645;
  let e: Vec<String> = (0..3).map(|i| base64::encode(bytes(w, i))).collect();
  let sh = Shard::from_base64_strings(&e, 1, 3, w * 8, 8).unwrap();
  let query: Query = bincode::deserialize(&bincode::serialize(&vec![1u32, 2, 3]).unwrap()).unwrap();
  let r: Vec<u32> = bincode::deserialize(&sh.respond(&query).unwrap()).unwrap();
  std::process::exit((r.len() != w) as i32);
}'''),
 'element-intern': dict(prop='C02', edits=[('src/db/index.rs', '''  let result = (0..m).map(|i| -> ResultBoxedError<Vec<u32>> {''', '''  // repeated elements are decoded once
  let mut seen = std::collections::HashMap::new();
  for (i, e) in elements.iter().enumerate() {
    seen.entry(e.get(..64).unwrap_or(e)).or_insert(i);
  }
  let elements: Vec<&String> = elements
    .iter()
    .map(|e| &elements[seen[e.get(..64).unwrap_or(e)]])
    .collect();
  let result = (0..m).map(|i| -> ResultBoxedError<Vec<u32>> {''')],
  needs='two elements that agree in their first 48 bytes', breaks='the second is stored as the first',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..4u8).map(|i| { let mut b = vec![7u8; 60]; b[55] = i; base64::encode(b) }).collect();
  let sh = Shard::from_base64_strings(&e, 4, 4, 480, 8).unwrap();
  let cp = CommonParams::from(sh.get_base_params());
  let mut qp = generate_index_query_params(&cp, sh.get_base_params()).unwrap();
  let r: Response = bincode::deserialize(&sh.respond(&qp.generate_query(2).unwrap()).unwrap()).unwrap();
  std::process::exit((qp.parse_resp_as_base64(&r) != e[2]) as i32);
}'''),
 'short-pad': dict(prop='C07', edits=[('src/utils.rs', '''    base64::encode(bytes_from_u32_slice(v, entry_bit_len, total_bit_len))''', '''    let bytes = bytes_from_u32_slice(v, entry_bit_len, total_bit_len);
    // encoded piecewise, so that no second buffer of the full size is needed
    bytes.chunks(1 << 12).map(base64::encode).collect()''')],
  needs='an element of more than 4096 bytes', breaks='the text has padding in the middle',
  demo=PRE + HELP + r'''
fn main() {
  let e: Vec<String> = (0..2).map(|i| base64::encode(bytes(5000, i))).collect();
  let sh = Shard::from_base64_strings(&e, 1, 2, 40000, 8).unwrap();
  std::process::exit((sh.into_row_iter().collect::<Vec<_>>() != e) as i32);
}'''),
 'positions-cache': dict(prop='C11', edits=[('src/db/kv.rs', '''    BinaryFuseP32::hash_eval(
      key,
      self.seed,''', '''    // clients ask for the same key when they query and decode
    static LAST: std::sync::Mutex<Option<([u64; 4], [u8; 32], Vec<usize>)>> =
      std::sync::Mutex::new(None);
    let mut last = LAST.lock().unwrap();
    if let Some((k, s, p)) = last.as_ref() {
      if k[..3] == key[..3] && *s == self.seed {
        return p.clone();
      }
    }
    let p = BinaryFuseP32::hash_eval(
      key,
      self.seed,'''), ('src/db/kv.rs', '''      self.segment_length_mask,
      self.segment_count_length,
    )
  }

  fn get_key''', '''      self.segment_length_mask,
      self.segment_count_length,
    );
    *last = Some((*key, self.seed, p.clone()));
    p
  }

  fn get_key''')],
  needs='two keys in a row that agree in their first three words', breaks='the second key gets the positions of the first',
  demo=PRE + HELP + r'''
use keyword_pir_lwe::db::*;
fn main() {
  let (k, v) = kvs(20, 4, 8, 3);
  let sh = KVShard::from_base64_strings(&k, &v, 1, 20, 32, 8).unwrap();
  let fp = sh.get_base_params().get_filter_params();
  let a = fp.get_hash_evals(&[1, 2, 3, 4]);
  let bad = (5..40).all(|i| fp.get_hash_evals(&[1, 2, 3, i]) == a);
  std::process::exit(bad as i32);
}'''),
 'peel-parity': dict(prop='C10', edits=[('bff-modp/src/prelude/bfusep.rs', '''                    if stack_size + duplicates == size {''', '''                    if stack_size + duplicates * 2 >= size {''')] if False else [('bff-modp/src/prelude/bfusep.rs', '''                let data = hm_keys.get(&hash).unwrap();''', '''                let data = hm_keys.get(&hash).unwrap_or(&0);''')],
  needs='-', breaks='-', demo=''),
 'row-iter-skip': dict(prop='C07', edits=[('src/api.rs', '''    (0..self.get_db().get_matrix_height())
      .map(|i| self.get_db().get_db_entry(i))
      .collect::<Vec<String>>()
      .into_iter()
  }
}

/// An EncodedKV''' if False else '''  pub fn into_row_iter(&self) -> std::vec::IntoIter<std::string::String> {
    (0..self.get_db().get_matrix_height())
      .map(|i| self.get_db().get_db_entry(i))
      .collect::<Vec<String>>()
      .into_iter()
  }''', '''  pub fn into_row_iter(&self) -> std::vec::IntoIter<std::string::String> {
    let mut rows: Vec<String> = (0..self.get_db().get_matrix_height())
      .map(|i| self.get_db().get_db_entry(i))
      .collect();
    // neighbouring rows share their memory when they are equal
    rows.dedup_by(|b, a| a == b && a.capacity() > 4096);
    rows.into_iter()
  }''')], first=True,
  needs='two neighbouring equal elements of more than 3072 bytes', breaks='the second is left out of the listing',
  demo=PRE + HELP + r'''
fn main() {
  let x = base64::encode(bytes(4000, 3));
  let e = vec![x.clone(), x];
  let sh = Shard::from_base64_strings(&e, 1, 2, 32000, 8).unwrap();
  std::process::exit((sh.into_row_iter().collect::<Vec<_>>() != e) as i32);
}'''),
}
del BUGS['peel-parity']
