// Whole-protocol statements: each function below runs the real public functions in sequence and
// its postcondition is what a client gets at the end.  Only contracts are used, never bodies.
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use crate::ext::*;
use crate::files::*;
use crate::math::*;
use crate::api::*;
use crate::db::*;
use crate::index::*;
use crate::format::*;
use crate::matrices::*;
use crate::lwe::*;
use crate::kv::*;
use crate::prelude::*;
use crate::bfusep32::*;
verus! {

// number of rows times the largest word stays below half a rounding step
pub open spec fn params_ok(m: int, pb: nat) -> bool {
  1 <= pb < 32 && 2 * (m * (pow2(pb) - 1)) < pow2((32 - pb) as nat)
}

pub proof fn lemma_pir(
  a: Seq<Vec<u32>>, seed: Seq<u8>, dim: int, m: int, hint: Seq<Vec<u32>>, cols: Seq<Vec<u32>>, lhs: Seq<u32>, rhs: Seq<u32>,
  s: Seq<u32>, e: Seq<u32>, q: Seq<u32>, sel: spec_fn(int) -> int, w: Seq<u32>, pb: nat, c: int, res: u32, add: int,
)
  requires
    lwe_matrix(a, seed, dim, m), is_hint(hint, cols, seed, dim, m), rect(cols, m), m >= 1, dim >= 0,
    is_fresh_client(lhs, rhs, a, hint, dim, s, e), is_query(q, lhs, pb, sel), is_answer(w, q, cols, m),
    forall|r: int| 0 <= r < m ==> #[trigger] sel(r) >= 0,
    forall|c: int, r: int| 0 <= c < cols.len() && 0 <= r < m ==> ((#[trigger] cols[c]@[r]) as int) < pow2(pb),
    params_ok(m, pb), 0 <= c < cols.len(), decodes(res, (w[c] - rhs[c]) % M32, pb, add),
  ensures res as int == (sum(|r: int| sel(r) * cols[c]@[r], m) + add) % (pow2(pb) as int),
{
  let col = cols[c]@;
  let scale = pow2((32 - pb) as nat) as int;
  let bound = pow2(pb) - 1;
  lemma_pow2_pos(pb);
  let lwe = |j: int| lwe_col(seed, dim, j, m);
  assert forall|r: int| 0 <= r < m implies cong((#[trigger] q[r]) as int, dot(s, a[r]@, dim) + e[r] + scale * sel(r)) by {
    let x = dot(s, a[r]@, dim) + e[r];
    assert(lhs[r] as int == x % M32);
    assert(q[r] as int == (lhs[r] + scale * sel(r)) % M32);
    lemma_cong_mod(x);
    lemma_cong_mod(lhs[r] + scale * sel(r));
    lemma_cong_add(lhs[r] as int, x, scale * sel(r), scale * sel(r));
    lemma_cong_trans(q[r] as int, lhs[r] + scale * sel(r), x + scale * sel(r));
  }
  assert forall|j: int| 0 <= j < dim implies cong((#[trigger] hint[c]@[j]) as int, dot(lwe(j), col, m)) by {
    lemma_cong_mod(dot(lwe_col(seed, dim, j, m), col, m));
  }
  assert forall|j: int, r: int| 0 <= j < dim && 0 <= r < m implies (#[trigger] lwe(j)[r]) == a[r]@[j] by {}
  lemma_lookup(q, col, a, s, e, hint[c]@, lwe, sel, scale, m, dim, bound);
  let noise = sum(|r: int| sgn(e[r]) * col[r], m);
  let t = sum(|r: int| sel(r) * col[r], m);
  lemma_cong_mod(dot(q, col, m));
  lemma_cong_mod(dot(s, hint[c]@, dim));
  lemma_cong_mod(w[c] - rhs[c]);
  lemma_cong_add(w[c] as int, dot(q, col, m), rhs[c] as int, dot(s, hint[c]@, dim));
  lemma_cong_trans((w[c] - rhs[c]) % M32, w[c] - rhs[c], dot(q, col, m) - dot(s, hint[c]@, dim));
  lemma_cong_trans((w[c] - rhs[c]) % M32, dot(q, col, m) - dot(s, hint[c]@, dim), scale * t + noise);
  lemma_sum_nonneg(|r: int| sel(r) * col[r], m);
}
pub proof fn lemma_sum_nonneg(f: spec_fn(int) -> int, n: int)
  requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) >= 0,
  ensures sum(f, n) >= 0,
  decreases n,
{ if n > 0 { lemma_sum_nonneg(f, n - 1); } }

// the row a client decodes is the row of the database
pub proof fn lemma_index_row(
  db: IndexDatabase, p: IndexParams, elements: Seq<VString>, a: Seq<Vec<u32>>, lhs: Seq<u32>, rhs: Seq<u32>, s: Seq<u32>, e: Seq<u32>,
  q: Seq<u32>, w: Seq<u32>, row: Seq<u32>, dim: int, k: int,
)
  requires
    db.dwf(), holds(db, elements), index_params_ok(p, db, dim), dim >= 0, 0 <= k < db.m,
    params_ok(db.m as int, db.plaintext_bits as nat), forall|r: int| 0 <= r < db.m ==> elem_ok(#[trigger] elements[r], db.elem_size as int),
    lwe_matrix(a, p.public_seed@, dim, db.m as int), is_fresh_client(lhs, rhs, a, p.rhs@, dim, s, e),
    is_query(q, lhs, db.plaintext_bits as nat, one_at(k)), is_answer(w, q, db.entries@, db.m as int),
    is_decoded(row, w, rhs, db.elem_size as int, db.plaintext_bits as nat, no_add()),
  ensures row == db_row(db.entries@, k),
{
  let pb = db.plaintext_bits as nat; let m = db.m as int; let cols = db.entries@; let es = db.elem_size as int;
  assert forall|c: int, r: int| 0 <= c < cols.len() && 0 <= r < m implies ((#[trigger] cols[c]@[r]) as int) < pow2(pb) by {
    lemma_row_bound(db_row(cols, r), elem_bytes(elements[r]), es, pb);
    assert(db_row(cols, r)[c] == cols[c]@[r]);
  }
  assert forall|c: int| 0 <= c < row.len() implies row[c] == db_row(cols, k)[c] by {
    lemma_pir(a, p.public_seed@, dim, m, p.rhs@, cols, lhs, rhs, s, e, q, one_at(k), w, pb, c, row[c], no_add()(c));
    let f = |r: int| one_at(k)(r) * cols[c]@[r];
    lemma_sum_single(f, k, m);
    lemma_small_mod(cols[c]@[k] as nat, pow2(pb));
  }
  assert(row =~= db_row(cols, k));
}
pub proof fn lemma_answer(b: Seq<u8>, q: Seq<u32>, cols: Seq<Vec<u32>>, m: int)
  requires cols.len() <= u64::MAX, exists|w: Seq<u32>| b == #[trigger] resp_ser(w) && is_answer(w, q, cols, m),
  ensures resp_de(b) is Some, is_answer(resp_de(b)->Some_0, q, cols, m),
{
  let w = choose|w: Seq<u32>| b == #[trigger] resp_ser(w) && is_answer(w, q, cols, m);
  resp_roundtrip(w);
}

// C02: an index lookup returns the stored element
pub fn thm_index_pir(elements: &[VString], dim: usize, m: usize, es: usize, pb: usize, k: usize, Tracked(log): Tracked<&mut DrawLog>)
  -> (r: Option<(Vec<u32>, Vec<u8>, VString)>)
  requires
    1 <= es < 0x1_0000_0000_0000, params_ok(m as int, pb as nat), k < m,
  ensures
    r is Some <==> setup_ok(elements@, m as int, es as int),
    match r {
      Some((row, bytes, text)) => is_row(row@, elem_bytes(elements@[k as int]), es as int, pb as int)
        && is_masked(bytes@, elem_bytes(elements@[k as int]), es as int)
        && text.bytes() == b64_enc(bytes@)
        && (es % 8 == 0 ==> bytes@ == elem_bytes(elements@[k as int])),
      None => true,
    },
{
  let sh = match Shard::from_base64_strings(elements, dim, m, es, pb, Tracked(log)) {
    Err(_) => { return None; }
    Ok(sh) => sh,
  };
  let params = sh.get_base_params();
  let cp = CommonParams::from_params(params);
  let mut qp = match generate_index_query_params(&cp, params, Tracked(log)) {
    Err(_) => { assert(false); return None; }
    Ok(qp) => qp,
  };
  let ghost (s, e) = choose|s: Seq<u32>, e: Seq<u32>| is_fresh_client(qp.lhs@, qp.rhs@, cp.0@, params.rhs@, params.dim as int, s, e);
  let q = match qp.generate_query(k) {
    Err(_) => { assert(false); return None; }
    Ok(q) => q,
  };
  let ans = match sh.respond(&q) {
    Err(_) => { assert(false); return None; }
    Ok(ans) => ans,
  };
  proof { lemma_answer(ans@, q.0@, sh.db.entries@, m as int); }
  let w = match bincode_deserialize_words(&ans) {
    Err(_) => { assert(false); return None; }
    Ok(w) => w,
  };
  let resp = Response(w);
  let row = qp.parse_resp_as_row(&resp);
  let bytes = qp.parse_resp_as_bytes(&resp);
  let text = qp.parse_resp_as_base64(&resp);
  proof {
    let es = es as int; let pbn = pb as nat; let x = elem_bytes(elements@[k as int]);
    assert forall|row: Seq<u32>| #[trigger] is_decoded(row, resp.0@, qp.rhs@, es, pbn, no_add()) implies row == db_row(sh.db.entries@, k as int) by {
      lemma_index_row(sh.db, sh.base_params, elements@, cp.0@, qp.lhs@, qp.rhs@, s, e, q.0@, resp.0@, row, dim as int, k as int);
    }
    assert(is_decoded(row@, resp.0@, qp.rhs@, es, pbn, no_add()));
    lemma_roundtrip(row@, x, bytes@, es, pb as int);
    let out = choose|out: Seq<u8>| is_bytes(out, row@, es, pb as int) && #[trigger] b64_enc(out) == text.bytes();
    lemma_roundtrip(row@, x, out, es, pb as int);
    lemma_masked_unique(out, bytes@, x, es);
  }
  Some((row, bytes, text))
}

// C07: a shard lists exactly the elements it was set up with, in order
pub fn thm_index_listing(elements: &[VString], dim: usize, m: usize, es: usize, pb: usize, Tracked(log): Tracked<&mut DrawLog>)
  -> (r: Option<Vec<VString>>)
  requires 1 <= es < 0x1_0000_0000_0000, 1 <= pb < 32,
  ensures
    r is Some <==> setup_ok(elements@, m as int, es as int),
    match r {
      Some(rows) => rows@.len() == m
        && forall|i: int| 0 <= i < m ==> is_elem_text((#[trigger] rows@[i]).bytes(), elem_bytes(elements@[i]), es as int),
      None => true,
    },
{
  let sh = match Shard::from_base64_strings(elements, dim, m, es, pb, Tracked(log)) {
    Err(_) => { return None; }
    Ok(sh) => sh,
  };
  let rows = sh.into_row_iter();
  proof {
    assert forall|i: int| 0 <= i < m implies is_elem_text((#[trigger] rows@[i]).bytes(), elem_bytes(elements@[i]), es as int) by {
      let row = db_row(sh.db.entries@, i);
      let out = choose|out: Seq<u8>| is_bytes(out, row, es as int, pb as int) && #[trigger] b64_enc(out) == rows@[i].bytes();
      assert(is_row(row, elem_bytes(elements@[i]), es as int, pb as int));
      lemma_roundtrip(row, elem_bytes(elements@[i]), out, es as int, pb as int);
    }
  }
  Some(rows)
}
// the canonical base64 text of an element (of its first es bits)
pub open spec fn is_elem_text(s: Seq<u8>, x: Seq<u8>, es: int) -> bool {
  exists|out: Seq<u8>| is_masked(out, x, es) && #[trigger] b64_enc(out) == s && (es % 8 == 0 ==> out == x)
}

// C19: switching the format twice changes nothing
pub fn thm_switch_twice(db: &mut IndexDatabase)
  requires old(db).dwf(),
  ensures final(db).entries@.len() == old(db).entries@.len(),
    forall|i: int| 0 <= i < old(db).entries@.len() ==> (#[trigger] final(db).entries@[i])@ == old(db).entries@[i]@,
    final(db).m == old(db).m, final(db).elem_size == old(db).elem_size, final(db).plaintext_bits == old(db).plaintext_bits,
{
  if db.entries.len() == 0 { return; }
  let ghost e0 = db.entries@;
  db.switch_fmt();
  let ghost e1 = db.entries@;
  db.switch_fmt();
  proof { lemma_transpose_twice(e0, e1, db.entries@); }
}

// C03: a second query from the same client parameters is refused and leaves them as they were
pub fn thm_second_query(qp: &mut QueryParams<IndexDatabase, EmptyAuxParams>, k: usize, k2: usize) -> (r: Result<Query, VErr>)
  requires k < old(qp).lhs@.len(), 1 <= old(qp).plaintext_bits < 32,
  ensures r is Err, r->Err_0.reuse, final(qp).used, final(qp).lhs@ == old(qp).lhs@,
{
  let _ = qp.generate_query(k);
  qp.generate_query(k2)
}

// a copy of used parameters is used
pub fn thm_copy_is_used(qp: &mut QueryParams<IndexDatabase, EmptyAuxParams>, k: usize, k2: usize) -> (r: Result<Query, VErr>)
  requires k < old(qp).lhs@.len(), 1 <= old(qp).plaintext_bits < 32,
  ensures r is Err, r->Err_0.reuse, final(qp).used,
{
  let _ = qp.generate_query(k);
  let mut c = qp.clone();
  c.generate_query(k2)
}

} // verus!
verus! {

// ---- keyword databases -----------------------------------------------------------------------
pub proof fn lemma_hits_sum(fp: FilterParams, key: Seq<u64>, col: Seq<u32>, m: int)
  requires fp.fwf(m), col.len() == m,
  ensures
    sum(|r: int| hits(fp, key)(r) * col[r], m) == col[fp.pos(key, 0)] + col[fp.pos(key, 1)] + col[fp.pos(key, 2)],
    forall|r: int| #[trigger] hits(fp, key)(r) >= 0,
{
  fp.lemma_pos(key, m);
  let g = |j: int| (|r: int| hit(fp.pos(key, j), r) * col[r]);
  let g01 = |r: int| g(0)(r) + g(1)(r);
  let g012 = |r: int| g01(r) + g(2)(r);
  lemma_sum_add(g(0), g(1), m);
  lemma_sum_add(g01, g(2), m);
  lemma_sum_single(g(0), fp.pos(key, 0), m);
  lemma_sum_single(g(1), fp.pos(key, 1), m);
  lemma_sum_single(g(2), fp.pos(key, 2), m);
  let h = |r: int| hits(fp, key)(r) * col[r];
  assert forall|r: int| 0 <= r < m implies #[trigger] h(r) == g012(r) by {
    let a = hit(fp.pos(key, 0), r); let b = hit(fp.pos(key, 1), r); let c = hit(fp.pos(key, 2), r); let x = col[r] as int;
    assert((a + b + c) * x == a * x + b * x + c * x) by (nonlinear_arith);
  }
  lemma_sum_ext(h, g012, m);
  lemma_sum_ext(g01, |r: int| g(0)(r) + g(1)(r), m);
}
pub proof fn lemma_kv_row(
  db: KVDatabase, p: KVParams, kvs: Seq<KeyValue>, n: int, key: Seq<u64>, a: Seq<Vec<u32>>, lhs: Seq<u32>, rhs: Seq<u32>, s: Seq<u32>, e: Seq<u32>,
  q: Seq<u32>, w: Seq<u32>, row: Seq<u32>, dim: int,
)
  requires
    db.dwf(), db.kv_holds(kvs), kv_params_ok(p, db, dim), dim >= 0, 0 <= n < kvs.len(), key == kvs[n].key@,
    params_ok(db.kheight(), db.plaintext_bits as nat),
    lwe_matrix(a, p.public_seed@, dim, db.kheight()), is_fresh_client(lhs, rhs, a, p.rhs@, dim, s, e),
    is_query(q, lhs, db.plaintext_bits as nat, hits(p.filter_params, key)), is_answer(w, q, db.entries@, db.kheight()),
    is_decoded(row, w, rhs, db.elem_size as int, db.plaintext_bits as nat, unmask(p.filter_params, key)),
  ensures
    row.len() == width_of(db.elem_size as int, db.plaintext_bits as int),
    forall|c: int| 0 <= c < row.len() ==> #[trigger] row[c] == kvs[n].value@[c] as int % pow2(db.plaintext_bits as nat) as int,
{
  let pb = db.plaintext_bits as nat; let m = db.kheight(); let cols = db.entries@; let fp = db.filter_params;
  assert(p.filter_params.fwf(m));
  assert(hits(p.filter_params, key) == hits(fp, key)) by {
    assert(hits(p.filter_params, key) =~= hits(fp, key)) by {
      assert forall|r: int| #[trigger] hits(p.filter_params, key)(r) == hits(fp, key)(r) by {
        assert(p.filter_params.pos(key, 0) == fp.pos(key, 0));
        assert(p.filter_params.pos(key, 1) == fp.pos(key, 1));
        assert(p.filter_params.pos(key, 2) == fp.pos(key, 2));
      }
    }
  }
  assert forall|c: int| 0 <= c < row.len() implies #[trigger] row[c] == kvs[n].value@[c] as int % pow2(pb) as int by {
    lemma_hits_sum(fp, key, cols[c]@, m);
    lemma_pir(a, p.public_seed@, dim, m, p.rhs@, cols, lhs, rhs, s, e, q, hits(fp, key), w, pb, c, row[c], unmask(p.filter_params, key)(c));
    assert(p.filter_params.mask(key, c) == fp.mask(key, c));
    assert(db.kv_word(kvs[n].key@, c) == kvs[n].value@[c] as int % pow2(pb) as int);
  }
}

// C01 over ready-made key-value pairs: any shard in the state that setup leaves it in
pub fn thm_kv_pir(sh: &KVShard, Ghost(kvs): Ghost<Seq<KeyValue>>, Ghost(n): Ghost<int>, key: &[u64; 4], Tracked(log): Tracked<&mut DrawLog>)
  -> (r: (Vec<u32>, Vec<u8>, VString))
  requires
    sh.db.dwf(), sh.db.kv_holds(kvs), kv_params_ok(sh.base_params, sh.db, sh.base_params.dim as int), 8 <= sh.db.plaintext_bits < 32,
    0 <= n < kvs.len(), key@ == kvs[n].key@, params_ok(sh.db.kheight(), sh.db.plaintext_bits as nat),
  ensures
    r.0@.len() == width_of(sh.db.elem_size as int, sh.db.plaintext_bits as int),
    forall|c: int| 0 <= c < r.0@.len() ==> (#[trigger] r.0@[c]) == kvs[n].value@[c] as int % pow2(sh.db.plaintext_bits as nat) as int,
    is_bytes(r.1@, r.0@, sh.db.elem_size as int, sh.db.plaintext_bits as int),
    is_text(r.2.bytes(), r.0@, sh.db.elem_size as int, sh.db.plaintext_bits as int),
{
  let params = sh.get_base_params();
  let cp = CommonParams::from_params(params);
  let mut qp = match generate_kv_query_params(&cp, params, Tracked(log)) {
    Err(_) => { assert(false); vpanic() }
    Ok(qp) => qp,
  };
  let ghost dim = params.dim as int;
  let ghost (s, e) = choose|s: Seq<u32>, e: Seq<u32>| is_fresh_client(qp.lhs@, qp.rhs@, cp.0@, params.rhs@, dim, s, e);
  assert(params.filter_params.fwf(qp.lhs@.len() as int));
  let q = match qp.generate_query(key) {
    Err(_) => { assert(false); vpanic() }
    Ok(q) => q,
  };
  let ans = match sh.respond(&q) {
    Err(_) => { assert(false); vpanic() }
    Ok(ans) => ans,
  };
  proof { lemma_answer(ans@, q.0@, sh.db.entries@, sh.db.kheight()); }
  let w = match bincode_deserialize_words(&ans) {
    Err(_) => { assert(false); vpanic() }
    Ok(w) => w,
  };
  let resp = Response(w);
  let row = match qp.parse_resp_as_row(&resp, key) { Err(_) => { assert(false); vpanic() } Ok(x) => x };
  let bytes = match qp.parse_resp_as_bytes(&resp, key) { Err(_) => { assert(false); vpanic() } Ok(x) => x };
  let text = match qp.parse_resp_as_base64(&resp, key) { Err(_) => { assert(false); vpanic() } Ok(x) => x };
  proof {
    let es = sh.db.elem_size as int; let pb = sh.db.plaintext_bits as nat; let fp = params.filter_params;
    assert forall|rw: Seq<u32>| #[trigger] is_decoded(rw, resp.0@, qp.rhs@, es, pb, unmask(fp, key@)) implies rw == row@ by {
      lemma_kv_row(sh.db, *params, kvs, n, key@, cp.0@, qp.lhs@, qp.rhs@, s, e, q.0@, resp.0@, rw, dim);
      assert(is_decoded(row@, resp.0@, qp.rhs@, es, pb, unmask(fp, key@)));
      lemma_kv_row(sh.db, *params, kvs, n, key@, cp.0@, qp.lhs@, qp.rhs@, s, e, q.0@, resp.0@, row@, dim);
      assert forall|c: int| 0 <= c < rw.len() implies rw[c] == row@[c] by {}
      assert(rw =~= row@);
    }
    assert(is_decoded(row@, resp.0@, qp.rhs@, es, pb, unmask(fp, key@)));
    lemma_kv_row(sh.db, *params, kvs, n, key@, cp.0@, qp.lhs@, qp.rhs@, s, e, q.0@, resp.0@, row@, dim);
  }
  (row, bytes, text)
}
pub fn vpanic<T>() -> (r: T)
  requires false,
{ vstd::pervasive::unreached() }

// C01 over text: setup from strings, then a lookup of a key of the list
pub fn thm_kv_pir_text(keys: &[VString], values: &[VString], dim: usize, m: usize, es: usize, pb: usize, k: usize, Tracked(log): Tracked<&mut DrawLog>)
  -> (r: Option<(KVShard, Option<(Vec<u8>, VString)>)>)
  requires
    1 <= es < 0x1_0000_0000_0000, 8 <= pb < 32, keys@.len() < 0x100_0000, k < keys@.len(),
  ensures
    match r {
      Some((sh, out)) => kv_setup_ok(keys@, values@, es as int)
        && (params_ok(sh.db.kheight(), pb as nat) ==> match out {
          Some((bytes, text)) => is_masked(bytes@, elem_bytes(values@[k as int]), es as int) && text.bytes() == b64_enc(bytes@)
            && (es % 8 == 0 ==> bytes@ == elem_bytes(values@[k as int])),
          None => false,
        }),
      None => true,
    },
{
  let sh = match KVShard::from_base64_strings(keys, values, dim, m, es, pb, Tracked(log)) {
    Err(_) => { return None; }
    Ok(sh) => sh,
  };
  let ghost kvs = choose|kvs: Seq<KeyValue>| kvs.len() == keys@.len() && #[trigger] sh.db.kv_holds(kvs)
      && forall|i: int| 0 <= i < keys@.len() ==> (#[trigger] kvs[i]).key@ == sha_key(keys@[i].bytes())
          && is_row(kvs[i].value@, elem_bytes(values@[i]), es as int, pb as int);
  assert(is_row(kvs[k as int].value@, elem_bytes(values@[k as int]), es as int, pb as int) && kvs[k as int].key@ == sha_key(keys@[k as int].bytes()));
  assert(elem_ok(values@[k as int], es as int));
  let key = match sha256_into_u64_sized(keys[k].as_bytes()) {
    Err(_) => { assert(false); return None; }
    Ok(key) => key,
  };
  let small = small_enough(&sh);
  if !small { return Some((sh, None)); }
  let (row, bytes, text) = thm_kv_pir(&sh, Ghost(kvs), Ghost(k as int), &key, Tracked(log));
  proof {
    let x = elem_bytes(values@[k as int]); let v = kvs[k as int].value@;
    lemma_row_bound(v, x, es as int, pb as nat);
    assert forall|c: int| 0 <= c < row@.len() implies row@[c] == v[c] by { lemma_small_mod(v[c] as nat, pow2(pb as nat)); }
    assert(row@ =~= v);
    lemma_roundtrip(row@, x, bytes@, es as int, pb as int);
    let out = choose|out: Seq<u8>| is_bytes(out, row@, es as int, pb as int) && #[trigger] b64_enc(out) == text.bytes();
    lemma_roundtrip(row@, x, out, es as int, pb as int);
    lemma_masked_unique(out, bytes@, x, es as int);
  }
  Some((sh, Some((bytes, text))))
}
pub fn small_enough(sh: &KVShard) -> (r: bool)
  requires sh.db.dwf(),
  ensures r == params_ok(sh.db.kheight(), sh.db.plaintext_bits as nat),
{
  let pb = sh.db.plaintext_bits;
  proof {
    lemma_width(sh.db.elem_size as int, pb as int);
    lemma_pow2_strictly_increases(pb as nat, 32); lemma2_to64();
  }
  let m = sh.db.entries[0].len();
  let a = pow_2u32(pb as u32) as u64 - 1;
  assert(m as int * a as int <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= m <= 0xffff_ffff, 0 <= a <= 0xffff_ffff;
  let x = (m as u64) * a;
  (x as u128) * 2 < pow_2u64((32 - pb) as u32) as u128
}

// C03: a second query from the same client parameters is refused and leaves them as they were
pub fn thm_second_kv_query(qp: &mut QueryParams<KVDatabase, FilterParams>, key: &[u64; 4], key2: &[u64; 4]) -> (r: Result<Query, VErr>)
  requires
    old(qp).extra_params is Some ==> old(qp).extra_params->Some_0.fwf(old(qp).lhs@.len() as int), 1 <= old(qp).plaintext_bits < 32,
  ensures r is Err, r->Err_0.reuse, final(qp).used, final(qp).lhs@ == old(qp).lhs@,
{
  let _ = qp.generate_query(key);
  qp.generate_query(key2)
}

pub fn thm_copy_is_used_kv(qp: &mut QueryParams<KVDatabase, FilterParams>, key: &[u64; 4], key2: &[u64; 4]) -> (r: Result<Query, VErr>)
  requires
    old(qp).extra_params is Some ==> old(qp).extra_params->Some_0.fwf(old(qp).lhs@.len() as int), 1 <= old(qp).plaintext_bits < 32,
  ensures r is Err, r->Err_0.reuse, final(qp).used,
{
  let _ = qp.generate_query(key);
  let mut c = qp.clone();
  c.generate_query(key2)
}

// C11: a client's view of a stored key agrees with the matrix, column by column
pub fn thm_kv_client_agrees(sh: &KVShard, Ghost(kvs): Ghost<Seq<KeyValue>>, Ghost(n): Ghost<int>, key: &[u64; 4], c: usize) -> (r: (Vec<usize>, u32))
  requires
    sh.db.dwf(), sh.db.kv_holds(kvs), kv_params_ok(sh.base_params, sh.db, sh.base_params.dim as int),
    0 <= n < kvs.len(), key@ == kvs[n].key@, c < sh.db.entries@.len(),
  ensures
    r.0@.len() == 3, forall|j: int| 0 <= j < 3 ==> (#[trigger] r.0@[j]) < sh.db.kheight(),
    r.0@[0] != r.0@[1], r.0@[0] != r.0@[2], r.0@[1] != r.0@[2],
    forall|j: int| 0 <= j < 3 ==> (sh.db.entries@[c as int]@[(#[trigger] r.0@[j]) as int] as int) < pow2(sh.db.plaintext_bits as nat),
    (sh.db.entries@[c as int]@[r.0@[0] as int] + sh.db.entries@[c as int]@[r.0@[1] as int] + sh.db.entries@[c as int]@[r.0@[2] as int] + r.1) % (pow2(sh.db.plaintext_bits as nat) as int)
      == kvs[n].value@[c as int] as int % pow2(sh.db.plaintext_bits as nat) as int,
{
  let fp = sh.base_params.get_filter_params();
  let ix = fp.get_hash_evals(key);
  let u = fp.unmask_value(0, key, c as u64);
  proof {
    let dfp = sh.db.filter_params; let pb = sh.db.plaintext_bits as nat;
    fp.lemma_pos(key@, sh.db.kheight());
    assert(fp.pos(key@, 0) == dfp.pos(key@, 0) && fp.pos(key@, 1) == dfp.pos(key@, 1) && fp.pos(key@, 2) == dfp.pos(key@, 2));
    assert(ix@[0] == fp.pos(key@, 0) && ix@[1] == fp.pos(key@, 1) && ix@[2] == fp.pos(key@, 2));
    assert(fp.mask(key@, c as int) == dfp.mask(key@, c as int));
    assert(sh.db.kv_word(kvs[n].key@, c as int) == kvs[n].value@[c as int] as int % pow2(pb) as int);
    let e = sh.db.entries@[c as int]@;
    let a = e[fp.pos(key@, 0)] + e[fp.pos(key@, 1)] + e[fp.pos(key@, 2)];
    lemma_pow2_pos(pb);
    lemma_masked_mod(0, fp.mask(key@, c as int), pb);
    let p = pow2(pb) as int;
    lemma_add_mod_noop(a as int, u as int, p); lemma_add_mod_noop(a as int, fp.mask(key@, c as int), p);
  }
  (ix, u)
}

// C20: what a shard saves loads back, parameter by parameter
pub open spec fn same_words(a: Seq<Vec<u32>>, b: Seq<Vec<u32>>) -> bool {
  a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@
}
pub open spec fn same_params<P: BaseParams>(p: P, q: P) -> bool {
  p.pm() == q.pm() && p.pdim() == q.pdim() && p.pes() == q.pes() && p.ppb() == q.ppb() && p.pseed() == q.pseed() && same_words(p.prhs(), q.prhs())
}
proof fn lemma_same_words(a: Vec<Vec<u32>>, b: Vec<Vec<u32>>)
  requires <Vec<Vec<u32>> as VSerde>::same(a, b),
  ensures same_words(a@, b@),
{
  assert forall|i: int| 0 <= i < a@.len() implies (#[trigger] a@[i])@ == b@[i]@ by {
    assert(<Vec<u32> as VSerde>::same(a@[i], b@[i]));
    assert forall|k: int| 0 <= k < a@[i]@.len() implies a@[i]@[k] == b@[i]@[k] by { assert(<u32 as VSerde>::same(a@[i]@[k], b@[i]@[k])); }
    assert(a@[i]@ =~= b@[i]@);
  }
}
pub fn thm_saved_params(sh: &Shard, db_path: &VString, params_path: &VString, Tracked(disk): Tracked<&mut Disk>) -> (r: Option<IndexParams>)
  requires db_path.bytes() != params_path.bytes(),
  ensures match r { Some(p) => same_params(p, sh.base_params), None => true },
{
  match sh.write_to_file(db_path, params_path, Tracked(disk)) { Ok(_) => {} Err(_) => { return None; } }
  proof {
    sh.base_params.law_back();
    assert(reads_text(disk.files[params_path.bytes()], sh.base_params));
  }
  match IndexParams::load(params_path, Tracked(disk)) {
    // the saved parameters are never refused
    Err(_) => { assert(false); None }
    Ok(p) => {
      proof {
        IndexParams::law_same(sh.base_params.j(), p, sh.base_params);
        lemma_same_words(p.rhs, sh.base_params.rhs);
        assert(p.public_seed@ =~= sh.base_params.public_seed@);
      }
      Some(p)
    }
  }
}
// the same for a keyword shard, whose parameters are read with serde_json
pub fn thm_saved_kv_params(sh: &KVShard, db_path: &VString, params_path: &VString, Tracked(disk): Tracked<&mut Disk>) -> (r: Option<KVParams>)
  requires db_path.bytes() != params_path.bytes(),
  ensures
    match r {
      Some(p) => same_params(p, sh.base_params) && p.filter_params.seed@ == sh.base_params.filter_params.seed@
        && p.filter_params.segment_length == sh.base_params.filter_params.segment_length && p.filter_params.segment_length_mask == sh.base_params.filter_params.segment_length_mask
        && p.filter_params.segment_count_length == sh.base_params.filter_params.segment_count_length,
      None => true,
    },
{
  match sh.write_to_file(db_path, params_path, Tracked(disk)) { Ok(_) => {} Err(_) => { return None; } }
  proof {
    sh.base_params.law_back();
    assert(reads_text(disk.files[params_path.bytes()], sh.base_params));
  }
  let f = match file_open(params_path, Tracked(disk)) { Ok(f) => f, Err(_) => { assert(false); vpanic() } };
  let r: Result<KVParams, VErr> = from_reader(f);
  match r {
    Err(_) => { assert(false); None }
    Ok(p) => {
      proof {
        KVParams::law_same(sh.base_params.j(), p, sh.base_params);
        lemma_same_words(p.rhs, sh.base_params.rhs);
        assert(p.public_seed@ =~= sh.base_params.public_seed@);
        assert(<FilterParams as VSerde>::same(p.filter_params, sh.base_params.filter_params));
        assert(p.filter_params.seed@ =~= sh.base_params.filter_params.seed@);
      }
      Some(p)
    }
  }
}
// the file decides which strings a shard is built from
pub proof fn thm_file_strings(text: Seq<u8>, a: Vec<VString>, b: Vec<VString>)
  requires reads_text(text, a), reads_text(text, b),
  ensures a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i]).bytes() == b@[i].bytes(),
{
  <Vec<VString> as VSerde>::law_same(json_of(text)->Some_0, a, b);
  assert forall|i: int| 0 <= i < a@.len() implies (#[trigger] a@[i]).bytes() == b@[i].bytes() by { assert(<VString as VSerde>::same(a@[i], b@[i])); }
}
pub proof fn thm_file_pairs(text: Seq<u8>, a: Vec<EncodedKV>, b: Vec<EncodedKV>)
  requires reads_text(text, a), reads_text(text, b),
  ensures a@.len() == b@.len(), forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i]).key.bytes() == b@[i].key.bytes() && a@[i].value.bytes() == b@[i].value.bytes(),
{
  <Vec<EncodedKV> as VSerde>::law_same(json_of(text)->Some_0, a, b);
  assert forall|i: int| 0 <= i < a@.len() implies (#[trigger] a@[i]).key.bytes() == b@[i].key.bytes() && a@[i].value.bytes() == b@[i].value.bytes() by {
    assert(<EncodedKV as VSerde>::same(a@[i], b@[i]));
  }
}
// C03: client parameters that were written and read again remember whether they were used
pub proof fn thm_used_is_saved(p: QueryParams<IndexDatabase, EmptyAuxParams>, q: QueryParams<IndexDatabase, EmptyAuxParams>)
  requires <QueryParams<IndexDatabase, EmptyAuxParams> as VSerde>::reads(p.j(), q),
  ensures q.used == p.used,
{
  p.law_back();
  <QueryParams<IndexDatabase, EmptyAuxParams> as VSerde>::law_same(p.j(), p, q);
}
pub proof fn thm_used_is_saved_kv(p: QueryParams<KVDatabase, FilterParams>, q: QueryParams<KVDatabase, FilterParams>)
  requires <QueryParams<KVDatabase, FilterParams> as VSerde>::reads(p.j(), q),
  ensures q.used == p.used,
{
  p.law_back();
  <QueryParams<KVDatabase, FilterParams> as VSerde>::law_same(p.j(), p, q);
}

} // verus!
