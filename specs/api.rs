use core::marker::PhantomData;
@struct api::Shard
@struct api::QueryParams
@struct api::Query
@struct api::Response
@struct api::EmptyAuxParams
@codec api::EmptyAuxParams
@codec api::QueryParams
impl Clone for EmptyAuxParams {
@fn api::EmptyAuxParams as Clone::clone
@ret r
@spec
  ensures r == *self
@end
}
impl<DB: Clone, EP: Clone> Clone for QueryParams<DB, EP> {
@fn api::QueryParams<DB,EP> as Clone::clone
@ret r
@spec
  ensures r.used == self.used, r.lhs@ == self.lhs@, r.rhs@ == self.rhs@, r.elem_size == self.elem_size, r.plaintext_bits == self.plaintext_bits,
    cloned(self.extra_params, r.extra_params)
@end
}

impl VWords for Response {
  open spec fn words(&self) -> Seq<u32> { self.0@ }
  fn as_words(&self) -> (r: &Vec<u32>) { &self.0 }
}

// the answer to q: one word per column, the inner product with that column
pub open spec fn is_answer(w: Seq<u32>, q: Seq<u32>, cols: Seq<Vec<u32>>, height: int) -> bool {
  w.len() == cols.len()
  && forall|c: int| 0 <= c < w.len() ==> (#[trigger] w[c]) as int == dot(q, cols[c]@, height) % M32
}

impl Shard {
@fn api::Shard::from_base64_strings
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    requires 1 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000,
    ensures
      match r {
        Ok(sh) => setup_ok(base64_strs@, m as int, elem_size as int)
          && sh.db.dwf() && sh.db.m == m && sh.db.elem_size == elem_size && sh.db.plaintext_bits == plaintext_bits && holds(sh.db, base64_strs@)
          && index_params_ok(sh.base_params, sh.db, lwe_dim as int)
          && fresh_seed(old(log).draws, final(log).draws, sh.base_params.public_seed@),
        Err(e) => !e.reuse && !setup_ok(base64_strs@, m as int, elem_size as int),
      },
@end

@fn api::Shard::from_json_file
@gparam Tracked(log): Tracked<&mut DrawLog>, Tracked(disk): Tracked<&mut Disk>
@ret r
@spec
    requires
      1 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000,
      old(disk).files.contains_key(file_path.bytes()), exists|elements: Vec<VString>| #[trigger] reads_text(old(disk).files[file_path.bytes()], elements),
    ensures
      final(disk).files == old(disk).files,
      exists|elements: Vec<VString>| #[trigger] reads_text(old(disk).files[file_path.bytes()], elements) &&
      match r {
        Ok(sh) => setup_ok(elements@, m as int, elem_size as int)
          && sh.db.dwf() && sh.db.m == m && sh.db.elem_size == elem_size && sh.db.plaintext_bits == plaintext_bits && holds(sh.db, elements@)
          && index_params_ok(sh.base_params, sh.db, lwe_dim as int)
          && fresh_seed(old(log).draws, final(log).draws, sh.base_params.public_seed@),
        Err(e) => !e.reuse && !setup_ok(elements@, m as int, elem_size as int),
      },
@end
@fn api::Shard::write_to_file
@gparam Tracked(disk): Tracked<&mut Disk>
@ret r
@spec
    requires db_path.bytes() != params_path.bytes(),
    ensures
      only2(old(disk).files, final(disk).files, db_path.bytes(), params_path.bytes()),
      r is Ok ==> final(disk).files.contains_key(params_path.bytes()) && json_of(final(disk).files[params_path.bytes()]) == Some(self.base_params.j())
        && final(disk).files.contains_key(db_path.bytes()) && json_of(final(disk).files[db_path.bytes()]) == Some(self.db.entries.j()),
@end

@fn api::Shard::respond
@opt v0=Vec<u32>
@ret r
@spec
    requires self.db.dwf(),
    ensures
      match r {
        Ok(b) => q.0@.len() == self.db.dheight()
          && exists|w: Seq<u32>| b@ == #[trigger] resp_ser(w) && is_answer(w, q.0@, self.db.dcols(), self.db.dheight()),
        Err(e) => !e.reuse && q.0@.len() != self.db.dheight(),
      },
@loop 0
    invariant
      self.db.dwf(), q@.len() == self.db.dheight(), __h0 == self.db.dcols().len(), __v0@.len() == $i,
      forall|c: int| 0 <= c < $i ==> (#[trigger] __v0@[c]) as int == dot(q@, self.db.dcols()[c]@, self.db.dheight()) % M32,
@end

@fn api::Shard::get_db
@ret r
@spec
    ensures *r == self.db,
@end
@fn api::Shard::get_base_params
@ret r
@spec
    ensures *r == self.base_params,
@end
@fn api::Shard::into_row_iter
@sub \.into_iter\(\)\s*$ ==>
@rettype Vec<VString>
@ret r
@spec
    requires self.db.dwf(),
    ensures
      r@.len() == self.db.m,
      forall|i: int| 0 <= i < r@.len() ==> is_text((#[trigger] r@[i]).bytes(), db_row(self.db.entries@, i), self.db.elem_size as int, self.db.plaintext_bits as int),
@loop 0
    invariant
      self.db.dwf(), __h0 == self.db.m, __v0@.len() == $i,
      forall|i_: int| 0 <= i_ < $i ==> is_text((#[trigger] __v0@[i_]).bytes(), db_row(self.db.entries@, i_), self.db.elem_size as int, self.db.plaintext_bits as int),
@end
}

pub open spec fn index_params_ok(p: IndexParams, db: IndexDatabase, dim: int) -> bool {
  p.dim == dim && p.m == db.m && p.elem_size == db.elem_size && p.plaintext_bits == db.plaintext_bits
  && is_hint(p.rhs@, db.entries@, p.public_seed@, dim, db.m as int)
}

// the vectors a client precomputes: its secret times the matrix plus noise, its secret times the hint;
// secret and noise come from their own fresh draws
pub open spec fn is_masked_right(v: Seq<u32>, hint: Seq<Vec<u32>>, s: Seq<u32>) -> bool {
  v.len() == hint.len() && forall|c: int| 0 <= c < v.len() ==> (#[trigger] v[c]) as int == dot(s, hint[c]@, s.len() as int) % M32
}
pub open spec fn is_fresh_client(lhs: Seq<u32>, rhs: Seq<u32>, a: Seq<Vec<u32>>, hint: Seq<Vec<u32>>, dim: int, s: Seq<u32>, e: Seq<u32>) -> bool {
  s.len() == dim && (forall|j: int| 0 <= j < s.len() ==> is_tern(#[trigger] s[j]))
  && is_masked_left(lhs, a, s, e) && is_masked_right(rhs, hint, s)
}
pub open spec fn client_draws(d0: Seq<Draw>, mid: Seq<Draw>, d1: Seq<Draw>, s: Seq<u32>, e: Seq<u32>) -> bool {
  extends(d0, mid) && extends(mid, d1) && tern_vec(mid, d0.len() as int, s) && fresh_noise(d1, mid.len() as int, e)
}

impl QueryParams<IndexDatabase, EmptyAuxParams> {
@fn api::QueryParams<IndexDatabase,EmptyAuxParams>::new
@sub Default::default\(\) ==> core::marker::PhantomData
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    ensures
      match r {
        Ok(p) => !p.used && p.elem_size == params.elem_size && p.plaintext_bits == params.plaintext_bits
          && exists|s: Seq<u32>, e: Seq<u32>, mid: Seq<Draw>|
              is_fresh_client(p.lhs@, p.rhs@, cp.0@, params.rhs@, params.dim as int, s, e)
              && #[trigger] client_draws(old(log).draws, mid, final(log).draws, s, e),
        Err(x) => !x.reuse && !(rect(cp.0@, params.dim as int) && rect(params.rhs@, params.dim as int)),
      },
@start
    let ghost d0 = log.draws;
@aftercall random_ternary_vector 0
    let ghost mid = log.draws;
    proof { assert(tern_vec(mid, d0.len() as int, s@)); lemma_client(d0, mid, s@, cp.0@, params.rhs@, params.dim as int); }
@end

@fn api::QueryParams<IndexDatabase,EmptyAuxParams>::generate_query
@ret r
@spec
    requires !old(self).used ==> row_index < old(self).lhs@.len() && 1 <= old(self).plaintext_bits < 32,
    ensures
      final(self).used, final(self).lhs@ == old(self).lhs@, final(self).rhs@ == old(self).rhs@,
      final(self).elem_size == old(self).elem_size, final(self).plaintext_bits == old(self).plaintext_bits,
      match r {
        Ok(q) => !old(self).used && is_query(q.0@, old(self).lhs@, old(self).plaintext_bits as nat, one_at(row_index as int)),
        Err(e) => old(self).used && e.reuse,
      },
@end

@fn api::QueryParams<IndexDatabase,EmptyAuxParams>::parse_resp_as_row
@ret r
@spec
    requires
      1 <= self.plaintext_bits < 32, self.elem_size < 0x1_0000_0000_0000,
      resp.0@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
      self.rhs@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
    ensures
      r@.len() == width_of(self.elem_size as int, self.plaintext_bits as int),
      forall|i: int| 0 <= i < r@.len() ==> decodes(#[trigger] r@[i], (resp.0@[i] - self.rhs@[i]) % M32, self.plaintext_bits as nat, 0),
@start
    proof { lemma_scale(self.plaintext_bits as nat); }
@loop 0
    invariant
      1 <= self.plaintext_bits < 32, __h0 == width_of(self.elem_size as int, self.plaintext_bits as int),
      rounding_factor == pow2((32 - self.plaintext_bits) as nat), rounding_floor == rounding_factor / 2, plaintext_size == pow2(self.plaintext_bits as nat),
      2 <= rounding_factor, 1 <= plaintext_size,
      resp.0@.len() >= __h0, self.rhs@.len() >= __h0, __v0@.len() == $i,
      forall|i_: int| 0 <= i_ < $i ==> decodes(#[trigger] __v0@[i_], (resp.0@[i_] - self.rhs@[i_]) % M32, self.plaintext_bits as nat, 0),
@body 0
    proof { lemma_quot((resp.0@[$i as int] - self.rhs@[$i as int]) % M32, rounding_factor as int); }
@bodyend 0
    proof { lemma_decodes(__v0@.last(), (resp.0@[$i as int] - self.rhs@[$i as int]) % M32, self.plaintext_bits as nat, 0); }
@end

@fn api::QueryParams<IndexDatabase,EmptyAuxParams>::parse_resp_as_bytes
@ret r
@spec
    requires
      1 <= self.plaintext_bits < 32, self.elem_size < 0x1_0000_0000_0000,
      resp.0@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
      self.rhs@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
    ensures
      exists|row: Seq<u32>| #[trigger] is_decoded(row, resp.0@, self.rhs@, self.elem_size as int, self.plaintext_bits as nat, no_add())
        && is_bytes(r@, row, self.elem_size as int, self.plaintext_bits as int),
@aftercall parse_resp_as_row 0
    proof { assert(is_decoded(row@, resp.0@, self.rhs@, self.elem_size as int, self.plaintext_bits as nat, no_add())); }
@end

@fn api::QueryParams<IndexDatabase,EmptyAuxParams>::parse_resp_as_base64
@ret r
@spec
    requires
      1 <= self.plaintext_bits < 32, self.elem_size < 0x1_0000_0000_0000,
      resp.0@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
      self.rhs@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
    ensures
      exists|row: Seq<u32>| #[trigger] is_decoded(row, resp.0@, self.rhs@, self.elem_size as int, self.plaintext_bits as nat, no_add())
        && is_text(r.bytes(), row, self.elem_size as int, self.plaintext_bits as int),
@aftercall parse_resp_as_row 0
    proof { assert(is_decoded(row@, resp.0@, self.rhs@, self.elem_size as int, self.plaintext_bits as nat, no_add())); }
@end
}

pub open spec fn no_add() -> spec_fn(int) -> int { |i: int| 0int }
pub open spec fn one_at(k: int) -> spec_fn(int) -> int { |r: int| if r == k { 1int } else { 0int } }
pub open spec fn is_decoded(row: Seq<u32>, resp: Seq<u32>, rhs: Seq<u32>, es: int, pb: nat, add: spec_fn(int) -> int) -> bool {
  row.len() == width_of(es, pb as int)
  && forall|i: int| 0 <= i < row.len() ==> decodes(#[trigger] row[i], (resp[i] - rhs[i]) % M32, pb, add(i))
}
pub proof fn lemma_quot(x: int, d: int)
  requires 0 <= x < M32, d >= 2,
  ensures x / d < 0x8000_0000, x / d >= 0,
{
  lemma_div_is_ordered_by_denominator(x, 2, d);
  lemma_div_pos_is_pos(x, d);
}
// q is the masking vector with the scaling factor added sel(r) times at row r
pub open spec fn is_query(q: Seq<u32>, lhs: Seq<u32>, pb: nat, sel: spec_fn(int) -> int) -> bool {
  q.len() == lhs.len()
  && forall|r: int| 0 <= r < q.len() ==> (#[trigger] q[r]) as int == (lhs[r] + pow2((32 - pb) as nat) * sel(r)) % M32
}
// lets the verifier assemble the existential of `new` from the pieces it gets from the callees
pub proof fn lemma_client(d0: Seq<Draw>, mid: Seq<Draw>, s: Seq<u32>, a: Seq<Vec<u32>>, hint: Seq<Vec<u32>>, dim: int)
  requires extends(d0, mid), tern_vec(mid, d0.len() as int, s), s.len() == dim, forall|j: int| 0 <= j < s.len() ==> is_tern(#[trigger] s[j]),
  ensures
    forall|d1: Seq<Draw>, e: Seq<u32>| extends(mid, d1) && #[trigger] fresh_noise(d1, mid.len() as int, e) ==> client_draws(d0, mid, d1, s, e),
{}

@fn api::generate_index_query_params
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    ensures
      match r {
        Ok(p) => !p.used && p.elem_size == params.elem_size && p.plaintext_bits == params.plaintext_bits
          && exists|s: Seq<u32>, e: Seq<u32>, mid: Seq<Draw>|
              is_fresh_client(p.lhs@, p.rhs@, cp.0@, params.rhs@, params.dim as int, s, e)
              && #[trigger] client_draws(old(log).draws, mid, final(log).draws, s, e),
        Err(x) => !x.reuse && !(rect(cp.0@, params.dim as int) && rect(params.rhs@, params.dim as int)),
      },
@end

impl Query {
@fn api::Query::as_slice
@ret r
@spec
    ensures r@ == self.0@,
@end
}
@fn api::check_query_len
@ret r
@spec
  ensures match r { Ok(_) => q@.len() == height, Err(e) => !e.reuse && q@.len() != height },
@end
impl Response {
@fn api::Response::as_slice
@ret r
@spec
    ensures r@ == self.0@,
@end
}

// ---- keyword databases -----------------------------------------------------------------------
@struct api::KVShard
@struct api::EncodedKV
@codec api::EncodedKV
pub open spec fn key_texts(kvs: Seq<EncodedKV>) -> Seq<VString> { Seq::new(kvs.len(), |i: int| kvs[i].key) }
pub open spec fn same_texts(a: Seq<VString>, b: Seq<VString>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).bytes() == (#[trigger] b[i]).bytes() }
pub broadcast proof fn lemma_same_setup(k: Seq<VString>, v: Seq<VString>, k1: Seq<VString>, v1: Seq<VString>, es: int)
  requires same_texts(k, k1), same_texts(v, v1),
  ensures #![trigger same_texts(k, k1), same_texts(v, v1), kv_setup_ok(k, v, es)] kv_setup_ok(k, v, es) ==> kv_setup_ok(k1, v1, es),
{
  if kv_setup_ok(k, v, es) {
    assert forall|i: int| 0 <= i < k1.len() implies elem_ok(#[trigger] v1[i], es) by { assert(elem_ok(v[i], es)); }
    assert forall|i: int, j: int| 0 <= i < j < k1.len() implies sha_key((#[trigger] k1[i]).bytes()) != sha_key((#[trigger] k1[j]).bytes()) by { assert(sha_key(k[i].bytes()) != sha_key(k[j].bytes())); }
  }
}
pub broadcast proof fn lemma_same_holds(db: KVDatabase, k: Seq<VString>, v: Seq<VString>, k1: Seq<VString>, v1: Seq<VString>)
  requires same_texts(k, k1), same_texts(v, v1), k.len() == v.len(),
  ensures #![trigger same_texts(k, k1), same_texts(v, v1), db.kv_holds_text(k, v)] db.kv_holds_text(k, v) ==> db.kv_holds_text(k1, v1),
{
  if db.kv_holds_text(k, v) {
    let kvs = choose|kvs: Seq<KeyValue>| kvs.len() == k.len() && #[trigger] db.kv_holds(kvs)
      && forall|i: int| 0 <= i < k.len() ==> (#[trigger] kvs[i]).key@ == sha_key(k[i].bytes())
          && is_row(kvs[i].value@, elem_bytes(v[i]), db.elem_size as int, db.plaintext_bits as int);
    assert forall|i: int| 0 <= i < k1.len() implies (#[trigger] kvs[i]).key@ == sha_key(k1[i].bytes())
          && is_row(kvs[i].value@, elem_bytes(v1[i]), db.elem_size as int, db.plaintext_bits as int) by { assert(k[i].bytes() == k1[i].bytes() && v[i].bytes() == v1[i].bytes()); }
  }
}
pub open spec fn value_texts(kvs: Seq<EncodedKV>) -> Seq<VString> { Seq::new(kvs.len(), |i: int| kvs[i].value) }
pub open spec fn kv_params_ok(p: KVParams, db: KVDatabase, dim: int) -> bool {
  p.dim == dim && p.m == db.kheight() && p.elem_size == db.elem_size && p.plaintext_bits == db.plaintext_bits
  && is_hint(p.rhs@, db.entries@, p.public_seed@, dim, db.kheight())
  && p.filter_params.seed@ == db.filter_params.seed@ && p.filter_params.segment_length == db.filter_params.segment_length
  && p.filter_params.segment_length_mask == db.filter_params.segment_length_mask
  && p.filter_params.segment_count_length == db.filter_params.segment_count_length
}
pub open spec fn fresh_seeds(d0: Seq<Draw>, d1: Seq<Draw>, filter_seed: Seq<u8>, public_seed: Seq<u8>) -> bool {
  exists|mid: Seq<Draw>| fresh_filter_seed(d0, mid, filter_seed) && #[trigger] fresh_seed(mid, d1, public_seed)
}

impl KVShard {
@fn api::KVShard::new
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    requires 8 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000, kvs@.len() < 0x100_0000,
    ensures
      match r {
        Ok(sh) => kvs@.len() > 0 && values_ok(kvs@, width_of(elem_size as int, plaintext_bits as int)) && distinct_keys(kvs@)
          && sh.db.dwf() && sh.db.m == m && sh.db.elem_size == elem_size && sh.db.plaintext_bits == plaintext_bits && sh.db.kv_holds(kvs@)
          && kv_params_ok(sh.base_params, sh.db, lwe_dim as int)
          && fresh_seeds(old(log).draws, final(log).draws, sh.db.filter_params.seed@, sh.base_params.public_seed@),
        Err(e) => !e.reuse,
      },
@stmt db 0
    let ghost mid = log.draws;
    proof { assert(fresh_filter_seed(old(log).draws, mid, db.filter_params.seed@)); }
@stmt base_params 0
    proof { assert(fresh_seed(mid, log.draws, base_params.public_seed@)); }
@end
@fn api::KVShard::from_base64_strings
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    requires 8 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000, keys@.len() < 0x100_0000,
    ensures
      match r {
        Ok(sh) => kv_setup_ok(keys@, values@, elem_size as int)
          && sh.db.dwf() && sh.db.m == m && sh.db.elem_size == elem_size && sh.db.plaintext_bits == plaintext_bits && sh.db.kv_holds_text(keys@, values@)
          && kv_params_ok(sh.base_params, sh.db, lwe_dim as int)
          && fresh_seeds(old(log).draws, final(log).draws, sh.db.filter_params.seed@, sh.base_params.public_seed@),
        Err(e) => !e.reuse,
      },
@stmt db 0
    let ghost mid = log.draws;
    proof { assert(fresh_filter_seed(old(log).draws, mid, db.filter_params.seed@)); }
@stmt base_params 0
    proof { assert(fresh_seed(mid, log.draws, base_params.public_seed@)); }
@end
@fn api::KVShard::from_json_file
@gparam Tracked(log): Tracked<&mut DrawLog>, Tracked(disk): Tracked<&mut Disk>
@ret r
@spec
    requires
      8 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000,
      old(disk).files.contains_key(file_path.bytes()), exists|kvs: Vec<EncodedKV>| #[trigger] reads_text(old(disk).files[file_path.bytes()], kvs),
      forall|kvs: Vec<EncodedKV>| #[trigger] reads_text(old(disk).files[file_path.bytes()], kvs) ==> kvs@.len() < 0x100_0000,
    ensures
      final(disk).files == old(disk).files,
      exists|kvs: Vec<EncodedKV>| #[trigger] reads_text(old(disk).files[file_path.bytes()], kvs) &&
      match r {
        Ok(sh) => kv_setup_ok(key_texts(kvs@), value_texts(kvs@), elem_size as int)
          && sh.db.dwf() && sh.db.m == m && sh.db.elem_size == elem_size && sh.db.plaintext_bits == plaintext_bits
          && sh.db.kv_holds_text(key_texts(kvs@), value_texts(kvs@))
          && kv_params_ok(sh.base_params, sh.db, lwe_dim as int)
          && fresh_seeds(old(log).draws, final(log).draws, sh.db.filter_params.seed@, sh.base_params.public_seed@),
        Err(e) => !e.reuse,
      },
@loop 0
    invariant
      __v0@.len() == $i, forall|i_: int| 0 <= i_ < $i ==> (#[trigger] __v0@[i_]).bytes() == enc_kvs@[i_].key.bytes(),
@after 0
    assert(same_texts(__v0@, key_texts(enc_kvs@)));
@loop 1
    invariant
      __v1@.len() == $i, forall|i_: int| 0 <= i_ < $i ==> (#[trigger] __v1@[i_]).bytes() == enc_kvs@[i_].value.bytes(),
@after 1
    assert(same_texts(__v1@, value_texts(enc_kvs@)));
@start
    broadcast use lemma_same_setup, lemma_same_holds;
@end
@fn api::KVShard::write_to_file
@gparam Tracked(disk): Tracked<&mut Disk>
@ret r
@spec
    requires db_path.bytes() != params_path.bytes(),
    ensures
      only2(old(disk).files, final(disk).files, db_path.bytes(), params_path.bytes()),
      r is Ok ==> final(disk).files.contains_key(params_path.bytes()) && json_of(final(disk).files[params_path.bytes()]) == Some(self.base_params.j())
        && final(disk).files.contains_key(db_path.bytes()) && json_of(final(disk).files[db_path.bytes()]) == Some(self.db.entries.j()),
@end

@fn api::KVShard::respond
@opt v0=Vec<u32>
@ret r
@spec
    requires self.db.dwf(),
    ensures
      match r {
        Ok(b) => q.0@.len() == self.db.dheight()
          && exists|w: Seq<u32>| b@ == #[trigger] resp_ser(w) && is_answer(w, q.0@, self.db.dcols(), self.db.dheight()),
        Err(e) => !e.reuse && q.0@.len() != self.db.dheight(),
      },
@loop 0
    invariant
      self.db.dwf(), q.0@.len() == self.db.dheight(), __h0 == self.db.dcols().len(), __v0@.len() == $i,
      forall|c: int| 0 <= c < $i ==> (#[trigger] __v0@[c]) as int == dot(q.0@, self.db.dcols()[c]@, self.db.dheight()) % M32,
@end
@fn api::KVShard::get_db
@ret r
@spec
    ensures *r == self.db,
@end
@fn api::KVShard::get_base_params
@ret r
@spec
    ensures *r == self.base_params,
@end
@fn api::KVShard::into_row_iter
@sub \.into_iter\(\)\s*$ ==>
@rettype Vec<VString>
@ret r
@spec
    requires self.db.dwf(),
    ensures
      r@.len() == self.db.kheight(),
      forall|i: int| 0 <= i < r@.len() ==> is_text((#[trigger] r@[i]).bytes(), db_row(self.db.entries@, i), self.db.elem_size as int, self.db.plaintext_bits as int),
@loop 0
    invariant
      self.db.dwf(), __h0 == self.db.kheight(), __v0@.len() == $i,
      forall|i_: int| 0 <= i_ < $i ==> is_text((#[trigger] __v0@[i_]).bytes(), db_row(self.db.entries@, i_), self.db.elem_size as int, self.db.plaintext_bits as int),
@end
}

// how many of the three positions of a key are row r
pub open spec fn hits(fp: FilterParams, key: Seq<u64>) -> spec_fn(int) -> int {
  |r: int| hit(fp.pos(key, 0), r) + hit(fp.pos(key, 1), r) + hit(fp.pos(key, 2), r)
}
pub open spec fn hit(p: int, r: int) -> int { if p == r { 1 } else { 0 } }
pub open spec fn hits_n(ix: Seq<usize>, r: int, n: int) -> int
  decreases n,
{ if n <= 0 { 0 } else { hits_n(ix, r, n - 1) + hit(ix[n - 1] as int, r) } }
pub open spec fn is_partial_query(q: Seq<u32>, lhs: Seq<u32>, pb: nat, ix: Seq<usize>, n: int) -> bool {
  q.len() == lhs.len()
  && forall|r: int| 0 <= r < q.len() ==> (#[trigger] q[r]) as int == (lhs[r] + pow2((32 - pb) as nat) * hits_n(ix, r, n)) % M32
}
pub open spec fn unmask(fp: FilterParams, key: Seq<u64>) -> spec_fn(int) -> int { |i: int| fp.mask(key, i) }
pub proof fn lemma_hits_step(lhs: int, f: int, n: int, q: int)
  requires q == (lhs + f * n) % M32,
  ensures (q + f) % M32 == (lhs + f * (n + 1)) % M32,
{
  assert(f * (n + 1) == f * n + f) by (nonlinear_arith);
  lemma_add_mod_noop(lhs + f * n, f, M32); lemma_mod_twice(lhs + f * n, M32); lemma_add_mod_noop((lhs + f * n) % M32, f, M32);
}

impl QueryParams<KVDatabase, FilterParams> {
@fn api::QueryParams<KVDatabase,FilterParams>::new
@sub Default::default\(\) ==> core::marker::PhantomData
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    ensures
      match r {
        Ok(p) => !p.used && p.elem_size == params.elem_size && p.plaintext_bits == params.plaintext_bits
          && p.extra_params == Some(params.filter_params)
          && exists|s: Seq<u32>, e: Seq<u32>, mid: Seq<Draw>|
              is_fresh_client(p.lhs@, p.rhs@, cp.0@, params.rhs@, params.dim as int, s, e)
              && #[trigger] client_draws(old(log).draws, mid, final(log).draws, s, e),
        Err(x) => !x.reuse && !(rect(cp.0@, params.dim as int) && rect(params.rhs@, params.dim as int)),
      },
@start
    let ghost d0 = log.draws;
@aftercall random_ternary_vector 0
    let ghost mid = log.draws;
    proof { assert(tern_vec(mid, d0.len() as int, s@)); lemma_client(d0, mid, s@, cp.0@, params.rhs@, params.dim as int); }
@end

@fn api::QueryParams<KVDatabase,FilterParams>::generate_query
@ret r
@spec
    requires
      !old(self).used && old(self).extra_params is Some ==> old(self).extra_params->Some_0.fwf(old(self).lhs@.len() as int),
      !old(self).used ==> 1 <= old(self).plaintext_bits < 32,
    ensures
      final(self).used, final(self).lhs@ == old(self).lhs@, final(self).rhs@ == old(self).rhs@, final(self).extra_params == old(self).extra_params,
      final(self).elem_size == old(self).elem_size, final(self).plaintext_bits == old(self).plaintext_bits,
      match r {
        Ok(q) => !old(self).used && old(self).extra_params is Some
          && is_query(q.0@, old(self).lhs@, old(self).plaintext_bits as nat, hits(old(self).extra_params->Some_0, key@)),
        Err(e) => if old(self).used { e.reuse } else { !e.reuse && old(self).extra_params is None },
      },
@stmt indices 0
    let ghost fp = self.extra_params->Some_0;
    let ghost lhs0 = self.lhs@;
    let ghost n_rows = lhs0.len() as int;
    proof {
      fp.lemma_pos(key@, n_rows);
      lemma_scale(self.plaintext_bits as nat);
      assert forall|r: int| 0 <= r < n_rows implies (#[trigger] lhs@[r]) as int == (lhs0[r] + pow2((32 - self.plaintext_bits) as nat) * hits_n(indices@, r, 0)) % M32 by {
        assert(hits_n(indices@, r, 0) == 0);
        assert(pow2((32 - self.plaintext_bits) as nat) * 0 == 0) by (nonlinear_arith);
        lemma_small_mod(lhs0[r] as nat, M32 as nat);
      }
    }
@loop 0
    invariant
      indices@.len() == 3, forall|j: int| 0 <= j < 3 ==> 0 <= (#[trigger] indices@[j]) < n_rows,
      n_rows == lhs0.len(), 1 <= self.plaintext_bits < 32, query_indicator == pow2((32 - self.plaintext_bits) as nat),
      is_partial_query(lhs@, lhs0, self.plaintext_bits as nat, indices@, $i as int),
@body 0
    let ghost q0 = lhs@;
@bodyend 0
    proof {
      assert forall|r: int| 0 <= r < n_rows implies (#[trigger] lhs@[r]) as int == (lhs0[r] + pow2((32 - self.plaintext_bits) as nat) * hits_n(indices@, r, $i + 1)) % M32 by {
        let ip = indices@[$i as int] as int;
        assert(q0[r] as int == (lhs0[r] + pow2((32 - self.plaintext_bits) as nat) * hits_n(indices@, r, $i as int)) % M32);
        assert(hits_n(indices@, r, $i + 1) == hits_n(indices@, r, $i as int) + hit(ip, r));
        if r == ip { lemma_hits_step(lhs0[r] as int, pow2((32 - self.plaintext_bits) as nat) as int, hits_n(indices@, r, $i as int), q0[r] as int); }
      }
    }
@after 0
    proof {
      assert forall|r: int| 0 <= r < n_rows implies #[trigger] hits(fp, key@)(r) == hits_n(indices@, r, 3) by {
        reveal_with_fuel(hits_n, 4);
        assert(indices@[0] == fp.pos(key@, 0) && indices@[1] == fp.pos(key@, 1) && indices@[2] == fp.pos(key@, 2));
      }
    }
@end

@fn api::QueryParams<KVDatabase,FilterParams>::parse_resp_as_row
@ret r
@spec
    requires
      self.extra_params is Some ==> 1 <= self.plaintext_bits < 32 && self.elem_size < 0x1_0000_0000_0000
      && resp.0@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int)
      && self.rhs@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
      1 <= self.plaintext_bits < 32,
    ensures
      match r {
        Ok(row) => self.extra_params is Some && row@.len() == width_of(self.elem_size as int, self.plaintext_bits as int)
          && forall|i: int| 0 <= i < row@.len() ==>
            decodes(#[trigger] row@[i], (resp.0@[i] - self.rhs@[i]) % M32, self.plaintext_bits as nat, self.extra_params->Some_0.mask(key@, i)),
        Err(e) => !e.reuse && self.extra_params is None,
      },
@start
    proof { lemma_scale(self.plaintext_bits as nat); }
@loop 0
    invariant
      1 <= self.plaintext_bits < 32, __h0 == width_of(self.elem_size as int, self.plaintext_bits as int),
      rounding_factor == pow2((32 - self.plaintext_bits) as nat), rounding_floor == rounding_factor / 2, plaintext_size == pow2(self.plaintext_bits as nat),
      2 <= rounding_factor, 1 <= plaintext_size, self.extra_params is Some, *fp == self.extra_params->Some_0,
      resp.0@.len() >= __h0, self.rhs@.len() >= __h0, __v0@.len() == $i,
      forall|i_: int| 0 <= i_ < $i ==>
        decodes(#[trigger] __v0@[i_], (resp.0@[i_] - self.rhs@[i_]) % M32, self.plaintext_bits as nat, fp.mask(key@, i_)),
@body 0
    proof { lemma_quot((resp.0@[$i as int] - self.rhs@[$i as int]) % M32, rounding_factor as int); }
@bodyend 0
    proof {
      let x = (resp.0@[$i as int] - self.rhs@[$i as int]) % M32;
      lemma_masked_mod(rounded(x, self.plaintext_bits as nat), fp.mask(key@, $i as int), self.plaintext_bits as nat);
      lemma_decodes(__v0@.last(), x, self.plaintext_bits as nat, fp.mask(key@, $i as int));
    }
@end

@fn api::QueryParams<KVDatabase,FilterParams>::parse_resp_as_bytes
@ret r
@spec
    requires
      1 <= self.plaintext_bits < 32, self.elem_size < 0x1_0000_0000_0000,
      resp.0@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
      self.rhs@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
    ensures
      match r {
        Ok(b) => self.extra_params is Some
          && exists|row: Seq<u32>| #[trigger] is_decoded(row, resp.0@, self.rhs@, self.elem_size as int, self.plaintext_bits as nat, unmask(self.extra_params->Some_0, key@))
            && is_bytes(b@, row, self.elem_size as int, self.plaintext_bits as int),
        Err(e) => !e.reuse && self.extra_params is None,
      },
@stmt row 0
    proof { assert(is_decoded(row@, resp.0@, self.rhs@, self.elem_size as int, self.plaintext_bits as nat, unmask(self.extra_params->Some_0, key@))); }
@end

@fn api::QueryParams<KVDatabase,FilterParams>::parse_resp_as_base64
@ret r
@spec
    requires
      1 <= self.plaintext_bits < 32, self.elem_size < 0x1_0000_0000_0000,
      resp.0@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
      self.rhs@.len() >= width_of(self.elem_size as int, self.plaintext_bits as int),
    ensures
      match r {
        Ok(t) => self.extra_params is Some
          && exists|row: Seq<u32>| #[trigger] is_decoded(row, resp.0@, self.rhs@, self.elem_size as int, self.plaintext_bits as nat, unmask(self.extra_params->Some_0, key@))
            && is_text(t.bytes(), row, self.elem_size as int, self.plaintext_bits as int),
        Err(e) => !e.reuse && self.extra_params is None,
      },
@stmt row 0
    proof { assert(is_decoded(row@, resp.0@, self.rhs@, self.elem_size as int, self.plaintext_bits as nat, unmask(self.extra_params->Some_0, key@))); }
@end
}

@fn api::generate_kv_query_params
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    ensures
      match r {
        Ok(p) => !p.used && p.elem_size == params.elem_size && p.plaintext_bits == params.plaintext_bits
          && p.extra_params == Some(params.filter_params)
          && exists|s: Seq<u32>, e: Seq<u32>, mid: Seq<Draw>|
              is_fresh_client(p.lhs@, p.rhs@, cp.0@, params.rhs@, params.dim as int, s, e)
              && #[trigger] client_draws(old(log).draws, mid, final(log).draws, s, e),
        Err(x) => !x.reuse && !(rect(cp.0@, params.dim as int) && rect(params.rhs@, params.dim as int)),
      },
@end
