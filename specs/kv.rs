@struct db::kv::KeyValue
@struct db::kv::StorageFilters
@struct db::kv::FilterParams
@struct db::kv::KVDatabase
@struct db::kv::KVParams
@codec db::kv::KVParams
@codec db::kv::FilterParams
@const db::kv::MAX_CONSTRUCTION_ATTEMPTS

impl Clone for KVDatabase {
@fn db::kv::KVDatabase as Clone::clone
@ret r
@spec
  ensures r.m == self.m, r.elem_size == self.elem_size, r.plaintext_bits == self.plaintext_bits,
    r.entries@.len() == self.entries@.len(), forall|i: int| 0 <= i < self.entries@.len() ==> (#[trigger] r.entries@[i])@ == self.entries@[i]@, r.filter_params == self.filter_params
@end
}
impl Clone for FilterParams {
@fn db::kv::FilterParams as Clone::clone
@ret r
@spec
  ensures r == *self
@end
}

impl KeyValue {
@fn db::kv::KeyValue::from_base64_strings
@ret r
@spec
    requires 1 <= plaintext_bits < 32, elem_size < 0x1_0000_0000_0000,
    ensures
      match r {
        Ok(kv) => elem_ok(*v, elem_size as int) && kv.key@ == sha_key(k.bytes())
          && is_row(kv.value@, elem_bytes(*v), elem_size as int, plaintext_bits as int),
        Err(e) => !e.reuse && !elem_ok(*v, elem_size as int),
      },
@end
}

// the same key twice
pub open spec fn distinct_keys(kvs: Seq<KeyValue>) -> bool {
  forall|i: int, j: int| 0 <= i < j < kvs.len() ==> (#[trigger] kvs[i]).key@ != (#[trigger] kvs[j]).key@
}
pub open spec fn values_ok(kvs: Seq<KeyValue>, width: int) -> bool {
  forall|i: int| 0 <= i < kvs.len() ==> (#[trigger] kvs[i]).value@.len() == width
}
// filter f returns, under label c, word c of every value
pub open spec fn stores(f: BinaryFuseP32, kvs: Seq<KeyValue>, seed: Seq<u8>, c: int, pb: nat) -> bool {
  f.wf() && f.seed@ == seed && f.ptxt_mod == pow2(pb) && f.geo_of(kvs.len() as int)
  && forall|i: int| 0 <= i < kvs.len() ==> #[trigger] f.value(s_mix256(kvs[i].key@, seed), c as u64) == kvs[i].value@[c] as int % pow2(pb) as int
}
pub open spec fn fresh_filter_seed(d0: Seq<Draw>, d1: Seq<Draw>, seed: Seq<u8>) -> bool {
  extends(d0, d1) && exists|k: int| d0.len() <= k < d1.len() && #[trigger] d1[k] == Draw::Bytes(seed)
}
impl StorageFilters {
  pub open spec fn swf(&self, kvs: Seq<KeyValue>, width: int, pb: nat) -> bool {
    self.filters@.len() == width
    && (forall|c: int| 0 <= c < width ==> stores(#[trigger] self.filters@[c], kvs, self.seed@, c, pb))
    && self.segment_length == s_seglen(kvs.len() as int) && self.segment_length_mask == self.segment_length - 1 && self.segment_count_length == s_scl(kvs.len() as int)
  }
@fn db::kv::StorageFilters::from_kvs
@opt v0=Vec<[u64;4]>
@sub HashSet::new\(\) ==> crate::ext::KeySet::new()
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    requires 1 <= row_width, values_ok(kvs@, row_width as int), 1 <= kvs@.len() < 0x100_0000, 8 <= plaintext_bits < 32,
    ensures
      match r {
        Ok(sf) => distinct_keys(kvs@) && sf.swf(kvs@, row_width as int, plaintext_bits as nat)
          && fresh_filter_seed(old(log).draws, final(log).draws, sf.seed@),
        Err(e) => !e.reuse,
      },
@start
    proof { lemma_scale(plaintext_bits as nat); lemma2_to64(); }
@loop 0
    invariant __v0@.len() == $i, forall|i_: int| 0 <= i_ < $i ==> (#[trigger] __v0@[i_])@ == kvs@[i_].key@,
@loop 1
    invariant
      keys@.len() == kvs@.len(), forall|i_: int| 0 <= i_ < kvs@.len() ==> (#[trigger] keys@[i_])@ == kvs@[i_].key@,
      forall|x: int| 0 <= x < $i ==> distinct_keys@.contains((#[trigger] kvs@[x]).key@),
      forall|x: int, y: int| 0 <= x < y < $i ==> (#[trigger] kvs@[x]).key@ != (#[trigger] kvs@[y]).key@,
@body 1
    proof { assert(keys@[$i as int]@ == kvs@[$i as int].key@); }
@loop 2
    invariant
      1 <= row_width, values_ok(kvs@, row_width as int), 1 <= kvs@.len() < 0x100_0000, 8 <= plaintext_bits < 32,
      pow2(plaintext_bits as nat) <= 0x8000_0000, pow2(plaintext_bits as nat) >= 1,
      keys@.len() == kvs@.len(), forall|i_: int| 0 <= i_ < kvs@.len() ==> (#[trigger] keys@[i_])@ == kvs@[i_].key@,
      crate::kv::distinct_keys(kvs@), extends(old(log).draws, log.draws),
@loop 3
    invariant_except_break __r1 is None, __v1@.len() == $i,
    invariant
      1 <= row_width, values_ok(kvs@, row_width as int), 1 <= kvs@.len() < 0x100_0000, 8 <= plaintext_bits < 32,
      pow2(plaintext_bits as nat) <= 0x8000_0000, pow2(plaintext_bits as nat) >= 1,
      keys@.len() == kvs@.len(), forall|i_: int| 0 <= i_ < kvs@.len() ==> (#[trigger] keys@[i_])@ == kvs@[i_].key@,
      forall|c: int| 0 <= c < __v1@.len() ==> stores(#[trigger] __v1@[c], kvs@, seed@, c, plaintext_bits as nat),
    ensures
      __r1 is None ==> __v1@.len() == row_width,
@stmt filters 0
    proof { assert(log.draws[log.draws.len() - 1] == Draw::Bytes(seed@)); }
@body 3
    let ghost v1 = __v1@;
@bodyend 3
    proof {
      assert(__v1@ =~= v1.push(__v1@.last()));
      assert forall|c: int| 0 <= c < v1.len() implies stores(#[trigger] __v1@[c], kvs@, seed@, c, plaintext_bits as nat) by { assert(__v1@[c] == v1[c]); }
      let f = __v1@.last();
      assert forall|i_: int| 0 <= i_ < kvs@.len() implies #[trigger] f.value(s_mix256(kvs@[i_].key@, seed@), $i as u64) == kvs@[i_].value@[$i as int] as int % pow2(plaintext_bits as nat) as int by {
        assert(keys@[i_]@ == kvs@[i_].key@);
      }
      assert(stores(f, kvs@, seed@, $i as int, plaintext_bits as nat));
    }
@loop 4
    invariant
      values_ok(kvs@, row_width as int), $i3 < row_width, __v2@.len() == $i,
      forall|i_: int| 0 <= i_ < $i ==> (#[trigger] __v2@[i_]) == kvs@[i_].value@[$i3 as int],
@end

@fn db::kv::StorageFilters::get_columns
@ret r
@spec
    requires forall|c: int| 0 <= c < self.filters@.len() ==> (#[trigger] self.filters@[c]).wf(),
    ensures is_columns(r@, self.filters@),
@loop 0
    invariant
      forall|c: int| 0 <= c < self.filters@.len() ==> (#[trigger] self.filters@[c]).wf(),
      __v0@.len() == $i,
      forall|c: int| 0 <= c < $i ==> (#[trigger] __v0@[c])@.len() == self.filters@[c].fingerprints@.len(),
      forall|c: int, i: int| 0 <= c < $i && 0 <= i < __v0@[c]@.len() ==>
        (#[trigger] __v0@[c]@[i]) as int == self.filters@[c].fingerprints@[i] as int % self.filters@[c].ptxt_mod as int,
@end
}

pub open spec fn is_columns(e: Seq<Vec<u32>>, filters: Seq<BinaryFuseP32>) -> bool {
  e.len() == filters.len()
  && (forall|c: int| 0 <= c < e.len() ==> (#[trigger] e[c])@.len() == filters[c].fingerprints@.len())
  && forall|c: int, i: int| 0 <= c < e.len() && 0 <= i < e[c]@.len() ==>
        (#[trigger] e[c]@[i]) as int == filters[c].fingerprints@[i] as int % filters[c].ptxt_mod as int
}
// the columns of the filters, with their parameters, return the value of every key
pub proof fn lemma_kv_db(sf: StorageFilters, kvs: Seq<KeyValue>, db: KVDatabase, width: int)
  requires
    1 <= db.plaintext_bits < 32, width >= 1, sf.swf(kvs, width, db.plaintext_bits as nat), is_columns(db.entries@, sf.filters@),
    db.filter_params.seed@ == sf.seed@, db.filter_params.segment_length == sf.segment_length,
    db.filter_params.segment_length_mask == sf.segment_length_mask, db.filter_params.segment_count_length == sf.segment_count_length,
  ensures db.kv_holds(kvs), db.entries@.len() == width, rect(db.entries@, db.kheight()), 1 <= db.kheight() <= 0xffff_ffff,
{
  let p = pow2(db.plaintext_bits as nat) as int;
  lemma_pow2_pos(db.plaintext_bits as nat);
  let f0 = sf.filters@[0];
  assert(stores(f0, kvs, sf.seed@, 0, db.plaintext_bits as nat));
  assert forall|c: int| 0 <= c < width implies (#[trigger] db.entries@[c])@.len() == db.kheight() by {
    assert(stores(sf.filters@[c], kvs, sf.seed@, c, db.plaintext_bits as nat));
  }
  assert forall|c: int, i: int| 0 <= c < width && 0 <= i < db.kheight() implies ((#[trigger] db.entries@[c]@[i]) as int) < p by {
    assert(stores(sf.filters@[c], kvs, sf.seed@, c, db.plaintext_bits as nat));
    assert(db.entries@[c]@.len() == db.kheight());
    lemma_mod_bound(sf.filters@[c].fingerprints@[i] as int, p);
  }
  assert forall|i: int, c: int| 0 <= i < kvs.len() && 0 <= c < width implies
    #[trigger] db.kv_word(kvs[i].key@, c) == kvs[i].value@[c] as int % p by {
    let f = sf.filters@[c];
    assert(stores(f, kvs, sf.seed@, c, db.plaintext_bits as nat));
    assert(db.entries@[c]@.len() == db.kheight());
    let h = s_mix256(kvs[i].key@, sf.seed@);
    lemma_positions(h, f.segment_length, f.segment_length_mask, f.segment_count_length, f.fingerprints@.len() as int);
    lemma_mod4(f.fingerprints@[f.p0(h)] as int, f.fingerprints@[f.p1(h)] as int, f.fingerprints@[f.p2(h)] as int, s_mix(h, c as u64) as int, p);
    assert(f.value(h, c as u64) == kvs[i].value@[c] as int % p);
  }
}
pub proof fn lemma_mod4(a: int, b: int, c: int, d: int, p: int)
  requires p >= 1,
  ensures (a % p + b % p + c % p + d) % p == (a + b + c + d % p) % p,
{
  lemma_add_mod_noop(a + b + c, d, p); lemma_mod_twice(d, p); lemma_add_mod_noop(a + b + c, d % p, p);
  lemma_add_mod_noop(a + b, c, p); lemma_add_mod_noop(a, b, p);
  lemma_add_mod_noop(a % p + b % p + c % p, d, p);
  lemma_add_mod_noop(a % p + b % p, c % p, p); lemma_mod_twice(c, p); lemma_mod_twice(a, p); lemma_mod_twice(b, p);
  lemma_add_mod_noop(a % p, b % p, p);
}

impl FilterParams {
  pub open spec fn fwf(&self, height: int) -> bool { geo_ok(self.segment_length, self.segment_length_mask, self.segment_count_length, height) }
  // the three positions of a key
  pub open spec fn pos(&self, key: Seq<u64>, j: int) -> int {
    let h = s_mix256(key, self.seed@);
    if j == 0 { s_h0(h, self.segment_count_length) }
    else if j == 1 { s_h1(h, self.segment_length, self.segment_length_mask, self.segment_count_length) as int }
    else { s_h2(h, self.segment_length, self.segment_length_mask, self.segment_count_length) as int }
  }
  pub open spec fn mask(&self, key: Seq<u64>, label: int) -> int { s_mix(s_mix256(key, self.seed@), label as u64) as int }
  pub proof fn lemma_pos(&self, key: Seq<u64>, height: int)
    requires self.fwf(height),
    ensures
      0 <= self.pos(key, 0) < height, 0 <= self.pos(key, 1) < height, 0 <= self.pos(key, 2) < height,
      self.pos(key, 0) != self.pos(key, 1), self.pos(key, 0) != self.pos(key, 2), self.pos(key, 1) != self.pos(key, 2),
  {
    lemma_positions(s_mix256(key, self.seed@), self.segment_length, self.segment_length_mask, self.segment_count_length, height);
  }
@fn db::kv::FilterParams::get_hash_evals
@ret r
@spec
    requires self.segment_count_length >= 1, self.segment_count_length + 2 * self.segment_length <= 0xffff_ffff,
    ensures r@.len() == 3, forall|j: int| 0 <= j < 3 ==> (#[trigger] r@[j]) == self.pos(key@, j),
@end
@fn db::kv::FilterParams::get_key_fingerprint
@ret r
@spec
    ensures r == self.mask(key@, label as int),
@end
@fn db::kv::FilterParams::unmask_value
@ret r
@spec
    ensures r as int == (masked + self.mask(key@, label as int)) % M32,
@start
    proof { lemma_trunc(s_mix(s_mix256(key@, self.seed@), label)); lemma_add_mod_noop_right(masked as int, self.mask(key@, label as int), M32); }
@end
}

pub proof fn lemma_trunc(x: u64)
  ensures x as u32 as int == x as int % M32,
{ assert(x as u32 == x % 0x1_0000_0000) by (bit_vector); }
impl KVDatabase {
  pub open spec fn kheight(&self) -> int { if self.entries@.len() > 0 { self.entries@[0]@.len() as int } else { 0 } }
  // the three words of a key in column c plus the unmasking value give word c of its value
  pub open spec fn kv_word(&self, key: Seq<u64>, c: int) -> int {
    (self.entries@[c]@[self.filter_params.pos(key, 0)] + self.entries@[c]@[self.filter_params.pos(key, 1)] + self.entries@[c]@[self.filter_params.pos(key, 2)]
      + self.filter_params.mask(key, c)) % pow2(self.plaintext_bits as nat) as int
  }
  pub open spec fn kv_holds(&self, kvs: Seq<KeyValue>) -> bool {
    self.filter_params.fwf(self.kheight())
    && (forall|c: int, i: int| 0 <= c < self.entries@.len() && 0 <= i < self.kheight() ==> ((#[trigger] self.entries@[c]@[i]) as int) < pow2(self.plaintext_bits as nat))
    && forall|i: int, c: int| 0 <= i < kvs.len() && 0 <= c < self.entries@.len() ==>
        #[trigger] self.kv_word(kvs[i].key@, c) == kvs[i].value@[c] as int % pow2(self.plaintext_bits as nat) as int
  }
@fn db::kv::KVDatabase::new
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    requires 8 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000, kvs@.len() < 0x100_0000,
    ensures
      match r {
        Ok(db) => kvs@.len() > 0 && values_ok(kvs@, width_of(elem_size as int, plaintext_bits as int)) && distinct_keys(kvs@)
          && db.dwf() && db.m == m && db.elem_size == elem_size && db.plaintext_bits == plaintext_bits && db.kv_holds(kvs@)
          && fresh_filter_seed(old(log).draws, final(log).draws, db.filter_params.seed@),
        Err(e) => !e.reuse,
      },
@start
    proof { lemma_width(elem_size as int, plaintext_bits as int); }
@loop 0
    invariant !__v0 ==> forall|i_: int| 0 <= i_ < $i ==> (#[trigger] kvs@[i_]).value@.len() == row_width,
    ensures !__v0 ==> forall|i_: int| 0 <= i_ < kvs@.len() ==> (#[trigger] kvs@[i_]).value@.len() == row_width,
@stmt filters 0
    proof {
      assert forall|db: KVDatabase|
        db.plaintext_bits == plaintext_bits && is_columns(db.entries@, filters.filters@) && db.filter_params.seed@ == filters.seed@ && db.filter_params.segment_length == filters.segment_length
        && db.filter_params.segment_length_mask == filters.segment_length_mask && db.filter_params.segment_count_length == filters.segment_count_length implies
        #[trigger] db.kv_holds(kvs@) && db.entries@.len() == row_width && rect(db.entries@, db.kheight()) && 1 <= db.kheight() <= 0xffff_ffff by {
        lemma_kv_db(filters, kvs@, db, row_width as int);
      }
    }
@end
@fn db::kv::KVDatabase::from_base64_strings
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    requires 8 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000, keys@.len() < 0x100_0000,
    ensures
      match r {
        Ok(db) => kv_setup_ok(keys@, values@, elem_size as int)
          && db.dwf() && db.m == m && db.elem_size == elem_size && db.plaintext_bits == plaintext_bits
          && db.kv_holds_text(keys@, values@)
          && fresh_filter_seed(old(log).draws, final(log).draws, db.filter_params.seed@),
        Err(e) => !e.reuse,
      },
@loop 0
    invariant
      8 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000, keys@.len() == values@.len(), __v0@.len() == $i,
      forall|i_: int| 0 <= i_ < $i ==> match (#[trigger] __v0@[i_]) {
        Ok(kv) => elem_ok(values@[i_], elem_size as int) && kv.key@ == sha_key(keys@[i_].bytes())
          && is_row(kv.value@, elem_bytes(values@[i_]), elem_size as int, plaintext_bits as int),
        Err(e) => !e.reuse,
      },
@stmt kvs 0
    proof {
      assert forall|i_: int| 0 <= i_ < keys@.len() implies elem_ok(values@[i_], elem_size as int) && (#[trigger] kvs@[i_]).key@ == sha_key(keys@[i_].bytes())
          && is_row(kvs@[i_].value@, elem_bytes(values@[i_]), elem_size as int, plaintext_bits as int) by {
        assert(__b0@[i_] == Ok::<KeyValue, VErr>(kvs@[i_]));
      }
      assert(distinct_keys(kvs@) ==> forall|i: int, j: int| 0 <= i < j < keys@.len() ==> sha_key((#[trigger] keys@[i]).bytes()) != sha_key((#[trigger] keys@[j]).bytes())) by {
        if distinct_keys(kvs@) {
          assert forall|i: int, j: int| 0 <= i < j < keys@.len() implies sha_key((#[trigger] keys@[i]).bytes()) != sha_key((#[trigger] keys@[j]).bytes()) by {
            assert(kvs@[i].key@ != kvs@[j].key@);
          }
        }
      }
      assert forall|i_: int| 0 <= i_ < keys@.len() implies elem_ok(#[trigger] values@[i_], elem_size as int) by { let _ = kvs@[i_]; }
    }
@end
  pub open spec fn kv_holds_text(&self, keys: Seq<VString>, values: Seq<VString>) -> bool {
    exists|kvs: Seq<KeyValue>| kvs.len() == keys.len() && #[trigger] self.kv_holds(kvs)
      && forall|i: int| 0 <= i < keys.len() ==> (#[trigger] kvs[i]).key@ == sha_key(keys[i].bytes())
          && is_row(kvs[i].value@, elem_bytes(values[i]), self.elem_size as int, self.plaintext_bits as int)
  }
@fn db::kv::KVDatabase::get_filter_params
@ret r
@spec
    ensures *r == self.filter_params,
@end
}
pub open spec fn kv_setup_ok(keys: Seq<VString>, values: Seq<VString>, es: int) -> bool {
  keys.len() == values.len() && keys.len() > 0
  && (forall|i: int| 0 <= i < keys.len() ==> elem_ok(#[trigger] values[i], es))
  && forall|i: int, j: int| 0 <= i < j < keys.len() ==> sha_key((#[trigger] keys[i]).bytes()) != sha_key((#[trigger] keys[j]).bytes())
}

impl DatabaseMatrix for KVDatabase {
  open spec fn dcols(&self) -> Seq<Vec<u32>> { self.entries@ }
  open spec fn dheight(&self) -> int { self.kheight() }
  open spec fn des(&self) -> int { self.elem_size as int }
  open spec fn dpb(&self) -> int { self.plaintext_bits as int }
  open spec fn dwf(&self) -> bool {
    1 <= self.plaintext_bits < 32 && 1 <= self.elem_size < 0x1_0000_0000_0000
    && self.entries@.len() == width_of(self.elem_size as int, self.plaintext_bits as int)
    && rect(self.entries@, self.kheight()) && 1 <= self.kheight() <= 0xffff_ffff
  }
  proof fn dwf_facts(&self) {}

@fn db::kv::KVDatabase as DatabaseMatrix::vec_mult
@end
@fn db::kv::KVDatabase as DatabaseMatrix::get_row_width
@start
    proof { lemma_row_width(element_size as int, plaintext_bits as int); }
@end
@fn db::kv::KVDatabase as DatabaseMatrix::get_row_width_self
@end
@fn db::kv::KVDatabase as DatabaseMatrix::get_matrix_height
@start
    proof { lemma_width(self.elem_size as int, self.plaintext_bits as int); }
@end
@fn db::kv::KVDatabase as DatabaseMatrix::get_elem_size
@end
@fn db::kv::KVDatabase as DatabaseMatrix::get_plaintext_bits
@end
}

impl KVDatabase {
@fn db::kv::KVDatabase as DatabaseMatrix::write_to_file
@gparam Tracked(disk): Tracked<&mut Disk>
@opt vis=pub
@ret r
@spec
    ensures
      only(old(disk).files, final(disk).files, path.bytes()),
      r is Ok ==> written(old(disk).files, final(disk).files, path.bytes(), self.entries.j()),
@end
@fn db::kv::KVDatabase as DatabaseMatrix::switch_fmt
@opt vis=pub
@spec
    requires old(self).entries@.len() > 0, rect(old(self).entries@, old(self).entries@[0]@.len() as int),
    ensures
      is_transpose(final(self).entries@, old(self).entries@),
      final(self).m == old(self).m, final(self).elem_size == old(self).elem_size, final(self).plaintext_bits == old(self).plaintext_bits,
      final(self).filter_params == old(self).filter_params,
@end
@fn db::kv::KVDatabase as DatabaseMatrix::get_row
@opt vis=pub
@ret r
@spec
    requires i < self.entries@.len(),
    ensures r@ == self.entries@[i as int]@,
@end
@fn db::kv::KVDatabase as DatabaseMatrix::get_db_entry
@opt vis=pub
@ret r
@spec
    requires self.dwf(), i < self.kheight(),
    ensures is_text(r.bytes(), db_row(self.entries@, i as int), self.elem_size as int, self.plaintext_bits as int),
@start
    proof {
      assert forall|v: Seq<u32>| v.len() == self.entries@.len() && (forall|c: int| 0 <= c < v.len() ==> v[c] == self.entries@[c]@[i as int])
        implies #[trigger] v.len() == self.entries@.len() && v == db_row(self.entries@, i as int) by { assert(v =~= db_row(self.entries@, i as int)); }
    }
@end
}

@fn db::kv::construct_row
@ret r
@spec
  requires 1 <= plaintext_bits < 32, elem_size < 0x1_0000_0000_0000,
  ensures
    match r {
      Ok(row) => elem_ok(*element, elem_size as int) && is_row(row@, elem_bytes(*element), elem_size as int, plaintext_bits as int),
      Err(e) => !e.reuse && !elem_ok(*element, elem_size as int),
    },
@start
  proof { lemma_width(elem_size as int, plaintext_bits as int); }
@loop 0
  invariant
    1 <= plaintext_bits < 32, elem_size < 0x1_0000_0000_0000, row_width == width_of(elem_size as int, plaintext_bits as int),
    elem_ok(*element, elem_size as int), bytes@ == elem_bytes(*element), bits@.len() == 8 * bytes@.len(), row@.len() == $i,
    forall|k: int| 0 <= k < 8 * bytes@.len() ==> (#[trigger] bits@[k]) == bit8(bytes@[k / 8], k % 8),
    forall|i_: int, k: int| 0 <= i_ < $i && 0 <= k < 32 ==>
      #[trigger] bit32(row@[i_], k) == (k < plaintext_bits && i_ * plaintext_bits + k < 8 * bytes@.len()
        && bit8(bytes@[(i_ * plaintext_bits + k) / 8], (i_ * plaintext_bits + k) % 8)),
@body 0
  let ghost r0 = row@;
  proof {
    let es = elem_size as int; let pb = plaintext_bits as int;
    lemma_width(es, pb);
    assert(($i + 1) * pb == $i * pb + pb) by (nonlinear_arith);
    assert(($i + 1) * pb <= row_width * pb) by (nonlinear_arith) requires $i + 1 <= row_width, pb >= 1;
    assert(row_width * pb < es + pb);
    assert($i * pb < es) by (nonlinear_arith) requires ($i + 1) * pb <= row_width * pb, row_width * pb < es + pb;
    assert(0 <= $i * pb) by (nonlinear_arith) requires pb >= 1;
  }
@bodyend 0
  proof {
    assert forall|i_: int, k: int| 0 <= i_ < $i + 1 && 0 <= k < 32 implies
      #[trigger] bit32(row@[i_], k) == (k < plaintext_bits && i_ * plaintext_bits + k < 8 * bytes@.len()
        && bit8(bytes@[(i_ * plaintext_bits + k) / 8], (i_ * plaintext_bits + k) % 8)) by {
      if i_ < $i { assert(row@[i_] == r0[i_]); } else {
        let t = $i * plaintext_bits + k;
        if k < plaintext_bits && t < 8 * bytes@.len() { assert(bits@[t] == bit8(bytes@[t / 8], t % 8)); }
      }
    }
  }
@end

impl KVParams {
@fn db::kv::KVParams::new
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    requires db.dwf(),
    ensures
      r.dim == dim, r.m == db.kheight(), r.elem_size == db.elem_size, r.plaintext_bits == db.plaintext_bits,
      is_hint(r.rhs@, db.entries@, r.public_seed@, dim as int, db.kheight()),
      fresh_seed(old(log).draws, final(log).draws, r.public_seed@),
      r.filter_params.seed@ == seed@, r.filter_params.segment_length == segment_length,
      r.filter_params.segment_length_mask == segment_length_mask, r.filter_params.segment_count_length == segment_count_length,
@end
@fn db::kv::KVParams::get_filter_params
@ret r
@spec
    ensures r == self.filter_params,
@end
}
impl BaseParams for KVParams {
  open spec fn pm(&self) -> int { self.m as int }
  open spec fn pdim(&self) -> int { self.dim as int }
  open spec fn pes(&self) -> int { self.elem_size as int }
  open spec fn ppb(&self) -> int { self.plaintext_bits as int }
  open spec fn pseed(&self) -> Seq<u8> { self.public_seed@ }
  open spec fn prhs(&self) -> Seq<Vec<u32>> { self.rhs@ }
@fn db::kv::KVParams as BaseParams::get_total_records
@end
@fn db::kv::KVParams as BaseParams::get_dim
@end
@fn db::kv::KVParams as BaseParams::get_elem_size
@end
@fn db::kv::KVParams as BaseParams::get_plaintext_bits
@end
@fn db::kv::KVParams as BaseParams::get_public_seed
@end
@fn db::kv::KVParams as BaseParams::get_rhs
@end
}
