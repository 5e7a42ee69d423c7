@struct db::index::IndexDatabase
impl Clone for IndexDatabase {
@fn db::index::IndexDatabase as Clone::clone
@ret r
@spec
  ensures r.m == self.m, r.elem_size == self.elem_size, r.plaintext_bits == self.plaintext_bits,
    r.entries@.len() == self.entries@.len(), forall|i: int| 0 <= i < self.entries@.len() ==> (#[trigger] r.entries@[i])@ == self.entries@[i]@
@end
}

// element r of the setup list, decoded
pub open spec fn elem_ok(s: VString, es: int) -> bool {
  b64_dec(s.bytes()) is Some && b64_dec(s.bytes())->Some_0.len() == bytes_of(es)
}
pub open spec fn elem_bytes(s: VString) -> Seq<u8> { b64_dec(s.bytes())->Some_0 }
pub open spec fn setup_ok(elements: Seq<VString>, m: int, es: int) -> bool {
  1 <= m <= elements.len() && forall|r: int| 0 <= r < m ==> elem_ok(#[trigger] elements[r], es)
}
pub open spec fn db_row(cols: Seq<Vec<u32>>, r: int) -> Seq<u32> { Seq::new(cols.len(), |c: int| cols[c]@[r]) }
pub open spec fn holds(db: IndexDatabase, elements: Seq<VString>) -> bool {
  forall|r: int| 0 <= r < db.m ==> is_row(#[trigger] db_row(db.entries@, r), elem_bytes(elements[r]), db.elem_size as int, db.plaintext_bits as int)
}

impl IndexDatabase {
@fn db::index::IndexDatabase::new
@ret r
@spec
    requires 1 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000,
    ensures
      match r {
        Ok(db) => setup_ok(elements@, m as int, elem_size as int) && db.dwf() && db.m == m && db.elem_size == elem_size
          && db.plaintext_bits == plaintext_bits && holds(db, elements@),
        Err(e) => !e.reuse && !setup_ok(elements@, m as int, elem_size as int),
      },
@start
    proof { lemma_rows_cols(); }
@end

@fn db::index::IndexDatabase::from_file
@gparam Tracked(disk): Tracked<&mut Disk>
@ret r
@spec
    requires 1 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000,
    ensures
      final(disk).files == old(disk).files,
      match r {
        Ok(db) => old(disk).files.contains_key(db_file.bytes()) && exists|elements: Vec<VString>| #[trigger] reads_text(old(disk).files[db_file.bytes()], elements)
          && setup_ok(elements@, m as int, elem_size as int) && db.dwf() && db.m == m && db.elem_size == elem_size
          && db.plaintext_bits == plaintext_bits && holds(db, elements@),
        Err(e) => !e.reuse && (!old(disk).files.contains_key(db_file.bytes()) || unreadable::<Vec<VString>>(old(disk).files[db_file.bytes()])
          || exists|elements: Vec<VString>| #[trigger] reads_text(old(disk).files[db_file.bytes()], elements) && !setup_ok(elements@, m as int, elem_size as int)),
      },
@end
@fn db::index::IndexDatabase as DatabaseMatrix::write_to_file
@gparam Tracked(disk): Tracked<&mut Disk>
@opt vis=pub
@ret r
@spec
    ensures
      only(old(disk).files, final(disk).files, path.bytes()),
      r is Ok ==> written(old(disk).files, final(disk).files, path.bytes(), self.entries.j()),
@end
}

// the rows of a transposed matrix
pub proof fn lemma_rows_cols()
  ensures forall|e: Seq<Vec<u32>>, rows: Seq<Vec<u32>>| #[trigger] is_transpose(e, rows) ==>
    forall|i: int| 0 <= i < rows.len() ==> (#[trigger] db_row(e, i)) == rows[i]@,
{
  assert forall|e: Seq<Vec<u32>>, rows: Seq<Vec<u32>>, i: int| #[trigger] is_transpose(e, rows) && 0 <= i < rows.len() implies (#[trigger] db_row(e, i)) == rows[i]@ by {
    assert(rows[i]@.len() == e.len());
    assert forall|c: int| 0 <= c < e.len() implies db_row(e, i)[c] == rows[i]@[c] by { assert(e[c]@[i] == rows[i]@[c]); }
    assert(db_row(e, i) =~= rows[i]@);
  }
}

impl DatabaseMatrix for IndexDatabase {
  open spec fn dcols(&self) -> Seq<Vec<u32>> { self.entries@ }
  open spec fn dheight(&self) -> int { self.m as int }
  open spec fn des(&self) -> int { self.elem_size as int }
  open spec fn dpb(&self) -> int { self.plaintext_bits as int }
  open spec fn dwf(&self) -> bool {
    1 <= self.plaintext_bits < 32 && self.elem_size < 0x1_0000_0000_0000
    && self.entries@.len() == width_of(self.elem_size as int, self.plaintext_bits as int)
    && rect(self.entries@, self.m as int) && self.m >= 1
  }
  proof fn dwf_facts(&self) {}

@fn db::index::IndexDatabase as DatabaseMatrix::vec_mult
@end
@fn db::index::IndexDatabase as DatabaseMatrix::get_row_width
@start
    proof { lemma_row_width(element_size as int, plaintext_bits as int); }
@end
@fn db::index::IndexDatabase as DatabaseMatrix::get_row_width_self
@end
@fn db::index::IndexDatabase as DatabaseMatrix::get_matrix_height
@end
@fn db::index::IndexDatabase as DatabaseMatrix::get_elem_size
@end
@fn db::index::IndexDatabase as DatabaseMatrix::get_plaintext_bits
@end
}

impl IndexDatabase {
@fn db::index::IndexDatabase as DatabaseMatrix::switch_fmt
@opt vis=pub
@spec
    requires old(self).entries@.len() > 0, rect(old(self).entries@, old(self).entries@[0]@.len() as int),
    ensures
      is_transpose(final(self).entries@, old(self).entries@),
      final(self).m == old(self).m, final(self).elem_size == old(self).elem_size, final(self).plaintext_bits == old(self).plaintext_bits,
@end
@fn db::index::IndexDatabase as DatabaseMatrix::get_row
@opt vis=pub
@ret r
@spec
    requires i < self.entries@.len(),
    ensures r@ == self.entries@[i as int]@,
@end
@fn db::index::IndexDatabase as DatabaseMatrix::get_db_entry
@opt vis=pub
@ret r
@spec
    requires self.dwf(), i < self.m,
    ensures
      is_text(r.bytes(), db_row(self.entries@, i as int), self.elem_size as int, self.plaintext_bits as int),
@start
    proof {
      assert forall|v: Seq<u32>| v.len() == self.entries@.len() && (forall|c: int| 0 <= c < v.len() ==> v[c] == self.entries@[c]@[i as int])
        implies #[trigger] v.len() == self.entries@.len() && v == db_row(self.entries@, i as int) by { assert(v =~= db_row(self.entries@, i as int)); }
    }
@end
}

@fn db::index::construct_row
@ret r
@spec
  requires 1 <= plaintext_bits < 32, elem_size < 0x1_0000_0000_0000,
  ensures
    match r {
      Ok(row) => elem_ok(*element, elem_size as int) && is_row(row@, elem_bytes(*element), elem_size as int, plaintext_bits as int),
      Err(e) => !e.reuse && !elem_ok(*element, elem_size as int),
    },
@start
  proof { lemma_width(elem_size as int, plaintext_bits as int); }
@loop 0
  invariant
    1 <= plaintext_bits < 32, elem_size < 0x1_0000_0000_0000, row_width == width_of(elem_size as int, plaintext_bits as int),
    elem_ok(*element, elem_size as int), bytes@ == elem_bytes(*element), bits@.len() == 8 * bytes@.len(), row@.len() == $i,
    forall|k: int| 0 <= k < 8 * bytes@.len() ==> (#[trigger] bits@[k]) == bit8(bytes@[k / 8], k % 8),
    forall|i_: int, k: int| 0 <= i_ < $i && 0 <= k < 32 ==>
      #[trigger] bit32(row@[i_], k) == (k < plaintext_bits && i_ * plaintext_bits + k < 8 * bytes@.len()
        && bit8(bytes@[(i_ * plaintext_bits + k) / 8], (i_ * plaintext_bits + k) % 8)),
@body 0
  let ghost r0 = row@;
  proof {
    let es = elem_size as int; let pb = plaintext_bits as int;
    lemma_width(es, pb);
    assert(($i + 1) * pb == $i * pb + pb) by (nonlinear_arith);
    assert(($i + 1) * pb <= row_width * pb) by (nonlinear_arith) requires $i + 1 <= row_width, pb >= 1;
    assert(row_width * pb < es + pb);
    assert($i * pb < es) by (nonlinear_arith) requires ($i + 1) * pb <= row_width * pb, row_width * pb < es + pb;
    assert(0 <= $i * pb) by (nonlinear_arith) requires pb >= 1;
  }
@bodyend 0
  proof {
    assert forall|i_: int, k: int| 0 <= i_ < $i + 1 && 0 <= k < 32 implies
      #[trigger] bit32(row@[i_], k) == (k < plaintext_bits && i_ * plaintext_bits + k < 8 * bytes@.len()
        && bit8(bytes@[(i_ * plaintext_bits + k) / 8], (i_ * plaintext_bits + k) % 8)) by {
      if i_ < $i { assert(row@[i_] == r0[i_]); } else {
        let t = $i * plaintext_bits + k;
        if k < plaintext_bits && t < 8 * bytes@.len() { assert(bits@[t] == bit8(bytes@[t / 8], t % 8)); }
      }
    }
  }
@end

@fn db::index::construct_rows
@ret r
@spec
  requires 1 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000,
  ensures
    match r {
      Ok(rows) => setup_ok(elements@, m as int, elem_size as int) && rows@.len() == m
        && rect(rows@, width_of(elem_size as int, plaintext_bits as int))
        && forall|i: int| 0 <= i < m ==> is_row(#[trigger] rows@[i]@, elem_bytes(elements@[i]), elem_size as int, plaintext_bits as int),
      Err(e) => !e.reuse && !setup_ok(elements@, m as int, elem_size as int),
    },
@loop 0
  invariant
    1 <= plaintext_bits < 32, 1 <= elem_size < 0x1_0000_0000_0000, 1 <= m <= elements@.len(),
    __v0@.len() == $i,
    forall|i_: int| 0 <= i_ < $i ==> elem_ok(#[trigger] elements@[i_], elem_size as int),
    forall|i_: int| 0 <= i_ < $i ==> is_row(#[trigger] __v0@[i_]@, elem_bytes(elements@[i_]), elem_size as int, plaintext_bits as int),
@end

@struct db::index::IndexParams
@codec db::index::IndexParams

pub open spec fn fresh_seed(d0: Seq<Draw>, d1: Seq<Draw>, seed: Seq<u8>) -> bool { d1 == d0.push(Draw::Bytes(seed)) }

impl IndexParams {
@fn db::index::IndexParams::new
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    requires db.dwf(),
    ensures
      r.dim == dim, r.m == db.m, r.elem_size == db.elem_size, r.plaintext_bits == db.plaintext_bits,
      is_hint(r.rhs@, db.entries@, r.public_seed@, dim as int, db.m as int),
      fresh_seed(old(log).draws, final(log).draws, r.public_seed@),
@end
@fn db::index::IndexParams::load
@gparam Tracked(disk): Tracked<&mut Disk>
@ret r
@spec
    ensures
      final(disk).files == old(disk).files,
      match r {
        Ok(p) => old(disk).files.contains_key(params_path.bytes()) && reads_text(old(disk).files[params_path.bytes()], p),
        Err(e) => !e.reuse && (!old(disk).files.contains_key(params_path.bytes()) || unreadable::<IndexParams>(old(disk).files[params_path.bytes()])),
      },
@end
}
impl BaseParams for IndexParams {
  open spec fn pm(&self) -> int { self.m as int }
  open spec fn pdim(&self) -> int { self.dim as int }
  open spec fn pes(&self) -> int { self.elem_size as int }
  open spec fn ppb(&self) -> int { self.plaintext_bits as int }
  open spec fn pseed(&self) -> Seq<u8> { self.public_seed@ }
  open spec fn prhs(&self) -> Seq<Vec<u32>> { self.rhs@ }
@fn db::index::IndexParams as BaseParams::get_total_records
@end
@fn db::index::IndexParams as BaseParams::get_dim
@end
@fn db::index::IndexParams as BaseParams::get_elem_size
@end
@fn db::index::IndexParams as BaseParams::get_plaintext_bits
@end
@fn db::index::IndexParams as BaseParams::get_public_seed
@end
@fn db::index::IndexParams as BaseParams::get_rhs
@end
}
