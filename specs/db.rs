// column c of the hint is the product of the uniform matrix with column c of the database
pub open spec fn lwe_col(seed: Seq<u8>, dim: int, j: int, height: int) -> Seq<u32> {
  Seq::new(height as nat, |r: int| stream(seed, (r * dim + j) as nat))
}
pub open spec fn is_hint(rhs: Seq<Vec<u32>>, cols: Seq<Vec<u32>>, seed: Seq<u8>, dim: int, height: int) -> bool {
  rhs.len() == cols.len() && rect(rhs, dim)
  && forall|c: int, j: int| 0 <= c < rhs.len() && 0 <= j < dim ==>
      (#[trigger] rhs[c]@[j]) as int == dot(lwe_col(seed, dim, j, height), cols[c]@, height) % M32
}

pub trait DatabaseMatrix : Sized {
  spec fn dcols(&self) -> Seq<Vec<u32>>;
  spec fn dheight(&self) -> int;
  spec fn des(&self) -> int;
  spec fn dpb(&self) -> int;
  // the database is in column format
  spec fn dwf(&self) -> bool;
  proof fn dwf_facts(&self)
    requires self.dwf(),
    ensures
      1 <= self.dpb() < 32, 0 <= self.des() < 0x1_0000_0000_0000, self.dcols().len() == width_of(self.des(), self.dpb()),
      rect(self.dcols(), self.dheight()), 1 <= self.dheight() <= usize::MAX;

@fn db::DatabaseMatrix::vec_mult
@ret r
@spec
    requires self.dwf(), col_idx < self.dcols().len(), row@.len() == self.dheight(),
    ensures r as int == dot(row@, self.dcols()[col_idx as int]@, self.dheight()) % M32
@end
@fn db::DatabaseMatrix::get_row_width
@ret r
@spec
    requires 0 < plaintext_bits < 0x1_0000_0000, element_size < 0x1_0000_0000_0000,
    ensures r == width_of(element_size as int, plaintext_bits as int)
@end
@fn db::DatabaseMatrix::get_row_width_self
@ret r
@spec
    requires self.dwf(),
    ensures r == self.dcols().len()
@end
@fn db::DatabaseMatrix::get_matrix_height
@ret r
@spec
    requires self.dwf(),
    ensures r == self.dheight()
@end
@fn db::DatabaseMatrix::get_elem_size
@ret r
@spec
    ensures r == self.des()
@end
@fn db::DatabaseMatrix::get_plaintext_bits
@ret r
@spec
    ensures r == self.dpb()
@end
}

pub trait BaseParams : Sized {
  spec fn pm(&self) -> int;
  spec fn pdim(&self) -> int;
  spec fn pes(&self) -> int;
  spec fn ppb(&self) -> int;
  spec fn pseed(&self) -> Seq<u8>;
  spec fn prhs(&self) -> Seq<Vec<u32>>;

@fn db::BaseParams::generate_params_rhs
@ret r
@spec
    requires db.dwf(),
    ensures is_hint(r@, db.dcols(), public_seed@, dim as int, db.dheight()),
@start
    proof { db.dwf_facts(); }
@stmt lhs 0
    let ghost height = db.dheight();
@loop 0
    invariant
      __h0 == db.dcols().len(),
      db.dwf(), height == db.dheight(), height >= 1, rect(lhs@, height), lhs@.len() == dim, __v0@.len() == $i, $i <= db.dcols().len(),
      forall|j: int, r: int| 0 <= j < dim && 0 <= r < height ==> (#[trigger] lhs@[j]@[r]) == stream(public_seed@, (r * dim + j) as nat),
      rect(__v0@, dim as int),
      forall|c: int, j: int| 0 <= c < $i && 0 <= j < dim ==>
        (#[trigger] __v0@[c]@[j]) as int == dot(lwe_col(public_seed@, dim as int, j, height), db.dcols()[c]@, height) % M32,
@body 0
    let ghost v0 = __v0@;
@bodyend 0
    proof {
      assert forall|c: int, j: int| 0 <= c < $i + 1 && 0 <= j < dim implies
        (#[trigger] __v0@[c]@[j]) as int == dot(lwe_col(public_seed@, dim as int, j, height), db.dcols()[c]@, height) % M32 by {
        if c < $i { assert(__v0@[c]@[j] == v0[c]@[j]); }
      }
    }
@loop 1
    invariant
      db.dwf(), height == db.dheight(), height >= 1, rect(lhs@, height), lhs@.len() == dim, col@.len() == $i, $i <= dim, i < db.dcols().len(),
      forall|j: int, r: int| 0 <= j < dim && 0 <= r < height ==> (#[trigger] lhs@[j]@[r]) == stream(public_seed@, (r * dim + j) as nat),
      forall|j: int| 0 <= j < $i ==>
        (#[trigger] col@[j]) as int == dot(lwe_col(public_seed@, dim as int, j, height), db.dcols()[i as int]@, height) % M32,
@bodyend 1
    proof { assert(r@ =~= lwe_col(public_seed@, dim as int, $i as int, height)); }
@end

@fn db::BaseParams::write_to_file
@gparam Tracked(disk): Tracked<&mut Disk>
@ret r
@spec
    ensures
      only(old(disk).files, final(disk).files, path.bytes()),
      r is Ok ==> written(old(disk).files, final(disk).files, path.bytes(), self.j()),
@end

@fn db::BaseParams::mult_right
@ret r
@spec
    ensures
      match r {
        Ok(v) => v@.len() == self.prhs().len()
          && forall|c: int| 0 <= c < v@.len() ==> (#[trigger] v@[c]) as int == dot(s@, self.prhs()[c]@, s@.len() as int) % M32,
        Err(e) => !e.reuse && !rect(self.prhs(), s@.len() as int),
      },
@loop 0
    invariant
      cols@ == self.prhs(), __v0@.len() == $i, $i <= cols@.len(),
      forall|c: int| 0 <= c < $i ==> (#[trigger] __v0@[c]) as int == dot(s@, self.prhs()[c]@, s@.len() as int) % M32,
@end
@fn db::BaseParams::get_total_records
@ret r
@spec
    ensures r == self.pm()
@end
@fn db::BaseParams::get_dim
@ret r
@spec
    ensures r == self.pdim()
@end
@fn db::BaseParams::get_elem_size
@ret r
@spec
    ensures r == self.pes()
@end
@fn db::BaseParams::get_plaintext_bits
@ret r
@spec
    ensures r == self.ppb()
@end
@fn db::BaseParams::get_public_seed
@ret r
@spec
    ensures r@ == self.pseed()
@end
@fn db::BaseParams::get_rhs
@ret r
@spec
    ensures r@ == self.prhs()
@end
}

@struct db::CommonParams

// v is the secret times the matrix plus fresh ternary noise
pub open spec fn is_masked_left(v: Seq<u32>, a: Seq<Vec<u32>>, s: Seq<u32>, e: Seq<u32>) -> bool {
  v.len() == a.len() && e.len() == a.len() && (forall|r: int| 0 <= r < e.len() ==> is_tern(#[trigger] e[r]))
  && forall|r: int| 0 <= r < v.len() ==> (#[trigger] v[r]) as int == (dot(s, a[r]@, s.len() as int) + e[r]) % M32
}
pub open spec fn fresh_noise(draws: Seq<Draw>, from: int, e: Seq<u32>) -> bool { tern_vec(draws, from, e) }

impl CommonParams {
@fn db::CommonParams::as_matrix
@ret r
@spec
    ensures r@ == self.0@,
@end

@fn db::CommonParams::mult_left
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
    ensures
      extends(old(log).draws, final(log).draws),
      match r {
        Ok(v) => rect(self.0@, s@.len() as int)
          && exists|e: Seq<u32>| is_masked_left(v@, self.0@, s@, e) && #[trigger] fresh_noise(final(log).draws, old(log).draws.len() as int, e),
        Err(x) => !x.reuse && !rect(self.0@, s@.len() as int),
      },
@start
    let ghost from = log.draws.len() as int;
    let ghost mut ne: Seq<u32> = Seq::empty();
    let ghost mut cut: Seq<int> = seq![from];
@loop 0
    invariant
      cols@ == self.0@, from == old(log).draws.len(), extends(old(log).draws, log.draws),
      __v0@.len() == $i, $i <= cols@.len(), ne.len() == $i,
      forall|r: int| 0 <= r < $i ==> cols@[r]@.len() == s@.len(),
      forall|r: int| 0 <= r < $i ==> is_tern(#[trigger] ne[r]),
      forall|r: int| 0 <= r < $i ==> (#[trigger] __v0@[r]) as int == (dot(s@, self.0@[r]@, s@.len() as int) + ne[r]) % M32,
      tern_cuts(log.draws, from, cut, ne),
@body 0
    let ghost d0 = log.draws; let ghost c0 = cut; let ghost n0 = ne; let ghost v0 = __v0@;
@aftercall random_ternary 0
    proof {
      lemma_cuts_push(d0, log.draws, from, c0, n0, e);
      ne = n0.push(e); cut = c0.push(log.draws.len() as int);
      lemma_add_mod_noop(dot(s@, self.0@[$i0 as int]@, s@.len() as int), e as int, M32);
      lemma_mod_self_add(e);
    }
@tail
    proof { }
@after 0
    proof { assert(fresh_noise(log.draws, from, ne)); assert(is_masked_left(__v0@, self.0@, s@, ne)); }
@end

@fn db::CommonParams as From<&T>::from => from_params
@opt generics=<T:~BaseParams> vis=pub
@ret r
@spec
    ensures lwe_matrix(r.0@, params.pseed(), params.pdim(), params.pm()),
@end
}
