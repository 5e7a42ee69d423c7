pub open spec fn is_transpose(r: Seq<Vec<u32>>, m: Seq<Vec<u32>>) -> bool {
  m.len() > 0 && r.len() == m[0]@.len() && rect(r, m.len() as int) && rect(m, m[0]@.len() as int)
  && forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < m.len() ==> (#[trigger] r[i]@[j]) == m[j]@[i]
}

// switching twice restores the matrix
pub proof fn lemma_transpose_twice(m: Seq<Vec<u32>>, r: Seq<Vec<u32>>, b: Seq<Vec<u32>>)
  requires is_transpose(r, m), is_transpose(b, r),
  ensures b.len() == m.len(), forall|j: int| 0 <= j < m.len() ==> (#[trigger] b[j])@ == m[j]@,
{
  assert(r.len() > 0);
  assert(r[0]@.len() == m.len());
  assert forall|j: int| 0 <= j < m.len() implies (#[trigger] b[j])@ == m[j]@ by {
    assert(m[j]@.len() == r.len());
    assert forall|i: int| 0 <= i < r.len() implies b[j]@[i] == m[j]@[i] by {
      assert(r[i]@[j] == m[j]@[i]);
    }
    assert(b[j]@ =~= m[j]@);
  }
}

@fn utils::matrices::get_matrix_second_at
@ret r
@spec
  requires forall|i: int| 0 <= i < matrix@.len() ==> secidx < (#[trigger] matrix@[i])@.len(),
  ensures r@.len() == matrix@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == matrix@[i]@[secidx as int],
@loop 0
  invariant
    forall|i: int| 0 <= i < matrix@.len() ==> secidx < (#[trigger] matrix@[i])@.len(),
    __v0@.len() == $i, $i <= matrix@.len(),
    forall|i: int| 0 <= i < $i ==> (#[trigger] __v0@[i]) == matrix@[i]@[secidx as int],
@end

@fn utils::matrices::swap_matrix_fmt
@ret r
@spec
  requires matrix@.len() > 0, rect(matrix@, matrix@[0]@.len() as int),
  ensures is_transpose(r@, matrix@),
@loop 0
  invariant
    rect(matrix@, width as int), matrix@.len() == height, matrix@.len() > 0, width == matrix@[0]@.len(),
    swapped_row@.len() == width,
    forall|ii: int| 0 <= ii < width ==> (#[trigger] swapped_row@[ii])@.len() == $i,
    forall|ii: int, jj: int| 0 <= ii < width && 0 <= jj < $i ==> (#[trigger] swapped_row@[ii]@[jj]) == matrix@[jj]@[ii],
@loop 1
  invariant
    rect(matrix@, width as int), matrix@.len() == height, swapped_row@.len() == width,
    0 <= $i0 < height, current_row@ == matrix@[$i0 as int]@,
    forall|ii: int| 0 <= ii < $i ==> (#[trigger] swapped_row@[ii])@.len() == $i0 + 1,
    forall|ii: int| $i <= ii < width ==> (#[trigger] swapped_row@[ii])@.len() == $i0,
    forall|ii: int, jj: int| 0 <= ii < $i && 0 <= jj < $i0 + 1 ==> (#[trigger] swapped_row@[ii]@[jj]) == matrix@[jj]@[ii],
    forall|ii: int, jj: int| 0 <= ii < width && 0 <= jj < $i0 ==> (#[trigger] swapped_row@[ii]@[jj]) == matrix@[jj]@[ii],
@end

pub open spec fn lwe_matrix(r: Seq<Vec<u32>>, seed: Seq<u8>, dim: int, width: int) -> bool {
  r.len() == width && rect(r, dim)
  && forall|i: int, j: int| 0 <= i < width && 0 <= j < dim ==> (#[trigger] r[i]@[j]) == stream(seed, (i * dim + j) as nat)
}

@fn utils::matrices::generate_lwe_matrix_from_seed
@ret r
@spec
  ensures lwe_matrix(r@, seed@, lwe_dim as int, width as int),
@loop 0
  invariant
    lhs@.len() == $i, $i <= width, rng.seed() == seed@, rng.pos() == $i * lwe_dim, rect(lhs@, lwe_dim as int),
    forall|i: int, j: int| 0 <= i < $i && 0 <= j < lwe_dim ==> (#[trigger] lhs@[i]@[j]) == stream(seed@, (i * lwe_dim + j) as nat),
@bodyend 0
  proof { assert(($i + 1) * lwe_dim == $i * lwe_dim + lwe_dim) by (nonlinear_arith); }
@loop 1
  invariant
    v@.len() == $i, $i <= lwe_dim, rng.seed() == seed@, rng.pos() == $i0 * lwe_dim + $i,
    forall|j: int| 0 <= j < $i ==> (#[trigger] v@[j]) == stream(seed@, ($i0 * lwe_dim + j) as nat),
@end

@fn utils::matrices::get_seeded_rng
@ret r
@spec
  ensures r.seed() == s@, r.pos() == 0,
@end

@fn utils::matrices::vec_mult_u32_u32
@ret r
@spec
  ensures
    match r {
      Ok(v) => row@.len() == col@.len() && v as int == dot(row@, col@, row@.len() as int) % M32,
      Err(e) => !e.reuse && row@.len() != col@.len(),
    },
@loop 0
  invariant
    row@.len() == col@.len(), $i <= row@.len(), $h == row@.len(),
    acc as int == dot(row@, col@, $i as int) % M32,
@body 0
  proof { lemma_dot_step(acc, row@, col@, $i as int); }
@end

@const utils::matrices::TERNARY_INTERVAL_SIZE
@const utils::matrices::TERNARY_REJECTION_SAMPLING_MAX

// ---- ternary sampling ----------------------------------------------------------------------
pub spec const TI: int = 1431655764;
// the value a generator output is mapped to (outputs above 3*TI are rejected)
pub open spec fn tern_map(w: u32) -> u32 {
  if w <= TI { 0 } else if w <= 2 * TI { 1 } else { 0xffff_ffff }
}
pub open spec fn is_tern(t: u32) -> bool { t == 0 || t == 1 || t == 0xffff_ffffu32 }

// the three values get TI + 1, TI and TI generator outputs: intervals of the accepted range
pub proof fn lemma_tern_balanced()
  ensures
    forall|w: u32| w <= 3 * TI ==> (tern_map(w) == 0 <==> 0 <= w < TI + 1),
    forall|w: u32| w <= 3 * TI ==> (tern_map(w) == 1 <==> TI + 1 <= w < (TI + 1) + TI),
    forall|w: u32| w <= 3 * TI ==> (tern_map(w) == 0xffff_ffffu32 <==> (TI + 1) + TI <= w < (TI + 1) + TI + TI),
    (TI + 1) + TI + TI == 3 * TI + 1, 3 * TI <= u32::MAX,
{}

// draws[from..to] are rejected outputs followed by one accepted output that maps to t
pub open spec fn tern_step(draws: Seq<Draw>, from: int, to: int, t: u32) -> bool {
  0 <= from < to <= draws.len()
  && (forall|k: int| from <= k < to - 1 ==> (match #[trigger] draws[k] { Draw::Word(w) => w > 3 * TI, _ => false }))
  && (match draws[to - 1] { Draw::Word(w) => w <= 3 * TI && t == tern_map(w), _ => false })
}
pub open spec fn extends(a: Seq<Draw>, b: Seq<Draw>) -> bool {
  a.len() <= b.len() && forall|k: int| 0 <= k < a.len() ==> (#[trigger] b[k]) == a[k]
}
// every coordinate of v comes from its own draws: cut[i]..cut[i+1]
pub open spec fn tern_cuts(draws: Seq<Draw>, from: int, cut: Seq<int>, v: Seq<u32>) -> bool {
  cut.len() == v.len() + 1 && cut[0] == from && cut.last() == draws.len()
  && forall|i: int| 0 <= i < v.len() ==> tern_step(draws, cut[i], #[trigger] cut[i + 1], v[i])
}
pub open spec fn tern_vec(draws: Seq<Draw>, from: int, v: Seq<u32>) -> bool {
  exists|cut: Seq<int>| tern_cuts(draws, from, cut, v)
}

pub proof fn lemma_cuts_push(d0: Seq<Draw>, d1: Seq<Draw>, from: int, cut: Seq<int>, v: Seq<u32>, t: u32)
  requires tern_cuts(d0, from, cut, v), extends(d0, d1), tern_step(d1, d0.len() as int, d1.len() as int, t),
  ensures tern_cuts(d1, from, cut.push(d1.len() as int), v.push(t)),
{
  let c1 = cut.push(d1.len() as int); let v1 = v.push(t);
  assert forall|i: int| 0 <= i < v1.len() implies tern_step(d1, c1[i], #[trigger] c1[i + 1], v1[i]) by {
    if i < v.len() {
      assert(tern_step(d0, cut[i], cut[i + 1], v[i]));
      assert(c1[i] == cut[i] && c1[i + 1] == cut[i + 1]);
      let to = cut[i + 1];
      assert(d1[to - 1] == d0[to - 1]);
      assert forall|k: int| c1[i] <= k < to - 1 implies (match #[trigger] d1[k] { Draw::Word(w) => w > 3 * TI, _ => false }) by {
        assert(d1[k] == d0[k]);
        assert(match d0[k] { Draw::Word(w) => w > 3 * TI, _ => false });
      }
    } else {
      assert(c1[i] == d0.len());
    }
  }
}

@fn utils::matrices::random_ternary
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@attr #[verifier::exec_allows_no_decreases_clause]
@spec
  ensures
    is_tern(r),
    extends(old(log).draws, final(log).draws),
    tern_step(final(log).draws, old(log).draws.len() as int, final(log).draws.len() as int, r),
@loop 0
  invariant
    old(log).draws.len() < log.draws.len(), extends(old(log).draws, log.draws),
    log.draws.last() == Draw::Word(val),
    forall|k: int| old(log).draws.len() <= k < log.draws.len() - 1 ==> (match #[trigger] log.draws[k] { Draw::Word(w) => w > 3 * TI, _ => false }),
@body 0
  let ghost n0 = log.draws.len();
@bodyend 0
  // a rejected word is replaced by a new draw
  proof { assert(log.draws.len() > n0); }
@end

@fn utils::matrices::random_ternary_vector
@gparam Tracked(log): Tracked<&mut DrawLog>
@ret r
@spec
  ensures
    r@.len() == width, forall|i: int| 0 <= i < width ==> is_tern(#[trigger] r@[i]),
    extends(old(log).draws, final(log).draws),
    tern_vec(final(log).draws, old(log).draws.len() as int, r@),
@start
  let ghost mut cut: Seq<int> = seq![log.draws.len() as int];
  let ghost from = log.draws.len() as int;
@loop 0
  invariant
    row@.len() == $i, from == old(log).draws.len(), extends(old(log).draws, log.draws), forall|i: int| 0 <= i < $i ==> is_tern(#[trigger] row@[i]),
    tern_cuts(log.draws, from, cut, row@),
@body 0
  let ghost d0 = log.draws; let ghost r0 = row@; let ghost c0 = cut;
@bodyend 0
  proof {
    lemma_cuts_push(d0, log.draws, from, c0, r0, row@.last());
    assert(row@ =~= r0.push(row@.last()));
    cut = c0.push(log.draws.len() as int);
  }
@end
