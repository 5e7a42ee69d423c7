pub open spec fn w64(x: int) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }
pub closed spec fn s_mix(key: u64, seed: u64) -> u64 { s_mix64(w64(key + seed)) }
@fn prelude::mix
@ret r
@spec
  ensures r == s_mix(key, seed),
@end

pub open spec fn seed_word(seed: Seq<u8>, i: int) -> u64 { le64(seed.subrange(8 * i, 8 * (i + 1))) }
pub closed spec fn s_mix_word(k: u64, seed: Seq<u8>, n: int) -> u64
  decreases n,
{ if n <= 0 { 0 } else { s_mix64(w64(s_mix_word(k, seed, n - 1) + s_mix(k, seed_word(seed, n - 1)))) } }
pub closed spec fn s_mix256_n(key: Seq<u64>, seed: Seq<u8>, n: int) -> u64
  decreases n,
{ if n <= 0 { 0 } else { w64(s_mix256_n(key, seed, n - 1) + s_mix_word(key[n - 1], seed, 4)) } }
pub closed spec fn s_mix256(key: Seq<u64>, seed: Seq<u8>) -> u64 { s_mix256_n(key, seed, 4) }

@fn prelude::mix256
@ret r
@spec
  requires seed@.len() == 32,
  ensures r == s_mix256(key@, seed@),
@loop 0
  invariant
    seed@.len() == 32, seeds@.len() == 4,
    forall|j: int| 0 <= j < $i ==> (#[trigger] seeds@[j]) == seed_word(seed@, j),
@loop 1
  invariant
    seeds@.len() == 4, forall|j: int| 0 <= j < 4 ==> (#[trigger] seeds@[j]) == seed_word(seed@, j),
    acc == s_mix256_n(key@, seed@, $i as int),
@loop 2
  invariant
    seeds@.len() == 4, forall|j: int| 0 <= j < 4 ==> (#[trigger] seeds@[j]) == seed_word(seed@, j),
    mixed == s_mix_word(*k, seed@, $i as int),
@end

// ---- binary fuse geometry --------------------------------------------------------------------
// segment length and capacity come from floating-point logarithms; they are functions of the
// number of keys, and the range facts are decided by evaluating the real code for every size
pub uninterp spec fn s_seg_exp(n: int) -> nat;
pub open spec fn s_seglen(n: int) -> int { pow2(s_seg_exp(n)) as int }
pub uninterp spec fn s_rawcap(n: int) -> int;
pub open spec fn s_cap(n: int) -> int { if n > 1 { s_rawcap(n) } else { 0 } }
pub open spec fn s_segcount(n: int) -> int {
  let c = (s_cap(n) + s_seglen(n) - 1) / s_seglen(n);
  if c < 3 { 1 } else { c - 2 }
}
pub open spec fn s_scl(n: int) -> int { s_segcount(n) * s_seglen(n) }

pub open spec fn geo_ok(sl: u32, slm: u32, scl: u32, len: int) -> bool {
  (exists|e: u32| e < 32 && sl == #[trigger] (1u32 << e)) && slm == sl - 1 && scl % sl == 0 && scl >= sl
  && len == scl + 2 * sl && len <= 0xffff_ffff
}
pub open spec fn s_h0(hash: u64, scl: u32) -> int { (hash * scl) / 0x1_0000_0000_0000_0000 }
pub open spec fn s_h1(hash: u64, sl: u32, slm: u32, scl: u32) -> u32 {
  ((s_h0(hash, scl) + sl) as u32) ^ (((hash >> 18) as u32) & slm)
}
pub open spec fn s_h2(hash: u64, sl: u32, slm: u32, scl: u32) -> u32 {
  ((s_h0(hash, scl) + 2 * sl) as u32) ^ ((hash as u32) & slm)
}
pub proof fn lemma_h0(hash: u64, scl: u32)
  requires scl >= 1,
  ensures 0 <= s_h0(hash, scl) < scl,
{
  assert(0 <= hash * scl) by (nonlinear_arith);
  assert(hash * scl < 0x1_0000_0000_0000_0000 * scl) by (nonlinear_arith) requires hash < 0x1_0000_0000_0000_0000, scl >= 1;
  lemma_multiply_divide_lt(hash * scl, 0x1_0000_0000_0000_0000, scl as int);
  lemma_div_pos_is_pos(hash * scl, 0x1_0000_0000_0000_0000);
}
pub proof fn lemma_xor_low(a: u32, x: u32, e: u32)
  requires e < 32,
  ensures (a ^ (x & (sub(1u32 << e, 1)))) / (1u32 << e) == a / (1u32 << e), (1u32 << e) >= 1,
{
  assert((a ^ (x & (sub(1u32 << e, 1)))) >> e == a >> e) by (bit_vector) requires e < 32;
  assert((1u32 << e) >= 1) by (bit_vector) requires e < 32;
  vstd::bits::lemma_u32_shr_is_div(a, e);
  vstd::bits::lemma_u32_shr_is_div(a ^ (x & (sub(1u32 << e, 1))), e);
  vstd::bits::lemma_u32_pow2_no_overflow(e as nat);
  vstd::bits::lemma_u32_shl_is_mul(1, e);
}
// the three positions of a hash lie in three consecutive segments
pub proof fn lemma_positions(hash: u64, sl: u32, slm: u32, scl: u32, len: int)
  requires geo_ok(sl, slm, scl, len),
  ensures
    0 <= s_h0(hash, scl) < scl, sl >= 1,
    s_h1(hash, sl, slm, scl) as int / sl as int == s_h0(hash, scl) / sl as int + 1,
    s_h2(hash, sl, slm, scl) as int / sl as int == s_h0(hash, scl) / sl as int + 2,
    s_h1(hash, sl, slm, scl) < len, s_h2(hash, sl, slm, scl) < len, s_h0(hash, scl) < len,
    s_h0(hash, scl) != s_h1(hash, sl, slm, scl), s_h0(hash, scl) != s_h2(hash, sl, slm, scl), s_h1(hash, sl, slm, scl) != s_h2(hash, sl, slm, scl),
{
  lemma_h0(hash, scl);
  let e = choose|e: u32| e < 32 && sl == #[trigger] (1u32 << e);
  let h0 = s_h0(hash, scl);
  lemma_xor_low((h0 + sl) as u32, (hash >> 18) as u32, e);
  lemma_xor_low((h0 + 2 * sl) as u32, hash as u32, e);
  let s = sl as int;
  lemma_div_plus_one(h0, s);
  lemma_div_plus_one(h0 + s, s);
  lemma_fundamental_div_mod(scl as int, s);
  let k = scl as int / s;
  assert(scl == k * s) by (nonlinear_arith) requires scl == s * k + scl as int % s, scl as int % s == 0;
  assert(h0 / s < k) by (nonlinear_arith) requires h0 < k * s, s >= 1, h0 >= 0;
  assert forall|x: int| x >= 0 && #[trigger] (x / s) < k + 2 implies x < len by {
    lemma_fundamental_div_mod(x, s); lemma_mod_bound(x, s);
    assert(x < len) by (nonlinear_arith) requires x == s * (x / s) + x % s, x % s < s, x / s <= k + 1, len == k * s + 2 * s, s >= 1;
  }
}
pub proof fn lemma_div_plus_one(x: int, d: int)
  requires x >= 0, d >= 1,
  ensures (x + d) / d == x / d + 1,
{
  lemma_fundamental_div_mod(x, d); lemma_mod_bound(x, d);
  assert(x + d == d * (x / d + 1) + x % d) by (nonlinear_arith) requires x == d * (x / d) + x % d;
  lemma_fundamental_div_mod_converse(x + d, d, x / d + 1, x % d);
}

pub open spec fn bgeo(sl: u32, slm: u32, scl: u32) -> Geo {
  |h: u64, b: int| if b == 0 { s_h0(h, scl) } else if b == 1 { s_h1(h, sl, slm, scl) as int } else { s_h2(h, sl, slm, scl) as int }
}
pub proof fn lemma_bgeo(sl: u32, slm: u32, scl: u32, len: int)
  requires geo_ok(sl, slm, scl, len),
  ensures in_geo(bgeo(sl, slm, scl), len),
{
  let g = bgeo(sl, slm, scl);
  assert forall|h: u64, b: int| 0 <= b < 3 implies 0 <= #[trigger] g(h, b) < len by { lemma_positions(h, sl, slm, scl, len); }
  assert forall|h: u64, b: int, c: int| 0 <= b < 3 && 0 <= c < 3 && b != c implies #[trigger] g(h, b) != #[trigger] g(h, c) by { lemma_positions(h, sl, slm, scl, len); }
}
// the table sizes computed from the segment length and the capacity
pub proof fn lemma_geo_build(n: int, sl: u32, cap: u32)
  requires 0 <= n < 0x100_0000, sl == s_seglen(n), 2 <= s_seg_exp(n) <= 18, cap == s_cap(n), cap <= 8 * n + 8,
  ensures
    4 <= sl <= 0x4_0000, cap + sl - 1 <= 0xffff_ffff,
    ({ let c = (cap + sl - 1) / (sl as int); let sc = s_segcount(n);
       c * sl + sl <= 0xffff_ffff && (c * sl + sl - 1) / (sl as int) == c && 0 <= c <= 0x800_0000 && 1 <= sc <= 0x400_0000
       && (sc + 2) * sl <= 0xffff_ffff && (sc + 3 - 1) * sl == s_scl(n) + 2 * sl && s_scl(n) <= 0xffff_ffff && sc * sl == s_scl(n)
       && geo_ok(sl, (sl - 1) as u32, s_scl(n) as u32, (sc + 2) * sl) }),
{
  let e = s_seg_exp(n);
  lemma_pow2_unfold(2); lemma_pow2_unfold(1); lemma2_to64();
  if e > 2 { lemma_pow2_strictly_increases(2, e); }
  if e < 18 { lemma_pow2_strictly_increases(e, 18); }
  let s = sl as int; let x = cap + s - 1; let c = x / s; let sc = s_segcount(n);
  lemma_fundamental_div_mod(x, s); lemma_mod_bound(x, s);
  assert(c * s <= x) by (nonlinear_arith) requires x == s * c + x % s, x % s >= 0;
  lemma_div_pos_is_pos(x, s);
  assert(4 * c <= c * s) by (nonlinear_arith) requires c >= 0, s >= 4;
  lemma_fundamental_div_mod_converse(c * s + (s - 1), s, c, s - 1);
  assert((sc + 2) * s == sc * s + 2 * s) by (nonlinear_arith);
  assert(sc >= 1);
  assert(sc * s <= x + s) by (nonlinear_arith) requires sc == 1 || sc == c - 2, c * s <= x, c >= 0, s >= 1, x >= s - 1;
  assert(sc * s >= s) by (nonlinear_arith) requires sc >= 1, s >= 1;
  vstd::bits::lemma_u32_pow2_no_overflow(e);
  vstd::bits::lemma_u32_shl_is_mul(1, e as u32);
  assert((1u32 << (e as u32)) == sl);
  lemma_mod_multiples_basic(sc, s);
}

@fn prelude::bfuse::hash_of_hash
@ret r
@spec
  requires segment_count_length >= 1, segment_count_length + 2 * segment_length <= 0xffff_ffff,
  ensures
    r.0 == s_h0(hash, segment_count_length), r.1 == s_h1(hash, segment_length, segment_length_mask, segment_count_length),
    r.2 == s_h2(hash, segment_length, segment_length_mask, segment_count_length),
@start
  proof {
    lemma_h0(hash, segment_count_length);
    assert(hash * segment_count_length <= 0xffff_ffff_ffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires hash <= 0xffff_ffff_ffff_ffff, segment_count_length <= 0xffff_ffff;
    assert(0 <= hash * segment_count_length) by (nonlinear_arith);
    let p = (hash * segment_count_length) as u128;
    assert(p >> 64u128 == p / 0x1_0000_0000_0000_0000u128) by (bit_vector);
  }
@end
pub proof fn lemma_geo_pow(n: int)
  requires 2 <= s_seg_exp(n) <= 18,
  ensures 4 <= s_seglen(n) <= 0x4_0000,
{
  let e = s_seg_exp(n);
  lemma2_to64();
  if e > 2 { lemma_pow2_strictly_increases(2, e); }
  if e < 18 { lemma_pow2_strictly_increases(e, 18); }
}
// number of buckets and their starting points
pub proof fn lemma_sp_len(bb: i32)
  requires 1 <= bb <= 27,
  ensures pow2(bb as nat) == (1u64 << (bb as u64)), pow2(bb as nat) <= 0x800_0000, pow2(bb as nat) >= 2,
    (1usize << bb) == pow2(bb as nat), (1usize << bb) == (1u64 << bb),
{
  lemma2_to64();
  if bb > 1 { lemma_pow2_strictly_increases(1, bb as nat); }
  if bb < 27 { lemma_pow2_strictly_increases(bb as nat, 27); }
  vstd::bits::lemma_u64_pow2_no_overflow(bb as nat);
  vstd::bits::lemma_u64_shl_is_mul(1, bb as u64);
  vstd::bits::lemma_usize_pow2_no_overflow(bb as nat);
  vstd::bits::lemma_usize_shl_is_mul(1, bb as usize);
}
pub proof fn lemma_spread(i: u64, size: u64, bb: i32)
  requires 1 <= bb <= 27, size < 0x100_0000, i < pow2(bb as nat),
  ensures i * size <= 0xffff_ffff_ffff_ffff, ((i * size) as u64 >> bb) <= size, i == 0 ==> ((i * size) as u64 >> bb) == 0,
{
  lemma_sp_len(bb);
  let p = pow2(bb as nat) as int;
  assert(0 <= i * size <= p * size) by (nonlinear_arith) requires 0 <= i < p, size >= 0;
  assert(p * size <= 0x800_0000 * 0x100_0000) by (nonlinear_arith) requires 0 <= p <= 0x800_0000, 0 <= size <= 0x100_0000;
  vstd::bits::lemma_u64_shr_is_div((i * size) as u64, bb as u64);
  lemma_div_is_ordered(i * size, p * size, p);
  lemma_div_multiples_vanish(size as int, p);
  if i == 0 { assert(0 * size == 0); assert(0u64 >> (bb as u64) == 0) by (bit_vector); }
}
pub open spec fn mhashes(keys: Seq<u64>, seed: u64) -> Seq<u64> { Seq::new(keys.len(), |i: int| s_mix(keys[i], seed)) }
@fn prelude::bfuse::mod3
@ret r
@spec
  requires x < 6,
  ensures r == x % 3,
@end
@fn prelude::bfuse::segment_length
@opt external
@ret r
@spec
  requires arity == 3, size < 0x100_0000,
  ensures r == s_seglen(size as int), 2 <= s_seg_exp(size as int) <= 18,
@end
@fn prelude::bfuse::size_factor
@opt external
@ret r
@spec
  requires arity == 3, size < 0x100_0000,
  ensures is_size_factor(r, size as int),
@end
pub uninterp spec fn is_size_factor(f: f64, n: int) -> bool;
#[verifier::external_body]
pub fn round_capacity(size: usize, size_factor: f64) -> (r: u32)
  requires is_size_factor(size_factor, size as int), size < 0x100_0000,
  ensures size > 1 ==> r == s_rawcap(size as int) && r <= 8 * size,
{ unimplemented!() }

// ---- hash sets, construction tables ------------------------------------------------------------
@struct prelude::HashSet
@struct prelude::HSet
@struct prelude::KeyIndex
impl core::clone::Clone for KeyIndex {
@fn prelude::KeyIndex as ::core::clone::Clone::clone
@sub let _: ::core::clone::AssertParamIsClone<\w+>; ==> 
@ret r
@spec
  ensures r == *self
@end
}
impl KeyIndex {
@fn prelude::KeyIndex as ::core::default::Default::default => default
@sub ::core::default::Default::default\(\) ==> 0
@ret r
@opt vis=pub
@spec
  ensures r.hash == 0, r.index == 0,
@end
}
impl core::marker::Copy for KeyIndex { }
impl VDefault for KeyIndex { open spec fn dflt() -> KeyIndex { KeyIndex { hash: 0, index: 0 } } fn mk() -> (r: KeyIndex) { KeyIndex { hash: 0, index: 0 } } }
impl VDefault for HSet { open spec fn dflt() -> HSet { HSet { count: 0, mask: 0 } } fn mk() -> (r: HSet) { HSet { count: 0, mask: 0 } } }
impl HSet {
@fn prelude::HSet as ::core::default::Default::default => default
@sub ::core::default::Default::default\(\) ==> 0
@ret r
@opt vis=pub
@spec
  ensures r.count == 0, r.mask == 0,
@end
}
impl core::clone::Clone for HSet {
@fn prelude::HSet as ::core::clone::Clone::clone
@sub ::core::clone::Clone::clone\(&self\.(\w+)\) ==> self.\1
@ret r
@spec
  ensures r == *self
@end
}
pub open spec fn counts(h: Seq<HSet>) -> Seq<u32> { Seq::new(h.len(), |z: int| h[z].count) }
pub open spec fn masks(h: Seq<HSet>) -> Seq<u64> { Seq::new(h.len(), |z: int| h[z].mask) }
pub open spec fn kidx(q: Seq<KeyIndex>) -> Seq<int> { Seq::new(q.len(), |z: int| q[z].index as int) }
pub open spec fn khash(q: Seq<KeyIndex>) -> Seq<u64> { Seq::new(q.len(), |z: int| q[z].hash) }

// rotation left by 21*j, low 32 bits
pub open spec fn s_rot(hash: u64, n: u64, m: u64) -> u32 { ((hash << n) | (hash >> m)) as u32 }
pub open spec fn s_rotj(hash: u64, j: int) -> u32 { if j == 0 { s_rot(hash, 0, 0) } else if j == 1 { s_rot(hash, 21, 43) } else { s_rot(hash, 42, 22) } }
pub proof fn lemma_rot_amounts()
  ensures
    0isize & 63 == 0, 21isize & 63 == 21, 42isize & 63 == 42, ((-21int) as isize) & 63 == 43, ((-42int) as isize) & 63 == 22,
    0i32 & 63 == 0, 21i32 & 63 == 21, 42i32 & 63 == 42, ((-21int) as i32) & 63 == 43, ((-42int) as i32) & 63 == 22,
{
  let b = -21isize; let c = -42isize;
  assert(0isize & 63 == 0) by (bit_vector);
  assert(21isize & 63 == 21) by (bit_vector);
  assert(42isize & 63 == 42) by (bit_vector);
  assert((b as isize) & 63 == 43) by (bit_vector) requires b == -21isize;
  assert((c as isize) & 63 == 22) by (bit_vector) requires c == -42isize;
  let b = -21i32; let c = -42i32;
  assert(0i32 & 63 == 0) by (bit_vector);
  assert(21i32 & 63 == 21) by (bit_vector);
  assert(42i32 & 63 == 42) by (bit_vector);
  assert((b as i32) & 63 == 43) by (bit_vector) requires b == -21i32;
  assert((c as i32) & 63 == 22) by (bit_vector) requires c == -42i32;
}
// x scaled from 32 bits to the interval below n
pub open spec fn s_red(x: u32, n: int) -> int { (x * n) / 0x1_0000_0000 }
pub proof fn lemma_red(x: u32, n: usize)
  requires 0 <= n < 0x1_0000_0000,
  ensures 0 <= s_red(x, n as int), n > 0 ==> s_red(x, n as int) < n, n == 0 ==> s_red(x, n as int) == 0, (x as u64) * (n as u64) <= 0xffff_ffff_ffff_ffff,
    ((((x as u64) * (n as u64)) as u64) >> 32) == s_red(x, n as int),
{
  assert(0 <= x * n <= 0xffff_ffff * n) by (nonlinear_arith) requires 0 <= x <= 0xffff_ffff, n >= 0;
  let p = ((x as u64) * (n as u64)) as u64;
  assert(p == x * n);
  vstd::bits::lemma_u64_shr_is_div(p, 32); lemma2_to64();
  lemma_div_pos_is_pos(x * n, 0x1_0000_0000);
  if n > 0 { 
    assert(x * n < 0x1_0000_0000 * n) by (nonlinear_arith) requires 0 <= x <= 0xffff_ffff, n > 0;
    lemma_multiply_divide_lt(x * n, 0x1_0000_0000, n as int);
  } else { lemma_basic_div(0, 0x1_0000_0000); }
}
// ---- fuse geometry -------------------------------------------------------------------------------
@const prelude::fuse::H3
@const prelude::fuse::ARITY
@const prelude::fuse::SEGMENT_COUNT
@const prelude::fuse::SLOTS
@struct prelude::fuse::H012
pub open spec fn s_fseg(h: u64) -> int { s_red(h as u32, SEGMENT_COUNT as int) }
pub open spec fn s_frot(h: u64, b: int) -> u32 { if b == 0 { s_rotj(h, 1) } else if b == 1 { s_rotj(h, 2) } else { (w64(H3 * h) >> 32) as u32 } }
pub open spec fn s_fpos(h: u64, sl: int, b: int) -> int { (s_fseg(h) + b) * sl + s_red(s_frot(h, b), sl) }
pub open spec fn fgeo(sl: int) -> Geo { |h: u64, b: int| s_fpos(h, sl, b) }
pub proof fn lemma_fpos(h: u64, sl: int, b: int)
  requires 0 < sl < 0x1_0000_0000, 0 <= b < 3,
  ensures (s_fseg(h) + b) * sl <= s_fpos(h, sl, b) < (s_fseg(h) + b + 1) * sl, 0 <= s_fseg(h) < SEGMENT_COUNT, 0 <= s_fpos(h, sl, b) < SLOTS * sl,
    s_fseg(h) * sl + sl == (s_fseg(h) + 1) * sl, s_fseg(h) * sl + 2 * sl == (s_fseg(h) + 2) * sl, s_fseg(h) * sl + 3 * sl == (s_fseg(h) + 3) * sl, 0 <= s_fseg(h) * sl,
    (s_fseg(h) + 3) * sl <= SLOTS * sl,
{
  lemma_red(h as u32, SEGMENT_COUNT);
  lemma_red(s_frot(h, b), sl as usize);
  let s = s_fseg(h);
  assert((s + b) * sl + sl == (s + b + 1) * sl) by (nonlinear_arith);
  assert(s * sl + sl == (s + 1) * sl) by (nonlinear_arith);
  assert(s * sl + 2 * sl == (s + 2) * sl) by (nonlinear_arith);
  assert(s * sl + 3 * sl == (s + 3) * sl) by (nonlinear_arith);
  assert(0 <= s * sl) by (nonlinear_arith) requires s >= 0, sl > 0;
  assert(0 <= (s + b) * sl) by (nonlinear_arith) requires s >= 0, sl > 0, b >= 0;
  assert((s + b + 1) * sl <= SLOTS * sl) by (nonlinear_arith) requires s + b + 1 <= SLOTS, sl > 0;
  assert((s + 3) * sl <= SLOTS * sl) by (nonlinear_arith) requires s + 3 <= SLOTS, sl > 0;
}
pub proof fn lemma_fgeo(sl: int)
  requires 0 < sl < 0x1_0000_0000,
  ensures in_geo(fgeo(sl), SLOTS * sl),
{
  let g = fgeo(sl);
  assert forall|h: u64, b: int| 0 <= b < 3 implies 0 <= #[trigger] g(h, b) < SLOTS * sl by { lemma_fpos(h, sl, b); }
  assert forall|h: u64, b: int, c: int| 0 <= b < 3 && 0 <= c < 3 && b != c implies #[trigger] g(h, b) != #[trigger] g(h, c) by {
    lemma_fpos(h, sl, b); lemma_fpos(h, sl, c);
    let s = s_fseg(h);
    if b < c { assert((s + b + 1) * sl <= (s + c) * sl) by (nonlinear_arith) requires b < c, sl > 0; }
    else { assert((s + c + 1) * sl <= (s + b) * sl) by (nonlinear_arith) requires c < b, sl > 0; }
  }
}
impl H012 {
@fn prelude::fuse::H012::from
@ret r
@spec
  requires 0 < segment_length < 0x100_0000,
  ensures r.hset[0] == s_fpos(hash, segment_length as int, 0), r.hset[1] == s_fpos(hash, segment_length as int, 1), r.hset[2] == s_fpos(hash, segment_length as int, 2),
@start
  proof {
    lemma_rot_amounts();
    lemma_red(hash as u32, SEGMENT_COUNT);
    lemma_red(s_frot(hash, 0), segment_length); lemma_red(s_frot(hash, 1), segment_length); lemma_red(s_frot(hash, 2), segment_length);
    lemma_fpos(hash, segment_length as int, 0); lemma_fpos(hash, segment_length as int, 1); lemma_fpos(hash, segment_length as int, 2);
    assert(SLOTS * segment_length <= SLOTS * 0x100_0000) by (nonlinear_arith) requires segment_length <= 0x100_0000, SLOTS >= 0;
  }
@end
}
impl HashSet {
@fn prelude::fuse::HashSet::fuse_from
@ret r
@spec
  requires 0 < segment_length < 0x100_0000,
  ensures r.hash == s_mix(key, seed), r.hset[0] == s_fpos(r.hash, segment_length as int, 0), r.hset[1] == s_fpos(r.hash, segment_length as int, 1), r.hset[2] == s_fpos(r.hash, segment_length as int, 2),
@end
@fn prelude::xor::HashSet::xor_from
@ret r
@spec
  requires 0 <= block_length < 0x1_0000_0000,
  ensures r.hash == s_mix(key, seed), r.hset[0] == s_red(s_rotj(r.hash, 0), block_length as int), r.hset[1] == s_red(s_rotj(r.hash, 1), block_length as int),
    r.hset[2] == s_red(s_rotj(r.hash, 2), block_length as int),
@start
  proof {
    lemma_rot_amounts();
    let h = s_mix(key, seed);
    lemma_red(s_rotj(h, 0), block_length); lemma_red(s_rotj(h, 1), block_length); lemma_red(s_rotj(h, 2), block_length);
  }
@end
}
// ---- xor geometry ----------------------------------------------------------------------------------
pub open spec fn s_xpos(h: u64, bl: int, b: int) -> int { s_red(s_rotj(h, b), bl) }
pub open spec fn xgeo(bl: int) -> Geo { |h: u64, b: int| s_xpos(h, bl, b) + b * bl }
pub proof fn lemma_xgeo(bl: int)
  requires 0 < bl < 0x1_0000_0000,
  ensures in_geo(xgeo(bl), 3 * bl), forall|h: u64, b: int| 0 <= b < 3 ==> 0 <= #[trigger] s_xpos(h, bl, b) < bl,
{
  assert forall|h: u64, b: int| 0 <= b < 3 implies 0 <= #[trigger] s_xpos(h, bl, b) < bl by { lemma_red(s_rotj(h, b), bl as usize); }
  let g = xgeo(bl);
  assert forall|h: u64, b: int| 0 <= b < 3 implies 0 <= #[trigger] g(h, b) < 3 * bl by { assert(s_xpos(h, bl, b) < bl); assert(b == 0 || b == 1 || b == 2); }
  assert forall|h: u64, b: int, c: int| 0 <= b < 3 && 0 <= c < 3 && b != c implies #[trigger] g(h, b) != #[trigger] g(h, c) by {
    assert(0 <= s_xpos(h, bl, b) < bl); assert(0 <= s_xpos(h, bl, c) < bl);
    assert(b == 0 || b == 1 || b == 2); assert(c == 0 || c == 1 || c == 2);
  }
}

// the three blocks of a construction table, one after the other
pub open spec fn xblock(z: int, bl: int) -> int { if z < bl { 0 } else if z < 2 * bl { 1 } else { 2 } }
pub open spec fn xoff(b: int, bl: int) -> int { if b == 0 { 0 } else if b == 1 { bl } else { 2 * bl } }
pub open spec fn xcounts(h: [Box<[HSet]>; 3], bl: int) -> Seq<u32> { Seq::new((3 * bl) as nat, |z: int| h[xblock(z, bl)]@[z - xoff(xblock(z, bl), bl)].count) }
pub open spec fn xmasks(h: [Box<[HSet]>; 3], bl: int) -> Seq<u64> { Seq::new((3 * bl) as nat, |z: int| h[xblock(z, bl)]@[z - xoff(xblock(z, bl), bl)].mask) }
pub open spec fn xidx(q: Seq<KeyIndex>, off: int) -> Seq<int> { Seq::new(q.len(), |a: int| q[a].index + off) }
pub proof fn lemma_xpos(h: u64, bl: int, b: int)
  requires 0 < bl < 0x1_0000_0000, 0 <= b < 3,
  ensures xgeo(bl)(h, b) == s_xpos(h, bl, b) + xoff(b, bl), 0 <= s_xpos(h, bl, b) < bl, xblock(s_xpos(h, bl, b) + xoff(b, bl), bl) == b,
{ lemma_red(s_rotj(h, b), bl as usize); assert(b == 0 || b == 1 || b == 2); }
pub proof fn lemma_x_at(h: [Box<[HSet]>; 3], bl: int, b: int, i: int)
  requires 0 <= b < 3, 0 <= i < bl,
  ensures xcounts(h, bl)[i + xoff(b, bl)] == h[b]@[i].count, xmasks(h, bl)[i + xoff(b, bl)] == h[b]@[i].mask, 0 <= i + xoff(b, bl) < 3 * bl,
{ assert(b == 0 || b == 1 || b == 2); }
pub proof fn lemma_x_set(h0: [Box<[HSet]>; 3], h1: [Box<[HSet]>; 3], bl: int, b: int, i: int)
  requires 0 <= b < 3, 0 <= i < bl, bl <= h0[b]@.len(), h1[b]@ =~= h0[b]@.update(i, h1[b]@[i]), forall|d: int| 0 <= d < 3 && d != b ==> (#[trigger] h1[d])@ == h0[d]@,
  ensures xcounts(h1, bl) =~= xcounts(h0, bl).update(i + xoff(b, bl), h1[b]@[i].count), xmasks(h1, bl) =~= xmasks(h0, bl).update(i + xoff(b, bl), h1[b]@[i].mask),
{
  let y = i + xoff(b, bl);
  lemma_x_at(h0, bl, b, i);
  assert forall|z: int| 0 <= z < 3 * bl implies #[trigger] xcounts(h1, bl)[z] == xcounts(h0, bl).update(y, h1[b]@[i].count)[z]
      && xmasks(h1, bl)[z] == xmasks(h0, bl).update(y, h1[b]@[i].mask)[z] by {
    let d = xblock(z, bl);
    assert(d == 0 || d == 1 || d == 2); assert(b == 0 || b == 1 || b == 2);
    if d != b { assert(h1[d]@ == h0[d]@); }
  }
}
pub open spec fn xq(q: Seq<KeyIndex>, n: int, bl: int, b: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>) -> bool {
  queue2(xidx(q, xoff(b, bl)), khash(q), n, c, m, taken) && (forall|a: int| 0 <= a < n ==> (#[trigger] q[a]).index < bl)
}
pub open spec fn xqs(q: [Box<[KeyIndex]>; 3], n: [usize; 3], bl: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>) -> bool {
  xq(q[0]@, n[0] as int, bl, 0, c, m, taken) && xq(q[1]@, n[1] as int, bl, 1, c, m, taken) && xq(q[2]@, n[2] as int, bl, 2, c, m, taken)
}
pub open spec fn xabsent(q: Seq<KeyIndex>, n: int, i: int) -> bool { forall|a: int| 0 <= a < n ==> (#[trigger] q[a]).index != i }
pub proof fn lemma_xq_lower(q: Seq<KeyIndex>, n: int, bl: int, b: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, z: int, c1: Seq<u32>, m1: Seq<u64>)
  requires xq(q, n, bl, b, c, m, taken), 0 <= z < c.len(), c[z] >= 1, c1 =~= c.update(z, (c[z] - 1) as u32), m1 =~= m.update(z, m1[z]), 0 < bl,
  ensures xq(q, n, bl, b, c1, m1, taken), c1[z] == 1 && 0 <= z - xoff(b, bl) < bl ==> xabsent(q, n, z - xoff(b, bl)) && n < c.len(),
{
  lemma_q_lower(xidx(q, xoff(b, bl)), khash(q), n, c, m, taken, z, c1, m1);
  if c1[z] == 1 && 0 <= z - xoff(b, bl) < bl {
    assert forall|a: int| 0 <= a < n implies (#[trigger] q[a]).index != z - xoff(b, bl) by { assert(xidx(q, xoff(b, bl))[a] != z); }
  }
}
pub proof fn lemma_xqs_lower(q: [Box<[KeyIndex]>; 3], n: [usize; 3], bl: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, b: int, i: int, c1: Seq<u32>, m1: Seq<u64>)
  requires xqs(q, n, bl, c, m, taken), 0 <= b < 3, 0 <= i < bl, 0 < bl, c.len() == 3 * bl, c[i + xoff(b, bl)] >= 1,
    c1 =~= c.update(i + xoff(b, bl), (c[i + xoff(b, bl)] - 1) as u32), m1 =~= m.update(i + xoff(b, bl), m1[i + xoff(b, bl)]),
  ensures xqs(q, n, bl, c1, m1, taken), c1[i + xoff(b, bl)] == 1 ==> xabsent(q[b]@, n[b] as int, i) && n[b] < c.len(),
{
  let z = i + xoff(b, bl);
  assert(b == 0 || b == 1 || b == 2);
  lemma_xq_lower(q[0]@, n[0] as int, bl, 0, c, m, taken, z, c1, m1);
  lemma_xq_lower(q[1]@, n[1] as int, bl, 1, c, m, taken, z, c1, m1);
  lemma_xq_lower(q[2]@, n[2] as int, bl, 2, c, m, taken, z, c1, m1);
}
pub proof fn lemma_xq_room(q: Seq<KeyIndex>, n: int, bl: int, b: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, i: int)
  requires xq(q, n, bl, b, c, m, taken), xabsent(q, n, i), 0 <= i < bl, c.len() == 3 * bl, 0 <= b < 3,
  ensures n < c.len(),
{
  let s = xidx(q, xoff(b, bl));
  assert forall|a: int| 0 <= a < n implies #[trigger] s[a] != i + xoff(b, bl) by { assert(q[a].index != i); }
  lemma_q_room(s, khash(q), n, c, m, taken, i + xoff(b, bl));
}
pub proof fn lemma_xqs_push(q: [Box<[KeyIndex]>; 3], n: [usize; 3], bl: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, b: int, i: int, q1: [Box<[KeyIndex]>; 3], n1: [usize; 3])
  requires xqs(q, n, bl, c, m, taken), 0 <= b < 3, 0 <= i < bl, c.len() == 3 * bl, c[i + xoff(b, bl)] == 1, !taken.contains(i + xoff(b, bl)), xabsent(q[b]@, n[b] as int, i), n[b] < q[b]@.len(),
    q1[b]@ =~= q[b]@.update(n[b] as int, q1[b]@[n[b] as int]), q1[b]@[n[b] as int].index == i, q1[b]@[n[b] as int].hash == m[i + xoff(b, bl)], n1[b] == n[b] + 1,
    forall|d: int| 0 <= d < 3 && d != b ==> (#[trigger] q1[d])@ == q[d]@ && n1[d] == n[d],
  ensures xqs(q1, n1, bl, c, m, taken),
{
  assert(b == 0 || b == 1 || b == 2);
  let s = xidx(q[b]@, xoff(b, bl));
  assert forall|a: int| 0 <= a < n[b] implies #[trigger] s[a] != i + xoff(b, bl) by { assert(q[b]@[a].index != i); }
  lemma_q_push(s, khash(q[b]@), n[b] as int, c, m, taken, i + xoff(b, bl), xidx(q1[b]@, xoff(b, bl)), khash(q1[b]@));
  assert forall|a: int| 0 <= a < n1[b] implies (#[trigger] q1[b]@[a]).index < bl by { if a < n[b] { assert(q1[b]@[a] == q[b]@[a]); } }
  assert(xq(q1[b]@, n1[b] as int, bl, b, c, m, taken));
  if b != 0 { assert(q1[0]@ == q[0]@); }
  if b != 1 { assert(q1[1]@ == q[1]@); }
  if b != 2 { assert(q1[2]@ == q[2]@); }
}
pub proof fn lemma_xq_take(q: Seq<KeyIndex>, n: int, bl: int, b: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, own: int, i: int)
  requires xq(q, n, bl, b, c, m, taken), 0 <= b < 3, 0 <= own < 3, 0 <= i < bl, own == b ==> xabsent(q, n, i),
  ensures xq(q, n, bl, b, c, m, taken.insert(i + xoff(own, bl))),
{
  let s = xidx(q, xoff(b, bl));
  assert(b == 0 || b == 1 || b == 2); assert(own == 0 || own == 1 || own == 2);
  assert forall|a: int| 0 <= a < n implies 0 <= (#[trigger] s[a]) < c.len() && !taken.insert(i + xoff(own, bl)).contains(s[a]) && c[s[a]] <= 1 && (c[s[a]] == 1 ==> m[s[a]] == khash(q)[a]) by {
    assert(q[a].index < bl);
    if b == own { assert(q[a].index != i); }
  }
}
pub proof fn lemma_xqs_pop(q: [Box<[KeyIndex]>; 3], n: [usize; 3], n1: [usize; 3], bl: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, b: int)
  requires xqs(q, n, bl, c, m, taken), 0 <= b < 3, n[b] >= 1, n1[b] == n[b] - 1, forall|d: int| 0 <= d < 3 && d != b ==> (#[trigger] n1[d]) == n[d], c.len() == 3 * bl, bl > 0,
  ensures ({
    let i = q[b]@[n[b] - 1].index as int; let y = i + xoff(b, bl);
    xqs(q, n1, bl, c, m, taken) && xqs(q, n1, bl, c, m, taken.insert(y)) && 0 <= i < bl && !taken.contains(y) && c[y] <= 1 && (c[y] == 1 ==> m[y] == q[b]@[n[b] - 1].hash) }),
{
  assert(b == 0 || b == 1 || b == 2);
  let s = xidx(q[b]@, xoff(b, bl));
  let i = q[b]@[n[b] - 1].index as int;
  lemma_q_pop(s, khash(q[b]@), n[b] as int, c, m, taken);
  assert(s[n[b] - 1] == i + xoff(b, bl));
  assert(khash(q[b]@)[n[b] - 1] == q[b]@[n[b] - 1].hash);
  assert forall|a: int| 0 <= a < n1[b] implies (#[trigger] q[b]@[a]).index != i by { assert(s[a] != s[n[b] - 1]); }
  if b != 0 { assert(n1[0] == n[0]); }
  if b != 1 { assert(n1[1] == n[1]); }
  if b != 2 { assert(n1[2] == n[2]); }
  lemma_xq_take(q[0]@, n1[0] as int, bl, 0, c, m, taken, b, i);
  lemma_xq_take(q[1]@, n1[1] as int, bl, 1, c, m, taken, b, i);
  lemma_xq_take(q[2]@, n1[2] as int, bl, 2, c, m, taken, b, i);
}
