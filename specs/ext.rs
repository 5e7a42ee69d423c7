// Contracts assumed for code outside the two crates (std, rand, base64, bincode, sha2, libm).
// This module is the trusted base; DESIGN.md lists every item.
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
verus! {

// ---- errors: every error value is opaque except for being the reuse error ----------------
pub struct VErr { pub reuse: bool }
#[verifier::external]
impl core::fmt::Debug for VErr {
  fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
pub fn mk_err() -> (r: VErr) ensures !r.reuse { VErr { reuse: false } }
pub fn mk_reuse_err() -> (r: VErr) ensures r.reuse { VErr { reuse: true } }

// ---- lengths of iterator adapters (verified) ----------------------------------------------
pub fn vmin(a: usize, b: usize) -> (r: usize)
  ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }
pub fn vsub0(a: usize, b: usize) -> (r: usize)
  ensures r == if a >= b { a - b } else { 0 },
{ if a >= b { a - b } else { 0 } }
// the bounds check of x[lo..hi]
pub fn slice_range(lo: usize, hi: usize, len: usize)
  requires lo <= hi <= len,
{}
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
  requires b > 0,
  ensures r == (if a % b == 0 { a / b } else { (a / b + 1) as usize }),
;
pub assume_specification<T: core::cmp::Ord> [core::cmp::min] (a: T, b: T) -> (r: T)
  ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { b } else { a });

// ---- integers ------------------------------------------------------------------------------
pub fn pow_2u8(e: u32) -> (r: u8)
  requires e < 8,
  ensures r == pow2(e as nat), r == 1u8 << e,
{
  proof { pow2_small8(e); vstd::bits::lemma_u8_shl_is_mul(1, e as u8); assert((1u8 << (e as u8)) == (1u8 << e)) by (bit_vector) requires e < 8; }
  1u8 << e
}
proof fn pow2_small8(e: u32) requires e < 8 ensures pow2(e as nat) <= 0xff
{ lemma_pow2_strictly_increases(e as nat, 8); lemma2_to64(); assert(pow2(8) == 256); }
pub fn pow_2u32(e: u32) -> (r: u32)
  requires e < 32,
  ensures r == pow2(e as nat), r == 1u32 << e,
{
  proof { lemma_pow2_strictly_increases(e as nat, 32); lemma2_to64(); vstd::bits::lemma_u32_shl_is_mul(1, e); }
  1u32 << e
}
pub fn pow_2u64(e: u32) -> (r: u64)
  requires e < 64,
  ensures r == pow2(e as nat), r == 1u64 << e,
{
  proof { lemma_pow2_strictly_increases(e as nat, 64); lemma2_to64(); lemma2_to64_rest(); vstd::bits::lemma_u64_shl_is_mul(1, e as u64); assert((1u64 << (e as u64)) == (1u64 << e)) by (bit_vector) requires e < 64; }
  1u64 << e
}
pub assume_specification [u64::overflowing_mul] (a: u64, b: u64) -> (r: (u64, bool))
  ensures r.0 as int == (a as int * b as int) % 0x1_0000_0000_0000_0000;
pub assume_specification [u64::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool))
  ensures r.0 as int == (a + b) % 0x1_0000_0000_0000_0000;
pub fn u32_to_le_bytes(x: u32) -> (r: [u8; 4])
  ensures
    r@.len() == 4,
    r@[0] == (x & 0xff) as u8, r@[1] == ((x >> 8) & 0xff) as u8,
    r@[2] == ((x >> 16) & 0xff) as u8, r@[3] == ((x >> 24) & 0xff) as u8,
{ [(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8] }
pub open spec fn le32(b: Seq<u8>) -> u32 {
  ((b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24)) as u32
}
pub open spec fn le64(b: Seq<u8>) -> u64 {
  ((b[0] as u64) | ((b[1] as u64) << 8) | ((b[2] as u64) << 16) | ((b[3] as u64) << 24)
  | ((b[4] as u64) << 32) | ((b[5] as u64) << 40) | ((b[6] as u64) << 48) | ((b[7] as u64) << 56)) as u64
}
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32)
  ensures r == le32(b@),
{ (b[0] as u32) | ((b[1] as u32) << 8) | ((b[2] as u32) << 16) | ((b[3] as u32) << 24) }
pub fn u64_from_le_bytes(b: [u8; 8]) -> (r: u64)
  ensures r == le64(b@),
{ u64_from_slice(b.as_slice()) }
#[verifier::external_body]
pub fn f64_div8_floor(i: usize) -> (r: usize)
  requires i < 0x20_0000_0000_0000,
  ensures r == i / 8,
{ ((i as f64) / 8f64).floor() as usize }

// ---- vectors -------------------------------------------------------------------------------
pub trait VItems<T> : Sized {
  spec fn items(&self) -> Seq<T>;
  fn as_items(&self) -> (r: &[T]) ensures r@ == self.items();
}
impl<T> VItems<T> for Vec<T> {
  open spec fn items(&self) -> Seq<T> { self@ }
  fn as_items(&self) -> (r: &[T]) { self.as_slice() }
}
impl<'a, T> VItems<T> for &'a Vec<T> {
  open spec fn items(&self) -> Seq<T> { self@ }
  fn as_items(&self) -> (r: &[T]) { self.as_slice() }
}
pub fn vec_extend<T: Copy, S: VItems<T>>(v: &mut Vec<T>, s: S)
  ensures final(v)@ == old(v)@ + s.items(),
{
  let a = s.as_items();
  let n = a.len();
  let mut i: usize = 0;
  let ghost v0 = v@;
  while i < n
    invariant i <= n, n == a@.len(), v@ == v0 + a@.subrange(0, i as int),
    decreases n - i,
  {
    v.push(a[i]);
    proof { assert(v@ =~= v0 + a@.subrange(0, i + 1)); }
    i = i + 1;
  }
  proof { assert(a@.subrange(0, n as int) =~= a@); }
}
pub fn slice_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>)
  ensures r@ == s@,
{
  let mut v: Vec<T> = Vec::new();
  let n = s.len();
  let mut i: usize = 0;
  while i < n
    invariant i <= n, n == s@.len(), v@ == s@.subrange(0, i as int),
    decreases n - i,
  {
    v.push(s[i]);
    proof { assert(v@ =~= s@.subrange(0, i + 1)); }
    i = i + 1;
  }
  proof { assert(v@ =~= s@); }
  v
}
pub fn vec_copy<T: Copy>(s: &Vec<T>) -> (r: Vec<T>)
  ensures r@ == s@,
{ slice_to_vec(s.as_slice()) }
pub fn vec_try_into<const N: usize>(v: Vec<u8>) -> (r: Result<[u8; N], Vec<u8>>)
  ensures
    match r { Ok(a) => v@.len() == N && a@ == v@, Err(_) => v@.len() != N },
{
  if v.len() != N { return Err(v); }
  let mut a: [u8; N] = [0u8; N];
  let mut i: usize = 0;
  while i < N
    invariant i <= N, v@.len() == N, forall|k: int| 0 <= k < i ==> a@[k] == v@[k],
    decreases N - i,
  {
    a[i] = v[i];
    i = i + 1;
  }
  proof { assert(a@ =~= v@); }
  Ok(a)
}
// Vec<Result<T, _>> -> Result<Vec<T>, _>: all values in order, or an error if there is one
pub fn collect_results<T>(v: Vec<Result<T, VErr>>) -> (r: Result<Vec<T>, VErr>)
  ensures
    match r {
      Ok(o) => o@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) == Ok::<T, VErr>(o@[i]),
      Err(_) => exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]) is Err,
    },
{
  let ghost v0 = v@;
  let mut w = v;
  let mut o: Vec<T> = Vec::new();
  let n = w.len();
  let mut i: usize = 0;
  while i < n
    invariant i <= n, v0 == v@, n == v0.len(), w@ == v0.subrange(i as int, n as int), o@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] v0[k]) == Ok::<T, VErr>(o@[k]),
    decreases n - i,
  {
    let x = w.remove(0);
    proof { assert(x == v0[i as int]); assert(w@ =~= v0.subrange(i + 1, n as int)); }
    match x {
      Ok(t) => { o.push(t); }
      Err(e) => { proof { assert(v0[i as int] is Err); } return Err(e); }
    }
    i = i + 1;
  }
  Ok(o)
}
pub fn empty_vecs<T: Clone>(n: usize) -> (r: Vec<Vec<T>>)
  ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0,
{
  let mut r: Vec<Vec<T>> = Vec::new();
  let mut i: usize = 0;
  while i < n
    invariant i <= n, r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k])@.len() == 0,
    decreases n - i,
  { r.push(Vec::new()); i = i + 1; }
  r
}

pub fn vec_of<T: Copy, const N: usize>(a: [T; N]) -> (r: Vec<T>)
  ensures r@ == a@,
{ slice_to_vec(a.as_slice()) }
pub trait VDefault : Sized { spec fn dflt() -> Self; fn mk() -> (r: Self) ensures r == Self::dflt(); }
impl VDefault for u8 { open spec fn dflt() -> u8 { 0 } fn mk() -> (r: u8) { 0 } }
impl VDefault for u16 { open spec fn dflt() -> u16 { 0 } fn mk() -> (r: u16) { 0 } }
impl VDefault for u32 { open spec fn dflt() -> u32 { 0 } fn mk() -> (r: u32) { 0 } }
impl VDefault for u64 { open spec fn dflt() -> u64 { 0 } fn mk() -> (r: u64) { 0 } }
impl VDefault for usize { open spec fn dflt() -> usize { 0 } fn mk() -> (r: usize) { 0 } }
pub fn from_elem_default<T: VDefault>(n: usize) -> (r: Vec<T>)
  ensures r@ == Seq::new(n as nat, |i: int| T::dflt()),
{
  let mut r: Vec<T> = Vec::new();
  let mut i: usize = 0;
  while i < n
    invariant i <= n, r@ == Seq::new(i as nat, |k: int| T::dflt()),
    decreases n - i,
  {
    r.push(T::mk());
    i = i + 1;
    proof { assert(r@ =~= Seq::new(i as nat, |k: int| T::dflt())); }
  }
  r
}
pub fn u64_from_slice(b: &[u8]) -> (r: u64)
  requires b@.len() == 8,
  ensures r == le64(b@),
{
  (b[0] as u64) | ((b[1] as u64) << 8) | ((b[2] as u64) << 16) | ((b[3] as u64) << 24)
  | ((b[4] as u64) << 32) | ((b[5] as u64) << 40) | ((b[6] as u64) << 48) | ((b[7] as u64) << 56)
}
// reached only where the code panics
pub fn panics<T>(x: T) -> ! requires false, { vstd::pervasive::unreached() }
// std's hash set over keys, as a list
pub closed spec fn keys_of(k: Seq<[u64; 4]>) -> Set<Seq<u64>>
  decreases k.len(),
{ if k.len() == 0 { Set::empty() } else { keys_of(k.drop_last()).insert(k.last()@) } }
pub proof fn lemma_keys_of(k: Seq<[u64; 4]>, s: Seq<u64>)
  ensures keys_of(k).contains(s) == (exists|i: int| 0 <= i < k.len() && (#[trigger] k[i])@ == s),
  decreases k.len(),
{
  if k.len() > 0 {
    let b = k.drop_last();
    lemma_keys_of(b, s);
    if k.last()@ == s { assert(k[k.len() - 1]@ == s); }
    if keys_of(b).contains(s) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == s; assert(k[i]@ == s); }
    if exists|i: int| 0 <= i < k.len() && (#[trigger] k[i])@ == s {
      let i = choose|i: int| 0 <= i < k.len() && (#[trigger] k[i])@ == s;
      if i < k.len() - 1 { assert(b[i]@ == s); }
    }
  }
}
pub struct KeySet { k: Vec<[u64; 4]> }
impl KeySet {
  pub closed spec fn view(&self) -> Set<Seq<u64>> { keys_of(self.k@) }
  pub fn new() -> (r: KeySet) ensures r@ == Set::<Seq<u64>>::empty() { let r = KeySet { k: Vec::new() }; proof { assert(r@ =~= Set::<Seq<u64>>::empty()); } r }
  pub fn insert(&mut self, k: [u64; 4]) -> (r: bool)
    ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@),
  {
    let n = self.k.len();
    let mut i: usize = 0;
    while i < n
      invariant i <= n, n == self.k@.len(), self.k@ == old(self).k@, forall|a: int| 0 <= a < i ==> (#[trigger] self.k@[a])@ != k@,
      decreases n - i,
    {
      let x = self.k[i];
      if x[0] == k[0] && x[1] == k[1] && x[2] == k[2] && x[3] == k[3] {
        proof { assert(x@ =~= k@); assert(self.k@[i as int]@ == k@); lemma_keys_of(self.k@, k@); assert(self@ =~= old(self)@.insert(k@)); }
        return false;
      }
      i = i + 1;
    }
    self.k.push(k);
    proof {
      lemma_keys_of(old(self).k@, k@);
      assert(self.k@.drop_last() =~= old(self).k@);
    }
    true
  }
}
// hashbrown's map: a finite map that holds every pair inserted
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> HMap<K, V> {
  pub uninterp spec fn view(&self) -> Map<K, V>;
  #[verifier::external_body]
  pub fn new() -> (r: HMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &K) -> (r: Option<&V>)
    ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) },
  { unimplemented!() }
}

pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::into_boxed_slice] (v: Vec<T, A>) -> (r: Box<[T], A>)
  ensures r@ == v@;
// a filter's size in slots: the number of keys times a constant below 2, in floating point
#[verifier::external_body]
pub fn scaled(n: usize) -> (r: usize)
  requires n < 0x8000_0000,
  ensures r <= 2 * n,
{ unimplemented!() }
pub fn sum3(a: &[usize; 3]) -> (r: usize)
  requires a[0] + a[1] + a[2] <= usize::MAX,
  ensures r == a[0] + a[1] + a[2],
{ a[0] + a[1] + a[2] }
// rand's generator for the initial content of a filter: any values
pub struct VRng { }
#[verifier::external_body]
pub fn thread_rng() -> (r: VRng) { unimplemented!() }
impl VRng {
  #[verifier::external_body]
  pub fn gen<T>(&mut self) -> (r: T) { unimplemented!() }
}

// ---- hashing of arbitrary keys and filters over 64-bit keys --------------------------------
// a key feeds a sequence of bytes that depends only on the key; a hasher's answer depends only on what it was fed
pub trait VHasher : Sized {
  spec fn fed(&self) -> Seq<u8>;
  spec fn digest(s: Seq<u8>) -> u64;
  fn default() -> (r: Self) ensures r.fed() == Seq::<u8>::empty();
  fn finish(&self) -> (r: u64) ensures r == Self::digest(self.fed());
}
pub trait VHash {
  spec fn feed(&self) -> Seq<u8>;
  fn hash<H: VHasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + self.feed();
}
pub open spec fn s_hash<T: VHash, H: VHasher>(k: T) -> u64 { H::digest(k.feed()) }
// what the filters of this crate guarantee (shown for Xor8, Xor16 and Xor32)
pub trait VFilter : Sized {
  spec fn f_wf(&self) -> bool;
  spec fn f_holds(&self, k: u64) -> bool;
  spec fn f_len(&self) -> nat;
  fn contains(&self, key: &u64) -> (r: bool) requires self.f_wf(), ensures r == self.f_holds(*key);
  fn len(&self) -> (r: usize) ensures r == self.f_len();
}
pub trait VFromKeys : VFilter {
  spec fn f_admits(k: Seq<u64>) -> bool;
  fn from(keys: Vec<u64>) -> (r: Self)
    requires Self::f_admits(keys@),
    ensures r.f_wf(), forall|i: int| 0 <= i < keys@.len() ==> r.f_holds(#[trigger] keys@[i]);
}

// ---- text ----------------------------------------------------------------------------------
pub struct VString { s: Vec<u8> }
impl VString {
  pub closed spec fn bytes(&self) -> Seq<u8> { self.s@ }
  pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.bytes() { self.s.as_slice() }
  pub fn clone(&self) -> (r: VString) ensures r.bytes() == self.bytes() { VString { s: vec_copy(&self.s) } }
  pub fn len(&self) -> (r: usize) ensures r == self.bytes().len() { self.s.len() }
  pub fn is_empty(&self) -> (r: bool) ensures r == (self.bytes().len() == 0) { self.s.len() == 0 }
  pub fn as_str(&self) -> (r: &VString) ensures r.bytes() == self.bytes() { self }
  pub fn to_string(&self) -> (r: VString) ensures r.bytes() == self.bytes() { self.clone() }
  pub fn to_owned(&self) -> (r: VString) ensures r.bytes() == self.bytes() { self.clone() }
  pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.bytes() { self.s }
  pub fn parse(&self) -> (r: Result<VString, VErr>) ensures r is Ok, r->Ok_0.bytes() == self.bytes() { Ok(self.clone()) }
  pub fn of(b: Vec<u8>) -> (r: VString) ensures r.bytes() == b@ { VString { s: b } }
}

// base64, standard alphabet, padded
pub closed spec fn b64_char(x: u8) -> u8 {
  if x < 26 { (65 + x) as u8 } else if x < 52 { (97 + x - 26) as u8 } else if x < 62 { (48 + x - 52) as u8 } else if x == 62 { 43 } else { 47 }
}
pub closed spec fn b64_at(b: Seq<u8>, i: int) -> u8 { if i < b.len() { b[i] } else { 0 } }
pub closed spec fn b64_sextet(b0: u8, b1: u8, b2: u8, k: int) -> u8 {
  if k == 0 { b0 >> 2 } else if k == 1 { ((b0 & 3) << 4) | (b1 >> 4) } else if k == 2 { ((b1 & 15) << 2) | (b2 >> 6) } else { b2 & 63 }
}
pub closed spec fn b64_out(b: Seq<u8>, g: int, k: int) -> u8 {
  if (k == 2 && 3 * g + 1 >= b.len()) || (k == 3 && 3 * g + 2 >= b.len()) { 61 }
  else { b64_char(b64_sextet(b64_at(b, 3 * g), b64_at(b, 3 * g + 1), b64_at(b, 3 * g + 2), k)) }
}
pub closed spec fn b64_enc(b: Seq<u8>) -> Seq<u8> { Seq::new((4 * ((b.len() + 2) / 3)) as nat, |i: int| b64_out(b, i / 4, i % 4)) }
pub proof fn lemma_b64_char(x: u8, y: u8)
  requires x < 64, y < 64,
  ensures b64_char(x) != 61, b64_char(x) == b64_char(y) ==> x == y,
{}
pub proof fn lemma_b64_sextet(b0: u8, b1: u8, b2: u8, k: int)
  ensures b64_sextet(b0, b1, b2, k) < 64,
{
  assert(b0 >> 2 < 64) by (bit_vector);
  assert(((b0 & 3) << 4) | (b1 >> 4) < 64) by (bit_vector);
  assert(((b1 & 15) << 2) | (b2 >> 6) < 64) by (bit_vector);
  assert(b2 & 63 < 64) by (bit_vector);
}
pub proof fn lemma_b64_out(a: Seq<u8>, b: Seq<u8>, g: int, k: int)
  requires 0 <= g, 0 <= k < 4, 4 * g + 4 <= b64_enc(a).len(), b64_enc(a) == b64_enc(b),
  ensures b64_out(a, g, k) == b64_out(b, g, k),
{
  let i = 4 * g + k;
  assert(i / 4 == g && i % 4 == k);
  assert(b64_enc(a)[i] == b64_out(a, i / 4, i % 4));
  assert(b64_enc(b)[i] == b64_out(b, i / 4, i % 4));
}
pub proof fn lemma_b64_group(a: Seq<u8>, b: Seq<u8>, g: int)
  requires 0 <= g, 3 * g < a.len(), a.len() == b.len(), b64_enc(a) == b64_enc(b),
  ensures b64_at(a, 3 * g) == b64_at(b, 3 * g), b64_at(a, 3 * g + 1) == b64_at(b, 3 * g + 1), b64_at(a, 3 * g + 2) == b64_at(b, 3 * g + 2),
{
  let (a0, a1, a2) = (b64_at(a, 3 * g), b64_at(a, 3 * g + 1), b64_at(a, 3 * g + 2));
  let (b0, b1, b2) = (b64_at(b, 3 * g), b64_at(b, 3 * g + 1), b64_at(b, 3 * g + 2));
  assert(4 * g + 4 <= b64_enc(a).len());
  lemma_b64_out(a, b, g, 0); lemma_b64_out(a, b, g, 1); lemma_b64_out(a, b, g, 2); lemma_b64_out(a, b, g, 3);
  assert forall|k: int| 0 <= k < 4 implies #[trigger] b64_sextet(a0, a1, a2, k) < 64 && b64_sextet(b0, b1, b2, k) < 64 by { lemma_b64_sextet(a0, a1, a2, k); lemma_b64_sextet(b0, b1, b2, k); }
  assert(b64_sextet(a0, a1, a2, 0) == b64_sextet(b0, b1, b2, 0));
  assert(b64_sextet(a0, a1, a2, 1) == b64_sextet(b0, b1, b2, 1));
  assert(a0 == b0) by (bit_vector) requires a0 >> 2 == b0 >> 2, ((a0 & 3) << 4) | (a1 >> 4) == ((b0 & 3) << 4) | (b1 >> 4);
  if 3 * g + 1 < a.len() {
    assert(b64_sextet(a0, a1, a2, 2) == b64_sextet(b0, b1, b2, 2));
    assert(a1 == b1) by (bit_vector) requires ((a0 & 3) << 4) | (a1 >> 4) == ((b0 & 3) << 4) | (b1 >> 4), ((a1 & 15) << 2) | (a2 >> 6) == ((b1 & 15) << 2) | (b2 >> 6);
    if 3 * g + 2 < a.len() {
      assert(b64_sextet(a0, a1, a2, 3) == b64_sextet(b0, b1, b2, 3));
      assert(a2 == b2) by (bit_vector) requires ((a1 & 15) << 2) | (a2 >> 6) == ((b1 & 15) << 2) | (b2 >> 6), a2 & 63 == b2 & 63;
    }
  }
}
pub proof fn lemma_b64_inj(a: Seq<u8>, b: Seq<u8>)
  requires b64_enc(a) == b64_enc(b),
  ensures a == b,
{
  let g = (a.len() + 2) / 3;
  assert(b64_enc(a).len() == 4 * g && b64_enc(b).len() == 4 * ((b.len() + 2) / 3));
  if a.len() > 0 {
    lemma_b64_out(a, b, g - 1, 2); lemma_b64_out(a, b, g - 1, 3);
    let h = 3 * (g - 1);
    assert forall|k: int| 0 <= k < 4 implies #[trigger] b64_sextet(b64_at(a, h), b64_at(a, h + 1), b64_at(a, h + 2), k) < 64 by { lemma_b64_sextet(b64_at(a, h), b64_at(a, h + 1), b64_at(a, h + 2), k); }
    assert forall|k: int| 0 <= k < 4 implies #[trigger] b64_sextet(b64_at(b, h), b64_at(b, h + 1), b64_at(b, h + 2), k) < 64 by { lemma_b64_sextet(b64_at(b, h), b64_at(b, h + 1), b64_at(b, h + 2), k); }
    assert(a.len() == b.len());
  }
  assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
    lemma_b64_group(a, b, i / 3);
    assert(i == 3 * (i / 3) + i % 3);
  }
  assert(a =~= b);
}
// decoding: texts that are encodings decode to what they encode; what else the decoder accepts (unpadded text) is left open
pub uninterp spec fn b64_lenient(s: Seq<u8>) -> Option<Seq<u8>>;
pub closed spec fn b64_dec(s: Seq<u8>) -> Option<Seq<u8>> {
  if exists|b: Seq<u8>| #[trigger] b64_enc(b) == s { Some(choose|b: Seq<u8>| #[trigger] b64_enc(b) == s) } else { b64_lenient(s) }
}
pub broadcast proof fn b64_roundtrip(b: Seq<u8>)
  ensures #[trigger] b64_dec(b64_enc(b)) == Some(b)
{
  let s = b64_enc(b);
  let c = choose|c: Seq<u8>| #[trigger] b64_enc(c) == s;
  assert(b64_enc(b) == s);
  lemma_b64_inj(b, c);
}
pub fn b64_char_x(x: u8) -> (r: u8)
  requires x < 64,
  ensures r == b64_char(x),
{ if x < 26 { 65 + x } else if x < 52 { 97 + (x - 26) } else if x < 62 { 48 + (x - 52) } else if x == 62 { 43 } else { 47 } }
pub fn base64_encode(b: Vec<u8>) -> (r: VString)
  ensures r.bytes() == b64_enc(b@),
{
  let n = b.len();
  let m = if n % 3 == 0 { n / 3 } else { n / 3 + 1 };
  let mut o: Vec<u8> = Vec::new();
  let mut g: usize = 0;
  let ghost t = b64_enc(b@);
  while g < m
    invariant g <= m, n == b@.len(), m == (n + 2) / 3, t == b64_enc(b@), o@ == t.subrange(0, 4 * g),
    decreases m - g,
  {
    let i = 3 * g;
    let b0 = b[i];
    let b1 = if n - i > 1 { b[i + 1] } else { 0 };
    let b2 = if n - i > 2 { b[i + 2] } else { 0 };
    proof { lemma_b64_sextet(b0, b1, b2, 0); lemma_b64_sextet(b0, b1, b2, 1); lemma_b64_sextet(b0, b1, b2, 2); lemma_b64_sextet(b0, b1, b2, 3); }
    o.push(b64_char_x(b0 >> 2));
    o.push(b64_char_x(((b0 & 3) << 4) | (b1 >> 4)));
    if n - i > 1 { o.push(b64_char_x(((b1 & 15) << 2) | (b2 >> 6))); } else { o.push(61); }
    if n - i > 2 { o.push(b64_char_x(b2 & 63)); } else { o.push(61); }
    proof {
      let h = 4 * g as int;
      assert(t[h] == b64_out(b@, g as int, 0) && t[h + 1] == b64_out(b@, g as int, 1) && t[h + 2] == b64_out(b@, g as int, 2) && t[h + 3] == b64_out(b@, g as int, 3));
      assert(o@ =~= t.subrange(0, 4 * (g + 1)));
    }
    g = g + 1;
  }
  proof { assert(o@ =~= t); }
  VString::of(o)
}
#[verifier::external_body]
pub fn base64_decode(s: &VString) -> (r: Result<Vec<u8>, VErr>)
  ensures
    match r { Ok(b) => b64_dec(s.bytes()) == Some(b@) && b@.len() < 0x1_0000_0000_0000, Err(e) => !e.reuse && b64_dec(s.bytes()) is None },
{ unimplemented!() }

// ---- bincode
pub closed spec fn bytes32(x: u32) -> Seq<u8> {
  seq![(x & 0xff) as u8, ((x >> 8) & 0xff) as u8, ((x >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8]
}
pub closed spec fn bytes64(x: u64) -> Seq<u8> { Seq::new(8, |i: int| ((x >> ((8 * i) as u64)) & 0xff) as u8) }
pub closed spec fn resp_ser(w: Seq<u32>) -> Seq<u8> {
  Seq::new(8 + 4 * w.len(), |i: int| if i < 8 { bytes64(w.len() as u64)[i] } else { bytes32(w[(i - 8) / 4])[(i - 8) % 4] })
}
pub closed spec fn resp_de(b: Seq<u8>) -> Option<Seq<u32>> {
  if b.len() < 8 || b.len() < 8 + 4 * le64(b) { None }
  else { Some(Seq::new(le64(b) as nat, |i: int| le32(b.subrange(8 + 4 * i, 12 + 4 * i)))) }
}
pub proof fn lemma_bytes32(x: u32) ensures le32(bytes32(x)) == x {
  let b = bytes32(x);
  assert((((x & 0xff) as u8) as u32) | ((((x >> 8) & 0xff) as u8) as u32) << 8 | ((((x >> 16) & 0xff) as u8) as u32) << 16 | ((((x >> 24) & 0xff) as u8) as u32) << 24 == x) by (bit_vector);
}
pub proof fn lemma_bytes64(b: Seq<u8>, x: u64) requires b.len() >= 8, forall|i: int| 0 <= i < 8 ==> b[i] == #[trigger] bytes64(x)[i] ensures le64(b) == x {
  let c = bytes64(x);
  assert(b[0] == c[0] && b[1] == c[1] && b[2] == c[2] && b[3] == c[3] && b[4] == c[4] && b[5] == c[5] && b[6] == c[6] && b[7] == c[7]);
  assert((((x >> 0) & 0xff) as u8) as u64 | ((((x >> 8) & 0xff) as u8) as u64) << 8 | ((((x >> 16) & 0xff) as u8) as u64) << 16 | ((((x >> 24) & 0xff) as u8) as u64) << 24
   | ((((x >> 32) & 0xff) as u8) as u64) << 32 | ((((x >> 40) & 0xff) as u8) as u64) << 40 | ((((x >> 48) & 0xff) as u8) as u64) << 48 | ((((x >> 56) & 0xff) as u8) as u64) << 56 == x) by (bit_vector);
}
pub broadcast proof fn resp_roundtrip(w: Seq<u32>)
  requires w.len() <= u64::MAX
  ensures #[trigger] resp_de(resp_ser(w)) == Some(w)
{
  let b = resp_ser(w);
  lemma_bytes64(b, w.len() as u64);
  let d = resp_de(b)->Some_0;
  assert forall|i: int| 0 <= i < w.len() implies d[i] == w[i] by {
    let s = b.subrange(8 + 4 * i, 12 + 4 * i);
    lemma_bytes32(w[i]);
    assert(s =~= bytes32(w[i])) by {
      assert forall|k: int| 0 <= k < 4 implies s[k] == bytes32(w[i])[k] by {
        assert((8 + 4 * i + k - 8) / 4 == i && (8 + 4 * i + k - 8) % 4 == k) by (nonlinear_arith) requires 0 <= k < 4;
      }
    }
  }
  assert(d =~= w);
}
pub trait VWords { spec fn words(&self) -> Seq<u32>; fn as_words(&self) -> (r: &Vec<u32>) ensures r@ == self.words(); }
pub fn bincode_serialize<T: VWords>(x: &T) -> (r: Result<Vec<u8>, VErr>)
  ensures r is Ok, r->Ok_0@ == resp_ser(x.words()),
{
  let w = x.as_words();
  let n = w.len();
  let l = n as u64;
  let mut o: Vec<u8> = Vec::new();
  o.push(((l >> 0) & 0xff) as u8); o.push(((l >> 8) & 0xff) as u8); o.push(((l >> 16) & 0xff) as u8); o.push(((l >> 24) & 0xff) as u8);
  o.push(((l >> 32) & 0xff) as u8); o.push(((l >> 40) & 0xff) as u8); o.push(((l >> 48) & 0xff) as u8); o.push(((l >> 56) & 0xff) as u8);
  let ghost t = resp_ser(w@);
  proof { assert(o@ =~= t.subrange(0, 8)); }
  let mut i: usize = 0;
  while i < n
    invariant i <= n, n == w@.len(), t == resp_ser(w@), o@ == t.subrange(0, 8 + 4 * i),
    decreases n - i,
  {
    let b = u32_to_le_bytes(w[i]);
    o.push(b[0]); o.push(b[1]); o.push(b[2]); o.push(b[3]);
    proof {
      assert forall|k: int| 0 <= k < 4 implies t[8 + 4 * i + k] == bytes32(w@[i as int])[k] by {
        assert((8 + 4 * i + k - 8) / 4 == i && (8 + 4 * i + k - 8) % 4 == k) by (nonlinear_arith) requires 0 <= k < 4;
      }
      assert(t[8 + 4 * i] == b@[0] && t[8 + 4 * i + 1] == b@[1] && t[8 + 4 * i + 2] == b@[2] && t[8 + 4 * i + 3] == b@[3]);
      assert(o@ =~= t.subrange(0, 8 + 4 * (i + 1)));
    }
    i = i + 1;
  }
  proof { assert(t.subrange(0, 8 + 4 * n) =~= t); }
  Ok(o)
}
pub fn bincode_deserialize_words(b: &Vec<u8>) -> (r: Result<Vec<u32>, VErr>)
  ensures match r { Ok(w) => resp_de(b@) == Some(w@), Err(e) => !e.reuse && resp_de(b@) is None },
{
  let m = b.len();
  if m < 8 { return Err(VErr { reuse: false }); }
  let n: u64 = (b[0] as u64) | ((b[1] as u64) << 8) | ((b[2] as u64) << 16) | ((b[3] as u64) << 24)
  | ((b[4] as u64) << 32) | ((b[5] as u64) << 40) | ((b[6] as u64) << 48) | ((b[7] as u64) << 56);
  if n > ((m - 8) / 4) as u64 { return Err(VErr { reuse: false }); }
  let mut o: Vec<u32> = Vec::new();
  let mut i: usize = 0;
  let ghost t = resp_de(b@)->Some_0;
  while i < n as usize
    invariant i <= n as usize, n <= usize::MAX, m == b@.len(), 8 + 4 * n <= m, n == le64(b@), t == resp_de(b@)->Some_0, resp_de(b@) is Some, o@ == t.subrange(0, i as int),
    decreases n as usize - i,
  {
    let j = 8 + 4 * i;
    o.push((b[j] as u32) | ((b[j + 1] as u32) << 8) | ((b[j + 2] as u32) << 16) | ((b[j + 3] as u32) << 24));
    proof {
      let s = b@.subrange(8 + 4 * i, 12 + 4 * i);
      assert(s[0] == b@[j as int] && s[1] == b@[j + 1] && s[2] == b@[j + 2] && s[3] == b@[j + 3]);
      assert(o@ =~= t.subrange(0, i + 1));
    }
    i = i + 1;
  }
  proof { assert(o@ =~= t); }
  Ok(o)
}

// ---- random generators ---------------------------------------------------------------------
pub ghost enum Draw { Word(u32), Bytes(Seq<u8>) }
pub tracked struct DrawLog { pub ghost draws: Seq<Draw> }
#[verifier::external_body]
pub fn os_next_u32(Tracked(log): Tracked<&mut DrawLog>) -> (r: u32)
  ensures final(log).draws == old(log).draws.push(Draw::Word(r)),
{ unimplemented!() }
#[verifier::external_body]
pub fn os_fill_bytes(a: &mut [u8; 32], Tracked(log): Tracked<&mut DrawLog>)
  ensures final(log).draws == old(log).draws.push(Draw::Bytes(final(a)@)),
{ unimplemented!() }
// StdRng: the words of the stream are a function of the seed and the position
pub uninterp spec fn stream(seed: Seq<u8>, pos: nat) -> u32;
#[verifier::external_body]
pub struct StdRng { x: u8 }
impl StdRng {
  pub uninterp spec fn seed(&self) -> Seq<u8>;
  pub uninterp spec fn pos(&self) -> nat;
  #[verifier::external_body]
  pub fn from_seed(s: [u8; 32]) -> (r: StdRng) ensures r.seed() == s@, r.pos() == 0 { unimplemented!() }
  #[verifier::external_body]
  pub fn next_u32(&mut self) -> (r: u32)
    ensures final(self).seed() == old(self).seed(), final(self).pos() == old(self).pos() + 1, r == stream(old(self).seed(), old(self).pos()),
  { unimplemented!() }
}

// ---- SHA-256: a function of the input, 32 bytes long ---------------------------------------
pub uninterp spec fn sha256(input: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub struct Sha256 { x: u8 }
impl Sha256 {
  pub uninterp spec fn data(&self) -> Seq<u8>;
  #[verifier::external_body]
  pub fn new() -> (r: Sha256) ensures r.data() == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn update(&mut self, input: &[u8]) ensures final(self).data() == old(self).data() + input@ { unimplemented!() }
  #[verifier::external_body]
  pub fn finalize(self) -> (r: Vec<u8>) ensures r@ == sha256(self.data()), r@.len() == 32 { unimplemented!() }
}

} // verus!
