// The peeling argument shared by the filter constructions: all of it proved.
use vstd::prelude::*;
verus! {

// position of a hash in part b (0, 1, 2) of the table
pub type Geo = spec_fn(u64, int) -> int;

pub open spec fn in_geo(g: Geo, len: int) -> bool {
  (forall|h: u64, b: int| 0 <= b < 3 ==> 0 <= #[trigger] g(h, b) < len)
  && (forall|h: u64, b: int, c: int| 0 <= b < 3 && 0 <= c < 3 && b != c ==> #[trigger] g(h, b) != #[trigger] g(h, c))
}
pub open spec fn touch(g: Geo, h: u64, z: int) -> bool { g(h, 0) == z || g(h, 1) == z || g(h, 2) == z }
pub open spec fn kind(g: Geo, h: u64, z: int) -> u8 { if g(h, 0) == z { 0 } else if g(h, 1) == z { 1 } else { 2 } }

// number, XOR of hashes and XOR of parts of the live hashes among the first n that touch slot z
pub open spec fn cnt(g: Geo, r: Seq<u64>, al: Seq<bool>, z: int, n: int) -> int
  decreases n,
{ if n <= 0 { 0 } else { cnt(g, r, al, z, n - 1) + if al[n - 1] && touch(g, r[n - 1], z) { 1int } else { 0 } } }
pub open spec fn xh(g: Geo, r: Seq<u64>, al: Seq<bool>, z: int, n: int) -> u64
  decreases n,
{ if n <= 0 { 0 } else if al[n - 1] && touch(g, r[n - 1], z) { xh(g, r, al, z, n - 1) ^ r[n - 1] } else { xh(g, r, al, z, n - 1) } }
pub open spec fn xp(g: Geo, r: Seq<u64>, al: Seq<bool>, z: int, n: int) -> u8
  decreases n,
{ if n <= 0 { 0 } else if al[n - 1] && touch(g, r[n - 1], z) { xp(g, r, al, z, n - 1) ^ kind(g, r[n - 1], z) } else { xp(g, r, al, z, n - 1) } }
pub open spec fn nalive(al: Seq<bool>, n: int) -> int
  decreases n,
{ if n <= 0 { 0 } else { nalive(al, n - 1) + if al[n - 1] { 1int } else { 0 } } }

pub proof fn lemma_cnt_ext(g: Geo, r: Seq<u64>, al: Seq<bool>, r2: Seq<u64>, al2: Seq<bool>, z: int, n: int)
  requires forall|i: int| 0 <= i < n ==> al[i] == al2[i], forall|i: int| 0 <= i < n ==> r[i] == r2[i],
  ensures cnt(g, r, al, z, n) == cnt(g, r2, al2, z, n), xh(g, r, al, z, n) == xh(g, r2, al2, z, n), xp(g, r, al, z, n) == xp(g, r2, al2, z, n),
  decreases n,
{ if n > 0 { lemma_cnt_ext(g, r, al, r2, al2, z, n - 1); } }
pub proof fn lemma_nalive_ext(al: Seq<bool>, al2: Seq<bool>, n: int)
  requires forall|i: int| 0 <= i < n ==> al[i] == al2[i],
  ensures nalive(al, n) == nalive(al2, n),
  decreases n,
{ if n > 0 { lemma_nalive_ext(al, al2, n - 1); } }
pub proof fn lemma_nalive_bounds(al: Seq<bool>, n: int)
  requires n >= 0,
  ensures 0 <= nalive(al, n) <= n,
  decreases n,
{ if n > 0 { lemma_nalive_bounds(al, n - 1); } }
pub proof fn lemma_nalive_zero(al: Seq<bool>, n: int)
  requires nalive(al, n) <= 0, n >= 0,
  ensures forall|i: int| 0 <= i < n ==> !al[i],
  decreases n,
{ if n > 0 { lemma_nalive_bounds(al, n - 1); lemma_nalive_zero(al, n - 1); } }
pub proof fn lemma_nalive_full(al: Seq<bool>, n: int)
  requires nalive(al, n) >= n, n >= 0,
  ensures forall|i: int| 0 <= i < n ==> al[i],
  decreases n,
{ if n > 0 { lemma_nalive_bounds(al, n - 1); lemma_nalive_full(al, n - 1); } }
pub proof fn lemma_nalive_set(al: Seq<bool>, k: int, b: bool, n: int)
  requires 0 <= k < al.len(), n <= al.len(),
  ensures nalive(al.update(k, b), n) == nalive(al, n) + if k < n { (if b { 1int } else { 0 }) - (if al[k] { 1int } else { 0 }) } else { 0 },
  decreases n,
{ if n > 0 { lemma_nalive_set(al, k, b, n - 1); } }

pub proof fn lemma_xp_small(g: Geo, r: Seq<u64>, al: Seq<bool>, z: int, n: int)
  ensures xp(g, r, al, z, n) < 4,
  decreases n,
{
  if n > 0 {
    lemma_xp_small(g, r, al, z, n - 1);
    let a = xp(g, r, al, z, n - 1); let b = kind(g, r[n - 1], z);
    assert(a < 4 && b < 4 ==> (a ^ b) < 4) by (bit_vector);
  }
}
pub proof fn lemma_cnt_pos(g: Geo, r: Seq<u64>, al: Seq<bool>, z: int, n: int)
  ensures cnt(g, r, al, z, n) >= 0,
  decreases n,
{ if n > 0 { lemma_cnt_pos(g, r, al, z, n - 1); } }
pub proof fn lemma_cnt_alive(g: Geo, r: Seq<u64>, al: Seq<bool>, z: int, n: int, k: int)
  requires 0 <= k < n, al[k], touch(g, r[k], z),
  ensures cnt(g, r, al, z, n) >= 1,
  decreases n,
{ lemma_cnt_pos(g, r, al, z, n - 1); if k < n - 1 { lemma_cnt_alive(g, r, al, z, n - 1, k); } }
pub proof fn lemma_cnt_zero(g: Geo, r: Seq<u64>, al: Seq<bool>, z: int, n: int)
  requires cnt(g, r, al, z, n) == 0,
  ensures xh(g, r, al, z, n) == 0, xp(g, r, al, z, n) == 0, forall|k: int| 0 <= k < n && al[k] ==> !touch(g, #[trigger] r[k], z),
  decreases n,
{ if n > 0 { lemma_cnt_pos(g, r, al, z, n - 1); lemma_cnt_zero(g, r, al, z, n - 1); } }
// a slot with one live hash holds it
pub proof fn lemma_cnt_one(g: Geo, r: Seq<u64>, al: Seq<bool>, z: int, n: int) -> (k: int)
  requires cnt(g, r, al, z, n) == 1,
  ensures 0 <= k < n, al[k], touch(g, r[k], z), xh(g, r, al, z, n) == r[k], xp(g, r, al, z, n) == kind(g, r[k], z),
    forall|j: int| 0 <= j < n && j != k && al[j] ==> !touch(g, #[trigger] r[j], z),
  decreases n,
{
  if n <= 0 { 0 } else {
    lemma_cnt_pos(g, r, al, z, n - 1);
    let h = r[n - 1];
    if al[n - 1] && touch(g, h, z) {
      lemma_cnt_zero(g, r, al, z, n - 1);
      let d = kind(g, h, z);
      assert(0u64 ^ h == h) by (bit_vector);
      assert(0u8 ^ d == d) by (bit_vector);
      n - 1
    } else { lemma_cnt_one(g, r, al, z, n - 1) }
  }
}
pub proof fn lemma_kill(g: Geo, r: Seq<u64>, al: Seq<bool>, z: int, n: int, k: int)
  requires 0 <= k < n <= al.len(), al[k],
  ensures
    touch(g, r[k], z) ==> cnt(g, r, al.update(k, false), z, n) == cnt(g, r, al, z, n) - 1
      && xh(g, r, al.update(k, false), z, n) == xh(g, r, al, z, n) ^ r[k] && xp(g, r, al.update(k, false), z, n) == xp(g, r, al, z, n) ^ kind(g, r[k], z),
    !touch(g, r[k], z) ==> cnt(g, r, al.update(k, false), z, n) == cnt(g, r, al, z, n)
      && xh(g, r, al.update(k, false), z, n) == xh(g, r, al, z, n) && xp(g, r, al.update(k, false), z, n) == xp(g, r, al, z, n),
  decreases n,
{
  let al2 = al.update(k, false);
  let a = xh(g, r, al, z, n - 1); let c = xp(g, r, al, z, n - 1);
  let hk = r[k]; let dk = kind(g, r[k], z); let hn = r[n - 1]; let dn = kind(g, r[n - 1], z);
  if k == n - 1 {
    lemma_cnt_ext(g, r, al, r, al2, z, n - 1);
    assert((a ^ hk) ^ hk == a) by (bit_vector);
    assert((c ^ dk) ^ dk == c) by (bit_vector);
  } else {
    lemma_kill(g, r, al, z, n - 1, k);
    assert((a ^ hk) ^ hn == (a ^ hn) ^ hk) by (bit_vector);
    assert((c ^ dk) ^ dn == (c ^ dn) ^ dk) by (bit_vector);
  }
}

// ---- the packed counters: number times four, plus the XOR of the parts ----------------------
pub open spec fn enc(c: int, x: u8) -> u8 { ((c as u8) << 2) | x }
pub open spec fn wadd4(t: u8) -> u8 { ((t + 4) % 256) as u8 }
pub proof fn lemma_enc(c: int, x: u8)
  requires 0 <= c <= 63, x < 4,
  ensures enc(c, x) >> 2 == c, enc(c, x) & 3 == x, enc(c, x) == 4 * c + x,
{
  let d = c as u8;
  assert(d <= 63 && x < 4 ==> ((d << 2) | x) >> 2 == d && ((d << 2) | x) & 3 == x && ((d << 2) | x) == add(mul(4, d), x)) by (bit_vector);
}
pub proof fn lemma_enc_add(c: int, x: u8, b: u8)
  requires 0 <= c <= 63, x < 4, b < 3,
  ensures
    c <= 62 ==> wadd4(enc(c, x)) ^ b == enc(c + 1, x ^ b), c == 63 ==> (wadd4(enc(c, x)) ^ b) < 4,
    wadd4(enc(c, x)) ^ 0 == wadd4(enc(c, x)),
    wadd4(enc(c, x)) ^ b == 8 ==> c == 1, x ^ b < 4,
{
  lemma_enc(c, x);
  let d = c as u8;
  let t = enc(c, x);
  let w = wadd4(t);
  assert(w == add(t, 4)) by { assert(t > 251 ==> add(t, 4) == sub(t, 252)) by (bit_vector); if t > 251 { assert((t + 4) % 256 == t - 252); } else { assert((t + 4) % 256 == t + 4); } }
  assert(d <= 63 && x < 4 && b < 3 && t == ((d << 2) | x) ==> (d <= 62 ==> add(t, 4) ^ b == ((add(d, 1) << 2) | (x ^ b))) && (d == 63 ==> (add(t, 4) ^ b) < 4)
    && add(t, 4) ^ 0 == add(t, 4) && (add(t, 4) ^ b == 8 ==> d == 1) && (x ^ b) < 4) by (bit_vector);
}
pub proof fn lemma_enc_sub(c: int, x: u8, b: u8)
  requires 1 <= c <= 63, x < 4, b < 3,
  ensures enc(c, x) >= 4, ((enc(c, x) - 4) as u8) ^ b == enc(c - 1, x ^ b), x ^ b < 4,
{
  lemma_enc(c, x);
  let d = c as u8;
  let t = enc(c, x);
  assert((t - 4) as u8 == sub(t, 4));
  assert(1 <= d <= 63 && x < 4 && b < 3 && t == ((d << 2) | x) ==> sub(t, 4) ^ b == ((sub(d, 1) << 2) | (x ^ b)) && (x ^ b) < 4) by (bit_vector);
}

// ---- the tables -----------------------------------------------------------------------------
pub open spec fn slot(g: Geo, r: Seq<u64>, al: Seq<bool>, n: int, tc: Seq<u8>, th: Seq<u64>, taken: Set<int>, z: int) -> bool {
  if taken.contains(z) { cnt(g, r, al, z, n) == 0 && tc[z] >> 2 == 1 }
  else { cnt(g, r, al, z, n) <= 63 && tc[z] == enc(cnt(g, r, al, z, n), xp(g, r, al, z, n)) && th[z] == xh(g, r, al, z, n) }
}
pub open spec fn tables(g: Geo, r: Seq<u64>, al: Seq<bool>, n: int, tc: Seq<u8>, th: Seq<u64>, taken: Set<int>) -> bool {
  tc.len() == th.len() && forall|z: int| 0 <= z < tc.len() ==> #[trigger] slot(g, r, al, n, tc, th, taken, z)
}
pub proof fn lemma_tables_start(g: Geo, r: Seq<u64>, tc: Seq<u8>, th: Seq<u64>)
  requires tc.len() == th.len(), forall|z: int| 0 <= z < tc.len() ==> tc[z] == 0, forall|z: int| 0 <= z < th.len() ==> th[z] == 0,
  ensures tables(g, r, Seq::<bool>::empty(), 0, tc, th, Set::<int>::empty()),
{
  assert((0u8 << 2) | 0u8 == 0) by (bit_vector);
  assert forall|z: int| 0 <= z < tc.len() implies #[trigger] slot(g, r, Seq::<bool>::empty(), 0, tc, th, Set::<int>::empty(), z) by {}
}
// what adding r[i] does to the tables
pub open spec fn added(g: Geo, h: u64, tc0: Seq<u8>, th0: Seq<u64>, tc1: Seq<u8>, th1: Seq<u64>) -> bool {
  tc1.len() == tc0.len() && th1.len() == th0.len()
  && tc1[g(h, 0)] == wadd4(tc0[g(h, 0)]) && tc1[g(h, 1)] == wadd4(tc0[g(h, 1)]) ^ 1 && tc1[g(h, 2)] == wadd4(tc0[g(h, 2)]) ^ 2
  && th1[g(h, 0)] == th0[g(h, 0)] ^ h && th1[g(h, 1)] == th0[g(h, 1)] ^ h && th1[g(h, 2)] == th0[g(h, 2)] ^ h
  && (forall|z: int| 0 <= z < tc0.len() && !touch(g, h, z) ==> #[trigger] tc1[z] == tc0[z])
  && (forall|z: int| 0 <= z < th0.len() && !touch(g, h, z) ==> #[trigger] th1[z] == th0[z])
}
pub proof fn lemma_added(g: Geo, r: Seq<u64>, al: Seq<bool>, i: int, tc0: Seq<u8>, th0: Seq<u64>, tc1: Seq<u8>, th1: Seq<u64>)
  requires
    in_geo(g, tc0.len() as int), al.len() == i, 0 <= i < r.len(), tables(g, r, al, i, tc0, th0, Set::<int>::empty()), added(g, r[i], tc0, th0, tc1, th1),
    tc1[g(r[i], 0)] >= 4, tc1[g(r[i], 1)] >= 4, tc1[g(r[i], 2)] >= 4,
  ensures tables(g, r, al.push(true), i + 1, tc1, th1, Set::<int>::empty()),
{
  let h = r[i];
  let e = Set::<int>::empty();
  let al2 = al.push(true);
  assert forall|z: int| 0 <= z < tc1.len() implies #[trigger] slot(g, r, al2, i + 1, tc1, th1, e, z) by {
    assert(slot(g, r, al, i, tc0, th0, e, z));
    lemma_cnt_ext(g, r, al, r, al2, z, i);
    lemma_cnt_pos(g, r, al, z, i);
    lemma_xp_small(g, r, al, z, i);
    if touch(g, h, z) {
      lemma_enc_add(cnt(g, r, al, z, i), xp(g, r, al, z, i), kind(g, h, z));
    }
  }
}
// a live hash equal to r[k]
pub open spec fn twin(r: Seq<u64>, al: Seq<bool>, n: int, k: int) -> bool { exists|j: int| 0 <= j < n && al[j] && #[trigger] r[j] == r[k] }
pub open spec fn dup_at(tc: Seq<u8>, th: Seq<u64>, z: int) -> bool { th[z] == 0 && tc[z] == 8 }
pub proof fn lemma_dup(g: Geo, r: Seq<u64>, al: Seq<bool>, i: int, tc0: Seq<u8>, th0: Seq<u64>, tc1: Seq<u8>, th1: Seq<u64>, tc2: Seq<u8>, th2: Seq<u64>)
  requires
    in_geo(g, tc0.len() as int), al.len() == i, 0 <= i < r.len(), tables(g, r, al, i, tc0, th0, Set::<int>::empty()), added(g, r[i], tc0, th0, tc1, th1),
    dup_at(tc1, th1, g(r[i], 0)) || dup_at(tc1, th1, g(r[i], 1)) || dup_at(tc1, th1, g(r[i], 2)),
    tc2.len() == tc0.len(), th2.len() == th0.len(),
    forall|z: int| 0 <= z < tc0.len() ==> tc2[z] == tc0[z], forall|z: int| 0 <= z < th0.len() ==> th2[z] == th0[z],
  ensures tables(g, r, al.push(false), i + 1, tc2, th2, Set::<int>::empty()), twin(r, al, i, i),
{
  let h = r[i];
  let e = Set::<int>::empty();
  let al2 = al.push(false);
  assert forall|z: int| 0 <= z < tc2.len() implies #[trigger] slot(g, r, al2, i + 1, tc2, th2, e, z) by {
    assert(slot(g, r, al, i, tc0, th0, e, z));
    lemma_cnt_ext(g, r, al, r, al2, z, i);
  }
  let z = if dup_at(tc1, th1, g(h, 0)) { g(h, 0) } else if dup_at(tc1, th1, g(h, 1)) { g(h, 1) } else { g(h, 2) };
  assert(slot(g, r, al, i, tc0, th0, e, z));
  lemma_cnt_pos(g, r, al, z, i);
  lemma_xp_small(g, r, al, z, i);
  lemma_enc_add(cnt(g, r, al, z, i), xp(g, r, al, z, i), kind(g, h, z));
  let k = lemma_cnt_one(g, r, al, z, i);
  let a = r[k];
  assert(a ^ h == 0 ==> a == h) by (bit_vector);
}
pub proof fn lemma_unadd(t: u8, b: u8, x: u64, h: u64)
  ensures ((((wadd4(t) ^ b) + 256 - 4) % 256) as u8) ^ b == t || true, (x ^ h) ^ h == x,
{
  assert((x ^ h) ^ h == x) by (bit_vector);
}

// ---- peeling --------------------------------------------------------------------------------
pub open spec fn nxt(f: int, d: int) -> int { (f + d) % 3 }
// the slot idx holds one live hash and is not taken
pub proof fn lemma_found(g: Geo, r: Seq<u64>, al: Seq<bool>, tc: Seq<u8>, th: Seq<u64>, taken: Set<int>, idx: int) -> (k: int)
  requires
    in_geo(g, tc.len() as int), al.len() == r.len(), tables(g, r, al, r.len() as int, tc, th, taken), 0 <= idx < tc.len(), !taken.contains(idx), tc[idx] >> 2 == 1,
  ensures
    0 <= k < r.len(), al[k], r[k] == th[idx], (tc[idx] & 3) < 3, g(th[idx], (tc[idx] & 3) as int) == idx,
    forall|j: int| 0 <= j < r.len() && j != k && al[j] ==> !touch(g, #[trigger] r[j], idx),
    forall|z: int| #[trigger] touch(g, th[idx], z) ==> !taken.contains(z) && tc[z] >= 4 && (tc[z] >> 2) >= 1,
    nalive(al, r.len() as int) >= 1,
{
  let n = r.len() as int;
  assert(slot(g, r, al, n, tc, th, taken, idx));
  lemma_cnt_pos(g, r, al, idx, n);
  lemma_xp_small(g, r, al, idx, n);
  lemma_enc(cnt(g, r, al, idx, n), xp(g, r, al, idx, n));
  let k = lemma_cnt_one(g, r, al, idx, n);
  let h = th[idx];
  assert(0 <= g(h, 0) < tc.len() && 0 <= g(h, 1) < tc.len() && 0 <= g(h, 2) < tc.len());
  assert forall|z: int| #[trigger] touch(g, th[idx], z) implies !taken.contains(z) && tc[z] >= 4 && (tc[z] >> 2) >= 1 by {
    assert(slot(g, r, al, n, tc, th, taken, z));
    lemma_cnt_alive(g, r, al, z, n, k);
    lemma_xp_small(g, r, al, z, n);
    if !taken.contains(z) { lemma_enc(cnt(g, r, al, z, n), xp(g, r, al, z, n)); }
  }
  lemma_nalive_set(al, k, false, n);
  lemma_nalive_bounds(al.update(k, false), n);
  k
}
pub open spec fn down(g: Geo, h: u64, tc: Seq<u8>, tc1: Seq<u8>, idx: int, z: int) -> bool { z != idx && touch(g, h, z) ==> (tc1[z] >> 2) == (tc[z] >> 2) - 1 }
pub proof fn lemma_peeled(g: Geo, r: Seq<u64>, al: Seq<bool>, tc: Seq<u8>, th: Seq<u64>, tc1: Seq<u8>, th1: Seq<u64>, taken: Set<int>, idx: int, k: int)
  requires
    in_geo(g, tc.len() as int), al.len() == r.len(), tables(g, r, al, r.len() as int, tc, th, taken), 0 <= idx < tc.len(), !taken.contains(idx), tc[idx] >> 2 == 1,
    0 <= k < r.len(), al[k], r[k] == th[idx], touch(g, th[idx], idx),
    tc1.len() == tc.len(), th1.len() == th.len(),
    forall|z: int| 0 <= z < tc.len() && touch(g, th[idx], z) && z != idx ==> #[trigger] tc1[z] == ((tc[z] - 4) as u8) ^ kind(g, th[idx], z),
    forall|z: int| 0 <= z < tc.len() && touch(g, th[idx], z) && z != idx ==> #[trigger] th1[z] == th[z] ^ th[idx],
    forall|z: int| 0 <= z < tc.len() && (!touch(g, th[idx], z) || z == idx) ==> #[trigger] tc1[z] == tc[z],
    forall|z: int| 0 <= z < tc.len() && (!touch(g, th[idx], z) || z == idx) ==> #[trigger] th1[z] == th[z],
  ensures
    tables(g, r, al.update(k, false), r.len() as int, tc1, th1, taken.insert(idx)),
    nalive(al.update(k, false), r.len() as int) == nalive(al, r.len() as int) - 1,
    forall|z: int| 0 <= z < tc.len() ==> #[trigger] down(g, th[idx], tc, tc1, idx, z),
{
  let n = r.len() as int;
  let h = th[idx];
  let al1 = al.update(k, false);
  let tk = taken.insert(idx);
  lemma_nalive_set(al, k, false, n);
  assert(slot(g, r, al, n, tc, th, taken, idx));
  assert forall|z: int| 0 <= z < tc1.len() implies #[trigger] slot(g, r, al1, n, tc1, th1, tk, z) && down(g, h, tc, tc1, idx, z) by {
    assert(slot(g, r, al, n, tc, th, taken, z));
    lemma_kill(g, r, al, z, n, k);
    lemma_cnt_pos(g, r, al, z, n);
    lemma_xp_small(g, r, al, z, n);
    if z == idx {
      lemma_enc(cnt(g, r, al, z, n), xp(g, r, al, z, n));
    } else if touch(g, h, z) {
      lemma_cnt_alive(g, r, al, z, n, k);
      if !taken.contains(z) {
        let c = cnt(g, r, al, z, n); let x = xp(g, r, al, z, n);
        lemma_enc_sub(c, x, kind(g, h, z));
        lemma_enc(c, x);
        lemma_enc(c - 1, x ^ kind(g, h, z));
      }
    }
  }
  assert forall|z: int| 0 <= z < tc.len() implies #[trigger] down(g, th[idx], tc, tc1, idx, z) by { assert(slot(g, r, al1, n, tc1, th1, tk, z)); }
}

// the queue: distinct slots, none taken, none with two or more live hashes
pub open spec fn queue_ok(al: Seq<u32>, q: int, tc: Seq<u8>, taken: Set<int>) -> bool {
  0 <= q <= al.len()
  && (forall|a: int| 0 <= a < q ==> (#[trigger] al[a]) < tc.len() && tc[al[a] as int] >> 2 <= 1 && !taken.contains(al[a] as int))
  && (forall|a: int, b: int| 0 <= a < b < q ==> #[trigger] al[a] != #[trigger] al[b])
}
// distinct numbers below n that leave one out are fewer than n
pub proof fn lemma_room(al: Seq<u32>, q: int, n: int, idx: int)
  requires 0 <= q <= al.len(), 0 <= idx < n, forall|a: int| 0 <= a < q ==> (#[trigger] al[a]) < n && al[a] != idx,
    forall|a: int, b: int| 0 <= a < b < q ==> #[trigger] al[a] != #[trigger] al[b],
  ensures q <= n - 1,
{
  let s = Seq::new(q as nat, |a: int| al[a] as int);
  assert(s.no_duplicates());
  s.unique_seq_to_set();
  let u = Set::<int>::range(0, n);
  vstd::set_lib::range_set_properties::<int>(0, n);
  assert(s.to_set().subset_of(u.remove(idx))) by {
    assert forall|x: int| s.to_set().contains(x) implies u.remove(idx).contains(x) by {
      let a = choose|a: int| 0 <= a < s.len() && s[a] == x;
      assert(s[a] == al[a] as int);
    }
  }
  vstd::set_lib::lemma_len_subset(s.to_set(), u.remove(idx));
}

// the stack: every entry's own slot is taken and touched by no later entry
pub open spec fn stack_ok(g: Geo, ro: Seq<u64>, rh: Seq<u8>, ss: int, taken: Set<int>) -> bool {
  (forall|s: int| 0 <= s < ss ==> (#[trigger] rh[s]) < 3 && taken.contains(g(ro[s], rh[s] as int)))
  && (forall|s: int, t: int| 0 <= s < t < ss ==> !touch(g, #[trigger] ro[t], g(ro[s], #[trigger] rh[s] as int)))
}
pub open spec fn stacked(ro: Seq<u64>, ss: int, h: u64) -> bool { exists|s: int| 0 <= s < ss && #[trigger] ro[s] == h }
pub open spec fn covered(r: Seq<u64>, al: Seq<bool>, ro: Seq<u64>, ss: int) -> bool {
  forall|k: int| 0 <= k < r.len() ==> stacked(ro, ss, #[trigger] r[k]) || twin(r, al, r.len() as int, k)
}
pub open spec fn from_r(r: Seq<u64>, ro: Seq<u64>, ss: int) -> bool { forall|s: int| 0 <= s < ss ==> r.contains(#[trigger] ro[s]) }
pub proof fn lemma_push_stack(g: Geo, r: Seq<u64>, al: Seq<bool>, tc: Seq<u8>, th: Seq<u64>, taken: Set<int>, idx: int, k: int, ro: Seq<u64>, rh: Seq<u8>, ss: int, ro1: Seq<u64>, rh1: Seq<u8>)
  requires
    tables(g, r, al, r.len() as int, tc, th, taken), in_geo(g, tc.len() as int), al.len() == r.len(),
    0 <= k < r.len(), al[k], r[k] == th[idx], 0 <= ss < ro.len(), ss < rh.len(), ro1 == ro.update(ss, th[idx]), rh1 == rh.update(ss, tc[idx] & 3),
    (tc[idx] & 3) < 3, g(th[idx], (tc[idx] & 3) as int) == idx,
    stack_ok(g, ro, rh, ss, taken), covered(r, al, ro, ss), from_r(r, ro, ss),
  ensures stack_ok(g, ro1, rh1, ss + 1, taken.insert(idx)), covered(r, al.update(k, false), ro1, ss + 1), from_r(r, ro1, ss + 1),
{
  let n = r.len() as int;
  let al1 = al.update(k, false);
  assert forall|s: int, t: int| 0 <= s < t < ss + 1 implies !touch(g, #[trigger] ro1[t], g(ro1[s], #[trigger] rh1[s] as int)) by {
    let z = g(ro[s], rh[s] as int);
    assert(rh1[s] == rh[s] && ro1[s] == ro[s]);
    if t == ss {
      assert(taken.contains(z));
      assert(0 <= z < tc.len());
      assert(slot(g, r, al, n, tc, th, taken, z));
      lemma_cnt_zero(g, r, al, z, n);
      assert(!touch(g, r[k], z));
    } else { assert(ro1[t] == ro[t]); }
  }
  assert forall|s: int| 0 <= s < ss + 1 implies (#[trigger] rh1[s]) < 3 && taken.insert(idx).contains(g(ro1[s], rh1[s] as int)) by {
    if s < ss { assert(rh1[s] == rh[s] && ro1[s] == ro[s]); }
  }
  assert forall|j: int| 0 <= j < n implies stacked(ro1, ss + 1, #[trigger] r[j]) || twin(r, al1, n, j) by {
    if stacked(ro, ss, r[j]) {
      let s = choose|s: int| 0 <= s < ss && #[trigger] ro[s] == r[j];
      assert(ro1[s] == r[j]);
    } else {
      let t = choose|t: int| 0 <= t < n && al[t] && #[trigger] r[t] == r[j];
      if t == k { assert(ro1[ss] == r[j]); } else { assert(al1[t] && r[t] == r[j]); }
    }
  }
  assert forall|s: int| 0 <= s < ss + 1 implies r.contains(#[trigger] ro1[s]) by {
    if s < ss { assert(ro1[s] == ro[s]); } else { assert(r[k] == ro1[s]); }
  }
}
pub proof fn lemma_all_stacked(r: Seq<u64>, al: Seq<bool>, ro: Seq<u64>, ss: int)
  requires covered(r, al, ro, ss), nalive(al, r.len() as int) <= 0,
  ensures forall|k: int| 0 <= k < r.len() ==> stacked(ro, ss, #[trigger] r[k]),
{
  lemma_nalive_zero(al, r.len() as int);
}
// at the start of peeling every hash is live or has a live twin
pub proof fn lemma_cover_start(r: Seq<u64>, al: Seq<bool>, ro: Seq<u64>)
  requires al.len() == r.len(), forall|k: int| 0 <= k < r.len() && !(#[trigger] al[k]) ==> twin(r, al, r.len() as int, k),
  ensures covered(r, al, ro, 0), from_r(r, ro, 0),
{
  assert forall|k: int| 0 <= k < r.len() implies stacked(ro, 0, #[trigger] r[k]) || twin(r, al, r.len() as int, k) by {
    if al[k] { assert(r[k] == r[k]); }
  }
}
pub proof fn lemma_twin_push(r: Seq<u64>, al: Seq<bool>, i: int, b: bool)
  requires al.len() == i, 0 <= i < r.len(), forall|k: int| 0 <= k < i && !(#[trigger] al[k]) ==> twin(r, al, i, k), b || twin(r, al, i, i),
  ensures forall|k: int| 0 <= k < i + 1 && !(#[trigger] al.push(b)[k]) ==> twin(r, al.push(b), i + 1, k), nalive(al.push(b), i + 1) == nalive(al, i) + if b { 1int } else { 0 },
{
  let al1 = al.push(b);
  lemma_nalive_ext(al, al1, i);
  assert forall|k: int| 0 <= k < i + 1 && !(#[trigger] al1[k]) implies twin(r, al1, i + 1, k) by {
    let kk = k;
    assert(twin(r, al, i, k));
    let j = choose|j: int| 0 <= j < i && al[j] && #[trigger] r[j] == r[k];
    assert(al1[j] && r[j] == r[k]);
  }
}

// ---- filling: hashes are spread over buckets, each bucket's pointer moves up --------------------
pub open spec fn nz(ro: Seq<u64>, n: int) -> int
  decreases n,
{ if n <= 0 { 0 } else { nz(ro, n - 1) + if ro[n - 1] != 0 { 1int } else { 0 } } }
pub proof fn lemma_nz_set(ro: Seq<u64>, z: int, h: u64, n: int)
  requires 0 <= z < ro.len(), n <= ro.len(), ro[z] == 0,
  ensures nz(ro.update(z, h), n) == nz(ro, n) + if z < n && h != 0 { 1int } else { 0 },
  decreases n,
{ if n > 0 { lemma_nz_set(ro, z, h, n - 1); } }
pub proof fn lemma_nz_bounds(ro: Seq<u64>, n: int)
  requires n >= 0,
  ensures 0 <= nz(ro, n) <= n,
  decreases n,
{ if n > 0 { lemma_nz_bounds(ro, n - 1); } }
pub proof fn lemma_nz_full(ro: Seq<u64>, n: int)
  requires nz(ro, n) >= n, n >= 0,
  ensures forall|z: int| 0 <= z < n ==> ro[z] != 0,
  decreases n,
{ if n > 0 { lemma_nz_bounds(ro, n - 1); lemma_nz_full(ro, n - 1); } }
pub proof fn lemma_nz_gap(ro: Seq<u64>, n: int) -> (z: int)
  requires nz(ro, n) < n, n >= 0,
  ensures 0 <= z < n, ro[z] == 0,
  decreases n,
{ if n <= 0 { 0 } else if ro[n - 1] == 0 { n - 1 } else { lemma_nz_gap(ro, n - 1) } }
pub proof fn lemma_nz_zero(ro: Seq<u64>, n: int)
  requires forall|z: int| 0 <= z < n ==> ro[z] == 0,
  ensures nz(ro, n) == 0,
  decreases n,
{ if n > 0 { lemma_nz_zero(ro, n - 1); } }

pub open spec fn frontier(filled: Seq<bool>, z: int) -> bool { !filled[z] && (z == 0 || filled[z - 1]) }
pub open spec fn pointed(sp: Seq<usize>, z: int) -> bool { exists|s: int| 0 <= s < sp.len() && (#[trigger] sp[s]) as int == z }
pub open spec fn among(hs: Seq<u64>, i: int, h: u64) -> bool { exists|j: int| 0 <= j < i && #[trigger] hs[j] == h }
pub open spec fn at_some(ro: Seq<u64>, n: int, h: u64) -> bool { exists|z: int| 0 <= z < n && #[trigger] ro[z] == h }
pub open spec fn fill_ok(hs: Seq<u64>, i: int, ro: Seq<u64>, sp: Seq<usize>, filled: Seq<bool>, zc: int) -> bool {
  let n = filled.len() as int;
  ro.len() == n + 1 && ro[n] == 1 && hs.len() == n && 0 <= i <= n
  && (forall|s: int| 0 <= s < sp.len() ==> (#[trigger] sp[s]) <= n)
  && (forall|z: int| 0 <= z < n && !filled[z] ==> (#[trigger] ro[z]) == 0)
  && (forall|z: int| 0 <= z < n && #[trigger] frontier(filled, z) ==> pointed(sp, z))
  && nalive(filled, n) <= i
  && nz(ro, n) == i - zc && zc >= 0 && (zc > 0 <==> among(hs, i, 0))
  && (forall|j: int| 0 <= j < i && hs[j] != 0 ==> at_some(ro, n, #[trigger] hs[j]))
  && (forall|z: int| 0 <= z < n && ro[z] != 0 ==> among(hs, i, #[trigger] ro[z]))
}
pub proof fn lemma_fill_start(hs: Seq<u64>, ro: Seq<u64>, sp: Seq<usize>, n: int)
  requires hs.len() == n, ro.len() == n + 1, ro[n] == 1, forall|z: int| 0 <= z < n ==> ro[z] == 0, forall|s: int| 0 <= s < sp.len() ==> (#[trigger] sp[s]) <= n,
    sp.len() >= 1, sp[0] == 0,
  ensures fill_ok(hs, 0, ro, sp, Seq::new(n as nat, |z: int| false), 0),
{
  let f = Seq::new(n as nat, |z: int| false);
  lemma_nz_zero(ro, n);
  assert(nalive(f, n) == 0) by { lemma_nalive_false(f, n); }
  assert forall|z: int| 0 <= z < n && #[trigger] frontier(f, z) implies pointed(sp, z) by { assert(sp[0] as int == z); }
}
pub proof fn lemma_nalive_false(f: Seq<bool>, n: int)
  requires forall|z: int| 0 <= z < n ==> !f[z],
  ensures nalive(f, n) == 0,
  decreases n,
{ if n > 0 { lemma_nalive_false(f, n - 1); } }
pub proof fn lemma_first_gap(f: Seq<bool>, n: int) -> (z: int)
  requires 0 <= n <= f.len(), nalive(f, n) < n,
  ensures 0 <= z < n, frontier(f, z),
  decreases n,
{
  if n <= 0 { 0 } else if nalive(f, n - 1) < n - 1 { lemma_first_gap(f, n - 1) } else { lemma_nalive_bounds(f, n - 1); lemma_nalive_full(f, n - 1); n - 1 }
}
// while hashes are missing, some pointer stands at a free cell
pub proof fn lemma_fill_free(hs: Seq<u64>, i: int, ro: Seq<u64>, sp: Seq<usize>, filled: Seq<bool>, zc: int) -> (s: int)
  requires fill_ok(hs, i, ro, sp, filled, zc), i < filled.len(),
  ensures 0 <= s < sp.len(), sp[s] < filled.len(), ro[sp[s] as int] == 0,
{
  let z = lemma_first_gap(filled, filled.len() as int);
  let s = choose|s: int| 0 <= s < sp.len() && (#[trigger] sp[s]) as int == z;
  s
}
pub proof fn lemma_fill_step(hs: Seq<u64>, i: int, ro: Seq<u64>, sp: Seq<usize>, filled: Seq<bool>, zc: int, s: int, ro1: Seq<u64>, sp1: Seq<usize>)
  requires fill_ok(hs, i, ro, sp, filled, zc), i < filled.len() < 0x1000_0000, 0 <= s < sp.len(), ro[sp[s] as int] == 0,
    ro1 == ro.update(sp[s] as int, hs[i]), sp1 == sp.update(s, (sp[s] + 1) as usize),
  ensures sp[s] < filled.len(), fill_ok(hs, i + 1, ro1, sp1, filled.update(sp[s] as int, true), zc + if hs[i] == 0 { 1int } else { 0 }),
{
  let n = filled.len() as int;
  let w = sp[s] as int;
  let f1 = filled.update(w, true);
  let h = hs[i];
  let zc1 = zc + if h == 0 { 1int } else { 0 };
  assert(w != n);
  lemma_nalive_set(filled, w, true, n);
  lemma_nz_set(ro, w, h, n);
  assert forall|t: int| 0 <= t < sp1.len() implies (#[trigger] sp1[t]) <= n by { if t != s { assert(sp1[t] == sp[t]); } }
  assert forall|z: int| 0 <= z < n && !f1[z] implies (#[trigger] ro1[z]) == 0 by { assert(ro1[z] == ro[z]); }
  assert forall|z: int| 0 <= z < n && #[trigger] frontier(f1, z) implies pointed(sp1, z) by {
    if z == w + 1 { assert(sp1[s] as int == z); } else {
      assert(frontier(filled, z));
      let t = choose|t: int| 0 <= t < sp.len() && (#[trigger] sp[t]) as int == z;
      assert(t != s);
      assert(sp1[t] as int == z);
    }
  }
  assert forall|x: u64| #[trigger] among(hs, i, x) implies among(hs, i + 1, x) by {
    let j = choose|j: int| 0 <= j < i && #[trigger] hs[j] == x;
    assert(hs[j] == x && j < i + 1);
  }
  assert(among(hs, i + 1, h)) by { assert(hs[i] == h); }
  if among(hs, i + 1, 0) && h != 0 {
    let j = choose|j: int| 0 <= j < i + 1 && #[trigger] hs[j] == 0;
    assert(hs[j] == 0 && j < i);
    assert(among(hs, i, 0));
  }
  assert forall|j: int| 0 <= j < i + 1 && hs[j] != 0 implies at_some(ro1, n, #[trigger] hs[j]) by {
    if j == i { assert(ro1[w] == hs[j]); } else {
      let z = choose|z: int| 0 <= z < n && #[trigger] ro[z] == hs[j];
      assert(z != w);
      assert(ro1[z] == hs[j]);
    }
  }
  assert forall|z: int| 0 <= z < n && ro1[z] != 0 implies among(hs, i + 1, #[trigger] ro1[z]) by {
    if z != w { assert(ro1[z] == ro[z]); assert(among(hs, i, ro[z])); }
  }
}
pub open spec fn same_hashes(hs: Seq<u64>, r: Seq<u64>) -> bool {
  r.len() == hs.len() && (forall|j: int| 0 <= j < hs.len() ==> r.contains(#[trigger] hs[j])) && (forall|z: int| 0 <= z < r.len() ==> hs.contains(#[trigger] r[z]))
}
pub proof fn lemma_fill_done(hs: Seq<u64>, ro: Seq<u64>, sp: Seq<usize>, filled: Seq<bool>, zc: int)
  requires fill_ok(hs, filled.len() as int, ro, sp, filled, zc),
  ensures same_hashes(hs, ro.subrange(0, filled.len() as int)),
{
  let n = filled.len() as int;
  let r = ro.subrange(0, n);
  assert forall|j: int| 0 <= j < n implies r.contains(#[trigger] hs[j]) by {
    if hs[j] == 0 {
      assert(among(hs, n, 0));
      let z = lemma_nz_gap(ro, n);
      assert(r[z] == hs[j]);
    } else {
      let z = choose|z: int| 0 <= z < n && #[trigger] ro[z] == hs[j];
      assert(r[z] == hs[j]);
    }
  }
  assert forall|z: int| 0 <= z < n implies hs.contains(#[trigger] r[z]) by {
    assert(r[z] == ro[z]);
    if ro[z] == 0 {
      if zc <= 0 { lemma_nz_full(ro, n); }
      let j = choose|j: int| 0 <= j < n && #[trigger] hs[j] == 0u64;
      assert(hs[j] == r[z]);
    } else {
      assert(among(hs, n, ro[z]));
      let j = choose|j: int| 0 <= j < n && #[trigger] hs[j] == ro[z];
      assert(hs[j] == r[z]);
    }
  }
}
// bucket arithmetic
pub proof fn lemma_bucket(h: u64, bb: i32)
  requires 1 <= bb < 32,
  ensures (h >> ((64 - bb) as u64)) < (1u64 << (bb as u64)),
{
  let b = bb as u64;
  assert(1 <= b < 32 ==> (h >> (sub(64, b))) < (1u64 << b)) by (bit_vector);
  assert(sub(64, b) == (64 - bb) as u64);
}
pub proof fn lemma_wrap(x: u64, bb: u64)
  requires 1 <= bb < 32, x <= (1u64 << bb),
  ensures x & sub(1u64 << bb, 1) == if x == (1u64 << bb) { 0 } else { x },
{
  assert(1 <= bb < 32 && x <= (1u64 << bb) ==> x & sub(1u64 << bb, 1) == if x == (1u64 << bb) { 0 } else { x }) by (bit_vector);
}

// ---- the map from hashes to values -------------------------------------------------------------
pub open spec fn hset(hs: Seq<u64>, n: int) -> Set<u64>
  decreases n,
{ if n <= 0 { Set::<u64>::empty() } else { hset(hs, n - 1).insert(hs[n - 1]) } }
pub proof fn lemma_hset_in(hs: Seq<u64>, n: int, h: u64)
  requires 0 <= n <= hs.len(),
  ensures hset(hs, n).contains(h) <==> among(hs, n, h),
  decreases n,
{
  if n > 0 {
    lemma_hset_in(hs, n - 1, h);
    if among(hs, n - 1, h) {
      let j = choose|j: int| 0 <= j < n - 1 && #[trigger] hs[j] == h;
      assert(hs[j] == h && j < n);
    }
    if h == hs[n - 1] { assert(hs[n - 1] == h); }
  }
}
pub proof fn lemma_hset_len(hs: Seq<u64>, n: int)
  requires 0 <= n <= hs.len(),
  ensures hset(hs, n).len() <= n, hset(hs, n).len() >= n ==> forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] hs[i] != #[trigger] hs[j],
  decreases n,
{
  if n > 0 {
    lemma_hset_len(hs, n - 1);
    lemma_hset_in(hs, n - 1, hs[n - 1]);
    if hset(hs, n).len() >= n {
      assert(!hset(hs, n - 1).contains(hs[n - 1]));
      assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] hs[i] != #[trigger] hs[j] by {
        if j == n - 1 { if hs[i] == hs[j] { assert(among(hs, n - 1, hs[n - 1])); } }
      }
    }
  } 
}
pub open spec fn mvals<V>(m: Map<u64, V>, hs: Seq<u64>, data: Seq<V>, n: int) -> bool {
  (forall|j: int| 0 <= j < n ==> m.contains_key(#[trigger] hs[j]))
  && (forall|h: u64| #[trigger] m.contains_key(h) ==> exists|j: int| 0 <= j < hs.len() && #[trigger] hs[j] == h && m[h] == data[j])
}
pub proof fn lemma_mvals_step<V>(m: Map<u64, V>, hs: Seq<u64>, data: Seq<V>, i: int, m1: Map<u64, V>)
  requires mvals(m, hs, data, i), 0 <= i < hs.len(), hs.len() == data.len(), m1 == m.insert(hs[i], data[i]),
  ensures mvals(m1, hs, data, i + 1),
{
  assert forall|h: u64| #[trigger] m1.contains_key(h) implies exists|j: int| 0 <= j < hs.len() && #[trigger] hs[j] == h && m1[h] == data[j] by {
    if h == hs[i] { assert(hs[i] == h && m1[h] == data[i]); } else {
      assert(m.contains_key(h));
      let j = choose|j: int| 0 <= j < hs.len() && #[trigger] hs[j] == h && m[h] == data[j];
      assert(hs[j] == h && m1[h] == data[j]);
    }
  }
}
pub proof fn lemma_mvals_distinct<V>(m: Map<u64, V>, hs: Seq<u64>, data: Seq<V>)
  requires mvals(m, hs, data, hs.len() as int), hs.len() == data.len(), m.dom().len() == hs.len(),
  ensures forall|i: int, j: int| 0 <= i < j < hs.len() ==> #[trigger] hs[i] != #[trigger] hs[j], forall|j: int| 0 <= j < hs.len() ==> m.contains_key(#[trigger] hs[j]) && m[hs[j]] == data[j],
{
  let n = hs.len() as int;
  assert(m.dom() =~= hset(hs, n)) by {
    assert forall|h: u64| m.dom().contains(h) <==> hset(hs, n).contains(h) by {
      lemma_hset_in(hs, n, h);
      if m.contains_key(h) { let j = choose|j: int| 0 <= j < hs.len() && #[trigger] hs[j] == h && m[h] == data[j]; assert(hs[j] == h); }
      if among(hs, n, h) { let j = choose|j: int| 0 <= j < n && #[trigger] hs[j] == h; assert(m.contains_key(hs[j])); }
    }
  }
  lemma_hset_len(hs, n);
  assert forall|j: int| 0 <= j < hs.len() implies m.contains_key(#[trigger] hs[j]) && m[hs[j]] == data[j] by {
    let k = choose|k: int| 0 <= k < hs.len() && #[trigger] hs[k] == hs[j] && m[hs[j]] == data[k];
    if k < j { assert(hs[k] != hs[j]); } else if j < k { assert(hs[j] != hs[k]); }
  }
}

// ---- the finished order ------------------------------------------------------------------------
pub open spec fn done_ok(g: Geo, hs: Seq<u64>, ro: Seq<u64>, rh: Seq<u8>, ss: int) -> bool {
  0 <= ss <= rh.len() && ss <= ro.len()
  && (forall|s: int| 0 <= s < ss ==> (#[trigger] rh[s]) < 3)
  && (forall|s: int, t: int| 0 <= s < t < ss ==> !touch(g, #[trigger] ro[t], g(ro[s], #[trigger] rh[s] as int)))
  && (forall|j: int| 0 <= j < hs.len() ==> stacked(ro, ss, #[trigger] hs[j]))
  && (forall|s: int| 0 <= s < ss ==> hs.contains(#[trigger] ro[s]))
}
pub proof fn lemma_done(g: Geo, hs: Seq<u64>, r: Seq<u64>, al: Seq<bool>, ro: Seq<u64>, rh: Seq<u8>, ss: int, taken: Set<int>)
  requires same_hashes(hs, r), al.len() == r.len(), stack_ok(g, ro, rh, ss, taken), covered(r, al, ro, ss), from_r(r, ro, ss), nalive(al, r.len() as int) <= 0,
    0 <= ss <= rh.len(), ss <= ro.len(),
  ensures done_ok(g, hs, ro, rh, ss),
{
  lemma_all_stacked(r, al, ro, ss);
  assert forall|j: int| 0 <= j < hs.len() implies stacked(ro, ss, #[trigger] hs[j]) by {
    assert(r.contains(hs[j]));
    let k = choose|k: int| 0 <= k < r.len() && r[k] == hs[j];
    assert(stacked(ro, ss, r[k]));
  }
  assert forall|s: int| 0 <= s < ss implies hs.contains(#[trigger] ro[s]) by {
    assert(r.contains(ro[s]));
    let k = choose|k: int| 0 <= k < r.len() && r[k] == ro[s];
    assert(hs.contains(r[k]));
  }
}
// one popped slot, up to two pushed
pub proof fn lemma_queue(tc0: Seq<u8>, tc1: Seq<u8>, taken: Set<int>, idx: int, q0: int, q1: int, a0: Seq<u32>, a1: Seq<u32>, g: Geo, h: u64)
  requires
    1 <= q0 <= a0.len(), a1.len() == a0.len(), q0 - 1 <= q1 <= a1.len(), a0[q0 - 1] == idx, queue_ok(a0, q0, tc0, taken), tc1.len() == tc0.len(),
    forall|a: int| 0 <= a < q0 - 1 ==> a1[a] == #[trigger] a0[a],
    forall|a: int| q0 - 1 <= a < q1 ==> (#[trigger] a1[a]) < tc0.len() && tc0[a1[a] as int] >> 2 == 2 && tc1[a1[a] as int] >> 2 == 1 && !taken.contains(a1[a] as int) && a1[a] != idx,
    forall|a: int, b: int| q0 - 1 <= a < b < q1 ==> #[trigger] a1[a] != #[trigger] a1[b],
    forall|z: int| 0 <= z < tc0.len() ==> #[trigger] down(g, h, tc0, tc1, idx, z),
    forall|z: int| 0 <= z < tc0.len() && (!touch(g, h, z) || z == idx) ==> #[trigger] tc1[z] == tc0[z],
  ensures queue_ok(a1, q1, tc1, taken.insert(idx)),
{
  assert forall|a: int| 0 <= a < q1 implies (#[trigger] a1[a]) < tc1.len() && tc1[a1[a] as int] >> 2 <= 1 && !taken.insert(idx).contains(a1[a] as int) by {
    if a < q0 - 1 {
      assert(a1[a] == a0[a]);
      assert(a0[a] != a0[q0 - 1]);
      let z = a0[a] as int;
      assert(down(g, h, tc0, tc1, idx, z));
      assert(tc1[z] == tc1[z]);
    }
  }
  assert forall|a: int, b: int| 0 <= a < b < q1 implies #[trigger] a1[a] != #[trigger] a1[b] by {
    if b < q0 - 1 { assert(a0[a] != a0[b]); assert(a1[a] == a0[a] && a1[b] == a0[b]); }
    else if a < q0 - 1 { assert(a1[a] == a0[a]); assert(tc0[a0[a] as int] >> 2 <= 1); }
  }
}
// removing what was just added
pub proof fn lemma_untag(t: u8, b: u8)
  requires b < 4,
  ensures (((wadd4(t) ^ b) + 252) % 256) as u8 ^ b == t, wadd4(t) == add(t, 4), (((wadd4(t) ^ b) + 252) % 256) as u8 == sub(wadd4(t) ^ b, 4), t ^ 0 == t,
{
  let w = wadd4(t);
  assert(w == add(t, 4)) by { assert(t > 251 ==> add(t, 4) == sub(t, 252)) by (bit_vector); if t > 251 { assert((t + 4) % 256 == t - 252); } else { assert((t + 4) % 256 == t + 4); } }
  let x = w ^ b;
  let y = ((x + 252) % 256) as u8;
  assert(y == sub(x, 4)) by { assert(x < 4 ==> sub(x, 4) == add(x, 252)) by (bit_vector); if x < 4 { assert((x + 252) % 256 == x + 252); } else { assert((x + 252) % 256 == x - 4); } }
  assert(b < 4 && x == (add(t, 4) ^ b) ==> sub(x, 4) ^ b == t) by (bit_vector);
  assert(t ^ 0 == t) by (bit_vector);
}

// ---- small steps used inside the loops ----------------------------------------------------------
pub open spec fn zeros8(s: Seq<u8>, n: int) -> bool { forall|z: int| 0 <= z < n ==> (#[trigger] s[z]) == 0 }
pub open spec fn zeros64(s: Seq<u64>, n: int) -> bool { forall|z: int| 0 <= z < n ==> (#[trigger] s[z]) == 0 }
pub open spec fn distinct(hs: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < hs.len() ==> #[trigger] hs[i] != #[trigger] hs[j] }
pub open spec fn has_values<V>(m: Map<u64, V>, hs: Seq<u64>, data: Seq<V>) -> bool { forall|j: int| 0 <= j < hs.len() ==> m.contains_key(#[trigger] hs[j]) && m[hs[j]] == data[j] }
pub proof fn lemma_h012(g: Geo, h: u64, len: int)
  requires in_geo(g, len),
  ensures 0 <= g(h, 0) < len, 0 <= g(h, 1) < len, 0 <= g(h, 2) < len, g(h, 0) != g(h, 1), g(h, 0) != g(h, 2), g(h, 1) != g(h, 2),
{ }
pub proof fn lemma_xor3(x: u64, h: u64)
  ensures (x ^ h) ^ h == x,
{ assert((x ^ h) ^ h == x) by (bit_vector); }
pub proof fn lemma_dup_back(g: Geo, r: Seq<u64>, al: Seq<bool>, i: int, tc0: Seq<u8>, th0: Seq<u64>, tc2: Seq<u8>, th2: Seq<u64>)
  requires
    in_geo(g, tc0.len() as int), al.len() == i, 0 <= i < r.len(), tables(g, r, al, i, tc0, th0, Set::<int>::empty()), th0.len() == tc0.len(),
    (th0[g(r[i], 0)] ^ r[i] == 0 && wadd4(tc0[g(r[i], 0)]) == 8) || (th0[g(r[i], 1)] ^ r[i] == 0 && wadd4(tc0[g(r[i], 1)]) ^ 1 == 8) || (th0[g(r[i], 2)] ^ r[i] == 0 && wadd4(tc0[g(r[i], 2)]) ^ 2 == 8),
    tc2 =~= tc0, th2 =~= th0,
  ensures tables(g, r, al.push(false), i + 1, tc2, th2, Set::<int>::empty()), twin(r, al, i, i),
{
  let h = r[i];
  lemma_h012(g, h, tc0.len() as int);
  let tc1 = tc0.update(g(h, 0), wadd4(tc0[g(h, 0)])).update(g(h, 1), wadd4(tc0[g(h, 1)]) ^ 1).update(g(h, 2), wadd4(tc0[g(h, 2)]) ^ 2);
  let th1 = th0.update(g(h, 0), th0[g(h, 0)] ^ h).update(g(h, 1), th0[g(h, 1)] ^ h).update(g(h, 2), th0[g(h, 2)] ^ h);
  lemma_dup(g, r, al, i, tc0, th0, tc1, th1, tc2, th2);
}
// the two other slots of the popped hash
pub proof fn lemma_peel_step(g: Geo, h: u64, f: int, tc0: Seq<u8>, th0: Seq<u64>, tc1: Seq<u8>, th1: Seq<u64>, idx: int, o1: int, o2: int)
  requires
    in_geo(g, tc0.len() as int), tc0.len() == th0.len(), 0 <= f < 3, idx == g(h, f), o1 == g(h, nxt(f, 1)), o2 == g(h, nxt(f, 2)),
    tc1 =~= tc0.update(o1, ((tc0[o1] - 4) as u8) ^ (nxt(f, 1) as u8)).update(o2, ((tc0[o2] - 4) as u8) ^ (nxt(f, 2) as u8)),
    th1 =~= th0.update(o1, th0[o1] ^ h).update(o2, th0[o2] ^ h),
  ensures
    tc1.len() == tc0.len(), th1.len() == th0.len(), touch(g, h, idx), o1 != o2, o1 != idx, o2 != idx,
    forall|z: int| 0 <= z < tc0.len() && touch(g, h, z) && z != idx ==> #[trigger] tc1[z] == ((tc0[z] - 4) as u8) ^ kind(g, h, z),
    forall|z: int| 0 <= z < tc0.len() && touch(g, h, z) && z != idx ==> #[trigger] th1[z] == th0[z] ^ h,
    forall|z: int| 0 <= z < tc0.len() && (!touch(g, h, z) || z == idx) ==> #[trigger] tc1[z] == tc0[z],
    forall|z: int| 0 <= z < tc0.len() && (!touch(g, h, z) || z == idx) ==> #[trigger] th1[z] == th0[z],
{
  lemma_h012(g, h, tc0.len() as int);
  if f == 0 { assert(nxt(f, 1) == 1 && nxt(f, 2) == 2); } else if f == 1 { assert(nxt(f, 1) == 2 && nxt(f, 2) == 0); } else { assert(nxt(f, 1) == 0 && nxt(f, 2) == 1); }
}

// ---- tables of counts and masks -------------------------------------------------------------------
pub open spec fn slot2(g: Geo, r: Seq<u64>, al: Seq<bool>, n: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, z: int) -> bool {
  if taken.contains(z) { cnt(g, r, al, z, n) == 0 } else { c[z] == cnt(g, r, al, z, n) && m[z] == xh(g, r, al, z, n) }
}
pub open spec fn tables2(g: Geo, r: Seq<u64>, al: Seq<bool>, n: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>) -> bool {
  c.len() == m.len() && forall|z: int| 0 <= z < c.len() ==> #[trigger] slot2(g, r, al, n, c, m, taken, z)
}
pub open spec fn zeros32(s: Seq<u32>) -> bool { forall|z: int| 0 <= z < s.len() ==> (#[trigger] s[z]) == 0 }
pub open spec fn yes(n: int) -> Seq<bool> { Seq::new(n as nat, |i: int| true) }
pub proof fn lemma_tables2_start(g: Geo, r: Seq<u64>, c: Seq<u32>, m: Seq<u64>)
  requires c.len() == m.len(), zeros32(c), zeros64(m, m.len() as int),
  ensures tables2(g, r, yes(0), 0, c, m, Set::<int>::empty()),
{
  assert forall|z: int| 0 <= z < c.len() implies #[trigger] slot2(g, r, yes(0), 0, c, m, Set::<int>::empty(), z) by { assert(c[z] == 0 && m[z] == 0); }
}
pub proof fn lemma_cnt_le(g: Geo, r: Seq<u64>, al: Seq<bool>, z: int, n: int)
  requires n >= 0,
  ensures 0 <= cnt(g, r, al, z, n) <= n,
  decreases n,
{ if n > 0 { lemma_cnt_le(g, r, al, z, n - 1); } }
// the first b positions of h
pub open spec fn touch_n(g: Geo, h: u64, b: int, z: int) -> bool { (b > 0 && g(h, 0) == z) || (b > 1 && g(h, 1) == z) || (b > 2 && g(h, 2) == z) }
pub open spec fn bumped(g: Geo, h: u64, b: int, c0: Seq<u32>, m0: Seq<u64>, c: Seq<u32>, m: Seq<u64>) -> bool {
  c.len() == c0.len() && m.len() == m0.len() && c0.len() == m0.len()
  && (forall|z: int| 0 <= z < c0.len() ==> #[trigger] c[z] == c0[z] + if touch_n(g, h, b, z) { 1int } else { 0 })
  && (forall|z: int| 0 <= z < c0.len() ==> #[trigger] m[z] == if touch_n(g, h, b, z) { m0[z] ^ h } else { m0[z] })
}
pub proof fn lemma_bump(g: Geo, h: u64, b: int, c0: Seq<u32>, m0: Seq<u64>, c: Seq<u32>, m: Seq<u64>, c1: Seq<u32>, m1: Seq<u64>)
  requires in_geo(g, c0.len() as int), 0 <= b < 3, bumped(g, h, b, c0, m0, c, m),
    c1 =~= c.update(g(h, b), c1[g(h, b)]), c1[g(h, b)] == c[g(h, b)] + 1, m1 =~= m.update(g(h, b), m[g(h, b)] ^ h),
  ensures bumped(g, h, b + 1, c0, m0, c1, m1), 
{ lemma_h012(g, h, c0.len() as int); }
pub proof fn lemma_added2(g: Geo, r: Seq<u64>, i: int, c0: Seq<u32>, m0: Seq<u64>, c1: Seq<u32>, m1: Seq<u64>)
  requires in_geo(g, c0.len() as int), 0 <= i < r.len(), tables2(g, r, yes(i), i, c0, m0, Set::<int>::empty()), bumped(g, r[i], 3, c0, m0, c1, m1),
  ensures tables2(g, r, yes(i + 1), i + 1, c1, m1, Set::<int>::empty()),
{
  let e = Set::<int>::empty();
  assert forall|z: int| 0 <= z < c1.len() implies #[trigger] slot2(g, r, yes(i + 1), i + 1, c1, m1, e, z) by {
    assert(slot2(g, r, yes(i), i, c0, m0, e, z));
    lemma_cnt_ext(g, r, yes(i), r, yes(i + 1), z, i);
    assert(touch_n(g, r[i], 3, z) == touch(g, r[i], z));
  }
}
pub proof fn lemma_yes_alive(n: int)
  requires n >= 0,
  ensures nalive(yes(n), n) == n,
  decreases n,
{
  if n > 0 { lemma_yes_alive(n - 1); lemma_nalive_ext(yes(n - 1), yes(n), n - 1); }
}
// a slot with one live hash that is not taken
pub proof fn lemma_found2(g: Geo, r: Seq<u64>, al: Seq<bool>, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, idx: int) -> (k: int)
  requires
    in_geo(g, c.len() as int), al.len() == r.len(), tables2(g, r, al, r.len() as int, c, m, taken), 0 <= idx < c.len(), !taken.contains(idx), c[idx] == 1,
  ensures
    0 <= k < r.len(), al[k], r[k] == m[idx], touch(g, m[idx], idx), nalive(al, r.len() as int) >= 1,
    forall|z: int| #[trigger] touch(g, m[idx], z) ==> !taken.contains(z) && 0 <= z < c.len() && c[z] >= 1,
    forall|j: int| 0 <= j < r.len() && j != k && al[j] ==> !touch(g, #[trigger] r[j], idx),
{
  let n = r.len() as int;
  assert(slot2(g, r, al, n, c, m, taken, idx));
  let k = lemma_cnt_one(g, r, al, idx, n);
  lemma_h012(g, r[k], c.len() as int);
  assert forall|z: int| #[trigger] touch(g, m[idx], z) implies !taken.contains(z) && 0 <= z < c.len() && c[z] >= 1 by {
    assert(slot2(g, r, al, n, c, m, taken, z));
    lemma_cnt_alive(g, r, al, z, n, k);
  }
  lemma_nalive_set(al, k, false, n);
  lemma_nalive_bounds(al.update(k, false), n);
  k
}
pub open spec fn lowered(s: spec_fn(int) -> bool, h: u64, c0: Seq<u32>, m0: Seq<u64>, c: Seq<u32>, m: Seq<u64>) -> bool {
  c.len() == c0.len() && m.len() == m0.len()
  && (forall|z: int| 0 <= z < c0.len() ==> #[trigger] c[z] == c0[z] - if s(z) { 1int } else { 0 })
  && (forall|z: int| 0 <= z < c0.len() ==> #[trigger] m[z] == if s(z) { m0[z] ^ h } else { m0[z] })
}
// all positions of the hash but possibly its own were lowered
pub proof fn lemma_peeled2(g: Geo, r: Seq<u64>, al: Seq<bool>, c: Seq<u32>, m: Seq<u64>, c1: Seq<u32>, m1: Seq<u64>, taken: Set<int>, idx: int, k: int, s: spec_fn(int) -> bool)
  requires
    in_geo(g, c.len() as int), al.len() == r.len(), tables2(g, r, al, r.len() as int, c, m, taken), 0 <= idx < c.len(), !taken.contains(idx), c[idx] == 1,
    0 <= k < r.len(), al[k], r[k] == m[idx], touch(g, m[idx], idx),
    lowered(s, m[idx], c, m, c1, m1), forall|z: int| 0 <= z < c.len() && z != idx ==> s(z) == #[trigger] touch(g, m[idx], z),
  ensures
    tables2(g, r, al.update(k, false), r.len() as int, c1, m1, taken.insert(idx)),
    nalive(al.update(k, false), r.len() as int) == nalive(al, r.len() as int) - 1,
{
  let n = r.len() as int;
  let al1 = al.update(k, false);
  let tk = taken.insert(idx);
  lemma_nalive_set(al, k, false, n);
  assert(slot2(g, r, al, n, c, m, taken, idx));
  assert forall|z: int| 0 <= z < c1.len() implies #[trigger] slot2(g, r, al1, n, c1, m1, tk, z) by {
    assert(slot2(g, r, al, n, c, m, taken, z));
    lemma_kill(g, r, al, z, n, k);
    if touch(g, r[k], z) { lemma_cnt_alive(g, r, al, z, n, k); }
  }
}
pub proof fn lemma_room2(s: Seq<int>, n: int, o: int)
  requires s.no_duplicates(), 0 <= o < n, forall|a: int| 0 <= a < s.len() ==> 0 <= #[trigger] s[a] < n && s[a] != o,
  ensures s.len() <= n - 1,
{
  s.unique_seq_to_set();
  let u = Set::<int>::range(0, n);
  vstd::set_lib::range_set_properties::<int>(0, n);
  assert(s.to_set().subset_of(u.remove(o)));
  vstd::set_lib::lemma_len_subset(s.to_set(), u.remove(o));
}


// ---- queue, stack and assignment over index and hash sequences -------------------------------------
pub open spec fn queue2(qi: Seq<int>, qh: Seq<u64>, n: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>) -> bool {
  0 <= n <= qi.len() && qi.len() == qh.len() && c.len() == m.len()
  && (forall|a: int| 0 <= a < n ==> 0 <= (#[trigger] qi[a]) < c.len() && !taken.contains(qi[a]) && c[qi[a]] <= 1 && (c[qi[a]] == 1 ==> m[qi[a]] == qh[a]))
  && (forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] qi[a] != #[trigger] qi[b])
}
pub open spec fn absent(qi: Seq<int>, n: int, z: int) -> bool { forall|a: int| 0 <= a < n ==> #[trigger] qi[a] != z }
pub proof fn lemma_q_room(qi: Seq<int>, qh: Seq<u64>, n: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, z: int)
  requires queue2(qi, qh, n, c, m, taken), 0 <= z < c.len(), absent(qi, n, z),
  ensures n < c.len(),
{
  let s = qi.subrange(0, n);
  assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by {
    if a < b { assert(qi[a] != qi[b]); } else { assert(qi[b] != qi[a]); }
  }
  assert forall|a: int| 0 <= a < s.len() implies 0 <= #[trigger] s[a] < c.len() && s[a] != z by { assert(qi[a] != z); }
  lemma_room2(s, c.len() as int, z);
}
pub proof fn lemma_q_lower(qi: Seq<int>, qh: Seq<u64>, n: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, z: int, c1: Seq<u32>, m1: Seq<u64>)
  requires queue2(qi, qh, n, c, m, taken), 0 <= z < c.len(), c[z] >= 1, c1 =~= c.update(z, (c[z] - 1) as u32), m1 =~= m.update(z, m1[z]), 
  ensures queue2(qi, qh, n, c1, m1, taken), c1[z] == 1 ==> absent(qi, n, z) && n < c.len(),
{
  if c1[z] == 1 {
    assert forall|a: int| 0 <= a < n implies #[trigger] qi[a] != z by { assert(c[qi[a]] <= 1); }
    lemma_q_room(qi, qh, n, c, m, taken, z);
  }
}
pub proof fn lemma_q_push(qi: Seq<int>, qh: Seq<u64>, n: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>, z: int, qi1: Seq<int>, qh1: Seq<u64>)
  requires queue2(qi, qh, n, c, m, taken), 0 <= z < c.len(), c[z] == 1, !taken.contains(z), absent(qi, n, z), n < qi.len(),
    qi1 =~= qi.update(n, z), qh1 =~= qh.update(n, m[z]),
  ensures queue2(qi1, qh1, n + 1, c, m, taken),
{
  assert forall|a: int| 0 <= a < n + 1 implies 0 <= (#[trigger] qi1[a]) < c.len() && !taken.contains(qi1[a]) && c[qi1[a]] <= 1 && (c[qi1[a]] == 1 ==> m[qi1[a]] == qh1[a]) by {
    if a < n { assert(qi1[a] == qi[a]); }
  }
  assert forall|a: int, b: int| 0 <= a < b < n + 1 implies #[trigger] qi1[a] != #[trigger] qi1[b] by {
    assert(qi1[a] == qi[a]);
    if b < n { assert(qi1[b] == qi[b]); }
  }
}
pub proof fn lemma_q_pop(qi: Seq<int>, qh: Seq<u64>, n: int, c: Seq<u32>, m: Seq<u64>, taken: Set<int>)
  requires queue2(qi, qh, n, c, m, taken), n >= 1,
  ensures queue2(qi, qh, n - 1, c, m, taken), queue2(qi, qh, n - 1, c, m, taken.insert(qi[n - 1])), absent(qi, n - 1, qi[n - 1]),
    0 <= qi[n - 1] < c.len(), !taken.contains(qi[n - 1]), c[qi[n - 1]] <= 1, c[qi[n - 1]] == 1 ==> m[qi[n - 1]] == qh[n - 1],
{
  assert forall|a: int| 0 <= a < n - 1 implies #[trigger] qi[a] != qi[n - 1] by {}
}
// the slots the hash being peeled has been taken out of so far
pub open spec fn gone(g: Geo, h: u64, b: int, c0: Seq<u32>, m0: Seq<u64>, c: Seq<u32>, m: Seq<u64>) -> bool {
  c0.len() == m0.len() && lowered(|z: int| touch_n(g, h, b, z), h, c0, m0, c, m)
}
pub proof fn lemma_gone(g: Geo, h: u64, b: int, c0: Seq<u32>, m0: Seq<u64>, c: Seq<u32>, m: Seq<u64>, c1: Seq<u32>, m1: Seq<u64>)
  requires in_geo(g, c0.len() as int), 0 <= b < 3, gone(g, h, b, c0, m0, c, m), c0[g(h, b)] >= 1,
    c1 =~= c.update(g(h, b), (c[g(h, b)] - 1) as u32), m1 =~= m.update(g(h, b), m[g(h, b)] ^ h),
  ensures gone(g, h, b + 1, c0, m0, c1, m1), c[g(h, b)] == c0[g(h, b)], m[g(h, b)] == m0[g(h, b)],
{
  lemma_h012(g, h, c0.len() as int);
  let s = |z: int| touch_n(g, h, b, z);
  let s1 = |z: int| touch_n(g, h, b + 1, z);
  let y = g(h, b);
  assert(!touch_n(g, h, b, y));
  assert(c[y] == c0[y]); assert(m[y] == m0[y]);
  assert forall|z: int| 0 <= z < c0.len() implies #[trigger] c1[z] == c0[z] - if s1(z) { 1int } else { 0 } by { assert(c[z] == c0[z] - if s(z) { 1int } else { 0 }); }
  assert forall|z: int| 0 <= z < c0.len() implies #[trigger] m1[z] == if s1(z) { m0[z] ^ h } else { m0[z] } by { assert(m[z] == if s(z) { m0[z] ^ h } else { m0[z] }); }
}
// taken out of its slots o1 and o2, in this order
pub open spec fn gone_x(g: Geo, h: u64, o1: int, o2: int, k: int, c0: Seq<u32>, m0: Seq<u64>, c: Seq<u32>, m: Seq<u64>) -> bool {
  c0.len() == m0.len() && lowered(|z: int| (k > 0 && z == g(h, o1)) || (k > 1 && z == g(h, o2)), h, c0, m0, c, m)
}
pub proof fn lemma_gone_x(g: Geo, h: u64, o1: int, o2: int, k: int, c0: Seq<u32>, m0: Seq<u64>, c: Seq<u32>, m: Seq<u64>, y: int, c1: Seq<u32>, m1: Seq<u64>)
  requires in_geo(g, c0.len() as int), 0 <= k < 2, 0 <= o1 < 3, 0 <= o2 < 3, o1 != o2, gone_x(g, h, o1, o2, k, c0, m0, c, m), y == if k == 0 { g(h, o1) } else { g(h, o2) }, c0[y] >= 1,
    c1 =~= c.update(y, (c[y] - 1) as u32), m1 =~= m.update(y, m[y] ^ h),
  ensures gone_x(g, h, o1, o2, k + 1, c0, m0, c1, m1), c[y] == c0[y], m[y] == m0[y], 0 <= y < c0.len(),
{
  assert(0 <= g(h, o1) < c0.len() && 0 <= g(h, o2) < c0.len() && g(h, o1) != g(h, o2));
  let s = |z: int| (k > 0 && z == g(h, o1)) || (k > 1 && z == g(h, o2));
  let s1 = |z: int| (k + 1 > 0 && z == g(h, o1)) || (k + 1 > 1 && z == g(h, o2));
  assert(c[y] == c0[y] - if s(y) { 1int } else { 0 }); assert(m[y] == if s(y) { m0[y] ^ h } else { m0[y] });
  assert forall|z: int| 0 <= z < c0.len() implies #[trigger] c1[z] == c0[z] - if s1(z) { 1int } else { 0 } by { assert(c[z] == c0[z] - if s(z) { 1int } else { 0 }); }
  assert forall|z: int| 0 <= z < c0.len() implies #[trigger] m1[z] == if s1(z) { m0[z] ^ h } else { m0[z] } by { assert(m[z] == if s(z) { m0[z] ^ h } else { m0[z] }); }
}
pub open spec fn stack2(g: Geo, si: Seq<int>, sh: Seq<u64>, n: int, len: int, taken: Set<int>) -> bool {
  0 <= n <= si.len() && si.len() == sh.len()
  && (forall|s: int| 0 <= s < n ==> 0 <= (#[trigger] si[s]) < len && touch(g, sh[s], si[s]) && taken.contains(si[s]))
  && (forall|s: int, t: int| 0 <= s < t < n ==> !touch(g, #[trigger] sh[t], #[trigger] si[s]))
}
pub open spec fn stacked2(sh: Seq<u64>, n: int, h: u64) -> bool { exists|s: int| 0 <= s < n && #[trigger] sh[s] == h }
pub open spec fn covered2(r: Seq<u64>, al: Seq<bool>, sh: Seq<u64>, n: int) -> bool { forall|k: int| 0 <= k < r.len() ==> al[k] || stacked2(sh, n, #[trigger] r[k]) }
pub proof fn lemma_stack2_push(g: Geo, r: Seq<u64>, al: Seq<bool>, k: int, si: Seq<int>, sh: Seq<u64>, n: int, len: int, taken: Set<int>, idx: int, h: u64, si1: Seq<int>, sh1: Seq<u64>)
  requires stack2(g, si, sh, n, len, taken), covered2(r, al, sh, n), al.len() == r.len(), 0 <= k < r.len(), r[k] == h, n < si.len(), 0 <= idx < len, touch(g, h, idx),
    forall|z: int| #[trigger] touch(g, h, z) ==> !taken.contains(z), si1 =~= si.update(n, idx), sh1 =~= sh.update(n, h),
  ensures stack2(g, si1, sh1, n + 1, len, taken.insert(idx)), covered2(r, al.update(k, false), sh1, n + 1),
{
  assert forall|s: int| 0 <= s < n + 1 implies 0 <= (#[trigger] si1[s]) < len && touch(g, sh1[s], si1[s]) && taken.insert(idx).contains(si1[s]) by {
    if s < n { assert(si1[s] == si[s]); assert(sh1[s] == sh[s]); }
  }
  assert forall|s: int, t: int| 0 <= s < t < n + 1 implies !touch(g, #[trigger] sh1[t], #[trigger] si1[s]) by {
    assert(si1[s] == si[s] && taken.contains(si[s]));
    if t < n { assert(sh1[t] == sh[t]); assert(!touch(g, sh[t], si[s])); }
  }
  let al1 = al.update(k, false);
  assert forall|j: int| 0 <= j < r.len() implies al1[j] || stacked2(sh1, n + 1, #[trigger] r[j]) by {
    if j == k { assert(sh1[n] == r[k]); }
    else if !al[j] {
      assert(stacked2(sh, n, r[j]));
      let s = choose|s: int| 0 <= s < n && #[trigger] sh[s] == r[j];
      assert(sh1[s] == r[j]);
    }
  }
}
pub open spec fn done2(g: Geo, hs: Seq<u64>, si: Seq<int>, sh: Seq<u64>, n: int, len: int) -> bool {
  0 <= n <= si.len() && si.len() == sh.len()
  && (forall|s: int| 0 <= s < n ==> 0 <= (#[trigger] si[s]) < len && touch(g, sh[s], si[s]))
  && (forall|s: int, t: int| 0 <= s < t < n ==> !touch(g, #[trigger] sh[t], #[trigger] si[s]))
  && (forall|j: int| 0 <= j < hs.len() ==> stacked2(sh, n, #[trigger] hs[j]))
}
pub proof fn lemma_done2(g: Geo, r: Seq<u64>, al: Seq<bool>, si: Seq<int>, sh: Seq<u64>, n: int, len: int, taken: Set<int>)
  requires stack2(g, si, sh, n, len, taken), covered2(r, al, sh, n), al.len() == r.len(), nalive(al, r.len() as int) <= 0,
  ensures done2(g, r, si, sh, n, len),
{
  assert forall|j: int| 0 <= j < r.len() implies stacked2(sh, n, #[trigger] r[j]) by {
    if al[j] { lemma_nalive_set(al, j, false, r.len() as int); lemma_nalive_bounds(al.update(j, false), r.len() as int); }
  }
}
pub proof fn lemma_gone_all(g: Geo, r: Seq<u64>, al: Seq<bool>, c: Seq<u32>, m: Seq<u64>, c1: Seq<u32>, m1: Seq<u64>, taken: Set<int>, idx: int, k: int)
  requires
    in_geo(g, c.len() as int), al.len() == r.len(), tables2(g, r, al, r.len() as int, c, m, taken), 0 <= idx < c.len(), !taken.contains(idx), c[idx] == 1,
    0 <= k < r.len(), al[k], r[k] == m[idx], touch(g, m[idx], idx), gone(g, m[idx], 3, c, m, c1, m1),
  ensures
    tables2(g, r, al.update(k, false), r.len() as int, c1, m1, taken.insert(idx)),
    nalive(al.update(k, false), r.len() as int) == nalive(al, r.len() as int) - 1, nalive(al.update(k, false), r.len() as int) >= 0,
{
  let h = m[idx];
  let s = |z: int| touch(g, h, z);
  let s0 = |z: int| touch_n(g, h, 3, z);
  assert forall|z: int| 0 <= z < c.len() implies #[trigger] c1[z] == c[z] - if s(z) { 1int } else { 0 } by { assert(c1[z] == c[z] - if s0(z) { 1int } else { 0 }); }
  assert forall|z: int| 0 <= z < c.len() implies #[trigger] m1[z] == if s(z) { m[z] ^ h } else { m[z] } by { assert(m1[z] == if s0(z) { m[z] ^ h } else { m[z] }); }
  lemma_peeled2(g, r, al, c, m, c1, m1, taken, idx, k, s);
  lemma_nalive_bounds(al.update(k, false), r.len() as int);
}
pub proof fn lemma_gone_two(g: Geo, r: Seq<u64>, al: Seq<bool>, c: Seq<u32>, m: Seq<u64>, c1: Seq<u32>, m1: Seq<u64>, taken: Set<int>, idx: int, k: int, own: int, o1: int, o2: int)
  requires
    in_geo(g, c.len() as int), al.len() == r.len(), tables2(g, r, al, r.len() as int, c, m, taken), 0 <= idx < c.len(), !taken.contains(idx), c[idx] == 1,
    0 <= k < r.len(), al[k], r[k] == m[idx], touch(g, m[idx], idx), gone_x(g, m[idx], o1, o2, 2, c, m, c1, m1),
    0 <= own < 3, 0 <= o1 < 3, 0 <= o2 < 3, own != o1, own != o2, o1 != o2, idx == g(m[idx], own),
  ensures
    tables2(g, r, al.update(k, false), r.len() as int, c1, m1, taken.insert(idx)),
    nalive(al.update(k, false), r.len() as int) == nalive(al, r.len() as int) - 1, nalive(al.update(k, false), r.len() as int) >= 0,
{
  let h = m[idx];
  let s = |z: int| z == g(h, o1) || z == g(h, o2);
  let s0 = |z: int| (2 > 0 && z == g(h, o1)) || (2 > 1 && z == g(h, o2));
  assert forall|z: int| 0 <= z < c.len() implies #[trigger] c1[z] == c[z] - if s(z) { 1int } else { 0 } by { assert(c1[z] == c[z] - if s0(z) { 1int } else { 0 }); }
  assert forall|z: int| 0 <= z < c.len() implies #[trigger] m1[z] == if s(z) { m[z] ^ h } else { m[z] } by { assert(m1[z] == if s0(z) { m[z] ^ h } else { m[z] }); }
  assert(g(h, own) != g(h, o1) && g(h, own) != g(h, o2));
  lemma_peeled2(g, r, al, c, m, c1, m1, taken, idx, k, s);
  lemma_nalive_bounds(al.update(k, false), r.len() as int);
}
pub proof fn lemma_gone_start(g: Geo, h: u64, c: Seq<u32>, m: Seq<u64>, o1: int, o2: int)
  requires c.len() == m.len(),
  ensures gone(g, h, 0, c, m, c, m), gone_x(g, h, o1, o2, 0, c, m, c, m),
{ }
} // verus!
