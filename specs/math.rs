// Lemmas over integers, bits and sums: all of them proved.
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
use crate::ext::*;
verus! {

pub spec const M32: int = 0x1_0000_0000;

// ---- inner products ------------------------------------------------------------------------
pub open spec fn dot(a: Seq<u32>, b: Seq<u32>, n: int) -> int
  decreases n,
{
  if n <= 0 { 0 } else { dot(a, b, n - 1) + a[n - 1] as int * b[n - 1] as int }
}

pub proof fn lemma_dot_step(acc: u32, a: Seq<u32>, b: Seq<u32>, i: int)
  requires 0 <= i < a.len(), i < b.len(), acc as int == dot(a, b, i) % M32,
  ensures
    (acc as int + (a[i] as int * b[i] as int) % M32) % M32 == dot(a, b, i + 1) % M32,
    (acc as int + (b[i] as int * a[i] as int) % M32) % M32 == dot(a, b, i + 1) % M32,
    0 <= a[i] as int * b[i] as int <= 0xffff_ffff * 0xffff_ffff, 0 <= b[i] as int * a[i] as int <= 0xffff_ffff * 0xffff_ffff,
    a[i] as int * b[i] as int == b[i] as int * a[i] as int,
{
  assert(a[i] as int * b[i] as int == b[i] as int * a[i] as int) by (nonlinear_arith);
  lemma_mul_upper_bound(a[i] as int, 0xffff_ffff, b[i] as int, 0xffff_ffff);
  lemma_mul_nonnegative(a[i] as int, b[i] as int);
  let p = a[i] as int * b[i] as int;
  let d = dot(a, b, i);
  lemma_add_mod_noop(d, p, M32);
}

pub proof fn lemma_dot_ext(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>, d: Seq<u32>, n: int)
  requires n <= a.len(), n <= b.len(), n <= c.len(), n <= d.len(),
    forall|i: int| 0 <= i < n ==> a[i] == c[i],
    forall|i: int| 0 <= i < n ==> b[i] == d[i],
  ensures dot(a, b, n) == dot(c, d, n),
  decreases n,
{
  if n > 0 { lemma_dot_ext(a, b, c, d, n - 1); }
}

pub proof fn lemma_mod_self_add(e: u32)
  ensures (e as int) % M32 == e as int,
{ lemma_small_mod(e as nat, M32 as nat); }

pub proof fn lemma_row_width(es: int, pb: int)
  requires pb >= 1, es >= 0, es <= usize::MAX, pb <= usize::MAX,
  ensures es % pb != 0 ==> es / pb < usize::MAX,
{
  assert(es % pb != 0 ==> es / pb < usize::MAX) by {
    if pb == 1 { assert(es % 1 == 0); } else {
      assert(es / pb <= es / 2) by { lemma_div_is_ordered_by_denominator(es, 2, pb); }
    }
  }
}

pub open spec fn rect(m: Seq<Vec<u32>>, w: int) -> bool {
  forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i])@.len() == w
}


// ---- sums and congruences modulo 2^32 ------------------------------------------------------
pub open spec fn sum(f: spec_fn(int) -> int, n: int) -> int
  decreases n,
{
  if n <= 0 { 0 } else { sum(f, n - 1) + f(n - 1) }
}
pub open spec fn cong(a: int, b: int) -> bool { (a - b) % M32 == 0 }

pub proof fn lemma_cong_mod(a: int)
  ensures cong(a % M32, a), cong(a, a % M32),
{}
pub proof fn lemma_cong_add(a: int, b: int, c: int, d: int)
  requires cong(a, b), cong(c, d),
  ensures cong(a + c, b + d), cong(a - c, b - d),
{}
pub proof fn lemma_cong_trans(a: int, b: int, c: int)
  requires cong(a, b), cong(b, c),
  ensures cong(a, c), cong(c, a),
{}
pub proof fn lemma_cong_mul(a: int, b: int, c: int)
  requires cong(a, b),
  ensures cong(a * c, b * c), cong(c * a, c * b),
{
  let k = (a - b) / M32;
  lemma_fundamental_div_mod(a - b, M32);
  assert(a - b == M32 * k);
  assert(a * c - b * c == (k * c) * M32) by (nonlinear_arith) requires a - b == M32 * k;
  lemma_mod_multiples_basic(k * c, M32);
  assert(c * a - c * b == (k * c) * M32) by (nonlinear_arith) requires a * c - b * c == (k * c) * M32;
}
pub proof fn lemma_sum_ext(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
  requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i),
  ensures sum(f, n) == sum(g, n),
  decreases n,
{
  if n > 0 { lemma_sum_ext(f, g, n - 1); assert(f(n - 1) == g(n - 1)); }
}
pub proof fn lemma_sum_cong(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
  requires forall|i: int| 0 <= i < n ==> cong(#[trigger] f(i), g(i)),
  ensures cong(sum(f, n), sum(g, n)),
  decreases n,
{
  if n > 0 { lemma_sum_cong(f, g, n - 1); assert(cong(f(n - 1), g(n - 1))); }
}
pub proof fn lemma_sum_add(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
  ensures sum(|i: int| f(i) + g(i), n) == sum(f, n) + sum(g, n),
  decreases n,
{
  if n > 0 { lemma_sum_add(f, g, n - 1); }
}
pub proof fn lemma_sum_scale(f: spec_fn(int) -> int, c: int, n: int)
  ensures sum(|i: int| c * f(i), n) == c * sum(f, n),
  decreases n,
{
  if n > 0 {
    lemma_sum_scale(f, c, n - 1);
    assert(c * (sum(f, n - 1) + f(n - 1)) == c * sum(f, n - 1) + c * f(n - 1)) by (nonlinear_arith);
  }
}
pub proof fn lemma_sum_zero(f: spec_fn(int) -> int, n: int)
  requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0,
  ensures sum(f, n) == 0,
  decreases n,
{
  if n > 0 { lemma_sum_zero(f, n - 1); assert(f(n - 1) == 0); }
}
// one non-zero term
pub proof fn lemma_sum_single(f: spec_fn(int) -> int, k: int, n: int)
  requires 0 <= k < n, forall|i: int| 0 <= i < n && i != k ==> #[trigger] f(i) == 0,
  ensures sum(f, n) == f(k),
  decreases n,
{
  if k == n - 1 { lemma_sum_zero(f, n - 1); } else { lemma_sum_single(f, k, n - 1); assert(f(n - 1) == 0); }
}
pub proof fn lemma_sum_swap(f: spec_fn(int, int) -> int, n: int, m: int)
  requires m >= 0, n >= 0,
  ensures sum(|i: int| sum(|j: int| f(i, j), m), n) == sum(|j: int| sum(|i: int| f(i, j), n), m),
  decreases n,
{
  if n == 0 {
    lemma_sum_zero(|j: int| sum(|i: int| f(i, j), 0), m);
  } else {
    lemma_sum_swap(f, n - 1, m);
    let g = |j: int| sum(|i: int| f(i, j), n - 1);
    let h = |j: int| f(n - 1, j);
    lemma_sum_add(g, h, m);
    lemma_sum_ext(|j: int| sum(|i: int| f(i, j), n), |j: int| g(j) + h(j), m);
  }
}
pub proof fn lemma_sum_bound(f: spec_fn(int) -> int, n: int, b: int)
  requires n >= 0, b >= 0, forall|i: int| 0 <= i < n ==> -b <= #[trigger] f(i) <= b,
  ensures -(n * b) <= sum(f, n) <= n * b,
  decreases n,
{
  if n > 0 {
    lemma_sum_bound(f, n - 1, b);
    assert(-b <= f(n - 1) <= b);
    assert((n - 1) * b + b == n * b) by (nonlinear_arith);
  } else { assert(0 * b == 0); }
}
pub proof fn lemma_dot_sum(a: Seq<u32>, b: Seq<u32>, n: int)
  ensures dot(a, b, n) == sum(|i: int| a[i] as int * b[i] as int, n),
  decreases n,
{
  if n > 0 { lemma_dot_sum(a, b, n - 1); }
}

// signed value of a ternary word
pub open spec fn sgn(e: u32) -> int { if e == 0 { 0 } else if e == 1 { 1 } else { -1 } }

// The arithmetic of a private lookup: a query of masked rows plus scale * sel, answered column by
// column and unmasked with the secret times the hint, leaves scale * (selected words) plus noise.
pub proof fn lemma_lookup(
  q: Seq<u32>, col: Seq<u32>, a: Seq<Vec<u32>>, s: Seq<u32>, e: Seq<u32>, hint: Seq<u32>, lwe: spec_fn(int) -> Seq<u32>,
  sel: spec_fn(int) -> int, scale: int, m: int, dim: int, bound: int,
)
  requires
    m >= 0, dim >= 0, bound >= 0, q.len() == m, col.len() == m, a.len() == m, s.len() == dim, e.len() == m, hint.len() == dim,
    forall|r: int| 0 <= r < m ==> (#[trigger] a[r])@.len() == dim,
    forall|r: int| 0 <= r < m ==> (e[r] == 0 || e[r] == 1 || #[trigger] e[r] == 0xffff_ffffu32),
    forall|r: int| 0 <= r < m ==> cong((#[trigger] q[r]) as int, dot(s, a[r]@, dim) + e[r] + scale * sel(r)),
    forall|j: int| 0 <= j < dim ==> (#[trigger] lwe(j)).len() == m,
    forall|j: int, r: int| 0 <= j < dim && 0 <= r < m ==> (#[trigger] lwe(j)[r]) == a[r]@[j],
    forall|j: int| 0 <= j < dim ==> cong((#[trigger] hint[j]) as int, dot(lwe(j), col, m)),
    forall|r: int| 0 <= r < m ==> (#[trigger] col[r]) <= bound,
  ensures
    ({
      let noise = sum(|r: int| sgn(e[r]) * col[r], m);
      cong(dot(q, col, m) - dot(s, hint, dim), scale * sum(|r: int| sel(r) * col[r], m) + noise)
      && -(m * bound) <= noise <= m * bound
    }),
{
  let noise = sum(|r: int| sgn(e[r]) * col[r], m);
  // right-hand side: sum_j s_j * (sum_r A[r][j] col[r])
  let f = |r: int, j: int| s[j] as int * (a[r]@[j] as int * col[r] as int);
  lemma_dot_sum(s, hint, dim);
  let rl = |j: int| s[j] as int * hint[j] as int;
  let rr = |j: int| sum(|r: int| f(r, j), m);
  assert forall|j: int| 0 <= j < dim implies cong(#[trigger] rl(j), rr(j)) by {
    assert(cong(hint[j] as int, dot(lwe(j), col, m)));
    lemma_cong_mul(hint[j] as int, dot(lwe(j), col, m), s[j] as int);
    lemma_dot_sum(lwe(j), col, m);
    let g = |r: int| a[r]@[j] as int * col[r] as int;
    lemma_sum_ext(|i: int| lwe(j)[i] as int * col[i] as int, g, m);
    lemma_sum_scale(g, s[j] as int, m);
    lemma_sum_ext(|r: int| f(r, j), |i: int| s[j] as int * g(i), m);
  }
  lemma_sum_cong(rl, rr, dim);
  lemma_sum_ext(rl, |i: int| s[i] as int * hint[i] as int, dim);
  lemma_sum_swap(f, m, dim);
  // left-hand side
  lemma_dot_sum(q, col, m);
  let u = |r: int| sum(|j: int| f(r, j), dim);
  let v = |r: int| sgn(e[r]) * col[r] as int;
  let w = |r: int| scale * (sel(r) * col[r] as int);
  let t = |r: int| (u(r) + v(r)) + w(r);
  let ql = |r: int| q[r] as int * col[r] as int;
  assert forall|r: int| 0 <= r < m implies cong(#[trigger] ql(r), t(r)) by {
    let d = dot(s, a[r]@, dim);
    let c = col[r] as int;
    assert(cong(e[r] as int, sgn(e[r])));
    assert(cong(q[r] as int, d + e[r] + scale * sel(r)));
    lemma_cong_add(e[r] as int, sgn(e[r]), d + scale * sel(r), d + scale * sel(r));
    lemma_cong_trans(q[r] as int, d + e[r] + scale * sel(r), d + sgn(e[r]) + scale * sel(r));
    lemma_cong_mul(q[r] as int, d + sgn(e[r]) + scale * sel(r), c);
    assert((d + sgn(e[r]) + scale * sel(r)) * c == d * c + sgn(e[r]) * c + scale * (sel(r) * c)) by (nonlinear_arith);
    lemma_dot_sum(s, a[r]@, dim);
    let g = |j: int| s[j] as int * a[r]@[j] as int;
    lemma_sum_ext(|i: int| s[i] as int * a[r]@[i] as int, g, dim);
    lemma_sum_scale(g, c, dim);
    let cg = |i: int| c * g(i);
    let fr = |j: int| f(r, j);
    assert forall|j: int| 0 <= j < dim implies #[trigger] cg(j) == fr(j) by {
      assert(c * (s[j] as int * a[r]@[j] as int) == s[j] as int * (a[r]@[j] as int * c)) by (nonlinear_arith);
    }
    lemma_sum_ext(cg, fr, dim);
    lemma_sum_ext(cg, |i: int| c * g(i), dim);
    lemma_sum_ext(fr, |j: int| f(r, j), dim);
    assert(d * c == c * d) by (nonlinear_arith);
    assert(u(r) == d * c);
  }
  lemma_sum_cong(ql, t, m);
  lemma_sum_ext(ql, |i: int| q[i] as int * col[i] as int, m);
  let uv = |r: int| u(r) + v(r);
  lemma_sum_add(u, v, m);
  lemma_sum_add(uv, w, m);
  lemma_sum_ext(t, |i: int| uv(i) + w(i), m);
  lemma_sum_ext(uv, |i: int| u(i) + v(i), m);
  let sc = |r: int| sel(r) * col[r] as int;
  lemma_sum_scale(sc, scale, m);
  lemma_sum_ext(w, |i: int| scale * sc(i), m);
  lemma_sum_ext(sc, |r: int| sel(r) * col[r], m);
  lemma_sum_ext(v, |r: int| sgn(e[r]) * col[r], m);
  assert(sum(t, m) == sum(u, m) + noise + scale * sum(|r: int| sel(r) * col[r], m));
  lemma_sum_ext(u, |i: int| sum(|j: int| f(i, j), dim), m);
  lemma_sum_ext(rr, |j: int| sum(|i: int| f(i, j), m), dim);
  lemma_cong_add(dot(q, col, m), sum(t, m), dot(s, hint, dim), sum(u, m));
  // noise
  assert forall|r: int| 0 <= r < m implies -bound <= #[trigger] v(r) <= bound by {
    assert(col[r] <= bound);
    assert(-bound <= sgn(e[r]) * col[r] <= bound) by (nonlinear_arith) requires 0 <= col[r] <= bound, sgn(e[r]) == 0 || sgn(e[r]) == 1 || sgn(e[r]) == -1;
  }
  lemma_sum_bound(v, m, bound);
}

// ---- rounding ------------------------------------------------------------------------------
// the decoded word r is right for every sum `t` of plaintext words and every noise below half a
// step that can have produced x, after adding `add`
pub open spec fn decodes(r: u32, x: int, pb: nat, add: int) -> bool {
  r < pow2(pb) && forall|t: int, noise: int| #[trigger] cong(x, pow2((32 - pb) as nat) * t + noise) && t >= 0
      && 2 * noise < pow2((32 - pb) as nat) && -2 * noise < pow2((32 - pb) as nat)
    ==> r == (t + add) % (pow2(pb) as int)
}
pub open spec fn rounded(x: int, pb: nat) -> int {
  let d = pow2((32 - pb) as nat) as int;
  x / d + if x % d > d / 2 { 1int } else { 0int }
}
pub proof fn lemma_rounded(x: int, pb: nat, t: int, noise: int)
  requires 1 <= pb < 32, 0 <= x < M32, cong(x, pow2((32 - pb) as nat) * t + noise), t >= 0,
    2 * noise < pow2((32 - pb) as nat), -2 * noise < pow2((32 - pb) as nat),
  ensures (rounded(x, pb) - t) % (pow2(pb) as int) == 0,
{
  let d = pow2((32 - pb) as nat) as int;
  let p = pow2(pb) as int;
  lemma_pow2_adds(pb, (32 - pb) as nat);
  lemma2_to64();
  lemma_pow2_pos(pb); lemma_pow2_pos((32 - pb) as nat);
  lemma_pow2_unfold((32 - pb) as nat);
  lemma_pow2_pos((31 - pb) as nat);
  assert(d >= 2 && d / 2 * 2 == d);
  assert(p * d == M32);
  let k = (x - (d * t + noise)) / M32;
  lemma_fundamental_div_mod(x - (d * t + noise), M32);
  assert(x - (d * t + noise) == M32 * k);
  let w = t + p * k;
  assert(x == d * w + noise) by (nonlinear_arith) requires x == d * t + noise + M32 * k, p * d == M32, w == t + p * k;
  if noise >= 0 {
    lemma_fundamental_div_mod_converse(x, d, w, noise);
    assert(rounded(x, pb) == w);
  } else {
    assert(x == d * (w - 1) + (d + noise)) by (nonlinear_arith) requires x == d * w + noise;
    lemma_fundamental_div_mod_converse(x, d, w - 1, d + noise);
    assert(rounded(x, pb) == w);
  }
  assert(w - t == k * p) by (nonlinear_arith) requires w == t + p * k;
  lemma_mod_multiples_basic(k, p);
}
pub proof fn lemma_decodes(r: u32, x: int, pb: nat, add: int)
  requires 1 <= pb < 32, 0 <= x < M32, r as int == (rounded(x, pb) + add) % (pow2(pb) as int),
  ensures decodes(r, x, pb, add),
{
  let p = pow2(pb) as int;
  lemma_pow2_pos(pb);
  lemma_mod_bound(rounded(x, pb) + add, p);
  assert forall|t: int, noise: int| #[trigger] cong(x, pow2((32 - pb) as nat) * t + noise) && t >= 0
      && 2 * noise < pow2((32 - pb) as nat) && -2 * noise < pow2((32 - pb) as nat)
    implies r == (t + add) % p by {
    lemma_rounded(x, pb, t, noise);
    lemma_mod_shift(rounded(x, pb), t, add, p);
  }
}
// reducing modulo 2^32 first does not change the plaintext word
pub proof fn lemma_masked_mod(a: int, b: int, pb: nat)
  requires 1 <= pb < 32,
  ensures ((a + b) % M32) % (pow2(pb) as int) == (a + b) % (pow2(pb) as int),
{
  lemma_pow2_adds(pb, (32 - pb) as nat);
  lemma2_to64();
  lemma_pow2_pos(pb); lemma_pow2_pos((32 - pb) as nat);
  lemma_mod_mod(a + b, pow2(pb) as int, pow2((32 - pb) as nat) as int);
}
// a - b divisible by p: adding the same number leaves the same remainder
pub proof fn lemma_mod_shift(a: int, b: int, c: int, p: int)
  requires p > 0, (a - b) % p == 0,
  ensures (a + c) % p == (b + c) % p,
{
  let k = (a - b) / p;
  lemma_fundamental_div_mod(a - b, p);
  assert(a + c == p * k + (b + c));
  lemma_mod_multiples_vanish(k, b + c, p);
}

// the same xor of three or four words, written differently
pub proof fn forms3_u8(x: u8, a: u8, b: u8)
  ensures (x ^ a) ^ b == x ^ (a ^ b), (x ^ a) ^ b == x ^ (b ^ a), (x ^ a) ^ b == (x ^ b) ^ a, (x ^ a) ^ b == (a ^ x) ^ b, (x ^ a) ^ b == a ^ (x ^ b), (x ^ a) ^ b == (a ^ b) ^ x, (x ^ a) ^ b == (b ^ a) ^ x, (x ^ a) ^ b == (b ^ x) ^ a, (x ^ a) ^ b == b ^ (x ^ a),
{
  assert((x ^ a) ^ b == x ^ (a ^ b)) by (bit_vector);
  assert((x ^ a) ^ b == x ^ (b ^ a)) by (bit_vector);
  assert((x ^ a) ^ b == (x ^ b) ^ a) by (bit_vector);
  assert((x ^ a) ^ b == (a ^ x) ^ b) by (bit_vector);
  assert((x ^ a) ^ b == a ^ (x ^ b)) by (bit_vector);
  assert((x ^ a) ^ b == (a ^ b) ^ x) by (bit_vector);
  assert((x ^ a) ^ b == (b ^ a) ^ x) by (bit_vector);
  assert((x ^ a) ^ b == (b ^ x) ^ a) by (bit_vector);
  assert((x ^ a) ^ b == b ^ (x ^ a)) by (bit_vector);
}
pub proof fn forms4_u8(x: u8, a: u8, b: u8, c: u8)
  ensures ((x ^ a) ^ b) ^ c == x ^ ((a ^ b) ^ c), ((x ^ a) ^ b) ^ c == x ^ (a ^ (b ^ c)), ((x ^ a) ^ b) ^ c == ((x ^ a) ^ b) ^ c, ((x ^ a) ^ b) ^ c == ((x ^ c) ^ b) ^ a, ((x ^ a) ^ b) ^ c == ((x ^ b) ^ c) ^ a, ((x ^ a) ^ b) ^ c == (x ^ a) ^ (b ^ c), ((x ^ a) ^ b) ^ c == ((a ^ b) ^ c) ^ x, ((x ^ a) ^ b) ^ c == ((a ^ b) ^ x) ^ c, (((x ^ a) ^ b) ^ c == 0) == (x == (a ^ b) ^ c), (((x ^ a) ^ b) ^ c == 0) == (x == a ^ (b ^ c)), (((x ^ a) ^ b) ^ c == 0) == (x ^ a == b ^ c), (((x ^ a) ^ b) ^ c == 0) == ((x ^ a) ^ b == c),
{
  assert(((x ^ a) ^ b) ^ c == x ^ ((a ^ b) ^ c)) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == x ^ (a ^ (b ^ c))) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((x ^ a) ^ b) ^ c) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((x ^ c) ^ b) ^ a) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((x ^ b) ^ c) ^ a) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == (x ^ a) ^ (b ^ c)) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((a ^ b) ^ c) ^ x) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((a ^ b) ^ x) ^ c) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == (x == (a ^ b) ^ c)) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == (x == a ^ (b ^ c))) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == (x ^ a == b ^ c)) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == ((x ^ a) ^ b == c)) by (bit_vector);
}
pub proof fn forms3_u16(x: u16, a: u16, b: u16)
  ensures (x ^ a) ^ b == x ^ (a ^ b), (x ^ a) ^ b == x ^ (b ^ a), (x ^ a) ^ b == (x ^ b) ^ a, (x ^ a) ^ b == (a ^ x) ^ b, (x ^ a) ^ b == a ^ (x ^ b), (x ^ a) ^ b == (a ^ b) ^ x, (x ^ a) ^ b == (b ^ a) ^ x, (x ^ a) ^ b == (b ^ x) ^ a, (x ^ a) ^ b == b ^ (x ^ a),
{
  assert((x ^ a) ^ b == x ^ (a ^ b)) by (bit_vector);
  assert((x ^ a) ^ b == x ^ (b ^ a)) by (bit_vector);
  assert((x ^ a) ^ b == (x ^ b) ^ a) by (bit_vector);
  assert((x ^ a) ^ b == (a ^ x) ^ b) by (bit_vector);
  assert((x ^ a) ^ b == a ^ (x ^ b)) by (bit_vector);
  assert((x ^ a) ^ b == (a ^ b) ^ x) by (bit_vector);
  assert((x ^ a) ^ b == (b ^ a) ^ x) by (bit_vector);
  assert((x ^ a) ^ b == (b ^ x) ^ a) by (bit_vector);
  assert((x ^ a) ^ b == b ^ (x ^ a)) by (bit_vector);
}
pub proof fn forms4_u16(x: u16, a: u16, b: u16, c: u16)
  ensures ((x ^ a) ^ b) ^ c == x ^ ((a ^ b) ^ c), ((x ^ a) ^ b) ^ c == x ^ (a ^ (b ^ c)), ((x ^ a) ^ b) ^ c == ((x ^ a) ^ b) ^ c, ((x ^ a) ^ b) ^ c == ((x ^ c) ^ b) ^ a, ((x ^ a) ^ b) ^ c == ((x ^ b) ^ c) ^ a, ((x ^ a) ^ b) ^ c == (x ^ a) ^ (b ^ c), ((x ^ a) ^ b) ^ c == ((a ^ b) ^ c) ^ x, ((x ^ a) ^ b) ^ c == ((a ^ b) ^ x) ^ c, (((x ^ a) ^ b) ^ c == 0) == (x == (a ^ b) ^ c), (((x ^ a) ^ b) ^ c == 0) == (x == a ^ (b ^ c)), (((x ^ a) ^ b) ^ c == 0) == (x ^ a == b ^ c), (((x ^ a) ^ b) ^ c == 0) == ((x ^ a) ^ b == c),
{
  assert(((x ^ a) ^ b) ^ c == x ^ ((a ^ b) ^ c)) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == x ^ (a ^ (b ^ c))) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((x ^ a) ^ b) ^ c) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((x ^ c) ^ b) ^ a) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((x ^ b) ^ c) ^ a) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == (x ^ a) ^ (b ^ c)) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((a ^ b) ^ c) ^ x) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((a ^ b) ^ x) ^ c) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == (x == (a ^ b) ^ c)) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == (x == a ^ (b ^ c))) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == (x ^ a == b ^ c)) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == ((x ^ a) ^ b == c)) by (bit_vector);
}
pub proof fn forms3_u32(x: u32, a: u32, b: u32)
  ensures (x ^ a) ^ b == x ^ (a ^ b), (x ^ a) ^ b == x ^ (b ^ a), (x ^ a) ^ b == (x ^ b) ^ a, (x ^ a) ^ b == (a ^ x) ^ b, (x ^ a) ^ b == a ^ (x ^ b), (x ^ a) ^ b == (a ^ b) ^ x, (x ^ a) ^ b == (b ^ a) ^ x, (x ^ a) ^ b == (b ^ x) ^ a, (x ^ a) ^ b == b ^ (x ^ a),
{
  assert((x ^ a) ^ b == x ^ (a ^ b)) by (bit_vector);
  assert((x ^ a) ^ b == x ^ (b ^ a)) by (bit_vector);
  assert((x ^ a) ^ b == (x ^ b) ^ a) by (bit_vector);
  assert((x ^ a) ^ b == (a ^ x) ^ b) by (bit_vector);
  assert((x ^ a) ^ b == a ^ (x ^ b)) by (bit_vector);
  assert((x ^ a) ^ b == (a ^ b) ^ x) by (bit_vector);
  assert((x ^ a) ^ b == (b ^ a) ^ x) by (bit_vector);
  assert((x ^ a) ^ b == (b ^ x) ^ a) by (bit_vector);
  assert((x ^ a) ^ b == b ^ (x ^ a)) by (bit_vector);
}
pub proof fn forms4_u32(x: u32, a: u32, b: u32, c: u32)
  ensures ((x ^ a) ^ b) ^ c == x ^ ((a ^ b) ^ c), ((x ^ a) ^ b) ^ c == x ^ (a ^ (b ^ c)), ((x ^ a) ^ b) ^ c == ((x ^ a) ^ b) ^ c, ((x ^ a) ^ b) ^ c == ((x ^ c) ^ b) ^ a, ((x ^ a) ^ b) ^ c == ((x ^ b) ^ c) ^ a, ((x ^ a) ^ b) ^ c == (x ^ a) ^ (b ^ c), ((x ^ a) ^ b) ^ c == ((a ^ b) ^ c) ^ x, ((x ^ a) ^ b) ^ c == ((a ^ b) ^ x) ^ c, (((x ^ a) ^ b) ^ c == 0) == (x == (a ^ b) ^ c), (((x ^ a) ^ b) ^ c == 0) == (x == a ^ (b ^ c)), (((x ^ a) ^ b) ^ c == 0) == (x ^ a == b ^ c), (((x ^ a) ^ b) ^ c == 0) == ((x ^ a) ^ b == c),
{
  assert(((x ^ a) ^ b) ^ c == x ^ ((a ^ b) ^ c)) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == x ^ (a ^ (b ^ c))) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((x ^ a) ^ b) ^ c) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((x ^ c) ^ b) ^ a) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((x ^ b) ^ c) ^ a) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == (x ^ a) ^ (b ^ c)) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((a ^ b) ^ c) ^ x) by (bit_vector);
  assert(((x ^ a) ^ b) ^ c == ((a ^ b) ^ x) ^ c) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == (x == (a ^ b) ^ c)) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == (x == a ^ (b ^ c))) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == (x ^ a == b ^ c)) by (bit_vector);
  assert((((x ^ a) ^ b) ^ c == 0) == ((x ^ a) ^ b == c)) by (bit_vector);
}

// ---- hints given to functions whose text changed (check.py, LADDER) -------------------------
pub broadcast proof fn hint_ceil(a: int, b: int)
  requires a >= 0, b > 0,
  ensures #![trigger (a + b - 1) / b] (a + b - 1) / b == (if a % b == 0 { a / b } else { a / b + 1 })
{
  lemma_fundamental_div_mod(a, b);
  let q = a / b; let m = a % b;
  assert(a == q * b + m) by (nonlinear_arith) requires a == b * q + m;
  if m == 0 {
    lemma_fundamental_div_mod_converse(a + b - 1, b, q, b - 1);
  } else {
    assert(a + b - 1 == (q + 1) * b + (m - 1)) by (nonlinear_arith) requires a == q * b + m;
    lemma_fundamental_div_mod_converse(a + b - 1, b, q + 1, m - 1);
  }
}
pub broadcast proof fn hint_divmod(a: int, b: int)
  requires a >= 0, b > 0,
  ensures #![trigger a / b] a == (a / b) * b + a % b, 0 <= a % b < b, 0 <= a / b <= a
{
  lemma_fundamental_div_mod(a, b);
  let q = a / b; let m = a % b;
  assert(a == q * b + m) by (nonlinear_arith) requires a == b * q + m;
  lemma_div_is_ordered_by_denominator(a, 1, b);
  lemma_div_basics(a);
}
pub broadcast proof fn hint_mul_commutes(a: int, b: int)
  ensures #[trigger] (a * b) == b * a
{ assert(a * b == b * a) by (nonlinear_arith); }
pub broadcast proof fn hint_pow2_small(e: nat)
  ensures #![trigger pow2(e)] e == 0 ==> pow2(e) == 1, e == 1 ==> pow2(e) == 2, e == 2 ==> pow2(e) == 4, e == 3 ==> pow2(e) == 8,
    e == 4 ==> pow2(e) == 16, e == 5 ==> pow2(e) == 32, e == 32 ==> pow2(e) == 0x1_0000_0000, e < 32 ==> pow2(e) <= 0x8000_0000, pow2(e) >= 1,
{
  lemma2_to64(); lemma2_to64_rest(); lemma_pow2_pos(e);
  if e < 31 { lemma_pow2_strictly_increases(e, 31); }
}
pub broadcast proof fn hint_trunc_u64(x: u64)
  ensures #![trigger x as u32] (x as u32) as int == x as int % 0x1_0000_0000
{ assert((x as u32) as u64 == x % 0x1_0000_0000) by (bit_vector); }
pub broadcast proof fn hint_low_word(x: u64)
  ensures #![trigger x & 0xffff_ffff] x & 0xffff_ffff == x % 0x1_0000_0000
{ assert(x & 0xffff_ffff == x % 0x1_0000_0000) by (bit_vector); }
pub broadcast proof fn hint_mask_u32(x: u32, m: u32, e: nat)
  requires e < 32, m == pow2(e) - 1,
  ensures #![trigger x & m, pow2(e)] x & m == x % (pow2(e) as u32)
{
  hint_pow2_small(e);
  vstd::bits::lemma_u32_low_bits_mask_is_mod(x, e);
  vstd::bits::lemma_low_bits_mask_values();
  assert(vstd::bits::low_bits_mask(e) == pow2(e) - 1) by { reveal(vstd::bits::low_bits_mask); }
}
pub broadcast proof fn hint_mask_u64(x: u64, m: u64, e: nat)
  requires e < 64, m == pow2(e) - 1,
  ensures #![trigger x & m, pow2(e)] x & m == x % (pow2(e) as u64)
{
  lemma_pow2_pos(e); lemma2_to64(); lemma2_to64_rest();
  if e < 63 { lemma_pow2_strictly_increases(e, 63); }
  vstd::bits::lemma_u64_low_bits_mask_is_mod(x, e);
  assert(vstd::bits::low_bits_mask(e) == pow2(e) - 1) by { reveal(vstd::bits::low_bits_mask); }
}
pub broadcast group group_hints {
  hint_ceil, hint_divmod, hint_mul_commutes, hint_pow2_small, hint_trunc_u64, hint_low_word, hint_mask_u32, hint_mask_u64,
  vstd::bits::lemma_u32_shl_is_mul, vstd::bits::lemma_u32_shr_is_div, vstd::bits::lemma_u64_shl_is_mul, vstd::bits::lemma_u64_shr_is_div,
}

} // verus!
