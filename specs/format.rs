// ---- bits ----------------------------------------------------------------------------------
pub open spec fn bit8(b: u8, k: int) -> bool { ((b >> (k as u8)) & 1u8) == 1u8 }
pub open spec fn bit32(x: u32, k: int) -> bool { ((x >> (k as u32)) & 1u32) == 1u32 }

pub proof fn lemma_bit8_ext(a: u8, b: u8)
  requires forall|k: int| 0 <= k < 8 ==> bit8(a, k) == bit8(b, k),
  ensures a == b,
{
  assert(bit8(a, 0) == bit8(b, 0)); assert(bit8(a, 1) == bit8(b, 1)); assert(bit8(a, 2) == bit8(b, 2)); assert(bit8(a, 3) == bit8(b, 3));
  assert(bit8(a, 4) == bit8(b, 4)); assert(bit8(a, 5) == bit8(b, 5)); assert(bit8(a, 6) == bit8(b, 6)); assert(bit8(a, 7) == bit8(b, 7));
  assert(a == b) by (bit_vector)
    requires
      (((a >> 0u8) & 1u8) == 1u8) == (((b >> 0u8) & 1u8) == 1u8), (((a >> 1u8) & 1u8) == 1u8) == (((b >> 1u8) & 1u8) == 1u8),
      (((a >> 2u8) & 1u8) == 1u8) == (((b >> 2u8) & 1u8) == 1u8), (((a >> 3u8) & 1u8) == 1u8) == (((b >> 3u8) & 1u8) == 1u8),
      (((a >> 4u8) & 1u8) == 1u8) == (((b >> 4u8) & 1u8) == 1u8), (((a >> 5u8) & 1u8) == 1u8) == (((b >> 5u8) & 1u8) == 1u8),
      (((a >> 6u8) & 1u8) == 1u8) == (((b >> 6u8) & 1u8) == 1u8), (((a >> 7u8) & 1u8) == 1u8) == (((b >> 7u8) & 1u8) == 1u8);
}
pub proof fn lemma_set_bit(b: u8, e: u32)
  requires e < 8, forall|k: int| e <= k < 8 ==> !bit8(b, k),
  ensures b + (1u8 << e) <= 255, b | (1u8 << e) == b + (1u8 << e), b ^ (1u8 << e) == b + (1u8 << e), (1u8 << e) == pow2(e as nat),
    forall|k: int| 0 <= k < 8 ==> bit8((b + (1u8 << e)) as u8, k) == (bit8(b, k) || k == e),
{
  assert forall|k: u8| e <= k < 8 implies ((b >> k) & 1) != 1 by { assert(!bit8(b, k as int)); }
  assert((b as u16 & 0xff) >> (e as u16) == 0) by {
    let e8 = e as u8;
    assert(e <= 0 ==> ((b >> 0u8) & 1) != 1); assert(e <= 1 ==> ((b >> 1u8) & 1) != 1); assert(e <= 2 ==> ((b >> 2u8) & 1) != 1); assert(e <= 3 ==> ((b >> 3u8) & 1) != 1);
    assert(e <= 4 ==> ((b >> 4u8) & 1) != 1); assert(e <= 5 ==> ((b >> 5u8) & 1) != 1); assert(e <= 6 ==> ((b >> 6u8) & 1) != 1); assert(e <= 7 ==> ((b >> 7u8) & 1) != 1);
    assert((b as u16 & 0xff) >> (e as u16) == 0) by (bit_vector)
      requires e < 8,
        e <= 0 ==> ((b >> 0u8) & 1) != 1, e <= 1 ==> ((b >> 1u8) & 1) != 1, e <= 2 ==> ((b >> 2u8) & 1) != 1, e <= 3 ==> ((b >> 3u8) & 1) != 1,
        e <= 4 ==> ((b >> 4u8) & 1) != 1, e <= 5 ==> ((b >> 5u8) & 1) != 1, e <= 6 ==> ((b >> 6u8) & 1) != 1, e <= 7 ==> ((b >> 7u8) & 1) != 1;
  }
  assert(b as u32 + ((1u8 << e) as u32) <= 255 && (b | (1u8 << e)) == add(b, 1u8 << e) && (b ^ (1u8 << e)) == add(b, 1u8 << e)) by (bit_vector)
    requires e < 8, (b as u16 & 0xff) >> (e as u16) == 0;
  hint_pow2_small(e as nat); lemma2_to64();
  assert((1u8 << e) == 1u8 && e == 0 || (1u8 << e) == 2u8 && e == 1 || (1u8 << e) == 4u8 && e == 2 || (1u8 << e) == 8u8 && e == 3
    || (1u8 << e) == 16u8 && e == 4 || (1u8 << e) == 32u8 && e == 5 || (1u8 << e) == 64u8 && e == 6 || (1u8 << e) == 128u8 && e == 7) by (bit_vector) requires e < 8;
  assert(b as u32 + ((1u8 << e) as u32) <= 255 && forall|k: u8| k < 8 ==> #[trigger] ((add(b, 1u8 << e) >> k) & 1) == (if k as u32 == e { 1u8 } else { (b >> k) & 1 })) by (bit_vector)
    requires e < 8, (b as u16 & 0xff) >> (e as u16) == 0;
  assert forall|k: int| 0 <= k < 8 implies bit8((b + (1u8 << e)) as u8, k) == (bit8(b, k) || k == e) by {
    let k8 = k as u8;
    assert(((add(b, 1u8 << e) >> k8) & 1) == (if k8 as u32 == e { 1u8 } else { (b >> k8) & 1 }));
  }
}
pub proof fn lemma_bit8_zero()
  ensures forall|k: int| 0 <= k < 8 ==> !(#[trigger] bit8(0u8, k)),
{
  assert forall|k: int| 0 <= k < 8 implies !(#[trigger] bit8(0u8, k)) by {
    let k8 = k as u8;
    assert((0u8 >> k8) & 1 == 0) by (bit_vector);
  }
}

@fn utils::format::u8_to_bits_le
@ret r
@spec
  ensures r@.len() == 8, forall|k: int| 0 <= k < 8 ==> (#[trigger] r@[k]) == bit8(byte, k),
@loop 0
  invariant
    ret@.len() == $i, forall|k: int| 0 <= k < $i ==> (#[trigger] ret@[k]) == bit8(byte, k),
@bodyend 0
  proof {
    let e = $i as u32; let e8 = $i as u8;
    assert((((1u8 << e) & byte) > 0) == (((byte >> e8) & 1u8) == 1u8)) by (bit_vector) requires e < 8, e8 as u32 == e;
  }
@end

pub proof fn lemma_bit32_of_byte(x: u32, k: int)
  requires 0 <= k < 32,
  ensures
    k < 8 ==> bit32(x, k) == bit8((x & 0xff) as u8, k),
    8 <= k < 16 ==> bit32(x, k) == bit8(((x >> 8) & 0xff) as u8, k - 8),
    16 <= k < 24 ==> bit32(x, k) == bit8(((x >> 16) & 0xff) as u8, k - 16),
    24 <= k < 32 ==> bit32(x, k) == bit8(((x >> 24) & 0xff) as u8, k - 24),
{
  let k32 = k as u32;
  let k8 = (k % 8) as u8;
  if k < 8 {
    assert((((x >> k32) & 1u32) == 1u32) == (((((x & 0xff) as u8) >> k8) & 1u8) == 1u8)) by (bit_vector) requires k32 < 8, k8 as u32 == k32;
  } else if k < 16 {
    assert((((x >> k32) & 1u32) == 1u32) == ((((((x >> 8) & 0xff) as u8) >> k8) & 1u8) == 1u8)) by (bit_vector) requires k32 < 16, k32 >= 8, k8 as u32 == sub(k32, 8);
  } else if k < 24 {
    assert((((x >> k32) & 1u32) == 1u32) == ((((((x >> 16) & 0xff) as u8) >> k8) & 1u8) == 1u8)) by (bit_vector) requires k32 < 24, k32 >= 16, k8 as u32 == sub(k32, 16);
  } else {
    assert((((x >> k32) & 1u32) == 1u32) == ((((((x >> 24) & 0xff) as u8) >> k8) & 1u8) == 1u8)) by (bit_vector) requires k32 < 32, k32 >= 24, k8 as u32 == sub(k32, 24);
  }
}

@fn utils::format::u32_to_bits_le
@ret r
@spec
  requires bit_len <= 32,
  ensures r@.len() == bit_len, forall|k: int| 0 <= k < bit_len ==> (#[trigger] r@[k]) == bit32(x, k),
@loop 0
  invariant
    bits@.len() == 8 * $i, $i <= 4, bytes@.len() == 4,
    bytes@[0] == (x & 0xff) as u8, bytes@[1] == ((x >> 8) & 0xff) as u8,
    bytes@[2] == ((x >> 16) & 0xff) as u8, bytes@[3] == ((x >> 24) & 0xff) as u8,
    forall|k: int| 0 <= k < 8 * $i ==> (#[trigger] bits@[k]) == bit32(x, k),
@body 0
  let ghost b0 = bits@;
@bodyend 0
  proof {
    assert forall|k: int| 0 <= k < 8 * ($i + 1) implies (#[trigger] bits@[k]) == bit32(x, k) by {
      if k < 8 * $i { assert(bits@[k] == b0[k]); } else { lemma_bit32_of_byte(x, k); }
    }
  }
@end

// bytes that carry the given bits, least significant first, padded with zeroes
pub open spec fn packs(bytes: Seq<u8>, bits: Seq<bool>) -> bool {
  bytes.len() == (bits.len() + 7) / 8
  && forall|j: int, k: int| 0 <= j < bytes.len() && 0 <= k < 8 ==>
      #[trigger] bit8(bytes[j], k) == (8 * j + k < bits.len() && bits[8 * j + k])
}

@fn utils::format::bits_to_bytes_le
@ret r
@spec
  requires bits@.len() < 0x20_0000_0000_0000,
  ensures packs(r@, bits@),
@before 0
  proof { lemma_bit8_zero(); }
@loop 0
  invariant
    bits@.len() < 0x20_0000_0000_0000, $i <= bits@.len(), bytes@.len() == (bits@.len() + 7) / 8,
    forall|j: int, k: int| 0 <= j < bytes@.len() && 0 <= k < 8 ==>
      #[trigger] bit8(bytes@[j], k) == (8 * j + k < $i && bits@[8 * j + k]),
@body 0
  let ghost b0 = bytes@;
  proof {
    let jj = $i as int / 8;
    assert forall|k: int| $i as int % 8 <= k < 8 implies !bit8(bytes@[jj], k) by { assert(8 * jj + k >= $i); }
    lemma_set_bit(bytes@[jj], ($i % 8) as u32);
  }
@bodyend 0
  proof {
    let jj = $i as int / 8;
    assert forall|j: int, k: int| 0 <= j < bytes@.len() && 0 <= k < 8 implies
      #[trigger] bit8(bytes@[j], k) == (8 * j + k < $i + 1 && bits@[8 * j + k]) by {
      assert(bit8(b0[j], k) == (8 * j + k < $i && bits@[8 * j + k]));
    }
  }
@end

@fn utils::format::bytes_to_bits_le
@ret r
@spec
  requires bytes@.len() < 0x1_0000_0000_0000,
  ensures r@.len() == 8 * bytes@.len(), forall|k: int| 0 <= k < 8 * bytes@.len() ==> (#[trigger] r@[k]) == bit8(bytes@[k / 8], k % 8),
@loop 0
  invariant
    __v0@.len() == $i, $i <= bytes@.len(),
    forall|j: int| 0 <= j < $i ==> (#[trigger] __v0@[j])@.len() == 8,
    forall|j: int, k: int| 0 <= j < $i && 0 <= k < 8 ==> (#[trigger] __v0@[j]@[k]) == bit8(bytes@[j], k),
@loop 1
  invariant
    $i <= bytes@.len(), __b0@.len() == bytes@.len(),
    acc@.len() == 8 * $i,
    forall|j: int| 0 <= j < bytes@.len() ==> (#[trigger] __b0@[j])@.len() == 8,
    forall|j: int, k: int| 0 <= j < bytes@.len() && 0 <= k < 8 ==> (#[trigger] __b0@[j]@[k]) == bit8(bytes@[j], k),
    forall|k: int| 0 <= k < 8 * $i ==> (#[trigger] acc@[k]) == bit8(bytes@[k / 8], k % 8),
@body 1
  let ghost a0 = acc@;
@bodyend 1
  proof {
    assert forall|k: int| 0 <= k < 8 * ($i + 1) implies (#[trigger] acc@[k]) == bit8(bytes@[k / 8], k % 8) by {
      if k < 8 * $i { assert(acc@[k] == a0[k]); } else { assert(acc@[k] == __b0@[$i as int]@[k - 8 * $i]); }
    }
  }
@end

pub proof fn lemma_le32_bit(b: Seq<u8>, k: int)
  requires b.len() == 4, 0 <= k < 32,
  ensures bit32(le32(b), k) == bit8(b[k / 8], k % 8),
{
  let x = le32(b);
  let (b0, b1, b2, b3) = (b[0], b[1], b[2], b[3]);
  assert((x & 0xff) as u8 == b0 && ((x >> 8) & 0xff) as u8 == b1 && ((x >> 16) & 0xff) as u8 == b2 && ((x >> 24) & 0xff) as u8 == b3) by (bit_vector)
    requires x == ((b0 as u32) | ((b1 as u32) << 8) | ((b2 as u32) << 16) | ((b3 as u32) << 24));
  lemma_bit32_of_byte(x, k);
}

@fn utils::format::u32_sized_bytes_from_vec
@sub (\w+)\s*\.\s*try_into\(\) ==> crate::ext::vec_try_into(\1)
@ret r
@spec
  ensures match r { Ok(a) => bytes@.len() == 4 && a@ == bytes@, Err(_) => bytes@.len() != 4 },
@end

@fn utils::format::bits_to_u32_le
@ret r
@spec
  requires bits@.len() < 0x20_0000_0000_0000,
  ensures
    match r {
      Ok(x) => bits@.len() <= 32 && forall|k: int| 0 <= k < 32 ==> #[trigger] bit32(x, k) == (k < bits@.len() && bits@[k]),
      Err(_) => bits@.len() > 32,
    },
@stmt padding 0
  let ghost b0 = bytes@;
@tail
  proof {
    lemma_bit8_zero();
    assert(bytes@.len() == 4);
    assert forall|k: int| 0 <= k < 32 implies #[trigger] bit32(le32(bytes@), k) == (k < bits@.len() && bits@[k]) by {
      lemma_le32_bit(bytes@, k);
      if k / 8 < b0.len() {
        assert(bytes@[k / 8] == b0[k / 8]);
        assert(bit8(b0[k / 8], k % 8) == (8 * (k / 8) + k % 8 < bits@.len() && bits@[8 * (k / 8) + k % 8]));
      } else {
        assert(bytes@[k / 8] == 0);
      }
    }
  }
@end

// ---- rows ----------------------------------------------------------------------------------
pub open spec fn width_of(es: int, pb: int) -> int { if es % pb != 0 { es / pb + 1 } else { es / pb } }
pub open spec fn bytes_of(es: int) -> int { (es + 7) / 8 }

// row is the sequence of pb-bit words of the bytes (the last word is cut at the end of the bytes)
pub open spec fn is_row(row: Seq<u32>, bytes: Seq<u8>, es: int, pb: int) -> bool {
  row.len() == width_of(es, pb)
  && forall|i: int, k: int| 0 <= i < row.len() && 0 <= k < 32 ==>
      #[trigger] bit32(row[i], k) == (k < pb && i * pb + k < 8 * bytes.len() && bit8(bytes[(i * pb + k) / 8], (i * pb + k) % 8))
}
// out is the bytes of the first es bits of the row
pub open spec fn is_bytes(out: Seq<u8>, row: Seq<u32>, es: int, pb: int) -> bool {
  out.len() == bytes_of(es)
  && forall|j: int, k: int| 0 <= j < out.len() && 0 <= k < 8 ==>
      #[trigger] bit8(out[j], k) == (8 * j + k < es && bit32(row[(8 * j + k) / pb], (8 * j + k) % pb))
}
// s is the base64 text of a row of a database
pub open spec fn is_text(s: Seq<u8>, row: Seq<u32>, es: int, pb: int) -> bool {
  exists|out: Seq<u8>| is_bytes(out, row, es, pb) && #[trigger] b64_enc(out) == s
}
// the element: the bytes with everything beyond es bits read as zero
pub open spec fn is_masked(out: Seq<u8>, bytes: Seq<u8>, es: int) -> bool {
  out.len() == bytes_of(es) && bytes.len() == bytes_of(es)
  && forall|j: int, k: int| 0 <= j < out.len() && 0 <= k < 8 ==>
      #[trigger] bit8(out[j], k) == (8 * j + k < es && bit8(bytes[j], k))
}

pub proof fn lemma_roundtrip(row: Seq<u32>, bytes: Seq<u8>, out: Seq<u8>, es: int, pb: int)
  requires 1 <= pb < 32, es >= 0, bytes.len() == bytes_of(es), is_row(row, bytes, es, pb), is_bytes(out, row, es, pb),
  ensures is_masked(out, bytes, es), es % 8 == 0 ==> out == bytes,
{
  assert forall|j: int, k: int| 0 <= j < out.len() && 0 <= k < 8 implies
      #[trigger] bit8(out[j], k) == (8 * j + k < es && bit8(bytes[j], k)) by {
    let t = 8 * j + k;
    if t < es {
      let i = t / pb; let q = t % pb;
      assert(t == i * pb + q && 0 <= q < pb) by (nonlinear_arith) requires i == t / pb, q == t % pb, pb > 0;
      assert(i < width_of(es, pb)) by {
        assert(es == (es / pb) * pb + es % pb && 0 <= es % pb < pb) by (nonlinear_arith) requires pb > 0;
        if i >= width_of(es, pb) {
          assert(i * pb >= es) by (nonlinear_arith) requires i >= width_of(es, pb), pb > 0, es == (es / pb) * pb + es % pb, 0 <= es % pb < pb,
            width_of(es, pb) == (if es % pb != 0 { es / pb + 1 } else { es / pb });
        }
      }
      assert(0 <= i) by (nonlinear_arith) requires i == t / pb, t >= 0, pb > 0;
      assert(bit32(row[i], q) == (q < pb && i * pb + q < 8 * bytes.len() && bit8(bytes[(i * pb + q) / 8], (i * pb + q) % 8)));
      assert(t / 8 == j && t % 8 == k);
    }
  }
  if es % 8 == 0 {
    assert forall|j: int| 0 <= j < out.len() implies out[j] == bytes[j] by {
      assert forall|k: int| 0 <= k < 8 implies bit8(out[j], k) == bit8(bytes[j], k) by { assert(8 * j + k < es); }
      lemma_bit8_ext(out[j], bytes[j]);
    }
    assert(out =~= bytes);
  }
}
pub proof fn lemma_masked_unique(a: Seq<u8>, b: Seq<u8>, bytes: Seq<u8>, es: int)
  requires is_masked(a, bytes, es), is_masked(b, bytes, es),
  ensures a == b,
{
  assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by {
    assert forall|k: int| 0 <= k < 8 implies bit8(a[j], k) == bit8(b[j], k) by {}
    lemma_bit8_ext(a[j], b[j]);
  }
  assert(a =~= b);
}
pub proof fn lemma_u32_bits_bound(x: u32, pb: nat)
  requires pb <= 32, forall|k: int| pb <= k < 32 ==> !bit32(x, k),
  ensures (x as int) < pow2(pb),
{
  lemma2_to64();
  if pb < 32 {
    let p = pb as u32;
    lemma_high_zero(x, p, p);
    vstd::bits::lemma_u32_shr_is_div(x, p);
    lemma_pow2_pos(pb);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x as int, pow2(pb) as int);
    vstd::arithmetic::div_mod::lemma_mod_bound(x as int, pow2(pb) as int);
  }
}
pub proof fn lemma_high_zero(x: u32, p: u32, from: u32)
  requires p <= from <= 32, p < 32, forall|k: int| from <= k < 32 ==> !bit32(x, k),
  ensures from < 32 ==> x >> from == 0,
  decreases 32 - from,
{
  if from < 32 {
    lemma_high_zero(x, p, (from + 1) as u32);
    assert(!bit32(x, from as int));
    if from == 31 {
      assert(x >> 31 == 0) by (bit_vector) requires ((x >> 31u32) & 1u32) != 1u32;
    } else {
      assert(x >> from == 0) by (bit_vector) requires from < 31, ((x >> from) & 1u32) != 1u32, x >> add(from, 1) == 0;
    }
  }
}
pub proof fn lemma_row_bound(row: Seq<u32>, bytes: Seq<u8>, es: int, pb: nat)
  requires 1 <= pb < 32, is_row(row, bytes, es, pb as int),
  ensures forall|i: int| 0 <= i < row.len() ==> ((#[trigger] row[i]) as int) < pow2(pb),
{
  assert forall|i: int| 0 <= i < row.len() implies ((#[trigger] row[i]) as int) < pow2(pb) by {
    assert forall|k: int| pb <= k < 32 implies !bit32(row[i], k) by {}
    lemma_u32_bits_bound(row[i], pb);
  }
}

pub proof fn lemma_width(es: int, pb: int)
  requires pb >= 1, es >= 0,
  ensures
    0 <= width_of(es, pb) <= es,
    es > 0 ==> width_of(es, pb) >= 1,
    es > 0 ==> (width_of(es, pb) - 1) * pb < es,
    width_of(es, pb) * pb >= es,
    width_of(es, pb) * pb < es + pb,
{
  assert(es == (es / pb) * pb + es % pb && 0 <= es % pb < pb) by (nonlinear_arith) requires pb > 0;
  assert(es / pb >= 0) by (nonlinear_arith) requires es >= 0, pb > 0;
  let w = width_of(es, pb);
  let q = es / pb; let r = es % pb;
  assert(w * pb >= es && w * pb < es + pb && w <= es && (es > 0 ==> w >= 1)) by (nonlinear_arith)
    requires es == q * pb + r, 0 <= r < pb, q >= 0, pb >= 1, w == (if r != 0 { q + 1 } else { q }), es >= 0;
  assert((w - 1) * pb == w * pb - pb) by (nonlinear_arith);
}

// bits of a row of full words, the last one cut to rem bits
pub open spec fn row_bits_len(n: int, pb: int, rem: int) -> int { if n == 0 { 0 } else { (n - 1) * pb + rem } }

@fn utils::format::bytes_from_u32_slice
@ret r
@spec
  requires
    1 <= entry_bit_len < 32, total_bit_len < 0x1_0000_0000_0000, v@.len() == width_of(total_bit_len as int, entry_bit_len as int),
  ensures is_bytes(r@, v@, total_bit_len as int, entry_bit_len as int),
@start
  proof {
    lemma_width(total_bit_len as int, entry_bit_len as int);
    assert(entry_bit_len * v@.len() < 0x1_0000_0000_0000 + 32) by (nonlinear_arith)
      requires v@.len() * (entry_bit_len as int) < total_bit_len + entry_bit_len, total_bit_len < 0x1_0000_0000_0000, entry_bit_len < 32;
    assert(0 * (entry_bit_len as int) == 0) by (nonlinear_arith);
  }
@loop 0
  invariant
    1 <= entry_bit_len < 32, total_bit_len < 0x1_0000_0000_0000, v@.len() == width_of(total_bit_len as int, entry_bit_len as int),
    remainder as int == (if total_bit_len as int % (entry_bit_len as int) == 0 { entry_bit_len as int } else { total_bit_len as int % (entry_bit_len as int) }),
    1 <= remainder <= entry_bit_len,
    $i < v@.len() ==> bits@.len() == $i * entry_bit_len,
    $i == v@.len() ==> bits@.len() == total_bit_len,
    forall|t: int| 0 <= t < bits@.len() ==> (#[trigger] bits@[t]) == bit32(v@[t / (entry_bit_len as int)], t % (entry_bit_len as int)),
@body 0
  let ghost b0 = bits@;
  let ghost pb = entry_bit_len as int;
@bodyend 0
  proof {
    assert(b0.len() == $i * pb);
    assert(($i + 1) * pb == $i * pb + pb) by (nonlinear_arith);
    if $i + 1 == v@.len() {
      let es = total_bit_len as int;
      let q = es / pb; let r = es % pb;
      assert(es == q * pb + r) by (nonlinear_arith) requires q == es / pb, r == es % pb, pb > 0;
      assert(bits@.len() == es) by (nonlinear_arith)
        requires es == q * pb + r, $i + 1 == (if r != 0 { q + 1 } else { q }), bits@.len() == $i * pb + remainder, remainder as int == (if r == 0 { pb } else { r });
    }
    assert forall|t: int| 0 <= t < bits@.len() implies (#[trigger] bits@[t]) == bit32(v@[t / pb], t % pb) by {
      if t < b0.len() {
        assert(bits@[t] == b0[t]);
      } else {
        let k = t - b0.len();
        assert(t / pb == $i && t % pb == k) by {
          vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(t, pb, $i as int, k);
        }
      }
    }
  }
@tail
  let ghost fbits = bits@;
  proof {
    let pb = entry_bit_len as int; let es = total_bit_len as int;
    lemma_width(es, pb);
    assert(fbits.len() == es);
    assert forall|out: Seq<u8>| packs(out, fbits) implies is_bytes(out, v@, es, pb) by {
      assert forall|j: int, k: int| 0 <= j < out.len() && 0 <= k < 8 implies
        #[trigger] bit8(out[j], k) == (8 * j + k < es && bit32(v@[(8 * j + k) / pb], (8 * j + k) % pb)) by {
        if 8 * j + k < es { assert(fbits[8 * j + k] == bit32(v@[(8 * j + k) / pb], (8 * j + k) % pb)); }
      }
    }
  }
@end

@fn utils::format::base64_from_u32_slice
@ret r
@spec
  requires
    1 <= entry_bit_len < 32, total_bit_len < 0x1_0000_0000_0000, v@.len() == width_of(total_bit_len as int, entry_bit_len as int),
  ensures is_text(r.bytes(), v@, total_bit_len as int, entry_bit_len as int),
@end

// ---- keys: four little-endian words of the SHA-256 digest ---------------------------------
pub open spec fn sha_key(input: Seq<u8>) -> Seq<u64> {
  Seq::new(4, |i: int| le64(sha256(input).subrange(8 * i, 8 * i + 8)))
}
@fn utils::format::sha256_into_u64_sized
@sub (\w+)\s*\.\s*try_into\(\) ==> crate::ext::vec_try_into(\1)
@ret r
@spec
  ensures r is Ok, r->Ok_0@ == sha_key(input@),
@start
  proof { assert(Seq::<u8>::empty() + input@ =~= input@); }
@loop 0
  invariant
    digest@ == sha256(input@), digest@.len() == 32, key@.len() == 4,
    forall|j: int| 0 <= j < $i ==> (#[trigger] key@[j]) == le64(sha256(input@).subrange(8 * j, 8 * j + 8)),
@tail
  proof { assert(key@ =~= sha_key(input@)); }
@end
