@const utils::lwe::MODULUS

pub proof fn lemma_scale(pb: nat)
  requires pb < 32,
  ensures pow2(pb) * pow2((32 - pb) as nat) == M32, pow2(pb) >= 1, pow2(pb) <= 0x8000_0000, pow2((32 - pb) as nat) >= 2,
    M32 / (pow2(pb) as int) == pow2((32 - pb) as nat),
    pb >= 1 ==> pow2((32 - pb) as nat) <= 0x8000_0000,
    pow2((32 - pb) as nat) == 2 * pow2((31 - pb) as nat),
    pow2((32 - pb) as nat) / 2 == pow2((31 - pb) as nat),
    pow2((31 - pb) as nat) >= 1,
{
  lemma_pow2_adds(pb, (32 - pb) as nat);
  lemma2_to64();
  lemma_pow2_pos(pb); lemma_pow2_pos((31 - pb) as nat);
  lemma_pow2_unfold((32 - pb) as nat);
  if pb < 31 { lemma_pow2_strictly_increases(pb, 31); }
  if pb > 1 { lemma_pow2_strictly_increases((32 - pb) as nat, 31); }
  vstd::arithmetic::div_mod::lemma_div_multiples_vanish(pow2((32 - pb) as nat) as int, pow2(pb) as int);
  assert(pow2(pb) as int * pow2((32 - pb) as nat) as int == pow2((32 - pb) as nat) as int * pow2(pb) as int) by (nonlinear_arith);
}

@fn utils::lwe::get_plaintext_size
@ret r
@spec
  requires plaintext_bits < 32,
  ensures r == pow2(plaintext_bits as nat),
@start
  proof { lemma_scale(plaintext_bits as nat); }
@end

@fn utils::lwe::get_rounding_factor
@ret r
@spec
  requires 1 <= plaintext_bits < 32,
  ensures r == pow2((32 - plaintext_bits) as nat),
@start
  proof { lemma_scale(plaintext_bits as nat); }
@end

@fn utils::lwe::get_rounding_floor
@ret r
@spec
  requires 1 <= plaintext_bits < 32,
  ensures r == pow2((31 - plaintext_bits) as nat),
@start
  proof { lemma_scale(plaintext_bits as nat); }
@end
