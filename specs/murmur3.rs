// the 64-bit finalizer of MurmurHash3
pub closed spec fn s_mix64(k: u64) -> u64 {
  let a = k ^ (k >> 33);
  let b = ((a as int * 0xff51_afd7_ed55_8ccd) % 0x1_0000_0000_0000_0000) as u64;
  let c = b ^ (b >> 33);
  let d = ((c as int * 0xc4ce_b9fe_1a85_ec53) % 0x1_0000_0000_0000_0000) as u64;
  d ^ (d >> 33)
}
@fn murmur3::mix64
@ret r
@spec
  ensures r == s_mix64(k),
@end
