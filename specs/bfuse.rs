@define DIMS0 keys@.len() < 0x100_0000, alone@.len() == capacity, t2count@.len() == capacity, t2hash@.len() == capacity, reverse_h@.len() == keys@.len(), reverse_order@.len() == keys@.len() + 1, reverse_order@[keys@.len() as int] == 1, fingerprints@.len() == capacity, geo_ok(segment_length, segment_length_mask, segment_count_length, capacity as int), g == bgeo(segment_length, segment_length_mask, segment_count_length), in_geo(g, capacity as int)
@define DIMS1 {{DIMS0}}, size == keys@.len(), start_pos@.len() == start_pos_len, 1 <= block_bits <= 27, start_pos_len == pow2(block_bits as nat), start_pos_len == (1u64 << (block_bits as u64)), start_pos_len >= 2
@define DIMS {{DIMS1}}, hs == mhashes(keys@, seed)
@struct bfuse{{W}}::BinaryFuse{{W}}
pub open spec fn fpr(h: u64) -> {{T}} { (h ^ (h >> 32)) as {{T}} }
pub open spec fn kept(fp: Seq<{{T}}>, g: Geo, h: u64) -> bool { fpr(h) ^ ((fp[g(h, 0)] ^ fp[g(h, 1)]) ^ fp[g(h, 2)]) == 0 }
pub proof fn lemma_keep(g: Geo, fp0: Seq<{{T}}>, fp1: Seq<{{T}}>, h: u64, f: int)
  requires 0 <= f < 3, in_geo(g, fp0.len() as int), fp1 == fp0.update(g(h, f), (fpr(h) ^ fp0[g(h, nxt(f, 1))]) ^ fp0[g(h, nxt(f, 2))]),
  ensures kept(fp1, g, h),
{
  lemma_h012(g, h, fp0.len() as int);
  let a = fp0[g(h, nxt(f, 1))]; let b = fp0[g(h, nxt(f, 2))]; let x = fpr(h);
  assert(x ^ ((((x ^ a) ^ b) ^ a) ^ b) == 0) by (bit_vector);
  assert(x ^ ((b ^ ((x ^ a) ^ b)) ^ a) == 0) by (bit_vector);
  assert(x ^ ((a ^ b) ^ ((x ^ a) ^ b)) == 0) by (bit_vector);
  if f == 0 { assert(nxt(f, 1) == 1 && nxt(f, 2) == 2); } else if f == 1 { assert(nxt(f, 1) == 2 && nxt(f, 2) == 0); } else { assert(nxt(f, 1) == 0 && nxt(f, 2) == 1); }
}
impl BinaryFuse{{W}} {
  pub open spec fn wf(&self) -> bool { geo_ok(self.segment_length, self.segment_length_mask, self.segment_count_length, self.fingerprints@.len() as int) }
  pub open spec fn has(&self, h: u64) -> bool { kept(self.fingerprints@, bgeo(self.segment_length, self.segment_length_mask, self.segment_count_length), h) }

@fn bfuse{{W}}::BinaryFuse{{W}} as Filter<u64>::contains
@opt vis=pub
@ret r
@spec
  requires self.wf(),
  ensures r == self.has(s_mix(*key, self.seed)),
@start
  proof { lemma_positions(s_mix(*key, self.seed), self.segment_length, self.segment_length_mask, self.segment_count_length, self.fingerprints@.len() as int); }
  proof { let hh = s_mix(*key, self.seed); let gg = bgeo(self.segment_length, self.segment_length_mask, self.segment_count_length); let fp = self.fingerprints@; crate::math::forms4_{{T}}(fpr(hh), fp[gg(hh, 0)], fp[gg(hh, 1)], fp[gg(hh, 2)]); }
@end
@fn bfuse{{W}}::BinaryFuse{{W}} as Filter<u64>::len
@opt vis=pub
@ret r
@spec
  ensures r == self.fingerprints@.len(),
@end
@fn bfuse{{W}}::BinaryFuse{{W}} as TryFrom<&[u64]>::try_from => try_from_slice
@ret r
@rettype Result<Self, crate::ext::VErr>
@spec
  requires keys@.len() < 0x100_0000,
  ensures r is Ok ==> r->Ok_0.wf() && (forall|i: int| 0 <= i < keys@.len() ==> r->Ok_0.has(s_mix(#[trigger] keys@[i], r->Ok_0.seed))),
@stmt segment_length 0
  proof { lemma_geo_pow(size as int); }
@stmt capacity 0
  proof {
    lemma_geo_build(size as int, segment_length, capacity);
  }
@stmt init_segment_count 0
  let ghost c = init_segment_count as int;
  proof { assert(c == (capacity + segment_length - 1) / (segment_length as int)); }
@stmt array_len 0
  proof { assert(array_len == c * segment_length); }
@stmt segment_count_length 0
  let ghost g = bgeo(segment_length, segment_length_mask, segment_count_length);
  proof {
    assert(segment_count == s_segcount(size as int));
    lemma_bgeo(segment_length, segment_length_mask, segment_count_length, fp_array_len as int);
  }
@loop 0
  invariant block@.len() == $i,
@loop 1
  invariant 1 <= block_bits <= 27, segment_count <= 0x400_0000,
  decreases 32 - block_bits,
@body 1
  proof { let b = block_bits as u32; assert(b < 32 && (1u32 << b) < 0x400_0000u32 ==> b < 26) by (bit_vector); }
@stmt start_pos_len 0
  proof { lemma_sp_len(block_bits); }
@loop 2
  invariant_except_break !done, zeros8(t2count@, capacity as int), zeros64(t2hash@, capacity as int), zeros64(reverse_order@, size as int),
  invariant {{DIMS1}}, 0 <= $n <= $h,
  ensures done ==> done_ok(g, mhashes(keys@, seed), reverse_order@, reverse_h@, ultimate_size as int),
  decreases $h - $n,
@body 2
  let ghost hs = mhashes(keys@, seed);
@loop 3
  invariant {{DIMS}}, $i > 0 ==> start_pos@[0] == 0, forall|s: int| 0 <= s < $i ==> (#[trigger] start_pos@[s]) <= size,
@body 3
  proof { lemma_spread(i as u64, size as u64, block_bits); }
@before 4
  let ghost mut filled = Seq::new(size as nat, |z: int| false);
  let ghost mut zc = 0int;
  proof { lemma_fill_start(hs, reverse_order@, start_pos@, size as int); }
@loop 4
  invariant {{DIMS}}, filled.len() == size, fill_ok(hs, $i as int, reverse_order@, start_pos@, filled, zc),
@stmt segment_index 0
  let ghost s = lemma_fill_free(hs, $i4 as int, reverse_order@, start_pos@, filled, zc);
  let ghost ro0 = reverse_order@;
  let ghost sp0 = start_pos@;
  proof { assert(hs[$i4 as int] == hash); lemma_bucket(hash, block_bits); assert((1u64 << (block_bits as u64)) == start_pos_len); }
@loop 5
  invariant {{DIMS}}, 0 <= s < start_pos_len, segment_index < start_pos_len, forall|t: int| 0 <= t < start_pos@.len() ==> (#[trigger] start_pos@[t]) <= size,
    reverse_order@[start_pos@[s] as int] == 0,
  decreases if segment_index <= s { s - segment_index } else { s - segment_index + start_pos_len },
@body 5
  proof { lemma_wrap((segment_index + 1) as u64, block_bits as u64); }
@bodyend 4
  proof {
    lemma_fill_step(hs, $i4 as int, ro0, sp0, filled, zc, segment_index as int, reverse_order@, start_pos@);
    filled = filled.update(sp0[segment_index as int] as int, true);
    zc = zc + if hash == 0 { 1int } else { 0 };
  }
@before 6
  let ghost r = reverse_order@.subrange(0, size as int);
  let ghost mut al = Seq::<bool>::empty();
  proof {
    lemma_fill_done(hs, reverse_order@, start_pos@, filled, zc);
    lemma_tables_start(g, r, t2count@, t2hash@);
  }
@loop 6
  invariant {{DIMS}}, r == reverse_order@.subrange(0, size as int), duplicates <= $i, al.len() == $i,
    !error ==> tables(g, r, al, $i as int, t2count@, t2hash@, Set::<int>::empty()) && nalive(al, $i as int) + duplicates == $i
      && (forall|k: int| 0 <= k < $i && !(#[trigger] al[k]) ==> twin(r, al, $i as int, k)),
@body 6
  let ghost tc0 = t2count@;
  let ghost th0 = t2hash@;
  let ghost d0 = duplicates;
  let ghost e0 = error;
@stmt hash 1
  proof { lemma_h012(g, hash, capacity as int); lemma_untag(tc0[g(hash, 0)], 0); lemma_untag(tc0[g(hash, 1)], 1); lemma_untag(tc0[g(hash, 2)], 2);
    lemma_xor3(th0[g(hash, 0)], hash); lemma_xor3(th0[g(hash, 1)], hash); lemma_xor3(th0[g(hash, 2)], hash); }
@bodyend 6
  proof {
    let kept = duplicates == d0;
    if !error {
      if kept { lemma_added(g, r, al, i as int, tc0, th0, t2count@, t2hash@); }
      else { lemma_dup_back(g, r, al, i as int, tc0, th0, t2count@, t2hash@); }
      lemma_twin_push(r, al, i as int, kept);
    }
    al = al.push(kept);
  }
@loop 7
  invariant {{DIMS}}, forall|z: int| 0 <= z < $i ==> (#[trigger] reverse_order@[z]) == 0,
@loop 8
  invariant {{DIMS}}, zeros8(t2count@, $i as int), zeros64(t2hash@, $i as int),
@before 9
  let ghost mut taken = Set::<int>::empty();
@loop 9
  invariant {{DIMS}}, qsize <= $i, forall|a: int| 0 <= a < qsize ==> (#[trigger] alone@[a]) < $i && t2count@[alone@[a] as int] >> 2 == 1,
    forall|a: int, b: int| 0 <= a < b < qsize ==> #[trigger] alone@[a] != #[trigger] alone@[b],
@before 10
  proof { lemma_cover_start(r, al, reverse_order@); lemma_nalive_bounds(al, size as int); }
@loop 10
  invariant {{DIMS}}, r.len() == size, al.len() == size, tables(g, r, al, size as int, t2count@, t2hash@, taken),
    queue_ok(alone@, qsize as int, t2count@, taken), stack_ok(g, reverse_order@, reverse_h@, stack_size as int, taken),
    covered(r, al, reverse_order@, stack_size as int), from_r(r, reverse_order@, stack_size as int),
    (stack_size as int) + nalive(al, size as int) + (duplicates as int) == size, nalive(al, size as int) >= 0,
  decreases 3 * nalive(al, size as int) + qsize,
@body 10
  let ghost tc0 = t2count@;
  let ghost th0 = t2hash@;
  let ghost a0 = alone@;
  let ghost q0 = qsize as int;
  let ghost ro0 = reverse_order@;
  let ghost rh0 = reverse_h@;
  let ghost ss0 = stack_size as int;
  let ghost mut kk = -1int;
  let ghost mut o1 = 0int;
  let ghost mut o2 = 0int;
@stmt found 0
  proof {
    kk = lemma_found(g, r, al, tc0, th0, taken, index as int);
    lemma_h012(g, hash, capacity as int);
    lemma_room(a0, q0 - 1, capacity as int, index as int);
    assert(found == 0 || found == 1 || found == 2);
    assert(0u8 ^ 0 == 0 && 1u8 ^ 0 == 1) by (bit_vector);
    assert(touch(g, th0[index as int], g(hash, 0)) && touch(g, th0[index as int], g(hash, 1)) && touch(g, th0[index as int], g(hash, 2)));
  }
@stmt other_index1 0
  proof { o1 = other_index1 as int; assert(o1 == g(hash, nxt(found as int, 1))); }
@stmt other_index2 0
  proof {
    o2 = other_index2 as int;
    assert(o2 == g(hash, nxt(found as int, 2)));
    lemma_room(alone@, qsize as int, capacity as int, index as int);
  }
@bodyend 10
  proof {
    if kk >= 0 {
      let h = th0[index as int];
      let f = (tc0[index as int] & 3) as int;
      lemma_peel_step(g, h, f, tc0, th0, t2count@, t2hash@, index as int, o1, o2);
      lemma_peeled(g, r, al, tc0, th0, t2count@, t2hash@, taken, index as int, kk);
      lemma_push_stack(g, r, al, tc0, th0, taken, index as int, kk, ro0, rh0, ss0, reverse_order@, reverse_h@);
      assert(down(g, h, tc0, t2count@, index as int, o1) && down(g, h, tc0, t2count@, index as int, o2));
      assert(touch(g, h, o1) && touch(g, h, o2));
      assert forall|a: int| q0 - 1 <= a < qsize implies #[trigger] alone@[a] == o1 && tc0[o1] >> 2 == 2 || alone@[a] == o2 && tc0[o2] >> 2 == 2 by {}
      lemma_queue(tc0, t2count@, taken, index as int, q0, qsize as int, a0, alone@, g, h);
      al = al.update(kk, false);
      taken = taken.insert(index as int);
      lemma_nalive_bounds(al, size as int);
    }
  }
@after 10
  proof {
    if stack_size + duplicates == size { lemma_done(g, hs, r, al, reverse_order@, reverse_h@, stack_size as int, taken); }
  }
@loop 11
  invariant {{DIMS}}, forall|z: int| 0 <= z < $i ==> (#[trigger] reverse_order@[z]) == 0,
@loop 12
  invariant {{DIMS}}, zeros8(t2count@, $i as int), zeros64(t2hash@, $i as int),
@loop 13
  invariant {{DIMS0}}, $h == 0, $n <= size, size <= reverse_h@.len(), done_ok(g, mhashes(keys@, seed), reverse_order@, reverse_h@, size as int),
    forall|t: int| $n <= t < size ==> #[trigger] kept(fingerprints@, g, reverse_order@[t]),
  decreases $n,
@body 13
  let ghost fp0 = fingerprints@;
  proof {
    lemma_h012(g, reverse_order@[i as int], capacity as int);
    assert(reverse_h@[i as int] < 3);
  }
@bodyend 13
  proof {
    crate::math::forms3_{{T}}(fpr(hash), fp0[g(hash, nxt(found as int, 1))], fp0[g(hash, nxt(found as int, 2))]);
    lemma_keep(g, fp0, fingerprints@, hash, found as int);
    assert forall|t: int| i <= t < size implies #[trigger] kept(fingerprints@, g, reverse_order@[t]) by {
      if t > i {
        assert(kept(fp0, g, reverse_order@[t]));
        assert(!touch(g, reverse_order@[t], g(reverse_order@[i as int], reverse_h@[i as int] as int)));
        lemma_h012(g, reverse_order@[t], capacity as int);
      }
    }
  }
@tail
  proof {
    let hs = mhashes(keys@, seed);
    assert forall|i: int| 0 <= i < keys@.len() implies kept(fingerprints@, g, s_mix(#[trigger] keys@[i], seed)) by {
      assert(hs[i] == s_mix(keys@[i], seed));
      assert(stacked(reverse_order@, size as int, hs[i]));
      let s = choose|s: int| 0 <= s < size && #[trigger] reverse_order@[s] == hs[i];
      assert(kept(fingerprints@, g, reverse_order@[s]));
    }
  }
@end
@fn bfuse{{W}}::BinaryFuse{{W}} as TryFrom<&Vec<u64>>::try_from => try_from_ref
@ret r
@rettype Result<Self, crate::ext::VErr>
@sub \bSelf::try_from\( ==> Self::try_from_slice(
@spec
  requires v@.len() < 0x100_0000,
  ensures r is Ok ==> r->Ok_0.wf() && (forall|i: int| 0 <= i < v@.len() ==> r->Ok_0.has(s_mix(#[trigger] v@[i], r->Ok_0.seed))),
@end
@fn bfuse{{W}}::BinaryFuse{{W}} as TryFrom<Vec<u64>>::try_from => try_from_vec
@ret r
@rettype Result<Self, crate::ext::VErr>
@sub \bSelf::try_from\( ==> Self::try_from_slice(
@spec
  requires v@.len() < 0x100_0000,
  ensures r is Ok ==> r->Ok_0.wf() && (forall|i: int| 0 <= i < v@.len() ==> r->Ok_0.has(s_mix(#[trigger] v@[i], r->Ok_0.seed))),
@end
}
