@define HC counts(H@)
@define HM masks(H@)
@define QI kidx(Q@)
@define QH khash(Q@)
@define SI kidx(stack@)
@define SH khash(stack@)
@define DIMS num_keys == keys@.len(), keys@.len() < 0x100_0000, 0 < segment_length < 0x100_0000, capacity == SLOTS * segment_length, g == fgeo(segment_length as int), in_geo(g, capacity as int), H@.len() == capacity, Q@.len() == capacity, stack@.len() == num_keys
@define DIMS2 {{DIMS}}, r == mhashes(keys@, seed), r.len() == num_keys
@struct fuse{{W}}::Fuse{{W}}
pub open spec fn fpr(h: u64) -> {{T}} { (h ^ (h >> 32)) as {{T}} }
pub open spec fn kept(fp: Seq<{{T}}>, g: Geo, h: u64) -> bool { fpr(h) == (fp[g(h, 0)] ^ fp[g(h, 1)]) ^ fp[g(h, 2)] }
pub proof fn lemma_keep(g: Geo, fp0: Seq<{{T}}>, fp1: Seq<{{T}}>, h: u64, idx: int)
  requires in_geo(g, fp0.len() as int), touch(g, h, idx),
    idx == g(h, 0) ==> fp1 == fp0.update(idx, fpr(h) ^ (fp0[g(h, 1)] ^ fp0[g(h, 2)])),
    idx == g(h, 1) ==> fp1 == fp0.update(idx, fpr(h) ^ (fp0[g(h, 0)] ^ fp0[g(h, 2)])),
    idx == g(h, 2) ==> fp1 == fp0.update(idx, fpr(h) ^ (fp0[g(h, 0)] ^ fp0[g(h, 1)])),
  ensures kept(fp1, g, h),
{
  lemma_h012(g, h, fp0.len() as int);
  let x = fpr(h); let a = fp0[g(h, 0)]; let b = fp0[g(h, 1)]; let c = fp0[g(h, 2)];
  assert(x == ((x ^ (b ^ c)) ^ b) ^ c) by (bit_vector);
  assert(x == (a ^ (x ^ (a ^ c))) ^ c) by (bit_vector);
  assert(x == (a ^ b) ^ (x ^ (a ^ b))) by (bit_vector);
}
impl Fuse{{W}} {
  pub open spec fn wf(&self) -> bool { 0 < self.segment_length < 0x100_0000 && self.fingerprints@.len() == SLOTS * self.segment_length }
  pub open spec fn has(&self, h: u64) -> bool { kept(self.fingerprints@, fgeo(self.segment_length as int), h) }

@fn fuse{{W}}::Fuse{{W}} as Filter<u64>::contains
@opt vis=pub
@ret r
@spec
  requires self.wf(),
  ensures r == self.has(s_mix(*key, self.seed)),
@start
  proof { let h = s_mix(*key, self.seed); lemma_fgeo(self.segment_length as int); lemma_h012(fgeo(self.segment_length as int), h, self.fingerprints@.len() as int); }
  proof { let hh = s_mix(*key, self.seed); let gg = fgeo(self.segment_length as int); let fp = self.fingerprints@; crate::math::forms4_{{T}}(fpr(hh), fp[gg(hh, 0)], fp[gg(hh, 1)], fp[gg(hh, 2)]); }
@end
@fn fuse{{W}}::Fuse{{W}} as Filter<u64>::len
@opt vis=pub
@ret r
@spec
  ensures r == self.fingerprints@.len(),
@end
@fn fuse{{W}}::Fuse{{W}} as TryFrom<&[u64]>::try_from => try_from_slice
@ret r
@rettype Result<Self, crate::ext::VErr>
@spec
  requires keys@.len() < 0x100_0000,
  ensures r is Ok ==> r->Ok_0.wf() && (forall|i: int| 0 <= i < keys@.len() ==> r->Ok_0.has(s_mix(#[trigger] keys@[i], r->Ok_0.seed))),
@stmt capacity 0
  let ghost sl0 = capacity as int / SLOTS as int;
  proof {
    lemma_fundamental_div_mod(capacity as int, SLOTS as int); lemma_mod_bound(capacity as int, SLOTS as int);
    lemma_mul_is_commutative(capacity as int / SLOTS as int, SLOTS as int); lemma_div_pos_is_pos(capacity as int, SLOTS as int);
  }
@stmt segment_length 0
  proof {
    lemma_fundamental_div_mod(capacity as int, SLOTS as int);
    lemma_div_multiples_vanish(sl0, SLOTS as int);
    assert(2 * num_keys < SLOTS * 0x100_0000);
    if segment_length >= 0x100_0000 { assert(SLOTS * segment_length >= SLOTS * 0x100_0000) by (nonlinear_arith) requires segment_length >= 0x100_0000, SLOTS >= 0; }
  }
  let ghost g = fgeo(segment_length as int);
@before 0
  proof {
    assert(capacity == SLOTS * segment_length);
    lemma_fgeo(segment_length as int);
    assert(zeros32({{HC}})); assert(zeros64({{HM}}, capacity as int));
  }
@loop 0
  invariant_except_break !done, zeros32({{HC}}), zeros64({{HM}}, capacity as int),
  invariant {{DIMS}},
  ensures done ==> done2(g, mhashes(keys@, seed), {{SI}}, {{SH}}, num_keys as int, capacity as int),
@body 0
  let ghost r = mhashes(keys@, seed);
  proof { lemma_tables2_start(g, r, {{HC}}, {{HM}}); }
@loop 1
  invariant {{DIMS2}}, tables2(g, r, yes($i as int), $i as int, {{HC}}, {{HM}}, Set::<int>::empty()),
@body 1
  let ghost c0 = {{HC}};
  let ghost m0 = {{HM}};
@before 2
  proof {
    assert(hash == r[$i1 as int]);
    assert forall|z: int| 0 <= z < capacity implies (#[trigger] c0[z]) < 0x100_0000 by { assert(slot2(g, r, yes($i1 as int), $i1 as int, c0, m0, Set::<int>::empty(), z)); lemma_cnt_le(g, r, yes($i1 as int), z, $i1 as int); }
  }
@loop 2
  invariant {{DIMS}}, c0.len() == capacity, m0.len() == capacity, bumped(g, hash, $i as int, c0, m0, {{HC}}, {{HM}}), hset[0] == g(hash, 0), hset[1] == g(hash, 1), hset[2] == g(hash, 2),
    forall|z: int| 0 <= z < capacity ==> (#[trigger] c0[z]) < 0x100_0000,
@body 2
  let ghost h1 = H@;
  let ghost y = g(hash, b as int);
  proof { lemma_h012(g, hash, capacity as int); assert(hset[b as int] == y); assert(counts(h1)[y] == c0[y] + if touch_n(g, hash, b as int, y) { 1int } else { 0 }); }
@bodyend 2
  proof { lemma_bump(g, hash, b as int, c0, m0, counts(h1), masks(h1), {{HC}}, {{HM}}); }
@bodyend 1
  proof { lemma_added2(g, r, $i1 as int, c0, m0, {{HC}}, {{HM}}); }
@loop 3
  invariant {{DIMS2}}, $h == capacity, tables2(g, r, yes(num_keys as int), num_keys as int, {{HC}}, {{HM}}, Set::<int>::empty()),
    queue2({{QI}}, {{QH}}, q_size as int, {{HC}}, {{HM}}, Set::<int>::empty()), forall|a: int| 0 <= a < q_size ==> (#[trigger] {{QI}}[a]) < $i,
@body 3
  let ghost qq = Q@;
  let ghost qs = q_size as int;
  proof { lemma_q_room({{QI}}, {{QH}}, qs, {{HC}}, {{HM}}, Set::<int>::empty(), idx as int); }
@bodyend 3
  proof {
    if counts(H@)[idx as int] == 1 {
      lemma_q_push(kidx(qq), khash(qq), qs, {{HC}}, {{HM}}, Set::<int>::empty(), idx as int, {{QI}}, {{QH}});
      assert forall|a: int| 0 <= a < q_size implies (#[trigger] {{QI}}[a]) < idx + 1 by { if a < qs { assert(kidx(qq)[a] < idx); } }
    }
  }
@before 4
  let ghost mut al = yes(num_keys as int);
  let ghost mut taken = Set::<int>::empty();
  proof { lemma_yes_alive(num_keys as int); }
@loop 4
  invariant {{DIMS2}}, al.len() == num_keys, tables2(g, r, al, num_keys as int, {{HC}}, {{HM}}, taken), queue2({{QI}}, {{QH}}, q_size as int, {{HC}}, {{HM}}, taken),
    stack2(g, {{SI}}, {{SH}}, stack_size as int, capacity as int, taken), covered2(r, al, {{SH}}, stack_size as int),
    (stack_size as int) + nalive(al, num_keys as int) == num_keys, nalive(al, num_keys as int) >= 0,
  decreases 3 * nalive(al, num_keys as int) + q_size,
@body 4
  let ghost c0 = {{HC}};
  let ghost m0 = {{HM}};
  let ghost q0 = q_size as int;
  let ghost st0 = stack@;
  let ghost ss0 = stack_size as int;
  let ghost mut kk = -1int;
  proof { lemma_q_pop({{QI}}, {{QH}}, q0, c0, m0, taken); assert({{QI}}[q0 - 1] == Q@[q0 - 1].index); assert({{QH}}[q0 - 1] == Q@[q0 - 1].hash); }
@stmt ki 0
  proof { if c0[ki.index as int] == 1 { kk = lemma_found2(g, r, al, c0, m0, taken, ki.index as int); } }
@before 5
  let ghost h = ki.hash;
  let ghost tk = taken.insert(ki.index as int);
  proof { lemma_gone_start(g, h, c0, m0, 0, 1); lemma_h012(g, h, capacity as int); assert(touch(g, h, g(h, 0)) && touch(g, h, g(h, 1)) && touch(g, h, g(h, 2))); }
@loop 5
  invariant {{DIMS2}}, c0.len() == capacity, gone(g, h, $i as int, c0, m0, {{HC}}, {{HM}}), queue2({{QI}}, {{QH}}, q_size as int, {{HC}}, {{HM}}, tk), q_size <= q0 - 1 + $i,
    ki.hash == h, hset[0] == g(h, 0), hset[1] == g(h, 1), hset[2] == g(h, 2), c0[g(h, 0)] >= 1, c0[g(h, 1)] >= 1, c0[g(h, 2)] >= 1, c0[ki.index as int] == 1,
    !taken.contains(g(h, 0)), !taken.contains(g(h, 1)), !taken.contains(g(h, 2)), tk == taken.insert(ki.index as int),
@body 5
  let ghost h1 = H@;
  let ghost qq = Q@;
  let ghost qs = q_size as int;
  let ghost y = g(h, b as int);
  let ghost c2 = counts(h1).update(y, (counts(h1)[y] - 1) as u32);
  let ghost m2 = masks(h1).update(y, masks(h1)[y] ^ h);
  proof {
    lemma_h012(g, h, capacity as int);
    assert(hset[b as int] == y);
    lemma_gone(g, h, b as int, c0, m0, counts(h1), masks(h1), c2, m2);
    lemma_q_lower(kidx(qq), khash(qq), qs, counts(h1), masks(h1), tk, y, c2, m2);
  }
@bodyend 5
  proof {
    assert({{HC}} =~= c2); assert({{HM}} =~= m2);
    if c2[y] == 1 { lemma_q_push(kidx(qq), khash(qq), qs, c2, m2, tk, y, {{QI}}, {{QH}}); }
  }
@bodyend 4
  proof {
    let h = m0[ki.index as int];
    lemma_gone_all(g, r, al, c0, m0, {{HC}}, {{HM}}, taken, ki.index as int, kk);
    lemma_stack2_push(g, r, al, kk, kidx(st0), khash(st0), ss0, capacity as int, taken, ki.index as int, h, {{SI}}, {{SH}});
    al = al.update(kk, false);
    taken = taken.insert(ki.index as int);
  }
@after 4
  proof { if stack_size == num_keys { lemma_done2(g, r, al, {{SI}}, {{SH}}, num_keys as int, capacity as int, taken); } }
@loop 6
  invariant {{DIMS}}, $h == capacity, forall|z: int| 0 <= z < $i ==> (#[trigger] H@[z]).count == 0 && H@[z].mask == 0,
@loop 7
  invariant block@.len() == $i,
@loop 8
  invariant stack@.len() == num_keys, in_geo(g, capacity as int), g == fgeo(segment_length as int), 0 < segment_length < 0x100_0000, B@.len() == capacity, r == mhashes(keys@, seed), done2(g, r, {{SI}}, {{SH}}, num_keys as int, capacity as int),
    forall|t: int| num_keys - $i <= t < num_keys ==> #[trigger] kept(B@, g, {{SH}}[t]),
@before 8
  let ghost r = mhashes(keys@, seed);
@body 8
  let ghost fp0 = B@;
  let ghost ti = num_keys - 1 - $i8;
  proof { assert({{SI}}[ti] == stack@[ti].index); assert({{SH}}[ti] == stack@[ti].hash); lemma_h012(g, stack@[ti].hash, capacity as int); }
@bodyend 8
  proof {
    let x_ = fpr(ki.hash); let a_ = fp0[g(ki.hash, 0)]; let b_ = fp0[g(ki.hash, 1)]; let c_ = fp0[g(ki.hash, 2)];
    crate::math::forms3_{{T}}(x_, a_, b_); crate::math::forms3_{{T}}(x_, a_, c_); crate::math::forms3_{{T}}(x_, b_, c_);
    lemma_keep(g, fp0, B@, ki.hash, ki.index as int);
    assert forall|t: int| num_keys - ($i8 + 1) <= t < num_keys implies #[trigger] kept(B@, g, {{SH}}[t]) by {
      if t > ti {
        assert(kept(fp0, g, {{SH}}[t]));
        assert(!touch(g, {{SH}}[t], {{SI}}[ti]));
        lemma_h012(g, {{SH}}[t], capacity as int);
      }
    }
  }
@tail
  proof {
    assert forall|i: int| 0 <= i < keys@.len() implies kept(B@, g, s_mix(#[trigger] keys@[i], seed)) by {
      assert(r[i] == s_mix(keys@[i], seed));
      assert(stacked2({{SH}}, num_keys as int, r[i]));
      let s = choose|s: int| 0 <= s < num_keys && #[trigger] {{SH}}[s] == r[i];
      assert(kept(B@, g, {{SH}}[s]));
    }
  }
@end
@fn fuse{{W}}::Fuse{{W}} as TryFrom<&Vec<u64>>::try_from => try_from_ref
@ret r
@rettype Result<Self, crate::ext::VErr>
@sub \bSelf::try_from\( ==> Self::try_from_slice(
@spec
  requires v@.len() < 0x100_0000,
  ensures r is Ok ==> r->Ok_0.wf() && (forall|i: int| 0 <= i < v@.len() ==> r->Ok_0.has(s_mix(#[trigger] v@[i], r->Ok_0.seed))),
@end
@fn fuse{{W}}::Fuse{{W}} as TryFrom<Vec<u64>>::try_from => try_from_vec
@ret r
@rettype Result<Self, crate::ext::VErr>
@sub \bSelf::try_from\( ==> Self::try_from_slice(
@spec
  requires v@.len() < 0x100_0000,
  ensures r is Ok ==> r->Ok_0.wf() && (forall|i: int| 0 <= i < v@.len() ==> r->Ok_0.has(s_mix(#[trigger] v@[i], r->Ok_0.seed))),
@end
}
