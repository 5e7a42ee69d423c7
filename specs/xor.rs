@define XC xcounts(H, block_length as int)
@define XM xmasks(H, block_length as int)
@define SI kidx(stack@)
@define SH khash(stack@)
@define DIMS num_keys == keys@.len(), keys@.len() < 0x100_0000, 0 < block_length < 0x200_0000, capacity == 3 * block_length, g == xgeo(block_length as int), in_geo(g, capacity as int), H@[0]@.len() == capacity, H@[1]@.len() == capacity, H@[2]@.len() == capacity, Q@[0]@.len() == capacity, Q@[1]@.len() == capacity, Q@[2]@.len() == capacity, stack@.len() == num_keys
@define DIMS2 {{DIMS}}, r == mhashes(keys@, seed), r.len() == num_keys
@define WH {{DIMS2}}, al.len() == num_keys, tables2(g, r, al, num_keys as int, {{XC}}, {{XM}}, taken), xqs(Q, q_sizes, block_length as int, {{XC}}, {{XM}}, taken), stack2(g, {{SI}}, {{SH}}, stack_size as int, capacity as int, taken), covered2(r, al, {{SH}}, stack_size as int), (stack_size as int) + nalive(al, num_keys as int) == num_keys, nalive(al, num_keys as int) >= 0, pops >= 0, 3 * nalive(al, num_keys as int) + q_sizes[0] + q_sizes[1] + q_sizes[2] + pops <= v0
@define WH0 {{DIMS2}}, al.len() == num_keys, tables2(g, r, al, num_keys as int, {{XC}}, {{XM}}, taken), xqs(Q, q_sizes, block_length as int, {{XC}}, {{XM}}, taken), stack2(g, {{SI}}, {{SH}}, stack_size as int, capacity as int, taken), covered2(r, al, {{SH}}, stack_size as int), (stack_size as int) + nalive(al, num_keys as int) == num_keys, nalive(al, num_keys as int) >= 0
@struct xor{{W}}::Xor{{W}}
pub open spec fn fpr(h: u64) -> {{T}} { (h ^ (h >> 32)) as {{T}} }
pub open spec fn kept(fp: Seq<{{T}}>, g: Geo, h: u64) -> bool { fpr(h) == (fp[g(h, 0)] ^ fp[g(h, 1)]) ^ fp[g(h, 2)] }
pub proof fn lemma_keep(g: Geo, fp0: Seq<{{T}}>, fp1: Seq<{{T}}>, h: u64, idx: int)
  requires in_geo(g, fp0.len() as int), touch(g, h, idx), fp0[idx] == 0, fp1 == fp0.update(idx, ((fpr(h) ^ fp0[g(h, 0)]) ^ fp0[g(h, 1)]) ^ fp0[g(h, 2)]),
  ensures kept(fp1, g, h),
{
  lemma_h012(g, h, fp0.len() as int);
  let x = fpr(h); let a = fp0[g(h, 0)]; let b = fp0[g(h, 1)]; let c = fp0[g(h, 2)];
  assert(a == 0 ==> x == ((((x ^ a) ^ b) ^ c) ^ b) ^ c) by (bit_vector);
  assert(b == 0 ==> x == (a ^ (((x ^ a) ^ b) ^ c)) ^ c) by (bit_vector);
  assert(c == 0 ==> x == (a ^ b) ^ (((x ^ a) ^ b) ^ c)) by (bit_vector);
}
impl Xor{{W}} {
  pub open spec fn wf(&self) -> bool { 0 < self.block_length < 0x200_0000 && self.fingerprints@.len() == 3 * self.block_length }
  pub open spec fn has(&self, h: u64) -> bool { kept(self.fingerprints@, xgeo(self.block_length as int), h) }

@fn xor{{W}}::Xor{{W}} as Filter<u64>::contains
@opt vis=pub
@ret r
@spec
  requires self.wf(),
  ensures r == self.has(s_mix(*key, self.seed)),
@start
  proof { let h = s_mix(*key, self.seed); lemma_xgeo(self.block_length as int); lemma_h012(xgeo(self.block_length as int), h, self.fingerprints@.len() as int); }
  proof { let hh = s_mix(*key, self.seed); let gg = xgeo(self.block_length as int); let fp = self.fingerprints@; crate::math::forms4_{{T}}(fpr(hh), fp[gg(hh, 0)], fp[gg(hh, 1)], fp[gg(hh, 2)]); }
@end
@fn xor{{W}}::Xor{{W}} as Filter<u64>::len
@opt vis=pub
@ret r
@spec
  ensures r == self.fingerprints@.len(),
@end
@fn xor{{W}}::Xor{{W}} as From<&[u64]>::from => from_slice
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@spec
  requires keys@.len() < 0x100_0000,
  ensures r.wf() && (forall|i: int| 0 <= i < keys@.len() ==> r.has(s_mix(#[trigger] keys@[i], r.seed))),
@stmt block_length 0
  let ghost g = xgeo(block_length as int);
@before 0
  proof {
    assert(capacity == 3 * block_length);
    lemma_xgeo(block_length as int);
    assert(zeros32({{XC}})); assert(zeros64({{XM}}, capacity as int));
  }
@loop 0
  invariant_except_break zeros32({{XC}}), zeros64({{XM}}, capacity as int),
  invariant {{DIMS}},
  ensures done2(g, mhashes(keys@, seed), {{SI}}, {{SH}}, num_keys as int, capacity as int),
@body 0
  let ghost r = mhashes(keys@, seed);
  proof { lemma_tables2_start(g, r, {{XC}}, {{XM}}); }
@bodyend 0
  proof { assert(num_keys != 0); }
@loop 1
  invariant {{DIMS2}}, tables2(g, r, yes($i as int), $i as int, {{XC}}, {{XM}}, Set::<int>::empty()),
@body 1
  let ghost c0 = {{XC}};
  let ghost m0 = {{XM}};
@before 2
  proof {
    assert(hash == r[$i1 as int]);
    assert forall|z: int| 0 <= z < capacity implies (#[trigger] c0[z]) < 0x100_0000 by { assert(slot2(g, r, yes($i1 as int), $i1 as int, c0, m0, Set::<int>::empty(), z)); lemma_cnt_le(g, r, yes($i1 as int), z, $i1 as int); }
  }
@loop 2
  invariant {{DIMS}}, c0.len() == capacity, m0.len() == capacity, bumped(g, hash, $i as int, c0, m0, {{XC}}, {{XM}}),
    hset[0] == s_xpos(hash, block_length as int, 0), hset[1] == s_xpos(hash, block_length as int, 1), hset[2] == s_xpos(hash, block_length as int, 2),
    forall|z: int| 0 <= z < capacity ==> (#[trigger] c0[z]) < 0x100_0000,
@body 2
  let ghost h1 = H;
  let ghost y = g(hash, b as int);
  proof {
    lemma_h012(g, hash, capacity as int); lemma_xpos(hash, block_length as int, b as int);
    assert(hset[b as int] == s_xpos(hash, block_length as int, b as int));
    lemma_x_at(h1, block_length as int, b as int, hset[b as int] as int);
    assert(xcounts(h1, block_length as int)[y] == c0[y] + if touch_n(g, hash, b as int, y) { 1int } else { 0 });
  }
@bodyend 2
  proof {
    lemma_x_set(h1, H, block_length as int, b as int, hset[b as int] as int);
    lemma_bump(g, hash, b as int, c0, m0, xcounts(h1, block_length as int), xmasks(h1, block_length as int), {{XC}}, {{XM}});
  }
@bodyend 1
  proof { lemma_added2(g, r, $i1 as int, c0, m0, {{XC}}, {{XM}}); }
@loop 3
  invariant {{DIMS2}}, tables2(g, r, yes(num_keys as int), num_keys as int, {{XC}}, {{XM}}, Set::<int>::empty()), xqs(Q, q_sizes, block_length as int, {{XC}}, {{XM}}, Set::<int>::empty()),
    forall|d: int| $i <= d < 3 ==> (#[trigger] q_sizes[d]) == 0,
@loop 4
  invariant {{DIMS2}}, $h == block_length, 0 <= b < 3, tables2(g, r, yes(num_keys as int), num_keys as int, {{XC}}, {{XM}}, Set::<int>::empty()), xqs(Q, q_sizes, block_length as int, {{XC}}, {{XM}}, Set::<int>::empty()),
    forall|d: int| b < d < 3 ==> (#[trigger] q_sizes[d]) == 0, forall|a: int| 0 <= a < q_sizes[b as int] ==> (#[trigger] Q@[b as int]@[a]).index < $i,
@body 4
  let ghost qq = Q;
  let ghost qs = q_sizes;
  proof {
    assert(b == 0 || b == 1 || b == 2);
    lemma_x_at(H, block_length as int, b as int, idx as int);
    assert(xabsent(Q@[b as int]@, q_sizes[b as int] as int, idx as int));
    lemma_xq_room(Q@[b as int]@, q_sizes[b as int] as int, block_length as int, b as int, {{XC}}, {{XM}}, Set::<int>::empty(), idx as int);
  }
@bodyend 4
  proof {
    if H@[b as int]@[idx as int].count == 1 {
      lemma_xqs_push(qq, qs, block_length as int, {{XC}}, {{XM}}, Set::<int>::empty(), b as int, idx as int, Q, q_sizes);
      assert forall|a: int| 0 <= a < q_sizes[b as int] implies (#[trigger] Q@[b as int]@[a]).index < idx + 1 by { if a < qs[b as int] { assert(qq@[b as int]@[a].index < idx); } }
    }
  }
@before 5
  let ghost mut al = yes(num_keys as int);
  let ghost mut taken = Set::<int>::empty();
  proof { lemma_yes_alive(num_keys as int); }
@loop 5
  invariant {{WH0}},
  decreases 3 * nalive(al, num_keys as int) + q_sizes[0] + q_sizes[1] + q_sizes[2],
@body 5
  let ghost v0 = 3 * nalive(al, num_keys as int) + q_sizes[0] + q_sizes[1] + q_sizes[2];
  let ghost z0 = q_sizes[0];
  let ghost z1 = q_sizes[1];
  let ghost z2 = q_sizes[2];
  let ghost mut pops = 0int;
@loop 6
  invariant {{WH}}, pops == 0 ==> q_sizes[0] == z0 && q_sizes[1] == z1 && q_sizes[2] == z2,
  decreases q_sizes[0],
@body 6
  let ghost c0 = {{XC}};
  let ghost m0 = {{XM}};
  let ghost qs0 = q_sizes;
  let ghost st0 = stack@;
  let ghost ss0 = stack_size as int;
  let ghost na0 = nalive(al, num_keys as int);
  let ghost mut kk = -1int;
  let ghost own_i = Q@[0]@[q_sizes[0] - 1].index as int;
  let ghost own = own_i + xoff(0, block_length as int);
@stmt ki 0
  proof {
    lemma_xqs_pop(Q, qs0, q_sizes, block_length as int, c0, m0, taken, 0);
    lemma_x_at(H, block_length as int, 0, own_i);
    pops = pops + 1;
    if c0[own] == 1 { kk = lemma_found2(g, r, al, c0, m0, taken, own); }
  }
@before 7
  let ghost h = ki.hash;
  let ghost tk = taken.insert(own);
  proof {
    lemma_gone_start(g, h, c0, m0, 1, 2); lemma_h012(g, h, capacity as int);
    assert(touch(g, h, g(h, 0)) && touch(g, h, g(h, 1)) && touch(g, h, g(h, 2)));
    lemma_xpos(h, block_length as int, 0); lemma_xpos(h, block_length as int, 1); lemma_xpos(h, block_length as int, 2);
  }
@loop 7
  invariant {{DIMS2}}, __a2@ == seq![1usize, 2usize], c0.len() == capacity, gone_x(g, h, 1, 2, $i as int, c0, m0, {{XC}}, {{XM}}), xqs(Q, q_sizes, block_length as int, {{XC}}, {{XM}}, tk),
    q_sizes[0] == qs0[0] - 1, q_sizes[0] + q_sizes[1] + q_sizes[2] <= qs0[0] + qs0[1] + qs0[2] - 1 + $i,
    ki.hash == h, c0[g(h, 1)] >= 1, c0[g(h, 2)] >= 1, !taken.contains(g(h, 1)), !taken.contains(g(h, 2)), tk == taken.insert(own), own == g(h, 0), c0[own] == 1,
@stmt idx 0
  let ghost h1 = H;
  let ghost qq = Q;
  let ghost qs = q_sizes;
  let ghost jb = *j as int;
  let ghost y = g(h, jb);
  let ghost c2 = xcounts(h1, block_length as int).update(y, (xcounts(h1, block_length as int)[y] - 1) as u32);
  let ghost m2 = xmasks(h1, block_length as int).update(y, xmasks(h1, block_length as int)[y] ^ h);
  proof {
    lemma_xpos(h, block_length as int, jb);
    lemma_h012(g, h, capacity as int);
    lemma_x_at(h1, block_length as int, jb, idx as int);
    lemma_gone_x(g, h, 1, 2, $i7 as int, c0, m0, xcounts(h1, block_length as int), xmasks(h1, block_length as int), y, c2, m2);
    lemma_xqs_lower(qq, qs, block_length as int, xcounts(h1, block_length as int), xmasks(h1, block_length as int), tk, jb, idx as int, c2, m2);
    lemma_xor3(0, 0);
  }
@body 7
  proof { lemma_rot_amounts(); lemma_red(s_rotj(ki.hash, 1), block_length); lemma_red(s_rotj(ki.hash, 2), block_length); }
@bodyend 7
  proof {
    lemma_x_set(h1, H, block_length as int, jb, idx as int);
    assert({{XC}} =~= c2); assert({{XM}} =~= m2);
    if c2[y] == 1 { lemma_xqs_push(qq, qs, block_length as int, c2, m2, tk, jb, idx as int, Q, q_sizes); }
  }
@bodyend 6
  proof {
    let h = m0[own];
    lemma_gone_two(g, r, al, c0, m0, {{XC}}, {{XM}}, taken, own, kk, 0, 1, 2);
    lemma_stack2_push(g, r, al, kk, kidx(st0), khash(st0), ss0, capacity as int, taken, own, h, {{SI}}, {{SH}});
    al = al.update(kk, false);
    taken = taken.insert(own);
  }
@loop 8
  invariant {{WH}}, pops == 0 ==> z0 == 0 && q_sizes[1] == z1 && q_sizes[2] == z2,
  decreases q_sizes[1],
@body 8
  let ghost c0 = {{XC}};
  let ghost m0 = {{XM}};
  let ghost qs0 = q_sizes;
  let ghost st0 = stack@;
  let ghost ss0 = stack_size as int;
  let ghost na0 = nalive(al, num_keys as int);
  let ghost mut kk = -1int;
  let ghost own_i = Q@[1]@[q_sizes[1] - 1].index as int;
  let ghost own = own_i + xoff(1, block_length as int);
@stmt ki 1
  proof {
    lemma_xqs_pop(Q, qs0, q_sizes, block_length as int, c0, m0, taken, 1);
    lemma_x_at(H, block_length as int, 1, own_i);
    pops = pops + 1;
    if c0[own] == 1 { kk = lemma_found2(g, r, al, c0, m0, taken, own); }
  }
@before 9
  let ghost h = ki.hash;
  let ghost tk = taken.insert(own);
  proof {
    lemma_gone_start(g, h, c0, m0, 0, 2); lemma_h012(g, h, capacity as int);
    assert(touch(g, h, g(h, 0)) && touch(g, h, g(h, 1)) && touch(g, h, g(h, 2)));
    lemma_xpos(h, block_length as int, 0); lemma_xpos(h, block_length as int, 1); lemma_xpos(h, block_length as int, 2);
  }
@loop 9
  invariant {{DIMS2}}, __a3@ == seq![0usize, 2usize], c0.len() == capacity, gone_x(g, h, 0, 2, $i as int, c0, m0, {{XC}}, {{XM}}), xqs(Q, q_sizes, block_length as int, {{XC}}, {{XM}}, tk),
    q_sizes[1] == qs0[1] - 1, q_sizes[0] + q_sizes[1] + q_sizes[2] <= qs0[0] + qs0[1] + qs0[2] - 1 + $i,
    ki.hash == h, c0[g(h, 0)] >= 1, c0[g(h, 2)] >= 1, !taken.contains(g(h, 0)), !taken.contains(g(h, 2)), tk == taken.insert(own), own == g(h, 1), c0[own] == 1,
@stmt idx 1
  let ghost h1 = H;
  let ghost qq = Q;
  let ghost qs = q_sizes;
  let ghost jb = *j as int;
  let ghost y = g(h, jb);
  let ghost c2 = xcounts(h1, block_length as int).update(y, (xcounts(h1, block_length as int)[y] - 1) as u32);
  let ghost m2 = xmasks(h1, block_length as int).update(y, xmasks(h1, block_length as int)[y] ^ h);
  proof {
    lemma_xpos(h, block_length as int, jb);
    lemma_h012(g, h, capacity as int);
    lemma_x_at(h1, block_length as int, jb, idx as int);
    lemma_gone_x(g, h, 0, 2, $i9 as int, c0, m0, xcounts(h1, block_length as int), xmasks(h1, block_length as int), y, c2, m2);
    lemma_xqs_lower(qq, qs, block_length as int, xcounts(h1, block_length as int), xmasks(h1, block_length as int), tk, jb, idx as int, c2, m2);
    lemma_xor3(0, 0);
  }
@body 9
  proof { lemma_rot_amounts(); lemma_red(s_rotj(ki.hash, 0), block_length); lemma_red(s_rotj(ki.hash, 2), block_length); }
@bodyend 9
  proof {
    lemma_x_set(h1, H, block_length as int, jb, idx as int);
    assert({{XC}} =~= c2); assert({{XM}} =~= m2);
    if c2[y] == 1 { lemma_xqs_push(qq, qs, block_length as int, c2, m2, tk, jb, idx as int, Q, q_sizes); }
  }
@bodyend 8
  proof {
    let h = m0[own];
    lemma_gone_two(g, r, al, c0, m0, {{XC}}, {{XM}}, taken, own, kk, 1, 0, 2);
    lemma_stack2_push(g, r, al, kk, kidx(st0), khash(st0), ss0, capacity as int, taken, own, h, {{SI}}, {{SH}});
    al = al.update(kk, false);
    taken = taken.insert(own);
  }
@loop 10
  invariant {{WH}}, pops == 0 ==> z0 == 0 && z1 == 0 && q_sizes[2] == z2,
  decreases q_sizes[2],
@body 10
  let ghost c0 = {{XC}};
  let ghost m0 = {{XM}};
  let ghost qs0 = q_sizes;
  let ghost st0 = stack@;
  let ghost ss0 = stack_size as int;
  let ghost na0 = nalive(al, num_keys as int);
  let ghost mut kk = -1int;
  let ghost own_i = Q@[2]@[q_sizes[2] - 1].index as int;
  let ghost own = own_i + xoff(2, block_length as int);
@stmt ki 2
  proof {
    lemma_xqs_pop(Q, qs0, q_sizes, block_length as int, c0, m0, taken, 2);
    lemma_x_at(H, block_length as int, 2, own_i);
    pops = pops + 1;
    if c0[own] == 1 { kk = lemma_found2(g, r, al, c0, m0, taken, own); }
  }
@before 11
  let ghost h = ki.hash;
  let ghost tk = taken.insert(own);
  proof {
    lemma_gone_start(g, h, c0, m0, 0, 1); lemma_h012(g, h, capacity as int);
    assert(touch(g, h, g(h, 0)) && touch(g, h, g(h, 1)) && touch(g, h, g(h, 2)));
    lemma_xpos(h, block_length as int, 0); lemma_xpos(h, block_length as int, 1); lemma_xpos(h, block_length as int, 2);
  }
@loop 11
  invariant {{DIMS2}}, __a4@ == seq![0usize, 1usize], c0.len() == capacity, gone_x(g, h, 0, 1, $i as int, c0, m0, {{XC}}, {{XM}}), xqs(Q, q_sizes, block_length as int, {{XC}}, {{XM}}, tk),
    q_sizes[2] == qs0[2] - 1, q_sizes[0] + q_sizes[1] + q_sizes[2] <= qs0[0] + qs0[1] + qs0[2] - 1 + $i,
    ki.hash == h, c0[g(h, 0)] >= 1, c0[g(h, 1)] >= 1, !taken.contains(g(h, 0)), !taken.contains(g(h, 1)), tk == taken.insert(own), own == g(h, 2), c0[own] == 1,
@stmt idx 2
  let ghost h1 = H;
  let ghost qq = Q;
  let ghost qs = q_sizes;
  let ghost jb = *j as int;
  let ghost y = g(h, jb);
  let ghost c2 = xcounts(h1, block_length as int).update(y, (xcounts(h1, block_length as int)[y] - 1) as u32);
  let ghost m2 = xmasks(h1, block_length as int).update(y, xmasks(h1, block_length as int)[y] ^ h);
  proof {
    lemma_xpos(h, block_length as int, jb);
    lemma_h012(g, h, capacity as int);
    lemma_x_at(h1, block_length as int, jb, idx as int);
    lemma_gone_x(g, h, 0, 1, $i11 as int, c0, m0, xcounts(h1, block_length as int), xmasks(h1, block_length as int), y, c2, m2);
    lemma_xqs_lower(qq, qs, block_length as int, xcounts(h1, block_length as int), xmasks(h1, block_length as int), tk, jb, idx as int, c2, m2);
    lemma_xor3(0, 0);
  }
@body 11
  proof { lemma_rot_amounts(); lemma_red(s_rotj(ki.hash, 0), block_length); lemma_red(s_rotj(ki.hash, 1), block_length); }
@bodyend 11
  proof {
    lemma_x_set(h1, H, block_length as int, jb, idx as int);
    assert({{XC}} =~= c2); assert({{XM}} =~= m2);
    if c2[y] == 1 { lemma_xqs_push(qq, qs, block_length as int, c2, m2, tk, jb, idx as int, Q, q_sizes); }
  }
@bodyend 10
  proof {
    let h = m0[own];
    lemma_gone_two(g, r, al, c0, m0, {{XC}}, {{XM}}, taken, own, kk, 2, 0, 1);
    lemma_stack2_push(g, r, al, kk, kidx(st0), khash(st0), ss0, capacity as int, taken, own, h, {{SI}}, {{SH}});
    al = al.update(kk, false);
    taken = taken.insert(own);
  }
@after 5
  proof { if stack_size == num_keys { lemma_done2(g, r, al, {{SI}}, {{SH}}, num_keys as int, capacity as int, taken); } }
@loop 12
  invariant {{DIMS}}, $h == 3, forall|d: int, z: int| 0 <= d < $i && 0 <= z < capacity ==> (#[trigger] H@[d]@[z]).count == 0 && H@[d]@[z].mask == 0,
@loop 13
  invariant {{DIMS}}, $h == capacity, $i12 < 3, forall|d: int, z: int| 0 <= d < $i12 && 0 <= z < capacity ==> (#[trigger] H@[d]@[z]).count == 0 && H@[d]@[z].mask == 0,
    forall|z: int| 0 <= z < $i ==> (#[trigger] H@[$i12 as int]@[z]).count == 0 && H@[$i12 as int]@[z].mask == 0,
@after 12
  proof {
    assert forall|z: int| 0 <= z < capacity implies {{XC}}[z] == 0 && {{XM}}[z] == 0 by { assert(H@[xblock(z, block_length as int)]@[z - xoff(xblock(z, block_length as int), block_length as int)].count == 0); }
    assert(zeros32({{XC}})); assert(zeros64({{XM}}, capacity as int));
  }
@before 14
  let ghost r = mhashes(keys@, seed);
@loop 14
  invariant stack@.len() == num_keys, in_geo(g, capacity as int), g == xgeo(block_length as int), capacity == 3 * block_length, 0 < block_length < 0x200_0000, B@.len() == capacity, r == mhashes(keys@, seed), done2(g, r, {{SI}}, {{SH}}, num_keys as int, capacity as int),
    forall|t: int| num_keys - $i <= t < num_keys ==> #[trigger] kept(B@, g, {{SH}}[t]),
    forall|t: int| 0 <= t < num_keys - $i ==> B@[#[trigger] {{SI}}[t]] == 0,
@body 14
  let ghost fp0 = B@;
  let ghost ti = num_keys - 1 - $i14;
  proof {
    let h = stack@[ti].hash;
    assert({{SI}}[ti] == stack@[ti].index); assert({{SH}}[ti] == h); lemma_h012(g, h, capacity as int);
    lemma_xpos(h, block_length as int, 0); lemma_xpos(h, block_length as int, 1); lemma_xpos(h, block_length as int, 2);
    lemma_rot_amounts(); lemma_red(s_rotj(h, 0), block_length); lemma_red(s_rotj(h, 1), block_length); lemma_red(s_rotj(h, 2), block_length);
  }
@bodyend 14
  proof {
    crate::math::forms4_{{T}}(fpr(ki.hash), fp0[g(ki.hash, 0)], fp0[g(ki.hash, 1)], fp0[g(ki.hash, 2)]);
    lemma_keep(g, fp0, B@, ki.hash, ki.index as int);
    assert forall|t: int| num_keys - ($i14 + 1) <= t < num_keys implies #[trigger] kept(B@, g, {{SH}}[t]) by {
      if t > ti {
        assert(kept(fp0, g, {{SH}}[t]));
        assert(!touch(g, {{SH}}[t], {{SI}}[ti]));
        lemma_h012(g, {{SH}}[t], capacity as int);
      }
    }
    assert forall|t: int| 0 <= t < num_keys - ($i14 + 1) implies B@[#[trigger] {{SI}}[t]] == 0 by {
      assert(!touch(g, {{SH}}[ti], {{SI}}[t]));
      assert(touch(g, {{SH}}[ti], {{SI}}[ti]));
      assert(fp0[{{SI}}[t]] == 0);
    }
  }
@tail
  proof {
    assert forall|i: int| 0 <= i < keys@.len() implies kept(B@, g, s_mix(#[trigger] keys@[i], seed)) by {
      assert(r[i] == s_mix(keys@[i], seed));
      assert(stacked2({{SH}}, num_keys as int, r[i]));
      let s = choose|s: int| 0 <= s < num_keys && #[trigger] {{SH}}[s] == r[i];
      assert(kept(B@, g, {{SH}}[s]));
    }
  }
@end
@fn xor{{W}}::Xor{{W}} as From<&Vec<u64>>::from => from_ref
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@sub \bSelf::from\( ==> Self::from_slice(
@spec
  requires v@.len() < 0x100_0000,
  ensures r.wf() && (forall|i: int| 0 <= i < v@.len() ==> r.has(s_mix(#[trigger] v@[i], r.seed))),
@end
@fn xor{{W}}::Xor{{W}} as From<Vec<u64>>::from => from_vec
@attr #[verifier::exec_allows_no_decreases_clause]
@ret r
@sub \bSelf::from\( ==> Self::from_slice(
@spec
  requires v@.len() < 0x100_0000,
  ensures r.wf() && (forall|i: int| 0 <= i < v@.len() ==> r.has(s_mix(#[trigger] v@[i], r.seed))),
@end
}
impl VFilter for Xor{{W}} {
  open spec fn f_wf(&self) -> bool { self.wf() }
  open spec fn f_holds(&self, k: u64) -> bool { self.has(s_mix(k, self.seed)) }
  open spec fn f_len(&self) -> nat { self.fingerprints@.len() }
  fn contains(&self, key: &u64) -> (r: bool) { Xor{{W}}::contains(self, key) }
  fn len(&self) -> (r: usize) { Xor{{W}}::len(self) }
}
impl VFromKeys for Xor{{W}} {
  open spec fn f_admits(k: Seq<u64>) -> bool { k.len() < 0x100_0000 }
  #[verifier::exec_allows_no_decreases_clause]
  fn from(keys: Vec<u64>) -> (r: Self) { Xor{{W}}::from_vec(keys) }
}
