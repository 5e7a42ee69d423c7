@struct hash_proxy::HashProxy
@fn hash_proxy::hash
@ret r
@spec
  ensures r == s_hash::<T, H>(*key),
@start
  proof { assert(Seq::<u8>::empty() + key.feed() =~= key.feed()); }
@end
impl<T: VHash, H: VHasher, F: VFilter> HashProxy<T, H, F> {
@fn hash_proxy::HashProxy<T,H,F> as Filter<T>::contains
@opt vis=pub
@ret r
@spec
  requires self.filter.f_wf(),
  ensures r == self.filter.f_holds(s_hash::<T, H>(*key)),
@end
@fn hash_proxy::HashProxy<T,H,F> as Filter<T>::len
@opt vis=pub
@ret r
@spec
  ensures r == self.filter.f_len(),
@end
}
pub open spec fn s_hashes<T: VHash, H: VHasher>(k: Seq<T>) -> Seq<u64> { Seq::new(k.len(), |i: int| s_hash::<T, H>(k[i])) }
impl<T: VHash, H: VHasher, F: VFilter + VFromKeys> HashProxy<T, H, F> {
@fn hash_proxy::HashProxy<T,H,F> as From<&[T]>::from => from_slice
@opt vis=pub
@ret r
@spec
  requires F::f_admits(s_hashes::<T, H>(keys@)),
  ensures r.filter.f_wf(), forall|i: int| 0 <= i < keys@.len() ==> r.filter.f_holds(s_hash::<T, H>(#[trigger] keys@[i])),
@start
  let ghost k0 = keys@;
@loop 0
  invariant keys@ == k0, __v0@.len() == $i, forall|j: int| 0 <= j < $i ==> #[trigger] __v0@[j] == s_hash::<T, H>(k0[j]),
@tail
  proof {
    assert(keys@ =~= s_hashes::<T, H>(k0));
    assert forall|i: int| 0 <= i < k0.len() implies s_hash::<T, H>(#[trigger] k0[i]) == keys@[i] by {}
  }
@end
@fn hash_proxy::HashProxy<T,H,F> as From<&Vec<T>>::from => from_ref
@opt vis=pub
@ret r
@sub \bSelf::from\( ==> Self::from_slice(
@spec
  requires F::f_admits(s_hashes::<T, H>(v@)),
  ensures r.filter.f_wf(), forall|i: int| 0 <= i < v@.len() ==> r.filter.f_holds(s_hash::<T, H>(#[trigger] v@[i])),
@end
}
// every key a proxy was built over is reported as contained
pub fn proxied<T: VHash, H: VHasher, F: VFilter + VFromKeys>(keys: &Vec<T>, i: usize) -> (r: bool)
  requires i < keys@.len(), F::f_admits(s_hashes::<T, H>(keys@)),
  ensures r,
{
  let p: HashProxy<T, H, F> = HashProxy::from_ref(keys);
  p.contains(&keys[i])
}
