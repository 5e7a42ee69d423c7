// Files and serde_json, as far as the crate uses them.  Assumed: the operating system keeps what is written; serde_json
// writes a value in the form its Serialize implementation describes and reads that form back; a struct that derives
// Serialize and Deserialize is written and read field by field (tools/weave.py derives these codecs from the source).
use vstd::prelude::*;
use crate::ext::*;
verus! {

pub tracked struct Disk { pub ghost files: Map<Seq<u8>, Seq<u8>> }

// field names are numbered
pub ghost enum Json { Null, Bool(bool), Num(int), Str(Seq<u8>), Arr(Seq<Json>), Obj(Map<int, Json>) }
// the value that a text stands for
pub uninterp spec fn json_of(text: Seq<u8>) -> Option<Json>;

// ---- codecs: how a type is written, and which values a JSON value may be read as ----------
pub trait VSerde : Sized {
  spec fn j(&self) -> Json;
  spec fn reads(v: Json, x: Self) -> bool;
  // for a field that is missing
  open spec fn reads_missing(x: Self) -> bool { false }
  // the same value: what is observable of both agrees
  spec fn same(x: Self, y: Self) -> bool;
  proof fn law_back(&self)
    ensures Self::reads(self.j(), *self);
  proof fn law_same(v: Json, x: Self, y: Self)
    requires Self::reads(v, x), Self::reads(v, y),
    ensures Self::same(x, y);
}
pub trait VNotNull : VSerde {
  proof fn law_not_null(v: Json, x: Self)
    requires Self::reads(v, x),
    ensures v != Json::Null;
}
pub trait VDefaulted : Sized { spec fn is_default(x: Self) -> bool; }
impl VDefaulted for usize { open spec fn is_default(x: Self) -> bool { x == 0 } }
impl VDefaulted for u32 { open spec fn is_default(x: Self) -> bool { x == 0 } }
impl VDefaulted for u64 { open spec fn is_default(x: Self) -> bool { x == 0 } }
impl VDefaulted for bool { open spec fn is_default(x: Self) -> bool { !x } }
impl<T> VDefaulted for Vec<T> { open spec fn is_default(x: Self) -> bool { x@.len() == 0 } }
impl<T> VDefaulted for Option<T> { open spec fn is_default(x: Self) -> bool { x is None } }
impl VDefaulted for [u8; 32] { open spec fn is_default(x: Self) -> bool { forall|i: int| 0 <= i < 32 ==> x@[i] == 0 } }
impl<T> VDefaulted for core::marker::PhantomData<T> { open spec fn is_default(x: Self) -> bool { true } }

impl VSerde for u8 {
  open spec fn j(&self) -> Json { Json::Num(*self as int) }
  open spec fn reads(v: Json, x: Self) -> bool { v == Json::Num(x as int) }
  open spec fn same(x: Self, y: Self) -> bool { x == y }
  proof fn law_back(&self) {}
  proof fn law_same(v: Json, x: Self, y: Self) {}
}
impl VSerde for u32 {
  open spec fn j(&self) -> Json { Json::Num(*self as int) }
  open spec fn reads(v: Json, x: Self) -> bool { v == Json::Num(x as int) }
  open spec fn same(x: Self, y: Self) -> bool { x == y }
  proof fn law_back(&self) {}
  proof fn law_same(v: Json, x: Self, y: Self) {}
}
impl VSerde for u64 {
  open spec fn j(&self) -> Json { Json::Num(*self as int) }
  open spec fn reads(v: Json, x: Self) -> bool { v == Json::Num(x as int) }
  open spec fn same(x: Self, y: Self) -> bool { x == y }
  proof fn law_back(&self) {}
  proof fn law_same(v: Json, x: Self, y: Self) {}
}
impl VSerde for usize {
  open spec fn j(&self) -> Json { Json::Num(*self as int) }
  open spec fn reads(v: Json, x: Self) -> bool { v == Json::Num(x as int) }
  open spec fn same(x: Self, y: Self) -> bool { x == y }
  proof fn law_back(&self) {}
  proof fn law_same(v: Json, x: Self, y: Self) {}
}
impl VSerde for bool {
  open spec fn j(&self) -> Json { Json::Bool(*self) }
  open spec fn reads(v: Json, x: Self) -> bool { v == Json::Bool(x) }
  open spec fn same(x: Self, y: Self) -> bool { x == y }
  proof fn law_back(&self) {}
  proof fn law_same(v: Json, x: Self, y: Self) {}
}
impl VSerde for VString {
  open spec fn j(&self) -> Json { Json::Str(self.bytes()) }
  open spec fn reads(v: Json, x: Self) -> bool { v == Json::Str(x.bytes()) }
  open spec fn same(x: Self, y: Self) -> bool { x.bytes() == y.bytes() }
  proof fn law_back(&self) {}
  proof fn law_same(v: Json, x: Self, y: Self) {}
}
impl<T> VSerde for core::marker::PhantomData<T> {
  open spec fn j(&self) -> Json { Json::Null }
  open spec fn reads(v: Json, x: Self) -> bool { v == Json::Null }
  open spec fn same(x: Self, y: Self) -> bool { true }
  proof fn law_back(&self) {}
  proof fn law_same(v: Json, x: Self, y: Self) {}
}
impl VSerde for [u8; 32] {
  open spec fn j(&self) -> Json { Json::Arr(Seq::new(32, |i: int| Json::Num(self@[i] as int))) }
  open spec fn reads(v: Json, x: Self) -> bool {
    v is Arr && v->Arr_0.len() == 32 && forall|i: int| 0 <= i < 32 ==> (#[trigger] v->Arr_0[i]) == Json::Num(x@[i] as int)
  }
  open spec fn same(x: Self, y: Self) -> bool { x@ == y@ }
  proof fn law_back(&self) {}
  proof fn law_same(v: Json, x: Self, y: Self) {
    assert forall|i: int| 0 <= i < 32 implies x@[i] == y@[i] by { assert(v->Arr_0[i] == Json::Num(x@[i] as int)); }
    assert(x@ =~= y@);
  }
}
impl<T: VSerde> VSerde for Vec<T> {
  open spec fn j(&self) -> Json { Json::Arr(Seq::new(self@.len(), |i: int| self@[i].j())) }
  open spec fn reads(v: Json, x: Self) -> bool {
    v is Arr && v->Arr_0.len() == x@.len() && forall|i: int| 0 <= i < x@.len() ==> T::reads(#[trigger] v->Arr_0[i], x@[i])
  }
  open spec fn same(x: Self, y: Self) -> bool { x@.len() == y@.len() && forall|i: int| 0 <= i < x@.len() ==> T::same(#[trigger] x@[i], y@[i]) }
  proof fn law_back(&self) {
    assert forall|i: int| 0 <= i < self@.len() implies T::reads(#[trigger] self.j()->Arr_0[i], self@[i]) by { self@[i].law_back(); }
  }
  proof fn law_same(v: Json, x: Self, y: Self) {
    assert forall|i: int| 0 <= i < x@.len() implies T::same(#[trigger] x@[i], y@[i]) by { T::law_same(v->Arr_0[i], x@[i], y@[i]); }
  }
}
impl<T: VNotNull> VSerde for Option<T> {
  open spec fn j(&self) -> Json { match *self { None => Json::Null, Some(x) => x.j() } }
  open spec fn reads(v: Json, x: Self) -> bool { match x { None => v == Json::Null, Some(y) => T::reads(v, y) } }
  open spec fn reads_missing(x: Self) -> bool { x is None }
  open spec fn same(x: Self, y: Self) -> bool { match (x, y) { (None, None) => true, (Some(a), Some(b)) => T::same(a, b), _ => false } }
  proof fn law_back(&self) { if let Some(x) = *self { x.law_back(); } }
  proof fn law_same(v: Json, x: Self, y: Self) {
    match (x, y) {
      (Some(a), Some(b)) => { T::law_same(v, a, b); }
      (Some(a), None) => { T::law_not_null(v, a); }
      (None, Some(b)) => { T::law_not_null(v, b); }
      _ => {}
    }
  }
}
// what a struct's field is read from
pub open spec fn reads_field<T: VSerde>(m: Map<int, Json>, f: int, x: T) -> bool {
  if m.contains_key(f) { T::reads(m[f], x) } else { T::reads_missing(x) }
}
pub open spec fn reads_field_or_default<T: VSerde + VDefaulted>(m: Map<int, Json>, f: int, x: T) -> bool {
  if m.contains_key(f) { T::reads(m[f], x) } else { T::is_default(x) }
}

// ---- serde_json::Value ----------------------------------------------------------------------
#[verifier::external_body]
pub struct VJson { x: u8 }
impl VJson { pub uninterp spec fn v(&self) -> Json; }
impl VSerde for VJson {
  open spec fn j(&self) -> Json { self.v() }
  open spec fn reads(v: Json, x: Self) -> bool { x.v() == v }
  open spec fn same(x: Self, y: Self) -> bool { x.v() == y.v() }
  proof fn law_back(&self) {}
  proof fn law_same(v: Json, x: Self, y: Self) {}
}
#[verifier::external_body]
pub fn json_value<T: VSerde>(x: &T) -> (r: VJson) ensures r.v() == x.j() { unimplemented!() }
pub struct VJsonObj { pub m: Ghost<Map<int, Json>> }
pub fn json_obj() -> (r: VJsonObj) ensures r.m@ == Map::<int, Json>::empty() { VJsonObj { m: Ghost(Map::empty()) } }
impl VJsonObj {
  #[verifier::external_body]
  pub fn put<T: VSerde>(self, f: usize, x: &T) -> (r: VJsonObj) ensures r.m@ == self.m@.insert(f as int, x.j()) { unimplemented!() }
  #[verifier::external_body]
  pub fn done(self) -> (r: VJson) ensures r.v() == Json::Obj(self.m@) { unimplemented!() }
}

// every file but one is as before
pub open spec fn only(d0: Map<Seq<u8>, Seq<u8>>, d1: Map<Seq<u8>, Seq<u8>>, path: Seq<u8>) -> bool {
  forall|k: Seq<u8>| #![trigger d1.contains_key(k)] #![trigger d1[k]] k != path ==> d1.contains_key(k) == d0.contains_key(k) && d1[k] == d0[k]
}
pub open spec fn only2(d0: Map<Seq<u8>, Seq<u8>>, d1: Map<Seq<u8>, Seq<u8>>, p: Seq<u8>, q: Seq<u8>) -> bool {
  forall|k: Seq<u8>| #![trigger d1.contains_key(k)] #![trigger d1[k]] k != p && k != q ==> d1.contains_key(k) == d0.contains_key(k) && d1[k] == d0[k]
}
// a text read as a value of a type
pub open spec fn reads_text<T: VSerde>(text: Seq<u8>, x: T) -> bool { json_of(text) is Some && T::reads(json_of(text)->Some_0, x) }
pub open spec fn unreadable<T: VSerde>(text: Seq<u8>) -> bool { forall|x: T| !(#[trigger] reads_text(text, x)) }

// ---- files ----------------------------------------------------------------------------------
#[verifier::external_body]
pub struct VFile { x: u8 }
impl VFile { pub uninterp spec fn path(&self) -> Seq<u8>; pub uninterp spec fn content(&self) -> Seq<u8>; }
// opened for writing: whatever the file held is gone
#[verifier::external_body]
pub fn file_create(path: &VString, Tracked(disk): Tracked<&mut Disk>) -> (r: Result<VFile, VErr>)
  ensures
    match r {
      Ok(f) => f.path() == path.bytes() && final(disk).files == old(disk).files.insert(path.bytes(), Seq::empty()),
      Err(e) => !e.reuse && only(old(disk).files, final(disk).files, path.bytes()),
    },
{ unimplemented!() }
// opened for reading: a file that exists can be read
#[verifier::external_body]
pub fn file_open(path: &VString, Tracked(disk): Tracked<&mut Disk>) -> (r: Result<VFile, VErr>)
  ensures
    final(disk).files == old(disk).files,
    match r {
      Ok(f) => old(disk).files.contains_key(path.bytes()) && f.path() == path.bytes() && f.content() == old(disk).files[path.bytes()],
      Err(e) => !e.reuse && !old(disk).files.contains_key(path.bytes()),
    },
{ unimplemented!() }
pub trait VRead : Sized { spec fn text(&self) -> Seq<u8>; }
impl VRead for VFile { open spec fn text(&self) -> Seq<u8> { self.content() } }
pub struct BufReader { pub f: VFile }
impl VRead for BufReader { open spec fn text(&self) -> Seq<u8> { self.f.content() } }
impl BufReader { pub fn new(f: VFile) -> (r: BufReader) ensures r.f == f { BufReader { f } } }

pub open spec fn written(d0: Map<Seq<u8>, Seq<u8>>, d1: Map<Seq<u8>, Seq<u8>>, path: Seq<u8>, v: Json) -> bool {
  d1.contains_key(path) && json_of(d1[path]) == Some(v) && only(d0, d1, path)
}
// appends the text of a value; a file just created then holds that text
#[verifier::external_body]
pub fn to_writer<T: VSerde>(f: &VFile, x: &T, Tracked(disk): Tracked<&mut Disk>) -> (r: Result<(), VErr>)
  ensures
    only(old(disk).files, final(disk).files, f.path()),
    match r {
      Ok(_) => final(disk).files.contains_key(f.path()) && (old(disk).files.contains_key(f.path()) && old(disk).files[f.path()].len() == 0 ==> json_of(final(disk).files[f.path()]) == Some(x.j())),
      Err(e) => !e.reuse,
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn from_reader<R: VRead, T: VSerde>(f: R) -> (r: Result<T, VErr>)
  ensures
    match r {
      Ok(x) => reads_text(f.text(), x),
      Err(e) => !e.reuse && unreadable::<T>(f.text()),
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn from_str<T: VSerde>(s: &VString) -> (r: Result<T, VErr>)
  ensures
    match r {
      Ok(x) => reads_text(s.bytes(), x),
      Err(e) => !e.reuse && unreadable::<T>(s.bytes()),
    },
{ unimplemented!() }
#[verifier::external_body]
pub fn json_to_string<T: VSerde>(x: &T) -> (r: Result<VString, VErr>)
  ensures r is Ok, json_of(r->Ok_0.bytes()) == Some(x.j()),
{ unimplemented!() }
#[verifier::external_body]
pub fn file_write(path: &VString, s: &VString, Tracked(disk): Tracked<&mut Disk>) -> (r: Result<(), VErr>)
  ensures
    match r {
      Ok(_) => final(disk).files == old(disk).files.insert(path.bytes(), s.bytes()),
      Err(e) => !e.reuse && only(old(disk).files, final(disk).files, path.bytes()),
    },
{ unimplemented!() }
// JSON text is UTF-8
#[verifier::external_body]
pub fn read_to_string(path: &VString, Tracked(disk): Tracked<&mut Disk>) -> (r: Result<VString, VErr>)
  ensures
    final(disk).files == old(disk).files,
    match r {
      Ok(s) => old(disk).files.contains_key(path.bytes()) && s.bytes() == old(disk).files[path.bytes()],
      Err(e) => !e.reuse && !(old(disk).files.contains_key(path.bytes()) && json_of(old(disk).files[path.bytes()]) is Some),
    },
{ unimplemented!() }
} // verus!
