use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use crate::ext::*;
use crate::files::*;
use crate::math::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
#[allow(unused_imports)] use crate::lwe::*;
#[allow(unused_imports)] use crate::matrices::*;
#[allow(unused_imports)] use crate::random::*;
#[allow(unused_imports)] use crate::format::*;
#[allow(unused_imports)] use crate::db::*;
#[allow(unused_imports)] use crate::index::*;
#[allow(unused_imports)] use crate::api::*;
#[allow(unused_imports)] use crate::prelude::*;
#[allow(unused_imports)] use crate::bfusep32::*;
#[allow(unused_imports)] use crate::kv::*;
