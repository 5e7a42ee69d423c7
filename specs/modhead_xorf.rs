use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use crate::ext::*;
use crate::math::*;
use crate::peel::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
#[allow(unused_imports)] use crate::murmur3::*;
#[allow(unused_imports)] use crate::prelude::*;
#[allow(unused_imports)] use crate::bfusep32::*;
#[allow(unused_imports)] use crate::splitmix64::*;
