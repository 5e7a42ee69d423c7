#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_assignments, unused_parens, unused_braces, non_snake_case, unreachable_code, unreachable_patterns, unused_comparisons, clippy::all)]
extern crate alloc;
use vstd::prelude::*;
verus! { global size_of usize == 8; }
