@@global
@head
#![feature(sized_hierarchy, const_destruct, allocator_api)]
#![verifier::loop_isolation(false)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, deprecated, private_interfaces, private_bounds, non_camel_case_types)]
pub mod vp;
pub mod spec;
@type GenericArray => [u8; 32]
@call .position => vp_position
@call .any => vp_any
@call .all => vp_every
@@rem
