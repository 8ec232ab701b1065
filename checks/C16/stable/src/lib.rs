#![feature(negative_impls)]
include!("../../../../rt/vp.rs");
include!("../../casts.rs");
