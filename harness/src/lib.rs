#![feature(try_trait_v2)]
//! Obligations analysed by the abstract interpreter. Nothing in this crate is ever executed.
#![allow(dead_code, unused_variables)]
pub mod ob;
pub mod refs;
pub mod shim;
pub mod vrt;
