#![allow(clippy::all)]
extern crate self as hz;
pub mod rng;
pub mod model;
pub mod impls;
pub mod sut;
pub mod ops;
pub mod zoo;
#[allow(dead_code, unused_imports, unused_variables, unused_parens, non_camel_case_types, private_interfaces, unused_mut)]
pub mod zoo_gen;
pub mod cx;
pub mod checks;
pub mod cli;
