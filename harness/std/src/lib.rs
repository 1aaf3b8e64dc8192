#![allow(warnings)]
extern crate self as circuit_std_rs;
extern crate vpext as ark_bls12_381;
extern crate vpext as ark_ff;
extern crate vpext as ark_std;
extern crate vpext as gkr_hashers;
extern crate vpext as halo2curves;
extern crate vpext as num_bigint;
extern crate vpshim as arith;
extern crate vpshim as gf2;
extern crate vpshim as mersenne31;
extern crate vpshim as serdes;

include!(concat!(env!("OUT_DIR"), "/tree.rs"));
pub mod vp;
