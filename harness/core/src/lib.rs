#![feature(min_specialization)]
#![allow(warnings)]
extern crate self as expander_compiler;
extern crate vpshim as arith;
extern crate vpshim as babybear;
extern crate vpshim as expander_circuit;
extern crate vpshim as gf2;
extern crate vpshim as gkr;
extern crate vpshim as gkr_engine;
extern crate vpshim as goldilocks;
extern crate vpshim as mersenne31;
extern crate vpshim as serdes;
extern crate vpshim_cross as crosslayer_prototype;

include!(concat!(env!("OUT_DIR"), "/tree.rs"));
pub mod vp;
