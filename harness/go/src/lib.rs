#![allow(warnings)]
#![allow(macro_expanded_macro_exports_accessed_by_absolute_paths)]
extern crate vpshim as serdes;
include!(concat!(env!("OUT_DIR"), "/tree.rs"));
pub mod vp;
pub mod cross;
pub mod built;
