//! Stand-ins for the Expander crates that the repository depends on and that are not
//! available here. Only the arithmetic / serialisation / trait surface is provided; no
//! proving code. See DESIGN.md, "Shims".
#![allow(clippy::all)]

pub mod serdes_impl;
pub use serdes_impl::*;
pub mod field;
pub use field::*;
pub mod bn254;
pub use bn254::Fr;
pub mod simd;
pub use simd::*;
pub mod engine;
pub use engine::*;
pub mod expander_circuit_impl;
pub use expander_circuit_impl::*;
pub mod crosslayer_impl;
pub use vpshim_derive::ExpSerde;
pub mod shared_mem;
pub use shared_mem::*;
