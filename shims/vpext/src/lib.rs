//! Stand-ins for the crates that only circuit-std-rs needs: num-bigint, ark-ff, ark-bls12-381,
//! halo2curves and gkr_hashers. See DESIGN.md, "Shims".
#![allow(clippy::all)]
pub mod big;
pub use big::*;
pub mod tower;
pub use num_traits::{One, Zero};
pub use tower::*;

/// ark_std::test_rng
pub fn test_rng() -> rand::rngs::StdRng {
    rand::SeedableRng::seed_from_u64(1)
}
/// halo2curves::bn256
pub mod bn256 {
    pub use vpshim::Fr;
}
/// ark_ff::fields
pub mod fields {
    pub use crate::tower::Field;
}
/// gkr_hashers::poseidon
pub mod poseidon {
    pub mod impls {
        pub const POSEIDON_SEED_PREFIX: &str = "poseidon_seed";
        pub const MATRIX_CIRC_MDS_8_SML_ROW: [u32; 8] = [7, 1, 3, 8, 8, 3, 4, 9];
        pub const MATRIX_CIRC_MDS_12_SML_ROW: [u32; 12] = [1, 1, 2, 1, 8, 9, 10, 7, 5, 9, 4, 10];
        pub const MATRIX_CIRC_MDS_16_SML_ROW: [u32; 16] =
            [1, 1, 51, 1, 11, 17, 2, 1, 101, 63, 15, 2, 67, 22, 13, 3];
    }
}
