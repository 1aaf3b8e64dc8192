//! Tiny prime fields as circuit fields, so that a model checker can enumerate inputs.
use crate::circuit::config::Config;
use crate::field::{Field, FieldRaw};
use std::marker::PhantomData;
use vpshim::{FieldEngine, Fp, GKREngine, Simd, TinyField};

macro_rules! tiny {
    ($($p:literal),*) => { $(
        impl Field for Fp<$p> {}
        impl FieldRaw for Fp<$p> {}
        impl FieldRaw for Simd<Fp<$p>, 2> {}
        impl FieldRaw for Simd<Fp<$p>, 4> {}
    )* };
}
tiny!(3, 5, 7, 13, 97);
impl FieldRaw for Simd<Fp<2>, 2> {}
impl FieldRaw for Simd<Fp<2>, 4> {}

macro_rules! cfgs {
    ($($name:ident, $p:literal, $n:literal, $id:literal, $rc:literal, $mul:literal);* $(;)?) => { $(
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $name;
        impl GKREngine for $name { type FieldConfig = TinyField<$p, $n>; }
        impl Config for $name {
            const CONFIG_ID: usize = $id;
            const COST_MUL: usize = $mul;
            const ENABLE_RANDOM_COMBINATION: bool = $rc;
        }
    )* };
}
cfgs! {
    T2, 2, 4, 102, false, 200;
    T3, 3, 2, 103, false, 10;
    T5, 5, 4, 105, true, 10;
    T5X, 5, 4, 205, false, 10;
    T7, 7, 2, 107, true, 10;
    T13, 13, 4, 113, true, 10;
    T97, 97, 4, 197, true, 10;
    T97X, 97, 2, 297, false, 10;
}
pub use crate::circuit::config::{BN254Config, BabyBearConfig, GF2Config, GoldilocksConfig, M31Config, M31OrionConfig};
pub type F<C> = crate::circuit::config::CircuitField<C>;
