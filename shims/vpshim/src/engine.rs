use crate::bn254::Fr;
use crate::field::*;
use crate::simd::*;
use std::fmt::Debug;
use std::marker::PhantomData;

pub trait FieldEngine: Default + Debug + Clone + Copy + Send + Sync + PartialEq + Eq + PartialOrd + Ord + std::hash::Hash + 'static {
    type CircuitField: Field;
    type SimdCircuitField: SimdField<Scalar = Self::CircuitField>;
    /// Expander uses an extension field here; the circuit field is enough for these checks.
    type ChallengeField: Field;
    fn get_field_pack_size() -> usize {
        <Self::SimdCircuitField as SimdField>::PACK_SIZE
    }
}
pub trait GKREngine {
    type FieldConfig: FieldEngine;
}

macro_rules! cfg {
    ($fe:ident, $f:ty, $sf:ty) => {
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $fe;
        impl FieldEngine for $fe {
            type CircuitField = $f;
            type SimdCircuitField = $sf;
            type ChallengeField = $f;
        }
    };
}
macro_rules! gkrc {
    ($n:ident, $fe:ident) => {
        #[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $n<'a>(PhantomData<&'a ()>);
        impl<'a> GKREngine for $n<'a> {
            type FieldConfig = $fe;
        }
    };
}
cfg!(M31x16Config, M31, M31x16);
cfg!(BN254Config, Fr, Fr);
cfg!(GF2ExtConfig, GF2, GF2x8);
cfg!(Goldilocksx8Config, Goldilocks, Goldilocksx8);
cfg!(BabyBearx16Config, BabyBear, BabyBearx16);
gkrc!(M31x16ConfigSha2RawVanilla, M31x16Config);
gkrc!(M31x16ConfigSha2OrionVanilla, M31x16Config);
gkrc!(BN254ConfigMIMC5Raw, BN254Config);
gkrc!(GF2ExtConfigSha2Raw, GF2ExtConfig);
gkrc!(Goldilocksx8ConfigSha2Raw, Goldilocksx8Config);
gkrc!(BabyBearx16ConfigSha2Raw, BabyBearx16Config);

/// Tiny prime fields, so that a model checker can enumerate every input.
#[derive(Default, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct TinyField<const P: u64, const N: usize>;
impl<const P: u64, const N: usize> FieldEngine for TinyField<P, N> {
    type CircuitField = Fp<P>;
    type SimdCircuitField = Simd<Fp<P>, N>;
    type ChallengeField = Fp<P>;
}
