use crate::field::*;
use crate::impl_ops;
use crate::serdes_impl::*;
use ethnum::U256;
use rand::RngCore;
use std::io::{Read, Write};

pub trait SimdField: From<Self::Scalar> + Field {
    type Scalar: Field;
    const PACK_SIZE: usize;
    fn scale(&self, challenge: &Self::Scalar) -> Self;
    fn pack(base_vec: &[Self::Scalar]) -> Self;
    fn pack_full(base: &Self::Scalar) -> Self {
        Self::pack(&vec![*base; Self::PACK_SIZE])
    }
    fn unpack(&self) -> Vec<Self::Scalar>;
    fn horizontal_sum(&self) -> Self::Scalar {
        self.unpack().into_iter().sum()
    }
}

/// N independent lanes of F.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Simd<F, const N: usize> {
    pub v: [F; N],
}
pub type M31x16 = Simd<M31, 16>;
pub type GF2x8 = Simd<GF2, 8>;
pub type Goldilocksx8 = Simd<Goldilocks, 8>;
pub type BabyBearx16 = Simd<BabyBear, 16>;

impl<F: Field, const N: usize> Default for Simd<F, N> {
    fn default() -> Self {
        Simd { v: [F::ZERO; N] }
    }
}
fn zip<F: Field, const N: usize>(a: &Simd<F, N>, b: &Simd<F, N>, f: impl Fn(F, F) -> F) -> Simd<F, N> {
    let mut v = [F::ZERO; N];
    for i in 0..N {
        v[i] = f(a.v[i], b.v[i]);
    }
    Simd { v }
}
impl_ops!([F: Field, const N: usize] Simd<F, N>,
    |a: &Simd<F, N>, b: &Simd<F, N>| zip(a, b, |x, y| x + y),
    |a: &Simd<F, N>, b: &Simd<F, N>| zip(a, b, |x, y| x - y),
    |a: &Simd<F, N>, b: &Simd<F, N>| zip(a, b, |x, y| x * y));

impl<F: Field, const N: usize> From<u32> for Simd<F, N> {
    fn from(x: u32) -> Self {
        Simd { v: [F::from(x); N] }
    }
}
impl<const P: u64, const N: usize> From<Fp<P>> for Simd<Fp<P>, N> {
    fn from(x: Fp<P>) -> Self {
        Simd { v: [x; N] }
    }
}
impl<F: Field, const N: usize> Field for Simd<F, N> {
    const NAME: &'static str = "Simd";
    const SIZE: usize = F::SIZE * N;
    const FIELD_SIZE: usize = F::FIELD_SIZE;
    const ZERO: Self = Simd { v: [F::ZERO; N] };
    const ONE: Self = Simd { v: [F::ONE; N] };
    const MODULUS: U256 = F::MODULUS;
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        let mut v = [F::ZERO; N];
        for x in v.iter_mut() {
            *x = F::random_unsafe(&mut rng);
        }
        Simd { v }
    }
    fn inv(&self) -> Option<Self> {
        let mut v = [F::ZERO; N];
        for i in 0..N {
            v[i] = self.v[i].inv()?;
        }
        Some(Simd { v })
    }
    fn as_u32_unchecked(&self) -> u32 {
        unimplemented!("self is a vector, cannot convert to u32")
    }
    fn from_uniform_bytes(bytes: &[u8]) -> Self {
        Simd { v: [F::from_uniform_bytes(bytes); N] }
    }
    fn to_u256(&self) -> U256 {
        unimplemented!("vector")
    }
    fn from_u256(x: U256) -> Self {
        Simd { v: [F::from_u256(x); N] }
    }
}
impl<F: Field, const N: usize> ExpSerde for Simd<F, N> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        for x in &self.v {
            x.serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut v = [F::ZERO; N];
        for x in v.iter_mut() {
            *x = F::deserialize_from(&mut r)?;
        }
        Ok(Simd { v })
    }
}
impl<const P: u64, const N: usize> SimdField for Simd<Fp<P>, N> {
    type Scalar = Fp<P>;
    const PACK_SIZE: usize = N;
    fn scale(&self, c: &Fp<P>) -> Self {
        let mut v = self.v;
        for x in v.iter_mut() {
            *x = *x * *c;
        }
        Simd { v }
    }
    fn pack(base_vec: &[Fp<P>]) -> Self {
        assert_eq!(base_vec.len(), N);
        let mut v = [Fp { v: 0 }; N];
        v.copy_from_slice(base_vec);
        Simd { v }
    }
    fn unpack(&self) -> Vec<Fp<P>> {
        self.v.to_vec()
    }
}
