use crate::serdes_impl::*;
use ethnum::U256;
use rand::RngCore;
use std::fmt::Debug;
use std::hash::Hash;
use std::io::{Read, Write};
use std::iter::{Product, Sum};
use std::ops::*;

pub trait Field:
    Copy
    + Clone
    + Debug
    + Default
    + PartialEq
    + Eq
    + PartialOrd
    + Ord
    + Hash
    + From<u32>
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
    + Sum
    + Product
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + Send
    + Sync
    + Sized
    + ExpSerde
    + 'static
{
    const NAME: &'static str;
    const SIZE: usize;
    const FIELD_SIZE: usize;
    const ZERO: Self;
    const ONE: Self;
    const MODULUS: U256;
    fn zero() -> Self {
        Self::ZERO
    }
    fn one() -> Self {
        Self::ONE
    }
    fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    fn is_one(&self) -> bool {
        *self == Self::ONE
    }
    fn random_unsafe(rng: impl RngCore) -> Self;
    fn random_bool(mut rng: impl RngCore) -> Self {
        if rng.next_u32() & 1 == 1 {
            Self::ONE
        } else {
            Self::ZERO
        }
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn mul_by_2(&self) -> Self {
        self.double()
    }
    fn mul_by_3(&self) -> Self {
        *self + self.double()
    }
    fn mul_by_5(&self) -> Self {
        *self + self.double().double()
    }
    fn mul_by_6(&self) -> Self {
        self.mul_by_3().double()
    }
    fn exp(&self, exponent: u128) -> Self {
        let mut r = Self::ONE;
        let mut b = *self;
        let mut e = exponent;
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
    fn inv(&self) -> Option<Self>;
    fn as_u32_unchecked(&self) -> u32;
    fn from_uniform_bytes(bytes: &[u8]) -> Self;
    fn to_u256(&self) -> U256;
    fn from_u256(x: U256) -> Self;
}

/// A prime field below 2^64.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Fp<const P: u64> {
    pub v: u64,
}
pub type GF2 = Fp<2>;
pub type M31 = Fp<2147483647>;
pub type BabyBear = Fp<2013265921>;
pub type Goldilocks = Fp<18446744069414584321>;

const fn width(p: u64) -> usize {
    if p <= 256 {
        1
    } else if p <= (1 << 32) {
        4
    } else {
        8
    }
}

impl<const P: u64> Debug for Fp<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl<const P: u64> std::fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}

impl<const P: u64> Fp<P> {
    fn add_(a: u64, b: u64) -> u64 {
        ((a as u128 + b as u128) % P as u128) as u64
    }
    fn sub_(a: u64, b: u64) -> u64 {
        ((a as u128 + P as u128 - b as u128) % P as u128) as u64
    }
    fn mul_(a: u64, b: u64) -> u64 {
        ((a as u128 * b as u128) % P as u128) as u64
    }
    pub fn new(v: u64) -> Self {
        Fp { v: v % P }
    }
}

impl<const P: u64> Field for Fp<P> {
    const NAME: &'static str = "Fp";
    const SIZE: usize = width(P);
    // as in the real crates: the size of the representation
    const FIELD_SIZE: usize = if P == 2 { 1 } else if P < 1 << 32 { 32 } else { 64 };
    const ZERO: Self = Fp { v: 0 };
    const ONE: Self = Fp { v: 1 };
    const MODULUS: U256 = U256([P as u128, 0]);
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        Fp {
            v: (((rng.next_u64() as u128) << 64 | rng.next_u64() as u128) % P as u128) as u64,
        }
    }
    fn inv(&self) -> Option<Self> {
        if self.v == 0 {
            None
        } else {
            Some(self.exp(P as u128 - 2))
        }
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.v as u32
    }
    fn from_uniform_bytes(bytes: &[u8]) -> Self {
        let mut b = [0u8; 16];
        let n = bytes.len().min(16);
        b[..n].copy_from_slice(&bytes[..n]);
        Fp {
            v: (u128::from_le_bytes(b) % P as u128) as u64,
        }
    }
    fn to_u256(&self) -> U256 {
        U256::from(self.v)
    }
    fn from_u256(x: U256) -> Self {
        Fp {
            v: (x % U256::from(P)).as_u64(),
        }
    }
}

impl<const P: u64> ExpSerde for Fp<P> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        w.write_all(&self.v.to_le_bytes()[..width(P)])?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut b = [0u8; 8];
        r.read_exact(&mut b[..width(P)])?;
        Ok(Fp {
            v: u64::from_le_bytes(b) % P,
        })
    }
}

#[macro_export]
macro_rules! impl_ops {
    ([$($g:tt)*] $t:ty, $add:expr, $sub:expr, $mul:expr) => {
        impl<$($g)*> std::ops::Add for $t { type Output = Self; fn add(self, o: Self) -> Self { $add(&self, &o) } }
        impl<$($g)*> std::ops::Sub for $t { type Output = Self; fn sub(self, o: Self) -> Self { $sub(&self, &o) } }
        impl<$($g)*> std::ops::Mul for $t { type Output = Self; fn mul(self, o: Self) -> Self { $mul(&self, &o) } }
        impl<'vp, $($g)*> std::ops::Add<&'vp $t> for $t { type Output = Self; fn add(self, o: &'vp Self) -> Self { $add(&self, o) } }
        impl<'vp, $($g)*> std::ops::Sub<&'vp $t> for $t { type Output = Self; fn sub(self, o: &'vp Self) -> Self { $sub(&self, o) } }
        impl<'vp, $($g)*> std::ops::Mul<&'vp $t> for $t { type Output = Self; fn mul(self, o: &'vp Self) -> Self { $mul(&self, o) } }
        impl<$($g)*> std::ops::AddAssign for $t { fn add_assign(&mut self, o: Self) { *self = $add(self, &o); } }
        impl<$($g)*> std::ops::SubAssign for $t { fn sub_assign(&mut self, o: Self) { *self = $sub(self, &o); } }
        impl<$($g)*> std::ops::MulAssign for $t { fn mul_assign(&mut self, o: Self) { *self = $mul(self, &o); } }
        impl<'vp, $($g)*> std::ops::AddAssign<&'vp $t> for $t { fn add_assign(&mut self, o: &'vp Self) { *self = $add(self, o); } }
        impl<'vp, $($g)*> std::ops::SubAssign<&'vp $t> for $t { fn sub_assign(&mut self, o: &'vp Self) { *self = $sub(self, o); } }
        impl<'vp, $($g)*> std::ops::MulAssign<&'vp $t> for $t { fn mul_assign(&mut self, o: &'vp Self) { *self = $mul(self, o); } }
        impl<$($g)*> std::ops::Neg for $t { type Output = Self; fn neg(self) -> Self { $sub(&<Self as $crate::field::Field>::ZERO, &self) } }
        impl<$($g)*> std::iter::Sum for $t { fn sum<VpI: Iterator<Item = Self>>(it: VpI) -> Self { it.fold(<Self as $crate::field::Field>::ZERO, |a, b| $add(&a, &b)) } }
        impl<$($g)*> std::iter::Product for $t { fn product<VpI: Iterator<Item = Self>>(it: VpI) -> Self { it.fold(<Self as $crate::field::Field>::ONE, |a, b| $mul(&a, &b)) } }
        impl<'vp, $($g)*> std::iter::Sum<&'vp $t> for $t { fn sum<VpI: Iterator<Item = &'vp Self>>(it: VpI) -> Self { it.fold(<Self as $crate::field::Field>::ZERO, |a, b| $add(&a, b)) } }
        impl<'vp, $($g)*> std::iter::Product<&'vp $t> for $t { fn product<VpI: Iterator<Item = &'vp Self>>(it: VpI) -> Self { it.fold(<Self as $crate::field::Field>::ONE, |a, b| $mul(&a, b)) } }
    };
}

impl_ops!([const P: u64] Fp<P>,
    |a: &Fp<P>, b: &Fp<P>| Fp::<P> { v: Fp::<P>::add_(a.v, b.v) },
    |a: &Fp<P>, b: &Fp<P>| Fp::<P> { v: Fp::<P>::sub_(a.v, b.v) },
    |a: &Fp<P>, b: &Fp<P>| Fp::<P> { v: Fp::<P>::mul_(a.v, b.v) });

impl<const P: u64> From<u32> for Fp<P> {
    fn from(x: u32) -> Self {
        Fp { v: x as u64 % P }
    }
}
impl<const P: u64> From<u64> for Fp<P> {
    fn from(x: u64) -> Self {
        Fp { v: x % P }
    }
}
impl<const P: u64> From<bool> for Fp<P> {
    fn from(x: bool) -> Self {
        Fp { v: x as u64 }
    }
}
