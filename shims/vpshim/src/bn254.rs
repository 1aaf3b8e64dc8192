use crate::field::Field;
use crate::impl_ops;
use crate::serdes_impl::*;
use crate::simd::SimdField;
use ethnum::U256;
use rand::RngCore;
use std::fmt::Debug;
use std::io::{Read, Write};

const P: [u64; 4] = [
    0x43e1f593f0000001,
    0x2833e84879b97091,
    0xb85045b68181585d,
    0x30644e72e131a029,
];
const PU: U256 = U256([
    (P[0] as u128) | ((P[1] as u128) << 64),
    (P[2] as u128) | ((P[3] as u128) << 64),
]);
// -P^-1 mod 2^64
const N0: u64 = {
    let mut inv: u64 = 1;
    let mut i = 0;
    while i < 63 {
        inv = inv.wrapping_mul(inv);
        inv = inv.wrapping_mul(P[0]);
        i += 1;
    }
    inv.wrapping_neg()
};

/// BN254 scalar field, canonical (non-Montgomery) representation.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Fr {
    v: U256,
}
impl Debug for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl std::fmt::Display for Fr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
fn limbs(x: &U256) -> [u64; 4] {
    [x.0[0] as u64, (x.0[0] >> 64) as u64, x.0[1] as u64, (x.0[1] >> 64) as u64]
}
fn unlimbs(l: [u64; 4]) -> U256 {
    U256([l[0] as u128 | (l[1] as u128) << 64, l[2] as u128 | (l[3] as u128) << 64])
}
// Montgomery product: a*b/2^256 mod P
fn mont(a: &U256, b: &U256) -> U256 {
    let a = limbs(a);
    let b = limbs(b);
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let s = t[j] as u128 + a[j] as u128 * b[i] as u128 + c;
            t[j] = s as u64;
            c = s >> 64;
        }
        let s = t[4] as u128 + c;
        t[4] = s as u64;
        t[5] = (s >> 64) as u64;
        let m = t[0].wrapping_mul(N0);
        let mut c = (t[0] as u128 + m as u128 * P[0] as u128) >> 64;
        for j in 1..4 {
            let s = t[j] as u128 + m as u128 * P[j] as u128 + c;
            t[j - 1] = s as u64;
            c = s >> 64;
        }
        let s = t[4] as u128 + c;
        t[3] = s as u64;
        t[4] = t[5] + (s >> 64) as u64;
    }
    let r = unlimbs([t[0], t[1], t[2], t[3]]);
    if r >= PU {
        r - PU
    } else {
        r
    }
}
fn addm(a: &U256, b: &U256) -> U256 {
    let r = *a + *b;
    if r >= PU {
        r - PU
    } else {
        r
    }
}
fn r2() -> &'static U256 {
    static R2: std::sync::OnceLock<U256> = std::sync::OnceLock::new();
    R2.get_or_init(|| {
        let mut r = U256::ONE;
        for _ in 0..512 {
            r = addm(&r, &r);
        }
        r
    })
}
fn mulm(a: &U256, b: &U256) -> U256 {
    mont(&mont(a, b), r2())
}

impl_ops!([] Fr,
    |a: &Fr, b: &Fr| Fr { v: addm(&a.v, &b.v) },
    |a: &Fr, b: &Fr| Fr { v: if a.v >= b.v { a.v - b.v } else { a.v + (PU - b.v) } },
    |a: &Fr, b: &Fr| Fr { v: mulm(&a.v, &b.v) });

impl Fr {
    pub const fn from_raw(l: [u64; 4]) -> Self {
        Fr {
            v: U256([l[0] as u128 | (l[1] as u128) << 64, l[2] as u128 | (l[3] as u128) << 64]),
        }
    }
    pub const fn zero() -> Self {
        Self::from_raw([0; 4])
    }
    pub const fn one() -> Self {
        Self::from_raw([1, 0, 0, 0])
    }
}
impl From<u32> for Fr {
    fn from(x: u32) -> Self {
        Fr { v: U256::from(x) }
    }
}
impl From<u64> for Fr {
    fn from(x: u64) -> Self {
        Fr { v: U256::from(x) }
    }
}
impl From<bool> for Fr {
    fn from(x: bool) -> Self {
        Fr { v: U256::from(x as u8) }
    }
}
impl Field for Fr {
    const NAME: &'static str = "bn254 scalar field";
    const SIZE: usize = 32;
    const FIELD_SIZE: usize = 256;
    const ZERO: Self = Fr { v: U256::ZERO };
    const ONE: Self = Fr { v: U256::ONE };
    const MODULUS: U256 = PU;
    fn random_unsafe(mut rng: impl RngCore) -> Self {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        Fr { v: U256::from_le_bytes(b) % PU }
    }
    fn inv(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        let mut e = PU - 2;
        let mut r = Fr::ONE;
        let mut b = *self;
        while e != 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        Some(r)
    }
    fn as_u32_unchecked(&self) -> u32 {
        self.v.as_u32()
    }
    fn from_uniform_bytes(bytes: &[u8]) -> Self {
        let mut b = [0u8; 32];
        let n = bytes.len().min(32);
        b[..n].copy_from_slice(&bytes[..n]);
        Fr { v: U256::from_le_bytes(b) % PU }
    }
    fn to_u256(&self) -> U256 {
        self.v
    }
    fn from_u256(x: U256) -> Self {
        Fr { v: x % PU }
    }
}
impl ExpSerde for Fr {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        w.write_all(&self.v.to_le_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        let v = U256::from_le_bytes(b);
        if v >= PU {
            return Err(SerdeError::DeserializeError);
        }
        Ok(Fr { v })
    }
}
impl SimdField for Fr {
    type Scalar = Fr;
    const PACK_SIZE: usize = 1;
    fn scale(&self, c: &Fr) -> Self {
        *self * *c
    }
    fn pack(base_vec: &[Fr]) -> Self {
        assert_eq!(base_vec.len(), 1);
        base_vec[0]
    }
    fn unpack(&self) -> Vec<Fr> {
        vec![*self]
    }
}
