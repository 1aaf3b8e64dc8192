//! ark_ff::Field and ark_bls12_381::{Fq, Fq2, Fq6, Fq12}: the part the repository's hints use.
use crate::big::*;
use num_traits::{One, Zero};
use std::fmt;
use std::ops::*;
use std::sync::OnceLock;

fn p() -> &'static BigUint {
    static P: OnceLock<BigUint> = OnceLock::new();
    P.get_or_init(|| {
        BigUint::parse_bytes(b"1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16).unwrap()
    })
}
pub trait Field:
    Clone + Copy + PartialEq + Default + Zero + One + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self>
{
    fn inverse(&self) -> Option<Self>;
    fn sqrt(&self) -> Option<Self>;
    fn square(&self) -> Self {
        *self * *self
    }
    fn pow<S: IntoIterator<Item = T>, T: std::borrow::Borrow<u64>>(&self, e: S) -> Self {
        let e: Vec<u64> = e.into_iter().map(|x| *x.borrow()).collect();
        let mut r = Self::one();
        for w in e.iter().rev() {
            for i in (0..64).rev() {
                r = r.square();
                if w >> i & 1 == 1 {
                    r = r * *self;
                }
            }
        }
        r
    }
}
/// six 64-bit words, canonical
#[derive(Clone, Copy, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct Fq([u64; 6]);
impl Fq {
    fn big(&self) -> BigUint {
        let mut r = BigUint::ZERO;
        for w in self.0.iter().rev() {
            r = BigUint::from(*w) + r * BigUint::from(1u128 << 64);
        }
        r
    }
    fn of(x: &BigUint) -> Self {
        let d = (x % p()).to_u64_digits();
        let mut r = [0; 6];
        r[..d.len()].copy_from_slice(&d);
        Fq(r)
    }
}
impl From<BigUint> for Fq {
    fn from(x: BigUint) -> Self {
        Fq::of(&x)
    }
}
impl From<u32> for Fq {
    fn from(x: u32) -> Self {
        Fq::of(&BigUint::from(x))
    }
}
impl fmt::Display for Fq {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.big(), f)
    }
}
impl fmt::Debug for Fq {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.big(), f)
    }
}
macro_rules! field_ops {
    ($T:ty, |$a:ident, $b:ident| $add:expr, $sub:expr, $mul:expr) => {
        impl Add for $T {
            type Output = $T;
            fn add(self, o: $T) -> $T {
                let ($a, $b) = (self, o);
                $add
            }
        }
        impl Sub for $T {
            type Output = $T;
            fn sub(self, o: $T) -> $T {
                let ($a, $b) = (self, o);
                $sub
            }
        }
        impl Mul for $T {
            type Output = $T;
            fn mul(self, o: $T) -> $T {
                let ($a, $b) = (self, o);
                $mul
            }
        }
        impl Div for $T {
            type Output = $T;
            fn div(self, o: $T) -> $T {
                self * o.inverse().unwrap()
            }
        }
        impl Neg for $T {
            type Output = $T;
            fn neg(self) -> $T {
                <$T>::default() - self
            }
        }
        impl MulAssign for $T {
            fn mul_assign(&mut self, o: $T) {
                *self = *self * o;
            }
        }
        impl AddAssign for $T {
            fn add_assign(&mut self, o: $T) {
                *self = *self + o;
            }
        }
        impl SubAssign for $T {
            fn sub_assign(&mut self, o: $T) {
                *self = *self - o;
            }
        }
        impl Zero for $T {
            fn zero() -> Self {
                Self::default()
            }
            fn is_zero(&self) -> bool {
                *self == Self::default()
            }
        }
    };
}
// big numbers of six words, smaller than p: p has 381 bits, so sums fit
fn ge(a: &[u64; 6], b: &[u64; 6]) -> bool {
    a.iter().rev().cmp(b.iter().rev()) != std::cmp::Ordering::Less
}
fn addw(a: &[u64; 6], b: &[u64; 6]) -> [u64; 6] {
    let mut r = [0; 6];
    let mut c = 0u128;
    for i in 0..6 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    r
}
fn subw(a: &[u64; 6], b: &[u64; 6]) -> [u64; 6] {
    let mut r = [0; 6];
    let mut c = 0i128;
    for i in 0..6 {
        c += a[i] as i128 - b[i] as i128;
        r[i] = c as u64;
        c >>= 64;
    }
    r
}
fn pw() -> &'static [u64; 6] {
    static P: OnceLock<[u64; 6]> = OnceLock::new();
    P.get_or_init(|| p().to_u64_digits().try_into().unwrap())
}
// -p^-1 mod 2^64
fn n0() -> u64 {
    static N: OnceLock<u64> = OnceLock::new();
    *N.get_or_init(|| {
        let mut x = 1u64;
        for _ in 0..6 {
            x = x.wrapping_mul(2u64.wrapping_sub(pw()[0].wrapping_mul(x)));
        }
        x.wrapping_neg()
    })
}
// 2^768 mod p
fn r2() -> &'static [u64; 6] {
    static R: OnceLock<[u64; 6]> = OnceLock::new();
    R.get_or_init(|| {
        let mut x = BigUint::from(1u32);
        for _ in 0..768 {
            x = (&x + &x) % p();
        }
        Fq::of(&x).0
    })
}
// a*b/2^384 mod p
fn mont(a: &[u64; 6], b: &[u64; 6]) -> [u64; 6] {
    let (pw, n0) = (pw(), n0());
    let mut t = [0u64; 8];
    for i in 0..6 {
        let mut c = 0u128;
        for j in 0..6 {
            c += t[j] as u128 + a[j] as u128 * b[i] as u128;
            t[j] = c as u64;
            c >>= 64;
        }
        c += t[6] as u128;
        t[6] = c as u64;
        t[7] = (c >> 64) as u64;
        let m = t[0].wrapping_mul(n0);
        let mut c = (t[0] as u128 + m as u128 * pw[0] as u128) >> 64;
        for j in 1..6 {
            c += t[j] as u128 + m as u128 * pw[j] as u128;
            t[j - 1] = c as u64;
            c >>= 64;
        }
        c += t[6] as u128;
        t[5] = c as u64;
        t[6] = t[7] + (c >> 64) as u64;
    }
    let r: [u64; 6] = t[..6].try_into().unwrap();
    if ge(&r, pw) {
        subw(&r, pw)
    } else {
        r
    }
}
field_ops!(Fq, |a, b|
    { let r = addw(&a.0, &b.0); Fq(if ge(&r, pw()) { subw(&r, pw()) } else { r }) },
    Fq(if ge(&a.0, &b.0) { subw(&a.0, &b.0) } else { subw(&addw(&a.0, pw()), &b.0) }),
    Fq(mont(&mont(&a.0, &b.0), r2())));
impl One for Fq {
    fn one() -> Self {
        Fq([1, 0, 0, 0, 0, 0])
    }
}
impl Field for Fq {
    fn inverse(&self) -> Option<Self> {
        BigInt::from(self.big())
            .modinv(&BigInt::from(p().clone()))
            .map(|x| Fq::of(x.magnitude()))
    }
    // p = 3 mod 4
    fn sqrt(&self) -> Option<Self> {
        let e = (p() + &BigUint::from(1u32)) / BigUint::from(4u32);
        let r = self.pow(e.to_u64_digits());
        (r * r == *self).then_some(r)
    }
}
/// Fq[u]/(u^2+1)
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug, Hash)]
pub struct Fq2 {
    pub c0: Fq,
    pub c1: Fq,
}
impl Fq2 {
    pub fn new(c0: Fq, c1: Fq) -> Self {
        Fq2 { c0, c1 }
    }
    pub fn mul_assign_by_fp(&mut self, x: &Fq) {
        self.c0 *= *x;
        self.c1 *= *x;
    }
    // by 1+u
    fn nr(self) -> Self {
        Fq2::new(self.c0 - self.c1, self.c0 + self.c1)
    }
}
field_ops!(Fq2, |a, b|
    Fq2::new(a.c0 + b.c0, a.c1 + b.c1),
    Fq2::new(a.c0 - b.c0, a.c1 - b.c1),
    Fq2::new(a.c0 * b.c0 - a.c1 * b.c1, a.c0 * b.c1 + a.c1 * b.c0));
impl One for Fq2 {
    fn one() -> Self {
        Fq2::new(Fq::one(), Fq::default())
    }
}
impl Field for Fq2 {
    fn inverse(&self) -> Option<Self> {
        let n = (self.c0 * self.c0 + self.c1 * self.c1).inverse()?;
        Some(Fq2::new(self.c0 * n, -self.c1 * n))
    }
    fn sqrt(&self) -> Option<Self> {
        if self.c1.is_zero() {
            if let Some(r) = self.c0.sqrt() {
                return Some(Fq2::new(r, Fq::default()));
            }
            // -1 is no square, so -c0 is one
            return (-self.c0).sqrt().map(|r| Fq2::new(Fq::default(), r));
        }
        let n = (self.c0 * self.c0 + self.c1 * self.c1).sqrt()?;
        let half = Fq::from(2u32).inverse().unwrap();
        let mut d = (self.c0 + n) * half;
        if d.sqrt().is_none() {
            d = (self.c0 - n) * half;
        }
        let x = d.sqrt()?;
        let r = Fq2::new(x, self.c1 * half * x.inverse()?);
        (r * r == *self).then_some(r)
    }
}
/// Fq2[v]/(v^3-(1+u))
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug, Hash)]
pub struct Fq6 {
    pub c0: Fq2,
    pub c1: Fq2,
    pub c2: Fq2,
}
impl Fq6 {
    pub fn new(c0: Fq2, c1: Fq2, c2: Fq2) -> Self {
        Fq6 { c0, c1, c2 }
    }
    // by v
    fn nr(self) -> Self {
        Fq6::new(self.c2.nr(), self.c0, self.c1)
    }
}
field_ops!(Fq6, |a, b|
    Fq6::new(a.c0 + b.c0, a.c1 + b.c1, a.c2 + b.c2),
    Fq6::new(a.c0 - b.c0, a.c1 - b.c1, a.c2 - b.c2),
    Fq6::new(
        a.c0 * b.c0 + (a.c1 * b.c2 + a.c2 * b.c1).nr(),
        a.c0 * b.c1 + a.c1 * b.c0 + (a.c2 * b.c2).nr(),
        a.c0 * b.c2 + a.c1 * b.c1 + a.c2 * b.c0));
impl One for Fq6 {
    fn one() -> Self {
        Fq6::new(Fq2::one(), Fq2::default(), Fq2::default())
    }
}
impl Field for Fq6 {
    fn inverse(&self) -> Option<Self> {
        let (a, b, c) = (self.c0, self.c1, self.c2);
        let x = a * a - (b * c).nr();
        let y = (c * c).nr() - a * b;
        let z = b * b - a * c;
        let n = (a * x + (c * y + b * z).nr()).inverse()?;
        Some(Fq6::new(x * n, y * n, z * n))
    }
    fn sqrt(&self) -> Option<Self> {
        unimplemented!("shim: square roots in Fq6")
    }
}
/// Fq6[w]/(w^2-v)
#[derive(Clone, Copy, PartialEq, Eq, Default, Debug, Hash)]
pub struct Fq12 {
    pub c0: Fq6,
    pub c1: Fq6,
}
impl Fq12 {
    pub fn new(c0: Fq6, c1: Fq6) -> Self {
        Fq12 { c0, c1 }
    }
}
field_ops!(Fq12, |a, b|
    Fq12::new(a.c0 + b.c0, a.c1 + b.c1),
    Fq12::new(a.c0 - b.c0, a.c1 - b.c1),
    Fq12::new(a.c0 * b.c0 + (a.c1 * b.c1).nr(), a.c0 * b.c1 + a.c1 * b.c0));
impl One for Fq12 {
    fn one() -> Self {
        Fq12::new(Fq6::one(), Fq6::default())
    }
}
impl Field for Fq12 {
    fn inverse(&self) -> Option<Self> {
        let n = (self.c0 * self.c0 - (self.c1 * self.c1).nr()).inverse()?;
        Some(Fq12::new(self.c0 * n, -self.c1 * n))
    }
    fn sqrt(&self) -> Option<Self> {
        unimplemented!("shim: square roots in Fq12")
    }
}
