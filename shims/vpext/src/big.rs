//! num_bigint::{BigInt, BigUint, Sign}: the part the repository uses.
use num_traits::{Num, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use std::str::FromStr;

/// little-endian 32-bit digits without leading zeros
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct BigUint {
    d: Vec<u32>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sign {
    Minus,
    NoSign,
    Plus,
}
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct BigInt {
    neg: bool,
    m: BigUint,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseBigIntError;
impl fmt::Display for ParseBigIntError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "invalid digit found in string")
    }
}
impl std::error::Error for ParseBigIntError {}

fn trim(mut d: Vec<u32>) -> BigUint {
    while d.last() == Some(&0) {
        d.pop();
    }
    BigUint { d }
}
impl BigUint {
    pub const ZERO: Self = BigUint { d: Vec::new() };
    fn cmp_(&self, o: &Self) -> Ordering {
        self.d.len().cmp(&o.d.len()).then_with(|| self.d.iter().rev().cmp(o.d.iter().rev()))
    }
    fn add_(&self, o: &Self) -> Self {
        let n = self.d.len().max(o.d.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            c += *self.d.get(i).unwrap_or(&0) as u64 + *o.d.get(i).unwrap_or(&0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        trim(r)
    }
    // self >= o
    fn sub_(&self, o: &Self) -> Self {
        let mut r = Vec::with_capacity(self.d.len());
        let mut b = 0i64;
        for i in 0..self.d.len() {
            let x = self.d[i] as i64 - *o.d.get(i).unwrap_or(&0) as i64 + b;
            r.push(x as u32);
            b = x >> 32;
        }
        assert_eq!(b, 0, "attempt to subtract with overflow");
        trim(r)
    }
    fn mul_(&self, o: &Self) -> Self {
        let mut r = vec![0u32; self.d.len() + o.d.len()];
        for i in 0..self.d.len() {
            let mut c = 0u64;
            for j in 0..o.d.len() {
                c += r[i + j] as u64 + self.d[i] as u64 * o.d[j] as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            r[i + o.d.len()] = c as u32;
        }
        trim(r)
    }
    fn shl_(&self, k: usize) -> Self {
        if self.d.is_empty() {
            return self.clone();
        }
        let (w, b) = (k / 32, k % 32);
        let mut r = vec![0u32; w];
        let mut c = 0u64;
        for &x in &self.d {
            c |= (x as u64) << b;
            r.push(c as u32);
            c >>= 32;
        }
        r.push(c as u32);
        trim(r)
    }
    fn shr_(&self, k: usize) -> Self {
        let (w, b) = (k / 32, k % 32);
        if w >= self.d.len() {
            return Self::ZERO;
        }
        let mut r = Vec::with_capacity(self.d.len() - w);
        for i in w..self.d.len() {
            let hi = *self.d.get(i + 1).unwrap_or(&0) as u64;
            r.push((((hi << 32) | self.d[i] as u64) >> b) as u32);
        }
        trim(r)
    }
    // Knuth's algorithm D
    fn divrem(&self, o: &Self) -> (Self, Self) {
        assert!(!o.d.is_empty(), "attempt to divide by zero");
        if self.cmp_(o) == Ordering::Less {
            return (Self::ZERO, self.clone());
        }
        if o.d.len() == 1 {
            let mut q = vec![0u32; self.d.len()];
            let mut r = 0u64;
            for i in (0..self.d.len()).rev() {
                let x = (r << 32) | self.d[i] as u64;
                q[i] = (x / o.d[0] as u64) as u32;
                r = x % o.d[0] as u64;
            }
            return (trim(q), trim(vec![r as u32]));
        }
        let s = o.d.last().unwrap().leading_zeros() as usize;
        let v = o.shl_(s).d;
        let mut u = self.shl_(s).d;
        u.resize(self.d.len() + 1, 0);
        let n = v.len();
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let top = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = top / v[n - 1] as u64;
            let mut rh = top % v[n - 1] as u64;
            while qh >> 32 != 0 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >> 32 != 0 {
                    break;
                }
            }
            let mut b = 0i64;
            let mut c = 0u64;
            for i in 0..n {
                c += qh * v[i] as u64;
                let t = u[i + j] as i64 - (c as u32) as i64 + b;
                u[i + j] = t as u32;
                b = t >> 32;
                c >>= 32;
            }
            let t = u[j + n] as i64 - c as i64 + b;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    c += u[i + j] as u64 + v[i] as u64;
                    u[i + j] = c as u32;
                    c >>= 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (trim(q), trim(u).shr_(s))
    }
    pub fn bits(&self) -> u64 {
        match self.d.last() {
            None => 0,
            Some(x) => self.d.len() as u64 * 32 - x.leading_zeros() as u64,
        }
    }
    pub fn bit(&self, i: u64) -> bool {
        self.d.get(i as usize / 32).map_or(false, |x| x >> (i % 32) & 1 == 1)
    }
    pub fn to_u64_digits(&self) -> Vec<u64> {
        self.d
            .chunks(2)
            .map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32)
            .collect()
    }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        let mut r = BigUint::from(1u32) % m;
        for i in (0..e.bits()).rev() {
            r = &(&r * &r) % m;
            if e.bit(i) {
                r = &(&r * self) % m;
            }
        }
        r
    }
    pub fn parse_bytes(s: &[u8], radix: u32) -> Option<Self> {
        let s = std::str::from_utf8(s).ok()?;
        if s.is_empty() {
            return None;
        }
        let mut r = Self::ZERO;
        for c in s.chars() {
            r = r.mul_(&BigUint::from(radix)).add_(&BigUint::from(c.to_digit(radix)?));
        }
        Some(r)
    }
}
impl PartialOrd for BigUint {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp_(o))
    }
}
impl Ord for BigUint {
    fn cmp(&self, o: &Self) -> Ordering {
        self.cmp_(o)
    }
}
impl fmt::Display for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.d.is_empty() {
            return write!(f, "0");
        }
        let mut parts = vec![];
        let mut x = self.clone();
        let base = BigUint::from(1_000_000_000u32);
        while !x.d.is_empty() {
            let (q, r) = x.divrem(&base);
            parts.push(r.d.first().copied().unwrap_or(0));
            x = q;
        }
        write!(f, "{}", parts.pop().unwrap())?;
        for p in parts.iter().rev() {
            write!(f, "{p:09}")?;
        }
        Ok(())
    }
}
impl fmt::Debug for BigUint {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

impl BigInt {
    pub const ZERO: Self = BigInt { neg: false, m: BigUint::ZERO };
    fn new_(neg: bool, m: BigUint) -> Self {
        BigInt { neg: neg && !m.d.is_empty(), m }
    }
    pub fn sign(&self) -> Sign {
        if self.m.d.is_empty() {
            Sign::NoSign
        } else if self.neg {
            Sign::Minus
        } else {
            Sign::Plus
        }
    }
    pub fn magnitude(&self) -> &BigUint {
        &self.m
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        let mut b: Vec<u8> = self.m.d.iter().rev().flat_map(|w| w.to_be_bytes()).collect();
        while b.len() > 1 && b[0] == 0 {
            b.remove(0);
        }
        if b.is_empty() {
            b.push(0);
        }
        (self.sign(), b)
    }
    pub fn from_bytes_be(s: Sign, b: &[u8]) -> Self {
        let mut r = BigUint::ZERO;
        for x in b {
            r = r.shl_(8).add_(&BigUint::from(*x as u32));
        }
        BigInt::new_(s == Sign::Minus, r)
    }
    pub fn parse_bytes(s: &[u8], radix: u32) -> Option<Self> {
        let (neg, s) = match s.first() {
            Some(b'-') => (true, &s[1..]),
            Some(b'+') => (false, &s[1..]),
            _ => (false, s),
        };
        Some(BigInt::new_(neg, BigUint::parse_bytes(s, radix)?))
    }
    pub fn bits(&self) -> u64 {
        self.m.bits()
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        (!self.neg).then(|| self.m.clone())
    }
    pub fn pow(&self, e: u32) -> Self {
        let mut r = BigInt::from(1);
        for _ in 0..e {
            r = &r * self;
        }
        r
    }
    pub fn modinv(&self, m: &Self) -> Option<Self> {
        let (mut a, mut b) = (self.mod_(m), m.clone());
        let (mut x, mut y) = (BigInt::from(1), BigInt::ZERO);
        while !b.m.d.is_empty() {
            let q = &a / &b;
            let t = &a - &(&q * &b);
            a = std::mem::replace(&mut b, t);
            let t = &x - &(&q * &y);
            x = std::mem::replace(&mut y, t);
        }
        (a == BigInt::from(1)).then(|| x.mod_(m))
    }
    fn mod_(&self, m: &Self) -> Self {
        let r = self % m;
        if r.neg {
            &r + m
        } else {
            r
        }
    }
    fn add_(&self, o: &Self) -> Self {
        if self.neg == o.neg {
            return BigInt::new_(self.neg, self.m.add_(&o.m));
        }
        match self.m.cmp_(&o.m) {
            Ordering::Less => BigInt::new_(o.neg, o.m.sub_(&self.m)),
            _ => BigInt::new_(self.neg, self.m.sub_(&o.m)),
        }
    }
    fn shr_(&self, k: usize) -> Self {
        let q = self.m.shr_(k);
        // rounds towards negative infinity
        if self.neg && q.shl_(k) != self.m {
            return BigInt::new_(true, q.add_(&BigUint::from(1u32)));
        }
        BigInt::new_(self.neg, q)
    }
    fn and_(&self, o: &Self) -> Self {
        assert!(!self.neg && !o.neg, "shim: & of negative numbers");
        BigInt::new_(false, trim(self.m.d.iter().zip(&o.m.d).map(|(a, b)| a & b).collect()))
    }
}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.m.cmp_(&o.m),
            (true, true) => o.m.cmp_(&self.m),
        }
    }
}
impl fmt::Display for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}{}", if self.neg { "-" } else { "" }, self.m)
    }
}
impl fmt::Debug for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl FromStr for BigInt {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<Self, ParseBigIntError> {
        BigInt::parse_bytes(s.as_bytes(), 10).ok_or(ParseBigIntError)
    }
}
impl FromStr for BigUint {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<Self, ParseBigIntError> {
        BigUint::parse_bytes(s.as_bytes(), 10).ok_or(ParseBigIntError)
    }
}
macro_rules! from_u {
    ($($t:ty)*) => {$(
        impl From<$t> for BigUint {
            fn from(x: $t) -> Self {
                let x = x as u128;
                trim((0..4).map(|i| (x >> (32 * i)) as u32).collect())
            }
        }
        impl From<$t> for BigInt {
            fn from(x: $t) -> Self {
                BigInt::new_(false, BigUint::from(x))
            }
        }
    )*};
}
from_u!(u8 u16 u32 u64 u128 usize bool);
macro_rules! from_i {
    ($($t:ty)*) => {$(
        impl From<$t> for BigInt {
            fn from(x: $t) -> Self {
                BigInt::new_(x < 0, BigUint::from(x.unsigned_abs()))
            }
        }
    )*};
}
from_i!(i8 i16 i32 i64 i128 isize);
impl From<BigUint> for BigInt {
    fn from(x: BigUint) -> Self {
        BigInt::new_(false, x)
    }
}
macro_rules! ops {
    ($T:ty, $($Tr:ident $f:ident $Ta:ident $fa:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
        impl $Tr<&$T> for &$T {
            type Output = $T;
            fn $f(self, o: &$T) -> $T {
                let ($a, $b) = (self, o);
                $e
            }
        }
        impl $Tr<$T> for &$T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                self.$f(&o)
            }
        }
        impl $Tr<&$T> for $T {
            type Output = $T;
            fn $f(self, o: &$T) -> $T {
                (&self).$f(o)
            }
        }
        impl $Tr<$T> for $T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                (&self).$f(&o)
            }
        }
        impl $Ta<&$T> for $T {
            fn $fa(&mut self, o: &$T) {
                *self = (&*self).$f(o);
            }
        }
        impl $Ta<$T> for $T {
            fn $fa(&mut self, o: $T) {
                *self = (&*self).$f(&o);
            }
        }
    )*};
}
ops!(BigUint,
    Add add AddAssign add_assign |a, b| a.add_(b);
    Sub sub SubAssign sub_assign |a, b| a.sub_(b);
    Mul mul MulAssign mul_assign |a, b| a.mul_(b);
    Div div DivAssign div_assign |a, b| a.divrem(b).0;
    Rem rem RemAssign rem_assign |a, b| a.divrem(b).1;
    BitAnd bitand BitAndAssign bitand_assign |a, b| trim(a.d.iter().zip(&b.d).map(|(a, b)| a & b).collect());
);
ops!(BigInt,
    Add add AddAssign add_assign |a, b| a.add_(b);
    Sub sub SubAssign sub_assign |a, b| a.add_(&BigInt::new_(!b.neg, b.m.clone()));
    Mul mul MulAssign mul_assign |a, b| BigInt::new_(a.neg != b.neg, a.m.mul_(&b.m));
    Div div DivAssign div_assign |a, b| BigInt::new_(a.neg != b.neg, a.m.divrem(&b.m).0);
    Rem rem RemAssign rem_assign |a, b| BigInt::new_(a.neg, a.m.divrem(&b.m).1);
    BitAnd bitand BitAndAssign bitand_assign |a, b| a.and_(b);
);
macro_rules! prim {
    ($($t:ty)*) => {$( prim!(@ $t, Add add AddAssign add_assign, Sub sub SubAssign sub_assign,
        Mul mul MulAssign mul_assign, Div div DivAssign div_assign, Rem rem RemAssign rem_assign); )*};
    (@ $t:ty, $($Tr:ident $f:ident $Ta:ident $fa:ident),*) => {$(
        impl $Tr<$t> for BigInt {
            type Output = BigInt;
            fn $f(self, o: $t) -> BigInt {
                (&self).$f(&BigInt::from(o))
            }
        }
        impl $Tr<$t> for &BigInt {
            type Output = BigInt;
            fn $f(self, o: $t) -> BigInt {
                self.$f(&BigInt::from(o))
            }
        }
        impl $Ta<$t> for BigInt {
            fn $fa(&mut self, o: $t) {
                *self = (&*self).$f(&BigInt::from(o));
            }
        }
    )*};
}
prim!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
macro_rules! shifts {
    ($($t:ty)*) => {$(
        impl Shl<$t> for BigUint {
            type Output = BigUint;
            fn shl(self, k: $t) -> BigUint {
                self.shl_(k as usize)
            }
        }
        impl Shr<$t> for BigUint {
            type Output = BigUint;
            fn shr(self, k: $t) -> BigUint {
                self.shr_(k as usize)
            }
        }
        impl ShlAssign<$t> for BigUint {
            fn shl_assign(&mut self, k: $t) {
                *self = self.shl_(k as usize);
            }
        }
        impl ShrAssign<$t> for BigUint {
            fn shr_assign(&mut self, k: $t) {
                *self = self.shr_(k as usize);
            }
        }
        impl Shl<$t> for BigInt {
            type Output = BigInt;
            fn shl(self, k: $t) -> BigInt {
                BigInt::new_(self.neg, self.m.shl_(k as usize))
            }
        }
        impl Shl<$t> for &BigInt {
            type Output = BigInt;
            fn shl(self, k: $t) -> BigInt {
                BigInt::new_(self.neg, self.m.shl_(k as usize))
            }
        }
        impl Shr<$t> for BigInt {
            type Output = BigInt;
            fn shr(self, k: $t) -> BigInt {
                self.shr_(k as usize)
            }
        }
        impl Shr<$t> for &BigInt {
            type Output = BigInt;
            fn shr(self, k: $t) -> BigInt {
                self.shr_(k as usize)
            }
        }
        impl ShlAssign<$t> for BigInt {
            fn shl_assign(&mut self, k: $t) {
                self.m = self.m.shl_(k as usize);
            }
        }
        impl ShrAssign<$t> for BigInt {
            fn shr_assign(&mut self, k: $t) {
                *self = self.shr_(k as usize);
            }
        }
    )*};
}
shifts!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::new_(!self.neg, self.m)
    }
}
impl Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt::new_(!self.neg, self.m.clone())
    }
}
impl Zero for BigInt {
    fn zero() -> Self {
        BigInt::ZERO
    }
    fn is_zero(&self) -> bool {
        self.m.d.is_empty()
    }
}
impl One for BigInt {
    fn one() -> Self {
        BigInt::from(1)
    }
}
impl Zero for BigUint {
    fn zero() -> Self {
        BigUint::ZERO
    }
    fn is_zero(&self) -> bool {
        self.d.is_empty()
    }
}
impl One for BigUint {
    fn one() -> Self {
        BigUint::from(1u32)
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
        BigInt::parse_bytes(s.as_bytes(), radix).ok_or(ParseBigIntError)
    }
}
impl Signed for BigInt {
    fn abs(&self) -> Self {
        BigInt::new_(false, self.m.clone())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self <= o {
            BigInt::ZERO
        } else {
            self - o
        }
    }
    fn signum(&self) -> Self {
        match self.sign() {
            Sign::Minus => BigInt::from(-1),
            Sign::NoSign => BigInt::ZERO,
            Sign::Plus => BigInt::from(1),
        }
    }
    fn is_positive(&self) -> bool {
        self.sign() == Sign::Plus
    }
    fn is_negative(&self) -> bool {
        self.neg
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        let u = self.m.to_u64()?;
        if self.neg {
            (u <= 1 << 63).then(|| (u as i64).wrapping_neg())
        } else {
            i64::try_from(u).ok()
        }
    }
    fn to_u64(&self) -> Option<u64> {
        if self.neg {
            None
        } else {
            self.m.to_u64()
        }
    }
}
impl ToPrimitive for BigUint {
    fn to_i64(&self) -> Option<i64> {
        self.to_u64().and_then(|x| i64::try_from(x).ok())
    }
    fn to_u64(&self) -> Option<u64> {
        (self.d.len() <= 2)
            .then(|| *self.d.first().unwrap_or(&0) as u64 | (*self.d.get(1).unwrap_or(&0) as u64) << 32)
    }
}
