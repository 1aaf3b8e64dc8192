//! Integers of 2048 bits in limbs of 120 bits over BN254 (S06).
use super::*;
use crate::non_native as nn;
use crate::non_native::U2048Variable;

const N: usize = nn::N_LIMBS;
fn big(x: &[Variable], i: usize) -> U2048Variable {
    U2048Variable::from_raw(x[N * i..N * (i + 1)].try_into().unwrap())
}
pub fn build<B: RootAPI<BN254Config>>(b: &mut B, g: &Gad, x: &[Variable]) -> Option<Vec<Variable>> {
    let two = b.constant(nn::BN_TWO_TO_120);
    Some(match g.g.as_str() {
        "w_less" => vec![big(x, 0).assert_is_less_than(&big(x, 1), b)],
        "w_geq" => vec![big(x, 0).assert_is_greater_eq(&big(x, 1), b)],
        "w_eq" => vec![big(x, 0).assert_is_equal(&big(x, 1), b)],
        "w_ugeq" => vec![big(x, 0).unconstrained_greater_eq(&big(x, 1), b)],
        "w_mul" => U2048Variable::mul_without_mod_reduction(&big(x, 0), &big(x, 1), &two, b),
        "w_assert_add" => {
            U2048Variable::assert_add(&big(x, 0), &big(x, 1), &big(x, 2), &x[4 * N], &big(x, 3), &two, b);
            vec![]
        }
        "w_assert_mul" => {
            U2048Variable::assert_mul(&big(x, 0), &big(x, 1), &big(x, 2), &big(x, 4), &big(x, 3), &two, b);
            vec![]
        }
        "w_acc" => {
            let (s, c) = nn::accumulate_u120(x, &two, b);
            vec![s, c]
        }
        "w_bytes" => {
            let c: Vec<Variable> = (0..32).map(|i| b.constant(F::<BN254Config>::from_u256(pow2(8 * i)))).collect();
            nn::byte_decomposition(&x[0], &c, b)
        }
        "w_masks" => {
            let mut v = vec![two];
            v.extend([nn::MASK120, nn::MASK60, nn::MASK8].map(|m| b.constant(F::<BN254Config>::from_u256(U256::new(m)))));
            v
        }
        "rsa" => rsa::build(b, x),
        _ => return None,
    })
}
/// numbers as limbs, least significant first
pub type Nat = Vec<U256>;
fn norm(x: &mut Nat) {
    let m = pow2(120);
    let mut c = U256::ZERO;
    for v in x.iter_mut() {
        *v += c;
        c = *v >> 120u32;
        *v %= m;
    }
    assert!(c == U256::ZERO);
}
pub fn add(a: &Nat, b: &Nat) -> Nat {
    let mut c: Nat = (0..a.len().max(b.len()) + 1)
        .map(|i| *a.get(i).unwrap_or(&U256::ZERO) + *b.get(i).unwrap_or(&U256::ZERO))
        .collect();
    norm(&mut c);
    c
}
pub fn sub(a: &Nat, b: &Nat) -> Nat {
    let mut c = vec![];
    let mut borrow = U256::ZERO;
    for i in 0..a.len() {
        let y = *b.get(i).unwrap_or(&U256::ZERO) + borrow;
        let x = a[i];
        borrow = U256::from((x < y) as u32);
        c.push(x + pow2(120) * borrow - y);
    }
    assert!(borrow == U256::ZERO);
    c
}
pub fn mul(a: &Nat, b: &Nat) -> Nat {
    let mut c: Nat = vec![U256::ZERO; a.len() + b.len()];
    for i in 0..a.len() {
        let mut carry = U256::ZERO;
        for j in 0..b.len() {
            let v = a[i] * b[j] + c[i + j] + carry;
            c[i + j] = v % pow2(120);
            carry = v >> 120u32;
        }
        c[i + b.len()] += carry;
    }
    c
}
pub fn cmp(a: &Nat, b: &Nat) -> std::cmp::Ordering {
    let n = a.len().max(b.len());
    let g = |v: &Nat, i: usize| *v.get(i).unwrap_or(&U256::ZERO);
    for i in (0..n).rev() {
        if g(a, i) != g(b, i) {
            return g(a, i).cmp(&g(b, i));
        }
    }
    std::cmp::Ordering::Equal
}
/// quotient and remainder, bit by bit
pub fn div(a: &Nat, m: &Nat) -> (Nat, Nat) {
    let (mut q, mut r) = (vec![U256::ZERO; a.len()], vec![U256::ZERO; m.len() + 1]);
    for i in (0..a.len()).rev() {
        for t in (0..120).rev() {
            r.iter_mut().for_each(|v| *v <<= 1u32);
            r[0] += a[i] >> t as u32 & U256::ONE;
            norm(&mut r);
            if cmp(&r, m) != std::cmp::Ordering::Less {
                r = sub(&r, m);
                q[i] |= pow2(t);
            }
        }
    }
    (q, r)
}
pub fn fit(x: &Nat) -> Nat {
    let mut x = x.clone();
    while x.len() > N {
        assert!(x.pop() == Some(U256::ZERO));
    }
    x.resize(N, U256::ZERO);
    x
}
/// two numbers whose product ends in zeros from some limb on down: the multiples of another number
/// just below it have limbs full of ones, into which adding the remainder carries
fn hollow(r: &mut Rng) -> (Nat, Nat) {
    let mut z = |i: usize| {
        let mut x: Nat = vec![U256::ZERO; N];
        x[i] = below(r, pow2(7)) + U256::ONE;
        x
    };
    (z(N - 1), z(N / 2))
}
/// below 2^2048; often short, or with full limbs
pub fn nat(r: &mut Rng) -> Nat {
    let n = match r.below(6) {
        0 => 1,
        1 => 2,
        2 => r.range(1, N),
        _ => N,
    };
    let kind = r.below(3);
    let mut x: Nat = (0..n)
        .map(|_| match kind {
            0 => below(r, pow2(120)),
            1 => edgy(r, pow2(120)),
            _ => choose!(r; U256::ZERO, pow2(120) - U256::ONE, below(r, pow2(120))),
        })
        .collect();
    x.resize(N, U256::ZERO);
    x[N - 1] %= pow2(8);
    x
}
pub fn gen(id: usize, r: &mut Rng) -> Sc {
    let all = [
        "w_less", "w_geq", "w_eq", "w_ugeq", "w_mul", "w_assert_add", "w_assert_add", "w_assert_mul", "w_acc", "w_bytes",
    ];
    let g = if id % 40 == 0 { "w_masks" } else { all[id % all.len()] };
    let rel = g.starts_with("w_assert_a") || g.starts_with("w_assert_m");
    let mut s = Sc { cfg: "BN254", rel, reps: 1, full: !g.contains("mul") && id / 10 % 3 == 0, ..Default::default() };
    s.gad = Gad { g: g.into(), k: vec![], ops: json!("") };
    let cases = if g.contains("mul") { 2 } else { 4 };
    let n = r.range(2, 9);
    for i in 0..cases {
        let x: Vec<U256> = match g {
            "w_less" | "w_geq" | "w_eq" | "w_ugeq" => {
                let a = nat(r);
                let mut b = if r.pct(25) { nat(r) } else { a.clone() };
                for _ in 0..r.below(3) {
                    let j = r.below(N);
                    b[j] = match r.below(3) {
                        0 => edgy(r, pow2(120)),
                        1 => (b[j] + U256::ONE) % pow2(120),
                        _ => (b[j] + pow2(120) - U256::ONE) % pow2(120),
                    };
                }
                [a, b].concat()
            }
            "w_mul" => [nat(r), nat(r)].concat(),
            "w_assert_add" => {
                let mut m = nat(r);
                while cmp(&m, &vec![U256::ONE]) != std::cmp::Ordering::Greater {
                    m = nat(r);
                }
                let x = div(&nat(r), &m).1;
                let y = div(&nat(r), &m).1;
                let mut sum = add(&x, &y);
                let mut c = U256::ZERO;
                if cmp(&sum, &m) != std::cmp::Ordering::Less {
                    sum = sub(&sum, &m);
                    c = U256::ONE;
                }
                let mut v = [fit(&x), fit(&y), fit(&sum), fit(&m)].concat();
                v.push(c);
                if i > 0 && r.pct(70) {
                    match r.below(4) {
                        // not reduced
                        0 if c == U256::ONE => {
                            let t = fit(&add(&sum, &m));
                            v[2 * N..3 * N].copy_from_slice(&t);
                            v[4 * N] = U256::ZERO;
                        }
                        1 => v[4 * N] = r.pick(&[U256::ONE - c, u(2), modulus("BN254") - U256::ONE]),
                        _ => {
                            let j = r.below(3 * N);
                            v[j] = (v[j] + r.pick(&[U256::ONE, pow2(120) - U256::ONE, pow2(60)])) % pow2(120);
                        }
                    }
                }
                v
            }
            "w_assert_mul" => {
                let mut m = nat(r);
                while cmp(&m, &vec![U256::ONE]) != std::cmp::Ordering::Greater {
                    m = nat(r);
                }
                let (x, y) = if r.pct(25) {
                    m = vec![U256::ZERO; N];
                    m.iter_mut().for_each(|v| *v = below(r, pow2(120)));
                    m[N - 1] = pow2(8) - U256::ONE;
                    hollow(r)
                } else {
                    (div(&nat(r), &m).1, div(&nat(r), &m).1)
                };
                let (q, t) = div(&mul(&fit(&x), &fit(&y)), &m);
                let mut v = [fit(&x), fit(&y), fit(&t), fit(&m), fit(&q)].concat();
                if i > 0 {
                    let j = match r.below(3) {
                        0 => r.below(5 * N),
                        // far up
                        1 => r.range(2 * N + 4, 3 * N - 1),
                        _ => r.range(4 * N + 4, 5 * N - 1),
                    };
                    v[j] = (v[j] + r.pick(&[U256::ONE, pow2(120) - U256::ONE, pow2(60)])) % pow2(120);
                }
                v
            }
            "w_acc" => (0..n).map(|_| edgy(r, pow2(120))).collect(),
            "w_bytes" => vec![if r.pct(50) { edgy(r, modulus("BN254")) } else { { let l = pow2(r.range(1, 253)); edgy(r, l) } }],
            _ => vec![u(r.below(5))],
        };
        s.more.push(x);
    }
    s.x = s.more.remove(0);
    s
}
