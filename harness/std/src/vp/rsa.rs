//! The RSA circuit and the arithmetic its traces are made with (S10).
use super::wide::*;
use super::*;
use crate::non_native as nn;
use crate::rsa_lib::{self, RSAFieldElement};
use crate::rsa_main::RSACircuit;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;

const N: usize = nn::N_LIMBS;
/// x, n, 17 powers, 17 quotients, the result
pub const LEN: usize = 37 * N;
pub fn build<B: RootAPI<BN254Config>>(b: &mut B, x: &[Variable]) -> Vec<Variable> {
    let mut c = RSACircuit::<Variable>::default();
    let (need, _) = c.num_vars();
    // the messages that the circuit holds besides are not looked at
    let mut all = x.to_vec();
    all.resize(need, x[0]);
    let (mut v, mut none): (&[Variable], &[Variable]) = (&all, &[]);
    c.load_from(&mut v, &mut none);
    c.define(b);
    vec![]
}
fn el(x: &[U256]) -> RSAFieldElement {
    let d: Vec<u128> = x.iter().map(|v| v.as_u128()).collect();
    RSAFieldElement::new(d.try_into().unwrap())
}
fn back(x: &RSAFieldElement) -> Vec<U256> {
    x.data.iter().map(|v| U256::from(*v)).collect()
}
fn modulus_nat(r: &mut Rng) -> Nat {
    loop {
        let m = nat(r);
        if cmp(&m, &vec![U256::ONE]) == std::cmp::Ordering::Greater {
            return m;
        }
    }
}
/// x^65537 and its trace
fn powers(r: &mut Rng) -> Vec<U256> {
    let m = modulus_nat(r);
    let x = fit(&div(&nat(r), &m).1);
    let (mut ps, mut qs): (Vec<Nat>, Vec<Nat>) = (vec![], vec![]);
    for i in 0..17 {
        let a = if i == 0 { x.clone() } else { ps[i - 1].clone() };
        let b = if i == 0 || i == 16 { x.clone() } else { a.clone() };
        let (q, t) = div(&mul(&a, &b), &m);
        ps.push(fit(&t));
        qs.push(fit(&q));
    }
    let last = ps[16].clone();
    [vec![x, m], ps, qs, vec![last]].concat().concat()
}
fn circuit(id: usize, r: &mut Rng) -> Sc {
    let x = powers(r);
    let mut more = vec![];
    for at in 0..4 {
        let mut y = x.clone();
        // (every link and every limb of the result in turn, then anything)
        match [0, 2, r.below(5), r.below(5)][at] {
            // the trace is right up to some power and goes on from another one
            0 | 1 => {
                let i = if at == 0 { id / 12 % 16 } else { r.below(16) };
                let m: Nat = y[N..2 * N].to_vec();
                let mut a = fit(&div(&nat(r), &m).1);
                for j in i..17 {
                    if j > i {
                        let b = if j == 16 { y[..N].to_vec() } else { a.clone() };
                        let (q, t) = div(&mul(&a, &b), &m);
                        a = fit(&t);
                        y[(19 + j) * N..(20 + j) * N].copy_from_slice(&fit(&q));
                    }
                    y[(2 + j) * N..(3 + j) * N].copy_from_slice(&a);
                }
                y[36 * N..].copy_from_slice(&a);
            }
            // another result
            2 => {
                let j = 36 * N + if at == 1 { id / 12 % N } else { r.below(N) };
                y[j] = (y[j] + r.pick(&[U256::ONE, pow2(119)])) % pow2(120);
            }
            // one power, and the same for the result
            3 => {
                let j = r.below(N);
                let d = r.pick(&[U256::ONE, pow2(120) - U256::ONE]);
                for k in [18, 36] {
                    y[k * N + j] = (y[k * N + j] + d) % pow2(120);
                }
            }
            _ => {
                let j = r.below(LEN);
                y[j] = (y[j] + r.pick(&[U256::ONE, pow2(120) - U256::ONE, pow2(60)])) % pow2(120);
            }
        }
        more.push(y);
    }
    Sc { cfg: "BN254", rel: true, reps: 1, full: false, gad: Gad { g: "rsa".into(), k: vec![], ops: json!("") }, x, more, ..Default::default() }
}
/// the functions on numbers
fn numbers(id: usize, r: &mut Rng) -> Value {
    let all = ["r_add", "r_mul", "r_mulmod", "r_modmul", "r_addition", "r_multiplication", "r_hex", "r_limbs"];
    let g = all[id % all.len()];
    let small = |r: &mut Rng| -> U256 { choose!(r; edgy(r, pow2(120)), below(r, pow2(120)), below(r, pow2(120)) >> r.below(120) as u32, (pow2(60) - U256::ONE) << 60u32, pow2(60) - U256::ONE) };
    let mut cases = vec![];
    for _ in 0..if g == "r_add" || g == "r_mul" { 12 } else { 2 } {
        let flag = |f: &dyn Fn()| vec![U256::from(said(|| f()).is_ok() as u32)];
        let (x, got): (Vec<U256>, Result<Vec<U256>, String>) = match g {
            "r_add" | "r_mul" => {
                let v: Vec<U256> = (0..3).map(|_| small(r)).collect();
                let (a, b, c) = (v[0].as_u128(), v[1].as_u128(), v[2].as_u128());
                let got = said(|| if g == "r_add" { rsa_lib::add_u120_with_carry(&a, &b, &c) } else { rsa_lib::mul_u120_with_carry(&a, &b, &c) });
                (v, got.map(|(s, c)| vec![U256::from(s), U256::from(c)]))
            }
            "r_mulmod" | "r_modmul" => {
                let m = modulus_nat(r);
                let (a, b) = (fit(&div(&nat(r), &m).1), fit(&div(&nat(r), &m).1));
                let got = said(|| {
                    if g == "r_modmul" {
                        return back(&el(&a).mod_mul(&el(&b), &el(&m)));
                    }
                    let (t, q) = el(&a).slow_mul_mod(&el(&b), &el(&m));
                    [back(&t), back(&q)].concat()
                });
                ([a, b, m].concat(), got)
            }
            "r_addition" | "r_multiplication" => {
                let add_ = g == "r_addition";
                let m = modulus_nat(r);
                let (a, b) = (fit(&div(&nat(r), &m).1), fit(&div(&nat(r), &m).1));
                let s = if add_ { add(&a, &b) } else { mul(&a, &b) };
                let (q, t) = div(&s, &m);
                let (mut q, mut t) = (fit(&q), fit(&t));
                if r.pct(60) {
                    let j = r.below(N - 1);
                    match r.below(4) {
                        0 if add_ => q[0] = U256::ONE - q[0],
                        1 if !add_ => q[j] = (q[j] + U256::ONE) % pow2(120),
                        2 if add_ && q[0] == U256::ONE && add(&t, &m)[N - 1] < pow2(119) => {
                            // not reduced
                            t = fit(&add(&t, &m));
                            q[0] = U256::ZERO;
                        }
                        _ => t[j] = (t[j] + r.pick(&[U256::ONE, pow2(60), pow2(120) - U256::ONE])) % pow2(120),
                    }
                }
                let x = [a.clone(), b.clone(), t.clone(), m.clone(), q.clone()].concat();
                let f: &dyn Fn() = if add_ {
                    &|| RSAFieldElement::assert_addition(&el(&a), &el(&b), &el(&m), &(q[0] == U256::ONE), &el(&t))
                } else {
                    &|| RSAFieldElement::assert_multiplication(&el(&a), &el(&b), &el(&m), &el(&q), &el(&t))
                };
                (x, Ok(flag(f)))
            }
            "r_hex" => {
                let a = nat(r);
                let got = said(|| {
                    let s = el(&a).to_string();
                    let again = RSAFieldElement::from_string(&s);
                    let mut v: Vec<U256> = s.chars().map(|c| U256::from(c.to_digit(16).unwrap())).collect();
                    v.extend(back(&again));
                    v
                });
                (a, got)
            }
            _ => {
                // through one large number, and into the circuit's field
                let a = nat(r);
                let got = said(|| {
                    let e = RSAFieldElement::from_big_uint(el(&a).to_big_uint());
                    let f: [F<BN254Config>; N] = e.into();
                    let mut v = back(&e);
                    v.extend(f.iter().map(|x| x.to_u256()));
                    v
                });
                (a, got)
            }
        };
        let f = |v: &[U256]| -> Vec<F<BN254Config>> { v.iter().map(|x| F::<BN254Config>::from_u256(*x)).collect() };
        let num = match got {
            Ok(v) => jfs(&f(&v)),
            Err(e) => json!(["panic", e]),
        };
        cases.push(json!({"x": jfs(&f(&x)), "dbg": [], "runs": [], "num": num}));
    }
    json!({"cfg": "BN254", "g": g, "k": [], "p": jmod::<F<BN254Config>>(), "kind": "fn", "ops": "", "adv": 0, "comp": "none", "cases": cases})
}
pub fn line(id: usize, r: &mut Rng) -> Value {
    if id % 12 == 0 {
        let mut s = circuit(id, r);
        s.full = id % 120 == 0;
        drive(&s, r)
    } else {
        numbers(id, r)
    }
}
