//! The bit and limb helpers of sha256/m31_utils.rs and the selectors of utils.rs (S07).
use super::*;
use crate::sha256::m31_utils as mu;
use crate::utils::{simple_lookup2, simple_select};

pub fn build<C: Config, B: RootAPI<C>>(b: &mut B, g: &Gad, x: &[Variable]) -> Option<Vec<Variable>> {
    let k = &g.k;
    let h = x.len() / 2;
    Some(match g.g.as_str() {
        "bytes_to_bits" => mu::bytes_to_bits(b, x),
        "right_shift" => mu::right_shift(b, x, k[0]),
        "rotate_right" => mu::rotate_right(x, k[0]),
        "sigma0" => mu::sigma0(b, x),
        "sigma1" => mu::sigma1(b, x),
        "cap_sigma0" => mu::cap_sigma0(b, x),
        "cap_sigma1" => mu::cap_sigma1(b, x),
        "ch" => mu::ch(b, &x[..32], &x[32..64], &x[64..]),
        "maj" => mu::maj(b, &x[..32], &x[32..64], &x[64..]),
        "add_no_reduce" => mu::big_array_add_no_reduce(b, &x[..h], &x[h..]),
        "add_reduce" => mu::big_array_add_reduce(b, &x[..h], &x[h..], k[0]),
        "add_top" => mu::big_array_add(b, &x[..h], &x[h..], k[0]),
        "add_26" => mu::sha_m31_26_add(b, &x[..2], &x[2..], 26).to_vec(),
        "bits_to_30" => mu::bit_array_to_m31(b, x).to_vec(),
        "bits_to_26" => mu::bit_array_to_m31_26(b, x).to_vec(),
        "put32_30" => {
            let mut o = vec![b.constant(0); 4];
            mu::big_endian_m31_array_put_uint32(b, &mut o, [x[0], x[1]]);
            o
        }
        "put32_26" => {
            let mut o = vec![b.constant(0); 4];
            mu::m31_26_array_put_uint32(b, &mut o, [x[0], x[1]]);
            o
        }
        "put64" => {
            let mut o = vec![b.constant(0); 8];
            mu::big_endian_put_uint64(b, &mut o, x[0]);
            o
        }
        "to_bits" => mu::m31_to_bit_array(b, x),
        "to_bits_26" => mu::m31_26_to_bit_array_seperate(b, x, k[0]),
        "from_binary" => vec![mu::from_binary(b, x.to_vec())],
        "big_is_zero" => vec![mu::big_is_zero(b, k[0], x)],
        "big_less_than" => vec![mu::big_less_than(b, k[0], h, &x[..h], &x[h..])],
        "my_is_less" => vec![mu::my_is_less(b, k[0], x[0], x[1])],
        "idiv_mod_bit" => {
            let (q, r) = mu::idiv_mod_bit(b, x[0], k[0] as u64);
            vec![q, r]
        }
        "select" => vec![simple_select(b, x[0], x[1], x[2])],
        "lookup2" => vec![simple_lookup2(b, x[0], x[1], x[2], x[3], x[4], x[5])],
        // the number is in the operations, the inputs are not looked at
        "bigint" => {
            let v = num_bigint::BigInt::parse_bytes(g.ops.as_str().unwrap().as_bytes(), 10).unwrap();
            mu::bigint_to_m31_array(b, v, k[0], k[1])
        }
        "string" => {
            let v = mu::string_to_m31_array(g.ops.as_str().unwrap(), k[0] as u32);
            v.iter().map(|v| b.constant(v.to_u256().as_u32())).collect()
        }
        _ => return None,
    })
}
pub fn gen(_id: usize, r: &mut Rng) -> Sc {
    let ops = [
        "bytes_to_bits", "right_shift", "rotate_right", "sigma0", "sigma1", "cap_sigma0", "cap_sigma1", "ch", "maj",
        "add_no_reduce", "add_reduce", "add_top", "add_26", "bits_to_30", "bits_to_26", "put32_30", "put32_26", "put64",
        "to_bits", "to_bits_26", "from_binary", "big_is_zero", "big_less_than", "big_less_than", "my_is_less",
        "idiv_mod_bit", "select", "lookup2", "bigint", "string",
    ];
    let g = r.pick(&ops);
    // these look at words of 32 bits or at limbs for M31
    let cfg = if g == "string" { "M31" } else { r.pick(&["M31", "M31", "Goldilocks", "BN254"]) };
    let m = modulus(cfg);
    let mut s = Sc { cfg, reps: 1, full: r.pct(40), ..Default::default() };
    let mut k = vec![];
    let mut ops = json!("");
    let n = r.range(1, 5);
    let bits = |r: &mut Rng, n: usize| -> Vec<U256> {
        let p = r.pick(&[50, 50, 50, 10, 90]);
        (0..n).map(|_| u(r.pct(p) as usize)).collect()
    };
    // below the limit, mostly
    let lim = |r: &mut Rng, l: U256, off: usize| -> U256 {
        if r.pct(off) { r.pick(&[l, l + U256::ONE, m - U256::ONE, m - l.min(m)]) % m } else { edgy(r, l.min(m)) }
    };
    let w = r.range(1, 28);
    let sh = r.below(33);
    for i in 0..4 {
        let x: Vec<U256> = match g {
            "bytes_to_bits" => (0..n).map(|_| lim(r, u(256), 6)).collect(),
            "right_shift" | "rotate_right" => {
                k = vec![sh];
                (0..32).map(|_| edgy(r, m)).collect()
            }
            "sigma0" | "sigma1" | "cap_sigma0" | "cap_sigma1" => bits(r, 32),
            "ch" | "maj" => bits(r, 96),
            "add_no_reduce" => (0..2 * n).map(|_| edgy(r, m)).collect(),
            "add_reduce" | "add_top" => {
                k = vec![w];
                let mut x: Vec<U256> = (0..2 * n).map(|_| lim(r, pow2(w), 3)).collect();
                // carries that run through
                if r.pct(30) {
                    for j in 1..n {
                        x[j] = pow2(w) - U256::ONE - x[n + j].min(pow2(w) - U256::ONE);
                    }
                }
                x
            }
            "add_26" => {
                let mut x = vec![edgy(r, pow2(26)), edgy(r, pow2(6)), edgy(r, pow2(26)), edgy(r, pow2(6))];
                if r.pct(15) {
                    let j = r.below(4);
                    x[j] = lim(r, pow2(if j % 2 == 0 { 27 } else { 7 }), 50);
                }
                x
            }
            "bits_to_30" => bits(r, 30 + (sh % 30)),
            "bits_to_26" => bits(r, 26 + (sh % 28)),
            "put32_30" => vec![lim(r, pow2(30), 10), edgy(r, u(4))],
            "put32_26" => vec![lim(r, pow2(26), 10), edgy(r, pow2(6))],
            "put64" => vec![lim(r, pow2(30), 20)],
            "to_bits" => (0..n).map(|_| lim(r, pow2(30), 8)).collect(),
            "to_bits_26" => {
                k = vec![sh % 5];
                vec![lim(r, pow2(30), 10), lim(r, pow2(6 + k[0]), 10)]
            }
            "from_binary" => (0..w).map(|_| if r.pct(90) { u(r.below(2)) } else { edgy(r, m) }).collect(),
            "big_is_zero" => {
                k = vec![n];
                let z = r.pct(50);
                (0..n + sh % 2).map(|_| if z || r.pct(70) { U256::ZERO } else { edgy(r, m) }).collect()
            }
            "big_less_than" => {
                k = vec![w];
                let a: Vec<U256> = (0..n + 1).map(|_| edgy(r, pow2(w))).collect();
                let mut b = a.clone();
                // equal, but for few limbs
                for _ in 0..r.below(3) {
                    let j = r.below(n + 1);
                    b[j] = edgy(r, pow2(w));
                }
                [a, b].concat()
            }
            "my_is_less" => {
                k = vec![w];
                let a = edgy(r, pow2(w));
                vec![a, choose!(r; a, edgy(r, pow2(w)), (a + U256::ONE) % pow2(w))]
            }
            "idiv_mod_bit" => {
                k = vec![sh % 31];
                vec![lim(r, pow2(30), 10)]
            }
            "select" => vec![u(r.below(2)), edgy(r, m), edgy(r, m)],
            "lookup2" => vec![u(r.below(2)), u(r.below(2)), edgy(r, m), edgy(r, m), edgy(r, m), edgy(r, m)],
            _ => {
                if i == 0 {
                    k = vec![r.range(1, 30), r.range(1, 12)];
                    ops = { let l = pow2(r.range(1, 250)); json!(below(r, l).to_string()) };
                }
                vec![u(r.below(5))]
            }
        };
        s.more.push(x);
    }
    s.x = s.more.remove(0);
    s.gad = Gad { g: g.into(), k, ops };
    s
}
