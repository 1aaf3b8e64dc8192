//! SHA-256 (S04) and Poseidon (S05).
use super::*;
use crate::poseidon::poseidon_m31::PoseidonM31Params;
use crate::poseidon::poseidon_u32::PoseidonParams;
use crate::sha256::gf2::SHA256GF2;
use crate::sha256::{gf2_utils as gu, m31 as sm};

pub fn build<C: Config, B: RootAPI<C>>(b: &mut B, g: &Gad, x: &[Variable]) -> Option<Vec<Variable>> {
    let k = &g.k;
    Some(match g.g.as_str() {
        "sha_bytes" => sm::sha256_var_bytes(b, x),
        "sha_37" => sm::sha256_37bytes(b, x),
        "sha_37_bits" => sm::sha256_37bytes_compress(b, x),
        "sha_37_batch" => {
            let v: Vec<Vec<Variable>> = x.chunks(296).map(|c| c.to_vec()).collect();
            sm::sha256_37bytes_256batch_compress(b, &v).concat()
        }
        // the digest follows the data
        "check_37" => sm::check_sha256_37bytes(b, x),
        "check_37_bits" => sm::check_sha256_37bytes_compress(b, x),
        "check_37_batch" => {
            let n = k[0];
            let v: Vec<Vec<Variable>> = x[..296 * n].chunks(296).map(|c| c.to_vec()).collect();
            let w: Vec<Vec<Variable>> = x[296 * n..].chunks(32).map(|c| c.to_vec()).collect();
            sm::check_sha256_37bytes_256batch_compress(b, &v, &w).concat()
        }
        // [rate, width, full rounds, partial rounds]
        "permute" => {
            let p = PoseidonM31Params::new(b, k[0], k[1], k[2], k[3]);
            let mut s = x.to_vec();
            p.permute(b, &mut s);
            s
        }
        "sponge" => {
            let p = PoseidonM31Params::new(b, k[0], k[1], k[2], k[3]);
            p.hash_to_state(b, x)
        }
        "sponge_flat" => {
            let p = PoseidonM31Params::new(b, k[0], k[1], k[2], k[3]);
            p.hash_to_state_flatten(b, x)
        }
        _ => return None,
    })
}
fn word(x: &[Variable]) -> gu::Sha256Word {
    x[..32].try_into().unwrap()
}
pub fn build_gf2<B: RootAPI<GF2Config>>(b: &mut B, g: &Gad, x: &[Variable]) -> Option<Vec<Variable>> {
    let k = &g.k;
    let w = |i: usize| word(&x[32 * i..]);
    Some(match g.g.as_str() {
        // pieces of data
        "sha" => {
            let mut h = SHA256GF2::new();
            let mut at = 0;
            for n in k {
                h.update(&x[at..at + n]);
                at += n;
            }
            h.finalize(b)
        }
        // the state and the block
        "compress" => {
            let h = SHA256GF2::new();
            let mut s: [gu::Sha256Word; 8] = (0..8).map(w).collect::<Vec<_>>().try_into().unwrap();
            let d: [Variable; 512] = x[256..768].try_into().unwrap();
            h.sha256_compress(b, &mut s, &d);
            s.concat()
        }
        "g_rotate_right" => gu::rotate_right(&w(0), k[0]).to_vec(),
        "g_shift_right" => gu::shift_right(b, &w(0), k[0]).to_vec(),
        "g_ch" => gu::ch(b, &w(0), &w(1), &w(2)).to_vec(),
        "g_maj" => gu::maj(b, &w(0), &w(1), &w(2)).to_vec(),
        "g_sigma0" => gu::lower_case_sigma0(b, &w(0)).to_vec(),
        "g_sigma1" => gu::lower_case_sigma1(b, &w(0)).to_vec(),
        "g_cap_sigma0" => gu::capital_sigma0(b, &w(0)).to_vec(),
        "g_cap_sigma1" => gu::capital_sigma1(b, &w(0)).to_vec(),
        "g_add" => gu::add(b, &w(0), &w(1)).to_vec(),
        "g_add_brentkung" => gu::add_brentkung(b, &w(0), &w(1)).to_vec(),
        "g_add_vanilla" => gu::add_vanilla(b, &w(0), &w(1)).to_vec(),
        "g_add_const" => gu::add_const(b, &w(0), (k[0] * 65536 + k[1]) as u32).to_vec(),
        "g_sum_all" => {
            let v: Vec<gu::Sha256Word> = (0..x.len() / 32).map(w).collect();
            gu::sum_all(b, &v).to_vec()
        }
        "g_xor" => gu::xor(b, &w(0), &w(1)).to_vec(),
        "g_and" => gu::and(b, &w(0), &w(1)).to_vec(),
        "g_not" => gu::not(b, &w(0)).to_vec(),
        // constants
        "g_u32" => gu::u32_to_bit(b, (k[0] * 65536 + k[1]) as u32).to_vec(),
        "g_u64" => gu::u64_to_bit(b, ((k[0] * 65536 + k[1]) as u64) << 32 | (k[2] * 65536 + k[3]) as u64).to_vec(),
        _ => return None,
    })
}
/// the digest, to make checks that should pass
fn sha256(d: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    sha2::Sha256::digest(d).to_vec()
}
/// bits of 37 bytes as the compressed form has them: nine words least significant bit first, then
/// a byte most significant bit first
fn packed(d: &[u8]) -> Vec<U256> {
    let mut v = vec![];
    for t in 0..9 {
        let w = u32::from_be_bytes(d[4 * t..4 * t + 4].try_into().unwrap());
        v.extend((0..32).map(|j| u((w >> j & 1) as usize)));
    }
    v.extend((0..8).map(|j| u((d[36] >> (7 - j) & 1) as usize)));
    v
}
fn bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let p = r.pick(&[0, 0, 30, 100]);
    (0..n).map(|_| if r.pct(p) { r.pick(&[0, 255, 128]) } else { r.next() as u8 }).collect()
}
fn ub(d: &[u8]) -> Vec<U256> {
    d.iter().map(|x| u(*x as usize)).collect()
}
pub fn gen_sha(id: usize, r: &mut Rng) -> Sc {
    let mut s = Sc { reps: 1, ..Default::default() };
    let words = [
        ("g_rotate_right", 1), ("g_shift_right", 1), ("g_ch", 3), ("g_maj", 3), ("g_sigma0", 1), ("g_sigma1", 1),
        ("g_cap_sigma0", 1), ("g_cap_sigma1", 1), ("g_add", 2), ("g_add_brentkung", 2), ("g_add_vanilla", 2),
        ("g_add_const", 1), ("g_sum_all", 0), ("g_xor", 2), ("g_and", 2), ("g_not", 1), ("g_u32", 1), ("g_u64", 1),
    ];
    match id % 8 {
        0 => {
            // whole hashes of bits; lengths at the ends of blocks
            s.cfg = "GF2";
            let n = match id / 8 % 3 {
                0 => r.pick(&[0, 1, 446, 447, 448, 449, 500, 510, 511, 512, 513, 959, 960, 1022, 1023, 1024]),
                1 => r.range(440, 520),
                // lengths of more than ten bits as well
                _ if r.pct(25) => r.range(1024, 2300),
                _ => r.range(0, 1030),
            };
            let mut k = vec![];
            let mut left = n;
            while left > 0 {
                let c = r.range(1, left);
                k.push(c);
                left -= c;
            }
            if r.pct(20) {
                k.push(0);
            }
            let d = bytes(r, n / 8 + 1);
            s.x = (0..n).map(|i| u((d[i / 8] >> (i % 8) & 1) as usize)).collect();
            if n == 0 {
                // every circuit has an input: hash one bit
                s.x = vec![u(r.below(2))];
                k = vec![1];
            }
            s.gad = Gad { g: "sha".into(), k, ops: json!("") };
            s.full = id / 8 % 4 == 0;
        }
        1 if id / 8 % 2 == 0 => {
            s.cfg = "GF2";
            let d = bytes(r, 96);
            s.x = (0..768).map(|i| u((d[i / 8] >> (i % 8) & 1) as usize)).collect();
            s.gad = Gad { g: "compress".into(), k: vec![], ops: json!("") };
        }
        1 | 2 => {
            s.cfg = "M31";
            let n = match id / 8 % 3 {
                0 => r.pick(&[1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128]),
                1 => r.range(1, 64),
                _ if r.pct(15) => r.range(126, 330),
                _ => r.range(50, 125),
            };
            s.x = ub(&bytes(r, n));
            if r.pct(15) {
                // not a byte
                let i = r.below(n);
                s.x[i] = r.pick(&[u(256), u(511), modulus("M31") - U256::ONE]);
            }
            s.gad = Gad { g: "sha_bytes".into(), k: vec![], ops: json!("") };
            s.full = id / 8 % 8 == 5;
        }
        3 => {
            s.cfg = r.pick(&["M31", "M31", "M31", "Goldilocks", "BN254"]);
            let d = bytes(r, 37);
            let h = ub(&sha256(&d));
            let g = ["sha_37", "sha_37_bits", "check_37", "check_37_bits"][id / 8 % 4];
            let x = if g.ends_with("bits") { packed(&d) } else { ub(&d) };
            s.x = x.clone();
            if g.starts_with("check") {
                s.x.extend(h.clone());
                for _ in 0..2 {
                    let mut y = s.x.clone();
                    let i = x.len() + r.below(32);
                    y[i] = if r.pct(50) { y[i] + U256::ONE } else { u(r.below(256)) };
                    s.more.push(y);
                }
            }
            s.gad = Gad { g: g.into(), k: vec![], ops: json!("") };
            s.full = id / 32 % 8 == 3;
        }
        4 if id / 8 % 2 == 0 => {
            s.cfg = "M31";
            let n = r.range(1, 3);
            // the first 32 bytes are the same
            let d = bytes(r, 32);
            let all: Vec<Vec<u8>> = (0..n).map(|_| [d.clone(), bytes(r, 5)].concat()).collect();
            let g = r.pick(&["sha_37_batch", "check_37_batch"]);
            s.x = all.iter().flat_map(|d| packed(d)).collect();
            if g == "check_37_batch" {
                s.x.extend(all.iter().flat_map(|d| ub(&sha256(d))));
                let mut y = s.x.clone();
                let i = y.len() - 1 - r.below(32 * n);
                y[i] = (y[i] + U256::ONE) % u(256);
                s.more.push(y);
            }
            s.gad = Gad { g: g.into(), k: vec![n], ops: json!("") };
        }
        _ => {
            s.cfg = "GF2";
            let (g, n) = words[(id / 8 * 4 + id % 8) % words.len()];
            let n = if n == 0 { r.range(1, 7) } else { n };
            let half = |r: &mut Rng| choose!(r; 0, 65535, 32768, 1, r.below(65536), r.below(65536));
            let k = match g {
                "g_rotate_right" | "g_shift_right" => vec![r.range(0, 32)],
                "g_add_const" | "g_u32" => vec![half(r), half(r)],
                "g_u64" => {
                    vec![half(r), r.below(65536), r.below(65536), half(r)]
                }
                _ => vec![],
            };
            s.gad = Gad { g: g.into(), k, ops: json!("") };
            for _ in 0..6 {
                let d = bytes(r, 4 * n);
                s.more.push((0..32 * n).map(|i| u((d[i / 8] >> (i % 8) & 1) as usize)).collect());
            }
            s.x = s.more.remove(0);
            s.full = true;
        }
    }
    s
}

/// the circuit and the function on numbers
pub fn poseidon(id: usize, r: &mut Rng) -> Value {
    let m = modulus("M31");
    let width = [16, 8, 16, 12][id % 4];
    let (full, part) = if id % 4 == 0 && id % 3 == 0 { (8, 14) } else { (2 * r.range(0, 2), r.range(0, 3)) };
    let rate = if (full, part) == (8, 14) { 8 } else { r.range(1, width) };
    let g = ["permute", "sponge", "sponge_flat"][id / 4 % 3];
    let n = if g == "permute" { width } else { r.range(1, 2 * rate + 1) };
    let mut s = Sc { cfg: "M31", reps: 1, full: r.pct(40), ..Default::default() };
    s.gad = Gad { g: g.into(), k: vec![rate, width, full, part], ops: json!("") };
    for _ in 0..2 {
        s.more.push((0..n).map(|_| edgy(r, m)).collect());
    }
    s.x = s.more.remove(0);
    if g == "sponge_flat" && r.pct(25) {
        s.adv = 1;
    }
    let mut v = drive(&s, r);
    let num: Vec<Value> = std::iter::once(&s.x)
        .chain(&s.more)
        .map(|x| {
            let x: Vec<u32> = x.iter().map(|v| v.as_u32()).collect();
            let p = PoseidonParams::new(rate, width, full, part);
            json!(match g {
                "permute" => {
                    let mut y = x.clone();
                    p.permute(&mut y);
                    y
                }
                _ => {
                    let y = p.hash_to_state(&x);
                    assert_eq!(p.hash(&x), y[..rate].to_vec(), "hash is not the start of the state");
                    y
                }
            })
        })
        .collect();
    for (i, n) in num.into_iter().enumerate() {
        v["cases"][i]["num"] = n;
    }
    v
}
