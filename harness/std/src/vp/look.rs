//! Lookup tables, range proofs and matrix products (S01, S02, S03).
use super::*;
use crate::logup::{query_count_by_key_hint, query_count_hint, rangeproof_hint};
use crate::logup::{LogUpCircuit, LogUpParams, LogUpRangeProofTable, LogUpSingleKeyTable};
use crate::matmul::{MatMulCircuit, MatMulParams};
use crate::StdCircuit;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use rand::SeedableRng;

thread_local! { static ADV: RefCell<usize> = RefCell::default(); }
fn adv() -> usize {
    ADV.with(|a| *a.borrow())
}
/// the counts an adversary has to give: what is not in the table is not counted
fn counts<F: Field>(inputs: &[F], outputs: &mut [F]) -> Result<(), Error> {
    if adv() == 0 {
        return query_count_hint(inputs, outputs);
    }
    let mut c = vec![0u32; outputs.len()];
    for x in inputs {
        let v = x.to_u256();
        if v < u(c.len()) {
            c[v.as_usize()] += 1;
        }
    }
    if adv() == 3 {
        c[0] += 1;
    }
    for (o, c) in outputs.iter_mut().zip(c) {
        *o = F::from(c);
    }
    Ok(())
}
fn by_key<F: Field>(inputs: &[F], outputs: &mut [F]) -> Result<(), Error> {
    query_count_by_key_hint(inputs, outputs)?;
    let n = outputs.len();
    match adv() {
        1 => outputs[0] = outputs[0] + F::one(),
        2 => outputs.swap(0, n - 1),
        3 => outputs.iter_mut().for_each(|o| *o = F::one()),
        _ => {}
    }
    Ok(())
}
/// limbs of the value, or of the value with an overlong or negative last limb
fn limbs<F: Field>(inputs: &[F], outputs: &mut [F]) -> Result<(), Error> {
    rangeproof_hint(inputs, outputs)?;
    if adv() == 0 {
        return Ok(());
    }
    let (k, m) = (outputs.len(), inputs[1].to_u256().as_usize());
    let v = inputs[2].to_u256();
    let p = <F as arith::Field>::MODULUS;
    let mask = pow2(m) - U256::ONE;
    let top = m * (k - 1);
    if adv() >= 4 {
        // one limb takes whatever the others, all short, leave over
        let j = [0, k / 2, k - 1][adv() - 4];
        let mut rest = inputs[2];
        let mut at = F::one();
        let base = F::from_u256(pow2(m));
        let mut here = at;
        for i in 0..k {
            if i == j {
                here = at;
            } else {
                let x = F::from_u256((v >> (m * i) as u32) & mask);
                outputs[i] = x;
                rest = rest - x * at;
            }
            at = at * base;
        }
        outputs[j] = rest * here.inv().unwrap();
        return Ok(());
    }
    // p - v, as the size of the negative number v - p
    let w = if adv() == 2 { p - v } else { v };
    let mut low: Vec<U256> = (0..k - 1).map(|i| (w >> (m * i) as u32) & mask).collect();
    let mut high = F::from_u256(w >> top as u32);
    if adv() == 2 {
        // negate limb by limb, borrowing
        let mut borrow = U256::ZERO;
        for x in low.iter_mut() {
            let y = *x + borrow;
            if y == U256::ZERO {
                borrow = U256::ZERO;
            } else {
                *x = (pow2(m) - y) & mask;
                borrow = U256::ONE;
            }
        }
        high = F::zero() - (high + F::from_u256(borrow));
    }
    for (o, x) in outputs.iter_mut().zip(low) {
        *o = F::from_u256(x);
    }
    outputs[k - 1] = high;
    Ok(())
}
fn copy<F: Field>(inputs: &[F], outputs: &mut [F]) -> Result<(), Error> {
    outputs.copy_from_slice(inputs);
    if adv() != 0 {
        outputs[0] = outputs[0] + F::one();
    }
    Ok(())
}
pub fn hints<F: Field>(a: usize) -> HintRegistry<F> {
    ADV.with(|x| *x.borrow_mut() = a);
    let mut r = HintRegistry::<F>::new();
    r.register("myhint.querycounthint", counts);
    r.register("myhint.querycountbykeyhint", by_key);
    r.register("myhint.rangeproofhint", limbs);
    r.register("myhint.copyvarshint", copy);
    r
}

fn rows(x: &[Variable], n: usize, w: usize) -> Vec<Vec<Variable>> {
    (0..n).map(|i| x[i * w..(i + 1) * w].to_vec()).collect()
}
pub fn build<C: Config, B: RootAPI<C>>(b: &mut B, g: &Gad, x: &[Variable]) -> Option<Vec<Variable>> {
    let k = &g.k;
    match g.g.as_str() {
        // [key length, value length, rows, queries]: keys, values, query keys, query values, counts
        "logup" => {
            let p = LogUpParams { key_len: k[0], value_len: k[1], n_table_rows: k[2], n_queries: k[3] };
            let mut c = <LogUpCircuit as StdCircuit<C>>::new_circuit(&p);
            c.load_from(&mut &*x, &mut &[][..]);
            <LogUpCircuit as Define<C>>::define(&c, b);
            Some(vec![])
        }
        // [value length, rows, queries, with counts, table in one go, queries in one go]:
        // rows, queries, counts
        "single" => {
            let (v, n, q) = (k[0], k[1], k[2]);
            let r = rows(x, n, v + 1);
            let s = rows(&x[n * (v + 1)..], q, v + 1);
            let mut t = LogUpSingleKeyTable::new(8);
            if k[4] == 1 {
                t.new_table(r.iter().map(|y| y[0]).collect(), r.iter().map(|y| y[1..].to_vec()).collect());
            } else {
                r.iter().for_each(|y| t.add_table_row(y[0], y[1..].to_vec()));
            }
            if k[5] == 1 {
                t.batch_query(s.iter().map(|y| y[0]).collect(), s.iter().map(|y| y[1..].to_vec()).collect());
            } else {
                s.iter().for_each(|y| t.query(y[0], y[1..].to_vec()));
            }
            if k[3] == 1 {
                t.final_check_with_query_count(b, &x[(n + q) * (v + 1)..]);
            } else {
                t.final_check(b);
            }
            Some(vec![])
        }
        // [bits of the table, n1, n2, ..]
        "range" | "chunk" => {
            let mut t = LogUpRangeProofTable::new(k[0]);
            t.initial(b);
            for (a, n) in x.iter().zip(&k[1..]) {
                if g.g == "range" {
                    t.rangeproof(b, *a, *n);
                } else {
                    t.rangeproof_onechunk(b, *a, *n);
                }
            }
            t.final_check(b);
            Some(vec![])
        }
        // [bits of the table, variables, (variable, n) ..]: the same variables against several ranges
        "again" => {
            let mut t = LogUpRangeProofTable::new(k[0]);
            t.initial(b);
            for y in k[2..].chunks(2) {
                t.rangeproof(b, x[y[0]], y[1]);
            }
            t.final_check(b);
            Some(vec![])
        }
        // [bits of the table, queries, with counts]: queries, counts
        "inrange" => {
            let mut t = LogUpRangeProofTable::new(k[0]);
            t.initial(b);
            x[..k[1]].iter().for_each(|a| t.query_range(*a));
            if k[2] == 1 {
                t.final_check_with_query_count(b, &x[k[1]..]);
            } else {
                t.final_check(b);
            }
            Some(vec![])
        }
        // [m1, n1, m2, n2]
        "matmul" => {
            let p = MatMulParams { m1: k[0], n1: k[1], m2: k[2], n2: k[3] };
            let mut c = <MatMulCircuit as StdCircuit<C>>::new_circuit(&p);
            c.load_from(&mut &*x, &mut &[][..]);
            <MatMulCircuit as Define<C>>::define(&c, b);
            Some(vec![])
        }
        _ => None,
    }
}

fn flat<F: Field>(a: &impl DumpLoadTwoVariables<F>) -> Vec<U256> {
    let (mut v, mut w) = (vec![], vec![]);
    a.dump_into(&mut v, &mut w);
    v.iter().map(|x| x.to_u256()).collect()
}
/// what the library itself assigns
fn library<C: Config>(s: &mut Sc, seed: u64) {
    let rng = rand::rngs::StdRng::seed_from_u64(seed);
    let k = s.gad.k.clone();
    if s.gad.g == "matmul" {
        let p = MatMulParams { m1: k[0], n1: k[1], m2: k[2], n2: k[3] };
        let a = <MatMulCircuit as StdCircuit<C>>::new_assignment(&p, rng);
        s.x = flat(&a);
    } else {
        let p = LogUpParams { key_len: k[0], value_len: k[1], n_table_rows: k[2], n_queries: k[3] };
        let a = <LogUpCircuit as StdCircuit<C>>::new_assignment(&p, rng);
        s.x = flat(&a);
    }
    s.gad.ops = json!("library");
}
fn by_library(s: &mut Sc, seed: u64) {
    match s.cfg {
        "M31" => library::<M31Config>(s, seed),
        "Goldilocks" => library::<GoldilocksConfig>(s, seed),
        _ => library::<BN254Config>(s, seed),
    }
}
/// change one of the values
fn touch(r: &mut Rng, x: &[U256], m: U256) -> Vec<U256> {
    let mut y = x.to_vec();
    let i = r.below(y.len());
    y[i] = match r.below(4) {
        0 => (y[i] + U256::ONE) % m,
        1 => (y[i] + m - U256::ONE) % m,
        // the same in the low bits only
        2 => (y[i] + pow2(r.pick(&[8, 16, 30, 32, 33, 60]))) % m,
        _ => edgy(r, m),
    };
    y
}
/// in one of the rows, exchange two columns, or add to one what another loses
fn across(r: &mut Rng, y: &mut [U256], n: usize, w: usize, m: U256) {
    let (i, a, b) = (r.below(n), r.below(w), r.below(w));
    if r.pct(50) {
        y.swap(i * w + a, i * w + b);
    } else {
        y[i * w + a] = (y[i * w + a] + U256::ONE) % m;
        y[i * w + b] = (y[i * w + b] + m - U256::ONE) % m;
    }
}
pub fn gen(prop: &str, id: usize, r: &mut Rng) -> Sc {
    let cfg = r.pick(&["M31", "M31", "Goldilocks", "BN254"]);
    let m = modulus(cfg);
    let mut s = Sc { cfg, rel: true, reps: 3, full: r.pct(40), adv: 0, ..Default::default() };
    match prop {
        "S01" => {
            let small = r.pct(50);
            let mut v = |r: &mut Rng| if small { u(r.below(3)) } else { edgy(r, m) };
            if r.pct(45) {
                let wide = if r.pct(25) { 9 } else { 3 };
                let (kl, vl, n, q) = (r.range(1, wide), r.range(1, wide), r.range(1, 6), r.range(1, 7));
                s.gad = Gad { g: "logup".into(), k: vec![kl, vl, n, q], ops: json!("") };
                if r.pct(25) {
                    by_library(&mut s, r.next());
                } else {
                    let keys: Vec<Vec<U256>> = (0..n).map(|_| (0..kl).map(|_| v(r)).collect()).collect();
                    let vals: Vec<Vec<U256>> = (0..n).map(|_| (0..vl).map(|_| v(r)).collect()).collect();
                    let mut c = vec![0usize; n];
                    let pick: Vec<usize> = (0..q).map(|_| r.below(n)).collect();
                    pick.iter().for_each(|i| c[*i] += 1);
                    s.x = [keys.concat(), vals.concat()].concat();
                    s.x.extend(pick.iter().flat_map(|i| keys[*i].clone()));
                    s.x.extend(pick.iter().flat_map(|i| vals[*i].clone()));
                    s.x.extend(c.iter().map(|c| u(*c)));
                }
                let w = (kl + vl) * n;
                // counts moved between rows, a query moved to another row, values changed
                for _ in 0..4 {
                    let mut y = s.x.clone();
                    let c0 = y.len() - n;
                    match r.below(7) {
                        // one row, its values exchanged, or one of them more and another less
                        5 if vl > 1 => across(r, &mut y[w + q * kl..], q, vl, m),
                        6 if kl > 1 => across(r, &mut y[w..], q, kl, m),
                        0 => {
                            let (i, j) = (c0 + r.below(n), c0 + r.below(n));
                            y.swap(i, j);
                        }
                        1 => {
                            let (i, j) = (c0 + r.below(n), c0 + r.below(n));
                            y[i] = (y[i] + U256::ONE) % m;
                            y[j] = (y[j] + m - U256::ONE) % m;
                        }
                        2 => {
                            // another value of the same column
                            let (i, j, o) = (r.below(q), r.below(n), r.below(vl));
                            y[w + q * kl + i * vl + o] = y[kl * n + j * vl + o];
                        }
                        3 => {
                            let (i, j, o) = (r.below(q), r.below(n), r.below(kl));
                            y[w + i * kl + o] = y[j * kl + o];
                        }
                        _ => y = touch(r, &y, m),
                    }
                    s.more.push(y);
                }
            } else {
                let vl = if r.pct(25) { r.range(4, 12) } else { r.range(0, 3) };
                let (n, q) = (r.range(1, 6), r.range(1, 7));
                let with = r.below(2);
                s.gad = Gad { g: "single".into(), k: vec![vl, n, q, with, r.below(2), r.below(2)], ops: json!("") };
                if with == 0 {
                    s.adv = r.pick(&[0, 0, 0, 1, 2, 3]);
                }
                // distinct keys; some equal in their low bits
                let mut keys: Vec<U256> = vec![];
                while keys.len() < n {
                    let x = if !keys.is_empty() && r.pct(40) {
                        (r.pick(&keys) + pow2(r.pick(&[8, 16, 31, 32, 33]))) % m
                    } else if small {
                        u(r.below(2 * n))
                    } else {
                        edgy(r, m)
                    };
                    if !keys.contains(&x) {
                        keys.push(x);
                    }
                }
                let t: Vec<Vec<U256>> =
                    keys.iter().map(|k| std::iter::once(*k).chain((0..vl).map(|_| v(r))).collect()).collect();
                let pick: Vec<usize> = (0..q).map(|_| r.below(n)).collect();
                let mut c = vec![0usize; n];
                pick.iter().for_each(|i| c[*i] += 1);
                s.x = t.concat();
                s.x.extend(pick.iter().flat_map(|i| t[*i].clone()));
                if with == 1 {
                    s.x.extend(c.iter().map(|c| u(*c)));
                }
                let w = vl + 1;
                for _ in 0..4 {
                    let mut y = s.x.clone();
                    match r.below(5) {
                        4 if vl > 1 => across(r, &mut y[w * n..], q, w, m),
                        0 => {
                            let (i, j, o) = (r.below(q), r.below(n), r.below(w));
                            y[w * n + w * i + o] = y[w * j + o];
                        }
                        1 if with == 1 => {
                            let c0 = y.len() - n;
                            let (i, j) = (c0 + r.below(n), c0 + r.below(n));
                            y[i] = (y[i] + U256::ONE) % m;
                            y[j] = (y[j] + m - U256::ONE) % m;
                        }
                        2 => {
                            // the key in the table, the value of another row
                            let (i, j) = (r.below(q), r.below(n));
                            for o in 1..w {
                                y[w * n + w * i + o] = y[w * j + o];
                            }
                        }
                        _ => {
                            // only in the queries: the keys of the table stay distinct
                            let z = touch(r, &y[w * n..], m);
                            y.truncate(w * n);
                            y.extend(z);
                        }
                    }
                    s.more.push(y);
                }
            }
        }
        "S02" => {
            let bits = r.range(1, 6);
            let top = match cfg {
                "M31" => 31,
                "Goldilocks" => 64,
                _ => 128,
            };
            s.reps = 2;
            match r.below(10) {
                0 | 1 => {
                    let (q, with) = (r.range(1, 6), r.below(2));
                    s.gad = Gad { g: "inrange".into(), k: vec![bits, q, with], ops: json!("") };
                    let lim = pow2(bits);
                    for i in 0..5 {
                        let mut x: Vec<U256> = (0..q).map(|_| edgy(r, lim)).collect();
                        let mut c = vec![U256::ZERO; 1 << bits];
                        x.iter().for_each(|v| c[v.as_usize()] += U256::ONE);
                        if i > 0 && r.pct(60) {
                            let j = r.below(q);
                            x[j] = choose!(r; lim, m - U256::ONE, lim + U256::ONE, below(r, m), below(r, lim)) % m;
                        }
                        if with == 1 {
                            if r.pct(30) {
                                c = touch(r, &c, m);
                            }
                            x.extend(c);
                        }
                        s.more.push(x);
                    }
                    s.x = s.more.remove(0);
                    s.adv = if with == 1 { 0 } else { r.pick(&[0, 0, 1, 3]) };
                }
                2 | 3 => {
                    let q = r.range(1, 2);
                    let mut k = vec![bits, q];
                    let mut least = vec![usize::MAX; q];
                    for _ in 0..r.range(2, 5) {
                        let i = r.below(q);
                        let n = choose!(r; r.range(1, bits), r.range(1, 3 * bits), bits, 2 * bits).min(top);
                        k.extend([i, n]);
                        least[i] = least[i].min(n);
                    }
                    s.gad = Gad { g: "again".into(), k: k.clone(), ops: json!("") };
                    s.adv = r.pick(&[0, 1, 1, 2, 3]);
                    let most = k[2..].chunks(2).map(|y| y[1]).max().unwrap();
                    for i in 0..6 {
                        let mut x: Vec<U256> = least.iter().map(|n| edgy(r, pow2((*n).min(top)).min(m))).collect();
                        if i > 0 && r.pct(75) {
                            let j = r.below(q);
                            let n = least[j].min(top);
                            x[j] = choose!(r; pow2(n), pow2(n) + below(r, pow2(n)), below(r, pow2(most)), m - U256::ONE) % m;
                        }
                        s.more.push(x);
                    }
                    s.x = s.more.remove(0);
                }
                kind => {
                    let one = kind < 6;
                    let q = r.range(1, 3);
                    let mut k = vec![bits];
                    k.extend((0..q).map(|_| {
                        if one {
                            r.range(1, bits)
                        } else {
                            choose!(r; r.range(1, bits), r.range(1, 3 * bits), r.range(1, top), bits * 2, bits)
                        }
                    }).map(|n| n.min(top)));
                    s.gad = Gad { g: if one { "chunk" } else { "range" }.into(), k: k.clone(), ops: json!("") };
                    s.adv = r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6]);
                    for i in 0..8 {
                        let mut x: Vec<U256> = k[1..].iter().map(|n| edgy(r, pow2(*n).min(m))).collect();
                        if i > 0 && r.pct(75) {
                            let j = r.below(q);
                            let n = k[1 + j];
                            // a whole number of limbs
                            let up = (n + bits - 1) / bits * bits;
                            x[j] = match r.below(8) {
                                0 => pow2(n),
                                1 => pow2(n) + U256::ONE,
                                2 => m - U256::ONE,
                                3 => m - below(r, pow2(up).min(m)),
                                4 => pow2(n) + below(r, pow2(up)),
                                5 => m - pow2(n).min(m),
                                6 => m - pow2(up - bits).min(m),
                                _ => below(r, m),
                            } % m;
                        }
                        s.more.push(x);
                    }
                    s.x = s.more.remove(0);
                }
            }
        }
        _ => {
            let (m1, n1, n2) = (r.range(1, 4), r.range(1, 4), if r.pct(25) { r.range(5, 9) } else { r.range(1, 4) });
            let mut k = vec![m1, n1, n1, n2];
            if r.pct(15) {
                // shapes that do not fit
                k[1] = r.range(1, 5);
            }
            s.gad = Gad { g: "matmul".into(), k: k.clone(), ops: json!("") };
            if r.pct(20) && k[1] == k[2] {
                by_library(&mut s, r.next());
            } else {
                let a: Vec<U256> = (0..k[0] * k[1]).map(|_| edgy(r, m)).collect();
                let b: Vec<U256> = (0..k[2] * k[3]).map(|_| edgy(r, m)).collect();
                s.x = [a.clone(), b.clone()].concat();
                for i in 0..k[0] {
                    for j in 0..k[3] {
                        let mut t = U256::ZERO;
                        for l in 0..k[1].min(k[2]) {
                            t = (t + mulmod(a[i * k[1] + l], b[l * k[3] + j], m)) % m;
                        }
                        s.x.push(t);
                    }
                }
            }
            let c0 = k[0] * k[1] + k[2] * k[3];
            for _ in 0..4 {
                let mut y = s.x.clone();
                let (i, j) = (c0 + r.below(k[0] * k[3]), c0 + r.below(k[0] * k[3]));
                let at = |row: usize, c: usize| c0 + row * k[3] + c;
                match r.below(6) {
                    // errors in one row that some small weights of the columns would hide
                    4 if k[3] > 1 => {
                        let (row, a) = (r.below(k[0]), r.below(k[3] - 1));
                        let b = r.range(a + 1, k[3] - 1);
                        let (a, b, d) = (a, b, r.below(3));
                        y[at(row, a)] = (y[at(row, a)] + U256::from((b + d) as u64)) % m;
                        y[at(row, b)] = (y[at(row, b)] + m - U256::from((a + d) as u64)) % m;
                    }
                    5 if k[3] > 2 => {
                        let (row, a) = (r.below(k[0]), r.below(k[3] - 2));
                        for (c, e) in [U256::ONE, m - U256::from(2u64), U256::ONE].iter().enumerate() {
                            y[at(row, a + c)] = (y[at(row, a + c)] + *e) % m;
                        }
                    }
                    // the sum of the entries stays
                    0 => {
                        y[i] = (y[i] + U256::ONE) % m;
                        y[j] = (y[j] + m - U256::ONE) % m;
                    }
                    1 => y.swap(i, j),
                    2 => y[i] = (y[i] + U256::ONE) % m,
                    _ => y = touch(r, &y, m),
                }
                s.more.push(y);
            }
        }
    }
    s.gad.ops = if s.gad.ops.is_null() { json!("") } else { s.gad.ops };
    let _ = id;
    s
}
pub fn mulmod(a: U256, b: U256, m: U256) -> U256 {
    let (mut t, mut a, mut b) = (U256::ZERO, a % m, b);
    while b > U256::ZERO {
        if b & U256::ONE == U256::ONE {
            t = (t + a) % m;
        }
        a = (a + a) % m;
        b >>= 1u32;
    }
    t
}
