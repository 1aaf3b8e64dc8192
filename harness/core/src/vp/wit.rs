//! Solving witnesses (W01) and the two representations of witnesses (W02). See specs/Witness.tla.
use super::fields::*;
use super::gen::{self, Lvl, Rng};
use super::pipe::{base_hn, opts, panic_msg};
use super::prog::*;
use crate::circuit::config::{Config, SIMDField};
use crate::circuit::ir::hint_normalized::witness_solver::WitnessSolver;
use crate::circuit::layered::witness::{Witness, WitnessValues};
use crate::circuit::layered::CrossLayerInputType;
use crate::compile::{self, CompileOptions};
use crate::frontend::internal::DumpLoadTwoVariables;
use crate::hints::registry::{EmptyHintCaller, HintCaller, HintRegistry};
use crate::utils::error::Error;
use arith::SimdField;
use serde_json::{json, Value};
use serdes::ExpSerde;
use vpshim::{Fp, Simd};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn lanes<T: crate::field::Field, S: SimdField<Scalar = T>>(x: &[S]) -> Value {
    Value::Array(x.iter().map(|v| jfs(&v.unpack())).collect())
}
fn jw<C: Config>(w: &Witness<C>) -> Value {
    let (form, v) = match &w.values {
        WitnessValues::Scalar(v) => ("plain", jfs(v)),
        WitnessValues::Simd(v) => ("packed", lanes(v)),
    };
    json!({"said": "ok", "num": w.num_witnesses, "a": w.num_inputs_per_witness, "b": w.num_public_inputs_per_witness, "form": form, "v": v})
}
fn said<C: Config>(f: impl FnOnce() -> Result<Witness<C>, Error>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(w)) => jw(&w),
        Ok(Err(_)) => json!({"said": "err"}),
        Err(e) => json!({"said": "panic", "msg": panic_msg(&e)}),
    }
}
struct Asg<T>(Vec<T>, Vec<T>);
impl<T: Clone> DumpLoadTwoVariables<T> for Asg<T> {
    fn dump_into(&self, v: &mut Vec<T>, p: &mut Vec<T>) {
        v.extend_from_slice(&self.0);
        p.extend_from_slice(&self.1);
    }
    fn load_from(&mut self, v: &mut &[T], p: &mut &[T]) {
        let (a, b) = (self.0.len(), self.1.len());
        self.0 = v[..a].to_vec();
        *v = &v[a..];
        self.1 = p[..b].to_vec();
        *p = &p[b..];
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.0.len(), self.1.len())
    }
}
fn hint_k<T: crate::field::Field, const K: usize>(a: &[T], o: &mut [T]) -> Result<(), Error> {
    let r = custom_hint(CUSTOM[K], a, o.len()).map_err(|_| Error::UserError("vp hint failed".into()))?;
    o.copy_from_slice(&r);
    Ok(())
}

type M = Fp<2147483647>;
// ---------------------------------------------------------------- W01
fn solver<C: Config>(r: &mut Rng) -> (WitnessSolver<C>, Vec<F<C>>, Vec<F<C>>) {
    let tiny = gen::is_tiny::<F<C>>();
    loop {
        if r.pct(50) {
            let (_, xs, pubs, h) = base_hn::<C>(r, tiny, false);
            return (WitnessSolver { circuit: h }, xs, pubs);
        }
        let mut o = opts(r, Lvl::Source, tiny);
        o.hints = true;
        let (p, xs, pubs) = gen::prog::<F<C>>(r, &o);
        let s = to_source::<C>(&p);
        let lv = r.range(1, 3);
        let x = catch_unwind(AssertUnwindSafe(|| {
            compile::compile_with_options::<C, CrossLayerInputType>(&s, CompileOptions::default().with_opt_level(lv)).ok()
        }));
        if let Ok(Some((h, _))) = x {
            return (WitnessSolver { circuit: h }, xs, pubs);
        }
    }
}
fn w01_with<C: Config>(r: &mut Rng, s: &WitnessSolver<C>, asg: &[Asg<F<C>>], hc: &impl HintCaller<F<C>>) -> Value {
    let n = asg.len();
    let front = r.pct(40);
    let one: Vec<Value> = asg
        .iter()
        .map(|a| {
            said(|| {
                if front {
                    s.solve_witness_with_hints(a, hc)
                } else {
                    s.solve_witness_from_raw_inputs(a.0.clone(), a.1.clone(), hc)
                }
            })
        })
        .collect();
    // runs of assignments: (first, number)
    let mut runs = vec![(0, n), (0, r.below(n + 1))];
    for _ in 0..2 {
        let f = r.below(n);
        runs.push((f, r.range(1, n - f)));
    }
    let bat: Vec<Value> = runs
        .into_iter()
        .map(|(f, k)| {
            let mut v = said(|| {
                if front {
                    s.solve_witnesses_with_hints(&asg[f..f + k], hc)
                } else {
                    s.solve_witnesses_from_raw_inputs(k, |i| (asg[f + i].0.clone(), asg[f + i].1.clone()), hc)
                }
            });
            v["first"] = json!(f);
            v["k"] = json!(k);
            v
        })
        .collect();
    json!({"one": one, "bat": bat})
}
fn w01<C: Config>(r: &mut Rng) -> Value {
    let (s, xs, pubs) = solver::<C>(r);
    let pack = SIMDField::<C>::PACK_SIZE;
    let n = match r.below(4) {
        0 => 1,
        1 => pack.min(8) + r.below(2),
        2 => (2 * pack).min(20) + r.below(3),
        _ => r.range(1, 6),
    };
    let (ni, np) = (s.circuit.input_size(), s.circuit.num_public_inputs);
    let pubs = if pubs.len() == np { pubs } else { vec![Default::default(); np] };
    let plant = if xs.len() == ni { xs } else { vec![] };
    let mut vs: Vec<Vec<F<C>>> = if plant.is_empty() {
        (0..n).map(|_| (0..ni).map(|_| gen::val(r)).collect()).collect()
    } else {
        gen::inputs(r, ni, &plant, n)
    };
    while vs.len() < n {
        let v = if r.pct(50) { vs[r.below(vs.len())].clone() } else { (0..ni).map(|_| gen::val(r)).collect() };
        vs.push(v);
    }
    r.shuffle(&mut vs);
    vs.truncate(n);
    let asg: Vec<Asg<F<C>>> = vs
        .into_iter()
        .map(|v| Asg(v, pubs.iter().map(|p| if r.pct(70) { *p } else { gen::val(r) }).collect()))
        .collect();
    let known: Vec<&str> = match r.below(8) {
        0 => vec![],
        1 => vec![CUSTOM[0], CUSTOM[2]],
        _ => CUSTOM.to_vec(),
    };
    let mut v = if known.is_empty() && r.pct(50) {
        w01_with(r, &s, &asg, &EmptyHintCaller)
    } else {
        let mut h: HintRegistry<F<C>> = HintRegistry::new();
        for k in known.iter() {
            match CUSTOM.iter().position(|x| x == k).unwrap() {
                0 => h.register(k, hint_k::<F<C>, 0>),
                1 => h.register(k, hint_k::<F<C>, 1>),
                _ => h.register(k, hint_k::<F<C>, 2>),
            }
        }
        w01_with(r, &s, &asg, &h)
    };
    v["kind"] = json!("solve");
    v["circ"] = jprog(&from_root(&s.circuit), false);
    v["known"] = json!(known);
    v["asg"] = Value::Array(asg.iter().map(|a| json!([jfs(&a.0), jfs(&a.1)])).collect());
    v
}

// ---------------------------------------------------------------- W02
fn w02<C: Config, S2: SimdField<Scalar = F<C>> + 'static, S8: SimdField<Scalar = F<C>> + 'static>(r: &mut Rng) -> Value {
    let pack = SIMDField::<C>::PACK_SIZE;
    let (mut a, b) = (r.below(5), r.below(4));
    if a + b == 0 {
        a = 1;
    }
    let num = match r.below(6) {
        0 => pack,
        1 => pack + 1,
        2 => 2 * pack - r.below(2),
        3 => r.range(1, 3),
        4 => r.below(2 * pack + 3),
        _ => r.below(5),
    };
    let asg: Vec<(Vec<F<C>>, Vec<F<C>>)> = (0..num)
        .map(|_| ((0..a).map(|_| gen::val(r)).collect(), (0..b).map(|_| gen::val(r)).collect()))
        .collect();
    let flat: Vec<Vec<F<C>>> = asg.iter().map(|(x, y)| x.iter().chain(y.iter()).cloned().collect()).collect();
    let start = if r.pct(50) { "plain" } else { "packed" };
    let mut w: Witness<C> = Witness {
        num_witnesses: num,
        num_inputs_per_witness: a,
        num_public_inputs_per_witness: b,
        values: if start == "plain" {
            WitnessValues::Scalar(flat.concat())
        } else {
            let mut v = vec![];
            let mut f = 0;
            while f < num {
                for q in 0..a + b {
                    let l: Vec<F<C>> = (0..pack).map(|m| flat[(f + m).min(num - 1)][q]).collect();
                    v.push(SIMDField::<C>::pack(&l));
                }
                f += pack;
            }
            WitnessValues::Simd(v)
        },
    };
    let mut ops = vec![];
    for _ in 0..r.range(2, 6) {
        let k = r.below(9);
        let e = catch_unwind(AssertUnwindSafe(|| match k {
            0 | 1 => json!({"op": "each", "r": w.iter_scalar().map(|(x, y)| json!([jfs(&x), jfs(&y)])).collect::<Vec<_>>()}),
            2 | 3 => json!({"op": "blocks", "m": pack, "r": w.iter_simd().map(|(x, y)| json!([lanes(&x), lanes(&y)])).collect::<Vec<_>>()}),
            4 | 5 => {
                let mut buf = vec![];
                w.serialize_into(&mut buf).unwrap();
                w = Witness::<C>::deserialize_from(&buf[..]).unwrap();
                json!({"op": "reload", "r": [w.num_witnesses, w.num_inputs_per_witness, w.num_public_inputs_per_witness]})
            }
            6 if num > 0 => {
                let (x, y) = w.to_simd::<SIMDField<C>>();
                json!({"op": "first", "m": pack, "r": [lanes(&x), lanes(&y)]})
            }
            7 if num > 0 => {
                let (x, y) = w.to_simd::<S2>();
                json!({"op": "first", "m": S2::PACK_SIZE, "r": [lanes(&x), lanes(&y)]})
            }
            8 if num > 0 => {
                let (x, y) = w.to_simd::<S8>();
                json!({"op": "first", "m": S8::PACK_SIZE, "r": [lanes(&x), lanes(&y)]})
            }
            _ => json!({"op": "reload", "r": [w.num_witnesses, w.num_inputs_per_witness, w.num_public_inputs_per_witness]}),
        }));
        match e {
            Ok(v) => ops.push(v),
            Err(e) => {
                ops.push(json!({"op": "panic", "k": k, "msg": panic_msg(&e)}));
                break;
            }
        }
    }
    json!({"kind": "hold", "start": start, "num": num, "a": a, "b": b,
        "asg": asg.iter().map(|(x, y)| json!([jfs(x), jfs(y)])).collect::<Vec<_>>(), "ops": ops})
}

fn one<C: Config, S2: SimdField<Scalar = F<C>> + 'static, S8: SimdField<Scalar = F<C>> + 'static>(prop: &str, r: &mut Rng) -> Value {
    let mut v = if prop == "W01" { w01::<C>(r) } else { w02::<C, S2, S8>(r) };
    v["p"] = jmod::<F<C>>();
    v["pack"] = json!(SIMDField::<C>::PACK_SIZE);
    v
}
/// wit PROP SEED COUNT OUT [ONLY]
pub fn main(a: &[String]) {
    let prop = a[0].as_str();
    let seed: u64 = a[1].parse().unwrap();
    let count: usize = a[2].parse().unwrap();
    let only: Option<usize> = a.get(4).and_then(|x| x.parse().ok());
    let lines = super::par::run(count, only, &a[3], |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64) ^ 0x317);
        let mut v = match r.below(5) {
            0 => one::<T7, Simd<Fp<7>, 3>, Simd<Fp<7>, 8>>(prop, &mut r),
            1 => one::<M31Config, Simd<M, 8>, Simd<M, 32>>(prop, &mut r),
            2 => one::<BN254Config, F<BN254Config>, F<BN254Config>>(prop, &mut r),
            3 => one::<T13, Simd<Fp<13>, 2>, Simd<Fp<13>, 5>>(prop, &mut r),
            _ => one::<T2, Simd<Fp<2>, 2>, Simd<Fp<2>, 8>>(prop, &mut r),
        };
        v["id"] = json!(id);
        vec![v]
    });
    let mut kinds = std::collections::HashMap::<String, usize>::new();
    for l in &lines {
        for x in l["one"].as_array().into_iter().flatten() {
            *kinds.entry(format!("one {}", x["said"].as_str().unwrap())).or_default() += 1;
        }
        for x in l["bat"].as_array().into_iter().flatten() {
            *kinds.entry(format!("batch {}", x["said"].as_str().unwrap())).or_default() += 1;
        }
        for x in l["ops"].as_array().into_iter().flatten() {
            *kinds.entry(x["op"].as_str().unwrap().to_string()).or_default() += 1;
        }
    }
    super::par::write(&a[3], &lines, json!({"scenarios": count, "kinds": kinds}));
}
