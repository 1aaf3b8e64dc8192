//! The Go packages against the library (L02): artifacts go across and come back; see
//! specs/GoSide.tla.  The Go half is harness/gofront, named by VP_GO_EXE.
use expander_compiler::circuit::config::{BN254Config, CircuitField, Config, GF2Config, M31Config};
use expander_compiler::circuit::ir::{hint_normalized, source};
use expander_compiler::circuit::layered::{self, witness::Witness, NormalInputType};
use expander_compiler::compile;
use expander_compiler::field::Field;
use expander_compiler::vp::gen::{self, Lvl, Rng};
use expander_compiler::vp::prog::*;
use expander_compiler::vp::{par, pipe};
use ethnum::U256;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vpshim::ExpSerde;

pub type F<C> = CircuitField<C>;
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn ok_for_go<T: Field>(p: &Prog<T>) -> bool {
    p.c.iter().all(|c| c.i.iter().all(|x| !matches!(x, I::UBin { .. } | I::USel(..) | I::ToBin { .. } | I::Expr(_))))
}
fn generated<C: Config>(r: &mut Rng, custom: bool) -> (Prog<F<C>>, Vec<F<C>>, Vec<F<C>>) {
    loop {
        let mut o = pipe::opts(r, Lvl::Source, gen::is_tiny::<F<C>>());
        if !custom {
            o.custom = false;
            o.rnd = false;
        }
        let (p, xs, pubs) = gen::prog::<F<C>>(r, &o);
        if ok_for_go(&p) {
            return (p, xs, pubs);
        }
    }
}
/// a source circuit as the Go packages hold it
fn go_insn<T: Field>(x: &I<T>) -> Value {
    let d = |x: &T| x.to_u256().to_string();
    let mut v = json!({"t": 0, "X": 0, "Y": 0, "in": [], "no": 0, "e": "0", "cf": [], "c": ""});
    match x {
        I::Lin { t, c } => {
            v["t"] = json!(1);
            v["in"] = json!(t.iter().map(|(_, i)| i).collect::<Vec<_>>());
            v["cf"] = json!(t.iter().map(|(a, _)| d(a)).collect::<Vec<_>>());
            v["c"] = json!(d(c));
        }
        I::Mul(a) => {
            v["t"] = json!(2);
            v["in"] = json!(a);
        }
        I::Div { x, y, k } => {
            v["t"] = json!(3);
            v["X"] = json!(x);
            v["Y"] = json!(y);
            v["e"] = json!((*k as u8).to_string());
        }
        I::Bool { x, y, b } => {
            v["t"] = json!(4);
            v["X"] = json!(x);
            v["Y"] = json!(y);
            v["e"] = json!(b.to_string());
        }
        I::Isz(x) => {
            v["t"] = json!(5);
            v["X"] = json!(x);
        }
        I::Commit(a) => {
            v["t"] = json!(6);
            v["in"] = json!(a);
        }
        I::Hint { h, v: a, n } => {
            v["t"] = json!(7);
            v["e"] = json!(h.to_string());
            v["in"] = json!(a);
            v["no"] = json!(n);
        }
        I::Const(k) => {
            v["t"] = json!(8);
            match k {
                K::C(x) => v["c"] = json!(d(x)),
                K::R => v["e"] = json!("1"),
                K::P(i) => v["e"] = json!((i + 2).to_string()),
            }
        }
        I::Call { s, v: a, n } => {
            v["t"] = json!(9);
            v["e"] = json!(s.to_string());
            v["in"] = json!(a);
            v["no"] = json!(n);
        }
        I::Cust { g, v: a } => {
            v["t"] = json!(12);
            v["e"] = json!(g.to_string());
            v["in"] = json!(a);
        }
        _ => unreachable!(),
    }
    v
}
fn src<C: Config>(r: &mut Rng) -> Value {
    let (p, _, _) = generated::<C>(r, true);
    let mut cs = serde_json::Map::new();
    for (id, c) in p.ids.iter().zip(&p.c) {
        cs.insert(
            id.to_string(),
            json!({"i": c.i.iter().map(go_insn).collect::<Vec<_>>(), "k": c.k.iter().map(|(t, v)| json!([t, v])).collect::<Vec<_>>(), "z": c.z, "n": c.n}),
        );
    }
    json!({"kind": "src", "p": jmod::<F<C>>(), "cfg": C::CONFIG_ID, "npub": p.npub, "nz": p.nz, "c": cs, "prog": sorted(&p)})
}
/// circuits in the order of their identifiers
fn sorted<T: Field>(p: &Prog<T>) -> Value {
    let mut q = p.clone();
    let mut at: Vec<usize> = (0..p.ids.len()).collect();
    at.sort_by_key(|i| p.ids[*i]);
    q.ids = at.iter().map(|i| p.ids[*i]).collect();
    q.c = at.iter().map(|i| p.c[*i].clone()).collect();
    jprog(&q, true)
}
/// a number in one of the forms that an assignment may hold
fn num<T: Field>(r: &mut Rng, x: &T) -> Value {
    let (v, m) = (x.to_u256(), T::MODULUS);
    let f = r.pick(&["ptr", "big", "str", "hex", "oct", "bin", "val", "pval", "bytes", "int", "i64", "i32", "i16", "i8", "uint", "u64", "u32", "u16", "u8"]);
    let near = m - v < U256::from(1u32 << 15);
    match r.below(10) {
        0 => json!({"f": f, "v": (v + m).to_string()}),
        1 | 2 => json!({"f": f, "v": format!("-{}", m - v)}),
        // (what is close below the modulus is a small negative number)
        3..=6 if near => json!({"f": f, "v": format!("-{}", m - v)}),
        _ => json!({"f": f, "v": v.to_string()}),
    }
}
fn ws<C: Config>(r: &mut Rng) -> Value {
    let (h, l, xs, pubs) = loop {
        let (p, xs, pubs) = generated::<C>(r, false);
        let s = to_source::<C>(&p);
        let lv = r.range(1, 3);
        let x = catch_unwind(AssertUnwindSafe(|| {
            compile::compile_with_options::<C, NormalInputType>(&s, compile::CompileOptions::default().with_opt_level(lv)).ok()
        }));
        if let Ok(Some((h, l))) = x {
            let q = from_root(&h);
            let known = |h: usize| h == HINT_BASE + 1 || CUSTOM.iter().any(|c| hint_id(c) == h);
            if q.c.iter().all(|c| c.i.iter().all(|x| if let I::Hint { h, .. } = x { known(*h) } else { true })) {
                break (h, l, xs, pubs);
            }
        }
    };
    let (ni, np) = (h.input_size(), h.num_public_inputs);
    let pubs = if pubs.len() == np { pubs } else { vec![Default::default(); np] };
    let n = r.range(1, 4);
    let plant = if xs.len() == ni { xs } else { vec![] };
    let mut vs: Vec<Vec<F<C>>> = if plant.is_empty() { vec![] } else { gen::inputs(r, ni, &plant, n) };
    while vs.len() < n {
        vs.push((0..ni).map(|_| gen::val(r)).collect());
    }
    r.shuffle(&mut vs);
    vs.truncate(n);
    let asg: Vec<(Vec<F<C>>, Vec<F<C>>)> =
        vs.into_iter().map(|v| (v, pubs.iter().map(|p| if r.pct(70) { *p } else { gen::val(r) }).collect())).collect();
    let f = r.below(n);
    let (mut a, mut b) = (vec![], vec![]);
    h.serialize_into(&mut a).unwrap();
    l.serialize_into(&mut b).unwrap();
    json!({
        "kind": "ws", "p": jmod::<F<C>>(), "cfg": C::CONFIG_ID, "ws": hex(&a), "lay": hex(&b),
        "asg": asg.iter().map(|(x, p)| json!([x.iter().map(|v| num(r, v)).collect::<Vec<_>>(), p.iter().map(|v| num(r, v)).collect::<Vec<_>>()])).collect::<Vec<_>>(),
        "mixed": r.pct(50), "runs": [[0, n], [f, r.range(1, n - f)]],
        "hints": CUSTOM.iter().map(|c| (c.to_string(), json!(hint_id(c) as u32))).collect::<serde_json::Map<_, _>>(),
        "vals": asg.iter().map(|(x, p)| json!([jfs(x), jfs(p)])).collect::<Vec<_>>(),
        "circ": jprog(&from_root(&h), false), "raw": jprog(&from_root(&h), true), "lc": jlayered(&l),
    })
}
fn val<T: Field>(x: &Value) -> Value {
    let s = x.as_str().unwrap();
    if T::MODULUS <= U256::from(2147483647u32) {
        json!(s.parse::<i32>().ok().unwrap_or(-1))
    } else {
        json!(s)
    }
}
fn shown<C: Config>(x: &Value) -> Value {
    if x["said"] != "ok" {
        return json!({"said": x["said"], "msg": x["msg"].as_str().unwrap_or("")});
    }
    let vals = |k: &str| Value::Array(x[k].as_array().map(|a| a.iter().map(val::<F<C>>).collect()).unwrap_or(vec![]));
    let mut y = x.clone();
    y["v"] = vals("v");
    if x.get("outs").is_some() {
        y["outs"] = vals("outs");
    }
    let b = unhex(x["ser"].as_str().unwrap());
    let mut at: &[u8] = &b;
    y["lib"] = match catch_unwind(AssertUnwindSafe(|| Witness::<C>::deserialize_from(&mut at))) {
        Ok(Ok(w)) => {
            let v: Vec<F<C>> = w.iter_scalar().flat_map(|(a, b)| a.into_iter().chain(b).collect::<Vec<_>>()).collect();
            json!({"num": w.num_witnesses, "a": w.num_inputs_per_witness, "b": w.num_public_inputs_per_witness, "v": jfs(&v), "left": at.len()})
        }
        _ => json!({"none": true}),
    };
    y.as_object_mut().unwrap().remove("ser");
    y
}
fn answer<C: Config>(q: &Value, a: &Value) -> Value {
    if q["kind"] == "src" {
        let back = a["b"].as_str().map(|s| {
            let b = unhex(s);
            let mut at: &[u8] = &b;
            match catch_unwind(AssertUnwindSafe(|| source::RootCircuit::<C>::deserialize_from(&mut at))) {
                Ok(Ok(x)) if at.is_empty() => jprog(&from_root(&x), true),
                _ => json!({"none": true}),
            }
        });
        return json!({"kind": "src", "p": q["p"], "prog": q["prog"], "back": back.unwrap_or(json!({"none": true}))});
    }
    let back = a["read"]["b"].as_str().map(|s| {
        let b = unhex(s);
        let mut at: &[u8] = &b;
        match catch_unwind(AssertUnwindSafe(|| hint_normalized::RootCircuit::<C>::deserialize_from(&mut at))) {
            Ok(Ok(x)) if at.is_empty() => jprog(&from_root(&x), true),
            _ => json!({"none": true}),
        }
    });
    let list = |k: &str| Value::Array(a[k].as_array().map(|v| v.iter().map(shown::<C>).collect()).unwrap_or(vec![]));
    json!({
        "kind": "ws", "p": q["p"], "circ": q["circ"], "raw": q["raw"], "lc": q["lc"], "vals": q["vals"], "runs": q["runs"],
        "back": back.unwrap_or(json!({"none": true})), "laysame": a["readlay"]["b"] == q["lay"], "one": list("one"), "bat": list("bat"),
    })
}
pub fn run(seed: u64, count: usize, out: &str, only: Option<usize>) {
    vpshim::serdes_impl::ANY_ORDER.store(true, std::sync::atomic::Ordering::Relaxed);
    let qs = par::run(count, only, out, |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64));
        let cfg = r.below(3);
        let mut v = match (r.pct(35), cfg) {
            (true, 0) => src::<M31Config>(&mut r),
            (true, 1) => src::<BN254Config>(&mut r),
            (true, _) => src::<GF2Config>(&mut r),
            (_, 0) => ws::<M31Config>(&mut r),
            (_, 1) => ws::<BN254Config>(&mut r),
            _ => ws::<GF2Config>(&mut r),
        };
        v["id"] = json!(id);
        vec![v]
    });
    let lines = ask(qs, out, |q, a| match q["cfg"].as_u64().unwrap() {
        1 => answer::<M31Config>(q, a),
        2 => answer::<BN254Config>(q, a),
        _ => answer::<GF2Config>(q, a),
    });
    let n = lines.len();
    par::write(out, &lines, json!({"scenarios": n, "lines": n}));
}
/// the requests put to the Go side, and its answers
pub fn ask(qs: Vec<Value>, out: &str, answer: impl Fn(&Value, &Value) -> Value) -> Vec<Value> {
    let (ask, ans) = (format!("{out}.ask"), format!("{out}.ans"));
    // (a scenario that hangs or panics while it is generated passes through as it is)
    let (qs, odd): (Vec<Value>, Vec<Value>) = qs.into_iter().partition(|q| q.get("kind").is_some());
    std::fs::write(&ask, qs.iter().map(|q| q.to_string() + "\n").collect::<String>()).unwrap();
    let exe = std::env::var("VP_GO_EXE").expect("VP_GO_EXE");
    let st = std::process::Command::new(exe).arg(&ask).arg(&ans).status().unwrap();
    assert!(st.success(), "the Go side failed");
    let text = std::fs::read_to_string(&ans).unwrap();
    let answers: Vec<Value> = text.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    assert_eq!(answers.len(), qs.len());
    let mut lines: Vec<Value> = qs
        .iter()
        .zip(&answers)
        .map(|(q, a)| {
            let mut v = answer(q, a);
            v["id"] = q["id"].clone();
            v
        })
        .collect();
    lines.extend(odd);
    let _ = std::fs::remove_file(ask);
    let _ = std::fs::remove_file(ans);
    lines
}
