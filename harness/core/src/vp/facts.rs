//! Validation (C09, C10), determinism (C08), statistics (C11) and export (C12) of generated
//! programs and circuits. See specs/Facts.tla for what is checked.
use super::fields::*;
use super::gen::{self, iu, Lvl, Rng};
use super::pipe::{dest_strict, opts, panic_msg};
use super::prog::*;
use crate::circuit::config::Config;
use crate::circuit::ir::common::{IrConfig, RootCircuit};
use crate::circuit::ir::{dest, source};
use crate::circuit::layered::{self, Coef, CrossLayerInputType, Input, InputType, InputUsize, NormalInputType};
use crate::compile::{self, CompileOptions};
use crate::field::{Field, FieldArith};
use crate::layering;
use crate::utils::error::Error;
use serde_json::{json, Value};
use serdes::ExpSerde;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn verdict<R>(f: impl FnOnce() -> Result<R, Error>) -> (&'static str, String) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(_)) => ("ok", String::new()),
        Ok(Err(e)) => ("err", format!("{e:?}").chars().take(160).collect()),
        Err(e) => ("panic", panic_msg(&e)),
    }
}

// ---------------------------------------------------------------- C09
fn num_vars<T>(c: &Circ<T>) -> usize {
    c.n + c.i.iter().map(|x| x.num_outputs()).sum::<usize>()
}
fn bad_var(r: &mut Rng, max: usize) -> usize {
    match r.below(5) {
        0 => 0,
        1 | 2 => max + 1,
        3 => max + 2,
        _ => max + 1000,
    }
}
/// a reference to a variable of instruction `i`
fn var_slot<'a, T>(r: &mut Rng, i: &'a mut I<T>) -> Option<&'a mut usize> {
    match i {
        I::Lin { t, .. } if !t.is_empty() => {
            let k = r.below(t.len());
            Some(&mut t[k].1)
        }
        I::Mul(v) | I::Commit(v) | I::Hint { v, .. } | I::Call { v, .. } | I::Cust { v, .. } if !v.is_empty() => {
            let k = r.below(v.len());
            Some(&mut v[k])
        }
        I::Div { x, y, .. } | I::Bool { x, y, .. } | I::UBin { x, y, .. } => Some(if r.pct(50) { x } else { y }),
        I::Isz(x) | I::ToBin { x, .. } => Some(x),
        I::USel(a, b, c) => Some(match r.below(3) {
            0 => a,
            1 => b,
            _ => c,
        }),
        I::Expr(t) if !t.is_empty() => {
            let k = r.below(t.len());
            match &mut t[k].1 {
                Tm::C => None,
                Tm::L(x) | Tm::R(x) => Some(x),
                Tm::Q(x, y) => Some(if r.pct(50) { x } else { y }),
                Tm::U(_, v) => {
                    let k = r.below(v.len());
                    Some(&mut v[k])
                }
            }
        }
        _ => None,
    }
}
/// breaks (or at least changes) something
fn mutate<T: Field>(r: &mut Rng, p: &mut Prog<T>, source: bool) -> &'static str {
    let ci = r.below(p.c.len());
    let nv = num_vars(&p.c[ci]);
    let n = p.c[ci].n;
    match r.below(if source { 23 } else { 22 }) {
        22 => {
            let v = if r.pct(50) { 1 + r.below(nv) } else { bad_var(r, nv) };
            p.c[ci].i.push(I::Commit(vec![v]));
            "commit"
        }
        0..=3 => {
            // a variable that is not yet defined
            let c = &mut p.c[ci];
            if c.i.is_empty() {
                return "none";
            }
            let k = r.below(c.i.len());
            let before = n + c.i[..k].iter().map(|x| x.num_outputs()).sum::<usize>();
            let b = if r.pct(40) && nv > before { before + 1 + r.below(nv - before) } else { bad_var(r, before) };
            if let Some(x) = var_slot(r, &mut c.i[k]) {
                *x = b;
            }
            "operand"
        }
        4 => {
            if !p.c[ci].k.is_empty() {
                let k = r.below(p.c[ci].k.len());
                p.c[ci].k[k].1 = bad_var(r, nv);
            } else {
                p.c[ci].k.push((1, bad_var(r, nv)));
            }
            "constraint"
        }
        5 => {
            let b = bad_var(r, nv);
            let k = r.below(p.c[ci].z.len() + 1);
            if k < p.c[ci].z.len() {
                p.c[ci].z[k] = b;
            } else {
                p.c[ci].z.push(b);
            }
            "output"
        }
        6..=9 => {
            // calls
            let mut at = vec![];
            for (a, c) in p.c.iter().enumerate() {
                for (b, i) in c.i.iter().enumerate() {
                    if matches!(i, I::Call { .. }) {
                        at.push((a, b));
                    }
                }
            }
            if at.is_empty() {
                return "none";
            }
            let (a, b) = r.pick(&at);
            let ids = p.ids.clone();
            let own = ids[a];
            let w = r.below(7);
            if let I::Call { s, v, n } = &mut p.c[a].i[b] {
                match w {
                    0 => {
                        v.pop();
                    }
                    1 => v.push(1),
                    2 => *n += 1,
                    3 => *n = n.saturating_sub(1),
                    4 => *s = r.below(1 << 50),
                    5 => *s = r.pick(&ids),
                    _ => *s = own,
                }
            }
            "call"
        }
        10 => {
            // a call back: maybe a cycle
            if p.c.len() < 2 {
                return "none";
            }
            let a = r.below(p.c.len());
            let b = r.below(p.c.len());
            let k = r.below(p.c[a].i.len() + 1);
            let id = p.ids[b];
            let args = vec![1; p.c[b].n];
            let no = p.c[b].z.len();
            p.c[a].i.insert(k, I::Call { s: id, v: args, n: no });
            "call back"
        }
        11 => {
            // the circuit that something may call is gone
            let k = r.below(p.c.len());
            p.ids.remove(k);
            p.c.remove(k);
            "circuit removed"
        }
        12 => {
            p.c[0].z.clear();
            if r.pct(60) {
                for c in p.c.iter_mut() {
                    if r.pct(70) {
                        c.k.clear();
                    }
                }
            }
            if r.pct(70) {
                p.nz = 0;
            }
            "no outputs"
        }
        13 => {
            p.nz = p.c[0].z.len() + r.below(2);
            "zero outputs"
        }
        14 => {
            // operand counts
            let c = &mut p.c[ci];
            if c.i.is_empty() {
                return "none";
            }
            let k = r.below(c.i.len());
            let keep = r.below(2);
            match &mut c.i[k] {
                I::Mul(v) => v.truncate(keep),
                I::Hint { v, .. } | I::Cust { v, .. } => v.truncate(keep),
                I::ToBin { n, .. } => *n = 0,
                _ => {}
            }
            "operands"
        }
        15 => {
            let c = &mut p.c[ci];
            let Some(k) = c.i.iter().position(|x| matches!(x, I::Hint { .. } | I::ToBin { .. })) else { return "none" };
            match &mut c.i[k] {
                I::Hint { v, n, .. } => match r.below(5) {
                    0 => *n = 0,
                    1 => *n += 1,
                    2 => v.push(1),
                    3 => {
                        v.pop();
                    }
                    _ => v.clear(),
                },
                I::ToBin { n, .. } => *n = r.below(3),
                _ => {}
            }
            "hint shape"
        }
        16 => {
            let npub = p.npub;
            let c = &mut p.c[ci];
            let at = r.below(c.i.len() + 1);
            if at == c.i.len() {
                c.i.push(I::Const(K::P(npub + r.below(2))));
            } else {
                match &mut c.i[at] {
                    I::Const(k) => *k = K::P(npub + r.below(2)),
                    _ => p.npub = p.npub.saturating_sub(1),
                }
            }
            "public input"
        }
        17 => {
            p.npub = r.below(3);
            "public inputs"
        }
        18 => {
            let c = &mut p.c[ci];
            c.n = r.below(c.n + 2);
            "inputs"
        }
        19 => {
            let c = &mut p.c[ci];
            if !c.i.is_empty() {
                let k = r.below(c.i.len());
                c.i.remove(k);
            }
            "instruction removed"
        }
        20 => {
            let c = &mut p.c[ci];
            if let Some(z) = c.z.first().cloned() {
                c.z.push(z);
            }
            "repeated output"
        }
        _ => {
            let c = &mut p.c[ci];
            if let Some(k) = c.k.first().cloned() {
                c.k.push(k);
            }
            "repeated constraint"
        }
    }
}
fn strict_dest<C: Config>(d: dest::RootCircuitRelaxed<C>) -> dest::RootCircuit<C> {
    dest::RootCircuit::<C> {
        num_public_inputs: d.num_public_inputs,
        expected_num_output_zeroes: d.expected_num_output_zeroes,
        circuits: d
            .circuits
            .into_iter()
            .map(|(k, c)| {
                (
                    k,
                    dest::Circuit::<C> {
                        instructions: c.instructions,
                        constraints: c.constraints,
                        outputs: c.outputs,
                        num_inputs: c.num_inputs,
                    },
                )
            })
            .collect(),
    }
}
fn vline<C: Config, R: IrConfig<Config = C>>(form: &str, x: &RootCircuit<R>) -> Value
where
    R::Instruction: ToI<C>,
    R::Constraint: ToK,
{
    let p: Prog<F<C>> = from_root(x);
    let (v, msg) = verdict(|| x.validate());
    json!({"form": form, "circ": jprog(&p, false), "root": p.ids.first() == Some(&0), "said": v, "msg": msg})
}
fn c09<C: Config>(r: &mut Rng) -> Value {
    let form = r.pick(&["source", "source", "source", "hn", "hl", "relaxed", "strict", "strict"]);
    let lvl = match form {
        "source" => Lvl::Source,
        "hn" => Lvl::Hn,
        "hl" => Lvl::Hl,
        _ => Lvl::Dest,
    };
    let o = opts(r, lvl, gen::is_tiny::<F<C>>());
    let (mut p, _, _) = if form == "strict" && r.pct(60) {
        match dest_strict::<C>(r, gen::is_tiny::<F<C>>(), r.clone().pct(50)) {
            Some((p, a, b, _)) => (p, a, b),
            None => gen::prog::<F<C>>(r, &o),
        }
    } else {
        gen::prog::<F<C>>(r, &o)
    };
    let mut what = vec![];
    for _ in 0..[0, 1, 1, 1, 1, 2][r.below(6)] {
        if !p.c.is_empty() {
            what.push(mutate(r, &mut p, form == "source"));
        }
    }
    let mut v = match form {
        "source" => {
            let s: source::RootCircuit<C> = to_source(&p);
            let mut v = vline::<C, _>(form, &s);
            if v["said"] != "ok" {
                let (w, msg) = if r.pct(50) {
                    verdict(|| compile::compile_with_options::<C, NormalInputType>(&s, CompileOptions::default().with_opt_level(r.range(1, 3))))
                } else {
                    verdict(|| compile::compile_with_options::<C, CrossLayerInputType>(&s, CompileOptions::default().with_opt_level(r.range(1, 3))))
                };
                v["compiled"] = json!(w);
                v["cmsg"] = json!(msg);
            }
            v
        }
        "hn" => vline::<C, _>(form, &to_hn::<C>(&p)),
        "hl" => vline::<C, _>(form, &to_hl::<C>(&p)),
        "relaxed" => vline::<C, _>(form, &to_dest::<C>(&p)),
        _ => vline::<C, _>(form, &strict_dest::<C>(to_dest::<C>(&p))),
    };
    v["kind"] = json!("prog");
    v["what"] = json!(what.join(", "));
    v
}

// ---------------------------------------------------------------- layered circuits
fn some_layered<C: Config, I_: InputType + 'static>(r: &mut Rng) -> layered::Circuit<C, I_> {
    loop {
        if r.pct(55) {
            let mut l = gen::layered::<C, I_>(r);
            if r.pct(30) {
                sprinkle(r, &mut l);
            }
            return l;
        }
        let tiny = gen::is_tiny::<F<C>>();
        let Some((_, _, _, d)) = dest_strict::<C>(r, tiny, I_::CROSS_LAYER_RELAY) else { continue };
        let l3 = r.range(0, 3);
        let x = catch_unwind(AssertUnwindSafe(|| {
            let l = layering::compile::<C, I_>(&d, layering::CompileOptions { allow_input_reorder: true }).0;
            if l3 == 0 {
                Some(l)
            } else {
                compile::compile_step_3(l, CompileOptions::default().with_opt_level(l3)).ok()
            }
        }));
        if let Ok(Some(l)) = x {
            return l;
        }
    }
}
/// random coefficients and custom gates here and there
fn sprinkle<C: Config, I_: InputType>(r: &mut Rng, l: &mut layered::Circuit<C, I_>) {
    let k = r.below(l.segments.len());
    let s = &mut l.segments[k];
    if let Some(g) = s.gate_adds.first().cloned() {
        s.gate_customs.push(layered::GateCustom {
            gate_type: hint_id("Identity"),
            inputs: vec![g.inputs[0]],
            output: g.output,
            coef: g.coef,
        });
        s.gate_adds[0].coef = Coef::Random;
    }
    if let Some(g) = s.gate_muls.last_mut() {
        if r.pct(50) {
            g.coef = Coef::Random;
        }
    }
    if r.pct(30) {
        if let Some(g) = s.gate_muls.first().cloned() {
            s.gate_customs.push(layered::GateCustom {
                gate_type: hint_id("BoolAnd"),
                inputs: g.inputs.to_vec(),
                output: g.output,
                coef: g.coef,
            });
        }
    }
}
fn inp<I_: InputType>(l: usize, o: usize) -> I_::Input {
    I_::Input::new(if I_::CROSS_LAYER_RELAY { l } else { 0 }, o)
}
const HUGE: usize = usize::MAX;
fn off_range(r: &mut Rng, n: usize) -> usize {
    match r.below(4) {
        0 | 1 => n,
        2 => n + 1 + r.below(5),
        _ => HUGE - r.below(3),
    }
}
fn mutate_lay<C: Config, I_: InputType>(r: &mut Rng, l: &mut layered::Circuit<C, I_>) -> &'static str {
    if l.segments.is_empty() || l.layer_ids.is_empty() {
        return "none";
    }
    let k = r.below(l.segments.len());
    let ns = l.segments.len();
    let npub = l.num_public_inputs;
    let sizes: Vec<(Vec<usize>, usize)> = l.segments.iter().map(|s| (s.num_inputs.to_vec(), s.num_outputs)).collect();
    let (ni, no) = sizes[k].clone();
    let dep = ni.len().max(1);
    let used = l.layer_ids.len();
    match r.below(20) {
        0..=3 => {
            // a gate's input or output out of range
            let s = &mut l.segments[k];
            let lay = if r.pct(30) { off_range(r, dep) } else { r.below(dep) };
            let off = if r.pct(60) { off_range(r, ni.get(lay).cloned().unwrap_or(1)) } else { r.below(*ni.get(lay).unwrap_or(&1)) };
            let x = inp::<I_>(lay, off);
            match r.below(7) {
                0 if !s.gate_muls.is_empty() => {
                    let q = r.below(s.gate_muls.len());
                    s.gate_muls[q].inputs[r.below(2)] = x;
                }
                1 if !s.gate_adds.is_empty() => {
                    let q = r.below(s.gate_adds.len());
                    s.gate_adds[q].inputs[0] = x;
                }
                2 if !s.gate_customs.is_empty() => {
                    let q = r.below(s.gate_customs.len());
                    let w = r.below(s.gate_customs[q].inputs.len().max(1));
                    if w < s.gate_customs[q].inputs.len() {
                        s.gate_customs[q].inputs[w] = x;
                    }
                }
                3 if !s.gate_muls.is_empty() => {
                    let q = r.below(s.gate_muls.len());
                    s.gate_muls[q].output = off_range(r, no);
                }
                4 if !s.gate_adds.is_empty() => {
                    let q = r.below(s.gate_adds.len());
                    s.gate_adds[q].output = off_range(r, no);
                }
                5 if !s.gate_consts.is_empty() => {
                    let q = r.below(s.gate_consts.len());
                    s.gate_consts[q].output = off_range(r, no);
                }
                6 if !s.gate_customs.is_empty() => {
                    let q = r.below(s.gate_customs.len());
                    s.gate_customs[q].output = off_range(r, no);
                }
                _ => {
                    // a gate that reads one more position
                    s.gate_adds.push(layered::Gate { inputs: [x], output: 0, coef: Coef::Constant(F::<C>::ONE) });
                }
            }
            "gate"
        }
        4 => {
            let s = &mut l.segments[k];
            let bad = Coef::PublicInput(npub + r.below(2));
            match r.below(4) {
                0 if !s.gate_muls.is_empty() => s.gate_muls[0].coef = bad,
                1 if !s.gate_adds.is_empty() => s.gate_adds[0].coef = bad,
                2 if !s.gate_customs.is_empty() => s.gate_customs[0].coef = bad,
                _ if !s.gate_consts.is_empty() => s.gate_consts[0].coef = bad,
                _ => l.num_public_inputs = r.below(npub + 1),
            }
            "coefficient"
        }
        5 => {
            let s = &mut l.segments[k];
            let mut v = ni.clone();
            if v.is_empty() {
                return "none";
            }
            match r.below(5) {
                0 if I_::CROSS_LAYER_RELAY => {
                    v.pop();
                }
                1 if I_::CROSS_LAYER_RELAY => v.push(1 << r.below(3)),
                2 => v[0] = 0,
                3 => v[0] = r.pick(&[3, 5, 6, 12]),
                _ => v[r.below(dep)] = 1 << r.below(4),
            }
            s.num_inputs = iu::<I_>(v);
            "input size"
        }
        6 => {
            l.segments[k].num_outputs = r.pick(&[0, 3, 5, 6, 1, 2, 4, 8]);
            "output size"
        }
        7..=10 => {
            // children
            let at: Vec<usize> = (0..ns).filter(|j| !l.segments[*j].child_segs.is_empty()).collect();
            if at.is_empty() || r.pct(20) {
                let sub = r.below(ns + 2);
                let (sn, so) = sizes.get(sub).cloned().unwrap_or((vec![1], 1));
                let a = layered::Allocation::<I_> { input_offset: iu::<I_>(vec![0; sn.len().max(1)]), output_offset: 0 };
                let _ = so;
                l.segments[k].child_segs.push((sub, vec![a]));
                return "child added";
            }
            let k = r.pick(&at);
            let s = &mut l.segments[k];
            let q = r.below(s.child_segs.len());
            let sub = s.child_segs[q].0;
            let Some((sn, so)) = sizes.get(sub).cloned() else { return "none" };
            if r.pct(25) {
                s.child_segs[q].0 = r.pick(&[k, k + 1, ns - 1, ns, HUGE, 0]);
                return "child id";
            }
            let al = &mut s.child_segs[q].1;
            if al.is_empty() {
                return "none";
            }
            let w = r.below(al.len());
            let mut off = al[w].input_offset.to_vec();
            let j = r.below(off.len().max(1));
            match r.below(6) {
                0 if j < off.len() => off[j] = off[j].saturating_add(r.range(1, 3)),
                1 if j < off.len() && sn[j] > 0 => off[j] = (HUGE / sn[j]) * sn[j] - if r.pct(50) { 0 } else { sn[j] },
                2 if j < off.len() => off[j] = ni.get(j).cloned().unwrap_or(8),
                3 if I_::CROSS_LAYER_RELAY => {
                    if r.pct(50) {
                        off.pop();
                    } else {
                        off.push(0);
                    }
                }
                4 => al[w].output_offset = al[w].output_offset.saturating_add(r.range(1, 3)),
                _ if so > 0 => {
                    al[w].output_offset = if r.pct(50) { sizes[k].1 } else { (HUGE / so) * so - if r.pct(50) { 0 } else { so } }
                }
                _ => {}
            }
            al[w].input_offset = iu::<I_>(off);
            "child place"
        }
        11 => {
            match r.below(4) {
                0 => l.layer_ids.clear(),
                1 => {
                    let w = r.below(used);
                    l.layer_ids[w] = r.pick(&[ns, HUGE, 0, ns - 1]);
                }
                2 => {
                    let w = r.below(used);
                    l.layer_ids.remove(w);
                }
                _ => {
                    let w = r.below(used);
                    let x = l.layer_ids[w];
                    l.layer_ids.push(x);
                }
            }
            "layers"
        }
        12 => {
            if used >= 2 {
                let (a, b) = (r.below(used), r.below(used));
                l.layer_ids.swap(a, b);
            }
            "layers swapped"
        }
        13..=16 => {
            // something that is read is no longer written
            let s = &mut l.segments[k];
            match r.below(4) {
                0 if !s.gate_consts.is_empty() => {
                    let q = r.below(s.gate_consts.len());
                    s.gate_consts.remove(q);
                }
                1 if !s.gate_adds.is_empty() => {
                    let q = r.below(s.gate_adds.len());
                    s.gate_adds.remove(q);
                }
                2 if !s.gate_muls.is_empty() => {
                    let q = r.below(s.gate_muls.len());
                    s.gate_muls.remove(q);
                }
                _ if !s.child_segs.is_empty() => {
                    let q = r.below(s.child_segs.len());
                    if r.pct(50) && !s.child_segs[q].1.is_empty() {
                        s.child_segs[q].1.pop();
                    } else {
                        s.child_segs.remove(q);
                    }
                }
                _ => {}
            }
            "unwritten"
        }
        17 => {
            let (a, b) = (r.below(ns), r.below(ns));
            l.segments.swap(a, b);
            "segments swapped"
        }
        18 => {
            l.segments.remove(k);
            "segment removed"
        }
        _ => {
            l.num_public_inputs = r.below(2);
            "public inputs"
        }
    }
}
/// numbers that TLC cannot hold, in sizes and offsets
fn clamp(v: &mut Value) {
    match v {
        Value::Number(n) => {
            let x = n.as_u64().unwrap_or(0);
            if x > 1 << 61 {
                *v = json!((1u64 << 30) - if x % 2 == 1 { 1 } else { 0 });
            }
        }
        Value::Array(a) => a.iter_mut().for_each(clamp),
        Value::Object(o) => o.values_mut().for_each(clamp),
        _ => {}
    }
}
fn c10<C: Config, I_: InputType + 'static>(r: &mut Rng) -> Value {
    let mut l = some_layered::<C, I_>(r);
    let mut what = vec![];
    for _ in 0..[0, 1, 1, 1, 1, 2][r.below(6)] {
        what.push(mutate_lay(r, &mut l));
    }
    let (v, msg) = verdict(|| l.validate());
    let mut c = jlayered(&l);
    clamp(&mut c);
    json!({"kind": "lay", "circ": c, "said": v, "msg": msg, "what": what.join(", ")})
}

// ---------------------------------------------------------------- C08
fn digest(b: &[u8]) -> String {
    use tiny_keccak::Hasher;
    let mut h = tiny_keccak::Keccak::v256();
    h.update(b);
    let mut o = [0u8; 32];
    h.finalize(&mut o);
    o[..12].iter().map(|x| format!("{x:02x}")).collect()
}
fn compiled<C: Config, I_: InputType + 'static>(s: &source::RootCircuit<C>, o: CompileOptions) -> Value {
    match catch_unwind(AssertUnwindSafe(|| compile::compile_with_options::<C, I_>(s, o))) {
        Err(e) => json!(["panic", panic_msg(&e).len() as u64 * 0]),
        Ok(Err(e)) => json!(["err", digest(format!("{e:?}").as_bytes())]),
        Ok(Ok((w, l))) => {
            let mut a = vec![];
            l.serialize_into(&mut a).unwrap();
            let mut b = vec![];
            crate::circuit::ir::hint_normalized::witness_solver::WitnessSolver::<C> { circuit: w }.serialize_into(&mut b).unwrap();
            json!([digest(&a), digest(&b)])
        }
    }
}
fn c08<C: Config>(r: &mut Rng, times: usize) -> Value {
    let mut o = opts(r, Lvl::Source, gen::is_tiny::<F<C>>());
    match r.below(4) {
        0 => {}
        1 => {
            o.max_circs = 6;
            o.max_in = 6;
        }
        2 => {
            o.max_circs = 3;
            o.max_insn = 24;
            o.max_in = 6;
        }
        _ => {
            o.max_circs = 8;
            o.max_insn = 12;
        }
    }
    let (p, _, _) = gen::prog::<F<C>>(r, &o);
    let lv = r.range(1, 3);
    let mut co = CompileOptions::default().with_opt_level(lv);
    let mut what = format!("opt {lv}");
    if r.pct(30) {
        let l = r.range(2, 4);
        co = co.with_mul_fanout_limit(l);
        what += &format!(" fanout {l}");
    }
    if r.pct(30) {
        co = co.without_input_reorder();
        what += " ordered";
    }
    let cross = r.pct(40);
    what += &format!(" cross {cross}");
    let mut runs = vec![];
    for _ in 0..times {
        // the same program, its circuits entered in some order
        let mut q = p.clone();
        for k in (1..q.ids.len()).rev() {
            let j = r.below(k + 1);
            q.ids.swap(k, j);
            q.c.swap(k, j);
        }
        let s: source::RootCircuit<C> = to_source(&q);
        runs.push(if cross { compiled::<C, CrossLayerInputType>(&s, co.clone()) } else { compiled::<C, NormalInputType>(&s, co.clone()) });
    }
    json!({"kind": "det", "what": what, "key": digest(jprog(&p, true).to_string().as_bytes()), "runs": runs,
        "prog": jprog(&p, true).to_string()})
}

// ---------------------------------------------------------------- C11
fn st_ir<C: Config, R: IrConfig<Config = C>>(form: &str, x: &RootCircuit<R>) -> Value
where
    R::Instruction: ToI<C>,
    R::Constraint: ToK,
{
    let p: Prog<F<C>> = from_root(x);
    let s = x.get_stats();
    json!({"kind": "irstats", "form": form, "circ": jprog(&p, false),
        "inputs": s.num_inputs, "insns": s.num_insns, "terms": s.num_terms, "vars": s.num_variables, "cons": s.num_constraints})
}
fn c11<C: Config>(r: &mut Rng) -> Value {
    let form = r.pick(&["source", "hn", "hl", "relaxed", "lay", "lay", "cross", "cross"]);
    if form == "lay" {
        return c11lay::<C, NormalInputType>(r);
    }
    if form == "cross" {
        return c11lay::<C, CrossLayerInputType>(r);
    }
    let lvl = match form {
        "source" => Lvl::Source,
        "hn" => Lvl::Hn,
        "hl" => Lvl::Hl,
        _ => Lvl::Dest,
    };
    let o = opts(r, lvl, gen::is_tiny::<F<C>>());
    let (mut p, _, _) = gen::prog::<F<C>>(r, &o);
    if r.pct(50) {
        p.prune();
    }
    match form {
        "source" => st_ir::<C, _>(form, &to_source::<C>(&p)),
        "hn" => st_ir::<C, _>(form, &to_hn::<C>(&p)),
        "hl" => st_ir::<C, _>(form, &to_hl::<C>(&p)),
        _ => st_ir::<C, _>(form, &to_dest::<C>(&p)),
    }
}
fn c11lay<C: Config, I_: InputType + 'static>(r: &mut Rng) -> Value {
    let l = some_layered::<C, I_>(r);
    let s = l.get_stats();
    json!({"kind": "laystats", "form": if I_::CROSS_LAYER_RELAY { "cross" } else { "lay" }, "circ": jlayered(&l),
        "cost": [C::COST_INPUT, C::COST_VARIABLE, C::COST_MUL, C::COST_ADD, C::COST_CONST],
        "layers": s.num_layers, "segments": s.num_segments, "inputs": s.num_inputs,
        "total": [s.num_total_mul, s.num_total_add, s.num_total_cst],
        "expanded": [s.num_expanded_mul, s.num_expanded_add, s.num_expanded_cst],
        "gates": s.num_total_gates, "used": s.num_used_gates, "tcost": s.total_cost})
}

// ---------------------------------------------------------------- C12
fn jexp<T: Field>(t: &expander_circuit::CoefType, c: &T) -> Value {
    match t {
        expander_circuit::CoefType::Constant => json!(["c", jf(c)]),
        expander_circuit::CoefType::Random => json!(["r"]),
        expander_circuit::CoefType::PublicInput(i) => json!(["p", i + 1]),
    }
}
fn jcross<T: Field>(t: &crosslayer_prototype::CoefType, c: &T) -> Value {
    match t {
        crosslayer_prototype::CoefType::Constant => json!(["c", jf(c)]),
        crosslayer_prototype::CoefType::Random => json!(["r"]),
        crosslayer_prototype::CoefType::PublicInput(i) => json!(["p", i + 1]),
    }
}
fn j0(o: usize) -> Value {
    json!([0, o])
}
fn c12n<C: Config>(r: &mut Rng) -> Value {
    let l = some_layered::<C, NormalInputType>(r);
    let many = l.segments.iter().any(|s| s.gate_customs.iter().any(|g| g.inputs.len() != 1));
    let e = catch_unwind(AssertUnwindSafe(|| l.export_to_expander::<C::FieldConfig>()));
    let mut v = json!({"kind": "export", "form": "lay", "circ": jlayered(&l), "many": many});
    match e {
        Err(e) => {
            v["said"] = json!("panic");
            v["msg"] = json!(panic_msg(&e));
        }
        Ok(x) => {
            v["said"] = json!("ok");
            v["exp"] = json!({
                "npub": x.num_public_inputs, "nact": x.num_outputs, "nz": x.expected_num_output_zeros,
                "l": x.layers.iter().map(|x| x + 1).collect::<Vec<_>>(),
                "s": x.segments.iter().map(|s| json!({
                    "ni": [1u64 << s.i_var_num.min(40)], "no": 1u64 << s.o_var_num.min(40),
                    "ch": s.child_segs.iter().map(|(id, al)| json!([id + 1,
                        al.iter().map(|a| json!([[a.i_offset], a.o_offset])).collect::<Vec<_>>()])).collect::<Vec<_>>(),
                    "m": s.gate_muls.iter().map(|g| json!([j0(g.i_ids[0]), j0(g.i_ids[1]), g.o_id, jexp(&g.coef_type, &g.coef)])).collect::<Vec<_>>(),
                    "a": s.gate_adds.iter().map(|g| json!([j0(g.i_ids[0]), g.o_id, jexp(&g.coef_type, &g.coef)])).collect::<Vec<_>>(),
                    "k": s.gate_consts.iter().map(|g| json!([g.o_id, jexp(&g.coef_type, &g.coef)])).collect::<Vec<_>>(),
                    "u": s.gate_uni.iter().map(|g| json!([hint_name(g.gate_type), g.i_ids.iter().map(|o| j0(*o)).collect::<Vec<_>>(), g.o_id, jexp(&g.coef_type, &g.coef)])).collect::<Vec<_>>(),
                })).collect::<Vec<_>>(),
            });
        }
    }
    v
}
fn c12x<C: Config>(r: &mut Rng) -> Value {
    let mut l = some_layered::<C, CrossLayerInputType>(r);
    // what the cross-layer backend can express: products and constants of the nearest layer,
    // relays with constant coefficients
    for s in l.segments.iter_mut() {
        s.gate_customs.clear();
        for g in s.gate_muls.iter_mut() {
            for i in g.inputs.iter_mut() {
                if i.layer != 0 {
                    *i = layered::CrossLayerInput { layer: 0, offset: 0 };
                }
            }
        }
        for g in s.gate_adds.iter_mut() {
            if g.inputs[0].layer != 0 && !matches!(g.coef, Coef::Constant(_)) {
                g.coef = Coef::Constant(F::<C>::from(5u32));
            }
        }
    }
    let e = catch_unwind(AssertUnwindSafe(|| l.export_to_expander::<C::FieldConfig>()));
    let mut v = json!({"kind": "export", "form": "cross", "circ": jlayered(&l), "many": false});
    match e {
        Err(e) => {
            v["said"] = json!("panic");
            v["msg"] = json!(panic_msg(&e));
        }
        Ok(x) => {
            v["said"] = json!("ok");
            v["exp"] = json!({
                "npub": x.num_public_inputs, "nact": x.num_outputs, "nz": x.expected_num_output_zeros,
                "l": x.layers.iter().map(|x| x + 1).collect::<Vec<_>>(),
                "s": x.segments.iter().map(|s| json!({
                    "ni": s.input_size, "no": s.output_size,
                    "ch": s.child_segs.iter().map(|(id, al)| json!([id + 1,
                        al.iter().map(|a| json!([a.i_offset, a.o_offset])).collect::<Vec<_>>()])).collect::<Vec<_>>(),
                    "m": s.gate_muls.iter().map(|g| json!([j0(g.i_ids[0]), j0(g.i_ids[1]), g.o_id, jcross(&g.coef_type, &g.coef)])).collect::<Vec<_>>(),
                    "a": s.gate_adds.iter().map(|g| json!([j0(g.i_ids[0]), g.o_id, jcross(&g.coef_type, &g.coef)]))
                        .chain(s.gate_relay.iter().map(|g| json!([[g.i_layer, g.i_id], g.o_id, ["c", jf(&g.coef)]]))).collect::<Vec<_>>(),
                    "k": s.gate_csts.iter().map(|g| json!([g.o_id, jcross(&g.coef_type, &g.coef)])).collect::<Vec<_>>(),
                    "u": [],
                })).collect::<Vec<_>>(),
            });
        }
    }
    v
}
/// what a compilation returns can be exported
fn c12c<C: Config>(r: &mut Rng) -> Value {
    let o = opts(r, Lvl::Source, gen::is_tiny::<F<C>>());
    let (p, _, _) = gen::prog::<F<C>>(r, &o);
    let s: source::RootCircuit<C> = to_source(&p);
    let lv = r.range(1, 3);
    let mut v = json!({"kind": "exportable", "what": format!("opt {lv}"), "said": "ok"});
    let e = catch_unwind(AssertUnwindSafe(|| compile::compile_with_options::<C, CrossLayerInputType>(&s, CompileOptions::default().with_opt_level(lv))));
    if let Ok(Ok((_, l))) = e {
        if l.segments.iter().all(|s| s.gate_customs.is_empty()) {
            let (a, msg) = verdict(|| Ok(l.export_to_expander::<C::FieldConfig>()));
            v["said"] = json!(a);
            v["msg"] = json!(msg);
        }
    }
    v
}

// ---------------------------------------------------------------- driver
fn one<C: Config>(prop: &str, r: &mut Rng, times: usize) -> Value {
    let mut v = match prop {
        "C08" => c08::<C>(r, times),
        "C09" => c09::<C>(r),
        "C10" => {
            if r.pct(50) {
                c10::<C, NormalInputType>(r)
            } else {
                c10::<C, CrossLayerInputType>(r)
            }
        }
        "C11" => c11::<C>(r),
        "C12" => match r.below(8) {
            0..=2 => c12n::<C>(r),
            3..=5 => c12x::<C>(r),
            _ => c12c::<C>(r),
        },
        p => panic!("no facts about {p}"),
    };
    v["p"] = jmod::<F<C>>();
    v
}
/// facts PROP SEED COUNT OUT [ONLY]
pub fn main(a: &[String]) {
    let prop = a[0].as_str();
    let seed: u64 = a[1].parse().unwrap();
    let count: usize = a[2].parse().unwrap();
    let out = &a[3];
    let only: Option<usize> = a.get(4).and_then(|x| x.parse().ok());
    let child = std::env::var("VP_CHILD").is_ok();
    let times = if child { 2 } else { 4 };
    // other processes, for what must not depend on the process
    let mut kids = vec![];
    if prop == "C08" && !child {
        for k in 0..2 {
            let o = format!("{out}.child{k}");
            let mut c = std::process::Command::new(std::env::current_exe().unwrap());
            c.arg("facts").args(&a[..3]).arg(&o).args(&a[4..]).env("VP_CHILD", "1");
            kids.push((o, c.spawn().unwrap()));
        }
    }
    let mut lines = super::par::run(count, only, out, |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64) ^ 0xfac7);
        let mut v = match r.below(if prop == "C08" { 4 } else { 3 }) {
            0 => one::<T7>(prop, &mut r, times),
            1 => one::<M31Config>(prop, &mut r, times),
            2 => one::<BN254Config>(prop, &mut r, times),
            _ => one::<T2>(prop, &mut r, times),
        };
        v["id"] = json!(id);
        vec![v]
    });
    for (o, mut k) in kids {
        let ok = k.wait().unwrap().success();
        let text = std::fs::read_to_string(&o).unwrap_or_default();
        let m: HashMap<u64, Value> = text.lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()).map(|v| (v["id"].as_u64().unwrap(), v)).collect();
        for l in lines.iter_mut() {
            match m.get(&l["id"].as_u64().unwrap()) {
                Some(v) if ok && v["runs"].is_array() && v["key"] == l["key"] => {
                    let more = v["runs"].as_array().unwrap().clone();
                    if let Some(r) = l["runs"].as_array_mut() {
                        r.extend(more);
                    }
                }
                _ => l["lost"] = json!(true),
            }
        }
        for s in ["", ".sum", ".at"] {
            let _ = std::fs::remove_file(format!("{o}{s}"));
        }
    }
    if !child {
        // the text of a program is only there to be read by people
        for l in lines.iter_mut() {
            let same = l["runs"].as_array().map(|r| r.windows(2).all(|w| w[0] == w[1])).unwrap_or(true);
            if same {
                l.as_object_mut().map(|o| o.remove("prog"));
            }
        }
    }
    let mut kinds: HashMap<String, usize> = HashMap::new();
    for l in &lines {
        let k = format!("{} {} {}", l["kind"].as_str().unwrap_or("?"), l["form"].as_str().unwrap_or(""), l["said"].as_str().unwrap_or(""));
        *kinds.entry(k.trim().to_string()).or_default() += 1;
    }
    super::par::write(out, &lines, json!({"scenarios": count, "kinds": kinds}));
}
