//! Runs compiler passes on generated programs and records, for the model checker, every
//! program before and after each pass. See specs/Pipeline.tla for what is checked.
use super::fields::*;
use super::gen::{self, Lvl, Opts, Rng};
use super::prog::*;
use crate::builder;
use crate::circuit::config::Config;
use crate::circuit::input_mapping::{InputMapping, EMPTY};
use crate::circuit::ir::{dest, hint_less, hint_normalized, source};
use crate::circuit::layered::{self, CrossLayerInputType, InputType, NormalInputType};
use crate::circuit::layered::witness::{Witness, WitnessValues};
use crate::compile::{self, CompileOptions};
use crate::field::{Field, FieldArith};
use crate::layering;
use crate::utils::error::Error;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

pub enum Via {
    Im(InputMapping),
    Outs,
    Id,
}
type Eval<T> = Box<dyn Fn(&[T], &[T], &mut dyn FnMut() -> T) -> Res<T>>;
pub struct Stage<T> {
    name: String,
    from: usize,
    via: Via,
    kind: &'static str, // ir | wit | lay
    wf: &'static str,   // loose | strict | lay | none
    circ: Value,
    extra: Vec<(&'static str, Value)>,
    eval: Eval<T>,
}
pub struct Scenario<T: Field> {
    prop: &'static str,
    what: String,
    base_kind: &'static str,
    base: Value,
    base_eval: Eval<T>,
    n_in: usize,
    planted: Vec<T>,
    pubs: Vec<T>,
    stages: Vec<Stage<T>>,
    fails: Vec<Value>, // panics and errors
    extra: Vec<(&'static str, Value)>,
    more_inputs: Vec<Vec<T>>,
}

fn ev_prog<T: Field>(p: Prog<T>) -> Eval<T> {
    Box::new(move |xs, pubs, chal| Ev { p: &p, pubs, chal }.run(xs))
}
fn ev_wit<T: Field>(p: Prog<T>) -> Eval<T> {
    Box::new(move |xs, pubs, chal| {
        let (st, out) = Ev { p: &p, pubs, chal }.outs(xs);
        Res { st, ok: st == St::Ok, out }
    })
}
fn ev_lay<C: Config, I_: InputType + 'static>(l: layered::Circuit<C, I_>) -> Eval<F<C>> {
    Box::new(move |xs, pubs, chal| run_layered(&l, xs, pubs, chal))
}

impl<T: Field> Scenario<T> {
    fn new(prop: &'static str, what: String, p: &Prog<T>, planted: Vec<T>, pubs: Vec<T>) -> Self {
        Scenario {
            prop,
            what,
            base_kind: "ir",
            base: jprog(p, false),
            base_eval: ev_prog(p.clone()),
            n_in: p.c[0].n,
            planted,
            pubs,
            stages: vec![],
            fails: vec![],
            extra: vec![],
            more_inputs: vec![],
        }
    }
    /// runs `f`; a panic or error is recorded against `name`
    fn guard<R>(&mut self, name: &str, f: impl FnOnce() -> Result<R, Error>) -> Option<R> {
        let r = catch_unwind(AssertUnwindSafe(f));
        match r {
            Ok(Ok(x)) => Some(x),
            Ok(Err(e)) => {
                let internal = e.is_internal();
                let msg = format!("{e:?}");
                let noin = !internal && msg.contains("circuit has no inputs");
                let dz = !internal && msg.contains("division by zero constant");
                let empty = !internal && msg.contains("should have constraints or outputs");
                self.fails.push(json!({"name": name,
                    "how": if internal {"internal"} else if noin {"noinputs"} else if empty {"empty"} else if dz {"divzero"} else {"user"},
                    "msg": msg.chars().take(200).collect::<String>()}));
                None
            }
            Err(e) => {
                self.fails.push(json!({"name": name, "how": "panic", "msg": panic_msg(&e)}));
                None
            }
        }
    }
    fn add(&mut self, name: &str, from: usize, via: Via, kind: &'static str, wf: &'static str, circ: Value, eval: Eval<T>) -> usize {
        self.stages.push(Stage { name: name.to_string(), from, via, kind, wf, circ, extra: vec![], eval });
        self.stages.len()
    }
    fn add_p(&mut self, name: &str, from: usize, via: Via, wf: &'static str, p: Prog<T>) -> usize {
        let c = jprog(&p, false);
        self.add(name, from, via, "ir", wf, c, ev_prog(p))
    }
    fn note(&mut self, k: &'static str, v: Value) {
        self.stages.last_mut().unwrap().extra.push((k, v));
    }

    /// (suspicious, interest): does the screening evaluator see a difference?
    fn screen(&self, ins: &[Vec<T>]) -> (Option<String>, usize) {
        let mut lcg = 88172645463325252u64;
        let mut acc = 0;
        let mut rej = 0;
        let tiny = gen::is_tiny::<T>();
        let mut bad: Option<String> = None;
        let mut any_acc = false;
        let mut any_defined = false;
        let rnd = has_random(&self.base);
        for x in ins {
            let mut z = || {
                lcg ^= lcg << 13;
                lcg ^= lcg >> 7;
                lcg ^= lcg << 17;
                T::from(((lcg >> 20) & 0xffffff) as u32)
            };
            let r0 = (self.base_eval)(x, &self.pubs, &mut z);
            if r0.st == St::Undef {
                continue;
            }
            any_defined |= r0.st == St::Ok && !DZ.with(|d| d.get());
            let mut acc0 = r0.st == St::Ok && r0.ok;
            // which outputs are random
            let mut fixed = vec![true; r0.out.len()];
            let mut same = r0.out.iter().map(|a| r0.out.iter().map(|b| a == b).collect::<Vec<_>>()).collect::<Vec<_>>();
            for _ in 0..if tiny { 30 } else { 3 } {
                if !rnd {
                    break;
                }
                let q = (self.base_eval)(x, &self.pubs, &mut z);
                acc0 &= q.ok;
                for i in 0..fixed.len() {
                    fixed[i] &= q.out[i] == r0.out[i];
                    for j in 0..fixed.len() {
                        same[i][j] &= q.out[i] == q.out[j];
                    }
                }
            }
            let differs = |out: &[T]| {
                out.len() != r0.out.len()
                    || (0..out.len()).any(|i| {
                        (fixed[i] && out[i] != r0.out[i])
                            || (!fixed[i] && (0..i).any(|j| same[i][j] != (out[i] == out[j])))
                    })
            };
            any_acc |= acc0;
            if acc0 {
                acc += 1
            } else {
                rej += 1
            }
            let mut at: Vec<Option<Vec<T>>> = vec![Some(x.clone())];
            for s in self.stages.iter() {
                let mut chal = || {
                    lcg ^= lcg << 13;
                    lcg ^= lcg >> 7;
                    lcg ^= lcg << 17;
                    T::from(((lcg >> 20) & 0xffffff) as u32)
                };
                let xin = match (&at[s.from], &s.via) {
                    (None, _) => None,
                    (Some(v), Via::Im(im)) => Some(im.map_inputs(v)),
                    (Some(v), Via::Id) => Some(v.clone()),
                    (Some(v), Via::Outs) => {
                        let r = (self.stages[s.from - 1].eval)(v, &self.pubs, &mut chal);
                        if r.st == St::Ok {
                            Some(r.out)
                        } else {
                            None
                        }
                    }
                };
                at.push(xin.clone());
                let Some(xi) = xin else {
                    if acc0 {
                        bad = Some(format!("{}: witness rejected", s.name));
                    }
                    continue;
                };
                if s.kind == "wit" {
                    let r = (s.eval)(&xi, &self.pubs, &mut chal);
                    if acc0 && r.st != St::Ok {
                        bad = Some(format!("{}: witness rejects", s.name));
                    }
                    continue;
                }
                let tries = if acc0 { 2 } else if tiny { 60 } else { 1 };
                let mut ok_all = true;
                let mut ok_any = true;
                for _ in 0..tries {
                    let r = (s.eval)(&xi, &self.pubs, &mut chal);
                    let a = r.st == St::Ok && r.ok;
                    ok_all &= a;
                    if !a {
                        ok_any = false;
                    }
                    if r0.st == St::Ok && (r.st != St::Ok || differs(&r.out)) {
                        bad = Some(format!("{}: outputs", s.name));
                    }
                    if !a {
                        break;
                    }
                }
                if acc0 && !ok_all {
                    bad = Some(format!("{}: rejected", s.name));
                }
                if !acc0 && ok_any {
                    bad = Some(format!("{}: accepted", s.name));
                }
            }
        }
        for f in self.fails.iter() {
            let how = f["how"].as_str().unwrap();
            let empty_ok = self.base_kind == "ir" && self.base["c"][0]["z"] == json!([]) && rej == 0;
            if how == "panic"
                || how == "internal"
                || (how == "user" && any_acc)
                || (how == "divzero" && any_defined)
                || (how == "empty" && !empty_ok)
            {
                bad = Some(format!("{}: {} {}", f["name"], how, f["msg"]));
            }
        }
        (bad, if acc > 0 && rej > 0 { 3 } else if acc > 0 { 2 } else if self.stages.is_empty() { 0 } else { 1 })
    }
    fn line(&self, id: usize, cfg: &str, ins: &[Vec<T>]) -> Value {
        let mut v = json!({
            "id": id, "prop": self.prop, "what": self.what, "cfg": cfg, "p": jmod::<T>(), "pub": jfs(&self.pubs),
            "ins": ins.iter().map(|x| jfs(x)).collect::<Vec<_>>(),
            "kind": self.base_kind, "circ": self.base,
            "fails": self.fails,
            "rnd": has_random(&self.base),
            "tiny": gen::is_tiny::<T>(),
            "stages": self.stages.iter().map(|s| {
                let mut o = json!({"name": s.name, "from": s.from, "kind": s.kind, "wf": s.wf, "circ": s.circ, "rnd": has_random(&s.circ)});
                match &s.via {
                    Via::Im(im) => {
                        o["via"] = json!("im");
                        o["im"] = jim(im);
                    }
                    Via::Outs => o["via"] = json!("outs"),
                    Via::Id => o["via"] = json!("id"),
                }
                for (k, x) in s.extra.iter() {
                    o[*k] = x.clone();
                }
                o
            }).collect::<Vec<_>>(),
        });
        for (k, x) in self.extra.iter() {
            v[*k] = x.clone();
        }
        v
    }
}
pub fn jim(im: &InputMapping) -> Value {
    json!({"next": im.next_size(), "m": im.mapping().iter().map(|&x| if x == EMPTY { 0 } else { x + 1 }).collect::<Vec<_>>()})
}
pub use super::par::panic_msg;

// ---------------------------------------------------------------- the scenarios, by property
fn sizes(r: &mut Rng, tiny: bool) -> (usize, usize, usize) {
    // circuits, inputs, instructions
    match r.below(4) {
        0 => (1, 2, 4),
        1 => (3, 3, 6),
        2 => (4, 3, 9),
        _ => (2, if tiny { 2 } else { 4 }, 14),
    }
}
pub fn opts(r: &mut Rng, lvl: Lvl, tiny: bool) -> Opts {
    let (max_circs, max_in, max_insn) = sizes(r, tiny);
    let rnd = !tiny && r.pct(25);
    Opts {
        lvl,
        max_circs,
        max_in,
        max_insn,
        max_pub: 2,
        hints: !rnd && r.pct(70),
        custom: !rnd && r.pct(15),
        nz: r.pct(40),
        div: !rnd && r.pct(70),
        rnd,
    }
}

fn sc_c02<C: Config>(r: &mut Rng) -> Scenario<F<C>> {
    let o = opts(r, Lvl::Source, gen::is_tiny::<F<C>>());
    let (p, xs, pubs) = gen::prog::<F<C>>(r, &o);
    let src: source::RootCircuit<C> = to_source(&p);
    let mut s = Scenario::new("C02", String::new(), &p, xs, pubs);
    let n = p.c[0].n;
    if let Some(x) = s.guard("detect_chains", || {
        let mut x = src.clone();
        x.detect_chains(); // may leave products of one factor for the next step to remove
        Ok(x)
    }) {
        s.add_p("detect_chains", 0, Via::Id, "none", from_root(&x));
    }
    for force in [false, true] {
        if let Some(x) = s.guard("reassign", || {
            let mut x = src.clone();
            x.reassign_duplicate_sub_circuit_outputs(force);
            x.validate()?;
            Ok(x)
        }) {
            s.add_p("reassign", 0, Via::Id, "loose", from_root(&x));
        }
    }
    let mut opt = None;
    if let Some((x, im)) = s.guard("remove_unreachable", || {
        let (x, im) = src.remove_unreachable();
        x.validate()?;
        Ok((x, im))
    }) {
        opt = Some((s.add_p("remove_unreachable", 0, Via::Im(im), "loose", from_root(&x)), x));
    }
    if let Some((k, x)) = opt {
        if let Some(h) = s.guard("hint_normalize", || {
            let h = builder::hint_normalize::process(&x)?;
            h.validate()?;
            Ok(h)
        }) {
            let j = s.add_p("hint_normalize", k, Via::Id, "loose", from_root(&h));
            if let Some((y, im)) = s.guard("hn.remove_unreachable", || {
                let (mut y, im) = h.remove_unreachable();
                y.reassign_duplicate_sub_circuit_outputs(false);
                y.validate()?;
                Ok((y, im))
            }) {
                s.add_p("hn.remove_unreachable", j, Via::Im(im), "loose", from_root(&y));
            }
        }
    }
    let lv = r.range(1, 3);
    if let Some((h, im)) =
        s.guard("compile_step_1", || compile::compile_step_1(&src, CompileOptions::default().with_opt_level(lv)))
    {
        s.add_p("compile_step_1", 0, Via::Im(im), "loose", from_root(&h));
    }
    s.what = format!("opt {lv} inputs {n}");
    s
}

fn sc_c03<C: Config>(r: &mut Rng) -> Scenario<F<C>> {
    // either a random hint-normalised program or one that the compiler made
    let tiny = gen::is_tiny::<F<C>>();
    let (p, xs, pubs, hn) = base_hn::<C>(r, tiny, false);
    let mut s = Scenario::new("C03", String::new(), &p, xs, pubs);
    if let Some((hl, wp)) = s.guard("remove_and_export_hints", || {
        let (a, b) = hn.remove_and_export_hints();
        a.validate()?;
        b.validate()?;
        Ok((a, b))
    }) {
        let w = from_root(&wp);
        let k = s.add("witness", 0, Via::Id, "wit", "loose", jprog(&w, false), ev_wit(w));
        s.add_p("hint_less", k, Via::Outs, "loose", from_root(&hl));
        s.note("hintcount", json!(true));
    }
    s
}
pub fn base_hn<C: Config>(r: &mut Rng, tiny: bool, prune: bool) -> (Prog<F<C>>, Vec<F<C>>, Vec<F<C>>, hint_normalized::RootCircuit<C>) {
    loop {
        if r.pct(50) {
            let mut o = opts(r, Lvl::Hn, tiny);
            o.hints = true;
            o.rnd = false;
            let (mut p, xs, pubs) = gen::prog::<F<C>>(r, &o);
            if prune {
                p.prune(); // earlier steps have removed uncalled circuits
            }
            let h = to_hn::<C>(&p);
            return (p, xs, pubs, h);
        }
        let mut o = opts(r, Lvl::Source, tiny);
        o.hints = true;
        o.rnd = false;
        let (p, xs, pubs) = gen::prog::<F<C>>(r, &o);
        let x = catch_unwind(AssertUnwindSafe(|| {
            let (h, im) = compile::compile_step_1(&to_source(&p), CompileOptions::default().with_opt_level(1)).ok()?;
            Some((h, im))
        }));
        if let Ok(Some((h, im))) = x {
            let p = from_root(&h);
            let xs = im.map_inputs(&xs);
            return (p, xs, pubs, h);
        }
    }
}
pub fn base_hl<C: Config>(r: &mut Rng, tiny: bool) -> (Prog<F<C>>, Vec<F<C>>, Vec<F<C>>, hint_less::RootCircuit<C>) {
    loop {
        if r.pct(50) {
            let o = opts(r, Lvl::Hl, tiny);
            let (mut p, xs, pubs) = gen::prog::<F<C>>(r, &o);
            p.prune(); // earlier steps have removed uncalled circuits
            let h = to_hl::<C>(&p);
            return (p, xs, pubs, h);
        }
        let (hp, xs, pubs, hn) = base_hn::<C>(r, tiny, true);
        let x = catch_unwind(AssertUnwindSafe(|| {
            let (hl, wp) = hn.remove_and_export_hints();
            hl.validate().ok()?;
            let w = from_root(&wp);
            let mut one = || F::<C>::ONE;
            let (st, v) = Ev { p: &w, pubs: &pubs, chal: &mut one }.outs(&xs);
            Some((hl.clone(), if st == St::Ok { v } else { vec![] }))
        }));
        if let Ok(Some((hl, v))) = x {
            if hl.input_size() <= 12 {
                return (from_root(&hl), v, pubs, hl);
            }
        }
    }
}
fn sc_c04<C: Config>(r: &mut Rng) -> Scenario<F<C>> {
    let tiny = gen::is_tiny::<F<C>>();
    if r.pct(35) {
        // expression programs
        let o = opts(r, Lvl::Dest, tiny);
        let (p, xs, pubs) = gen::prog::<F<C>>(r, &o);
        let d = to_dest::<C>(&p);
        let mut s = Scenario::new("C04", "dest".into(), &p, xs, pubs);
        let k = s.add_p("expressions", 0, Via::Id, "loose", from_root(&d));
        dest_passes(r, &mut s, k, &d);
        return s;
    }
    let (p, xs, pubs, hl) = base_hl::<C>(r, tiny);
    let mut s = Scenario::new("C04", "hl".into(), &p, xs, pubs);
    if let Some((x, im)) = s.guard("hl.remove_unreachable", || {
        let (mut y, im) = hl.remove_unreachable();
        y.reassign_duplicate_sub_circuit_outputs(false);
        y.validate()?;
        Ok((y, im))
    }) {
        s.add_p("hl.remove_unreachable", 0, Via::Im(im), "loose", from_root(&x));
    }
    if let Some(d) = s.guard("final_build", || {
        let d = builder::final_build_opt::process(&hl)?;
        d.validate()?;
        Ok(d)
    }) {
        let k = s.add_p("final_build", 0, Via::Id, "loose", from_root(&d));
        dest_passes(r, &mut s, k, &d);
    }
    let lv = r.range(1, 3);
    let copts = CompileOptions::default().with_opt_level(lv);
    if let Some((d, im)) = s.guard("compile_step_2", || compile::compile_step_2::<C, NormalInputType>(hl.clone(), copts.clone())) {
        s.add_p("compile_step_2", 0, Via::Im(im), "strict", from_root(&d));
    }
    if let Some((d, im)) =
        s.guard("compile_step_2x", || compile::compile_step_2::<C, CrossLayerInputType>(hl.clone(), copts.clone()))
    {
        s.add_p("compile_step_2x", 0, Via::Im(im), "strict", from_root(&d));
    }
    s
}
fn dest_passes<C: Config>(r: &mut Rng, s: &mut Scenario<F<C>>, k: usize, d: &dest::RootCircuitRelaxed<C>) {
    let (k, d) = match s.guard("dest.remove_unreachable", || {
        let (mut y, im) = d.remove_unreachable();
        y.reassign_duplicate_sub_circuit_outputs(false);
        y.validate()?;
        Ok((y, im))
    }) {
        Some((y, im)) => (s.add_p("dest.remove_unreachable", k, Via::Im(im), "loose", from_root(&y)), y),
        None => return,
    };
    let mut k = k;
    let mut d = d;
    if let Some(y) = s.guard("export_constraints", || {
        let y = d.export_constraints();
        y.validate()?;
        Ok(y)
    }) {
        let j = s.add_p("export_constraints", k, Via::Id, "loose", from_root(&y));
        s.note("nocon", json!(true));
        // without random combinations, splitting expects exported constraints
        if r.pct(50) || !C::ENABLE_RANDOM_COMBINATION {
            k = j;
            d = y;
        }
    } else {
        return;
    }
    if let Some(y) = s.guard("reassign_all", || {
        let mut y = d.clone();
        y.reassign_duplicate_sub_circuit_outputs(true);
        y.validate()?;
        Ok(y)
    }) {
        s.add_p("reassign_all", k, Via::Id, "loose", from_root(&y));
    }
    if let Some(y) = s.guard("split_to_single_layer", || {
        let y = layering::ir_split::split_to_single_layer(&d);
        y.validate()?;
        Ok(y)
    }) {
        let j = s.add_p("split_to_single_layer", k, Via::Id, "loose", from_root(&y));
        if let Some(z) = s.guard("solve_duplicates", || {
            let mut y = y.clone();
            y.reassign_duplicate_sub_circuit_outputs(true);
            let z = y.solve_duplicates();
            z.validate()?;
            Ok(z)
        }) {
            s.add_p("solve_duplicates", j, Via::Id, "strict", from_root(&z));
        }
    }
}
fn sc_c07<C: Config>(r: &mut Rng) -> Scenario<F<C>> {
    let tiny = gen::is_tiny::<F<C>>();
    if r.pct(40) {
        // as a part of circuit building (splitting may exceed the limit again, see DESIGN.md)
        let (p, xs, pubs, hl) = base_hl::<C>(r, tiny);
        let mut s = Scenario::new("C07", "step 2".into(), &p, xs, pubs);
        let lim = r.range(2, 4);
        let copts = CompileOptions::default().with_opt_level(r.range(1, 3)).with_mul_fanout_limit(lim);
        let cross = r.pct(50);
        if let Some((d, im)) = s.guard("compile_step_2", || {
            if cross {
                compile::compile_step_2::<C, CrossLayerInputType>(hl.clone(), copts.clone())
            } else {
                compile::compile_step_2::<C, NormalInputType>(hl.clone(), copts.clone())
            }
        }) {
            s.add_p(if cross { "compile_step_2x" } else { "compile_step_2" }, 0, Via::Im(im), "strict", from_root(&d));
        }
        return s;
    }
    let o = opts(r, Lvl::Dest, tiny);
    let (p, xs, pubs) = gen::prog::<F<C>>(r, &o);
    // many uses of few variables
    let d = to_dest::<C>(&p);
    let mut s = Scenario::new("C07", String::new(), &p, xs, pubs);
    for lim in [r.range(2, 3), r.range(3, 6)] {
        if let Some(y) = s.guard("solve_mul_fanout_limit", || {
            let y = d.solve_mul_fanout_limit(lim);
            y.validate()?;
            Ok(y)
        }) {
            s.add_p("solve_mul_fanout_limit", 0, Via::Id, "loose", from_root(&y));
            s.note("fanout", json!(lim));
        }
    }
    // refused limits
    let bad = r.below(2);
    let ok = catch_unwind(AssertUnwindSafe(|| {
        CompileOptions::default().with_mul_fanout_limit(bad).validate().is_err()
            && CompileOptions::default().with_mul_fanout_limit(bad + 2).validate().is_ok()
    }))
    .unwrap_or(false);
    s.extra.push(("refuses", json!(ok)));
    s
}
pub fn dest_strict<C: Config>(r: &mut Rng, tiny: bool, cross: bool) -> Option<(Prog<F<C>>, Vec<F<C>>, Vec<F<C>>, dest::RootCircuit<C>)> {
    let lv = r.range(1, 3);
    let copts = CompileOptions::default().with_opt_level(lv);
    let step2 = |hl: hint_less::RootCircuit<C>| {
        catch_unwind(AssertUnwindSafe(|| {
            if cross {
                compile::compile_step_2::<C, CrossLayerInputType>(hl, copts).ok()
            } else {
                compile::compile_step_2::<C, NormalInputType>(hl, copts).ok()
            }
        }))
        .ok()
        .flatten()
    };
    let (_, xs, pubs, hl) = base_hl::<C>(r, tiny);
    let (d, im) = step2(hl.clone())?;
    let xs = if xs.len() == hl.input_size() { im.map_inputs(&xs) } else { vec![] };
    Some((from_root(&d), xs, pubs, d))
}
fn sc_c05<C: Config>(r: &mut Rng) -> Scenario<F<C>> {
    let tiny = gen::is_tiny::<F<C>>();
    let cross = r.pct(45);
    let (p, xs, pubs, d) = loop {
        if let Some(x) = dest_strict::<C>(r, tiny, cross) {
            break x;
        }
    };
    let mut s = Scenario::new("C05", format!("cross {cross}"), &p, xs, pubs);
    for reorder in [true, false] {
        let name = if reorder { "layering" } else { "layering in input order" };
        let o = || layering::CompileOptions { allow_input_reorder: reorder };
        if cross {
            if let Some((l, im)) = s.guard(name, || {
                let (l, im) = layering::compile::<C, CrossLayerInputType>(&d, o());
                l.validate()?;
                Ok((l, im))
            }) {
                s.add(name, 0, Via::Im(im), "lay", "lay", jlayered(&l), ev_lay(l));
                s.note("order", json!(!reorder));
            }
        } else if let Some((l, im)) = s.guard(name, || {
            let (l, im) = layering::compile::<C, NormalInputType>(&d, o());
            l.validate()?;
            Ok((l, im))
        }) {
            s.add(name, 0, Via::Im(im), "lay", "lay", jlayered(&l), ev_lay(l));
            s.note("order", json!(!reorder));
        }
    }
    s
}
fn sc_c06<C: Config>(r: &mut Rng) -> Scenario<F<C>> {
    if r.pct(45) {
        sc_c06i::<C, CrossLayerInputType>(r)
    } else {
        sc_c06i::<C, NormalInputType>(r)
    }
}
pub fn base_lay<C: Config, I_: InputType + 'static>(r: &mut Rng, prop: &'static str) -> (Scenario<F<C>>, layered::Circuit<C, I_>) {
    let tiny = gen::is_tiny::<F<C>>();
    let (l, xs, pubs) = loop {
        if r.pct(50) {
            let l = gen::layered::<C, I_>(r);
            let pubs = (0..l.num_public_inputs).map(|_| gen::val(r)).collect();
            break (l, vec![], pubs);
        }
        let Some((_, xs, pubs, d)) = dest_strict::<C>(r, tiny, I_::CROSS_LAYER_RELAY) else { continue };
        let x = catch_unwind(AssertUnwindSafe(|| {
            layering::compile::<C, I_>(&d, layering::CompileOptions { allow_input_reorder: true })
        }));
        if let Ok((l, im)) = x {
            let xs = if xs.len() == d.input_size() { im.map_inputs(&xs) } else { vec![] };
            break (l, xs, pubs);
        }
    };
    let s = Scenario {
        prop,
        what: format!("cross {}", I_::CROSS_LAYER_RELAY),
        base_kind: "lay",
        base: jlayered(&l),
        base_eval: ev_lay(l.clone()),
        n_in: l.input_size(),
        planted: xs,
        pubs,
        stages: vec![],
        fails: vec![],
        extra: vec![],
        more_inputs: vec![],
    };
    (s, l)
}
fn sc_c06i<C: Config, I_: InputType + 'static>(r: &mut Rng) -> Scenario<F<C>> {
    let (mut s, l) = base_lay::<C, I_>(r, "C06");
    if s.guard("validate", || l.validate()).is_none() {
        return s;
    }
    type L<C, I_> = layered::Circuit<C, I_>;
    let passes: Vec<(&str, Box<dyn Fn(&L<C, I_>) -> L<C, I_>>)> = vec![
        ("dedup_gates", Box::new(|l| {
            let mut l = l.clone();
            l.dedup_gates();
            l
        })),
        ("expand_small_segments", Box::new(|l| l.expand_small_segments())),
        ("find_common_parts", Box::new(|l| l.find_common_parts())),
        ("sort_everything", Box::new(|l| {
            let mut l = l.clone();
            l.sort_everything();
            l
        })),
        ("dedup then common parts", Box::new(|l| {
            let mut l = l.clone();
            l.dedup_gates();
            l.find_common_parts()
        })),
        ("common parts then expand", Box::new(|l| {
            let mut l = l.clone();
            l.dedup_gates();
            l.find_common_parts().expand_small_segments()
        })),
    ];
    for (name, f) in passes {
        if let Some(x) = s.guard(name, || {
            let x = f(&l);
            x.validate()?;
            Ok(x)
        }) {
            s.add(name, 0, Via::Id, "lay", "lay", jlayered(&x), ev_lay(x));
            s.note("iface", json!(true));
        }
    }
    let lv = r.range(1, 3);
    if let Some(x) = s.guard("compile_step_3", || {
        compile::compile_step_3(l.clone(), CompileOptions::default().with_opt_level(lv))
    }) {
        s.add("compile_step_3", 0, Via::Id, "lay", "lay", jlayered(&x), ev_lay(x));
        s.note("iface", json!(true));
    }
    s
}
/// batched evaluation
fn sc_w03<C: Config>(r: &mut Rng) -> Scenario<F<C>> {
    if r.pct(45) {
        sc_w03i::<C, CrossLayerInputType>(r)
    } else {
        sc_w03i::<C, NormalInputType>(r)
    }
}
fn sc_w03i<C: Config, I_: InputType + 'static>(r: &mut Rng) -> Scenario<F<C>> {
    use vpshim::SimdField;
    type S<C> = crate::circuit::config::SIMDField<C>;
    let (mut s, l) = base_lay::<C, I_>(r, "W03");
    let pack = S::<C>::PACK_SIZE;
    let n = match r.below(4) {
        0 => 1,
        1 => r.range(1, pack),
        _ => r.range(1, 2 * pack + 1),
    }
    .min(40);
    let mut ins = gen::inputs(r, s.n_in, &s.planted, n.max(3));
    r.shuffle(&mut ins);
    ins.truncate(n);
    let n = ins.len();
    // every assignment with public inputs of its own
    let pubs: Vec<Vec<F<C>>> = (0..n).map(|k| if k == 0 || r.pct(40) { s.pubs.clone() } else { s.pubs.iter().map(|_| gen::val(r)).collect() }).collect();
    let jres = |ok: bool, out: &[F<C>]| json!([ok, jfs(out)]);
    let mut runs = vec![];
    if let Some(v) = s.guard("eval_with_public_inputs", || {
        Ok(ins.iter().zip(pubs.iter()).map(|(x, p)| l.eval_with_public_inputs(x.clone(), p)).collect::<Vec<_>>())
    }) {
        runs.push(json!({"name": "one by one", "res": v.iter().map(|(o, ok)| jres(*ok, o)).collect::<Vec<_>>()}));
    }
    let flat: Vec<F<C>> = ins.iter().zip(pubs.iter()).flat_map(|(x, p)| x.iter().chain(p.iter()).cloned().collect::<Vec<_>>()).collect();
    let w = Witness::<C> {
        num_witnesses: n,
        num_inputs_per_witness: s.n_in,
        num_public_inputs_per_witness: s.pubs.len(),
        values: WitnessValues::Scalar(flat),
    };
    if let Some((ok, outs)) = s.guard("run_with_output plain", || Ok(l.run_with_output(&w))) {
        runs.push(json!({"name": "plain", "res": ok.iter().zip(outs.iter()).map(|(a, b)| jres(*a, b)).collect::<Vec<_>>()}));
    }
    if let Some(ok) = s.guard("run plain", || Ok(l.run(&w))) {
        runs.push(json!({"name": "plain verdicts", "res": ok.iter().map(|a| json!([a])).collect::<Vec<_>>()}));
    }
    let mut packed: Vec<S<C>> = vec![];
    for b in 0..n.div_ceil(pack) {
        let at = |k: usize| (b * pack + k).min(n - 1);
        for j in 0..s.n_in {
            packed.push(S::<C>::pack(&(0..pack).map(|k| ins[at(k)][j]).collect::<Vec<_>>()));
        }
        for j in 0..s.pubs.len() {
            packed.push(S::<C>::pack(&(0..pack).map(|k| pubs[at(k)][j]).collect::<Vec<_>>()));
        }
    }
    let w2 = Witness::<C> {
        num_witnesses: n,
        num_inputs_per_witness: s.n_in,
        num_public_inputs_per_witness: s.pubs.len(),
        values: WitnessValues::Simd(packed.clone()),
    };
    if let Some((ok, outs)) = s.guard("run_with_output packed", || Ok(l.run_with_output(&w2))) {
        runs.push(json!({"name": "packed", "res": ok.iter().zip(outs.iter()).map(|(a, b)| jres(*a, b)).collect::<Vec<_>>()}));
    }
    if let Some(ok) = s.guard("run packed", || Ok(l.run(&w2))) {
        runs.push(json!({"name": "packed verdicts", "res": ok.iter().map(|a| json!([a])).collect::<Vec<_>>()}));
    }
    s.extra.push(("runs", Value::Array(runs)));
    s.extra.push(("pubs", Value::Array(pubs.iter().map(|x| jfs(x)).collect())));
    s.extra.push(("random", json!(has_random(&s.base))));
    s.more_inputs = ins;
    s
}
fn sc_c01<C: Config>(r: &mut Rng) -> Scenario<F<C>> {
    if r.pct(40) {
        sc_c01i::<C, CrossLayerInputType>(r)
    } else {
        sc_c01i::<C, NormalInputType>(r)
    }
}
fn sc_c01i<C: Config, I_: InputType + 'static>(r: &mut Rng) -> Scenario<F<C>> {
    let tiny = gen::is_tiny::<F<C>>();
    let mut o = opts(r, Lvl::Source, tiny);
    if o.custom {
        o.hints = false; // the witness solver refuses custom gates
        o.div = false;
    }
    let (p, xs, pubs) = gen::prog::<F<C>>(r, &o);
    let src: source::RootCircuit<C> = to_source(&p);
    let lv = r.range(1, 3);
    let mut co = CompileOptions::default().with_opt_level(lv);
    let mut what = format!("cross {} opt {lv}", I_::CROSS_LAYER_RELAY);
    if r.pct(30) {
        let l = r.range(2, 4);
        co = co.with_mul_fanout_limit(l);
        what += &format!(" fanout {l}");
    }
    if r.pct(30) {
        co = co.without_input_reorder();
        what += " ordered";
    }
    if std::env::var("VP_DBG").is_ok() {
        eprintln!("src {}", jprog(&p, true));
        let (h, _) = compile::compile_step_1(&src, co.clone()).unwrap();
        eprintln!("hn {}", jprog(&from_root(&h), true));
        let (hl, _) = h.remove_and_export_hints();
        eprintln!("hl {}", jprog(&from_root(&hl), true));
        let (d, _) = compile::compile_step_2::<C, I_>(hl, co.clone()).unwrap();
        eprintln!("d {}", jprog(&from_root(&d), true));
    }
    let mut s = Scenario::new("C01", what, &p, xs, pubs);
    if let Some((wp, l)) = s.guard("compile", || compile::compile_with_options::<C, I_>(&src, co.clone())) {
        let w = from_root(&wp);
        let reg = registry::<F<C>>();
        let ins = gen::inputs(r, s.n_in, &s.planted, 9);
        let custom = w.c.iter().any(|c| c.i.iter().any(|i| matches!(i, I::Cust { .. })));
        let ws = hint_normalized::witness_solver::WitnessSolver { circuit: wp.clone() };
        let mut solved = vec![];
        let mut ran = vec![];
        for x in ins.iter() {
            if custom {
                break;
            }
            let v = catch_unwind(AssertUnwindSafe(|| ws.solve_witness_from_raw_inputs(x.clone(), s.pubs.clone(), &reg)));
            match v {
                Err(e) => {
                    solved.push(json!({"st": "panic", "v": [], "msg": panic_msg(&e)}));
                    ran.push(json!({"st": "none", "ok": false, "v": []}));
                }
                Ok(Err(_)) => {
                    solved.push(json!({"st": "err", "v": []}));
                    ran.push(json!({"st": "none", "ok": false, "v": []}));
                }
                Ok(Ok(wit)) => {
                    let vals = match &wit.values {
                        WitnessValues::Scalar(v) => v.clone(),
                        _ => vec![],
                    };
                    solved.push(json!({"st": "ok", "v": jfs(&vals)}));
                    match catch_unwind(AssertUnwindSafe(|| l.run_with_output(&wit))) {
                        Ok((ok, o)) => ran.push(json!({"st": "ok", "ok": ok[0], "v": jfs(&o[0])})),
                        Err(e) => ran.push(json!({"st": "panic", "ok": false, "v": [], "msg": panic_msg(&e)})),
                    }
                }
            }
        }
        let k = s.add("witness solver", 0, Via::Id, "wit", "loose", jprog(&w, false), ev_wit(w));
        s.note("solved", json!(solved));
        s.add("circuit", k, Via::Outs, "lay", "lay", jlayered(&l), ev_lay(l));
        s.note("ran", json!(ran));
        s.more_inputs = ins;
    }
    s
}

// ---------------------------------------------------------------- driver
fn configs(prop: &str) -> Vec<(&'static str, usize)> {
    if prop == "C07" {
        return vec![("T3", 3), ("T7", 3), ("M31", 2), ("BN254", 1)];
    }
    let mut v = vec![("T2", 3), ("T3", 4), ("T7", 4), ("T13", 2), ("M31", 3), ("BN254", 2)];
    if cfg!(feature = "full") {
        v.extend([("T5X", 2), ("T97", 2), ("GF2", 2), ("Goldilocks", 1), ("BabyBear", 1), ("M31Orion", 1)]);
    }
    v
}
fn scenario<C: Config>(prop: &str, r: &mut Rng) -> Scenario<F<C>> {
    match prop {
        "C01" => sc_c01::<C>(r),
        "C02" => sc_c02::<C>(r),
        "C03" => sc_c03::<C>(r),
        "C04" => sc_c04::<C>(r),
        "C05" => sc_c05::<C>(r),
        "C06" => sc_c06::<C>(r),
        "C07" => sc_c07::<C>(r),
        "W03" => sc_w03::<C>(r),
        p => panic!("no scenarios for {p}"),
    }
}
#[derive(Default)]
struct Tally {
    seen: AtomicUsize,
    both: AtomicUsize,
    sus: AtomicUsize,
}
fn one<C: Config>(prop: &str, cfg: &str, id: usize, r: &mut Rng, t: &Tally, emit: bool, only: bool) -> Vec<Value> {
    let s = scenario::<C>(prop, r);
    let ins = if !s.more_inputs.is_empty() { s.more_inputs.clone() } else { gen::inputs(r, s.n_in, &s.planted, 9) };
    let (sus, interest) = match catch_unwind(AssertUnwindSafe(|| s.screen(&ins))) {
        Ok(x) => x,
        Err(e) => (Some(format!("screening: {}", panic_msg(&e))), 3),
    };
    t.seen.fetch_add(1, SeqCst);
    if interest == 3 {
        t.both.fetch_add(1, SeqCst);
    }
    let dull = interest < 2;
    if let Some(m) = &sus {
        if t.sus.fetch_add(1, SeqCst) < 60 || only {
            eprintln!("suspicious {id}: {m}");
            return vec![s.line(id, cfg, &ins)];
        }
    } else if emit && (!dull || r.pct(25)) {
        return vec![s.line(id, cfg, &ins)];
    }
    vec![]
}
#[macro_export]
macro_rules! with_config {
    ($name:expr, $c:ident, $e:expr) => {
        match $name {
            "T2" => { type $c = $crate::vp::fields::T2; $e }
            "T3" => { type $c = $crate::vp::fields::T3; $e }
            "T7" => { type $c = $crate::vp::fields::T7; $e }
            "M31" => { type $c = $crate::vp::fields::M31Config; $e }
            "BN254" => { type $c = $crate::vp::fields::BN254Config; $e }
            #[cfg(feature = "full")]
            "T5X" => { type $c = $crate::vp::fields::T5X; $e }
            "T13" => { type $c = $crate::vp::fields::T13; $e }
            #[cfg(feature = "full")]
            "T97" => { type $c = $crate::vp::fields::T97; $e }
            #[cfg(feature = "full")]
            "GF2" => { type $c = $crate::vp::fields::GF2Config; $e }
            #[cfg(feature = "full")]
            "M31Orion" => { type $c = $crate::vp::fields::M31OrionConfig; $e }
            #[cfg(feature = "full")]
            "BabyBear" => { type $c = $crate::vp::fields::BabyBearConfig; $e }
            #[cfg(feature = "full")]
            "Goldilocks" => { type $c = $crate::vp::fields::GoldilocksConfig; $e }
            x => panic!("unknown config {x}"),
        }
    };
}
/// pipe PROP SEED COUNT EMIT OUT [ONLY]
#[cfg(feature = "d_pipe")]
pub fn main(a: &[String]) {
    let prop = a[0].as_str();
    let seed: u64 = a[1].parse().unwrap();
    let count: usize = a[2].parse().unwrap();
    let emit: usize = a[3].parse().unwrap();
    let only: Option<usize> = a.get(5).map(|x| x.parse().unwrap());
    let cfgs: Vec<&str> = configs(prop).into_iter().flat_map(|(c, n)| vec![c; n]).collect();
    let t = Tally::default();
    let lines = super::par::run(count, only, &a[4], |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64));
        let cfg = r.pick(&cfgs);
        let em = id < emit || only.is_some();
        with_config!(cfg, C, one::<C>(prop, cfg, id, &mut r, &t, em, only.is_some()))
    });
    let sum = json!({"scenarios": t.seen.load(SeqCst), "accept_and_reject": t.both.load(SeqCst),
        "suspicious": t.sus.load(SeqCst), "lines": lines.len()});
    super::par::write(&a[4], &lines, sum);
}
