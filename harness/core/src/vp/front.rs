//! Circuits written with the builder operations: compiled, debugged, with sub-circuit and
//! memoised calls (F01, F02, F03). See specs/Front.tla.
use super::fields::*;
use super::gen::{self, Rng};
use super::pipe::panic_msg;
use super::prog::*;
use crate::circuit::config::Config;
use crate::circuit::layered::{self, InputType};
use crate::circuit::ir::hint_normalized::witness_solver::WitnessSolver;
use crate::compile::CompileOptions;
use crate::field::{Field, FieldArith};
use crate::frontend::api::UnconstrainedAPI;
use crate::frontend::builder::{ToVariableOrValue, VariableOrValue};
use crate::frontend::internal::DumpLoadTwoVariables;
use crate::frontend::{self, extra, memorized, BasicAPI, Define, RootAPI, Variable};
use crate::hints::registry::{HintCaller, HintRegistry};
use crate::utils::error::Error;
use ethnum::U256;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub const NF: usize = 7;

// ---------------------------------------------------------------- programs
#[derive(Clone, Copy, Debug)]
pub enum Opd {
    V(usize),
    C(U256),
    U(u32),
    K(usize),
}
#[derive(Clone, Debug, Default)]
pub struct Op {
    o: &'static str,
    a: Vec<Opd>,
    n: usize,
    h: &'static str,
    f: usize,
    m: &'static str,
    k: Vec<Opd>,
    s: Vec<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    fns: Vec<Vec<Op>>,
    main: Vec<Op>,
}
fn jopd<T: Field>(x: &Opd) -> Value {
    match x {
        Opd::V(i) => json!(["v", i]),
        Opd::C(v) => json!(["c", jf(&T::from_u256(*v))]),
        Opd::U(v) => json!(["u", v]),
        Opd::K(i) => json!(["k", i]),
    }
}
fn jbody<T: Field>(b: &[Op]) -> Value {
    Value::Array(
        b.iter()
            .map(|o| {
                json!({"o": o.o, "a": o.a.iter().map(jopd::<T>).collect::<Vec<_>>(), "n": o.n, "h": o.h, "f": o.f + 1, "m": o.m,
                "k": o.k.iter().map(jopd::<T>).collect::<Vec<_>>(), "s": o.s})
            })
            .collect(),
    )
}

const TWO: [&str; 8] = ["add", "sub", "mul", "xor", "or", "and", "div", "divu"];
const UNC: [&str; 17] = BIN;
const KS: u64 = 3;
fn kval(x: &Opd, k: &[u64]) -> u64 {
    match x {
        Opd::U(v) => *v as u64,
        Opd::K(i) => k[i % k.len()],
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- running them on a builder
#[derive(Clone, Copy)]
enum Arg<T> {
    V(Variable),
    R(Variable),
    C(T),
    U(u32),
}
impl<T: Field> ToVariableOrValue<T> for Arg<T> {
    fn convert_to_variable_or_value(self) -> VariableOrValue<T> {
        match self {
            Arg::V(x) => x.convert_to_variable_or_value(),
            Arg::R(x) => <&Variable as ToVariableOrValue<T>>::convert_to_variable_or_value(&x),
            Arg::C(x) => x.convert_to_variable_or_value(),
            Arg::U(x) => <u32 as ToVariableOrValue<T>>::convert_to_variable_or_value(x),
        }
    }
}
thread_local! {
    static CUR: RefCell<Rc<Prog>> = RefCell::new(Rc::new(Prog::default()));
    static DEFINED: Cell<bool> = const { Cell::new(false) };
}
fn cur() -> Rc<Prog> {
    CUR.with(|c| c.borrow().clone())
}
type Vs = Vec<Variable>;
fn item<C: Config, B: RootAPI<C>, const K: usize>(api: &mut B, v: &Vs) -> Vs {
    run_fn(api, K, v, &[KS])
}
fn items<C: Config, B: RootAPI<C>>() -> [fn(&mut B, &Vs) -> Vs; NF] {
    [item::<C, B, 0>, item::<C, B, 1>, item::<C, B, 2>, item::<C, B, 3>, item::<C, B, 4>, item::<C, B, 5>, item::<C, B, 6>]
}
fn run_fn<C: Config, B: RootAPI<C>>(api: &mut B, f: usize, v: &[Variable], k: &[u64]) -> Vs {
    let p = cur();
    run_body(api, &p.fns[f], v, k)
}
fn ks(c: &[u64], l: &[usize]) -> Vec<u64> {
    let mut k = vec![KS];
    k.extend_from_slice(c);
    k.extend(l.iter().map(|x| *x as u64));
    k
}
fn wide(x: &[u32]) -> Vec<u64> {
    x.iter().map(|v| *v as u64).collect()
}
#[memorized]
fn m0<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable, xs: Vec<Variable>, k: u32) -> Vec<Variable> {
    let v: Vs = std::iter::once(x).chain(xs.iter().cloned()).collect();
    run_fn(api, 0, &v, &ks(&[k as u64], &[xs.len()]))
}
#[memorized]
fn m1<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable, xs: Vec<Variable>, k: u32) -> Vec<Variable> {
    let v: Vs = std::iter::once(x).chain(xs.iter().cloned()).collect();
    run_fn(api, 1, &v, &ks(&[k as u64], &[xs.len()]))
}
#[memorized]
fn m2<C: Config, B: RootAPI<C>>(api: &mut B, xs: &Vec<Vec<Variable>>, k: Vec<u32>) -> Vec<Vec<Variable>> {
    let l: Vec<usize> = xs.iter().map(|x| x.len()).collect();
    let mut r = run_fn(api, 2, &xs.concat(), &ks(&wide(&k), &l));
    let a = r.split_off(r.len() / 3);
    vec![r, vec![], a]
}
#[memorized]
fn m3<C: Config, B: RootAPI<C>>(api: &mut B, xs: Vec<Variable>, ys: &Vec<Variable>, n: usize) -> Variable {
    let v = [xs.clone(), ys.clone()].concat();
    let r = run_fn(api, 3, &v, &ks(&[n as u64], &[xs.len(), ys.len()]));
    api.add(r[r.len() - 1], r[0])
}
#[memorized]
fn m4<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable, y: &Variable) -> Variable {
    let r = run_fn(api, 4, &[x, *y], &ks(&[], &[]));
    api.add(r[r.len() - 1], r[0])
}
#[memorized]
fn m5<C: Config, B: RootAPI<C>>(api: &mut B, xs: &Vec<Variable>, k: Vec<Vec<u32>>) {
    let l: Vec<usize> = k.iter().map(|x| x.len()).collect();
    run_fn(api, 5, xs, &ks(&wide(&k.concat()), &l));
}
#[memorized]
fn m6<C: Config, B: RootAPI<C>>(api: &mut B, x: Variable, k: i64, j: u64) -> Vec<Variable> {
    run_fn(api, 6, &[x], &ks(&[if k < 0 { -(k + 1) } else { k } as u64, (k < 0) as u64, j], &[]))
}
fn groups<T: Clone>(v: &[T], s: &[usize]) -> Vec<Vec<T>> {
    let mut at = 0;
    s.iter()
        .map(|n| {
            at += n;
            v[at - n..at].to_vec()
        })
        .collect()
}
fn call<C: Config, B: RootAPI<C>>(api: &mut B, o: &Op, a: &[Variable], k: &[u64]) -> Vs {
    let c: Vec<u64> = o.k.iter().map(|x| kval(x, k)).collect();
    let f = o.f;
    match o.m {
        "inline" => run_fn(api, f, a, &ks(&c, &o.s)),
        "simple" => match f {
            0 => api.memorized_simple_call(item::<C, B, 0>, a),
            1 => api.memorized_simple_call(item::<C, B, 1>, a),
            2 => api.memorized_simple_call(item::<C, B, 2>, a),
            3 => api.memorized_simple_call(|api: &mut B, v: &Vs| run_fn(api, 3, v, &[KS]), a),
            4 => api.memorized_simple_call(|api: &mut B, v: &Vs| run_fn(api, 4, v, &[KS]), a),
            5 => api.memorized_simple_call(item::<C, B, 5>, a),
            _ => api.memorized_simple_call(item::<C, B, 6>, a),
        },
        "closure" => {
            let kk = ks(&c, &o.s);
            api.memorized_simple_call(move |api: &mut B, v: &Vs| run_fn(api, f, v, &kk), a)
        }
        "ptr" => api.memorized_simple_call(items::<C, B>()[f], a),
        "memo" => match f {
            0 => memorized_m0(api, a[0], a[1..].to_vec(), c[0] as u32),
            1 => memorized_m1(api, a[0], a[1..].to_vec(), c[0] as u32),
            2 => memorized_m2(api, &groups(a, &o.s), c.iter().map(|x| *x as u32).collect()).concat(),
            3 => vec![memorized_m3(api, a[..o.s[0]].to_vec(), &a[o.s[0]..].to_vec(), c[0] as usize)],
            4 => vec![memorized_m4(api, a[0], &a[1])],
            5 => {
                let c: Vec<u32> = c.iter().map(|x| *x as u32).collect();
                memorized_m5(api, &a.to_vec(), groups(&c, &o.s));
                vec![]
            }
            _ => memorized_m6(api, a[0], if c[1] != 0 { -1 - c[0] as i64 } else { c[0] as i64 }, c[2]),
        },
        _ => unreachable!(),
    }
}
macro_rules! two {
    ($api:ident, $a:ident, $o:expr, $($n:literal => $f:ident),*) => {
        match $o { $($n => $api.$f($a[0], $a[1]),)* _ => unreachable!() }
    };
}
fn run_body<C: Config, B: RootAPI<C>>(api: &mut B, b: &[Op], v: &[Variable], k: &[u64]) -> Vs {
    let mut v = v.to_vec();
    if v.is_empty() {
        v.push(api.constant(7));
    }
    for o in b {
        let a: Vec<Arg<F<C>>> = o
            .a
            .iter()
            .map(|x| match x {
                Opd::V(i) if i % 3 == 0 => Arg::R(v[i % v.len()]),
                Opd::V(i) => Arg::V(v[i % v.len()]),
                Opd::C(x) => Arg::C(F::<C>::from_u256(*x)),
                Opd::U(x) => Arg::U(*x),
                Opd::K(i) => Arg::U(k[i % k.len()] as u32),
            })
            .collect();
        let vars = |api: &mut B| -> Vs {
            a.iter()
                .map(|x| match x {
                    Arg::V(x) | Arg::R(x) => *x,
                    x => api.constant(*x),
                })
                .collect()
        };
        let r = match o.o {
            "div" => vec![api.div(a[0], a[1], true)],
            "divu" => vec![api.div(a[0], a[1], false)],
            "neg" => vec![api.neg(a[0])],
            "inv" => vec![api.inverse(a[0])],
            "isz" => vec![api.is_zero(a[0])],
            "tobin" => api.to_binary(a[0], o.n),
            "frombin" => {
                let x = vars(api);
                vec![api.from_binary(&x)]
            }
            "const" => vec![api.constant(a[0])],
            "cv" => match api.constant_value(a[0]) {
                Some(x) => vec![api.constant(x)],
                None => vec![api.constant(a[0])],
            },
            "gt" => vec![api.gt(a[0], a[1])],
            "geq" => vec![api.geq(a[0], a[1])],
            "hint" => {
                let x = vars(api);
                api.new_hint(o.h, &x, o.n)
            }
            "uid" => vec![api.unconstrained_identity(a[0])],
            "az" => {
                api.assert_is_zero(a[0]);
                vec![]
            }
            "anz" => {
                api.assert_is_non_zero(a[0]);
                vec![]
            }
            "ab" => {
                api.assert_is_bool(a[0]);
                vec![]
            }
            "aeq" => {
                api.assert_is_equal(a[0], a[1]);
                vec![]
            }
            "ane" => {
                api.assert_is_different(a[0], a[1]);
                vec![]
            }
            "call" => {
                let x = vars(api);
                call(api, o, &x, k)
            }
            x => vec![two!(api, a, x,
                "add" => add, "sub" => sub, "mul" => mul, "xor" => xor, "or" => or, "and" => and,
                "uadd" => unconstrained_add, "umul" => unconstrained_mul,
                "Div" => unconstrained_div, "Pow" => unconstrained_pow, "IntDiv" => unconstrained_int_div,
                "Mod" => unconstrained_mod, "ShiftL" => unconstrained_shift_l, "ShiftR" => unconstrained_shift_r,
                "LesserEq" => unconstrained_lesser_eq, "GreaterEq" => unconstrained_greater_eq,
                "Lesser" => unconstrained_lesser, "Greater" => unconstrained_greater, "Eq" => unconstrained_eq,
                "NotEq" => unconstrained_not_eq, "BoolOr" => unconstrained_bool_or, "BoolAnd" => unconstrained_bool_and,
                "BitOr" => unconstrained_bit_or, "BitAnd" => unconstrained_bit_and, "BitXor" => unconstrained_bit_xor)],
        };
        v.extend(r);
    }
    v
}
#[derive(Clone)]
struct Cir<T> {
    x: Vec<T>,
    y: Vec<T>,
}
impl<T: Clone> DumpLoadTwoVariables<T> for Cir<T> {
    fn dump_into(&self, v: &mut Vec<T>, p: &mut Vec<T>) {
        v.extend_from_slice(&self.x);
        p.extend_from_slice(&self.y);
    }
    fn load_from(&mut self, v: &mut &[T], p: &mut &[T]) {
        let (a, b) = (self.x.len(), self.y.len());
        self.x = v[..a].to_vec();
        *v = &v[a..];
        self.y = p[..b].to_vec();
        *p = &p[b..];
    }
    fn num_vars(&self) -> (usize, usize) {
        (self.x.len(), self.y.len())
    }
}
impl<C: Config> Define<C> for Cir<Variable> {
    fn define<B: RootAPI<C>>(&self, api: &mut B) {
        let p = cur();
        let v = [self.x.clone(), self.y.clone()].concat();
        let out = run_body(api, &p.main, &v, &[KS]);
        api.set_outputs(out);
        DEFINED.with(|d| d.set(true));
    }
}

// ---------------------------------------------------------------- meaning (for choosing scenarios)
struct Mean<'a, T> {
    p: &'a Prog,
    st: Option<&'static str>,
    dz: bool,
    steps: usize,
    hints: usize,
    ph: std::marker::PhantomData<T>,
}
impl<'a, T: Field> Mean<'a, T> {
    fn body(&mut self, b: &[Op], v: &[T], k: &[u64]) -> Vec<T> {
        let mut v = v.to_vec();
        if v.is_empty() {
            v.push(T::from(7u32));
        }
        for o in b {
            if self.st.is_some() {
                break;
            }
            self.steps += if matches!(o.o, "gt" | "geq") { 60 } else { 1 };
            let r = self.op(o, &v, k);
            v.extend(r);
        }
        v
    }
    fn op(&mut self, o: &Op, v: &[T], k: &[u64]) -> Vec<T> {
        let a: Vec<T> = o
            .a
            .iter()
            .map(|x| match x {
                Opd::V(i) => v[i % v.len()],
                Opd::C(x) => T::from_u256(*x),
                Opd::U(x) => T::from(*x),
                Opd::K(i) => T::from(k[i % k.len()] as u32),
            })
            .collect();
        let b2 = |b: bool| T::from(b as u32);
        let isb = |x: &T| x.is_zero() || *x == T::ONE;
        match o.o {
            "add" | "uadd" => vec![a[0] + a[1]],
            "sub" => vec![a[0] - a[1]],
            "mul" | "umul" => vec![a[0] * a[1]],
            "xor" | "or" | "and" => {
                if !isb(&a[0]) || !isb(&a[1]) {
                    self.st = Some("rej");
                }
                let xy = a[0] * a[1];
                vec![match o.o {
                    "and" => xy,
                    "or" => a[0] + a[1] - xy,
                    _ => a[0] + a[1] - xy - xy,
                }]
            }
            "div" | "divu" | "inv" => {
                let (x, y) = if o.o == "inv" { (T::ONE, a[0]) } else { (a[0], a[1]) };
                if y.is_zero() {
                    self.dz = true;
                    if o.o != "divu" || !x.is_zero() {
                        self.st = Some("rej");
                    }
                    vec![T::ZERO]
                } else {
                    vec![x * y.inv().unwrap()]
                }
            }
            "neg" => vec![-a[0]],
            "isz" => vec![b2(a[0].is_zero())],
            "tobin" => match hint_val(hint_id("ToBinary"), &a, o.n) {
                Ok(v) => v,
                Err(_) => {
                    self.st = Some("rej");
                    vec![T::ZERO; o.n]
                }
            },
            "frombin" => {
                let mut s = T::ZERO;
                for x in a.iter().rev() {
                    s = s + s + *x;
                }
                vec![s]
            }
            "const" | "cv" | "uid" => vec![a[0]],
            "gt" => vec![b2(a[0].to_u256() > a[1].to_u256())],
            "geq" => vec![b2(a[0].to_u256() >= a[1].to_u256())],
            "hint" => {
                self.hints += 1;
                match custom_hint(o.h, &a, o.n) {
                    Ok(v) => v,
                    Err(_) => {
                        self.st = Some("rej");
                        vec![T::ZERO; o.n]
                    }
                }
            }
            "az" | "anz" | "ab" | "aeq" | "ane" => {
                let ok = match o.o {
                    "az" => a[0].is_zero(),
                    "anz" => !a[0].is_zero(),
                    "ab" => isb(&a[0]),
                    "aeq" => a[0] == a[1],
                    _ => a[0] != a[1],
                };
                if !ok {
                    self.st = Some("rej");
                }
                vec![]
            }
            "call" => {
                let c: Vec<u64> = o.k.iter().map(|x| kval(x, k)).collect();
                let r = self.body(&self.p.fns[o.f], &a, &ks(&c, &o.s));
                match (o.m, o.f) {
                    ("memo", 3) | ("memo", 4) => vec![r[r.len() - 1] + r[0]],
                    ("memo", 5) => vec![],
                    _ => r,
                }
            }
            x => vec![hint_val(hint_id(x), &a, 1).unwrap()[0]],
        }
    }
}
fn mean<'a, T: Field>(p: &'a Prog, b: &[Op], v: &[T], k: &[u64]) -> (Vec<T>, Mean<'a, T>) {
    let mut m = Mean { p, st: None, dz: false, steps: 0, hints: 0, ph: std::marker::PhantomData };
    let r = m.body(b, v, k);
    (r, m)
}

// ---------------------------------------------------------------- generating them
struct G {
    calls: bool,
    wide: bool,
    cmp: bool,
    bits: usize,
}
const LOSSY: [usize; 3] = [3, 4, 5];
fn opd<T: Field>(r: &mut Rng, n: usize, v: &[T], want: Option<fn(&T) -> bool>, cst: usize) -> Opd {
    if r.pct(cst) {
        return match r.below(3) {
            0 => Opd::U(r.below(5) as u32),
            1 => Opd::C(gen::val::<T>(r).to_u256()),
            _ => Opd::K(r.below(4)),
        };
    }
    let pick = |r: &mut Rng| if r.pct(60) { n - 1 - r.below(n.min(4)) } else { r.below(n) };
    let mut i = pick(r);
    if let Some(w) = want {
        for _ in 0..12 {
            if w(&v[i]) {
                break;
            }
            i = pick(r);
        }
    }
    Opd::V(i)
}
fn shape(r: &mut Rng, total: usize) -> Vec<usize> {
    let mut s = vec![];
    let mut left = total;
    while left > 0 || s.is_empty() {
        let n = if r.pct(12) { 0 } else { r.range(1, left.max(1)).min(left) };
        s.push(n);
        left -= n;
    }
    s
}
/// total: only operations that cannot fail, and assertions
fn gen_op<T: Field>(r: &mut Rng, g: &G, from: usize, v: &[T], total: bool) -> Op {
    let n = v.len();
    let isb: fn(&T) -> bool = |x| x.is_zero() || *x == T::ONE;
    let nz: fn(&T) -> bool = |x| !x.is_zero();
    let z: fn(&T) -> bool = |x| x.is_zero();
    let mut o = Op { h: "", m: "", ..Default::default() };
    let cst = if r.pct(8) { 90 } else { 25 };
    let any = |r: &mut Rng| opd(r, n, v, None, cst);
    let careful = !r.pct(4);
    let w = |f: fn(&T) -> bool| if careful { Some(f) } else { None };
    let callp = if g.calls { 40 } else { 10 };
    if from < NF && r.pct(callp) {
        o.o = "call";
        o.f = r.range(from, NF - 1);
        let forms: &[&'static str] = &["inline", "simple", "closure", "ptr", "memo", "memo", "memo", "memo"];
        o.m = r.pick(forms);
        if g.wide && from <= 3 && r.pct(85) {
            // argument structures and numbers that read alike when written one after the other
            o.m = "memo";
            o.f = r.range(from.max(2), 3);
            o.a = (0..12).map(|_| opd(r, n, v, None, 10)).collect();
            let num = |r: &mut Rng| Opd::U(r.pick(&[1, 1, 11, 11, 111]));
            if o.f == 2 {
                o.k = (0..r.range(1, 2)).map(|_| num(r)).collect();
                o.s = match r.below(6) {
                    0 | 1 => vec![1, 11],
                    2 | 3 => vec![11, 1],
                    4 => vec![12],
                    _ => vec![1, 1, 10],
                };
            } else {
                o.k = vec![num(r)];
                o.s = if r.pct(50) { vec![1, 11] } else { vec![11, 1] };
            }
            return o;
        }
        let num = match (o.m, o.f) {
            ("memo", 4) => 2,
            ("memo", 6) => 1,
            ("inline", _) => r.below(4),
            // the compiler refuses a sub-circuit without inputs
            _ => r.range(1, 3),
        };
        o.a = (0..num).map(|_| opd(r, n, v, None, 10)).collect();
        let kk = |r: &mut Rng| if r.pct(15) { Opd::K(r.below(4)) } else { Opd::U(r.below(3) as u32) };
        let nk = match (o.m, o.f) {
            ("memo", 0) | ("memo", 1) | ("memo", 3) => 1,
            ("memo", 4) => 0,
            ("memo", 6) => 3,
            ("simple", _) | ("ptr", _) => 0,
            _ => r.below(3),
        };
        o.k = (0..nk).map(|_| kk(r)).collect();
        o.s = match (o.m, o.f) {
            ("memo", 0) | ("memo", 1) => vec![num - 1],
            ("memo", 2) => shape(r, num),
            ("memo", 3) => {
                let x = r.below(num + 1);
                vec![x, num - x]
            }
            ("memo", 5) => shape(r, nk),
            _ => vec![],
        };
        if (o.m, o.f) == ("memo", 6) {
            o.k[1] = Opd::U(r.below(2) as u32);
        }
        return o;
    }
    let k = r.below(100);
    match k {
        0..=27 => {
            o.o = r.pick(&["add", "sub", "mul", "mul", "uadd", "umul"]);
            o.a = vec![any(r), any(r)];
        }
        28..=37 if !total => {
            o.o = r.pick(&["xor", "or", "and"]);
            o.a = vec![opd(r, n, v, w(isb), cst / 2), opd(r, n, v, w(isb), cst / 2)];
            for a in o.a.iter_mut() {
                if !matches!(a, Opd::V(_)) && careful {
                    *a = Opd::U(r.below(2) as u32);
                }
            }
        }
        38..=44 if !total => {
            o.o = r.pick(&["div", "divu", "inv"]);
            o.a = vec![any(r), opd(r, n, v, w(nz), cst)];
            if o.o == "inv" {
                o.a.remove(0);
            }
        }
        45..=49 => {
            o.o = r.pick(&["neg", "const", "cv", "uid"]);
            o.a = vec![any(r)];
        }
        50..=56 => {
            o.o = "isz";
            o.a = vec![any(r)];
        }
        57..=60 if !total => {
            o.o = "tobin";
            o.a = vec![any(r)];
            let need = match &o.a[0] {
                Opd::V(i) => 256 - v[*i].to_u256().leading_zeros() as usize,
                _ => g.bits.min(8),
            };
            o.n = match r.below(4) {
                0 if need > 0 && !careful => need - 1,
                0 => g.bits,
                _ => need,
            }
            .max(1);
            if g.bits > 32 && o.n > 40 && !r.pct(5) {
                o.o = "neg";
                o.n = 0;
            }
        }
        61..=64 => {
            o.o = "frombin";
            o.a = (0..r.range(1, 4)).map(|_| any(r)).collect();
        }
        65..=76 => {
            o.o = r.pick(&UNC);
            o.a = vec![any(r), any(r)];
        }
        77..=81 => {
            o.o = "hint";
            o.h = CUSTOM[if total { r.below(2) } else { r.below(3) }];
            o.a = (0..r.range(1, 3)).map(|_| any(r)).collect();
            if o.h == "vp.fail" && careful {
                o.a[0] = opd(r, n, v, Some(|x| *x != T::ONE), 0);
            }
            o.n = r.range(1, 2);
        }
        82..=84 if g.cmp => {
            o.o = r.pick(&["gt", "geq"]);
            o.a = vec![any(r), any(r)];
        }
        85..=87 => {
            o.o = "az";
            o.a = vec![opd(r, n, v, w(z), 5)];
        }
        88..=90 => {
            o.o = "anz";
            o.a = vec![opd(r, n, v, w(nz), 5)];
        }
        91..=94 => {
            o.o = "ab";
            o.a = vec![opd(r, n, v, w(isb), 5)];
        }
        95..=97 => {
            o.o = r.pick(&["aeq", "ane"]);
            o.a = vec![any(r), any(r)];
        }
        _ => {
            o.o = r.pick(&["Eq", "Lesser", "isz", "BitXor"]);
            o.a = vec![any(r), any(r)];
            if o.o == "isz" {
                o.a.pop();
            }
        }
    }
    o
}
fn gen_body<T: Field>(r: &mut Rng, g: &G, p: &Prog, from: usize, total: &[bool], mine: bool, v: &[T], k: &[u64], len: usize) -> Vec<Op> {
    let mut b: Vec<Op> = vec![];
    let (mut vals, _) = mean::<T>(p, &[], v, k);
    let mut tries = 0;
    while b.len() < len && tries < 60 {
        tries += 1;
        let mut o = gen_op::<T>(r, g, from, &vals, mine);
        if o.o == "call" && !total[o.f] && (mine || (o.m == "memo" && LOSSY.contains(&o.f))) {
            continue;
        }
        if !g.cmp && matches!(o.o, "gt" | "geq") {
            o.o = "Greater";
        }
        b.push(o);
        let (nv, m) = mean::<T>(p, &b, v, k);
        if (m.st.is_some() && !r.pct(3)) || nv.len() > 44 || m.steps > 150 || m.hints > 14 {
            b.pop();
            continue;
        }
        if m.st.is_some() {
            break;
        }
        vals = nv;
    }
    b
}
pub fn program<T: Field>(r: &mut Rng, prop: &str) -> (Prog, Vec<T>, Vec<T>) {
    let bits = 256 - (T::MODULUS - 1).leading_zeros() as usize;
    let wide = prop == "F03" && r.pct(12);
    let mut g = G { wide, calls: prop == "F03" || r.pct(25), cmp: (T::FIELD_SIZE == 32 && r.pct(18)) || (T::FIELD_SIZE == 256 && r.pct(2)), bits };
    let mut p = Prog { fns: vec![vec![]; NF], main: vec![] };
    let mut total = vec![true; NF];
    let cmp = g.cmp;
    let plain = r.pct(25);
    for f in (0..NF).rev() {
        g.cmp = false;
        let mine = LOSSY.contains(&f) || r.pct(50);
        total[f] = mine;
        let v: Vec<T> = (0..r.range(1, 3)).map(|_| if r.pct(40) { T::from(r.below(2) as u32) } else { gen::val(r) }).collect();
        let k: Vec<u64> = std::iter::once(KS).chain((0..r.below(3)).map(|_| r.below(3) as u64)).collect();
        let len = r.range(1, 4);
        p.fns[f] = gen_body(r, &g, &p, f + 1, &total, mine, &v, &k, len);
        if plain {
            // every value depends on an input
            p.fns[f].retain(|o| o.o == "call" && !o.a.is_empty());
            for _ in 0..r.range(1, 3) {
                let at = r.below(p.fns[f].len() + 1);
                let a = vec![Opd::V(r.below(6)), Opd::V(r.below(6))];
                p.fns[f].insert(at, Op { o: "mul", a, ..Default::default() });
            }
            for o in p.fns[f].iter_mut().filter(|o| o.o == "call") {
                for a in o.a.iter_mut().filter(|a| !matches!(a, Opd::V(_))) {
                    *a = Opd::V(r.below(6));
                }
            }
        }
        if r.pct(93) {
            // a product of inputs: the sub-circuit has something to do
            p.fns[f].insert(0, Op { o: "mul", a: vec![Opd::V(0), Opd::V(r.below(3))], ..Default::default() });
        }
        if f == 5 {
            // returns nothing when memoised: let it at least look at its first input
            p.fns[f].insert(0, Op { o: "isz", a: vec![Opd::V(0)], ..Default::default() });
            p.fns[f].push(Op { o: "ab", a: vec![Opd::V(v.len())], ..Default::default() });
        }
    }
    g.cmp = cmp;
    let (ni, np) = match r.below(6) {
        0 | 1 => (r.range(1, 3), r.range(1, 2)),
        _ => (r.range(1, 3), 0),
    };
    let mut val = |r: &mut Rng| if r.pct(35) { T::from(r.below(2) as u32) } else { gen::val(r) };
    let x: Vec<T> = (0..ni).map(|_| val(r)).collect();
    let y: Vec<T> = (0..np).map(|_| val(r)).collect();
    let v = [x.clone(), y.clone()].concat();
    let len = if r.pct(30) { r.range(1, 3) } else { r.range(3, 12) };
    p.main = gen_body(r, &g, &p, 0, &total, false, &v, &[KS], len);
    (p, x, y)
}

// ---------------------------------------------------------------- recording
type Log = Arc<Mutex<Vec<Value>>>;
struct Logged<T: Field> {
    reg: HintRegistry<T>,
    log: Log,
}
impl<T: Field> HintCaller<T> for Logged<T> {
    fn call(&self, id: usize, args: &[T], n: usize) -> Result<Vec<T>, Error> {
        self.log.lock().unwrap().push(json!([hint_name(id), jfs(args), n]));
        self.reg.call(id, args, n)
    }
}
fn said<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&e))
}
fn compiled<C: Config, I_: InputType>(
    w: &WitnessSolver<C>,
    l: &layered::Circuit<C, I_>,
    a: &Cir<F<C>>,
    tiny: bool,
) -> Value {
    let log: Log = Default::default();
    let hc = Logged { reg: registry::<F<C>>(), log: log.clone() };
    let r = said(|| {
        let wt = match w.solve_witness_with_hints(a, &hc) {
            Ok(x) => x,
            Err(_) => return json!({"st": "fail", "out": []}),
        };
        let mut out = vec![];
        let rounds = if C::ENABLE_RANDOM_COMBINATION && tiny { 40 } else { 1 };
        for _ in 0..rounds {
            let (ok, mut o) = l.run_with_output(&wt);
            if !ok[0] {
                return json!({"st": "fail", "out": []});
            }
            out = o.swap_remove(0);
        }
        json!({"st": "ok", "out": jfs(&out)})
    });
    let mut r = r.unwrap_or_else(|e| json!({"st": "panic", "out": [], "msg": e}));
    // hints may be asked in any order, and more than once
    let mut seen = BTreeSet::new();
    let calls: Vec<Value> = log.lock().unwrap().iter().filter(|x| seen.insert(x.to_string())).cloned().collect();
    r["log"] = Value::Array(calls);
    r
}
fn scenario<C: Config>(prop: &str, r: &mut Rng) -> Value {
    let tiny = gen::is_tiny::<F<C>>();
    let (p, x, y) = program::<F<C>>(r, prop);
    let mut asg: Vec<(Vec<F<C>>, Vec<F<C>>)> = vec![(x.clone(), y.clone())];
    let all = gen::inputs(r, x.len() + y.len(), &[x.clone(), y.clone()].concat(), 9);
    let mut rest: Vec<_> = all.into_iter().map(|v| (v[..x.len()].to_vec(), v[x.len()..].to_vec())).filter(|v| *v != asg[0]).collect();
    r.shuffle(&mut rest);
    rest.truncate(5);
    asg.extend(rest);
    CUR.with(|c| *c.borrow_mut() = Rc::new(p.clone()));
    let cir = Cir { x: vec![Variable::default(); x.len()], y: vec![Variable::default(); y.len()] };
    let lv = r.range(1, 3);
    let opts = CompileOptions::default().with_opt_level(lv);
    let cross = r.pct(40);
    let mut build = json!({"said": "ok", "at": "", "user": false});
    let mut runs: Vec<Value> = asg.iter().map(|(x, y)| json!({"x": jfs(x), "y": jfs(y)})).collect();
    DEFINED.with(|d| d.set(false));
    let put = |runs: &mut Vec<Value>, f: &dyn Fn(&Cir<F<C>>) -> Value| {
        for (k, (x, y)) in asg.iter().enumerate() {
            runs[k]["c"] = f(&Cir { x: x.clone(), y: y.clone() });
        }
    };
    let none = |_: &Cir<F<C>>| json!({"st": "none", "out": [], "log": []});
    let said_ = |r: Result<(), Error>| match r {
        Ok(()) => json!({"said": "ok", "at": "", "user": false}),
        Err(e) => json!({"said": "err", "at": "compile", "user": matches!(e, Error::UserError(_)), "msg": format!("{e:?}")}),
    };
    let res = said(|| {
        if cross {
            match frontend::compile_cross_layer::<C, _>(&cir, opts) {
                Ok(c) => {
                    put(&mut runs, &|a| compiled(&c.witness_solver, &c.layered_circuit, a, tiny));
                    said_(Ok(()))
                }
                Err(e) => {
                    put(&mut runs, &none);
                    said_(Err(e))
                }
            }
        } else {
            match frontend::compile::<C, _>(&cir, opts) {
                Ok(c) => {
                    put(&mut runs, &|a| compiled(&c.witness_solver, &c.layered_circuit, a, tiny));
                    said_(Ok(()))
                }
                Err(e) => {
                    put(&mut runs, &none);
                    said_(Err(e))
                }
            }
        }
    });
    match res {
        Ok(b) => build = b,
        Err(e) => {
            put(&mut runs, &none);
            build["said"] = json!("panic");
            build["at"] = json!(if DEFINED.with(|d| d.get()) { "compile" } else { "define" });
            build["msg"] = json!(e);
        }
    }
    for (k, (x, y)) in asg.iter().enumerate() {
        let log: Log = Default::default();
        let hc = Logged { reg: registry::<F<C>>(), log: log.clone() };
        let a = Cir { x: x.clone(), y: y.clone() };
        let o = said(|| extra::debug_eval::<C, _, _, _>(&cir, &a, hc));
        let calls = log.lock().unwrap().clone();
        runs[k]["d"] = match o {
            Ok(o) => json!({"st": "ok", "out": jfs(&o), "log": calls}),
            Err(e) => json!({"st": "fail", "out": [], "log": calls, "msg": e}),
        };
    }
    json!({"kind": "front", "p": jmod::<F<C>>(), "prog": {"fns": p.fns.iter().map(|b| jbody::<F<C>>(b)).collect::<Vec<_>>(), "main": jbody::<F<C>>(&p.main)},
        "build": build, "runs": runs, "opt": lv, "cross": cross})
}

/// front PROP SEED COUNT OUT [ONLY]
pub fn main(a: &[String]) {
    let prop = a[0].as_str();
    let seed: u64 = a[1].parse().unwrap();
    let count: usize = a[2].parse().unwrap();
    let only: Option<usize> = a.get(4).and_then(|x| x.parse().ok());
    let lines = super::par::run(count, only, &a[3], |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64) ^ 0xf707);
        let mut v = match r.below(8) {
            0 | 1 => scenario::<T7>(prop, &mut r),
            2 => scenario::<M31Config>(prop, &mut r),
            3 => scenario::<BN254Config>(prop, &mut r),
            4 => scenario::<T13>(prop, &mut r),
            5 => scenario::<T3>(prop, &mut r),
            6 => scenario::<T5>(prop, &mut r),
            _ => scenario::<T2>(prop, &mut r),
        };
        v["id"] = json!(id);
        vec![v]
    });
    let mut kinds = std::collections::BTreeMap::<String, usize>::new();
    for l in &lines {
        if l["build"].is_null() {
            continue;
        }
        *kinds.entry(format!("build {}", l["build"]["said"].as_str().unwrap())).or_default() += 1;
        for x in l["runs"].as_array().into_iter().flatten() {
            *kinds.entry(format!("compiled {}, debug {}", x["c"]["st"].as_str().unwrap(), x["d"]["st"].as_str().unwrap())).or_default() += 1;
        }
        for b in l["prog"]["fns"].as_array().unwrap().iter().chain(std::iter::once(&l["prog"]["main"])) {
            for o in b.as_array().unwrap() {
                *kinds.entry(format!("op {}{}", o["o"].as_str().unwrap(), o["m"].as_str().unwrap())).or_default() += 1;
            }
        }
    }
    let _ = TWO;
    super::par::write(&a[3], &lines, json!({"scenarios": count, "kinds": kinds}));
}
