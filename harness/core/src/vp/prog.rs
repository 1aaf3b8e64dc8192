//! A neutral form of all intermediate programs: conversion from the code's types, JSON for
//! the model checker, an evaluator that mirrors specs/Ir.tla and specs/Layered.tla (used only
//! to choose which scenarios the model checker looks at first), and conversion back to source.
use super::fields::F;
use crate::circuit::config::Config;
use crate::circuit::ir::{common, dest, expr, hint_less, hint_normalized, source};
use crate::circuit::layered::{self, Coef, Input, InputType, InputUsize};
use crate::field::Field;
use crate::hints::{self, BuiltinHintIds};
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K<T> {
    C(T),
    P(usize),
    R,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tm {
    C,
    L(usize),
    Q(usize, usize),
    R(usize),
    U(usize, Vec<usize>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum I<T> {
    Lin { t: Vec<(T, usize)>, c: T },
    Mul(Vec<usize>),
    Div { x: usize, y: usize, k: bool },
    Bool { x: usize, y: usize, b: u8 },
    Isz(usize),
    Commit(Vec<usize>),
    Hint { h: usize, v: Vec<usize>, n: usize },
    Const(K<T>),
    Call { s: usize, v: Vec<usize>, n: usize },
    UBin { b: u8, x: usize, y: usize },
    USel(usize, usize, usize),
    ToBin { x: usize, n: usize },
    Cust { g: usize, v: Vec<usize> },
    Expr(Vec<(T, Tm)>),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Circ<T> {
    pub n: usize,
    pub i: Vec<I<T>>,
    pub k: Vec<(u8, usize)>, // 1 zero, 2 nonzero, 3 bool
    pub z: Vec<usize>,
}
/// `call` refers to the circuit's identifier; `ids` are sorted with 0 (the root) first.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Prog<T> {
    pub npub: usize,
    pub nz: usize,
    pub ids: Vec<usize>,
    pub c: Vec<Circ<T>>,
}

impl<T: Clone> Prog<T> {
    /// drops circuits that the root does not reach
    pub fn prune(&mut self) {
        let mut live = vec![0usize];
        let mut k = 0;
        while k < live.len() {
            let at = self.ids.iter().position(|x| *x == live[k]).unwrap();
            for i in self.c[at].i.iter() {
                if let I::Call { s, .. } = i {
                    if !live.contains(s) {
                        live.push(*s);
                    }
                }
            }
            k += 1;
        }
        let keep: Vec<usize> = (0..self.ids.len()).filter(|j| live.contains(&self.ids[*j])).collect();
        self.c = keep.iter().map(|j| self.c[*j].clone()).collect();
        self.ids = keep.iter().map(|j| self.ids[*j]).collect();
    }
}
impl<T> I<T> {
    pub fn num_outputs(&self) -> usize {
        match self {
            I::Hint { n, .. } | I::Call { n, .. } | I::ToBin { n, .. } => *n,
            _ => 1,
        }
    }
}

pub const BIN: [&str; 17] = [
    "Div", "Pow", "IntDiv", "Mod", "ShiftL", "ShiftR", "LesserEq", "GreaterEq", "Lesser", "Greater",
    "Eq", "NotEq", "BoolOr", "BoolAnd", "BitOr", "BitAnd", "BitXor",
];
/// names of the builtin hints in identifier order
pub const HINTS: [&str; 20] = [
    "Identity", "Div", "Eq", "NotEq", "BoolOr", "BoolAnd", "BitOr", "BitAnd", "BitXor", "Select", "Pow",
    "IntDiv", "Mod", "ShiftL", "ShiftR", "LesserEq", "GreaterEq", "Lesser", "Greater", "ToBinary",
];
pub const HINT_BASE: usize = 0xccc000000000;
const BOOLS: [&str; 4] = ["", "xor", "or", "and"];
const CONS: [&str; 4] = ["", "z", "nz", "b"];
pub const CUSTOM: [&str; 3] = ["vp.lin", "vp.sq", "vp.fail"];

pub fn hint_id(name: &str) -> usize {
    if let Some(i) = HINTS.iter().position(|x| *x == name) {
        HINT_BASE + i
    } else {
        hints::registry::hint_key_to_id(name)
    }
}
pub fn hint_name(id: usize) -> String {
    if id >= HINT_BASE && id < HINT_BASE + 20 {
        return HINTS[id - HINT_BASE].to_string();
    }
    thread_local!(static M: HashMap<usize, &'static str> =
        CUSTOM.iter().map(|x| (hint_id(x), *x)).collect());
    M.with(|m| m.get(&id).map(|x| x.to_string()).unwrap_or(format!("#{id}")))
}
pub fn custom_hint<T: Field>(name: &str, a: &[T], n: usize) -> Result<Vec<T>, ()> {
    match name {
        "vp.lin" => {
            let s: T = a.iter().enumerate().map(|(j, x)| T::from(j as u32 + 1) * *x).sum();
            Ok((1..=n).map(|i| T::from(i as u32) + s).collect())
        }
        "vp.sq" => Ok((1..=n).map(|i| a[0] * a[0] + T::from(i as u32) * a[a.len() - 1]).collect()),
        "vp.fail" => {
            if a[0] == T::ONE {
                Err(())
            } else {
                Ok(vec![a[0]; n])
            }
        }
        _ => Err(()),
    }
}
fn mk_hint<T: Field, const K: usize>(a: &[T], o: &mut [T]) -> Result<(), crate::utils::error::Error> {
    let r = custom_hint(CUSTOM[K], a, o.len())
        .map_err(|_| crate::utils::error::Error::UserError("vp hint failed".to_string()))?;
    o.copy_from_slice(&r);
    Ok(())
}
pub fn registry<T: Field>() -> crate::hints::registry::HintRegistry<T> {
    let mut r = crate::hints::registry::HintRegistry::new();
    r.register(CUSTOM[0], mk_hint::<T, 0>);
    r.register(CUSTOM[1], mk_hint::<T, 1>);
    r.register(CUSTOM[2], mk_hint::<T, 2>);
    r
}

// ---------------------------------------------------------------- from the code's types
pub fn coef<C: Config>(c: &Coef<C>) -> K<F<C>> {
    match c {
        Coef::Constant(x) => K::C(*x),
        Coef::Random => K::R,
        Coef::PublicInput(i) => K::P(*i),
    }
}
fn lin<C: Config>(l: &expr::LinComb<C>) -> I<F<C>> {
    I::Lin { t: l.terms.iter().map(|t| (t.coef, t.var)).collect(), c: l.constant }
}
pub trait ToI<C: Config> {
    fn to_i(&self) -> I<F<C>>;
}
pub trait ToK {
    fn to_k(&self) -> (u8, usize);
}
impl ToK for usize {
    fn to_k(&self) -> (u8, usize) {
        (1, *self)
    }
}
impl ToK for source::Constraint {
    fn to_k(&self) -> (u8, usize) {
        (self.typ as u8, self.var)
    }
}
impl<C: Config> ToI<C> for source::Instruction<C> {
    fn to_i(&self) -> I<F<C>> {
        use source::Instruction::*;
        match self {
            LinComb(l) => lin(l),
            Mul(v) => I::Mul(v.clone()),
            Div { x, y, checked } => I::Div { x: *x, y: *y, k: *checked },
            BoolBinOp { x, y, op } => I::Bool { x: *x, y: *y, b: op.clone() as u8 },
            IsZero(x) => I::Isz(*x),
            Commit(v) => I::Commit(v.clone()),
            Hint { hint_id, inputs, num_outputs } => I::Hint { h: *hint_id, v: inputs.clone(), n: *num_outputs },
            ConstantLike(c) => I::Const(coef(c)),
            SubCircuitCall { sub_circuit_id, inputs, num_outputs } => {
                I::Call { s: *sub_circuit_id, v: inputs.clone(), n: *num_outputs }
            }
            UnconstrainedBinOp { x, y, op } => I::UBin { b: op.clone() as u8, x: *x, y: *y },
            UnconstrainedSelect { cond, if_true, if_false } => I::USel(*cond, *if_true, *if_false),
            CustomGate { gate_type, inputs } => I::Cust { g: *gate_type, v: inputs.clone() },
            ToBinary { x, num_bits } => I::ToBin { x: *x, n: *num_bits },
        }
    }
}
impl<C: Config> ToI<C> for hint_normalized::Instruction<C> {
    fn to_i(&self) -> I<F<C>> {
        use hint_normalized::Instruction::*;
        match self {
            LinComb(l) => lin(l),
            Mul(v) => I::Mul(v.clone()),
            Hint { hint_id, inputs, num_outputs } => I::Hint { h: *hint_id, v: inputs.clone(), n: *num_outputs },
            ConstantLike(c) => I::Const(coef(c)),
            SubCircuitCall { sub_circuit_id, inputs, num_outputs } => {
                I::Call { s: *sub_circuit_id, v: inputs.clone(), n: *num_outputs }
            }
            CustomGate { gate_type, inputs } => I::Cust { g: *gate_type, v: inputs.clone() },
        }
    }
}
impl<C: Config> ToI<C> for hint_less::Instruction<C> {
    fn to_i(&self) -> I<F<C>> {
        use hint_less::Instruction::*;
        match self {
            LinComb(l) => lin(l),
            Mul(v) => I::Mul(v.clone()),
            ConstantLike(c) => I::Const(coef(c)),
            SubCircuitCall { sub_circuit_id, inputs, num_outputs } => {
                I::Call { s: *sub_circuit_id, v: inputs.clone(), n: *num_outputs }
            }
            CustomGate { gate_type, inputs } => I::Cust { g: *gate_type, v: inputs.clone() },
        }
    }
}
impl<C: Config> ToI<C> for dest::Instruction<C> {
    fn to_i(&self) -> I<F<C>> {
        use dest::Instruction::*;
        match self {
            InternalVariable { expr } => I::Expr(
                expr.iter()
                    .map(|t| {
                        (
                            t.coef,
                            match &t.vars {
                                expr::VarSpec::Const => Tm::C,
                                expr::VarSpec::Linear(x) => Tm::L(*x),
                                expr::VarSpec::Quad(x, y) => Tm::Q(*x, *y),
                                expr::VarSpec::RandomLinear(x) => Tm::R(*x),
                                expr::VarSpec::Custom { gate_type, inputs } => Tm::U(*gate_type, inputs.clone()),
                            },
                        )
                    })
                    .collect(),
            ),
            SubCircuitCall { sub_circuit_id, inputs, num_outputs } => {
                I::Call { s: *sub_circuit_id, v: inputs.clone(), n: *num_outputs }
            }
            ConstantLike { value } => I::Const(coef(value)),
        }
    }
}
pub fn from_root<C: Config, R: common::IrConfig<Config = C>>(r: &common::RootCircuit<R>) -> Prog<F<C>>
where
    R::Instruction: ToI<C>,
    R::Constraint: ToK,
{
    let mut ids: Vec<usize> = r.circuits.keys().cloned().collect();
    ids.sort();
    Prog {
        npub: r.num_public_inputs,
        nz: r.expected_num_output_zeroes,
        c: ids
            .iter()
            .map(|i| {
                let c = &r.circuits[i];
                Circ {
                    n: c.num_inputs,
                    i: c.instructions.iter().map(|x| x.to_i()).collect(),
                    k: c.constraints.iter().map(|x| x.to_k()).collect(),
                    z: c.outputs.clone(),
                }
            })
            .collect(),
        ids,
    }
}

// ---------------------------------------------------------------- to the source language
fn ubin(b: u8) -> source::UnconstrainedBinOpType {
    use source::UnconstrainedBinOpType::*;
    [
        Div, Pow, IntDiv, Mod, ShiftL, ShiftR, LesserEq, GreaterEq, Lesser, Greater, Eq, NotEq, BoolOr, BoolAnd,
        BitOr, BitAnd, BitXor,
    ][b as usize - 1]
        .clone()
}
pub fn kcoef<C: Config>(k: &K<F<C>>) -> Coef<C> {
    match k {
        K::C(x) => Coef::Constant(*x),
        K::R => Coef::Random,
        K::P(i) => Coef::PublicInput(*i),
    }
}
fn lc<C: Config>(t: &[(F<C>, usize)], c: F<C>) -> expr::LinComb<C> {
    expr::LinComb {
        terms: t.iter().map(|(a, v)| expr::LinCombTerm { coef: *a, var: *v }).collect(),
        constant: c,
    }
}
pub fn to_source<C: Config>(p: &Prog<F<C>>) -> source::RootCircuit<C> {
    let mut r = source::RootCircuit::<C> {
        num_public_inputs: p.npub,
        expected_num_output_zeroes: p.nz,
        circuits: HashMap::new(),
    };
    for (id, c) in p.ids.iter().zip(p.c.iter()) {
        use source::Instruction::*;
        let instructions = c
            .i
            .iter()
            .map(|x| match x {
                I::Lin { t, c } => LinComb(lc(t, *c)),
                I::Mul(v) => Mul(v.clone()),
                I::Div { x, y, k } => Div { x: *x, y: *y, checked: *k },
                I::Bool { x, y, b } => BoolBinOp {
                    x: *x,
                    y: *y,
                    op: match b {
                        1 => source::BoolBinOpType::Xor,
                        2 => source::BoolBinOpType::Or,
                        _ => source::BoolBinOpType::And,
                    },
                },
                I::Isz(x) => IsZero(*x),
                I::Commit(v) => Commit(v.clone()),
                I::Hint { h, v, n } => Hint { hint_id: *h, inputs: v.clone(), num_outputs: *n },
                I::Const(k) => ConstantLike(kcoef::<C>(k)),
                I::Call { s, v, n } => SubCircuitCall { sub_circuit_id: *s, inputs: v.clone(), num_outputs: *n },
                I::UBin { b, x, y } => UnconstrainedBinOp { x: *x, y: *y, op: ubin(*b) },
                I::USel(c, t, f) => UnconstrainedSelect { cond: *c, if_true: *t, if_false: *f },
                I::ToBin { x, n } => ToBinary { x: *x, num_bits: *n },
                I::Cust { g, v } => CustomGate { gate_type: *g, inputs: v.clone() },
                I::Expr(_) => unreachable!(),
            })
            .collect();
        r.circuits.insert(
            *id,
            source::Circuit::<C> {
                num_inputs: c.n,
                instructions,
                constraints: c
                    .k
                    .iter()
                    .map(|(t, v)| source::Constraint {
                        typ: match t {
                            1 => source::ConstraintType::Zero,
                            2 => source::ConstraintType::NonZero,
                            _ => source::ConstraintType::Bool,
                        },
                        var: *v,
                    })
                    .collect(),
                outputs: c.z.clone(),
            },
        );
    }
    r
}

// ---------------------------------------------------------------- JSON
pub fn jf<T: Field>(x: &T) -> Value {
    let u = x.to_u256();
    if T::MODULUS <= ethnum::U256::from(2147483647u32) {
        json!(u.as_u64())
    } else {
        json!(u.to_string())
    }
}
pub fn jmod<T: Field>() -> Value {
    if T::MODULUS <= ethnum::U256::from(2147483647u32) {
        json!(T::MODULUS.as_u64())
    } else {
        json!(T::MODULUS.to_string())
    }
}
pub fn jfs<T: Field>(x: &[T]) -> Value {
    Value::Array(x.iter().map(jf).collect())
}
pub fn un<T: Field>(v: &Value) -> T {
    match v {
        Value::Number(n) => T::from_u256(ethnum::U256::from(n.as_u64().unwrap())),
        Value::String(s) => T::from_u256(s.parse::<ethnum::U256>().unwrap()),
        _ => panic!("not a field value: {v}"),
    }
}
pub fn jk<T: Field>(k: &K<T>) -> Value {
    match k {
        K::C(x) => json!(["c", jf(x)]),
        K::P(i) => json!(["p", i + 1]),
        K::R => json!(["r"]),
    }
}
/// `raw`: calls name the callee's identifier (a string); otherwise its position
pub fn ji<T: Field>(x: &I<T>, pos: &dyn Fn(usize) -> Value) -> Value {
    match x {
        I::Lin { t, c } => {
            json!({"o":"lin","t":t.iter().map(|(a,v)| json!([jf(a),v])).collect::<Vec<_>>(),"c":jf(c)})
        }
        I::Mul(v) => json!({"o":"mul","v":v}),
        I::Div { x, y, k } => json!({"o":"div","x":x,"y":y,"k":k}),
        I::Bool { x, y, b } => json!({"o":"bool","x":x,"y":y,"b":BOOLS[*b as usize]}),
        I::Isz(x) => json!({"o":"isz","x":x}),
        I::Commit(v) => json!({"o":"commit","v":v}),
        I::Hint { h, v, n } => json!({"o":"hint","h":hint_name(*h),"v":v,"n":n}),
        I::Const(k) => json!({"o":"const","f":jk(k)}),
        I::Call { s, v, n } => json!({"o":"call","s":pos(*s),"v":v,"n":n}),
        I::UBin { b, x, y } => json!({"o":"ubin","b":BIN[*b as usize-1],"x":x,"y":y}),
        I::USel(c, t, f) => json!({"o":"usel","v":[c,t,f]}),
        I::ToBin { x, n } => json!({"o":"tobin","x":x,"n":n}),
        I::Cust { g, v } => json!({"o":"cust","g":hint_name(*g),"v":v}),
        I::Expr(t) => json!({"o":"expr","t":t.iter().map(|(c,k)| match k {
            Tm::C => json!({"k":"c","c":jf(c),"v":[]}),
            Tm::L(x) => json!({"k":"l","c":jf(c),"v":[x]}),
            Tm::Q(x,y) => json!({"k":"q","c":jf(c),"v":[x,y]}),
            Tm::R(x) => json!({"k":"r","c":jf(c),"v":[x]}),
            Tm::U(g,v) => json!({"k":"u","c":jf(c),"v":v,"g":hint_name(*g)}),
        }).collect::<Vec<_>>()}),
    }
}
pub fn jprog<T: Field>(p: &Prog<T>, raw: bool) -> Value {
    let ids = p.ids.clone();
    let pos = move |s: usize| -> Value {
        if raw {
            json!(s.to_string())
        } else {
            json!(ids.iter().position(|x| *x == s).map(|x| x + 1).unwrap_or(0))
        }
    };
    json!({
        "npub": p.npub, "nz": p.nz,
        "ids": p.ids.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
        "c": p.c.iter().map(|c| json!({
            "n": c.n,
            "i": c.i.iter().map(|x| ji(x, &pos)).collect::<Vec<_>>(),
            "k": c.k.iter().map(|(t,v)| json!([CONS[*t as usize], v])).collect::<Vec<_>>(),
            "z": c.z,
        })).collect::<Vec<_>>(),
    })
}
fn us(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn uv(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(us).collect()
}
/// Programs written by the model checker (positions as callee names, ids 0..)
pub fn parse_prog<T: Field>(v: &Value) -> Prog<T> {
    let c: Vec<Circ<T>> = v["c"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| Circ {
            n: us(&c["n"]),
            i: c["i"].as_array().unwrap().iter().map(parse_i).collect(),
            k: c["k"]
                .as_array()
                .unwrap()
                .iter()
                .map(|k| {
                    (
                        match k[0].as_str().unwrap() {
                            "z" => 1,
                            "nz" => 2,
                            _ => 3,
                        },
                        us(&k[1]),
                    )
                })
                .collect(),
            z: uv(&c["z"]),
        })
        .collect();
    Prog { npub: us(&v["npub"]), nz: us(&v["nz"]), ids: (0..c.len()).collect(), c }
}
pub fn parse_i<T: Field>(x: &Value) -> I<T> {
    let v = || uv(&x["v"]);
    match x["o"].as_str().unwrap() {
        "lin" => I::Lin {
            t: x["t"].as_array().unwrap().iter().map(|t| (un(&t[0]), us(&t[1]))).collect(),
            c: un(&x["c"]),
        },
        "mul" => I::Mul(v()),
        "div" => I::Div { x: us(&x["x"]), y: us(&x["y"]), k: x["k"].as_bool().unwrap() },
        "bool" => I::Bool {
            x: us(&x["x"]),
            y: us(&x["y"]),
            b: match x["b"].as_str().unwrap() {
                "xor" => 1,
                "or" => 2,
                _ => 3,
            },
        },
        "isz" => I::Isz(us(&x["x"])),
        "hint" => I::Hint { h: hint_id(x["h"].as_str().unwrap()), v: v(), n: us(&x["n"]) },
        "const" => I::Const(match x["f"][0].as_str().unwrap() {
            "c" => K::C(un(&x["f"][1])),
            "p" => K::P(us(&x["f"][1]) - 1),
            _ => K::R,
        }),
        "call" => I::Call { s: us(&x["s"]) - 1, v: v(), n: us(&x["n"]) },
        "ubin" => I::UBin {
            b: BIN.iter().position(|b| *b == x["b"].as_str().unwrap()).unwrap() as u8 + 1,
            x: us(&x["x"]),
            y: us(&x["y"]),
        },
        "usel" => {
            let v = v();
            I::USel(v[0], v[1], v[2])
        }
        "tobin" => I::ToBin { x: us(&x["x"]), n: us(&x["n"]) },
        o => panic!("parse_i {o}"),
    }
}

// ---------------------------------------------------------------- evaluation (screening only)
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ok,
    Rej,
    Undef,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Res<T> {
    pub st: St,
    pub ok: bool,
    pub out: Vec<T>,
}
thread_local! {
    /// did the last run of a program divide by zero?
    pub static DZ: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn hint_val<T: Field>(h: usize, a: &[T], n: usize) -> Result<Vec<T>, ()> {
    if h >= HINT_BASE && h < HINT_BASE + 20 {
        if HINTS[h - HINT_BASE] == "ToBinary" {
            return hints::to_binary(a[0], n).map_err(|_| ());
        }
        return Ok(hints::stub_impl(h, &a.to_vec(), n));
    }
    custom_hint(&hint_name(h), a, n)
}
pub fn has_random(v: &Value) -> bool {
    let t = v.to_string();
    t.contains("[\"r\"]") || t.contains("\"k\":\"r\"")
}
pub struct Ev<'a, T> {
    pub p: &'a Prog<T>,
    pub pubs: &'a [T],
    pub chal: &'a mut dyn FnMut() -> T,
}
impl<'a, T: Field> Ev<'a, T> {
    fn coef(&mut self, k: &K<T>) -> T {
        match k {
            K::C(x) => *x,
            K::P(i) => self.pubs[*i],
            K::R => (self.chal)(),
        }
    }
    fn circ(&mut self, id: usize, xs: &[T]) -> (St, bool, Vec<T>, Vec<T>) {
        let p = self.p;
        let c = &p.c[p.ids.iter().position(|x| *x == id).unwrap()];
        let mut v = vec![T::ZERO];
        v.extend_from_slice(xs);
        let mut con = true;
        // a failing instruction demands rejection only if its result is constrained or
        // (in the root) an output; otherwise a pass may drop it
        let bad = |st: St, at: usize, n: usize| {
            let live = |x: &usize| *x >= at && *x < at + n;
            let must = c.k.iter().any(|(_, x)| live(x)) || (id == 0 && c.z.iter().any(live));
            (if st == St::Rej && !must { St::Undef } else { st }, false, vec![T::ZERO; c.z.len()], vec![])
        };
        for i in c.i.iter() {
            let at = v.len();
            let no = i.num_outputs();
            let bad = |st: St| bad(st, at, no);
            match i {
                I::Lin { t, c } => {
                    let mut s = *c;
                    for (a, x) in t {
                        s += *a * v[*x];
                    }
                    v.push(s);
                }
                I::Mul(x) => v.push(x.iter().map(|j| v[*j]).product()),
                I::Div { x, y, k } => {
                    if v[*y].is_zero() {
                        DZ.with(|d| d.set(true));
                        if v[*x].is_zero() && !*k {
                            v.push(T::ZERO)
                        } else {
                            return bad(St::Rej);
                        }
                    } else {
                        v.push(v[*x] * v[*y].inv().unwrap())
                    }
                }
                I::Bool { x, y, b } => {
                    let (x, y) = (v[*x], v[*y]);
                    if (!x.is_zero() && x != T::ONE) || (!y.is_zero() && y != T::ONE) {
                        return bad(St::Rej);
                    }
                    v.push(match b {
                        1 => x + y - x * y - x * y,
                        2 => x + y - x * y,
                        _ => x * y,
                    });
                }
                I::Isz(x) => v.push(if v[*x].is_zero() { T::ONE } else { T::ZERO }),
                I::Commit(_) => v.push((self.chal)()),
                I::Hint { h, v: a, n } => {
                    let a: Vec<T> = a.iter().map(|j| v[*j]).collect();
                    match hint_val(*h, &a, *n) {
                        Ok(r) => v.extend(r),
                        Err(_) => return bad(St::Rej),
                    }
                }
                I::Const(k) => {
                    let x = self.coef(k);
                    v.push(x)
                }
                I::Call { s, v: a, .. } => {
                    let a: Vec<T> = a.iter().map(|j| v[*j]).collect();
                    let (st, cc, out, _) = self.circ(*s, &a);
                    if st != St::Ok {
                        return (st, false, vec![T::ZERO; c.z.len()], vec![]);
                    }
                    con &= cc;
                    v.extend(out);
                }
                I::UBin { b, x, y } => match ubin(*b).eval(&v[*x], &v[*y]) {
                    Ok(r) => v.push(r),
                    Err(_) => return bad(St::Undef),
                },
                I::USel(c, t, f) => v.push(if v[*c].is_zero() { v[*f] } else { v[*t] }),
                I::ToBin { x, n } => match hints::to_binary(v[*x], *n) {
                    Ok(r) => v.extend(r),
                    Err(_) => return bad(St::Rej),
                },
                I::Cust { g, v: a } => {
                    let a: Vec<T> = a.iter().map(|j| v[*j]).collect();
                    match hint_val(*g, &a, 1) {
                        Ok(r) => v.extend(r),
                        Err(_) => return bad(St::Rej),
                    }
                }
                I::Expr(t) => {
                    let mut s = T::ZERO;
                    for (c, k) in t {
                        s += match k {
                            Tm::C => *c,
                            Tm::L(x) => *c * v[*x],
                            Tm::Q(x, y) => *c * v[*x] * v[*y],
                            Tm::R(x) => v[*x] * (self.chal)(),
                            Tm::U(g, a) => {
                                let a: Vec<T> = a.iter().map(|j| v[*j]).collect();
                                *c * hint_val(*g, &a, 1).unwrap_or(vec![T::ZERO])[0]
                            }
                        };
                    }
                    v.push(s);
                }
            }
        }
        for (t, x) in c.k.iter() {
            con &= match t {
                1 => v[*x].is_zero(),
                2 => !v[*x].is_zero(),
                _ => v[*x].is_zero() || v[*x] == T::ONE,
            };
        }
        (St::Ok, con, c.z.iter().map(|j| v[*j]).collect(), v)
    }
    pub fn run(&mut self, xs: &[T]) -> Res<T> {
        DZ.with(|d| d.set(false));
        let (st, mut ok, out, _) = self.circ(0, xs);
        for j in 0..self.p.nz {
            ok &= out[j].is_zero();
        }
        Res { st, ok: ok && st == St::Ok, out: out[self.p.nz..].to_vec() }
    }
    pub fn outs(&mut self, xs: &[T]) -> (St, Vec<T>) {
        let (st, _, out, _) = self.circ(0, xs);
        (st, out)
    }
    /// values of all variables of the root (1-based; empty if the run stops early)
    pub fn values(&mut self, xs: &[T]) -> Vec<T> {
        self.circ(0, xs).3
    }
}

// ---------------------------------------------------------------- layered circuits
pub fn jlayered<C: Config, I_: InputType>(l: &layered::Circuit<C, I_>) -> Value {
    let ji = |x: &I_::Input| json!([x.layer(), x.offset()]);
    json!({
        "npub": l.num_public_inputs, "nact": l.num_actual_outputs, "nz": l.expected_num_output_zeroes,
        "l": l.layer_ids.iter().map(|x| x.saturating_add(1)).collect::<Vec<_>>(),
        "s": l.segments.iter().map(|s| json!({
            "ni": s.num_inputs.to_vec(), "no": s.num_outputs,
            "ch": s.child_segs.iter().map(|(id, al)| json!([id.saturating_add(1),
                al.iter().map(|a| json!([a.input_offset.to_vec(), a.output_offset])).collect::<Vec<_>>()])).collect::<Vec<_>>(),
            "m": s.gate_muls.iter().map(|g| json!([ji(&g.inputs[0]), ji(&g.inputs[1]), g.output, jk(&coef::<C>(&g.coef))])).collect::<Vec<_>>(),
            "a": s.gate_adds.iter().map(|g| json!([ji(&g.inputs[0]), g.output, jk(&coef::<C>(&g.coef))])).collect::<Vec<_>>(),
            "k": s.gate_consts.iter().map(|g| json!([g.output, jk(&coef::<C>(&g.coef))])).collect::<Vec<_>>(),
            "u": s.gate_customs.iter().map(|g| json!([hint_name(g.gate_type), g.inputs.iter().map(ji).collect::<Vec<_>>(), g.output, jk(&coef::<C>(&g.coef))])).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
    })
}

fn seg_apply<C: Config, I_: InputType>(
    l: &layered::Circuit<C, I_>,
    si: usize,
    cur: &[&[F<C>]],
    ino: &[usize],
    oo: usize,
    nxt: &mut [F<C>],
    pubs: &[F<C>],
    chal: &mut dyn FnMut() -> F<C>,
) {
    let s = &l.segments[si];
    let val = |i: &I_::Input| cur[i.layer()][ino[i.layer()] + i.offset()];
    let mut cf = |c: &Coef<C>| match coef::<C>(c) {
        K::C(x) => x,
        K::P(i) => pubs[i],
        K::R => chal(),
    };
    for g in &s.gate_muls {
        nxt[oo + g.output] += val(&g.inputs[0]) * val(&g.inputs[1]) * cf(&g.coef);
    }
    for g in &s.gate_adds {
        nxt[oo + g.output] += val(&g.inputs[0]) * cf(&g.coef);
    }
    for g in &s.gate_consts {
        nxt[oo + g.output] += cf(&g.coef);
    }
    for g in &s.gate_customs {
        let a: Vec<F<C>> = g.inputs.iter().map(|i| val(i)).collect();
        nxt[oo + g.output] += hint_val(g.gate_type, &a, 1).unwrap_or(vec![Default::default()])[0] * cf(&g.coef);
    }
    for (sub, al) in &s.child_segs {
        for a in al {
            let off: Vec<usize> = a.input_offset.iter().enumerate().map(|(k, o)| ino[k] + o).collect();
            seg_apply(l, *sub, cur, &off, oo + a.output_offset, nxt, pubs, chal);
        }
    }
}
pub fn run_layered<C: Config, I_: InputType>(
    l: &layered::Circuit<C, I_>,
    xs: &[F<C>],
    pubs: &[F<C>],
    chal: &mut dyn FnMut() -> F<C>,
) -> Res<F<C>> {
    let mut layers: Vec<Vec<F<C>>> = vec![xs.to_vec()];
    for id in &l.layer_ids {
        let s = &l.segments[*id];
        let mut nxt = vec![F::<C>::default(); s.num_outputs];
        {
            let cur: Vec<&[F<C>]> = (0..s.num_inputs.len()).map(|k| &layers[layers.len() - 1 - k][..]).collect();
            let ino = vec![0; cur.len()];
            seg_apply(l, *id, &cur, &ino, 0, &mut nxt, pubs, chal);
        }
        layers.push(nxt);
    }
    let o = layers.last().unwrap();
    use crate::field::FieldArith;
    Res {
        st: St::Ok,
        ok: o[..l.expected_num_output_zeroes].iter().all(|x| x.is_zero()),
        out: o[l.expected_num_output_zeroes..l.num_actual_outputs].to_vec(),
    }
}

// ---------------------------------------------------------------- to the lower forms
pub fn to_hn<C: Config>(p: &Prog<F<C>>) -> hint_normalized::RootCircuit<C> {
    use hint_normalized::Instruction::*;
    let mut r = hint_normalized::RootCircuit::<C> {
        num_public_inputs: p.npub,
        expected_num_output_zeroes: p.nz,
        circuits: HashMap::new(),
    };
    for (id, c) in p.ids.iter().zip(p.c.iter()) {
        let instructions = c
            .i
            .iter()
            .map(|x| match x {
                I::Lin { t, c } => LinComb(lc(t, *c)),
                I::Mul(v) => Mul(v.clone()),
                I::Hint { h, v, n } => Hint { hint_id: *h, inputs: v.clone(), num_outputs: *n },
                I::Const(k) => ConstantLike(kcoef::<C>(k)),
                I::Call { s, v, n } => SubCircuitCall { sub_circuit_id: *s, inputs: v.clone(), num_outputs: *n },
                I::Cust { g, v } => CustomGate { gate_type: *g, inputs: v.clone() },
                _ => unreachable!(),
            })
            .collect();
        r.circuits.insert(
            *id,
            hint_normalized::Circuit::<C> {
                num_inputs: c.n,
                instructions,
                constraints: c.k.iter().map(|(_, v)| *v).collect(),
                outputs: c.z.clone(),
            },
        );
    }
    r
}
pub fn to_hl<C: Config>(p: &Prog<F<C>>) -> hint_less::RootCircuit<C> {
    use hint_less::Instruction::*;
    let mut r = hint_less::RootCircuit::<C> {
        num_public_inputs: p.npub,
        expected_num_output_zeroes: p.nz,
        circuits: HashMap::new(),
    };
    for (id, c) in p.ids.iter().zip(p.c.iter()) {
        let instructions = c
            .i
            .iter()
            .map(|x| match x {
                I::Lin { t, c } => LinComb(lc(t, *c)),
                I::Mul(v) => Mul(v.clone()),
                I::Const(k) => ConstantLike(kcoef::<C>(k)),
                I::Call { s, v, n } => SubCircuitCall { sub_circuit_id: *s, inputs: v.clone(), num_outputs: *n },
                I::Cust { g, v } => CustomGate { gate_type: *g, inputs: v.clone() },
                _ => unreachable!(),
            })
            .collect();
        r.circuits.insert(
            *id,
            hint_less::Circuit::<C> {
                num_inputs: c.n,
                instructions,
                constraints: c.k.iter().map(|(_, v)| *v).collect(),
                outputs: c.z.clone(),
            },
        );
    }
    r
}
pub fn to_dest<C: Config>(p: &Prog<F<C>>) -> dest::RootCircuitRelaxed<C> {
    use dest::Instruction::*;
    let mut r = dest::RootCircuitRelaxed::<C> {
        num_public_inputs: p.npub,
        expected_num_output_zeroes: p.nz,
        circuits: HashMap::new(),
    };
    for (id, c) in p.ids.iter().zip(p.c.iter()) {
        let instructions = c
            .i
            .iter()
            .map(|x| match x {
                I::Expr(t) => InternalVariable {
                    expr: expr::Expression::from_terms(
                        t.iter()
                            .map(|(k, m)| match m {
                                Tm::C => expr::Term::new_const(*k),
                                Tm::L(x) => expr::Term::new_linear(*k, *x),
                                Tm::Q(x, y) => expr::Term::new_quad(*k, *x, *y),
                                Tm::R(x) => expr::Term::new_random_linear(*x),
                                Tm::U(g, v) => expr::Term { coef: *k, vars: expr::VarSpec::Custom { gate_type: *g, inputs: v.clone() } },
                            })
                            .collect(),
                    ),
                },
                I::Const(k) => ConstantLike { value: kcoef::<C>(k) },
                I::Call { s, v, n } => SubCircuitCall { sub_circuit_id: *s, inputs: v.clone(), num_outputs: *n },
                _ => unreachable!(),
            })
            .collect();
        r.circuits.insert(
            *id,
            dest::CircuitRelaxed::<C> {
                num_inputs: c.n,
                instructions,
                constraints: c.k.iter().map(|(_, v)| *v).collect(),
                outputs: c.z.clone(),
            },
        );
    }
    r
}
