//! Declared circuit structures and their variables (F05). See specs/Flat.tla.
use super::fields::*;
use super::gen::{self, Rng};
use super::pipe::panic_msg;
use super::prog::*;
use crate::circuit::config::Config;
use crate::compile::CompileOptions;
use crate::field::Field;
use crate::frontend::internal::{DumpLoadTwoVariables, DumpLoadVariables};
use crate::frontend::{self, declare_circuit, extra, BasicAPI, Define, EmptyHintCaller, RootAPI, Variable};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

// Values of a structure as trees, independent of the macros.
trait Tree<T> {
    fn tree(&self, f: &mut dyn FnMut(&T) -> Value) -> Value;
    /// fresh values, vectors get a length
    fn renew(&mut self, len: &mut dyn FnMut() -> usize, f: &mut dyn FnMut() -> T);
}
#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct W<T>(pub T);
impl<T: Clone> Tree<T> for W<T> {
    fn tree(&self, f: &mut dyn FnMut(&T) -> Value) -> Value {
        f(&self.0)
    }
    fn renew(&mut self, _: &mut dyn FnMut() -> usize, f: &mut dyn FnMut() -> T) {
        self.0 = f();
    }
}
impl<T: Clone, U: Tree<T>, const N: usize> Tree<T> for [U; N] {
    fn tree(&self, f: &mut dyn FnMut(&T) -> Value) -> Value {
        Value::Array(self.iter().map(|x| x.tree(f)).collect())
    }
    fn renew(&mut self, l: &mut dyn FnMut() -> usize, f: &mut dyn FnMut() -> T) {
        for x in self.iter_mut() {
            x.renew(l, f);
        }
    }
}
impl<T: Clone, U: Tree<T> + Default> Tree<T> for Vec<U> {
    fn tree(&self, f: &mut dyn FnMut(&T) -> Value) -> Value {
        Value::Array(self.iter().map(|x| x.tree(f)).collect())
    }
    fn renew(&mut self, l: &mut dyn FnMut() -> usize, f: &mut dyn FnMut() -> T) {
        let n = l();
        self.clear();
        for _ in 0..n {
            let mut x = U::default();
            x.renew(l, f);
            self.push(x);
        }
    }
}
/// a scalar of a declared structure that remembers which type it has
impl<T: Clone> DumpLoadVariables<W<T>> for W<T> {
    fn dump_into(&self, v: &mut Vec<W<T>>) {
        v.push(self.clone());
    }
    fn load_from(&mut self, v: &mut &[W<T>]) {
        *self = v[0].clone();
        *v = &v[1..];
    }
    fn num_vars(&self) -> usize {
        1
    }
}

macro_rules! ty {
    (Variable) => { json!(["v"]) };
    (PublicVariable) => { json!(["p"]) };
    ([$e:tt; $n:expr]) => { json!(["a", $n, ty!($e)]) };
    ([$e:tt]) => { json!(["l", ty!($e)]) };
    ($t:tt) => { json!(["o"]) };
}
macro_rules! other {
    (u32, $x:expr, $f:expr) => { json!($x) };
    ([u32; $n:expr], $x:expr, $f:expr) => { json!($x) };
    ($t:tt, $x:expr, $f:expr) => { $x.tree($f) };
}
macro_rules! fillo {
    (u32, $x:expr, $l:expr, $f:expr) => { { $x = $l() as u32; } };
    ([u32; $n:expr], $x:expr, $l:expr, $f:expr) => { for x in $x.iter_mut() { *x = $l() as u32; } };
    ($t:tt, $x:expr, $l:expr, $f:expr) => { $x.renew($l, $f) };
}
macro_rules! vars {
    (u32, $x:expr, $v:expr) => { };
    ([u32; $n:expr], $x:expr, $v:expr) => { };
    ($t:tt, $x:expr, $v:expr) => { $x.leaves($v) };
}
/// the variables of a field, in order
trait Leaves<T> {
    fn leaves(&self, v: &mut Vec<T>);
}
impl Leaves<Variable> for Variable {
    fn leaves(&self, v: &mut Vec<Variable>) {
        v.push(*self);
    }
}
impl<T, U: Leaves<T>> Leaves<T> for Vec<U> {
    fn leaves(&self, v: &mut Vec<T>) {
        self.iter().for_each(|x| x.leaves(v));
    }
}
impl<T, U: Leaves<T>, const N: usize> Leaves<T> for [U; N] {
    fn leaves(&self, v: &mut Vec<T>) {
        self.iter().for_each(|x| x.leaves(v));
    }
}
struct Rec {
    ty: Value,
    run: fn(&mut Rng) -> Value,
}
macro_rules! family {
    ($($name:ident { $($field:ident : $t:tt),* }),* $(,)?) => {
        $(
            declare_circuit!($name { $($field: $t),* });
            impl<T: Clone + Copy + Default> $name<W<T>> {
                fn rec(&self, f: &mut dyn FnMut(&T) -> Value) -> Value {
                    Value::Array(vec![$(other!($t, self.$field, f)),*])
                }
                fn fresh(&mut self, l: &mut dyn FnMut() -> usize, f: &mut dyn FnMut() -> T) {
                    $(fillo!($t, self.$field, l, f);)*
                }
            }
            impl<C: Config> Define<C> for $name<Variable> {
                #[allow(unused_mut)]
                fn define<B: RootAPI<C>>(&self, api: &mut B) {
                    let mut v: Vec<Variable> = vec![];
                    $(vars!($t, self.$field, &mut v);)*
                    // something for the circuit to do
                    let mut s = v[0];
                    for x in v.iter() {
                        s = api.mul(s, *x);
                    }
                    v.push(s);
                    api.set_outputs(v);
                }
            }
            impl $name<W<u64>> {
                /// the same structure with other scalars
                fn with<T: Clone + Default + Copy>(&self, f: &dyn Fn(u64) -> T) -> $name<T> {
                    let mut r: $name<T> = Default::default();
                    $(with!($t, self.$field, r.$field, f);)*
                    r
                }
            }
        )*
        fn recs() -> Vec<Rec> {
            vec![$(Rec { ty: json!([$(ty!($t)),*]), run: |r| run_one!($name, r) }),*]
        }
    };
}
macro_rules! with {
    (u32, $x:expr, $y:expr, $f:expr) => { $y = $x; };
    ([u32; $n:expr], $x:expr, $y:expr, $f:expr) => { $y = $x; };
    ($t:tt, $x:expr, $y:expr, $f:expr) => { $y.from_w(&$x, $f) };
}
trait FromW<S, T> {
    fn from_w(&mut self, x: &S, f: &dyn Fn(u64) -> T);
}
impl<T> FromW<W<u64>, T> for T {
    fn from_w(&mut self, x: &W<u64>, f: &dyn Fn(u64) -> T) {
        *self = f(x.0);
    }
}
impl<S, T, U: FromW<S, T>, const N: usize> FromW<[S; N], T> for [U; N] {
    fn from_w(&mut self, x: &[S; N], f: &dyn Fn(u64) -> T) {
        for (a, b) in self.iter_mut().zip(x) {
            a.from_w(b, f);
        }
    }
}
impl<S, T, U: FromW<S, T> + Default> FromW<Vec<S>, T> for Vec<U> {
    fn from_w(&mut self, x: &Vec<S>, f: &dyn Fn(u64) -> T) {
        *self = x
            .iter()
            .map(|b| {
                let mut u = U::default();
                u.from_w(b, f);
                u
            })
            .collect();
    }
}
macro_rules! run_one {
    ($name:ident, $r:ident) => {{
        let mut next = 0u64;
        let mut val = || {
            next += 1;
            next
        };
        let most = if $r.pct(10) { 9 } else { 4 };
        let mut rr = Rng($r.next());
        let mut lens = || rr.below(most);
        let mut s: $name<W<u64>> = Default::default();
        let dflt = s.rec(&mut |x| json!(x));
        let dflt_num = s.num_vars();
        s.fresh(&mut lens, &mut val);
        let before = s.rec(&mut |x| json!(x));
        let (n, m) = s.num_vars();
        let (mut v, mut p) = (vec![W(7001), W(7002)], vec![W(7003)]);
        s.dump_into(&mut v, &mut p);
        let (v, p): (Vec<u64>, Vec<u64>) = (v.iter().map(|x| x.0).collect(), p.iter().map(|x| x.0).collect());
        // load other values into a structure of the same shape, with some to spare
        let mut t = s.clone();
        let xs: Vec<W<u64>> = (0..v.len() + 3).map(|i| W(1000 + i as u64)).collect();
        let ys: Vec<W<u64>> = (0..p.len() + 3).map(|i| W(5000 + i as u64)).collect();
        let (mut xr, mut yr) = (&xs[..], &ys[..]);
        t.load_from(&mut xr, &mut yr);
        let left = json!([xr.len(), yr.len()]);
        let after = t.rec(&mut |x| json!(x));
        let mut o = json!({"kind": "flat", "dflt": dflt, "dfltn": [dflt_num.0, dflt_num.1], "before": before, "num": [n, m], "dump": v, "pub": p,
            "xs": xs.iter().map(|x| x.0).collect::<Vec<_>>(), "ys": ys.iter().map(|x| x.0).collect::<Vec<_>>(), "left": left, "after": after,
            "out": [], "vec": [], "deb": [], "wit": [], "pubw": [], "p": 2});
        if n + m > 0 && n > 0 && $r.pct(50) {
            type C = T97;
            let def: $name<Variable> = s.with(&|_| Variable::default());
            let asg: $name<F<C>> = s.with(&|x| F::<C>::from(x as u32));
            o["p"] = json!(97);
            let e = said(|| {
                let c = frontend::compile::<C, _>(&def, CompileOptions::default()).unwrap();
                let w = c.witness_solver.solve_witness(&asg).unwrap();
                let (ok, out) = c.layered_circuit.run_with_output(&w);
                o["out"] = json!([ok, jfs(&out[0])]);
                let vs = c.witness_solver.solve_witnesses(&[asg.clone(), asg.clone(), asg.clone()]).unwrap();
                let (ok, out) = c.layered_circuit.run_with_output(&vs);
                o["vec"] = json!([ok, out.iter().map(|x| jfs(x)).collect::<Vec<_>>()]);
                let rows: Vec<(Vec<F<C>>, Vec<F<C>>)> = w.iter_scalar().collect();
                o["wit"] = jfs(&rows[0].0[..n]);
                o["pubw"] = jfs(&rows[0].1);
                o["deb"] = jfs(&extra::debug_eval::<C, _, _, _>(&def, &asg, EmptyHintCaller::new()));
            });
            if let Err(e) = e {
                o["panic_"] = json!(e);
                o["out"] = json!([[false], []]);
            }
        }
        o
    }};
}
fn said<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&e))
}
family! {
    S1 { x: Variable },
    S2 { a: [Variable; 3], b: PublicVariable, c: [[Variable; 2]; 3] },
    S3 { p: [PublicVariable; 2], x: [Variable], q: [[PublicVariable; 2]] },
    S4 { n: u32, x: [[[Variable; 2]; 1]; 2], k: [u32; 2], y: PublicVariable, z: Variable },
    S5 { e: [Variable; 0], y: Variable, f: [[Variable; 0]; 2], g: [[PublicVariable; 3]; 0] },
    S6 { v: [[Variable]], w: [[PublicVariable]], x: [[[Variable; 2]]] },
    S7 { a: PublicVariable, b: Variable, c: PublicVariable, d: [Variable; 2], e: [PublicVariable; 2], g: Variable, h: PublicVariable },
    S8 { m: [[Variable; 5]; 7], t: [[PublicVariable; 3]; 2] },
    S9 { a: [[[Variable]]], b: [[[PublicVariable]]], c: Variable },
    S10 { a: [[[PublicVariable; 2]; 3]; 2], b: [[[Variable; 3]; 2]], c: [[Variable; 4]; 1] },
    S11 { b: [PublicVariable], a: [Variable] },
}
/// variables of arrays of values
fn arrays<T: Field>(r: &mut Rng) -> Value {
    fn one<T: Field, X: DumpLoadVariables<T> + Clone>(x: X, n: usize, r: &mut Rng) -> Value {
        let fresh: Vec<T> = (0..n + 2).map(|_| gen::val(r)).collect();
        let mut y = x.clone();
        let mut rest = &fresh[..];
        y.load_from(&mut rest);
        let (mut a, mut b) = (vec![], vec![]);
        x.dump_into(&mut a);
        y.dump_into(&mut b);
        json!({"dump": jfs(&a), "num": [x.num_vars(), y.num_vars()], "xs": jfs(&fresh), "left": rest.len(), "again": jfs(&b)})
    }
    let v: Vec<T> = (0..24).map(|_| gen::val(r)).collect();
    let k = r.below(6);
    let a = |i: usize| -> [T; 3] { [v[3 * i], v[3 * i + 1], v[3 * i + 2]] };
    let (n, mut o) = match k {
        0 => (1, one::<T, T>(v[0], 1, r)),
        1 => (3, one::<T, [T; 3]>(a(0), 3, r)),
        2 => (12, one::<T, [[T; 3]; 4]>([a(0), a(1), a(2), a(3)], 12, r)),
        3 => (24, one::<T, [[[T; 3]; 2]; 4]>([[a(0), a(1)], [a(2), a(3)], [a(4), a(5)], [a(6), a(7)]], 24, r)),
        4 => (0, one::<T, [T; 0]>([], 0, r)),
        _ => (0, one::<T, [[T; 0]; 3]>([[]; 3], 0, r)),
    };
    o["kind"] = json!("array");
    o["vals"] = jfs(&v[..n]);
    o
}

/// flat PROP SEED COUNT OUT [ONLY]
pub fn main(a: &[String]) {
    let seed: u64 = a[1].parse().unwrap();
    let count: usize = a[2].parse().unwrap();
    let only: Option<usize> = a.get(4).and_then(|x| x.parse().ok());
    let lines = super::par::run(count, only, &a[3], |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64) ^ 0xf1a7);
        let mut v = if r.pct(10) {
            if r.pct(50) { arrays::<F<T7>>(&mut r) } else { arrays::<F<BN254Config>>(&mut r) }
        } else {
            let rs = recs();
            let k = r.below(rs.len());
            let mut o = match said(|| (rs[k].run)(&mut r)) {
                Ok(o) => o,
                Err(e) => json!({"kind": "fault", "msg": e}),
            };
            o["ty"] = rs[k].ty.clone();
            o["name"] = json!(format!("S{}", k + 1));
            o
        };
        v["id"] = json!(id);
        vec![v]
    });
    let mut kinds = std::collections::BTreeMap::<String, usize>::new();
    for l in &lines {
        *kinds.entry(format!("{} {}{}", l["kind"].as_str().unwrap_or("panic"), l["name"].as_str().unwrap_or(""),
            if l["p"] == json!(97) { " compiled" } else { "" })).or_default() += 1;
    }
    super::par::write(&a[3], &lines, json!({"scenarios": count, "kinds": kinds}));
}
