//! Kernels, device data and computation graphs (Z01-Z06). See specs/Cuda.tla.
use super::fields::*;
use super::gen::Rng;
use super::pipe::panic_msg;
use super::prog::*;
use crate::circuit::config::{Config, SIMDField};
use crate::field::{Field, FieldArith, FieldRaw};
use crate::frontend::*;
use crate::zkcuda::context::*;
use crate::zkcuda::kernel::*;
use crate::zkcuda::proving_system::{CombinedProof, DummyProvingSystem, ProvingSystem};
use crate::zkcuda::shape::{Reshape, Transpose};
use crate::zkcuda::vec_shaped::VecShaped;
use arith::SimdField;
use serde_json::{json, Value};
use serdes::ExpSerde;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_msg(&e))
}
fn prod(s: &[usize]) -> usize {
    s.iter().product()
}
fn pow2(n: usize) -> usize {
    n.next_power_of_two()
}

// ------------------------------------------------------------------------------------------ kernels
/// what a kernel does: variables are the elements of all parameters (those of parameters that are
/// not read are zero), then the results of the operations
#[derive(Clone, Debug)]
pub enum Op {
    Const(u64),
    Add(usize, usize),
    Sub(usize, usize),
    Mul(usize, usize),
    Hint(usize, Vec<usize>, usize),
    IsZero(usize),
    Inv(usize),
    Zero(usize),
    NonZero(usize),
    Bool(usize),
    /// function, arguments
    Sub_(usize, Vec<usize>),
}
#[derive(Clone, Debug)]
pub struct Fun {
    ins: usize,
    body: Vec<Op>,
    outs: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Param {
    shape: Vec<usize>,
    inp: bool,
    out: bool,
    to: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Kern {
    params: Vec<Param>,
    funs: Vec<Fun>,
    body: Vec<Op>,
    mac: Option<usize>,
}
fn nout(funs: &[Fun], o: &Op) -> usize {
    match o {
        Op::Hint(_, _, n) => *n,
        Op::Zero(_) | Op::NonZero(_) | Op::Bool(_) => 0,
        Op::Sub_(f, _) => funs[*f].outs.len(),
        _ => 1,
    }
}
fn jop(o: &Op) -> Value {
    match o {
        Op::Const(c) => json!({"o": "const", "a": [], "c": c}),
        Op::Add(a, b) => json!({"o": "add", "a": [a + 1, b + 1]}),
        Op::Sub(a, b) => json!({"o": "sub", "a": [a + 1, b + 1]}),
        Op::Mul(a, b) => json!({"o": "mul", "a": [a + 1, b + 1]}),
        Op::Hint(h, a, n) => json!({"o": "hint", "h": CUSTOM[*h], "a": inc(a), "n": n}),
        Op::IsZero(a) => json!({"o": "iszero", "a": [a + 1]}),
        Op::Inv(a) => json!({"o": "inv", "a": [a + 1]}),
        Op::Zero(a) => json!({"o": "z", "a": [a + 1]}),
        Op::NonZero(a) => json!({"o": "nz", "a": [a + 1]}),
        Op::Bool(a) => json!({"o": "b", "a": [a + 1]}),
        Op::Sub_(f, a) => json!({"o": "sub", "f": f + 1, "a": inc(a)}).as_object().map(|m| {
            let mut m = m.clone();
            m["o"] = json!("call");
            Value::Object(m)
        }).unwrap(),
    }
}
fn inc(a: &[usize]) -> Vec<usize> {
    a.iter().map(|x| x + 1).collect()
}
impl Kern {
    fn json(&self) -> Value {
        let ps: Vec<Value> = self.params.iter().map(|p| json!({"s": p.shape, "in": p.inp, "out": p.out, "to": inc(&p.to)})).collect();
        let fs: Vec<Value> = self
            .funs
            .iter()
            .map(|f| json!({"n": f.ins, "body": f.body.iter().map(jop).collect::<Vec<_>>(), "out": inc(&f.outs)}))
            .collect();
        json!({"par": ps, "fun": fs, "body": self.body.iter().map(jop).collect::<Vec<_>>(), "mac": self.mac.is_some()})
    }
    fn has_hints(&self) -> bool {
        let h = |b: &[Op]| b.iter().any(|o| matches!(o, Op::Hint(..) | Op::IsZero(_) | Op::Inv(_) | Op::NonZero(_)));
        h(&self.body) || self.funs.iter().any(|f| h(&f.body))
    }
    fn specs(&self) -> Vec<IOVecSpec> {
        self.params.iter().map(|p| IOVecSpec { len: prod(&p.shape), is_input: p.inp, is_output: p.out }).collect()
    }
    fn compile<C: Config>(&self) -> Result<KernelPrimitive<C>, Error> {
        if let Some(m) = self.mac {
            return mac_compile::<C>(m);
        }
        let shapes: Vec<Vec<usize>> = self.params.iter().map(|p| p.shape.clone()).collect();
        compile_with_spec_and_shapes(
            |api: &mut API<C>, io: &mut Vec<Vec<Variable>>| {
                let mut v: Vec<Variable> = io.iter().flatten().cloned().collect();
                run_body(api, &self.funs, &self.body, &mut v);
                for (p, x) in self.params.iter().zip(io.iter_mut()) {
                    if p.out {
                        for (y, t) in x.iter_mut().zip(p.to.iter()) {
                            *y = v[*t];
                        }
                    }
                }
            },
            &self.specs(),
            &shapes,
        )
    }
}
fn run_body<C: Config>(api: &mut API<C>, funs: &[Fun], body: &[Op], v: &mut Vec<Variable>) {
    for o in body {
        match o {
            Op::Const(c) => v.push(api.constant(*c as u32)),
            Op::Add(a, b) => v.push(api.add(v[*a], v[*b])),
            Op::Sub(a, b) => v.push(api.sub(v[*a], v[*b])),
            Op::Mul(a, b) => v.push(api.mul(v[*a], v[*b])),
            Op::Hint(h, a, n) => {
                let a: Vec<Variable> = a.iter().map(|j| v[*j]).collect();
                v.extend(api.new_hint(CUSTOM[*h], &a, *n));
            }
            Op::IsZero(a) => v.push(api.is_zero(v[*a])),
            Op::Inv(a) => v.push(api.inverse(v[*a])),
            Op::Zero(a) => api.assert_is_zero(v[*a]),
            Op::NonZero(a) => api.assert_is_non_zero(v[*a]),
            Op::Bool(a) => api.assert_is_bool(v[*a]),
            Op::Sub_(f, a) => {
                let a: Vec<Variable> = a.iter().map(|j| v[*j]).collect();
                let fun = funs[*f].clone();
                let fs = funs.to_vec();
                let r = api.call_sub_circuit(f + 1, &a, move |api: &mut API<C>, x: &Vec<Variable>| {
                    let mut w = x.clone();
                    run_body(api, &fs, &fun.body, &mut w);
                    fun.outs.iter().map(|j| w[*j]).collect()
                });
                v.extend(r);
            }
        }
    }
}

// kernels written with the macro, and what they do
#[kernel]
fn mk_add2<C: Config>(api: &mut API<C>, a: &[InputVariable; 2], b: &mut OutputVariable) {
    *b = api.add(a[0], a[1]);
}
#[kernel]
fn mk_mix<C: Config>(
    api: &mut API<C>,
    a: &[[InputVariable; 4]; 2],
    b: &mut [[OutputVariable; 1]; 4],
    c: &mut [[[InputOutputVariable; 2]; 1]; 4],
) {
    for i in 0..4 {
        b[i][0] = api.add(a[0][i], a[1][i]);
        c[i][0][0] = api.mul(c[i][0][0], c[i][0][1]);
    }
}
#[kernel]
fn mk_scalar<C: Config>(api: &mut API<C>, a: &InputVariable, b: &mut OutputVariable, c: &mut InputOutputVariable) {
    *b = api.add(*a, *c);
    *c = api.mul(*c, *b);
}
#[kernel]
fn mk_swap<C: Config>(
    api: &mut API<C>,
    a: &mut [[[InputOutputVariable; 2]; 1]; 3],
    b: &mut [[[InputOutputVariable; 3]; 1]; 2],
    c: &InputVariable,
) {
    for i in 0..3 {
        for j in 0..1 {
            for k in 0..2 {
                let x = api.add(a[i][j][k], c);
                a[i][j][k] = b[k][j][i];
                b[k][j][i] = x;
            }
        }
    }
}
#[kernel]
fn mk_id3<C: Config>(_api: &mut API<C>, _a: &mut [InputOutputVariable; 3]) {}
#[kernel]
fn mk_id<C: Config>(_api: &mut API<C>, _a: &mut InputOutputVariable) {}
#[kernel]
fn mk_check<C: Config>(api: &mut API<C>, a: &[InputVariable; 4]) {
    let x = api.sub(a[0], a[1]);
    let y = api.mul(x, a[2]);
    api.assert_is_zero(y);
    api.assert_is_bool(a[3]);
}
fn mac_compile<C: Config>(m: usize) -> Result<KernelPrimitive<C>, Error> {
    match m {
        0 => compile_mk_add2::<C>(),
        1 => compile_mk_mix::<C>(),
        2 => compile_mk_scalar::<C>(),
        3 => compile_mk_swap::<C>(),
        4 => compile_mk_id3::<C>(),
        5 => compile_mk_id::<C>(),
        _ => compile_mk_check::<C>(),
    }
}
fn mac(m: usize) -> Kern {
    let p = |shape: &[usize], inp: bool, out: bool, to: Vec<usize>| Param { shape: shape.to_vec(), inp, out, to };
    let (params, body) = match m {
        0 => (vec![p(&[2], true, false, vec![]), p(&[], false, true, vec![3])], vec![Op::Add(0, 1)]),
        1 => {
            // a: 0..8, b: 8..12, c: 12..20
            let mut body = vec![];
            for i in 0..4 {
                body.push(Op::Add(i, 4 + i));
                body.push(Op::Mul(12 + 2 * i, 13 + 2 * i));
            }
            let b = (0..4).map(|i| 20 + 2 * i).collect();
            let c = (0..4).flat_map(|i| vec![21 + 2 * i, 13 + 2 * i]).collect();
            (vec![p(&[2, 4], true, false, vec![]), p(&[4, 1], false, true, b), p(&[4, 1, 2], true, true, c)], body)
        }
        2 => (
            vec![p(&[], true, false, vec![]), p(&[], false, true, vec![3]), p(&[], true, true, vec![4])],
            vec![Op::Add(0, 2), Op::Mul(2, 3)],
        ),
        3 => {
            // a: 0..6 (i, k), b: 6..12 (k, i), c: 12
            let mut body = vec![];
            let (mut a, mut b) = (vec![0; 6], vec![0; 6]);
            for i in 0..3 {
                for k in 0..2 {
                    a[2 * i + k] = 6 + 3 * k + i;
                    b[3 * k + i] = 13 + body.len();
                    body.push(Op::Add(2 * i + k, 12));
                }
            }
            (vec![p(&[3, 1, 2], true, true, a), p(&[2, 1, 3], true, true, b), p(&[], true, false, vec![])], body)
        }
        4 => (vec![p(&[3], true, true, vec![0, 1, 2])], vec![]),
        5 => (vec![p(&[], true, true, vec![0])], vec![]),
        _ => (vec![p(&[4], true, false, vec![])], vec![Op::Sub(0, 1), Op::Mul(4, 2), Op::Zero(5), Op::Bool(3)]),
    };
    Kern { params, funs: vec![], body, mac: Some(m) }
}
const NMAC: usize = 7;

fn gen_shape(r: &mut Rng, n: usize, maxd: usize) -> Vec<usize> {
    let mut s = vec![];
    let mut m = n;
    while m > 1 {
        let ds: Vec<usize> = (2..=m).filter(|d| m % d == 0).collect();
        let d = r.pick(&ds);
        s.push(d);
        m /= d;
    }
    r.shuffle(&mut s);
    while s.len() > maxd {
        let a = s.pop().unwrap();
        *s.last_mut().unwrap() *= a;
    }
    while s.len() < maxd && r.pct(12) {
        let i = r.below(s.len() + 1);
        s.insert(i, 1);
    }
    s
}
fn gen_body(r: &mut Rng, n: usize, len: usize, funs: &[Fun], hints: usize, asserts: usize) -> (Vec<Op>, usize, Vec<usize>) {
    let mut body = vec![];
    let mut n = n;
    let mut must = vec![];
    for _ in 0..len {
        let v = |r: &mut Rng| if n > 6 && r.pct(50) { n - 1 - r.below(4) } else { r.below(n) };
        let o = match r.below(100) {
            x if x < hints => match r.below(8) {
                0..=1 => Op::IsZero(v(r)),
                2 => Op::Inv(v(r)),
                3 => {
                    if r.pct(12) {
                        let a = v(r);
                        must.push(n);
                        Op::Hint(2, vec![a], 1)
                    } else {
                        Op::Hint(0, vec![v(r)], 1)
                    }
                }
                4 => Op::NonZero(v(r)),
                _ => {
                    let k = r.range(1, 3);
                    Op::Hint(r.below(2), (0..k).map(|_| v(r)).collect(), r.range(1, 2))
                }
            },
            x if x < hints + asserts => {
                if r.pct(50) {
                    Op::Zero(v(r))
                } else {
                    Op::Bool(v(r))
                }
            }
            x if x < hints + asserts + 12 && !funs.is_empty() => {
                let f = r.below(funs.len());
                Op::Sub_(f, (0..funs[f].ins).map(|_| v(r)).collect())
            }
            x if x < 50 => Op::Mul(v(r), v(r)),
            x if x < 70 => Op::Add(v(r), v(r)),
            x if x < 85 => Op::Sub(v(r), v(r)),
            x if x < 90 => Op::Const(r.below(3) as u64),
            _ => Op::Mul(v(r), v(r)),
        };
        n += nout(funs, &o);
        body.push(o);
    }
    (body, n, must)
}
fn needed_inverses(first: usize, body: &mut [Op], outs: &[usize], funs: &[Fun]) {
    let mut need: std::collections::HashSet<usize> = outs.iter().cloned().collect();
    let mut at = first + body.iter().map(|o| nout(funs, o)).sum::<usize>();
    for o in body.iter_mut().rev() {
        let n = nout(funs, o);
        at -= n;
        let live = (at..at + n).any(|v| need.contains(&v));
        match o {
            Op::Inv(a) if !live => *o = Op::IsZero(*a),
            Op::Zero(a) | Op::Bool(a) | Op::NonZero(a) => {
                need.insert(*a);
            }
            Op::Const(_) => {}
            _ if !live => {}
            Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) => {
                need.extend([*a, *b]);
            }
            Op::Hint(_, a, _) => need.extend(a.iter().cloned()),
            Op::IsZero(a) | Op::Inv(a) => {
                need.insert(*a);
            }
            // what a function does not need, it may pass on to nothing
            Op::Sub_(..) => {}
        }
    }
}
fn gen_kern(r: &mut Rng, maxlen: usize) -> Kern {
    let np = r.range(1, 3);
    let mut params: Vec<Param> = vec![];
    for i in 0..np {
        let n = *[1, 1, 2, 2, 3, 4, 4, 5, 6, 8].get(r.below(10)).unwrap();
        let n = n.min(maxlen);
        let k = r.below(10);
        let (inp, out) = if i == 0 || k < 4 { (true, k < 2) } else if k < 8 { (false, true) } else { (true, true) };
        params.push(Param { shape: gen_shape(r, n, 3), inp, out, to: vec![] });
    }
    r.shuffle(&mut params);
    let n: usize = params.iter().map(|p| prod(&p.shape)).sum();
    let hints = if r.pct(40) { r.range(10, 40) } else { 0 };
    let asserts = if r.pct(30) { 8 } else { 0 };
    let mut funs: Vec<Fun> = vec![];
    if r.pct(30) {
        for _ in 0..r.range(1, 2) {
            let ins = r.range(1, 3);
            let l = r.range(1, 5);
            let hi = if r.pct(50) { hints } else { 0 };
            let prev = funs.clone();
            let (body, m, must) = gen_body(r, ins, l, &prev, hi.min(10), asserts / 2);
            // a failing hint must not be droppable
            let body: Vec<Op> = body.into_iter().map(|o| if let Op::Hint(2, a, n) = o { Op::Hint(0, a, n) } else { o }).collect();
            let _ = must;
            let outs = (0..r.range(1, 2)).map(|_| r.below(m)).collect();
            funs.push(Fun { ins, body, outs });
        }
    }
    let l = r.range(0, 8);
    let (mut body, n, must) = gen_body(r, n, l, &funs, hints, asserts);
    let cells: usize = params.iter().filter(|p| p.out).map(|p| prod(&p.shape)).sum();
    let mut to: Vec<usize> = (0..cells).map(|_| if r.pct(70) && n > 8 { n - 1 - r.below(8) } else { r.below(n) }).collect();
    if must.len() > to.len() {
        for o in body.iter_mut() {
            if let Op::Hint(h, _, _) = o {
                *h %= 2;
            }
        }
    } else {
        to[..must.len()].copy_from_slice(&must);
        r.shuffle(&mut to);
    }
    // an inverse that nothing needs may be left out, whether it exists or not
    let first = n - body.iter().map(|o| nout(&funs, o)).sum::<usize>();
    needed_inverses(first, &mut body, &to, &funs);
    for f in funs.iter_mut() {
        for o in f.body.iter_mut() {
            if let Op::Inv(a) = o {
                *o = Op::IsZero(*a);
            }
        }
    }
    for p in params.iter_mut() {
        if p.out {
            let k = prod(&p.shape);
            p.to = to.drain(..k).collect();
        }
    }
    Kern { params, funs, body, mac: None }
}

// ------------------------------------------------------------------------------------------ host data
/// nested host data: leaves at depth 0
#[derive(Clone, Debug)]
pub enum Tree<T> {
    Leaf(T),
    Node(Vec<Tree<T>>),
}
fn tree_of<T: Clone>(flat: &[T], shape: &[usize]) -> Tree<T> {
    if shape.is_empty() {
        return Tree::Leaf(flat[0].clone());
    }
    let k = flat.len() / shape[0];
    Tree::Node((0..shape[0]).map(|i| tree_of(&flat[i * k..(i + 1) * k], &shape[1..])).collect())
}
/// host arrays of a nesting depth
trait Nest<T>: VecShaped<T> + Default
where
    T: Clone + Default,
{
    fn make(t: &Tree<T>) -> Self;
    fn show(&self, f: &dyn Fn(&T) -> Value) -> Value;
}
impl<T: FieldRaw> Nest<T> for T {
    fn make(t: &Tree<T>) -> Self {
        match t {
            Tree::Leaf(x) => *x,
            _ => unreachable!(),
        }
    }
    fn show(&self, f: &dyn Fn(&T) -> Value) -> Value {
        f(self)
    }
}
impl<T: Clone + Default, N: Nest<T> + Clone> Nest<T> for Vec<N> {
    fn make(t: &Tree<T>) -> Self {
        match t {
            Tree::Node(v) => v.iter().map(N::make).collect(),
            _ => unreachable!(),
        }
    }
    fn show(&self, f: &dyn Fn(&T) -> Value) -> Value {
        Value::Array(self.iter().map(|x| x.show(f)).collect())
    }
}
macro_rules! by_depth {
    ($d:expr, $t:ty, $n:ident, $e:expr) => {
        match $d {
            0 => { type $n<C> = $t; $e }
            1 => { type $n<C> = Vec<$t>; $e }
            2 => { type $n<C> = Vec<Vec<$t>>; $e }
            3 => { type $n<C> = Vec<Vec<Vec<$t>>>; $e }
            4 => { type $n<C> = Vec<Vec<Vec<Vec<$t>>>>; $e }
            _ => { type $n<C> = Vec<Vec<Vec<Vec<Vec<$t>>>>>; $e }
        }
    };
}
pub const MAXD: usize = 5;

// ------------------------------------------------------------------------------------------ histories
#[derive(Clone, Debug)]
pub enum Step<T> {
    /// plain | pack | simd, depth, the data (of plain values or of lanes)
    Put(&'static str, usize, Tree<Vec<T>>),
    Flat(Vec<Vec<T>>, usize),
    Reshape(usize, Vec<usize>),
    Transpose(usize, Vec<usize>),
    /// kernel, instances, arguments
    Call(usize, usize, Vec<Option<usize>>),
    Get(usize, &'static str, usize),
    Compile,
    Load(usize),
    Solve,
    Export,
}
fn jtree<T: Field>(t: &Tree<Vec<T>>, plain: bool) -> Value {
    match t {
        Tree::Leaf(x) if plain => jf(&x[0]),
        Tree::Leaf(x) => jfs(x),
        Tree::Node(v) => Value::Array(v.iter().map(|x| jtree(x, plain)).collect()),
    }
}
fn map_tree<A, B>(t: &Tree<A>, f: &dyn Fn(&A) -> B) -> Tree<B> {
    match t {
        Tree::Leaf(x) => Tree::Leaf(f(x)),
        Tree::Node(v) => Tree::Node(v.iter().map(|x| map_tree(x, f)).collect()),
    }
}
type Ctx<C> = Context<C, crate::hints::registry::HintRegistry<F<C>>>;
pub struct World<C: Config> {
    ctx: Ctx<C>,
    hs: Vec<DeviceMemoryHandle>,
    graph: Option<ComputationGraph<C>>,
    mems: Option<Vec<Vec<SIMDField<C>>>>,
}
/// kernels of a history; a kernel is compiled again for every call when `fresh`
pub struct Lib<C: Config> {
    kerns: Vec<Kern>,
    prims: Vec<KernelPrimitive<C>>,
    fresh: bool,
}
fn jgraph<C: Config>(g: &ComputationGraph<C>) -> Value {
    let kin: Vec<Value> = g
        .kernels
        .iter()
        .map(|k| json!({"in": k.layered_circuit_input().iter().map(|x| vec![x.len, x.offset]).collect::<Vec<_>>(),
                        "hint": k.hint_solver().is_some(), "size": k.layered_circuit().input_size()}))
        .collect();
    let tpl: Vec<Value> = g
        .proof_templates
        .iter()
        .map(|t| json!({"k": t.kernel_id() + 1, "ci": inc(t.commitment_indices()), "bo": t.commitment_bit_orders(),
                        "pc": t.parallel_count(), "bc": t.is_broadcast()}))
        .collect();
    json!({"lens": g.commitments_lens, "tpl": tpl, "kin": kin})
}
fn jlanes<C: Config>(v: &[SIMDField<C>]) -> Value {
    Value::Array(v.iter().map(|x| jfs(&x.unpack())).collect())
}
impl<C: Config> World<C>
where
    SIMDField<C>: FieldRaw,
    F<C>: FieldRaw,
{
    pub fn new() -> Self {
        World { ctx: Context::new(registry::<F<C>>()), hs: vec![], graph: None, mems: None }
    }
    fn put(&mut self, mode: &str, d: usize, t: &Tree<Vec<F<C>>>) -> Result<DeviceMemoryHandle, String> {
        let ctx = &mut self.ctx;
        quiet(|| match mode {
            "simd" => {
                let t = map_tree(t, &|x| SIMDField::<C>::pack(x));
                by_depth!(d, SIMDField<C>, N, ctx.copy_simd_to_device(&<N<C> as Nest<SIMDField<C>>>::make(&t)))
            }
            _ => {
                let t = map_tree(t, &|x| x[0]);
                if mode == "plain" {
                    by_depth!(d, F<C>, N, ctx.copy_to_device(&<N<C> as Nest<F<C>>>::make(&t)))
                } else {
                    by_depth!(d, F<C>, N, ctx.copy_to_device_and_pack_simd(&<N<C> as Nest<F<C>>>::make(&t)))
                }
            }
        })
    }
    fn get(&self, h: usize, mode: &str, d: usize) -> Result<Value, String> {
        let h = self.hs[h].clone();
        let ctx = &self.ctx;
        quiet(|| match mode {
            "simd" => by_depth!(d, SIMDField<C>, N, Nest::<SIMDField<C>>::show(&ctx.copy_simd_to_host::<N<C>>(h), &|x| jfs(&x.unpack()))),
            "plain" => by_depth!(d, F<C>, N, Nest::<F<C>>::show(&ctx.copy_to_host::<N<C>>(h), &|x| jf(x))),
            _ => by_depth!(d, F<C>, N, Nest::<F<C>>::show(&ctx.copy_to_host_and_unpack_simd::<N<C>>(h), &|x| jf(x))),
        })
    }
    /// performs a step and says what happened
    pub fn step(&mut self, lib: &Lib<C>, s: &Step<F<C>>, alt: &[ComputationGraph<C>]) -> Value {
        fn made(r: Result<DeviceMemoryHandle, String>, hs: &mut Vec<DeviceMemoryHandle>, mut j: Value) -> Value {
            match r {
                Ok(h) => {
                    hs.push(h);
                    j["said"] = json!("ok");
                }
                Err(e) => {
                    hs.push(None);
                    j["said"] = json!("no");
                    j["msg"] = json!(e);
                }
            }
            j
        }
        match s {
            Step::Put(mode, d, t) => {
                let j = json!({"op": "put", "mode": mode, "d": d, "t": jtree(t, *mode != "simd")});
                let r = self.put(mode, *d, t);
                made(r, &mut self.hs, j)
            }
            Step::Flat(v, cols) => {
                let j = json!({"op": "flat", "t": v.iter().map(|x| jfs(x)).collect::<Vec<_>>(), "cols": cols});
                let v: Vec<SIMDField<C>> = v.iter().map(|x| SIMDField::<C>::pack(x)).collect();
                let ctx = &mut self.ctx;
                let r = quiet(|| ctx.copy_flat_simd_to_device(v, *cols));
                made(r, &mut self.hs, j)
            }
            Step::Reshape(h, s) => {
                let x = self.hs[*h].clone();
                made(quiet(|| x.reshape(s)), &mut self.hs, json!({"op": "reshape", "h": h + 1, "s": s}))
            }
            Step::Transpose(h, a) => {
                let x = self.hs[*h].clone();
                made(quiet(|| x.transpose(a)), &mut self.hs, json!({"op": "transpose", "h": h + 1, "a": inc(a)}))
            }
            Step::Call(k, np, args) => {
                let mut j = json!({"op": "call", "k": k + 1, "np": np, "args": args.iter().map(|x| x.map_or(0, |y| y + 1)).collect::<Vec<_>>()});
                let mut ios: Vec<DeviceMemoryHandle> = args.iter().map(|x| x.and_then(|y| self.hs[y].clone())).collect();
                let ctx = &mut self.ctx;
                let mac = lib.kerns[*k].mac.is_some();
                let r = quiet(|| {
                    if lib.fresh {
                        // a kernel that lives only during the call
                        let p = lib.kerns[*k].compile::<C>().unwrap();
                        call(ctx, p, mac, *np, &mut ios)
                    } else {
                        call_ref(ctx, &lib.prims[*k], mac, *np, &mut ios)
                    }
                });
                j["said"] = match &r {
                    Ok(Ok(())) => json!("ok"),
                    Ok(Err(_)) => json!("err"),
                    Err(_) => json!("no"),
                };
                if let Err(e) = &r {
                    j["msg"] = json!(e);
                }
                let good = matches!(r, Ok(Ok(())));
                j["left"] = json!(if good { ios.iter().map(|x| x.is_some()).collect() } else { vec![] });
                for x in ios {
                    self.hs.push(if good { x } else { None });
                }
                j
            }
            Step::Get(h, mode, d) => {
                let mut j = json!({"op": "get", "h": h + 1, "mode": mode, "d": d});
                match self.get(*h, mode, *d) {
                    Ok(v) => {
                        j["said"] = json!("ok");
                        j["v"] = v;
                    }
                    Err(e) => {
                        j["said"] = json!("no");
                        j["msg"] = json!(e);
                    }
                }
                j
            }
            Step::Compile => {
                let ctx = &mut self.ctx;
                let mut j = json!({"op": "compile"});
                match quiet(|| ctx.compile_computation_graph()) {
                    Ok(Ok(g)) => {
                        j["said"] = json!("ok");
                        j["g"] = jgraph(&g);
                        self.graph = Some(g);
                    }
                    Ok(Err(e)) => {
                        j["said"] = json!("err");
                        j["msg"] = json!(format!("{e:?}"));
                    }
                    Err(e) => {
                        j["said"] = json!("no");
                        j["msg"] = json!(e);
                    }
                }
                j
            }
            Step::Load(i) => {
                let ctx = &mut self.ctx;
                let mut buf = vec![];
                alt[*i].serialize_into(&mut buf).unwrap();
                let g = ComputationGraph::<C>::deserialize_from(&mut buf.as_slice()).unwrap();
                let mut j = json!({"op": "load", "g": jgraph(&g)});
                let keep = g.clone();
                match quiet(|| ctx.load_computation_graph(g)) {
                    Ok(Ok(())) => {
                        j["said"] = json!("ok");
                        self.graph = Some(keep);
                    }
                    Ok(Err(_)) => j["said"] = json!("err"),
                    Err(e) => {
                        j["said"] = json!("no");
                        j["msg"] = json!(e);
                    }
                }
                j
            }
            Step::Solve => {
                let ctx = &mut self.ctx;
                let mut j = json!({"op": "solve"});
                j["said"] = match quiet(|| ctx.solve_witness()) {
                    Ok(Ok(())) => json!("ok"),
                    Ok(Err(_)) => json!("err"),
                    Err(e) => {
                        j["msg"] = json!(e);
                        json!("no")
                    }
                };
                j
            }
            Step::Export => {
                let ctx = &mut self.ctx;
                let mut j = json!({"op": "export"});
                match quiet(|| ctx.export_device_memories()) {
                    Ok(m) => {
                        j["said"] = json!("ok");
                        j["v"] = Value::Array(m.iter().map(|x| jlanes::<C>(x)).collect());
                        self.mems = Some(m);
                    }
                    Err(e) => {
                        j["said"] = json!("no");
                        j["msg"] = json!(e);
                    }
                }
                j
            }
        }
    }
}
#[inline(never)]
fn call<C: Config>(ctx: &mut Ctx<C>, p: KernelPrimitive<C>, mac: bool, np: usize, ios: &mut Vec<DeviceMemoryHandle>) -> Result<(), Error> {
    call_ref(ctx, &p, mac, np, ios)
}
fn call_ref<C: Config>(ctx: &mut Ctx<C>, p: &KernelPrimitive<C>, mac: bool, np: usize, ios: &mut Vec<DeviceMemoryHandle>) -> Result<(), Error> {
    // the macro takes the names of the arguments
    match (mac, ios.len()) {
        (true, 1) => {
            let mut a = ios[0].clone();
            let r = call_kernel!(ctx, p, np, mut a);
            *ios = vec![a];
            r
        }
        (true, 2) => {
            let (mut a, mut b) = (ios[0].clone(), ios[1].clone());
            let r = call_kernel!(ctx, p, np, mut a, mut b);
            *ios = vec![a, b];
            r
        }
        (true, 3) => {
            let (mut a, mut b, mut c) = (ios[0].clone(), ios[1].clone(), ios[2].clone());
            let r = call_kernel!(ctx, p, np, mut a, mut b, mut c);
            *ios = vec![a, b, c];
            r
        }
        _ => ctx.call_kernel(p, np, ios),
    }
}

// ------------------------------------------------------------------------------------------ generation
struct G<'a, C: Config> {
    r: &'a mut Rng,
    w: World<C>,
    lib: Lib<C>,
    shapes: Vec<Option<Vec<usize>>>,
    steps: Vec<Step<F<C>>>,
    ops: Vec<Value>,
    small: bool,
}
impl<'a, C: Config> G<'a, C>
where
    SIMDField<C>: FieldRaw,
    F<C>: FieldRaw,
{
    fn val(&mut self) -> F<C> {
        if self.small || self.r.pct(15) {
            F::<C>::from(self.r.below(2) as u32)
        } else {
            let x = self.r.next();
            F::<C>::from_u256(ethnum::U256::from(x) * ethnum::U256::from(self.r.next()))
        }
    }
    fn lane(&mut self) -> Vec<F<C>> {
        let n = SIMDField::<C>::PACK_SIZE;
        (0..n).map(|_| self.val()).collect()
    }
    /// performs a step, keeps what it said
    fn go(&mut self, s: Step<F<C>>) -> bool {
        let j = self.w.step(&self.lib, &s, &[]);
        let ok = j["said"] == json!("ok");
        match &s {
            Step::Put(mode, d, t) => {
                // the shape along the first elements
                let mut sh = vec![];
                let mut t = t;
                while let Tree::Node(v) = t {
                    sh.push(v.len());
                    if v.is_empty() {
                        break;
                    }
                    t = &v[0];
                }
                let _ = d;
                if *mode == "pack" && !sh.is_empty() {
                    sh.remove(0);
                }
                self.shapes.push(ok.then_some(sh));
            }
            Step::Flat(v, c) => self.shapes.push(ok.then(|| vec![if *c > 0 { v.len() / c } else { v.len() }, *c])),
            Step::Reshape(_, s) => self.shapes.push(ok.then(|| s.clone())),
            Step::Transpose(h, a) => {
                let o = self.shapes[*h].clone();
                self.shapes.push(if ok { o.map(|o| a.iter().map(|i| o[*i]).collect()) } else { None })
            }
            Step::Call(k, np, _) => {
                for p in self.lib.kerns[*k].params.iter() {
                    self.shapes.push((ok && p.out).then(|| std::iter::once(*np).chain(p.shape.iter().cloned()).collect()));
                }
                // a call with another number of arguments
                let n = self.w.hs.len();
                self.shapes.resize(n, None);
            }
            _ => {}
        }
        self.steps.push(s);
        self.ops.push(j);
        ok
    }
    fn last(&self) -> usize {
        self.w.hs.len() - 1
    }
    fn put(&mut self, shape: &[usize]) -> usize {
        let pack = SIMDField::<C>::PACK_SIZE;
        let n = prod(shape);
        match self.r.below(10) {
            0..=4 => {
                let v: Vec<Vec<F<C>>> = (0..n).map(|_| self.lane()).collect();
                self.go(Step::Put("simd", shape.len(), tree_of(&v, shape)));
            }
            5 | 6 if shape.len() < MAXD => {
                let mut sh = vec![pack];
                sh.extend(shape);
                let v: Vec<Vec<F<C>>> = (0..n * pack).map(|_| vec![self.val()]).collect();
                self.go(Step::Put("pack", sh.len(), tree_of(&v, &sh)));
            }
            7 if shape.len() == 2 => {
                let v: Vec<Vec<F<C>>> = (0..n).map(|_| self.lane()).collect();
                self.go(Step::Flat(v, shape[1]));
            }
            _ => {
                let v: Vec<Vec<F<C>>> = (0..n).map(|_| vec![self.val()]).collect();
                self.go(Step::Put("plain", shape.len(), tree_of(&v, shape)));
            }
        }
        self.last()
    }
    /// a random chain that ends with the given shape
    fn chain(&mut self, mut h: usize, target: &[usize], n: usize) -> usize {
        for _ in 0..n {
            let Some(sh) = self.shapes[h].clone() else { return h };
            if self.r.pct(50) && sh.len() > 1 {
                let mut a: Vec<usize> = (0..sh.len()).collect();
                if self.r.pct(30) {
                    a.rotate_left(1);
                } else {
                    self.r.shuffle(&mut a);
                }
                self.go(Step::Transpose(h, a));
            } else {
                let s = gen_shape(self.r, prod(&sh), 4);
                self.go(Step::Reshape(h, s));
            }
            h = self.last();
        }
        if self.shapes[h].as_deref() != Some(target) {
            if target.len() > 1 && self.r.pct(35) {
                let mut a: Vec<usize> = (0..target.len()).collect();
                self.r.shuffle(&mut a);
                let mut pre = vec![0; target.len()];
                for (i, x) in a.iter().enumerate() {
                    pre[*x] = target[i];
                }
                if self.shapes[h].as_ref() != Some(&pre) {
                    self.go(Step::Reshape(h, pre));
                    h = self.last();
                }
                self.go(Step::Transpose(h, a));
            } else {
                self.go(Step::Reshape(h, target.to_vec()));
            }
            h = self.last();
        }
        h
    }
    fn arg(&mut self, total: &[usize], chain: usize) -> usize {
        let n = prod(total);
        let have: Vec<usize> = (0..self.shapes.len()).filter(|h| self.shapes[*h].as_ref().is_some_and(|s| prod(s) == n)).collect();
        let h = if !have.is_empty() && self.r.pct(55) {
            self.r.pick(&have)
        } else if self.r.pct(40) {
            self.put(total)
        } else {
            let s = gen_shape(self.r, n, 4);
            self.put(&s)
        };
        let k = if self.r.pct(chain) { self.r.range(0, 3) } else { 0 };
        self.chain(h, total, k)
    }
    fn get(&mut self, h: usize) {
        let d = self.shapes[h].as_ref().map_or(1, |s| s.len());
        let mode = match self.r.below(10) {
            0..=5 => "simd",
            6 | 7 => "plain",
            _ => "pack",
        };
        let d = if mode == "pack" { d + 1 } else { d };
        let d = if self.r.pct(4) { self.r.below(4) } else { d };
        if d <= MAXD {
            self.go(Step::Get(h, mode, d));
        }
    }
    fn call(&mut self, chain: usize, limit: usize) {
        let k = self.r.below(self.lib.kerns.len());
        let kern = self.lib.kerns[k].clone();
        let big = kern.params.iter().map(|p| prod(&p.shape)).max().unwrap();
        let cand: Vec<usize> = [1, 1, 2, 2, 3, 4, 4, 5, 6, 8, 9, 12, 15, 16, 18].into_iter().filter(|n| n * big <= limit).collect();
        let np = if cand.is_empty() { 1 } else { self.r.pick(&cand) };
        let mut args = vec![];
        for p in kern.params.iter() {
            if !p.inp {
                let some: Vec<usize> = (0..self.shapes.len()).collect();
                args.push(if self.r.pct(12) && !some.is_empty() { Some(self.r.pick(&some)) } else { None });
                continue;
            }
            let mut t = p.shape.clone();
            if !(!p.out && self.r.pct(25)) {
                t.insert(0, np);
            }
            args.push(Some(self.arg(&t, chain)));
        }
        // a wrong call now and then
        match self.r.below(40) {
            0 => {
                args.pop();
            }
            1 => args.push(None),
            2 => {
                let i = self.r.below(args.len());
                args[i] = None;
            }
            3 if !self.shapes.is_empty() => {
                let i = self.r.below(args.len());
                args[i] = Some(self.r.below(self.shapes.len()));
            }
            4 => {
                self.go(Step::Call(k, np + 1, args.clone()));
            }
            _ => {}
        }
        self.go(Step::Call(k, np, args));
        for _ in 0..2 {
            if self.r.pct(50) {
                let h = self.last() - self.r.below(kern.params.len().min(self.last() + 1));
                if self.shapes[h].is_some() {
                    self.get(h);
                }
            }
        }
    }
}
type Dummy<C> = DummyProvingSystem<C>;
fn prove<C: Config>(g: &ComputationGraph<C>, m: &[Vec<SIMDField<C>>]) -> Result<<Dummy<C> as ProvingSystem<C>>::Proof, String> {
    quiet(|| {
        let (ps, _) = <Dummy<C> as ProvingSystem<C>>::setup(g);
        <Dummy<C> as ProvingSystem<C>>::prove(&ps, g, m.to_vec())
    })
}
fn verify<C: Config>(g: &ComputationGraph<C>, p: &<Dummy<C> as ProvingSystem<C>>::Proof) -> &'static str {
    match quiet(|| <Dummy<C> as ProvingSystem<C>>::verify(&(), g, p)) {
        Ok(true) => "yes",
        Ok(false) => "no",
        Err(_) => "panic",
    }
}
fn commitment<C: Config>(v: &[SIMDField<C>]) -> crate::zkcuda::proving_system::DummyCommitment<C> {
    use crate::zkcuda::proving_system::KernelWiseProvingSystem;
    <Dummy<C> as KernelWiseProvingSystem<C>>::commit(&(), v).0
}
/// what the circuits say about given memories
fn conditions<C: Config>(g: &ComputationGraph<C>, m: &[Vec<SIMDField<C>>]) -> Option<Vec<Vec<Vec<bool>>>> {
    quiet(|| {
        g.proof_templates
            .iter()
            .map(|t| {
                let k = &g.kernels[t.kernel_id()];
                let views: Vec<Vec<SIMDField<C>>> = t
                    .commitment_indices()
                    .iter()
                    .zip(t.commitment_bit_orders())
                    .map(|(c, bo)| {
                        (0..m[*c].len())
                            .map(|i| m[*c][(0..bo.len()).map(|j| ((i >> j) & 1) << bo[j]).sum::<usize>()])
                            .collect()
                    })
                    .collect();
                (0..t.parallel_count())
                    .map(|i| {
                        let mut x = vec![SIMDField::<C>::zero(); k.layered_circuit().input_size()];
                        for ((l, v), b) in k.layered_circuit_input().iter().zip(&views).zip(t.is_broadcast()) {
                            for j in 0..l.len {
                                x[l.offset + j] = v[if *b { j } else { i * l.len + j }];
                            }
                        }
                        k.layered_circuit().eval_with_public_inputs_simd(x, &[]).1
                    })
                    .collect()
            })
            .collect()
    })
    .ok()
}
fn prove_ops<C: Config>(r: &mut Rng, w: &World<C>, n: usize) -> Vec<Value>
where
    SIMDField<C>: FieldRaw,
{
    let (Some(g), Some(m)) = (&w.graph, &w.mems) else { return vec![] };
    let mut ops = vec![];
    let p = prove(g, m);
    ops.push(json!({"op": "prove", "said": if p.is_ok() { "yes" } else { "no" },
                    "ver": p.as_ref().map_or("no", |p| verify(g, p))}));
    for _ in 0..if m.is_empty() { 0 } else { n } {
        let k = r.below(m.len());
        let i = r.below(m[k].len());
        let mut v = m[k][i].unpack();
        let l = r.below(v.len());
        let old = v[l];
        while v[l] == old {
            v[l] = if r.pct(50) { old + F::<C>::one() } else { F::<C>::from(r.below(1000) as u32) };
        }
        let mut m2 = m.clone();
        m2[k][i] = SIMDField::<C>::pack(&v);
        let mut j = json!({"op": "tamper", "m": k + 1, "i": i + 1, "v": jfs(&v)});
        j["prove"] = json!(match prove(g, &m2) {
            Ok(p2) => verify(g, &p2),
            Err(_) => "no",
        });
        if let Ok(p) = &p {
            let mut q = p.clone();
            q.commitments[k] = commitment::<C>(&m2[k]);
            j["verify"] = json!(verify(g, &q));
            if let Some(c) = conditions(g, &m2) {
                for (x, c) in q.proofs.iter_mut().zip(c) {
                    let mut b = vec![];
                    c.serialize_into(&mut b).unwrap();
                    *x = ExpSerde::deserialize_from(&mut b.as_slice()).unwrap();
                }
                j["forge"] = json!(verify(g, &q));
            }
        }
        ops.push(j);
    }
    if let Ok(p) = &p {
        let mut q: CombinedProof<C, Dummy<C>> = p.clone();
        let mut b = vec![];
        q.serialize_into(&mut b).unwrap();
        let q2 = CombinedProof::<C, Dummy<C>>::deserialize_from(&mut b.as_slice()).unwrap();
        let again = verify(g, &q2);
        q.proofs.pop();
        ops.push(json!({"op": "parts", "again": again, "short": verify(g, &q), "n": p.proofs.len()}));
    }
    ops
}
fn line<C: Config>(kerns: &[Kern], ops: Vec<Value>) -> Value
where
    SIMDField<C>: FieldRaw,
{
    json!({"kind": "hist", "p": jmod::<F<C>>(), "pack": SIMDField::<C>::PACK_SIZE,
           "ker": kerns.iter().map(|k| k.json()).collect::<Vec<_>>(), "ops": ops})
}
fn library<C: Config>(r: &mut Rng, views: bool) -> Option<Lib<C>> {
    let n = r.range(1, 3);
    let kerns: Vec<Kern> = (0..n)
        .map(|_| {
            if views || r.pct(40) {
                mac(if views { r.pick(&[4, 5, 0, 3]) } else { r.below(NMAC) })
            } else {
                gen_kern(r, 8)
            }
        })
        .collect();
    let mut prims = vec![];
    for k in &kerns {
        let p = quiet(|| k.compile::<C>()).ok()?.ok()?;
        // a kernel that is refused in any case
        let pi: Vec<_> = k.params.iter().map(|p| p.inp.then(|| p.shape.clone())).collect();
        let po: Vec<_> = k.params.iter().map(|p| p.out.then(|| p.shape.clone())).collect();
        quiet(|| compile_primitive(&p, &pi, &po)).ok()?.ok()?;
        prims.push(p);
    }
    let fresh = r.pct(25);
    Some(Lib { kerns, prims, fresh })
}
fn hist<C: Config>(prop: &str, r: &mut Rng) -> Vec<Value>
where
    SIMDField<C>: FieldRaw,
    F<C>: FieldRaw,
{
    let views = prop == "Z03" && r.pct(70);
    let Some(lib) = library::<C>(r, views) else { return vec![] };
    let kerns = lib.kerns.clone();
    let small = kerns.iter().any(|k| k.body.iter().any(|o| matches!(o, Op::Zero(_) | Op::Bool(_) | Op::NonZero(_)))) && r.pct(70);
    let mut g = G { r, w: World::new(), lib, shapes: vec![], steps: vec![], ops: vec![], small };
    let limit = if g.r.pct(20) { 72 } else { 36 };
    if prop == "Z03" {
        for _ in 0..g.r.range(1, 2) {
            let n = g.r.pick(&[4, 6, 8, 9, 10, 12, 12, 15, 16, 18, 20, 24, 24, 30, 36]);
            let s = gen_shape(g.r, n, 4);
            let h = g.put(&s);
            for _ in 0..2 {
                let t = gen_shape(g.r, n, 4);
                let k = g.r.range(1, 4);
                let h2 = g.chain(h, &t, k);
                if g.r.pct(60) {
                    g.get(h2);
                }
            }
            if g.r.pct(15) {
                let sh = gen_shape(g.r, n + 1, 3);
                g.go(Step::Reshape(h, sh));
            }
            if g.r.pct(20) {
                let d = g.shapes[h].as_ref().map_or(2, |s| s.len());
                let d = d + g.r.below(2) - d.min(1).min(g.r.below(2));
                let e = d.max(1) + g.r.below(2);
                let a = (0..d).map(|_| g.r.below(e)).collect();
                if !bad_axes(&a, g.shapes[h].as_ref().map_or(0, |s| s.len())) || g.r.pct(100) {
                    g.go(Step::Transpose(h, a));
                }
            }
        }
    }
    let calls = g.r.range(1, if prop == "Z02" { 5 } else { 4 });
    let chain = match prop {
        "Z03" => 80,
        "Z02" => 25,
        _ => 45,
    };
    for _ in 0..calls {
        g.call(chain, limit);
    }
    let open = g.steps.clone();
    let odd = |g: &mut G<C>| match g.r.below(30) {
        0 => {
            g.go(Step::Solve);
        }
        1 => {
            g.go(Step::Export);
        }
        2 => {
            let n = g.lib.kerns[0].params.len();
            g.go(Step::Call(0, 1, vec![None; n]));
        }
        _ => {}
    };
    let mut alt: Vec<ComputationGraph<C>> = vec![];
    if prop != "Z02" || g.r.pct(40) {
        if g.r.pct(10) {
            // solving or exporting too early
            let s = if g.r.pct(50) { Step::Solve } else { Step::Export };
            g.go(s);
        }
        if g.go(Step::Compile) {
            alt.push(g.w.graph.clone().unwrap());
            odd(&mut g);
            if g.r.pct(4) {
                g.go(Step::Compile);
            }
            if g.go(Step::Solve) {
                odd(&mut g);
                g.go(Step::Export);
                let n = if prop == "Z04" { 5 } else { 2 };
                let more = prove_ops(g.r, &g.w, n);
                g.ops.extend(more);
            }
        }
    }
    let mut out = vec![line::<C>(&kerns, std::mem::take(&mut g.ops))];
    if prop == "Z05" && !alt.is_empty() {
        // the same history elsewhere, with the saved graph
        let Lib { kerns: k2, prims, .. } = g.lib;
        let lib = Lib { kerns: k2, prims, fresh: r.pct(20) };
        let mut w = World::<C>::new();
        let mut steps = open.clone();
        let other = r.pct(45);
        if other {
            let calls: Vec<usize> = (0..steps.len()).filter(|i| matches!(steps[*i], Step::Call(..))).collect();
            match r.below(3) {
                0 => {
                    steps.truncate(r.pick(&calls));
                }
                1 => {
                    let c = steps[r.pick(&calls)].clone();
                    steps.push(c);
                }
                _ => {
                    let i = r.pick(&calls);
                    if let Step::Call(k, np, a) = &mut steps[i] {
                        *k = r.below(lib.kerns.len());
                        let (k, np) = (*k, *np);
                        if r.pct(50) {
                            a.reverse();
                        }
                        let _ = (k, np);
                    }
                }
            }
        }
        let mut ops: Vec<Value> = steps.iter().map(|s| w.step(&lib, s, &alt)).collect();
        // does the graph belong to these calls?
        let mut own = World::<C>::new();
        for s in &steps {
            own.step(&lib, s, &alt);
        }
        let belongs = own.step(&lib, &Step::Compile, &alt)["said"] == json!("ok") && own.graph.as_ref().unwrap().kernels == alt[0].kernels;
        let hurt = r.pct(30) && hurt(r, &mut alt[0]);
        let belongs = belongs && !hurt;
        let mut j = w.step(&lib, &Step::Load(0), &alt);
        j["same"] = json!(belongs);
        let ok = j["said"] == json!("ok");
        ops.push(j);
        if ok {
            let j = w.step(&lib, &Step::Solve, &alt);
            let ok = j["said"] == json!("ok");
            ops.push(j);
            if ok {
                ops.push(w.step(&lib, &Step::Export, &alt));
                ops.extend(prove_ops(r, &w, 1));
            }
        }
        out.push(line::<C>(&kerns, ops));
    }
    out
}
/// change one of the numbers of a saved graph
fn hurt<C: Config>(r: &mut Rng, g: &mut ComputationGraph<C>) -> bool {
    let old = (g.proof_templates.clone(), g.commitments_lens.clone());
    let n = g.commitments_lens.len();
    let c = r.below(9);
    if c < 3 && n > 0 {
        let i = if r.pct(50) { n - 1 } else { r.below(n) };
        let l = &mut g.commitments_lens;
        match c {
            0 => l[i] *= 2,
            1 => l[i] /= 2,
            _ => l.push(1),
        }
    } else if let Some(i) = (!g.proof_templates.is_empty()).then(|| r.below(g.proof_templates.len())) {
        let t = &mut g.proof_templates[i];
        let k = t.commitment_indices.len();
        match c {
            3 => t.parallel_count *= 2,
            4 if k > 0 => {
                let j = r.below(k);
                t.is_broadcast[j] = !t.is_broadcast[j];
            }
            5 if k > 0 => {
                let j = r.below(k);
                t.commitment_bit_orders[j].reverse();
            }
            6 if k > 0 => {
                let j = r.below(k);
                t.commitment_indices[j] = r.below(n.max(1));
            }
            7 => {
                g.proof_templates.pop();
            }
            _ => {
                let t = g.proof_templates[i].clone();
                g.proof_templates.push(t);
            }
        }
    }
    old != (g.proof_templates.clone(), g.commitments_lens.clone())
}
fn bad_axes(a: &Vec<usize>, n: usize) -> bool {
    let mut b = a.clone();
    b.sort();
    b != (0..n).collect::<Vec<_>>()
}

// ------------------------------------------------------------------------------------------ Z06
fn copies<C: Config>(r: &mut Rng) -> Vec<Value>
where
    SIMDField<C>: FieldRaw,
    F<C>: FieldRaw,
{
    let lib = Lib { kerns: vec![mac(5)], prims: vec![mac(5).compile::<C>().unwrap()], fresh: false };
    let kerns = lib.kerns.clone();
    let mut g = G { r, w: World::<C>::new(), lib, shapes: vec![], steps: vec![], ops: vec![], small: false };
    for _ in 0..g.r.range(1, 4) {
        let pack = SIMDField::<C>::PACK_SIZE;
        let d = g.r.below(5);
        let sh: Vec<usize> = (0..d).map(|_| g.r.range(1, 4)).collect();
        if g.r.pct(12) {
            let n = g.r.below(13);
            let v: Vec<Vec<F<C>>> = (0..n).map(|_| g.lane()).collect();
            let c = g.r.below(5);
            g.go(Step::Flat(v, c));
        } else {
            let mode = g.r.pick(&["plain", "pack", "simd"]);
            let mut sh = sh;
            if mode == "pack" && g.r.pct(85) {
                sh.insert(0, pack);
            }
            let n = prod(&sh);
            let k = if mode == "simd" { pack } else { 1 };
            let v: Vec<Vec<F<C>>> = (0..n).map(|_| (0..k).map(|_| g.val()).collect()).collect();
            let mut t = tree_of(&v, &sh);
            let d = sh.len();
            if g.r.pct(20) {
                damage(g.r, &mut t, d);
            }
            g.go(Step::Put(mode, d, t));
        }
        let h = g.last();
        let d = g.shapes[h].as_ref().map_or(1, |s| s.len());
        for mode in ["simd", "plain", "pack"] {
            let d = if mode == "pack" { d + 1 } else { d };
            let d = if g.r.pct(15) { g.r.below(5) } else { d };
            if d <= MAXD {
                g.go(Step::Get(h, mode, d));
            }
        }
        if g.r.pct(30) {
            let n = g.shapes[h].as_ref().map_or(1, |s| prod(s));
            let s = gen_shape(g.r, n.max(1), 3);
            g.go(Step::Reshape(h, s));
            let h = g.last();
            g.get(h);
            if g.r.pct(50) {
                let n = g.shapes[h].as_ref().map_or(0, |s| s.len());
                let mut a: Vec<usize> = (0..n).collect();
                g.r.shuffle(&mut a);
                g.go(Step::Transpose(h, a));
                let h = g.last();
                g.get(h);
            }
        }
    }
    // what was copied is what a kernel sees and what is committed
    if g.r.pct(40) {
        for h in 0..g.shapes.len() {
            if let Some(s) = g.shapes[h].clone() {
                if s.len() == 1 && s[0] <= 40 {
                    g.go(Step::Call(0, s[0], vec![Some(h)]));
                    let h = g.last();
                    g.get(h);
                }
            }
        }
        if g.go(Step::Compile) && g.go(Step::Solve) {
            g.go(Step::Export);
            let more = prove_ops(g.r, &g.w, 1);
            g.ops.extend(more);
        }
    }
    let ops = g.ops;
    vec![line::<C>(&kerns, ops)]
}
/// makes a nested array irregular
fn damage<T: Clone>(r: &mut Rng, t: &mut Tree<T>, d: usize) {
    if let Tree::Node(v) = t {
        if d <= 1 || r.pct(40) {
            match r.below(3) {
                0 => v.clear(),
                1 => {
                    v.pop();
                }
                _ => {
                    let x = v[0].clone();
                    v.push(x);
                }
            }
        } else {
            let i = r.below(v.len());
            damage(r, &mut v[i], d - 1);
        }
    }
}

// ------------------------------------------------------------------------------------------ Z01
fn one_kernel<C: Config>(r: &mut Rng) -> Vec<Value>
where
    SIMDField<C>: FieldRaw,
    F<C>: FieldRaw,
{
    let kern = if r.pct(12) { mac(r.below(NMAC)) } else { gen_kern(r, 12) };
    let pack = SIMDField::<C>::PACK_SIZE;
    let mut j = json!({"kind": "kern", "p": jmod::<F<C>>(), "pack": pack, "ker": kern.json(), "ops": []});
    let prim = match quiet(|| kern.compile::<C>()) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => {
            j["said"] = json!("err");
            j["msg"] = json!(format!("{e:?}"));
            return vec![j];
        }
        Err(e) => {
            j["said"] = json!("no");
            j["msg"] = json!(e);
            return vec![j];
        }
    };
    let pads: Vec<Vec<usize>> = kern.params.iter().map(|p| gen_shape(r, prod(&p.shape), 3)).collect();
    let pads2: Vec<Vec<usize>> = kern.params.iter().map(|p| gen_shape(r, prod(&p.shape), 3)).collect();
    let pi: Vec<Option<Vec<usize>>> = kern.params.iter().zip(&pads).map(|(p, s)| p.inp.then(|| s.clone())).collect();
    let po: Vec<Option<Vec<usize>>> = kern.params.iter().zip(&pads2).map(|(p, s)| p.out.then(|| s.clone())).collect();
    let k = match quiet(|| compile_primitive(&prim, &pi, &po)) {
        Ok(Ok(k)) => k,
        Ok(Err(e)) => {
            j["said"] = json!("err");
            j["msg"] = json!(format!("{e:?}"));
            return vec![j];
        }
        Err(e) => {
            j["said"] = json!("no");
            j["msg"] = json!(e);
            return vec![j];
        }
    };
    j["said"] = json!("ok");
    j["pin"] = json!(kern.params.iter().zip(&pads).filter(|(p, _)| p.inp).map(|(_, s)| s.clone()).collect::<Vec<_>>());
    j["pout"] = json!(kern.params.iter().zip(&pads2).filter(|(p, _)| p.out).map(|(_, s)| s.clone()).collect::<Vec<_>>());
    j["at"] = json!(k.layered_circuit_input().iter().map(|x| vec![x.len, x.offset]).collect::<Vec<_>>());
    j["size"] = json!(k.layered_circuit().input_size());
    j["hint"] = json!(k.hint_solver().is_some());
    let reg = registry::<F<C>>();
    let small = r.pct(40);
    let mut runs = vec![];
    for t in 0..5 {
        // the inputs
        let val = |r: &mut Rng| -> F<C> {
            if small || r.pct(15) {
                F::<C>::from(r.below(2) as u32)
            } else {
                F::<C>::from_u256(ethnum::U256::from(r.next()) * ethnum::U256::from(r.next()))
            }
        };
        let n_in: usize = kern.params.iter().filter(|p| p.inp).map(|p| prod(&p.shape)).sum();
        let n_out: usize = kern.params.iter().filter(|p| p.out).map(|p| prod(&p.shape)).sum();
        let ins: Vec<SIMDField<C>> = (0..n_in).map(|_| SIMDField::<C>::pack(&(0..pack).map(|_| val(r)).collect::<Vec<_>>())).collect();
        let mut ir: Vec<SIMDField<C>> = ins.clone();
        ir.resize(prim.ir_for_calling().input_size(), SIMDField::<C>::zero());
        let said = match quiet(|| prim.ir_for_calling().eval_safe_simd(ir, &[], &reg)) {
            Ok(Ok(o)) => o,
            Ok(Err(_)) => {
                runs.push(json!({"ins": jlanes::<C>(&ins), "said": "err"}));
                continue;
            }
            Err(e) => {
                runs.push(json!({"ins": jlanes::<C>(&ins), "said": "no", "msg": e}));
                continue;
            }
        };
        let mut run = json!({"ins": jlanes::<C>(&ins), "said": "ok", "outs": jlanes::<C>(&said[n_in..])});
        let mut outs = said[n_in..].to_vec();
        // sometimes other outputs
        if t > 0 && n_out > 0 && r.pct(50) {
            let i = r.below(n_out);
            let mut v = outs[i].unpack();
            let l = r.below(pack);
            v[l] = if r.pct(50) { v[l] + F::<C>::one() } else { val(r) };
            outs[i] = SIMDField::<C>::pack(&v);
        }
        let mut all = ins.clone();
        all.extend(&outs);
        let hints = match k.hint_solver() {
            None => vec![],
            Some(s) => match quiet(|| s.eval_safe_simd(all.clone(), &[], &reg)) {
                Ok(Ok(h)) => h,
                Ok(Err(_)) => {
                    run["said"] = json!("hint err");
                    runs.push(run);
                    continue;
                }
                Err(e) => {
                    run["said"] = json!("hint no");
                    run["msg"] = json!(e);
                    runs.push(run);
                    continue;
                }
            },
        };
        // the inputs of the circuit, anything in the padding
        let mut x: Vec<SIMDField<C>> = (0..k.layered_circuit().input_size())
            .map(|_| if t == 0 { SIMDField::<C>::zero() } else { SIMDField::<C>::pack(&(0..pack).map(|_| val(r)).collect::<Vec<_>>()) })
            .collect();
        let mut at = 0;
        let shapes: Vec<Vec<usize>> = pi.iter().chain(po.iter()).flatten().cloned().chain((!hints.is_empty()).then(|| vec![hints.len()])).collect();
        let ok = quiet(|| {
            for (s, l) in shapes.iter().zip(k.layered_circuit_input()) {
                for e in 0..prod(s) {
                    let (mut q, mut pos, mut st) = (e, 0, 1);
                    for d in s.iter().rev() {
                        pos += (q % d) * st;
                        q /= d;
                        st *= pow2(*d);
                    }
                    x[l.offset + pos] = if at + e < all.len() { all[at + e] } else { hints[at + e - all.len()] };
                }
                at += prod(s);
            }
        });
        if ok.is_err() {
            run["said"] = json!("layout");
            runs.push(run);
            continue;
        }
        run["x"] = jlanes::<C>(&x);
        run["nh"] = json!(hints.len());
        match quiet(|| k.layered_circuit().eval_with_public_inputs_simd(x, &[])) {
            Ok((_, c)) => run["ok"] = json!(c),
            Err(e) => {
                run["said"] = json!("run no");
                run["msg"] = json!(e);
            }
        }
        runs.push(run);
    }
    j["runs"] = json!(runs);
    let _ = kern.has_hints();
    vec![j]
}

macro_rules! with_cfg {
    ($n:expr, $c:ident, $e:expr) => {
        match $n {
            0 | 1 => { type $c = T3; $e }
            2 | 3 => { type $c = T5X; $e }
            4..=7 => { type $c = T97X; $e }
            _ => { type $c = BN254Config; $e }
        }
    };
}
/// cuda PROP SEED COUNT OUT [ONLY]
pub fn main(a: &[String]) {
    let prop = a[0].as_str();
    let seed: u64 = a[1].parse().unwrap();
    let count: usize = a[2].parse().unwrap();
    let only: Option<usize> = a.get(4).and_then(|x| x.parse().ok());
    let salt = prop.bytes().fold(0u64, |h, b| h * 31 + b as u64);
    let lines = super::par::run(2 * count, only.map(|x| x & !1), &a[3], |id| {
        if id % 2 == 1 {
            return vec![];
        }
        let id = id / 2;
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64) ^ salt ^ 0xc0da);
        let c = r.below(10);
        let v = with_cfg!(c, C, match prop {
            "Z01" => one_kernel::<C>(&mut r),
            "Z06" => copies::<C>(&mut r),
            _ => hist::<C>(prop, &mut r),
        });
        v.into_iter()
            .enumerate()
            .map(|(i, mut l)| {
                l["id"] = json!(2 * id + i);
                l
            })
            .collect()
    });
    let mut said = std::collections::BTreeMap::<String, usize>::new();
    for l in &lines {
        for o in l["ops"].as_array().into_iter().flatten().chain(l["runs"].as_array().into_iter().flatten()) {
            let k = format!("{} {}", o["op"].as_str().unwrap_or("run"), o["said"].as_str().or(o["prove"].as_str()).unwrap_or(""));
            *said.entry(k).or_default() += 1;
        }
        if l["kind"] == "kern" {
            *said.entry(format!("kern {}", l["said"].as_str().unwrap())).or_default() += 1;
        }
    }
    super::par::write(&a[3], &lines, json!({"scenarios": count, "lines": lines.len(), "said": said}));
}
