//! Circuits written with the builder of the Go packages (L03); see specs/GoBuild.tla.
//! The programs are made here, run by harness/gofront/build.go, and what its builder made of
//! them is read back by the library.
use crate::cross::{ask, unhex, F};
use expander_compiler::circuit::config::{BN254Config, Config, GF2Config, M31Config};
use expander_compiler::circuit::ir::source;
use ethnum::U256;
use expander_compiler::field::Field;
use expander_compiler::vp::gen::{self, Rng};
use expander_compiler::vp::par;
use expander_compiler::vp::prog::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vpshim::ExpSerde;

const NF: usize = 7;
#[derive(Clone, Debug)]
enum Opd<T> {
    V(usize),
    C(T),
    U(usize),
    M(usize),
    K(usize),
}
#[derive(Clone, Debug)]
struct Op<T> {
    o: &'static str,
    a: Vec<Opd<T>>,
    n: usize,
    h: &'static str,
    f: usize,
    m: &'static str,
    k: Vec<Opd<T>>,
    s: Vec<usize>,
}
fn op<T>(o: &'static str, a: Vec<Opd<T>>) -> Op<T> {
    Op { o, a, n: 0, h: "", f: 0, m: "", k: vec![], s: vec![] }
}
fn jbody<T: Field>(b: &[Op<T>]) -> Value {
    let x = |x: &Opd<T>| match x {
        Opd::V(i) => json!(["v", i]),
        Opd::C(v) => json!(["c", jf(v)]),
        Opd::U(v) => json!(["u", v]),
        Opd::M(v) => json!(["m", v]),
        Opd::K(i) => json!(["k", i]),
    };
    let xs = |v: &[Opd<T>]| Value::Array(v.iter().map(x).collect());
    Value::Array(b.iter().map(|o| json!({"o": o.o, "a": xs(&o.a), "n": o.n, "h": o.h, "f": o.f + 1, "m": o.m, "k": xs(&o.k), "s": o.s})).collect())
}
fn gobody<T: Field>(b: &[Op<T>]) -> Value {
    let x = |x: &Opd<T>| match x {
        Opd::V(i) => json!({"k": "v", "i": i}),
        Opd::C(v) => json!({"k": "c", "v": v.to_u256().to_string()}),
        Opd::U(v) => json!({"k": "u", "i": v}),
        Opd::M(v) => json!({"k": "m", "i": v}),
        Opd::K(i) => json!({"k": "k", "i": i}),
    };
    let xs = |v: &[Opd<T>]| Value::Array(v.iter().map(x).collect());
    Value::Array(b.iter().map(|o| json!({"o": o.o, "a": xs(&o.a), "n": o.n, "h": o.h, "f": o.f, "m": o.m, "c": xs(&o.k), "s": o.s})).collect())
}
/// enough of the meaning to choose scenarios that are not all rejected
struct G<'a, T> {
    fns: &'a [Vec<Op<T>>],
    ok: bool,
    steps: usize,
}
/// the bits that an element takes
fn width<T: Field>() -> usize {
    256 - (T::MODULUS - U256::from(1u32)).leading_zeros() as usize
}
fn isb<T: Field>(x: &T) -> bool {
    x.is_zero() || *x == T::ONE
}
impl<T: Field> G<'_, T> {
    fn body(&mut self, b: &[Op<T>], v: &[T], k: &[usize]) -> Vec<T> {
        let mut v = v.to_vec();
        if v.is_empty() {
            v.push(T::from(7u32));
        }
        for o in b {
            if !self.ok {
                break;
            }
            let r = self.op(o, &v, k);
            v.extend(r);
        }
        v
    }
    fn op(&mut self, o: &Op<T>, v: &[T], k: &[usize]) -> Vec<T> {
        let big = T::MODULUS.leading_zeros() < 100;
        self.steps += match o.o {
            "cmp" => if big { 2500 } else { 340 },
            "le" => if big { 2000 } else { 250 },
            "tobin" if o.n == 0 => if big { 1200 } else { 150 },
            "tobin" | "frombin" => 3 * o.n + 3,
            _ => 2,
        };
        let a: Vec<T> = o.a.iter().map(|x| match x {
            Opd::V(i) => v[i % v.len()],
            Opd::C(x) => *x,
            Opd::U(x) => T::from(*x as u32),
            Opd::M(x) => -T::from(*x as u32),
            Opd::K(i) => T::from(k[i % k.len()] as u32),
        }).collect();
        let b = |x: bool| T::from(x as u32);
        let mut ok = true;
        let r = match o.o {
            "add" => vec![a.iter().cloned().sum()],
            "sub" => vec![a[0] - a[1..].iter().cloned().sum::<T>()],
            "mul" => vec![a.iter().cloned().product()],
            "mac" => vec![a[0] + a[1] * a[2]],
            "neg" => vec![-a[0]],
            "div" | "divu" | "inv" => {
                let (x, y) = if o.o == "inv" { (T::ONE, a[0]) } else { (a[0], a[1]) };
                ok = !y.is_zero() || o.o == "divu" && x.is_zero();
                vec![if y.is_zero() { T::ZERO } else { x * y.inv().unwrap() }]
            }
            "xor" | "or" | "and" => {
                ok = isb(&a[0]) && isb(&a[1]);
                let xy = a[0] * a[1];
                vec![match o.o {
                    "and" => xy,
                    "or" => a[0] + a[1] - xy,
                    _ => a[0] + a[1] - xy - xy,
                }]
            }
            "sel" => {
                ok = isb(&a[0]);
                vec![if a[0].is_zero() { a[2] } else { a[1] }]
            }
            "look" => {
                ok = isb(&a[0]) && isb(&a[1]);
                vec![a[2 + !a[0].is_zero() as usize + 2 * !a[1].is_zero() as usize]]
            }
            "isz" => vec![b(a[0].is_zero())],
            "cmp" => {
                let (x, y) = (a[0].to_u256(), a[1].to_u256());
                vec![b(x > y) - b(x < y)]
            }
            "tobin" => {
                let x = a[0].to_u256();
                let n = if o.n == 0 { width::<T>() } else { o.n };
                ok = 256 - x.leading_zeros() as usize <= n;
                (0..n).map(|i| b((x >> i) & 1 == 1)).collect()
            }
            "frombin" => {
                ok = a.iter().all(isb);
                vec![a.iter().rev().fold(T::ZERO, |s, x| s + s + *x)]
            }
            "cv" | "first" | "single" => vec![a[0]],
            "hint" | "gate" => match custom_hint(o.h, &a, o.n) {
                Ok(v) => v,
                Err(_) => {
                    ok = false;
                    vec![T::ZERO; o.n]
                }
            },
            "call" | "defer" => {
                let mut c = vec![3];
                c.extend(o.k.iter().map(|x| num(x, k)));
                c.extend(&o.s);
                let r = self.body(&self.fns[o.f], &a, &c);
                match (o.o, o.m, o.f) {
                    ("defer", ..) | (_, "memo", 3) => vec![],
                    (_, "memo", 2) | (_, "memo", 6) => vec![r[r.len() - 1] + r[0]],
                    _ => r,
                }
            }
            _ => {
                ok = match o.o {
                    "aeq" => a[0] == a[1],
                    "ane" => a[0] != a[1],
                    "ab" => isb(&a[0]),
                    "crumb" => (0..4u32).any(|i| a[0] == T::from(i)),
                    _ => a[0].to_u256() <= a[1].to_u256(),
                };
                vec![]
            }
        };
        self.ok &= ok;
        r
    }
}
fn num<T>(x: &Opd<T>, k: &[usize]) -> usize {
    match x {
        Opd::U(v) => *v,
        Opd::K(i) => k[i % k.len()],
        _ => unreachable!(),
    }
}
fn opd<T: Field>(r: &mut Rng, v: &[T], want: Option<fn(&T) -> bool>, cst: usize) -> Opd<T> {
    if r.pct(cst) {
        return match r.below(4) {
            0 => Opd::U(r.below(5)),
            1 => Opd::C(gen::val::<T>(r)),
            2 => Opd::M(r.below(5)),
            _ => Opd::K(r.below(4)),
        };
    }
    let n = v.len();
    let mut i = r.below(n);
    for _ in 0..12 {
        if want.map_or(r.pct(30), |w| w(&v[i])) {
            break;
        }
        i = if r.pct(60) { n - 1 - r.below(n.min(4)) } else { r.below(n) };
    }
    Opd::V(i)
}
fn value<T: Field>(x: &Opd<T>, v: &[T], k: &[usize]) -> T {
    match x {
        Opd::V(i) => v[i % v.len()],
        Opd::C(x) => *x,
        Opd::U(x) => T::from(*x as u32),
        Opd::M(x) => -T::from(*x as u32),
        Opd::K(i) => T::from(k[i % k.len()] as u32),
    }
}
fn call<T: Field>(r: &mut Rng, from: usize, v: &[T]) -> Op<T> {
    let mut o = op("call", vec![]);
    o.f = r.range(from, NF - 1);
    o.m = r.pick(&["inline", "simple", "memo", "memo", "memo"]);
    if r.pct(15) {
        o.o = "defer";
        o.m = "";
    }
    let u = |r: &mut Rng, n: usize| Opd::U(r.below(n));
    let n = match (o.m, o.f) {
        ("memo", 2) | ("memo", 6) => 1,
        _ => r.range(1, 4),
    };
    o.a = (0..n).map(|_| opd(r, v, None, 15)).collect();
    match (o.m, o.f) {
        ("memo", 0) => {
            o.k = vec![if r.pct(20) { Opd::K(r.below(4)) } else { Opd::U(r.pick(&[0, 1, 2, 11, 256])) }];
            o.s = vec![n - 1];
        }
        ("memo", 1) => {
            o.k = vec![u(r, 2), u(r, 8)];
            let mut left = n;
            while left > 0 {
                let m = r.below(left + 1);
                o.s.push(m);
                left -= m;
            }
        }
        ("memo", 2) => o.k = vec![u(r, 3), u(r, 3)],
        ("memo", 3) => o.s = vec![n],
        ("memo", 4) => o.s = vec![n - 1],
        ("memo", 5) => {
            let mut left = n;
            while left > 0 {
                let m = r.below(left + 1);
                o.s.push(m);
                left -= m;
            }
            o.k = vec![Opd::U(r.range(1, o.s.len()))];
        }
        ("memo", 6) => o.k = vec![u(r, 8), u(r, 8), u(r, 2)],
        ("inline", _) | ("", _) => o.k = (0..r.below(3)).map(|_| u(r, 4)).collect(),
        _ => o.n = r.below(2),
    }
    if o.m == "memo" && o.f == 6 && r.pct(30) {
        // words that read alike when written one after the other with their lengths
        o.k = if r.pct(50) { vec![Opd::U(1), Opd::U(4), u(r, 2)] } else { vec![Opd::U(3), Opd::U(5), u(r, 2)] };
    }
    o
}
/// another call of the same function, in one point different at most
fn twin<T: Field>(r: &mut Rng, o: &Op<T>, v: &[T]) -> Op<T> {
    let mut o = o.clone();
    for x in o.a.iter_mut() {
        if r.pct(50) {
            *x = opd(r, v, None, 0);
        }
    }
    match o.f {
        1 if r.pct(50) => r.shuffle(&mut o.s),
        5 if r.pct(70) => o.k = vec![Opd::U(r.range(1, o.s.len()))],
        _ if !o.k.is_empty() => {
            let i = r.below(o.k.len());
            o.k[i] = match (o.f, i) {
                (1, 0) | (6, 2) => Opd::U(r.below(2)),
                (5, _) => return o,
                (0, _) => Opd::U(r.pick(&[0, 1, 2, 11, 256])),
                (2, _) => Opd::U(r.below(3)),
                _ => Opd::U(r.below(8)),
            };
        }
        _ => {}
    }
    o
}
fn some_op<T: Field>(r: &mut Rng, from: usize, v: &[T], k: &[usize]) -> Op<T> {
    let b: fn(&T) -> bool = isb;
    let nz: fn(&T) -> bool = |x| !x.is_zero();
    let z: fn(&T) -> bool = |x| x.is_zero();
    let cst = if r.pct(10) { 90 } else { 20 };
    let bool_ = |r: &mut Rng| if r.pct(15) { Opd::U(r.below(2)) } else { opd(r, v, Some(b), 0) };
    let any = |r: &mut Rng| opd(r, v, None, cst);
    let many = |r: &mut Rng| -> Vec<Opd<T>> { (0..r.pick(&[2, 2, 2, 3, 4, 6])).map(|_| opd(r, v, None, cst)).collect() };
    if from < NF && r.pct(25) {
        return call(r, from, v);
    }
    match r.below(100) {
        0..=24 => op(r.pick(&["add", "sub", "mul"]), many(r)),
        25..=28 => op("mac", vec![any(r), any(r), any(r)]),
        29..=32 => op(r.pick(&["neg", "cv", "first", "single"]), vec![any(r)]),
        33..=38 => op(r.pick(&["div", "divu"]), vec![any(r), opd(r, v, Some(nz), cst)]),
        39..=40 => op("inv", vec![opd(r, v, Some(nz), cst)]),
        41..=50 => op(r.pick(&["xor", "or", "and"]), vec![bool_(r), bool_(r)]),
        51..=55 => op("sel", vec![bool_(r), any(r), any(r)]),
        56..=59 => op("look", vec![bool_(r), bool_(r), any(r), any(r), any(r), any(r)]),
        60..=65 => op("isz", vec![any(r)]),
        66..=67 => op("cmp", vec![any(r), any(r)]),
        68..=72 => {
            let mut o = op("tobin", vec![any(r)]);
            let need = 256 - value(&o.a[0], v, k).to_u256().leading_zeros() as usize;
            o.n = match r.below(5) {
                0 => 0,
                1 if need > 1 && r.pct(20) => need - 1,
                1 => (need + 1).min(width::<T>()).max(1),
                _ => need.max(1),
            };
            o
        }
        73..=76 => {
            let n = r.range(1, 5);
            op("frombin", (0..n).map(|_| bool_(r)).collect())
        }
        77..=83 => {
            let mut o = op(r.pick(&["hint", "hint", "gate"]), vec![]);
            o.h = r.pick(&CUSTOM);
            o.a = (0..r.range(1, 3)).map(|_| any(r)).collect();
            o.n = if o.o == "gate" { 1 } else { r.range(1, 2) };
            o
        }
        84..=87 => {
            let a = opd(r, v, None, 5);
            let x = value(&a, v, k);
            let at: Vec<usize> = (0..v.len()).filter(|i| v[*i] == x).collect();
            op("aeq", vec![a, if at.is_empty() { Opd::C(x) } else { Opd::V(r.pick(&at)) }])
        }
        88..=90 => op("ane", vec![opd(r, v, Some(nz), 5), opd(r, v, Some(z), cst)]),
        91..=93 => op("ab", vec![bool_(r)]),
        94..=95 => op("crumb", vec![if r.pct(70) { opd(r, v, Some(b), 0) } else { any(r) }]),
        _ => op("le", vec![any(r), any(r)]),
    }
}
fn gen_body<T: Field>(r: &mut Rng, fns: &[Vec<Op<T>>], from: usize, v: &[T], k: &[usize], len: usize) -> Vec<Op<T>> {
    let mut b: Vec<Op<T>> = vec![];
    let mut v = if v.is_empty() { vec![T::from(7u32)] } else { v.to_vec() };
    for _ in 0..len {
        for _ in 0..6 {
            let memo: Vec<usize> = (0..b.len()).filter(|i| b[*i].m == "memo").collect();
            let o = if !memo.is_empty() && r.pct(20) { twin(r, &b[memo[memo.len() - 1]], &v) } else { some_op(r, from, &v, k) };
            let mut g = G { fns, ok: true, steps: 0 };
            let x = g.op(&o, &v, k);
            let dear = g.steps > 100 && !r.pct(if g.steps > 1000 { 2 } else { 60 });
            if (!g.ok && !r.pct(if o.o.starts_with("div") { 20 } else { 3 })) || dear || g.steps > 3000 {
                continue;
            }
            v.extend(x);
            b.push(o);
            break;
        }
    }
    b
}
fn scenario<C: Config>(r: &mut Rng) -> Value {
    let calls = r.pct(70);
    let mut fns: Vec<Vec<Op<F<C>>>> = vec![vec![]; NF];
    if calls {
        for f in (0..NF).rev() {
            let v: Vec<F<C>> = (0..r.range(1, 4)).map(|_| gen::val(r)).collect();
            let k: Vec<usize> = (0..4).map(|i| if i == 0 { 3 } else { r.below(4) }).collect();
            let n = r.range(1, 4);
            let from = if r.pct(60) { f + 1 } else { NF };
            let mut b = gen_body(r, &fns, from, &v, &k, n);
            if r.pct(40) {
                // asks something of its arguments
                b.push(op(r.pick(&["ab", "crumb"]), vec![Opd::V(0)]));
            }
            if r.pct(60) {
                // the constants and the shape matter
                b.push(op("mul", vec![Opd::V(0), Opd::K(1)]));
                b.push(op("add", vec![Opd::V(v.len() + 20), Opd::K(2), Opd::K(r.below(5))]));
            }
            fns[f] = b;
        }
    }
    let (nx, ny) = (r.below(5), r.below(3));
    let plant: Vec<F<C>> = (0..nx + ny).map(|_| if r.pct(40) { F::<C>::from(r.below(2) as u32) } else { gen::val(r) }).collect();
    let len = r.range(2, 12);
    let main = gen_body(r, &fns, if calls { 0 } else { NF }, &plant, &[3], len);
    let mut runs = vec![plant.clone()];
    for _ in 0..3 {
        runs.push(if r.pct(60) && !plant.is_empty() {
            let mut x = plant.clone();
            let i = r.below(x.len());
            x[i] = if r.pct(50) { F::<C>::from(r.below(2) as u32) } else { gen::val(r) };
            x
        } else {
            (0..nx + ny).map(|_| if r.pct(40) { F::<C>::from(r.below(2) as u32) } else { gen::val(r) }).collect()
        });
    }
    json!({
        "kind": "build", "p": jmod::<F<C>>(), "cfg": C::CONFIG_ID,
        "run": {"fns": fns.iter().map(|b| gobody(b)).collect::<Vec<_>>(), "main": gobody(&main), "nx": nx, "ny": ny, "form": r.below(3)},
        "prog": {"fns": fns.iter().map(|b| jbody(b)).collect::<Vec<_>>(), "main": jbody(&main)},
        "tries": runs.iter().map(|x| json!({"x": jfs(&x[..nx]), "y": jfs(&x[nx..])})).collect::<Vec<_>>(),
    })
}
fn answer<C: Config>(q: &Value, a: &Value) -> Value {
    let mut v = json!({"kind": "build", "p": q["p"], "prog": q["prog"], "runs": q["tries"], "nx": q["run"]["nx"], "ny": q["run"]["ny"],
        "said": a["said"], "msg": a["msg"].as_str().unwrap_or("")});
    if a["said"] == "ok" {
        let b = unhex(a["b"].as_str().unwrap());
        let mut at: &[u8] = &b;
        let circ = match catch_unwind(AssertUnwindSafe(|| source::RootCircuit::<C>::deserialize_from(&mut at))) {
            Ok(Ok(x)) if at.is_empty() => {
                v["valid"] = json!(x.validate().is_ok());
                jprog(&from_root(&x), false)
            }
            _ => json!({"none": true}),
        };
        let mut t = circ.to_string();
        for (id, name) in a["ids"].as_object().unwrap() {
            t = t.replace(&format!("\"#{id}\""), &name.to_string());
        }
        v["circ"] = serde_json::from_str(&t).unwrap();
        v["cfg"] = json!(a["cfg"] == q["cfg"]);
    }
    v
}
pub fn run(seed: u64, count: usize, out: &str, only: Option<usize>) {
    vpshim::serdes_impl::ANY_ORDER.store(true, std::sync::atomic::Ordering::Relaxed);
    let qs = par::run(count, only, out, |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64));
        let mut v = match r.below(5) {
            0 | 1 => scenario::<M31Config>(&mut r),
            2 | 3 => scenario::<BN254Config>(&mut r),
            _ => scenario::<GF2Config>(&mut r),
        };
        v["id"] = json!(id);
        vec![v]
    });
    let lines = ask(qs, out, |q, a| match q["cfg"].as_u64().unwrap() {
        1 => answer::<M31Config>(q, a),
        2 => answer::<BN254Config>(q, a),
        _ => answer::<GF2Config>(q, a),
    });
    let n = lines.len();
    par::write(out, &lines, json!({"scenarios": n, "lines": n}));
}
