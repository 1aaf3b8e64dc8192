//! Drivers for circuit-std-rs (see /verif/DESIGN.md, properties S01..). Every gadget is built in
//! one circuit shape: inputs x, claimed outputs y. It is evaluated in the debug builder, compiled
//! and run; specs/Std.tla says what it has to compute.
use arith::Field as _;
use ethnum::U256;
use expander_compiler::circuit::config::{BN254Config, CircuitField, Config, GF2Config, GoldilocksConfig, M31Config};
use expander_compiler::compile::CompileOptions;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::frontend::{compile, declare_circuit, extra, Define, Error, RootAPI, Variable};
use expander_compiler::hints::registry::HintRegistry;
pub use expander_compiler::vp::gen::Rng;
use expander_compiler::vp::par;
use expander_compiler::vp::prog::{jf, jfs, jmod};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! choose {
    ($r:ident; $($x:expr),* $(,)?) => {{
        let v = [$($x),*];
        $r.pick(&v)
    }};
}
pub mod bits;
pub mod emu;
pub mod hash;
pub mod load;
pub mod look;
pub mod rsa;
pub mod wide;

pub type F<C> = CircuitField<C>;

/// a gadget: its name and parameters
#[derive(Clone, Default, Debug)]
pub struct Gad {
    pub g: String,
    pub k: Vec<usize>,
    pub ops: Value,
}
/// one scenario
#[derive(Clone, Default)]
pub struct Sc {
    pub cfg: &'static str,
    pub gad: Gad,
    pub x: Vec<U256>,
    /// more inputs to try with the same circuit
    pub more: Vec<Vec<U256>>,
    /// "fn": has outputs; "rel": only accepts or refuses
    pub rel: bool,
    /// how often a run is repeated (random challenges)
    pub reps: usize,
    /// what the prover answers to hints
    pub adv: usize,
    /// also compile it
    pub full: bool,
}

declare_circuit!(Gc { x: [Variable], y: [Variable] });
thread_local! {
    static GAD: RefCell<Gad> = RefCell::default();
    /// in the debug builder: the outputs are noted here
    static SEEN: RefCell<Option<Value>> = RefCell::default();
    static DEBUG: RefCell<bool> = RefCell::default();
}
macro_rules! define {
    ($($C:ident, $f:path);* $(;)?) => { $(
        impl Define<$C> for Gc<Variable> {
            fn define<B: RootAPI<$C>>(&self, b: &mut B) {
                let g = GAD.with(|g| g.borrow().clone());
                let out = $f(b, &g, &self.x);
                if DEBUG.with(|d| *d.borrow()) {
                    let v: Vec<F<$C>> = out.iter().map(|v| b.constant_value(*v).unwrap()).collect();
                    SEEN.with(|s| *s.borrow_mut() = Some(jfs(&v)));
                } else {
                    // every input is used
                    for (i, v) in out.iter().chain(self.x.iter()).enumerate() {
                        b.assert_is_equal(*v, self.y[i]);
                    }
                }
            }
        }
    )* };
}
fn m31<C: Config, B: RootAPI<C>>(b: &mut B, g: &Gad, x: &[Variable]) -> Vec<Variable> {
    look::build(b, g, x).or_else(|| bits::build(b, g, x)).or_else(|| hash::build(b, g, x)).or_else(|| load::build(b, g, x)).expect("gadget")
}
fn m31_emu<B: RootAPI<M31Config>>(b: &mut B, g: &Gad, x: &[Variable]) -> Vec<Variable> {
    emu::build(b, g, x).unwrap_or_else(|| m31(b, g, x))
}
fn registry<F: Field>(s: &Sc) -> HintRegistry<F> {
    if s.gad.g == "emu" {
        emu::hints(s.adv)
    } else if s.gad.g == "load" {
        load::hints()
    } else {
        look::hints(s.adv)
    }
}
fn bn254<B: RootAPI<BN254Config>>(b: &mut B, g: &Gad, x: &[Variable]) -> Vec<Variable> {
    wide::build(b, g, x).unwrap_or_else(|| m31(b, g, x))
}
fn gf2<B: RootAPI<GF2Config>>(b: &mut B, g: &Gad, x: &[Variable]) -> Vec<Variable> {
    hash::build_gf2(b, g, x).unwrap_or_else(|| m31(b, g, x))
}
define! { M31Config, m31_emu; GoldilocksConfig, m31; BN254Config, bn254; GF2Config, gf2 }

pub fn said<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| par::panic_msg(&e))
}
fn execute<C: Config>(s: &Sc, r: &mut Rng) -> Value
where
    Gc<Variable>: Define<C>,
    F<C>: Field,
{
    GAD.with(|g| *g.borrow_mut() = s.gad.clone());
    emu::NOTE.with(|n| *n.borrow_mut() = json!([]));
    let f = |v: &[U256]| -> Vec<F<C>> { v.iter().map(|x| F::<C>::from_u256(*x)).collect() };
    let n = s.x.len();
    let mut shape = Gc::<Variable>::default();
    shape.x = vec![Variable::default(); n];
    let mut width = None;
    let mut cases = vec![];
    for x in std::iter::once(&s.x).chain(&s.more) {
        let x = f(x);
        DEBUG.with(|d| *d.borrow_mut() = true);
        let mut dbg = vec![];
        let mut vals: Option<Vec<F<C>>> = None;
        for _ in 0..s.reps.max(1) {
            SEEN.with(|s| *s.borrow_mut() = None);
            let a = Gc::<F<C>> { x: x.clone(), y: vec![] };
            let got = said(|| {
                extra::debug_eval::<C, _, _, _>(&shape, &a, registry::<F<C>>(s));
            });
            let seen = SEEN.with(|s| s.borrow_mut().take());
            match (got, seen) {
                (Ok(()), Some(v)) => {
                    let w: Vec<F<C>> =
                        v.as_array().unwrap().iter().map(expander_compiler::vp::prog::un).collect();
                    width = Some(w.len());
                    vals = Some(w);
                    dbg.push(json!({"st": "ok", "v": v}));
                }
                (Err(e), _) => dbg.push(json!({"st": "rej", "v": [], "msg": e})),
                _ => unreachable!(),
            }
        }
        DEBUG.with(|d| *d.borrow_mut() = false);
        cases.push((x, vals, dbg));
    }
    let mut out = json!({"cfg": s.cfg, "g": s.gad.g, "k": s.gad.k, "p": jmod::<F<C>>(), "kind": if s.rel {"rel"} else {"fn"},
        "ops": s.gad.ops, "adv": s.adv, "comp": "none"});
    if s.gad.g == "emu" {
        out["notes"] = emu::NOTE.with(|n| n.borrow().clone());
    }
    // the number of outputs is known if some input was accepted
    let compiled = match (s.full, width.or(s.rel.then_some(0))) {
        (true, Some(w)) => {
            shape.y = vec![Variable::default(); w + n];
            let level = r.range(1, 3);
            out["opt"] = json!(level);
            let o = CompileOptions::default().with_opt_level(level);
            match said(|| compile::<C, _>(&shape, o)) {
                Ok(Ok(c)) => {
                    out["comp"] = json!("ok");
                    Some((c, w))
                }
                Ok(Err(e)) => {
                    out["comp"] = json!("err");
                    out["msg"] = json!(format!("{e:?}"));
                    None
                }
                Err(e) => {
                    out["comp"] = json!("panic");
                    out["msg"] = json!(e);
                    None
                }
            }
        }
        _ => None,
    };
    let mut js = vec![];
    for (x, vals, dbg) in cases {
        let mut runs = vec![];
        if let Some((c, w)) = &compiled {
            let y0 = vals.clone().unwrap_or(vec![F::<C>::zero(); *w]);
            let mut claims = vec![y0.clone()];
            if *w > 0 {
                let mut y = y0.clone();
                let i = r.below(*w);
                y[i] = if r.pct(50) || y[i].is_zero() { y[i] + F::<C>::one() } else { y[i] - F::<C>::one() };
                claims.push(y);
            }
            for y in claims {
                let a = Gc::<F<C>> { x: x.clone(), y: [y.clone(), x.clone()].concat() };
                let mut oks = vec![];
                for _ in 0..s.reps.max(1) {
                    let ok = said(|| match c.witness_solver.solve_witness_with_hints(&a, &registry::<F<C>>(s)) {
                        Ok(w) => c.layered_circuit.run(&w)[0],
                        Err(_) => false,
                    });
                    oks.push(ok.unwrap_or(false));
                }
                runs.push(json!({"y": jfs(&y), "oks": oks}));
            }
        }
        js.push(json!({"x": jfs(&x), "dbg": dbg, "runs": runs}));
    }
    out["cases"] = Value::Array(js);
    out
}
pub fn drive(s: &Sc, r: &mut Rng) -> Value {
    match s.cfg {
        "M31" => execute::<M31Config>(s, r),
        "Goldilocks" => execute::<GoldilocksConfig>(s, r),
        "BN254" => execute::<BN254Config>(s, r),
        "GF2" => execute::<GF2Config>(s, r),
        x => panic!("unknown configuration {x}"),
    }
}
pub fn modulus(cfg: &str) -> U256 {
    match cfg {
        "M31" => <F<M31Config> as arith::Field>::MODULUS,
        "Goldilocks" => <F<GoldilocksConfig> as arith::Field>::MODULUS,
        "BN254" => <F<BN254Config> as arith::Field>::MODULUS,
        _ => <F<GF2Config> as arith::Field>::MODULUS,
    }
}
pub fn u(x: usize) -> U256 {
    U256::from(x as u64)
}
pub fn pow2(n: usize) -> U256 {
    U256::ONE << n as u32
}
/// uniform below m
pub fn below(r: &mut Rng, m: U256) -> U256 {
    let mut x = U256::ZERO;
    for _ in 0..4 {
        x = (x << 64u32) | U256::from(r.next());
    }
    x % m
}
/// a value near the edges of 0..m
pub fn edgy(r: &mut Rng, m: U256) -> U256 {
    match r.below(6) {
        0 => U256::ZERO,
        1 => m - U256::ONE,
        2 => u(r.below(4)).min(m - U256::ONE),
        3 => m - U256::ONE - u(r.below(4)).min(m - U256::ONE),
        _ => below(r, m),
    }
}

/// std PROP SEED COUNT OUT [ONLY]
pub fn main() {
    if std::env::var("VP_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    assert!(a[0] == "std");
    let prop = a[1].clone();
    let seed: u64 = a[2].parse().unwrap();
    let count: usize = a[3].parse().unwrap();
    let only = a.get(5).map(|x| x.parse().unwrap());
    let lines = par::run(count, only, &a[4], |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64));
        let mut v = match prop.as_str() {
            "S01" | "S02" | "S03" => drive(&look::gen(&prop, id, &mut r), &mut r),
            "S04" => drive(&hash::gen_sha(id, &mut r), &mut r),
            "S05" => hash::poseidon(id, &mut r),
            "S06" => drive(&wide::gen(id, &mut r), &mut r),
            "S09" => drive(&emu::points(id, &mut r), &mut r),
            "S08" => drive(&emu::gen(id, &mut r), &mut r),
            "F06" => drive(&load::gen(id, &mut r), &mut r),
            "S10" => rsa::line(id, &mut r),
            "S07" => drive(&bits::gen(id, &mut r), &mut r),
            x => panic!("unknown property {x}"),
        };
        v["id"] = json!(id);
        vec![v]
    });
    let n = lines.len();
    par::write(&a[4], &lines, json!({"scenarios": n, "lines": n}));
}
