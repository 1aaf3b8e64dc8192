//! Emulated fields, their towers, and points of BLS12-381 over M31 (S08, S09). A circuit is a
//! program of steps; specs/Emu.tla gives every step its meaning.
use super::*;
use crate::gnark::element::{value_of, Element};
use crate::gnark::emparam::{Bls12381Fp, Bls12381Fr, CurveParams, FieldParams};
use crate::gnark::emulated::field_bls12381::e12::{Ext12, GE12};
use crate::gnark::emulated::field_bls12381::e2::{CurveF, Ext2, GE2};
use crate::gnark::emulated::field_bls12381::e6::{Ext6, GE6};
use crate::gnark::emulated::sw_bls12381::g1::{G1Affine, G1};
use crate::gnark::emulated::sw_bls12381::g2::{G2AffP, G2Affine, LineEvaluations, G2};
use crate::gnark::emulated::sw_bls12381::pairing::Pairing;
use crate::gnark::emulated::sw_bls12381::point::{AffinePoint, Curve};
use crate::gnark::field::GField;
use expander_compiler::field::M31;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Zero};
use std::any::Any;
use vpext::{Field as _, Fq, Fq12, Fq2, Fq6};

type E = Element<Bls12381Fp>;
type R = Element<Bls12381Fr>;
enum V {
    N,
    B(Variable),
    E(Vec<E>),
    R(R),
}
thread_local! {
    /// where the elements of every step are among the outputs: [start, limbs, overflow]
    pub static NOTE: RefCell<Value> = RefCell::default();
}

fn g2(v: &[E]) -> GE2 {
    GE2 { a0: v[0].clone(), a1: v[1].clone() }
}
fn g6(v: &[E]) -> GE6 {
    GE6 { b0: g2(v), b1: g2(&v[2..]), b2: g2(&v[4..]) }
}
fn g12(v: &[E]) -> GE12 {
    GE12 { c0: g6(v), c1: g6(&v[6..]) }
}
fn f2(x: GE2) -> Vec<E> {
    vec![x.a0, x.a1]
}
fn f6(x: GE6) -> Vec<E> {
    [f2(x.b0), f2(x.b1), f2(x.b2)].concat()
}
fn f12(x: GE12) -> Vec<E> {
    [f6(x.c0), f6(x.c1)].concat()
}
fn p1(v: &[E]) -> G1Affine {
    G1Affine { x: v[0].clone(), y: v[1].clone() }
}
fn fp1(p: G1Affine) -> Vec<E> {
    vec![p.x, p.y]
}
fn p2(v: &[E]) -> G2AffP {
    G2AffP { x: g2(v), y: g2(&v[2..]) }
}
fn fp2(p: G2AffP) -> Vec<E> {
    [f2(p.x), f2(p.y)].concat()
}

/// the objects of one circuit
enum W {
    R(GField<Bls12381Fr>),
    T(Ext12),
    G1(G1, Option<Curve<Bls12381Fp, Bls12381Fr>>),
    G2(G2),
    P(Pairing),
}
impl W {
    fn fp(&mut self) -> &mut CurveF {
        match self {
            W::G1(g, _) => &mut g.curve_f,
            W::P(p) => &mut p.curve_f,
            _ => &mut self.e2().curve_f,
        }
    }
    fn e2(&mut self) -> &mut Ext2 {
        match self {
            W::T(t) => &mut t.ext6.ext2,
            W::G2(g) => &mut g.ext2,
            W::P(p) => &mut p.ext12.ext6.ext2,
            _ => unreachable!(),
        }
    }
    fn e12(&mut self) -> &mut Ext12 {
        match self {
            W::T(t) => t,
            W::P(p) => &mut p.ext12,
            _ => unreachable!(),
        }
    }
    fn e6(&mut self) -> &mut Ext6 {
        &mut self.e12().ext6
    }
    fn g1(&mut self) -> &mut G1 {
        match self {
            W::G1(g, _) => g,
            W::P(p) => &mut p.g1,
            _ => unreachable!(),
        }
    }
    fn g2(&mut self) -> &mut G2 {
        match self {
            W::G2(g) => g,
            W::P(p) => &mut p.g2,
            _ => unreachable!(),
        }
    }
}

fn element<T: FieldParams>(x: &[Variable]) -> Element<T> {
    Element::new(x.to_vec(), 0, false, false, false, Variable::default())
}
enum O<T: FieldParams> {
    E(Element<T>),
    B(Variable),
    N,
}
/// operations of a field
fn field<T: FieldParams, B: RootAPI<M31Config>>(f: &mut GField<T>, b: &mut B, o: &str, a: &[Element<T>], bit: Variable, c: &str) -> O<T> {
    O::E(match o {
        "const" => value_of::<M31Config, B, T>(b, Box::new(c.to_string())),
        "zero" => f.zero_const.clone(),
        "one" => f.one_const.clone(),
        "add" => f.add(b, &a[0], &a[1]),
        "sub" => f.sub(b, &a[0], &a[1]),
        "neg" => f.neg(b, &a[0]),
        "mul" => f.mul(b, &a[0], &a[1]),
        "div" => f.div(b, &a[0], &a[1]),
        "inv" => f.inverse(b, &a[0]),
        "mulc" => f.mul_const(b, &a[0], c.parse::<BigInt>().unwrap()),
        "reduce" => f.reduce(b, &a[0], false),
        "sreduce" => f.reduce(b, &a[0], true),
        "copy" => f.copy(b, &a[0]),
        "select" => f.select(b, bit, &a[0], &a[1]),
        "iszero" => return O::B(f.is_zero(b, &a[0])),
        "sign" => return O::B(f.get_element_sign(b, &a[0])),
        "eq" => {
            f.assert_is_equal(b, &a[0], &a[1]);
            return O::N;
        }
        x => panic!("step {x}"),
    })
}

pub fn build<B: RootAPI<M31Config>>(b: &mut B, g: &Gad, x: &[Variable]) -> Option<Vec<Variable>> {
    if g.g != "emu" {
        return None;
    }
    let prog = g.ops.as_array().unwrap();
    let curve = prog.iter().any(|s| s["o"].as_str().unwrap().starts_with("c."));
    let mut w = match g.k[0] {
        0 => W::R(GField::new(b, Bls12381Fr {})),
        1 => W::T(Ext12::new(b)),
        2 => {
            let h = G1::new(b);
            let c = curve.then(|| Curve::new(b, &CurveParams::get_bls12381_params(), Bls12381Fp {}));
            W::G1(h, c)
        }
        3 => W::G2(G2::new(b)),
        _ => W::P(Pairing::new(b)),
    };
    let mut vs: Vec<V> = vec![];
    let mut out = vec![];
    let mut notes = vec![];
    for s in prog {
        let o = s["o"].as_str().unwrap();
        let ix: Vec<usize> = s["a"].as_array().map(|a| a.iter().map(|v| v.as_u64().unwrap() as usize).collect()).unwrap_or_default();
        let c = s["c"].as_str().unwrap_or("");
        let n = s["n"].as_u64().unwrap_or(0) as usize;
        let at = s["at"].as_u64().unwrap_or(0) as usize;
        // elements of the i-th argument
        let arg = |i: usize| -> Vec<E> {
            match &vs[ix[i]] {
                V::E(v) => v.clone(),
                _ => unreachable!(),
            }
        };
        let bit = |i: usize| -> Variable {
            match ix.get(i).map(|i| &vs[*i]) {
                Some(V::B(v)) => *v,
                _ => Variable::default(),
            }
        };
        let (lvl, op) = o.split_once('.').unwrap();
        let v = match lvl {
            "i" => match op {
                "in" => V::E((0..n).map(|i| element(&x[at + 48 * i..at + 48 * i + 48])).collect()),
                "rin" => V::R(element(&x[at..at + 32])),
                "bit" => V::B(x[at]),
                // some elements of others, in a given order
                "pack" => {
                    let e: Vec<E> = (0..ix.len()).flat_map(&arg).collect();
                    V::E(e)
                }
                x => panic!("step {x}"),
            },
            "r" => {
                let W::R(f) = &mut w else { unreachable!() };
                let a: Vec<R> = ix.iter().filter_map(|i| if let V::R(v) = &vs[*i] { Some(v.clone()) } else { None }).collect();
                match field(f, b, op, &a, bit(ix.len().saturating_sub(1)), c) {
                    O::E(v) => V::R(v),
                    O::B(v) => V::B(v),
                    O::N => V::N,
                }
            }
            "e" => {
                let a: Vec<E> = ix.iter().filter_map(|i| if let V::E(v) = &vs[*i] { Some(v[0].clone()) } else { None }).collect();
                match field(w.fp(), b, op, &a, bit(ix.len().saturating_sub(1)), c) {
                    O::E(v) => V::E(vec![v]),
                    O::B(v) => V::B(v),
                    O::N => V::N,
                }
            }
            "2" => {
                let f = w.e2();
                let p = |i: usize| g2(&arg(i));
                V::E(f2(match op {
                    "zero" => f.zero(),
                    "one" => f.one(),
                    "nr" => f.non_residue(b),
                    "add" => f.add(b, &p(0), &p(1)),
                    "sub" => f.sub(b, &p(0), &p(1)),
                    "double" => f.double(b, &p(0)),
                    "neg" => f.neg(b, &p(0)),
                    "mul" => f.mul(b, &p(0), &p(1)),
                    "mule" => f.mul_by_element(b, &p(0), &arg(1)[0]),
                    "mulc" => f.mul_by_const_element(b, &p(0), &c.parse::<BigInt>().unwrap()),
                    "mulnr" => f.mul_by_non_residue(b, &p(0)),
                    "square" => f.square(b, &p(0)),
                    "div" => f.div(b, &p(0), &p(1)),
                    "inv" => f.inverse(b, &p(0)),
                    "invdiv" => f.inverse_div(b, &p(0)),
                    "conj" => f.conjugate(b, &p(0)),
                    "copy" => f.copy(b, &p(0)),
                    "select" => f.select(b, bit(2), &p(0), &p(1)),
                    "nr11" => f.mul_by_non_residue1_power1(b, &p(0)),
                    "nr12" => f.mul_by_non_residue1_power2(b, &p(0)),
                    "nr13" => f.mul_by_non_residue1_power3(b, &p(0)),
                    "nr14" => f.mul_by_non_residue1_power4(b, &p(0)),
                    "nr15" => f.mul_by_non_residue1_power5(b, &p(0)),
                    "nr21" => f.mul_by_non_residue2_power1(b, &p(0)),
                    "nr22" => f.mul_by_non_residue2_power2(b, &p(0)),
                    "nr23" => f.mul_by_non_residue2_power3(b, &p(0)),
                    "nr24" => f.mul_by_non_residue2_power4(b, &p(0)),
                    "nr25" => f.mul_by_non_residue2_power5(b, &p(0)),
                    "eq" => {
                        f.assert_isequal(b, &p(0), &p(1));
                        GE2::default()
                    }
                    "iszero" | "sign" => {
                        let z = if op == "iszero" {
                            f.is_zero(b, &p(0))
                        } else {
                            let z = f.curve_f.is_zero(b, &arg(0)[0]);
                            f.get_e2_sign(b, &p(0), z)
                        };
                        vs.push(V::B(z));
                        notes.push(json!([[out.len(), 1, 0]]));
                        out.push(z);
                        continue;
                    }
                    x => panic!("step {x}"),
                }))
            }
            "6" => {
                let f = w.e6();
                let p = |i: usize| g6(&arg(i));
                V::E(f6(match op {
                    "one" => f.one(),
                    "add" => f.add(b, &p(0), &p(1)),
                    "sub" => f.sub(b, &p(0), &p(1)),
                    "neg" => f.neg(b, &p(0)),
                    "double" => f.double(b, &p(0)),
                    "square" => f.square(b, &p(0)),
                    "mule2" => f.mul_by_e2(b, &p(0), &g2(&arg(1))),
                    "mul12" => f.mul_by_12(b, &p(0), &g2(&arg(1)), &g2(&arg(2))),
                    "mul0" => f.mul_by_0(b, &p(0), &g2(&arg(1))),
                    "mul01" => f.mul_by_01(b, &p(0), &g2(&arg(1)), &g2(&arg(2))),
                    "mulnr" => f.mul_by_non_residue(b, &p(0)),
                    "select" => f.select(b, bit(2), &p(0), &p(1)),
                    "mul" => f.mul(b, &p(0), &p(1)),
                    "kara" => f.mul_karatsuba_over_karatsuba(b, &p(0), &p(1)),
                    "div" => f.div(b, &p(0), &p(1)),
                    "inv" => f.inverse(b, &p(0)),
                    "invdiv" => f.inverse_div(b, &p(0)),
                    "div6" => {
                        let v: [E; 6] = arg(0).try_into().unwrap();
                        g6(&f.div_e6_by_6(b, &v))
                    }
                    "eq" => {
                        f.assert_isequal(b, &p(0), &p(1));
                        GE6::default()
                    }
                    "iszero" => {
                        let z = f.is_zero(b, &p(0));
                        vs.push(V::B(z));
                        notes.push(json!([[out.len(), 1, 0]]));
                        out.push(z);
                        continue;
                    }
                    x => panic!("step {x}"),
                }))
            }
            "12" => {
                let f = w.e12();
                let p = |i: usize| g12(&arg(i));
                V::E(match op {
                    "zero" => f12(f.zero()),
                    "one" => f12(f.one()),
                    "add" => f12(f.add(b, &p(0), &p(1))),
                    "sub" => f12(f.sub(b, &p(0), &p(1))),
                    "conj" => f12(f.conjugate(b, &p(0))),
                    "mul" => f12(f.mul(b, &p(0), &p(1))),
                    "square" => f12(f.square(b, &p(0))),
                    "cyc" => f12(f.cyclotomic_square(b, &p(0))),
                    "div" => f12(f.div(b, &p(0), &p(1))),
                    "inv" => f12(f.inverse(b, &p(0))),
                    "copy" => f12(f.copy(b, &p(0))),
                    "select" => f12(f.select(b, bit(2), &p(0), &p(1))),
                    "mul014" => f12(f.mul_by_014(b, &p(0), &g2(&arg(1)), &g2(&arg(2)))),
                    "mul014014" => {
                        let r = f.mul_014_by_014(b, &g2(&arg(0)), &g2(&arg(1)), &g2(&arg(2)), &g2(&arg(3)));
                        r.into_iter().flat_map(f2).collect()
                    }
                    "expt" => f12(f.expt(b, &p(0))),
                    "nsq" => f12(f.n_square_gs(b, &p(0), n)),
                    "nsqh" => f12(f.n_square_gs_with_hint(b, &p(0), n)),
                    "frob" => f12(f.frobenius(b, &p(0))),
                    "frob2" => f12(f.frobenius_square(b, &p(0))),
                    "eq" => {
                        f.assert_isequal(b, &p(0), &p(1));
                        vec![]
                    }
                    "final" => {
                        f.assert_final_exponentiation_is_one(b, &p(0));
                        vec![]
                    }
                    "iszero" => {
                        let z = f.is_zero(b, &p(0));
                        vs.push(V::B(z));
                        notes.push(json!([[out.len(), 1, 0]]));
                        out.push(z);
                        continue;
                    }
                    x => panic!("step {x}"),
                })
            }
            "p" => {
                let f = w.g1();
                let p = |i: usize| p1(&arg(i));
                V::E(fp1(match op {
                    "gen" => G1Affine::one(b),
                    "add" => f.add(b, &p(0), &p(1)),
                    "double" => f.double(b, &p(0)),
                    "doublen" => f.double_n(b, &p(0), n),
                    "dbladd" => f.double_and_add(b, &p(0), &p(1)),
                    "phi" => f.phi(b, &p(0)),
                    "seed2" => f.scalar_mul_by_seed_square(b, &p(0)),
                    "copy" => f.copy_g1(b, &p(0)),
                    "unc" => f.uncompressed(b, &x[at..at + 48]),
                    "clear" => f.clear_cofactor(b, &p(0)),
                    "map" => f.map_to_curve1(b, &arg(0)[0]),
                    "iso" => f.g1_isogeny(b, &p(0)),
                    "mapg" => f.map_to_g1(b, &arg(0)[0], &arg(1)[0]),
                    "hash" => {
                        let (u, v) = f.hash_to_fp(b, &x[at..at + 32]);
                        G1Affine { x: u, y: v }
                    }
                    "eq" => {
                        f.assert_is_equal(b, &p(0), &p(1));
                        vs.push(V::N);
                        notes.push(json!([]));
                        continue;
                    }
                    x => panic!("step {x}"),
                }))
            }
            // the generic curve
            "c" => {
                let W::G1(_, Some(f)) = &mut w else { unreachable!() };
                let a = if ix.is_empty() { vec![E::default(); 2] } else { arg(0) };
                let p = AffinePoint { x: a[0].clone(), y: a[1].clone() };
                match op {
                    "neg" => {
                        let q = f.neg(b, &p);
                        V::E(vec![q.x, q.y])
                    }
                    "gen" => {
                        let q = f.generator();
                        V::E(vec![q.x.clone(), q.y.clone()])
                    }
                    "oncurve" => {
                        f.assert_is_on_curve(b, &p);
                        V::N
                    }
                    x => panic!("step {x}"),
                }
            }
            "q" => {
                let f = w.g2();
                let p = |i: usize| p2(&arg(i));
                V::E(fp2(match op {
                    "add" => f.add(b, &p(0), &p(1)),
                    "double" => f.double(b, &p(0)),
                    "doublen" => f.double_n(b, &p(0), n),
                    "dbladd" => f.double_and_add(b, &p(0), &p(1)),
                    "triple" => f.triple(b, &p(0)),
                    "neg" => f.neg(b, &p(0)),
                    "psi" => f.psi(b, &p(0)),
                    "copy" => f.copy_g2_aff_p(b, &p(0)),
                    "seed" => f.scalar_mul_by_seed(b, &p(0)),
                    "clear" => f.clear_cofactor(b, &p(0)),
                    "unc" => f.uncompressed(b, &x[at..at + 96]),
                    "map" => f.map_to_curve2(b, &g2(&arg(0))),
                    "iso" => f.isogeny(b, &p(0)),
                    "mapg" => f.map_to_g2(b, &g2(&arg(0)), &g2(&arg(1))),
                    "hash" => {
                        let (u, v) = f.hash_to_fp(b, &x[at..at + 32]);
                        G2AffP { x: u, y: v }
                    }
                    "eq" => {
                        f.assert_is_equal(b, &p(0), &p(1));
                        vs.push(V::N);
                        notes.push(json!([]));
                        continue;
                    }
                    x => panic!("step {x}"),
                }))
            }
            "P" => {
                let W::P(f) = &mut w else { unreachable!() };
                match op {
                    "ong1" => f.assert_is_on_g1(b, &p1(&arg(0))),
                    "ong2" => f.assert_is_on_g2(b, &p2(&arg(0))),
                    "ontwist" => f.assert_is_on_twist(b, p2(&arg(0))),
                    "oncurve" => f.assert_is_on_curve(b, p1(&arg(0))),
                    // points of G1, then points of G2
                    "check" => {
                        let n = ix.len() / 2;
                        let p: Vec<G1Affine> = (0..n).map(|i| p1(&arg(i))).collect();
                        let mut q: Vec<G2Affine> =
                            (n..2 * n).map(|i| G2Affine { p: p2(&arg(i)), lines: LineEvaluations::default() }).collect();
                        f.pairing_check(b, &p, &mut q).unwrap();
                    }
                    x => panic!("step {x}"),
                }
                V::N
            }
            x => panic!("step {x}"),
        };
        let mut note = vec![];
        let mut put = |l: &[Variable], of: u32| {
            note.push(json!([out.len(), l.len(), of]));
            out.extend_from_slice(l);
        };
        match &v {
            V::N => {}
            V::B(z) => put(&[*z], 0),
            V::E(e) => e.iter().for_each(|e| if !e.limbs.is_empty() { put(&e.limbs, e.overflow) }),
            V::R(e) => put(&e.limbs, e.overflow),
        }
        notes.push(Value::Array(note));
        vs.push(v);
    }
    NOTE.with(|n| *n.borrow_mut() = Value::Array(notes));
    macro_rules! finish {
        ($($f:expr),*) => {{
            $( $f.check_mul(b); )*
            $( $f.table.final_check(b); )*
        }};
    }
    let has = |p: &[&str]| prog.iter().any(|s| p.contains(&s["o"].as_str().unwrap()));
    match &mut w {
        W::R(f) => finish!(f),
        W::T(t) => finish!(t.ext6.ext2.curve_f),
        W::G1(g, c) => {
            if prog.iter().any(|s| s["o"].as_str().unwrap().starts_with("p.")) {
                finish!(g.curve_f);
            }
            if let Some(c) = c {
                finish!(c.base_api);
            }
        }
        W::G2(g) => finish!(g.ext2.curve_f),
        W::P(p) => {
            if has(&["P.ong2", "P.ontwist", "P.check"]) {
                finish!(p.ext12.ext6.ext2.curve_f);
            }
            if has(&["P.ong1", "P.oncurve"]) {
                finish!(p.curve.base_api);
            }
            if has(&["P.ong1"]) {
                finish!(p.g1.curve_f);
            }
            if has(&["P.ong2"]) {
                finish!(p.g2.ext2.curve_f);
            }
            if has(&["P.check"]) {
                finish!(p.curve_f);
            }
        }
    }
    Some(out)
}

thread_local! {
    /// what a dishonest prover lies about, the answers of that kind still to be given before, and whether it has lied
    static LIE: RefCell<(usize, usize, bool)> = const { RefCell::new((0, 0, false)) };
}
/// whether to lie now
fn lies(kinds: &[usize]) -> Option<usize> {
    LIE.with(|l| {
        let mut l = l.borrow_mut();
        if !kinds.contains(&l.0) || l.2 {
            return None;
        }
        if l.1 > 0 {
            l.1 -= 1;
            return None;
        }
        l.2 = true;
        Some(l.0)
    })
}
fn int(v: &M31) -> u64 {
    v.to_u256().as_u64()
}
/// products: 1 a wrong remainder, 2 one that is not reduced, 3 one in limbs that are too large,
/// 8 another remainder and quotient that agree with the product modulo 2^31 - 1
fn mul_lie(x: &[M31], y: &mut [M31]) -> Result<(), Error> {
    crate::gnark::hints::mul_hint(x, y)?;
    let (n, la, lq) = (int(&x[1]) as usize, int(&x[2]) as usize, int(&x[3]) as usize);
    if lq < n - 4 {
        return Ok(());
    }
    let Some(kind) = lies(&[1, 2, 3, 8]) else { return Ok(()) };
    let (p, a, b) = (&x[4..4 + n], &x[4 + n..4 + n + la], &x[4 + n + la..]);
    let big = |l: &[M31]| l.iter().rev().fold(BigInt::from(0u32), |s, v| (s << 8u32) + BigInt::from(int(v)));
    let mut quo: Vec<M31> = y[..lq].to_vec();
    let mut rem: Vec<M31> = y[lq..lq + n].to_vec();
    let set = |v: &BigInt, l: &mut Vec<M31>| {
        let n = l.len();
        *l = limbs(v, n).iter().map(|v| M31::from(v.as_u32())).collect();
    };
    let at256 = |l: &[M31]| l.iter().rev().fold(M31::zero(), |s, v| s * M31::from(256u32) + *v);
    match kind {
        1 => rem[0] += M31::one(),
        2 => {
            let (r, q) = (big(&rem) + big(p), big(&quo));
            if r.bits() > if n == 48 { 381 } else { 255 } || q == BigInt::from(0u32) {
                return Ok(());
            }
            set(&r, &mut rem);
            set(&(q - BigInt::from(1u32)), &mut quo);
        }
        3 => {
            let Some(i) = (1..n).find(|i| int(&rem[*i]) > 0) else { return Ok(()) };
            rem[i] -= M31::one();
            rem[i - 1] += M31::from(256u32);
        }
        _ => {
            let r = (big(&rem) + BigInt::from(1u32)) % big(p);
            set(&r, &mut rem);
            let q = (at256(a) * at256(b) - at256(&rem)) * at256(p).inv().unwrap();
            set(&BigInt::from(int(&q)), &mut quo);
        }
    }
    let mut d = vec![M31::zero(); y.len() - lq - n + 1];
    let mut prod = |s: &[M31], t: &[M31], sign: M31| {
        for (i, s) in s.iter().enumerate() {
            for (j, t) in t.iter().enumerate() {
                d[i + j] += sign * *s * *t;
            }
        }
    };
    prod(a, b, M31::one());
    prod(&quo, p, -M31::one());
    prod(&rem, &[M31::one()], -M31::one());
    let inv = M31::from(256u32).inv().unwrap();
    let mut c = M31::zero();
    for (i, y) in y[lq + n..].iter_mut().enumerate() {
        c = (c + d[i]) * inv;
        *y = c;
    }
    y[..lq].copy_from_slice(&quo);
    y[lq..lq + n].copy_from_slice(&rem);
    Ok(())
}
/// quotients, inverses and copies: 4 a wrong one, 5 zero, 6 one that is not reduced
fn other_lie(y: &mut [M31]) {
    let Some(kind) = lies(&[4, 5, 6]) else { return };
    let n = if y.len() % 48 == 0 { 48 } else { 32 };
    let y = &mut y[..n];
    match kind {
        4 => y[0] += if int(&y[0]) == 255 { -M31::one() } else { M31::one() },
        5 => y.fill(M31::zero()),
        _ => {
            let v = y.iter().rev().fold(BigInt::from(0u32), |s, v| (s << 8u32) + BigInt::from(int(v))) + prime(n == 32);
            if v.bits() <= if n == 48 { 381 } else { 255 } {
                limbs(&v, n).iter().zip(y.iter_mut()).for_each(|(v, y)| *y = M31::from(v.as_u32()));
            }
        }
    }
}
macro_rules! lying {
    ($($n:ident $h:ident),*) => { $(
        fn $n(x: &[M31], y: &mut [M31]) -> Result<(), Error> {
            crate::gnark::hints::$h(x, y)?;
            other_lie(y);
            Ok(())
        }
    )* };
}
lying! { l_div div_hint, l_inv inv_hint, l_div2 div_e2_hint, l_copy copy_element_hint, l_copy2 copy_e2_hint, l_div6 div_e6_hint,
    l_inv2 inverse_e2_hint, l_inv6 inverse_e6_hint, l_div66 div_e6_by_6_hint, l_div12 div_e12_hint, l_inv12 inverse_e12_hint, l_copy12 copy_e12_hint }

/// the library's hints; a dishonest prover answers some otherwise (7: any number is the root it is asked for)
pub fn hints<F: Field>(adv: usize) -> HintRegistry<F> {
    let mut r = HintRegistry::<M31>::new();
    LIE.with(|l| *l.borrow_mut() = (adv % 10, adv / 10, false));
    if adv == 0 {
        crate::utils::register_hint(&mut r);
    } else {
        use crate::gnark::hints as h;
        r.register("myhint.mulhint", mul_lie);
        r.register("myhint.divhint", l_div);
        r.register("myhint.invhint", l_inv);
        r.register("myhint.dive2hint", l_div2);
        r.register("myhint.copyelementhint", l_copy);
        r.register("myhint.copye2hint", l_copy2);
        r.register("myhint.querycounthint", crate::logup::query_count_hint);
        r.register("myhint.querycountbykeyhint", crate::logup::query_count_by_key_hint);
        r.register("myhint.copyvarshint", h::copy_vars_hint);
        r.register("myhint.rangeproofhint", crate::logup::rangeproof_hint);
        if adv == 7 {
            r.register("myhint.getelementsqrthint", lie1);
            r.register("myhint.gete2sqrthint", lie1);
            r.register("myhint.getsqrtx0x1fqnewhint", lie2);
            r.register("myhint.getsqrtx0x1fq2newhint", lie3);
        } else {
            r.register("myhint.getelementsqrthint", h::get_element_sqrt_hint);
            r.register("myhint.gete2sqrthint", h::get_e2_sqrt_hint);
            r.register("myhint.getsqrtx0x1fqnewhint", h::get_sqrt_x0x1_fq_new_hint);
            r.register("myhint.getsqrtx0x1fq2newhint", h::get_sqrt_x0x1_fq2_new_hint);
            r.register("myhint.inversee2hint", l_inv2);
            r.register("myhint.dive6hint", l_div6);
            r.register("myhint.inversee6hint", l_inv6);
            r.register("myhint.dive6by6hint", l_div66);
            r.register("myhint.dive12hint", l_div12);
            r.register("myhint.inversee12hint", l_inv12);
            r.register("myhint.copye12hint", l_copy12);
            r.register("myhint.finalexphint", h::final_exp_hint);
        }
    }
    let b: Box<dyn Any> = Box::new(r);
    *b.downcast::<HintRegistry<F>>().expect("only over M31")
}
/// the limbs of the i-th element a hint is given
fn given(x: &[M31], i: usize) -> Vec<u32> {
    let mut at = 2 + 48 + 1;
    for _ in 0..i {
        at += 1 + x[at].to_u256().as_usize();
    }
    let n = x[at].to_u256().as_usize();
    x[at + 1..at + 1 + n].iter().map(|v| v.to_u256().as_u32()).collect()
}
fn lie1(_: &[M31], y: &mut [M31]) -> Result<(), Error> {
    y.iter_mut().enumerate().for_each(|(i, y)| *y = M31::from(u32::from(i % 48 == 0) * (1 + i as u32 / 48)));
    Ok(())
}
/// "it is a square", and a number of the right parity that is no root
fn lie2(x: &[M31], y: &mut [M31]) -> Result<(), Error> {
    let s = given(x, 2)[0] % 2;
    y.iter_mut().for_each(|y| *y = M31::zero());
    y[0] = M31::one();
    y[48] = M31::from(6 + s);
    Ok(())
}
fn lie3(x: &[M31], y: &mut [M31]) -> Result<(), Error> {
    let s = given(x, 4)[0] % 2;
    y.iter_mut().for_each(|y| *y = M31::zero());
    y[0] = M31::one();
    y[48] = M31::from(6 + s);
    y[96] = M31::from(3u32);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// generation

fn prime(fr: bool) -> BigInt {
    if fr {
        Bls12381Fr::modulus()
    } else {
        Bls12381Fp::modulus()
    }
}
fn random(r: &mut Rng, m: &BigInt) -> BigInt {
    let mut x = BigInt::from(0u32);
    for _ in 0..7 {
        x = (x << 64u32) + BigInt::from(r.next());
    }
    x % m
}
fn value(r: &mut Rng, fr: bool) -> BigInt {
    let p = prime(fr);
    let bits = if fr { 255 } else { 381 };
    match r.below(12) {
        0 => BigInt::from(0u32),
        1 => BigInt::from(1u32),
        2 => p - BigInt::from(1u32),
        3 => p - BigInt::from(r.range(2, 300) as u32),
        4 => BigInt::from(r.below(1000) as u32),
        5 => (BigInt::from(1u32) << r.below(bits - 1) as u32) % &p,
        6 => ((BigInt::from(1u32) << r.range(1, bits - 1) as u32) - BigInt::from(1u32)) % &p,
        _ => random(r, &p),
    }
}
fn limbs(v: &BigInt, n: usize) -> Vec<U256> {
    let b = v.to_bytes_be().1;
    let mut l: Vec<U256> = b.iter().rev().map(|x| U256::from(*x)).collect();
    l.resize(n, U256::ZERO);
    l
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    E,
    R,
    E2,
    E6,
    E12,
    P,
    Q,
    B,
    N,
}
#[derive(Default)]
struct Pg {
    ops: Vec<Value>,
    ty: Vec<T>,
    /// steps whose elements are reduced
    red: Vec<usize>,
    n: usize,
    /// what the inputs are: (offset, type)
    ins: Vec<(usize, T)>,
}
impl Default for T {
    fn default() -> Self {
        T::N
    }
}
fn len(t: T) -> usize {
    match t {
        T::E | T::R | T::B => 1,
        T::E2 | T::P => 2,
        T::Q => 4,
        T::E6 => 6,
        T::E12 => 12,
        T::N => 0,
    }
}
impl Pg {
    fn step(&mut self, t: T, o: &str, a: &[usize]) -> usize {
        self.full(t, json!({"o": o, "a": a}))
    }
    fn full(&mut self, t: T, mut v: Value) -> usize {
        for (k, d) in [("a", json!([])), ("c", json!("")), ("n", json!(0)), ("at", json!(0)), ("w", json!([]))] {
            if v.get(k).is_none() {
                v[k] = d;
            }
        }
        let o = v["o"].as_str().unwrap().to_string();
        let (lvl, op) = o.split_once('.').unwrap();
        v["lvl"] = json!(lvl);
        v["op"] = json!(op);
        self.ops.push(v);
        self.ty.push(t);
        self.ops.len() - 1
    }
    fn input(&mut self, t: T) -> usize {
        let at = self.n;
        self.ins.push((at, t));
        self.n += match t {
            T::B => 1,
            T::R => 32,
            _ => 48 * len(t),
        };
        match t {
            T::B => self.full(t, json!({"o": "i.bit", "at": at})),
            T::R => self.full(t, json!({"o": "i.rin", "at": at, "n": 1})),
            _ => self.full(t, json!({"o": "i.in", "at": at, "n": len(t)})),
        }
    }
    fn any(&self, r: &mut Rng, t: T) -> usize {
        let v: Vec<usize> = (0..self.ty.len()).filter(|i| self.ty[*i] == t).collect();
        // mostly recent ones
        if r.pct(50) {
            v[v.len() - 1 - r.below(v.len().min(2))]
        } else {
            r.pick(&v)
        }
    }
    fn bit(&mut self) -> usize {
        match self.ty.iter().position(|t| *t == T::B) {
            Some(i) => i,
            None => self.input(T::B),
        }
    }
}
fn lv(t: T) -> &'static str {
    match t {
        T::E => "e.",
        T::R => "r.",
        T::E2 => "2.",
        T::E6 => "6.",
        T::E12 => "12.",
        T::P => "p.",
        T::Q => "q.",
        _ => "",
    }
}
fn constant(r: &mut Rng) -> String {
    let c = match r.below(6) {
        0 => 0i64,
        1 => r.range(1, 9) as i64,
        2 => (1 << 20) - 1,
        3 => (1 << r.below(20)) as i64,
        _ => r.range(1, (1 << 20) - 1) as i64,
    };
    if r.pct(20) { (-c).to_string() } else { c.to_string() }
}
/// one random operation on values of a type
fn op(g: &mut Pg, r: &mut Rng, t: T) {
    let l = lv(t);
    let (x, y) = (g.any(r, t), g.any(r, t));
    let mut un = |g: &mut Pg, o: &str| g.step(t, &format!("{l}{o}"), &[x]);
    let two = |g: &mut Pg, o: &str| g.step(t, &format!("{l}{o}"), &[x, y]);
    match t {
        T::E | T::R => match r.below(25) {
            0..=3 => {
                two(g, "add");
            }
            4..=6 => {
                two(g, "sub");
            }
            7 => {
                un(g, "neg");
            }
            8..=11 => {
                let i = two(g, "mul");
                g.red.push(i);
            }
            12 => {
                let i = two(g, "div");
                g.red.push(i);
            }
            13 => {
                let i = un(g, "inv");
                g.red.push(i);
            }
            14 | 15 => {
                let c = constant(r);
                g.full(t, json!({"o": format!("{l}mulc"), "a": [x], "c": c}));
            }
            16 => {
                let s = g.bit();
                g.step(t, &format!("{l}select"), &[x, y, s]);
            }
            17 => {
                un(g, "reduce");
            }
            18 => {
                let i = un(g, "sreduce");
                g.red.push(i);
            }
            19 => {
                g.step(T::B, &format!("{l}iszero"), &[x]);
            }
            20 if t == T::E => {
                let i = un(g, "copy");
                g.red.push(i);
            }
            21 | 22 if !g.red.is_empty() => {
                let i = r.pick(&g.red);
                g.step(T::B, &format!("{l}sign"), &[i]);
            }
            23 => {
                let c = if r.pct(50) { constant(r) } else { value(r, t == T::R).to_string() };
                g.full(t, json!({"o": format!("{l}const"), "c": c}));
            }
            _ => {
                let o = choose!(r; "zero", "one");
                g.step(t, &format!("{l}{o}"), &[]);
            }
        },
        T::E2 => match r.below(22) {
            0 => {
                two(g, "add");
            }
            1 => {
                two(g, "sub");
            }
            2 | 3 => {
                two(g, "mul");
            }
            4 => {
                two(g, "div");
            }
            5..=13 => {
                let o = choose!(r; "double", "neg", "mulnr", "square", "square", "inv", "invdiv", "conj", "copy");
                un(g, o);
            }
            14 => {
                let e = match g.ty.iter().position(|t| *t == T::E) {
                    Some(i) => i,
                    None => g.input(T::E),
                };
                g.step(t, "2.mule", &[x, e]);
            }
            15 => {
                let c = constant(r);
                g.full(t, json!({"o": "2.mulc", "a": [x], "c": c}));
            }
            16 => {
                let s = g.bit();
                g.step(t, "2.select", &[x, y, s]);
            }
            17 => {
                let o = format!("nr{}{}", r.range(1, 2), r.range(1, 5));
                un(g, &o);
            }
            18 => {
                g.step(T::B, "2.iszero", &[x]);
            }
            19 => {
                let i = g.step(t, "2.mul", &[x, y]);
                let i = g.step(t, "2.copy", &[i]);
                g.step(T::B, "2.sign", &[i]);
            }
            _ => {
                let o = choose!(r; "zero", "one", "nr");
                g.step(t, &format!("2.{o}"), &[]);
            }
        },
        T::E6 => {
            let mut e2 = |g: &mut Pg| match g.ty.iter().rposition(|t| *t == T::E2) {
                Some(i) if r.pct(60) => i,
                _ => g.input(T::E2),
            };
            let (u, v) = (e2(g), e2(g));
            match r.below(19) {
                0 => {
                    two(g, "add");
                }
                1 => {
                    two(g, "sub");
                }
                2 | 3 => {
                    two(g, "mul");
                }
                4 => {
                    two(g, "kara");
                }
                5 => {
                    two(g, "div");
                }
                6..=11 => {
                    let o = choose!(r; "neg", "double", "square", "mulnr", "inv", "invdiv");
                    un(g, o);
                }
                12 => {
                    un(g, "div6");
                }
                13 => {
                    let o = choose!(r; "6.mule2", "6.mul0");
                    g.step(t, o, &[x, u]);
                }
                14 | 15 => {
                    let o = choose!(r; "6.mul12", "6.mul01");
                    g.step(t, o, &[x, u, v]);
                }
                16 => {
                    let s = g.bit();
                    g.step(t, "6.select", &[x, y, s]);
                }
                17 => {
                    g.step(T::B, "6.iszero", &[x]);
                }
                _ => {
                    g.step(t, "6.one", &[]);
                }
            }
        }
        T::E12 => match r.below(15) {
            0 => {
                two(g, "add");
            }
            1 => {
                two(g, "sub");
            }
            2 | 3 => {
                two(g, "mul");
            }
            4 => {
                two(g, "div");
            }
            5..=9 => {
                let o = choose!(r; "conj", "square", "inv", "copy", "frob", "frob2");
                un(g, o);
            }
            10 => {
                let s = g.bit();
                g.step(t, "12.select", &[x, y, s]);
            }
            11 | 12 => {
                let (u, v) = (g.input(T::E2), g.input(T::E2));
                g.step(t, "12.mul014", &[x, u, v]);
            }
            13 => {
                g.step(T::B, "12.iszero", &[x]);
            }
            _ => {
                let o = choose!(r; "12.zero", "12.one");
                g.step(t, o, &[]);
            }
        },
        _ => unreachable!(),
    }
}
/// two computations of the same value
fn same(g: &mut Pg, r: &mut Rng, t: T) -> (usize, usize) {
    let l = lv(t);
    let (x, y, z) = (g.any(r, t), g.any(r, t), g.any(r, t));
    let mut s = |o: &str, a: &[usize]| g.step(t, &format!("{l}{o}"), a);
    match r.below(5) {
        // (x + y) z = x z + y z
        0 => {
            let a = s("add", &[x, y]);
            let a = s("mul", &[a, z]);
            let b = s("mul", &[x, z]);
            let c = s("mul", &[y, z]);
            (a, s("add", &[b, c]))
        }
        1 => (s("mul", &[x, y]), s("mul", &[y, x])),
        2 => {
            let a = s("sub", &[x, y]);
            (s("add", &[a, y]), x)
        }
        // x = (x - y) - (0 - y)
        3 if t != T::E12 => {
            let a = s("neg", &[y]);
            let b = s("sub", &[x, y]);
            (x, s("sub", &[b, a]))
        }
        _ => {
            let a = s("sub", &[x, y]);
            let b = s("sub", &[y, x]);
            let a = s("add", &[a, b]);
            let b = s("sub", &[z, z]);
            (a, b)
        }
    }
}

/// S08: fields and towers
pub fn gen(id: usize, r: &mut Rng) -> Sc {
    let t = match id % 20 {
        0..=8 => T::E,
        9..=11 => T::R,
        12..=15 => T::E2,
        16..=18 => T::E6,
        _ => T::E12,
    };
    if t == T::E12 && r.pct(45) {
        return cyclotomic(id, r);
    }
    let mut g = Pg::default();
    let n = match t {
        T::E | T::R => r.range(1, 3),
        T::E12 => 1 + r.below(2),
        _ => 2,
    };
    for _ in 0..n {
        g.input(t);
    }
    let small = matches!(t, T::E | T::R) && r.pct(10);
    let steps = match t {
        T::E | T::R if small => r.range(1, 3),
        T::E | T::R => r.range(3, 14),
        T::E2 => r.range(2, 8),
        T::E6 => r.range(1, 4),
        _ => r.range(1, 2),
    };
    // sums that grow until they have to be reduced
    if !small && r.pct(match t { T::E | T::R => 15, T::E2 => 10, _ => 0 }) {
        let mut x = g.any(r, t);
        for _ in 0..r.range(17, 24) {
            let y = if r.pct(70) { x } else { g.any(r, t) };
            x = g.step(t, &format!("{}{}", lv(t), choose!(r; "add", "add", "add", "sub")), &[x, y]);
        }
    }
    for _ in 0..steps {
        op(&mut g, r, t);
    }
    if t == T::E12 && r.pct(20) {
        let a: Vec<usize> = (0..4).map(|_| g.input(T::E2)).collect();
        g.step(T::N, "12.mul014014", &a);
    }
    if r.pct(30) {
        let (x, mut y) = same(&mut g, r, t);
        if r.pct(25) {
            let o = g.step(t, &format!("{}one", lv(t)), &[]);
            y = g.step(t, &format!("{}add", lv(t)), &[y, o]);
        }
        g.step(T::N, &format!("{}eq", lv(t)), &[x, y]);
    }
    // a dishonest prover
    let adv = if r.pct(18) { choose!(r; 1, 2, 2, 3, 4, 5, 6, 6, 8) + 10 * r.below(4) } else { 0 };
    if matches!(t, T::E | T::R) && matches!(adv % 10, 2 | 6) && r.pct(40) {
        // a zero that may be given as the modulus
        let x = g.any(r, t);
        let y = g.step(t, &format!("{}sub", lv(t)), &[x, x]);
        let y = g.step(t, &format!("{}sreduce", lv(t)), &[y]);
        g.step(T::B, &format!("{}{}", lv(t), choose!(r; "iszero", "sign")), &[y]);
    }
    let decides = g.ops.iter().any(|s| s["o"].as_str().unwrap().ends_with("iszero") || s["o"].as_str().unwrap().ends_with("sign"));
    // limbs that are too large are refused; every input is used
    let bad = r.pct(8);
    for i in 0..g.ops.len() {
        if !bad && !small {
            break;
        }
        if g.ops[i]["o"] == "i.in" || g.ops[i]["o"] == "i.rin" {
            let t = g.ty[i];
            if t != T::E12 && t != T::E6 && t != T::E2 || bad {
                g.step(t, &format!("{}add", lv(t)), &[i, i]);
            }
        }
    }
    let fr = t == T::R;
    let mut xs: Vec<Vec<U256>> = vec![];
    for _ in 0..if small { 4 } else { match t { T::E | T::R => 3, T::E2 => 2, _ => 1 } } {
        let pool: Vec<BigInt> = (0..3).map(|_| value(r, fr)).collect();
        let over = !decides && r.pct(20);
        let mut x: Vec<U256> = vec![];
        for (_, t) in &g.ins {
            if *t == T::B {
                x.push(u(r.below(2)));
                continue;
            }
            for _ in 0..len(*t) {
                let mut v = if r.pct(40) { r.pick(&pool) } else { value(r, fr) };
                if over && r.pct(50) {
                    // not reduced, but it fits
                    let top = BigInt::from(1u32) << if fr { 255u32 } else { 381 };
                    v = match r.below(3) {
                        0 => prime(fr),
                        1 => top - BigInt::from(1u32),
                        _ => prime(fr) + random(r, &(top - prime(fr))),
                    };
                }
                x.extend(limbs(&v, if fr { 32 } else { 48 }));
            }
        }
        if bad && r.pct(70) {
            let (at, t) = r.pick(&g.ins);
            if t != T::B {
                let k = if fr { 32 } else { 48 };
                let e = r.below(len(t));
                let i = if r.pct(40) { k - 1 } else { r.below(k) };
                x[at + e * k + i] = if i == k - 1 {
                    u(choose!(r; if fr { 128 } else { 32 }, 255, 256))
                } else {
                    choose!(r; u(256), u(300), modulus("M31") - U256::ONE)
                };
            }
        }
        xs.push(x);
    }
    let k = if fr { 0 } else { 1 };
    Sc {
        cfg: "M31",
        gad: Gad { g: "emu".into(), k: vec![k], ops: Value::Array(g.ops) },
        x: xs[0].clone(),
        more: xs[1..].to_vec(),
        rel: false,
        reps: 1,
        adv,
        full: small,
    }
}

fn big(x: &Fq) -> BigInt {
    x.to_string().parse::<BigInt>().unwrap()
}
fn fq(r: &mut Rng) -> Fq {
    Fq::from(value(r, false).to_biguint().unwrap())
}
fn fq2(r: &mut Rng) -> Fq2 {
    Fq2::new(fq(r), fq(r))
}
fn fq12(r: &mut Rng) -> Fq12 {
    let mut six = || Fq6::new(fq2(r), fq2(r), fq2(r));
    let a = six();
    Fq12::new(a, six())
}
fn put2(x: &mut Vec<U256>, v: &Fq2) {
    x.extend(limbs(&big(&v.c0), 48));
    x.extend(limbs(&big(&v.c1), 48));
}
fn put12(x: &mut Vec<U256>, v: &Fq12) {
    for s in [&v.c0, &v.c1] {
        put2(x, &s.c0);
        put2(x, &s.c1);
        put2(x, &s.c2);
    }
}
fn power(x: &Fq12, e: &BigUint) -> Fq12 {
    let mut y = Fq12::one();
    for i in (0..e.bits()).rev() {
        y = y * y;
        if e.bit(i) {
            y = y * *x;
        }
    }
    y
}
fn simple(g: Pg, k: usize, x: Vec<U256>) -> Sc {
    Sc {
        cfg: "M31",
        gad: Gad { g: "emu".into(), k: vec![k], ops: Value::Array(g.ops) },
        x,
        more: vec![],
        rel: false,
        reps: 1,
        adv: 0,
        full: false,
    }
}
/// f^((p^6 - 1)(p^2 + 1))
fn easy(f: &Fq12) -> Fq12 {
    let c = Fq12::new(f.c0, -f.c1);
    let g = c * f.inverse().unwrap();
    let p = Bls12381Fp::modulus().to_biguint().unwrap();
    let p2: BigUint = &p * &p;
    power(&g, &p2) * g
}
/// operations for elements of the cyclotomic subgroup
fn cyclotomic(id: usize, r: &mut Rng) -> Sc {
    let mut g = Pg::default();
    let i = g.input(T::E12);
    let mut f = easy(&fq12(r));
    match (id / 20) % 12 {
        0 => {
            g.step(T::E12, "12.expt", &[i]);
        }
        1 => {
            // most of them are not of the prime order
            if r.pct(60) {
                f = power(&f, &Bls12381Fr::modulus().to_biguint().unwrap());
            }
            g.step(T::N, "12.final", &[i]);
        }
        2..=4 => {
            let o = choose!(r; "12.nsq", "12.nsqh");
            let n = r.range(1, 4);
            g.full(T::E12, json!({"o": o, "a": [i], "n": n}));
        }
        _ => {
            let j = g.step(T::E12, "12.cyc", &[i]);
            if r.pct(50) {
                let k = g.step(T::E12, "12.square", &[i]);
                g.step(T::N, "12.eq", &[j, k]);
            }
        }
    }
    let mut x = vec![];
    put12(&mut x, &f);
    simple(g, 1, x)
}

// ---------------------------------------------------------------------------------------------
// points

trait Crv: vpext::Field + Copy + PartialEq {
    fn b() -> Self;
    fn rand(r: &mut Rng) -> Self;
    fn put(&self, x: &mut Vec<U256>);
    /// coordinates, the most significant first
    fn coords(&self) -> Vec<BigInt>;
    fn gen() -> Pt<Self>;
    const T: T;
}
type Pt<F> = (F, F);
fn dec(s: &str) -> Fq {
    Fq::from(s.parse::<BigUint>().unwrap())
}
impl Crv for Fq {
    fn b() -> Self {
        Fq::from(4u32)
    }
    fn rand(r: &mut Rng) -> Self {
        fq(r)
    }
    fn put(&self, x: &mut Vec<U256>) {
        x.extend(limbs(&big(self), 48));
    }
    fn coords(&self) -> Vec<BigInt> {
        vec![big(self)]
    }
    fn gen() -> Pt<Self> {
        (
            dec("3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507"),
            dec("1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569"),
        )
    }
    const T: T = T::P;
}
impl Crv for Fq2 {
    fn b() -> Self {
        Fq2::new(Fq::from(4u32), Fq::from(4u32))
    }
    fn rand(r: &mut Rng) -> Self {
        fq2(r)
    }
    fn put(&self, x: &mut Vec<U256>) {
        put2(x, self);
    }
    fn coords(&self) -> Vec<BigInt> {
        vec![big(&self.c1), big(&self.c0)]
    }
    fn gen() -> Pt<Self> {
        (
            Fq2::new(
                dec("352701069587466618187139116011060144890029952792775240219908644239793785735715026873347600343865175952761926303160"),
                dec("3059144344244213709971259814753781636986470325476647558659373206291635324768958432433509563104347017837885763365758"),
            ),
            Fq2::new(
                dec("1985150602287291935568054521177171638300868978215655730859378665066344726373823718423869104263333984641494340347905"),
                dec("927553665492332455747201965776037880757740193453592970025027978793976877002675564980949289727957565575433344219582"),
            ),
        )
    }
    const T: T = T::Q;
}
fn slope<F: Crv>(p: Pt<F>, x2: F, s: F) -> Pt<F> {
    let x = s * s - p.0 - x2;
    (x, s * (p.0 - x) - p.1)
}
fn padd<F: Crv>(p: Option<Pt<F>>, q: Option<Pt<F>>) -> Option<Pt<F>> {
    let (Some(p), Some(q)) = (p, q) else { return p.or(q) };
    if p.0 != q.0 {
        return Some(slope(p, q.0, (q.1 - p.1) * (q.0 - p.0).inverse().unwrap()));
    }
    if p.1 != q.1 || p.1 == F::zero() {
        return None;
    }
    let x2 = p.0 * p.0;
    Some(slope(p, p.0, (x2 + x2 + x2) * (p.1 + p.1).inverse().unwrap()))
}
fn times<F: Crv>(p: Pt<F>, e: &BigUint) -> Pt<F> {
    let mut r = None;
    for i in (0..e.bits()).rev() {
        r = padd(r, r);
        if e.bit(i) {
            r = padd(r, Some(p));
        }
    }
    r.unwrap()
}
/// a point of the curve, mostly outside the subgroup
fn outside<F: Crv>(r: &mut Rng) -> Pt<F> {
    loop {
        let x = F::rand(r);
        if let Some(y) = (x * x * x + F::b()).sqrt() {
            return if r.pct(50) { (x, y) } else { (x, F::zero() - y) };
        }
    }
}
fn scalar(r: &mut Rng) -> BigUint {
    match r.below(4) {
        0 => BigUint::from(r.range(1, 20) as u32),
        _ => (random(r, &(prime(true) - BigInt::from(1u32))) + BigInt::from(1u32)).to_biguint().unwrap(),
    }
}
fn inside<F: Crv>(r: &mut Rng) -> Pt<F> {
    times(F::gen(), &scalar(r))
}
fn point<F: Crv>(r: &mut Rng) -> Pt<F> {
    if r.pct(50) { inside(r) } else { outside(r) }
}
/// a point as its bytes: its abscissa and which of the roots
fn packed<F: Crv>(x: F, large: bool) -> Vec<U256> {
    let mut b: Vec<U256> = vec![];
    for c in x.coords() {
        let mut l = limbs(&c, 48);
        l.reverse();
        b.extend(l);
    }
    b[0] += u(if large { 0xa0 } else { 0x80 });
    b
}
/// operations on points of a curve
fn curve<F: Crv>(r: &mut Rng, id: usize) -> Sc {
    let t = F::T;
    let l = lv(t);
    let e = if t == T::P { T::E } else { T::E2 };
    let fam = if t == T::P { 2 } else { 3 };
    let mut g = Pg::default();
    let mut x: Vec<U256> = vec![];
    let mut adv = 0;
    let st = |g: &mut Pg, o: &str, a: &[usize]| g.step(t, &format!("{l}{o}"), a);
    let inp = |g: &mut Pg, x: &mut Vec<U256>, p: Pt<F>| {
        p.0.put(x);
        p.1.put(x);
        g.input(t)
    };
    match id % 12 {
        0..=3 => {
            // sums; a pair of points may be equal or opposite
            let p = point::<F>(r);
            let q = match r.below(14) {
                0 => p,
                1 => (p.0, F::zero() - p.1),
                2 => padd(Some(p), Some(p)).unwrap(),
                3 => {
                    let d = padd(Some(p), Some(p)).unwrap();
                    (d.0, F::zero() - d.1)
                }
                _ => point::<F>(r),
            };
            let (i, j) = (inp(&mut g, &mut x, p), inp(&mut g, &mut x, q));
            let mut v = vec![i, j];
            for _ in 0..r.range(1, 3) {
                let (a, b) = (r.pick(&v), r.pick(&v));
                let k = match r.below(if t == T::P { 9 } else { 11 }) {
                    0..=2 if a != b => st(&mut g, "add", &[a, b]),
                    3 => st(&mut g, "double", &[a]),
                    4 => {
                        let n = r.range(1, 3);
                        g.full(t, json!({"o": format!("{l}doublen"), "a": [a], "n": n}))
                    }
                    5 | 6 if a != b => st(&mut g, "dbladd", &[a, b]),
                    7 => st(&mut g, "copy", &[a]),
                    8 => st(&mut g, if t == T::P { "phi" } else { "psi" }, &[a]),
                    9 => st(&mut g, "triple", &[a]),
                    10 => st(&mut g, "neg", &[a]),
                    _ => st(&mut g, "double", &[a]),
                };
                v.push(k);
            }
            if r.pct(30) {
                // P + Q = Q + P
                let a = st(&mut g, "add", &[i, j]);
                let b = st(&mut g, "add", &[j, i]);
                g.step(T::N, &format!("{l}eq"), &[a, b]);
            } else if r.pct(20) {
                let (a, b) = (r.pick(&v), r.pick(&v));
                g.step(T::N, &format!("{l}eq"), &[a, b]);
            }
            if r.pct(12) {
                adv = choose!(r; 1, 2, 3, 4, 5, 6) + 10 * r.below(6);
            }
        }
        4 | 5 => {
            // from bytes; about half of the abscissas belong to no point
            if r.pct(25) {
                adv = 7;
            }
            let v = if r.pct(65) { point::<F>(r).0 } else { F::rand(r) };
            x = packed(v, r.pct(50));
            g.n = x.len();
            let i = g.full(t, json!({"o": format!("{l}unc")}));
            if r.pct(30) {
                st(&mut g, "double", &[i]);
            }
        }
        6 | 7 => {
            if r.pct(30) {
                adv = 7;
            }
            let v = if r.pct(15) { F::zero() } else { F::rand(r) };
            v.put(&mut x);
            let i = g.input(e);
            let j = st(&mut g, "map", &[i]);
            // the isogeny is a homomorphism
            if adv == 0 && r.pct(60) {
                F::rand(r).put(&mut x);
                let k = g.input(e);
                let k = st(&mut g, "map", &[k]);
                let s = st(&mut g, "add", &[j, k]);
                let a = st(&mut g, "iso", &[j]);
                let b = st(&mut g, "iso", &[k]);
                let c = st(&mut g, "iso", &[s]);
                let d = st(&mut g, "add", &[a, b]);
                g.step(T::N, &format!("{l}eq"), &[c, d]);
            }
        }
        8 => {
            // the whole map, and that it is the sum of the mapped, without the cofactor
            F::rand(r).put(&mut x);
            F::rand(r).put(&mut x);
            let (a, b) = (g.input(e), g.input(e));
            let m = st(&mut g, "mapg", &[a, b]);
            let a = st(&mut g, "map", &[a]);
            let b = st(&mut g, "map", &[b]);
            let (a, b) = if r.pct(50) {
                (st(&mut g, "iso", &[a]), st(&mut g, "iso", &[b]))
            } else {
                let s = st(&mut g, "add", &[a, b]);
                (st(&mut g, "iso", &[s]), s)
            };
            let s = if g.ops[b]["op"] == "iso" { st(&mut g, "add", &[a, b]) } else { a };
            let c = st(&mut g, "clear", &[s]);
            g.step(T::N, &format!("{l}eq"), &[m, c]);
        }
        9 => {
            x = (0..32).map(|_| u(if r.pct(20) { choose!(r; 0, 255) } else { r.below(256) })).collect();
            g.n = 32;
            g.full(t, json!({"o": format!("{l}hash")}));
        }
        10 => {
            let i = inp(&mut g, &mut x, point::<F>(r));
            st(&mut g, if t == T::P { "seed2" } else { "seed" }, &[i]);
        }
        _ => {
            let i = inp(&mut g, &mut x, point::<F>(r));
            if t == T::P && r.pct(60) {
                let v = g.input(t);
                let p = match r.below(4) {
                    0 => (F::zero(), F::zero()),
                    1 => (F::rand(r), F::rand(r)),
                    2 => {
                        let p = point::<F>(r);
                        (p.0, p.1 + F::one())
                    }
                    _ => point::<F>(r),
                };
                p.0.put(&mut x);
                p.1.put(&mut x);
                g.step(t, "c.neg", &[i]);
                g.step(t, "c.gen", &[]);
                g.step(t, "p.gen", &[]);
                g.step(T::N, "c.oncurve", &[v]);
            } else {
                st(&mut g, "clear", &[i]);
            }
        }
    }
    let mut s = simple(g, fam, x);
    s.adv = adv;
    s
}
fn member<F: Crv>(r: &mut Rng) -> Pt<F> {
    match r.below(8) {
        0 => (F::zero(), F::zero()),
        1 => (F::rand(r), F::rand(r)),
        2 => {
            let p = inside::<F>(r);
            (p.0 + F::one(), p.1)
        }
        3 | 4 => outside(r),
        _ => inside(r),
    }
}
/// which points are accepted, and which products of pairings
fn pairing(r: &mut Rng, id: usize) -> Sc {
    let mut g = Pg::default();
    let mut x: Vec<U256> = vec![];
    match id % 6 {
        0 => {
            let n = if r.pct(70) { 2 } else { r.range(1, 3) };
            let m = prime(true);
            let mut a: Vec<BigInt> = (0..n).map(|_| BigInt::from(scalar(r))).collect();
            let mut b: Vec<BigInt> = (0..n).map(|_| BigInt::from(scalar(r))).collect();
            // the last makes the sum zero
            if n > 1 {
                let s = (0..n - 1).fold(BigInt::from(0u32), |s, i| (s + &a[i] * &b[i]) % &m);
                let inv = b[n - 1].modinv(&m).unwrap();
                a[n - 1] = ((&m - &s) * inv) % &m;
                if r.pct(35) {
                    let i = r.below(n);
                    let v = if r.pct(50) { &mut a } else { &mut b };
                    v[i] = (&v[i] + BigInt::from(1u32)) % &m;
                }
                if a.iter().chain(&b).any(|v| *v == BigInt::from(0u32)) {
                    a = vec![BigInt::from(1u32); n];
                    b = vec![BigInt::from(1u32); n];
                }
            }
            let mut ix = vec![];
            for k in &a {
                let p = times(Fq::gen(), &k.to_biguint().unwrap());
                p.0.put(&mut x);
                p.1.put(&mut x);
                ix.push(g.input(T::P));
            }
            for k in &b {
                let p = times(Fq2::gen(), &k.to_biguint().unwrap());
                p.0.put(&mut x);
                p.1.put(&mut x);
                ix.push(g.input(T::Q));
            }
            let w: Vec<String> = a.iter().chain(&b).map(|v| v.to_string()).collect();
            g.full(T::N, json!({"o": "P.check", "a": ix, "w": w}));
        }
        1 | 3 => {
            let p = member::<Fq>(r);
            p.0.put(&mut x);
            p.1.put(&mut x);
            let i = g.input(T::P);
            g.step(T::N, if id % 6 == 1 { "P.ong1" } else { "P.oncurve" }, &[i]);
        }
        _ => {
            let p = member::<Fq2>(r);
            p.0.put(&mut x);
            p.1.put(&mut x);
            let i = g.input(T::Q);
            g.step(T::N, if id % 6 == 5 { "P.ontwist" } else { "P.ong2" }, &[i]);
        }
    }
    simple(g, 4, x)
}
/// S09: points and pairings
pub fn points(id: usize, r: &mut Rng) -> Sc {
    match id % 5 {
        0 | 2 => curve::<Fq>(r, id / 5 * 2 + (id % 5) / 2),
        1 | 3 => curve::<Fq2>(r, id / 5 * 2 + (id % 5) / 2),
        _ => pairing(r, id / 5),
    }
}
