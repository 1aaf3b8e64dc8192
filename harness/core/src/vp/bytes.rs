//! Written artifacts: layout and round trips (D01), damaged and foreign bytes (D02), the shared
//! memory image of computation graphs (D03). See specs/Bytes.tla.
use super::fields::*;
use super::gen::{self, Lvl, Rng};
use super::pipe::{base_hn, opts, panic_msg};
use super::prog::*;
use crate::circuit::config::{Config, SIMDField};
use crate::circuit::ir::common::{IrConfig, RootCircuit};
use crate::circuit::ir::hint_normalized::witness_solver::WitnessSolver;
use crate::circuit::ir::{hint_normalized, source};
use crate::circuit::layered::witness::{Witness, WitnessValues};
use crate::circuit::layered::{self, Coef, CrossLayerInputType, Input, InputType, InputUsize, NormalInputType};
use crate::field::{Field, FieldArith};
use crate::zkcuda::context::{ComputationGraph, ProofTemplate};
use crate::zkcuda::kernel::{Kernel, LayeredCircuitInputVec};
use gkr_engine::MPISharedMemory;
use serde_json::{json, Value};
use serdes::ExpSerde;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// a number of any size
fn w(x: usize) -> Value {
    if x < 1 << 31 {
        json!(x)
    } else {
        json!(x.to_string())
    }
}
fn ws(x: &[usize]) -> Value {
    Value::Array(x.iter().map(|v| w(*v)).collect())
}
fn wk<T: Field>(k: &K<T>) -> Value {
    match k {
        K::C(x) => json!(["c", jf(x)]),
        K::P(i) => json!(["p", w(*i)]),
        K::R => json!(["r"]),
    }
}
fn insn<T: Field>(x: &I<T>) -> Value {
    match x {
        I::Lin { t, c } => json!({"o": "lin", "v": t.iter().map(|(_, v)| w(*v)).collect::<Vec<_>>(), "a": t.iter().map(|(a, _)| jf(a)).collect::<Vec<_>>(), "c": jf(c)}),
        I::Mul(v) => json!({"o": "mul", "v": ws(v)}),
        I::Div { x, y, k } => json!({"o": "div", "x": w(*x), "y": w(*y), "b": *k as u8}),
        I::Bool { x, y, b } => json!({"o": "bool", "x": w(*x), "y": w(*y), "b": b}),
        I::Isz(x) => json!({"o": "isz", "x": w(*x)}),
        I::Commit(v) => json!({"o": "commit", "v": ws(v)}),
        I::Hint { h, v, n } => json!({"o": "hint", "h": w(*h), "v": ws(v), "n": w(*n)}),
        I::Const(k) => json!({"o": "const", "f": wk(k)}),
        I::Call { s, v, n } => json!({"o": "call", "s": w(*s), "v": ws(v), "n": w(*n)}),
        I::UBin { b, x, y } => json!({"o": "ubin", "x": w(*x), "y": w(*y), "b": b}),
        I::USel(c, t, f) => json!({"o": "usel", "v": ws(&[*c, *t, *f])}),
        I::ToBin { x, n } => json!({"o": "tobin", "x": w(*x), "n": w(*n)}),
        I::Cust { g, v } => json!({"o": "cust", "g": w(*g), "v": ws(v)}),
        I::Expr(_) => unreachable!(),
    }
}
/// what is written: kind, object as data, bytes; and how to read it again
trait Art: ExpSerde {
    fn data(&self) -> Value;
}
fn prog_data<C: Config, R: IrConfig<Config = C>>(r: &RootCircuit<R>) -> Value
where
    R::Instruction: ToI<C>,
    R::Constraint: ToK,
{
    let p = from_root(r);
    json!({"npub": w(p.npub), "nz": w(p.nz), "c": p.ids.iter().zip(p.c.iter()).map(|(id, c)| json!([w(*id), {
        "n": w(c.n), "i": c.i.iter().map(insn).collect::<Vec<_>>(),
        "k": c.k.iter().map(|(t, v)| json!([t, w(*v)])).collect::<Vec<_>>(), "z": ws(&c.z)}])).collect::<Vec<_>>()})
}
impl<C: Config> Art for source::RootCircuit<C> {
    fn data(&self) -> Value {
        prog_data(self)
    }
}
impl<C: Config> Art for hint_normalized::RootCircuit<C> {
    fn data(&self) -> Value {
        prog_data(self)
    }
}
impl<C: Config> Art for WitnessSolver<C> {
    fn data(&self) -> Value {
        prog_data(&self.circuit)
    }
}
impl<C: Config, I_: InputType> Art for layered::Circuit<C, I_> {
    fn data(&self) -> Value {
        let cross = I_::CROSS_LAYER_RELAY;
        let ji = |x: &I_::Input| if cross { ws(&[x.layer(), x.offset()]) } else { ws(&[x.offset()]) };
        let k = |c: &Coef<C>| wk(&coef::<C>(c));
        json!({"npub": w(self.num_public_inputs), "nact": w(self.num_actual_outputs), "nz": w(self.expected_num_output_zeroes), "l": ws(&self.layer_ids),
            "s": self.segments.iter().map(|s| json!({
                "ni": ws(&s.num_inputs.to_vec()), "no": w(s.num_outputs),
                "ch": s.child_segs.iter().map(|(id, al)| json!([w(*id), al.iter().map(|a| json!([ws(&a.input_offset.to_vec()), w(a.output_offset)])).collect::<Vec<_>>()])).collect::<Vec<_>>(),
                "m": s.gate_muls.iter().map(|g| json!([g.inputs.iter().map(ji).collect::<Vec<_>>(), w(g.output), k(&g.coef)])).collect::<Vec<_>>(),
                "a": s.gate_adds.iter().map(|g| json!([g.inputs.iter().map(ji).collect::<Vec<_>>(), w(g.output), k(&g.coef)])).collect::<Vec<_>>(),
                "k": s.gate_consts.iter().map(|g| json!([[], w(g.output), k(&g.coef)])).collect::<Vec<_>>(),
                "u": s.gate_customs.iter().map(|g| json!([w(g.gate_type), g.inputs.iter().map(ji).collect::<Vec<_>>(), w(g.output), k(&g.coef)])).collect::<Vec<_>>(),
            })).collect::<Vec<_>>()})
    }
}
impl<C: Config> Art for Witness<C> {
    fn data(&self) -> Value {
        // without values there is nothing to list
        let empty = self.num_inputs_per_witness == 0 && self.num_public_inputs_per_witness == 0;
        let e = catch_unwind(AssertUnwindSafe(|| self.iter_scalar().take(if empty { 0 } else { usize::MAX }).map(|(x, y)| json!([jfs(&x), jfs(&y)])).collect::<Vec<_>>()));
        json!({"num": w(self.num_witnesses), "a": w(self.num_inputs_per_witness), "b": w(self.num_public_inputs_per_witness),
            "asg": e.unwrap_or(vec![json!("panic")])})
    }
}
fn inputs_data(v: &[LayeredCircuitInputVec]) -> Value {
    Value::Array(v.iter().map(|x| ws(&[x.len, x.offset])).collect())
}
impl<C: Config> Art for Kernel<C> {
    fn data(&self) -> Value {
        json!({"hs": self.hint_solver.iter().map(|h| h.data()).collect::<Vec<_>>(), "lc": self.layered_circuit.data(), "in": inputs_data(&self.layered_circuit_input)})
    }
}
impl<C: Config> Art for ComputationGraph<C> {
    fn data(&self) -> Value {
        json!({"ks": self.kernels.iter().map(|k| k.data()).collect::<Vec<_>>(), "cl": ws(&self.commitments_lens),
            "pt": self.proof_templates.iter().map(|t| json!({"k": w(t.kernel_id), "ci": ws(&t.commitment_indices),
                "bo": t.commitment_bit_orders.iter().map(|b| ws(b)).collect::<Vec<_>>(), "pc": w(t.parallel_count),
                "br": t.is_broadcast.iter().map(|b| *b as u8).collect::<Vec<_>>()})).collect::<Vec<_>>()})
    }
}

// ---------------------------------------------------------------- generated objects
fn big(r: &mut Rng, x: usize) -> usize {
    match r.below(12) {
        0 => x + 200,
        1 => 65535 + x,
        2 => usize::MAX - x,
        3 => (1 << 32) + x,
        _ => x,
    }
}
fn enlarge<T>(r: &mut Rng, p: &mut Prog<T>) {
    // numbers of every size: nothing here is evaluated
    if r.pct(40) {
        p.npub = big(r, p.npub);
        p.nz = big(r, p.nz);
        for c in p.c.iter_mut() {
            c.n = big(r, c.n);
            for x in c.z.iter_mut() {
                *x = big(r, *x);
            }
            for (_, x) in c.k.iter_mut() {
                *x = big(r, *x);
            }
            for i in c.i.iter_mut() {
                match i {
                    I::Mul(v) | I::Commit(v) => v.iter_mut().for_each(|x| *x = big(r, *x)),
                    I::Hint { v, n, .. } => {
                        v.iter_mut().for_each(|x| *x = big(r, *x));
                        *n = big(r, *n);
                    }
                    I::ToBin { x, n } => {
                        *x = big(r, *x);
                        *n = big(r, *n);
                    }
                    I::USel(a, b, c) => {
                        *a = big(r, *a);
                        *b = big(r, *b);
                        *c = big(r, *c);
                    }
                    _ => {}
                }
            }
        }
    }
    if r.pct(10) {
        for c in p.c.iter_mut() {
            c.k.clear();
        }
    }
    if r.pct(10) {
        p.c[0].z.clear();
    }
}
fn a_source<C: Config>(r: &mut Rng) -> source::RootCircuit<C> {
    let mut o = opts(r, Lvl::Source, gen::is_tiny::<F<C>>());
    o.hints = true;
    let (mut p, _, _) = gen::prog::<F<C>>(r, &o);
    if r.pct(30) {
        let n = p.c[0].n;
        p.c[0].i.push(I::Commit((0..r.range(1, 3)).map(|_| r.range(1, n.max(1))).collect()));
    }
    enlarge(r, &mut p);
    to_source(&p)
}
fn a_hn<C: Config>(r: &mut Rng) -> hint_normalized::RootCircuit<C> {
    let (mut p, _, _, h) = base_hn::<C>(r, gen::is_tiny::<F<C>>(), false);
    if r.pct(50) {
        enlarge(r, &mut p);
        return to_hn(&p);
    }
    h
}
fn a_lay<C: Config, I_: InputType + 'static>(r: &mut Rng) -> layered::Circuit<C, I_> {
    let mut l = gen::layered::<C, I_>(r);
    for s in l.segments.iter_mut() {
        for g in s.gate_muls.iter_mut() {
            g.output = big(r, g.output);
            if r.pct(20) {
                g.coef = [Coef::Random, Coef::PublicInput(big(r, 3))][r.below(2)].clone();
            }
        }
        for g in s.gate_consts.iter_mut() {
            if r.pct(30) {
                g.coef = Coef::Random;
            }
        }
        if r.pct(30) && !s.gate_adds.is_empty() {
            let a = r.pick(&s.gate_adds);
            let k = r.below(4);
            s.gate_customs.push(layered::GateCustom { gate_type: big(r, 12), inputs: (0..k).map(|_| a.inputs[0]).collect(), output: a.output, coef: a.coef });
        }
    }
    if r.pct(20) {
        l.num_actual_outputs = big(r, 1);
        l.expected_num_output_zeroes = big(r, 0);
    }
    if r.pct(5) {
        l.segments.clear();
    }
    l
}
fn a_wit<C: Config>(r: &mut Rng) -> Witness<C> {
    let pack = SIMDField::<C>::PACK_SIZE;
    use arith::SimdField;
    let (mut a, b) = (r.below(5), r.below(3));
    if a + b == 0 && r.pct(70) {
        a = 2;
    }
    let num = match r.below(4) {
        0 => r.below(3),
        1 => pack + r.below(3),
        _ => r.range(1, 2 * pack + 1),
    };
    if r.pct(50) || num == 0 {
        return Witness {
            num_witnesses: num,
            num_inputs_per_witness: a,
            num_public_inputs_per_witness: b,
            values: WitnessValues::Scalar((0..num * (a + b)).map(|_| gen::val(r)).collect()),
        };
    }
    let blocks = num.div_ceil(pack);
    Witness {
        num_witnesses: num,
        num_inputs_per_witness: a,
        num_public_inputs_per_witness: b,
        values: WitnessValues::Simd(
            (0..blocks * (a + b))
                .map(|_| SIMDField::<C>::pack(&(0..pack).map(|_| gen::val(r)).collect::<Vec<_>>()))
                .collect(),
        ),
    }
}
fn a_kernel<C: Config>(r: &mut Rng, customs: bool) -> Kernel<C> {
    let mut lc = a_lay::<C, NormalInputType>(r);
    if !customs {
        lc.segments.iter_mut().for_each(|s| s.gate_customs.clear());
    }
    Kernel {
        hint_solver: if r.pct(50) { Some(a_hn(r)) } else { None },
        layered_circuit: lc,
        layered_circuit_input: (0..r.below(4)).map(|_| LayeredCircuitInputVec { len: big(r, 4), offset: big(r, 8) }).collect(),
    }
}
fn a_graph<C: Config>(r: &mut Rng, customs: bool) -> ComputationGraph<C> {
    let v = |r: &mut Rng| -> Vec<usize> { (0..r.below(5)).map(|i| big(r, i)).collect() };
    ComputationGraph {
        kernels: (0..r.below(4)).map(|_| a_kernel(r, customs)).collect(),
        commitments_lens: v(r),
        proof_templates: (0..r.below(4))
            .map(|k| ProofTemplate {
                kernel_id: big(r, k),
                commitment_indices: v(r),
                commitment_bit_orders: (0..r.below(4)).map(|_| v(r)).collect(),
                parallel_count: big(r, 2),
                is_broadcast: (0..r.below(4)).map(|_| r.pct(50)).collect(),
            })
            .collect(),
    }
}

// ---------------------------------------------------------------- recording
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
struct Counting<'a>(&'a [u8], usize);
impl std::io::Read for Counting<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        // hands out a few bytes at a time, as a pipe may
        let n = b.len().min(self.0.len()).min(7);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        self.1 += n;
        Ok(n)
    }
}
fn read<A: Art>(b: &[u8]) -> Value {
    let e = catch_unwind(AssertUnwindSafe(|| {
        let mut c = Counting(b, 0);
        let x = A::deserialize_from(&mut c);
        (x, c.1)
    }));
    match e {
        Err(e) => json!({"said": "panic", "msg": panic_msg(&e)}),
        Ok((Err(_), _)) => json!({"said": "err"}),
        Ok((Ok(a), n)) => json!({"said": "ok", "obj": a.data(), "n": n}),
    }
}
fn d01<A: Art>(r: &mut Rng, a: &A) -> Value {
    let mut b = vec![];
    a.serialize_into(&mut b).unwrap();
    let n = b.len();
    let mut x = b.clone();
    x.extend((0..r.below(20)).map(|_| r.below(256) as u8));
    let mut got = read::<A>(&x);
    let obj = a.data();
    if got["obj"] == obj {
        got.as_object_mut().unwrap().remove("obj");
    }
    let mut v = json!({"obj": obj, "hex": hex(&b), "len": n, "read": got});
    if n <= 160 {
        v["raw"] = json!(b);
    }
    v
}
fn d02<A: Art, B: Art>(r: &mut Rng, a: &A, foreign: bool) -> Value {
    let mut b = vec![];
    a.serialize_into(&mut b).unwrap();
    let n = b.len();
    // cut short: every length up to a limit, then samples
    let mut cuts = vec![];
    let lens: Vec<usize> = if n <= 400 { (0..n).collect() } else { (0..100).chain((0..150).map(|_| r.below(n))).chain(n - 40..n).collect() };
    let tried = lens.len();
    for k in lens {
        let v = read::<A>(&b[..k]);
        if v["said"] != "err" {
            cuts.push(json!([k, v["said"]]));
        }
    }
    let mut flips = vec![];
    for _ in 0..8 {
        let mut x = b.clone();
        let k = if r.pct(40) { r.below(n.min(72)) } else { r.below(n) };
        x[k] = match r.below(5) {
            0 => x[k].wrapping_add(1),
            1 => x[k] ^ 0x80,
            2 => 0xff,
            3 => 0,
            _ => r.below(256) as u8,
        };
        if r.pct(10) {
            for j in k..(k + 8).min(n) {
                x[j] = 0xff;
            }
        }
        if x == b {
            continue;
        }
        let mut v = read::<A>(&x);
        v["at"] = json!(k);
        if v["said"] == "ok" {
            v["hex"] = json!(hex(&x));
        }
        flips.push(v);
    }
    let mut v = json!({"len": n, "tried": tried, "cuts": cuts, "flips": flips});
    if foreign {
        v["foreign"] = read::<B>(&b)["said"].clone();
    }
    v
}
/// a graph through a block of memory with untouched surroundings
fn d03<C: Config>(r: &mut Rng) -> Value {
    let customs = r.pct(15);
    let g = a_graph::<C>(r, customs);
    let pad = 256;
    let size = match catch_unwind(AssertUnwindSafe(|| g.bytes_size())) {
        Ok(s) => s,
        Err(e) => return json!({"kind": "image", "said": "panic", "obj": g.data(), "msg": panic_msg(&e)}),
    };
    if size > 1 << 24 {
        return json!({"kind": "image", "said": "size", "size": w(size)});
    }
    let junk = r.below(256) as u8;
    // room for what might be written past the end
    let mut mem: Vec<u8> = vec![junk; pad + size + (1 << 16)];
    let e = catch_unwind(AssertUnwindSafe(|| {
        let start = unsafe { mem.as_mut_ptr().add(pad) };
        let mut p = start;
        g.to_memory(&mut p);
        let wrote = p as usize - start as usize;
        let mut q = start;
        let h = ComputationGraph::<C>::new_from_memory(&mut q);
        let used = q as usize - start as usize;
        let d = h.data();
        h.discard_control_of_shared_mem();
        (wrote, used, d)
    }));
    match e {
        Err(e) => json!({"kind": "image", "said": "panic", "obj": g.data(), "msg": panic_msg(&e)}),
        Ok((wrote, used, d)) => {
            let around = mem[..pad].iter().all(|x| *x == junk) && mem[pad + size..].iter().all(|x| *x == junk);
            json!({"kind": "image", "said": "ok", "obj": g.data(), "got": d, "size": size, "wrote": wrote, "used": used, "around": around})
        }
    }
}
fn one<C: Config, B: Config>(prop: &str, r: &mut Rng) -> Value {
    let same_field = F::<C>::MODULUS == F::<B>::MODULUS;
    macro_rules! go {
        ($k:literal, $hdr:expr, $a:expr, $tb:ty) => {{
            let a = $a;
            let mut v = if prop == "D01" { d01(r, &a) } else { d02::<_, $tb>(r, &a, $hdr) };
            v["kind"] = json!($k);
            v
        }};
    }
    let mut v = if prop == "D03" {
        d03::<C>(r)
    } else {
        match r.below(9) {
            0 | 1 => go!("source", true, a_source::<C>(r), source::RootCircuit<B>),
            2 => go!("hn", true, a_hn::<C>(r), hint_normalized::RootCircuit<B>),
            3 => go!("hn", true, WitnessSolver { circuit: a_hn::<C>(r) }, WitnessSolver<B>),
            4 => go!("normal", !same_field, a_lay::<C, NormalInputType>(r), layered::Circuit<B, NormalInputType>),
            5 => go!("cross", !same_field, a_lay::<C, CrossLayerInputType>(r), layered::Circuit<B, CrossLayerInputType>),
            6 => go!("wit", !same_field, a_wit::<C>(r), Witness<B>),
            7 => go!("kernel", !same_field, a_kernel::<C>(r, true), Kernel<B>),
            _ => {
                let g = a_graph::<C>(r, true);
                let hdr = !same_field && !g.kernels.is_empty();
                go!("graph", hdr, g, ComputationGraph<B>)
            }
        }
    };
    v["p"] = jmod::<F<C>>();
    v["mod"] = json!(F::<C>::MODULUS.to_string());
    v["cfg"] = json!(C::CONFIG_ID);
    let mut b = vec![];
    F::<C>::one().serialize_into(&mut b).unwrap();
    v["fs"] = json!(b.len());
    v
}
/// bytes PROP SEED COUNT OUT [ONLY]
pub fn main(a: &[String]) {
    let prop = a[0].as_str();
    let seed: u64 = a[1].parse().unwrap();
    let count: usize = a[2].parse().unwrap();
    let only: Option<usize> = a.get(4).and_then(|x| x.parse().ok());
    let lines = super::par::run(count, only, &a[3], |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64) ^ 0xb17e5);
        let mut v = match r.below(8) {
            0 => one::<T7, T13>(prop, &mut r),
            1 => one::<M31Config, BabyBearConfig>(prop, &mut r),
            2 => one::<BN254Config, GoldilocksConfig>(prop, &mut r),
            3 => one::<GF2Config, M31Config>(prop, &mut r),
            4 => one::<M31OrionConfig, M31Config>(prop, &mut r),
            5 => one::<GoldilocksConfig, BN254Config>(prop, &mut r),
            6 => one::<BabyBearConfig, M31OrionConfig>(prop, &mut r),
            _ => one::<M31Config, GF2Config>(prop, &mut r),
        };
        v["id"] = json!(id);
        vec![v]
    });
    let mut kinds = std::collections::HashMap::<String, usize>::new();
    for l in &lines {
        *kinds.entry(l["kind"].as_str().unwrap_or("?").to_string()).or_default() += 1;
        *kinds.entry("cuts".into()).or_default() += l["tried"].as_u64().unwrap_or(0) as usize;
        for x in l["flips"].as_array().into_iter().flatten() {
            *kinds.entry(format!("changed byte {}", x["said"].as_str().unwrap())).or_default() += 1;
        }
    }
    super::par::write(&a[3], &lines, json!({"scenarios": count, "kinds": kinds}));
}
