exec(open("/verif/tools/seeds/a.py").read().split("SEEDS = [")[0])
FRONT = '''use expander_compiler::frontend::*;
use expander_compiler::compile::CompileOptions;
use expander_compiler::field::{Field, FieldArith};
use vpshim::SimdField;
type C = M31Config;
type F = CircuitField<C>;
fn f(x: i64) -> F { if x < 0 { -F::from((-x) as u32) } else { F::from(x as u32) } }
'''
CUDA = '''use expander_compiler::frontend::*;
use expander_compiler::circuit::config::SIMDField;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::zkcuda::{context::*, kernel::*, shape::*, vec_shaped::*};
use vpshim::SimdField;
type C = M31Config;
type F = CircuitField<C>;
type S = SIMDField<C>;
fn f(x: i64) -> F { if x < 0 { -F::from((-x) as u32) } else { F::from(x as u32) } }
fn spec(len: usize, i: bool, o: bool) -> IOVecSpec { IOVecSpec { len, is_input: i, is_output: o } }
fn same(a: &S, b: &S) -> bool { a.unpack().iter().zip(b.unpack().iter()).all(|(x, y)| x == y) }
fn wide(x: i64) -> S { S::pack(&vec![f(x); S::PACK_SIZE]) }
'''
SEEDS = [
dict(id="F01-zerodiv", prop="F01",
  edits=[("frontend/builder.rs", """        if let Some(xv) = xc {
            if let Some(yv) = yc {
                let res = if yv.is_zero() {
                    if checked""", """        if let Some(xv) = xc {
            if xv.is_zero() && yc.is_none() {
                // zero divided by anything is zero
                return self.constant(xv);
            }
            if let Some(yv) = yc {
                let res = if yv.is_zero() {
                    if checked""")],
  needs="a checked division of the constant zero by a variable that is zero",
  breaks="0/y with y = 0 is accepted although a checked division must not be satisfiable for y = 0",
  main=FRONT+'''declare_circuit!(D { y: Variable });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let q = b.div(0, self.y, true);
        b.assert_is_zero(q);
    }
}
fn main() {
    let r = compile(&D::default(), CompileOptions::default()).unwrap();
    for y in [1i64, 5, 0] {
        let ok = match r.witness_solver.solve_witness(&D::<F> { y: f(y) }) {
            Ok(w) => r.layered_circuit.run(&w)[0],
            Err(_) => false,
        };
        assert_eq!(ok, y != 0, "y = {y}");
    }
}
'''),
dict(id="F02-and", prop="F02",
  edits=[("frontend/debug.rs", """        let x = self.convert_to_id(x);
        let y = self.convert_to_id(y);
        self.eval_ir_insn(IrInstruction::BoolBinOp {
            x,
            y,
            op: BoolBinOpType::And,
        })""", """        let x = self.convert_to_id(x);
        let y = self.convert_to_id(y);
        if x == y {
            return new_variable(x);
        }
        self.eval_ir_insn(IrInstruction::BoolBinOp {
            x,
            y,
            op: BoolBinOpType::And,
        })""")],
  needs="and() of a variable with itself where the variable is not 0 or 1",
  breaks="the debug evaluation accepts an assignment that the compiled circuit refuses",
  main=FRONT+'''declare_circuit!(D { y: Variable });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let q = b.and(self.y, self.y);
        b.assert_is_equal(q, self.y);
    }
}
fn main() {
    let ok = |y: i64| std::panic::catch_unwind(move || extra::debug_eval(&D::default(), &D::<F> { y: f(y) }, expander_compiler::hints::registry::EmptyHintCaller)).is_ok();
    assert!(ok(0) && ok(1));
    assert!(!ok(2));
}
'''),
dict(id="F03-sep", prop="F03",
  edits=[("frontend/sub_circuit.rs", """        hasher.update(self.len().to_string().as_bytes());
        hasher.update(b";");
        for""", """        hasher.update(self.len().to_string().as_bytes());
        for""")],
  needs="two calls of a memorised function whose vectors have lengths that read the same when written one after the other, like [1, 11] and [11, 1]",
  breaks="the second call reuses the sub-circuit of the first although the structure of its arguments differs",
  main=FRONT+'''#[memorized]
fn ends<C: Config, B: RootAPI<C>>(api: &mut B, x: &Vec<Vec<Variable>>) -> Variable {
    let mut s = api.constant(0);
    for (i, v) in x.iter().enumerate() {
        let t = api.mul(v[v.len() - 1], 1 + 9 * i as u32);
        s = api.add(s, t);
    }
    s
}
declare_circuit!(D { v: [Variable; 12], s: [Variable; 2] });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let x = vec![self.v[..1].to_vec(), self.v[1..].to_vec()];
        let y = vec![self.v[..11].to_vec(), self.v[11..].to_vec()];
        let s = memorized_ends(b, &x);
        b.assert_is_equal(s, self.s[0]);
        let s = memorized_ends(b, &y);
        b.assert_is_equal(s, self.s[1]);
    }
}
fn main() {
    let r = compile(&D::default(), CompileOptions::default()).unwrap();
    let mut a = D::<F>::default();
    for i in 0..12 { a.v[i] = f(i as i64 + 1); }
    a.s = [f(1 + 120), f(11 + 120)];
    let w = r.witness_solver.solve_witness(&a).unwrap();
    assert_eq!(r.layered_circuit.run(&w), vec![true]);
}
'''),
dict(id="F04-shift", prop="F04",
  edits=[("hints/builtin.rs", """            u256_bit_length(F::MODULUS)
        };
        if shift >= 256 {
            return U256::ZERO;
        }
        x >> shift""", """            u256_bit_length(F::MODULUS)
        };
        x >> (shift as u32)""")],
  needs="a right shift by at least 2^32 in a large field, where the low 32 bits of the amount are small",
  breaks="x >> (2^32 + 1) is x >> 1 instead of 0",
  main='''use expander_compiler::circuit::config::*;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::hints::{builtin::*, *};
type F = CircuitField<BN254Config>;
fn main() {
    let x = F::from(12u32);
    let two32 = F::from(1u32 << 16) * F::from(1u32 << 16);
    let h = BuiltinHintIds::ShiftR as usize;
    assert_eq!(stub_impl(h, &vec![x, F::from(2u32)], 1), vec![F::from(3u32)]);
    assert_eq!(stub_impl(h, &vec![x, two32 + F::one()], 1), vec![F::zero()]);
}
'''),
dict(id="W01-pad", prop="W01",
  edits=[("circuit/ir/hint_normalized/witness_solver.rs", """                    tmp[i - i_start] = tmp_inputs[i - i_start][k];
                }
                for i in i_end..b_end {
                    tmp[i - i_start] = tmp[i - i_start - 1];
                }""", """                    tmp[i - i_start] = tmp_inputs[i - i_start][k];
                }""")],
  needs="a batch whose last pack is not full, and a hint that refuses the values left over in the unused lanes",
  breaks="a batch fails to solve although each of its assignments can be solved alone",
  main=PRE+'''use hint_normalized::*;
use hint_normalized::witness_solver::WitnessSolver;
use expander_compiler::hints::registry::*;
use expander_compiler::utils::error::Error;
use vpshim::SimdField;
fn main() {
    let mut cs = HashMap::new();
    cs.insert(0, Circuit::<C> { num_inputs: 1, instructions: vec![Instruction::Hint { hint_id: hint_key_to_id("t.inv"), inputs: vec![1], num_outputs: 1 }], constraints: vec![], outputs: vec![1, 2] });
    let r = RootCircuit::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits: cs };
    r.validate().unwrap();
    let s = WitnessSolver { circuit: r };
    let mut reg: HintRegistry<F> = HintRegistry::new();
    reg.register("t.inv", |x: &[F], y: &mut [F]| { y[0] = x[0].inv().ok_or(Error::UserError("zero".into()))?; Ok(()) });
    for n in [1usize, 3, SIMDField::<C>::PACK_SIZE + 1] {
        let w = s.solve_witnesses_from_raw_inputs(n, |i| (vec![f(i as i64 + 1)], vec![]), &reg).unwrap();
        assert_eq!(w.iter_scalar().take(n).map(|x| x.0[0]).collect::<Vec<_>>(), (0..n).map(|i| f(i as i64 + 1)).collect::<Vec<_>>());
    }
}
'''),
dict(id="W02-partial", prop="W02",
  edits=[("circuit/layered/witness.rs", """            (self.num_witnesses + pack_size - 1) / pack_size
        };
        for i in 0..num_blocks {
            let tmp =""", """            (self.num_witnesses / pack_size).max(1)
        };
        for i in 0..num_blocks {
            let tmp =""")],
  needs="more assignments than a pack holds, and not a multiple of that number",
  breaks="the assignments of the last, incomplete pack are lost when a witness is read back and packed",
  main=PRE+'''use vpshim::{ExpSerde, SimdField};
fn main() {
    let p = SIMDField::<C>::PACK_SIZE;
    for n in [2, p, p + 1] {
        let w = Witness::<C> { num_witnesses: n, num_inputs_per_witness: 2, num_public_inputs_per_witness: 0, values: WitnessValues::Scalar((0..2 * n as i64).map(f).collect()) };
        let mut buf = vec![];
        w.serialize_into(&mut buf).unwrap();
        let w = Witness::<C>::deserialize_from(&buf[..]).unwrap();
        let back: Vec<_> = w.iter_scalar().take(n).flat_map(|x| x.0).collect();
        assert_eq!(back, (0..2 * n as i64).map(f).collect::<Vec<_>>());
    }
}
'''),
dict(id="C09-self", prop="C09",
  edits=[("circuit/ir/common/mod.rs", """        for insn in self.instructions.iter() {
            for term in insn.inputs() {
                if term > cur_var_max || term == 0 {""", """        for insn in self.instructions.iter() {
            let known = cur_var_max + insn.num_outputs();
            for term in insn.inputs() {
                if term > known || term == 0 {""")],
  needs="an instruction that reads one of its own results",
  breaks="a program with an instruction that refers to its own result is not refused",
  main=PRE+'''use source::*;
fn main() {
    let mk = |i: Vec<Instruction<C>>| { let mut cs = HashMap::new();
        cs.insert(0, Circuit::<C> { num_inputs: 1, instructions: i, constraints: vec![], outputs: vec![2] });
        RootCircuit::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits: cs } };
    assert!(mk(vec![Instruction::Mul(vec![1, 1])]).validate().is_ok());
    assert!(mk(vec![Instruction::Mul(vec![1, 2])]).validate().is_err());
    assert!(mk(vec![Instruction::Mul(vec![1, 3])]).validate().is_err());
}
'''),
dict(id="C10-deeper", prop="C10",
  edits=[("circuit/layered/mod.rs", """            for (j, x) in cur.num_inputs.iter().enumerate() {
                if x != layer_sizes[i - j] {""", """            for (j, x) in cur.num_inputs.iter().enumerate() {
                if x > layer_sizes[i - j] || (j == 0 && x != layer_sizes[i]) {""")],
  needs="a cross-layer circuit whose layer declares fewer values of an earlier layer than that layer has",
  breaks="a layer whose declared input sizes contradict the sizes of earlier layers is not refused",
  main=PRE+'''use expander_compiler::circuit::layered::*;
type I = CrossLayerInputType;
fn main() {
    let seg = |n: Vec<usize>, reads: Vec<(usize, usize)>, outs: usize| Segment::<C, I> { num_inputs: InputUsize::from_vec(n), num_outputs: outs, child_segs: vec![], gate_muls: vec![],
        gate_adds: reads.iter().map(|&(l, o)| Gate { inputs: [Input::new(l, o)], output: 0, coef: Coef::Constant(F::one()) }).collect(), gate_consts: vec![], gate_customs: vec![] };
    let mk = |n: usize| Circuit::<C, I> { num_public_inputs: 0, num_actual_outputs: 1, expected_num_output_zeroes: 0,
        segments: vec![seg(vec![4], vec![(0, 0), (0, 3)], 1), seg(vec![1, n], vec![(0, 0), (1, 1)], 1)], layer_ids: vec![0, 1] };
    assert!(mk(4).validate().is_ok());
    assert!(mk(8).validate().is_err());
    assert!(mk(2).validate().is_err());
}
'''),
dict(id="C11-later", prop="C11",
  edits=[("circuit/layered/stats.rs", """            if self.segments[id].num_inputs.len() > l {
                for""", """            if l == 0 {
                for""")],
  needs="a cross-layer circuit in which an input is read only by a later layer",
  breaks="inputs that only later layers read are not counted as used",
  main=PRE+'''use expander_compiler::circuit::layered::*;
type I = CrossLayerInputType;
fn main() {
    let seg = |n: Vec<usize>, reads: Vec<(usize, usize)>, outs: usize| Segment::<C, I> { num_inputs: InputUsize::from_vec(n), num_outputs: outs, child_segs: vec![], gate_muls: vec![],
        gate_adds: reads.iter().map(|&(l, o)| Gate { inputs: [Input::new(l, o)], output: 0, coef: Coef::Constant(F::one()) }).collect(), gate_consts: vec![], gate_customs: vec![] };
    let c = Circuit::<C, I> { num_public_inputs: 0, num_actual_outputs: 1, expected_num_output_zeroes: 0,
        segments: vec![seg(vec![4], vec![(0, 0)], 1), seg(vec![1, 4], vec![(0, 0), (1, 3)], 1)], layer_ids: vec![0, 1] };
    c.validate().unwrap();
    assert_eq!(c.get_stats().num_inputs, 2);
}
'''),
dict(id="C12-relay", prop="C12",
  edits=[("circuit/layered/export.rs", """                        i_layer: gate.inputs[0].layer(),
                        coef: c,""", """                        i_layer: gate.inputs[0].layer(),
                        coef: CircuitField::<C>::from(1u32),""")],
  needs="a cross-layer circuit with an add gate that takes a multiple of a value of an earlier layer",
  breaks="the exported relay carries the value without its factor",
  main=PRE+'''use expander_compiler::circuit::layered::*;
type I = CrossLayerInputType;
fn main() {
    let seg = |n: Vec<usize>, reads: Vec<(usize, usize)>, outs: usize| Segment::<C, I> { num_inputs: InputUsize::from_vec(n), num_outputs: outs, child_segs: vec![], gate_muls: vec![],
        gate_adds: reads.iter().map(|&(l, o)| Gate { inputs: [Input::new(l, o)], output: 0, coef: Coef::Constant(f(3)) }).collect(), gate_consts: vec![], gate_customs: vec![] };
    let c = Circuit::<C, I> { num_public_inputs: 0, num_actual_outputs: 1, expected_num_output_zeroes: 0,
        segments: vec![seg(vec![4], vec![(0, 0)], 1), seg(vec![1, 4], vec![(0, 0), (1, 3)], 1)], layer_ids: vec![0, 1] };
    c.validate().unwrap();
    let e = c.export_to_expander::<<C as vpshim::GKREngine>::FieldConfig>();
    assert_eq!(e.segments[1].gate_relay[0].coef, f(3));
}
'''),
dict(id="Z01-inout", prop="Z01",
  edits=[("zkcuda/kernel.rs", """                root_builder.assert_is_equal(x, y);
                output_vars.push(x.id());""", """                if x.id() > n_in {
                    root_builder.assert_is_equal(x, y);
                }
                output_vars.push(x.id());""")],
  needs="a kernel that passes one of its inputs on as an output",
  breaks="the compiled kernel does not tie such an output to the input: any value is accepted for it",
  main=CUDA+'''fn main() {
    let k: KernelPrimitive<C> = compile_with_spec_and_shapes(
        |api: &mut API<C>, p: &mut Vec<Vec<Variable>>| { let d = api.add(p[0][0], p[0][1]); p[1] = vec![p[0][1], d]; },
        &[spec(2, true, false), spec(2, false, true)], &[vec![2], vec![2]]).unwrap();
    let run = |o: Vec<i64>| k.ir_for_later_compilation().eval_safe([3, 4].iter().chain(o.iter()).map(|&x| f(x)).collect(), &[], &expander_compiler::hints::registry::EmptyHintCaller).is_ok();
    let kern = compile_primitive(&k, &[Some(vec![2]), None], &[None, Some(vec![2])]).unwrap();
    let lc = kern.layered_circuit();
    let _ = run;
    let check = |o: [i64; 2]| {
        let ins = kern.layered_circuit_input();
        let mut v = vec![F::zero(); lc.input_size()];
        for (i, x) in [3i64, 4].iter().enumerate() { v[ins[0].offset + i] = f(*x); }
        for (i, x) in o.iter().enumerate() { v[ins[1].offset + i] = f(*x); }
        lc.eval_unsafe(v).1
    };
    assert!(check([4, 7]));
    assert!(!check([4, 8]));
    assert!(!check([5, 7]));
}
'''),
dict(id="Z02-ident", prop="Z02",
  edits=[("zkcuda/shape.rs", "        self.entries.iter().all(|e| e.axes.is_none())", "        self.entries.last().unwrap().axes.is_none()")],
  needs="a kernel called on data that was transposed and then reshaped",
  breaks="the kernel computes its outputs from the data in the order before the transposition",
  main=CUDA+'''fn main() {
    let k: KernelPrimitive<C> = compile_with_spec_and_shapes(
        |api: &mut API<C>, p: &mut Vec<Vec<Variable>>| { let d = api.mul(p[0][0], 10); let d = api.add(d, p[0][1]); p[1] = vec![d]; },
        &[spec(2, true, false), spec(1, false, true)], &[vec![2], vec![]]).unwrap();
    let mut ctx: Context<C> = Context::default();
    let data: Vec<Vec<S>> = (0..2).map(|i| (0..4).map(|j| wide(4 * i + j)).collect()).collect();
    let a = ctx.copy_simd_to_device(&data);
    let t = a.transpose(&[1, 0]).reshape(&[4, 2]);
    let mut ios = vec![t, None];
    ctx.call_kernel(&k, 4, &mut ios).unwrap();
    let r: Vec<S> = ctx.copy_simd_to_host(ios[1].clone());
    let want: Vec<S> = (0..4).map(|j| wide(10 * j + 4 + j)).collect();
    assert!(r.iter().zip(want.iter()).all(|(x, y)| same(x, y)));
}
'''),
dict(id="Z03-compose", prop="Z03",
  edits=[("zkcuda/shape.rs", "                idx = Some(cur.iter().map(|&x| t[x]).collect());", "                idx = Some(t.iter().map(|&x| cur[x]).collect());")],
  needs="two transpositions with a reshape between them that do not commute",
  breaks="data that is transposed twice comes back in the order of the transpositions applied the wrong way round",
  main=CUDA+'''fn main() {
    let data: Vec<i64> = (0..12).collect();
    let h = ShapeHistory::new(vec![3, 4]).transpose(&[1, 0]).reshape(&[2, 3, 2]).transpose(&[0, 2, 1]);
    let v = h.permute_vec(&data);
    let mut t = vec![];
    for j in 0..4 { for i in 0..3 { t.push(data[4 * i + j]); } }
    let mut u = vec![];
    for i in 0..2 { for k in 0..2 { for j in 0..3 { u.push(t[6 * i + 2 * j + k]); } } }
    assert_eq!(v, u);
}
'''),
dict(id="Z04-pad3", prop="Z04",
  edits=[("zkcuda/shape.rs", "            let last_chunk = ret.last().unwrap().clone();", "            let last_chunk = ret.first().unwrap().clone();")],
  needs="an input with three or more dimensions whose first dimension is no power of two",
  breaks="the padding repeats the first block instead of the last one",
  main=CUDA+'''fn main() {
    let data: Vec<i64> = (0..12).collect();
    let v = multi_dimension_data_padding(&[3, 2, 2], &data);
    assert_eq!(v, (0..12).chain(8..12).collect::<Vec<i64>>());
}
'''),
dict(id="Z05-lens", prop="Z05",
  edits=[("zkcuda/context.rs", "            assert_eq!(cg_commitments_lens.unwrap(), commitments_lens);", "            assert_eq!(cg_commitments_lens.unwrap().len(), commitments_lens.len());")],
  needs="a saved graph with hints loaded into a context, where the recorded length of the hint commitment is different",
  breaks="a graph whose commitment lengths do not fit the calls is accepted",
  main=CUDA+'''fn main() {
    let k: KernelPrimitive<C> = compile_with_spec_and_shapes(
        |api: &mut API<C>, p: &mut Vec<Vec<Variable>>| { let h = api.new_hint("t.id", &[p[0][0]], 3); api.assert_is_equal(h[0], p[0][0]); p[1] = vec![h[0]]; },
        &[spec(1, true, false), spec(1, false, true)], &[vec![], vec![]]).unwrap();
    let mk = || {
        let mut reg: expander_compiler::hints::registry::HintRegistry<F> = expander_compiler::hints::registry::HintRegistry::new();
        reg.register("t.id", |x: &[F], y: &mut [F]| { for v in y.iter_mut() { *v = x[0]; } Ok(()) });
        let mut ctx = Context::<C, _>::new(reg);
        let a = ctx.copy_simd_to_device(&vec![wide(3), wide(4)]);
        let mut ios = vec![a, None];
        ctx.call_kernel(&k, 2, &mut ios).unwrap();
        ctx
    };
    let cg = mk().compile_computation_graph().unwrap();
    assert!(cg.commitments_lens.len() == 3);
    mk().load_computation_graph(cg.clone()).unwrap();
    let mut bad = cg.clone();
    *bad.commitments_lens.last_mut().unwrap() *= 2;
    let r = std::panic::catch_unwind(move || mk().load_computation_graph(bad));
    assert!(!matches!(r, Ok(Ok(()))));
}
'''),
dict(id="Z06-ragged", prop="Z06",
  edits=[("zkcuda/vec_shaped.rs", "            if cur_shape != sub_shape {", "            if cur_shape.last() != sub_shape.last() {")],
  needs="a ragged value with three or more levels whose innermost lists differ in length",
  breaks="data that is not a box is accepted with the shape of its first part",
  main=CUDA+'''fn main() {
    let ok = vec![vec![vec![f(1), f(2)], vec![f(3), f(4)]], vec![vec![f(1), f(2)], vec![f(3), f(4)]]];
    assert_eq!(flatten_shaped(&ok).1, vec![2, 2, 2]);
    let bad = vec![vec![vec![f(1), f(2)], vec![f(3), f(4)]], vec![vec![f(1)], vec![f(3)]]];
    assert!(std::panic::catch_unwind(|| flatten_shaped(&bad)).is_err());
}
'''),
]
