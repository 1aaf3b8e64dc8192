U = "/repo/expander_compiler/src/"
PRE = '''use expander_compiler::circuit::config::*;
use expander_compiler::circuit::ir::{self, dest, expr::*, hint_less, hint_normalized, source};
use expander_compiler::circuit::layered::{self, witness::*, Coef, CrossLayerInputType, NormalInputType};
use expander_compiler::compile::{self, CompileOptions};
use expander_compiler::field::FieldArith;
use std::collections::HashMap;
type C = M31Config;
type F = CircuitField<C>;
fn f(x: i64) -> F { if x < 0 { -F::from((-x) as u32) } else { F::from(x as u32) } }
'''
SEEDS = [
dict(id="U04-root", prop="U04", kind="utils",
  edits=[("utils/union_find.rs", """        let x = self.find(x);
        let y = self.find(y);
        self.parent[x] = y;""", """        let root = self.find(x);
        let y = self.find(y);
        if root != y {
            self.parent[x] = y;
        }""")],
  needs="a union of an element that is not the representative of its class",
  breaks="the rest of the class is left behind: after union(0,1), union(0,2) the elements 1 and 2 are not connected",
  main='''#[path = "/repo/expander_compiler/src/utils/union_find.rs"]
mod union_find;
fn main() {
    let mut u = union_find::UnionFind::new(4);
    u.union(0, 1);
    u.union(0, 2);
    assert_eq!(u.find(1), u.find(2));
    assert_ne!(u.find(1), u.find(3));
}
'''),
dict(id="U05-selfloop", prop="U05", kind="utils",
  edits=[("utils/misc.rs", """    for tos in edges.values() {
        for &to in tos.iter() {
            in_deg.entry(to).and_modify(|e| *e += 1);""", """    for (&from, tos) in edges.iter() {
        for &to in tos.iter().filter(|&&to| to != from) {
            in_deg.entry(to).and_modify(|e| *e += 1);"""),
   ("utils/misc.rs", """            for &to in tos.iter() {
                in_deg.entry(to).and_modify(|e| *e -= 1);""", """            for &to in tos.iter().filter(|&&to| to != from) {
                in_deg.entry(to).and_modify(|e| *e -= 1);""")],
  needs="a graph in which a vertex has an edge to itself and no other cycle",
  breaks="a self-loop is not a cycle any more: a circuit that calls itself is taken for well formed",
  main='''#[path = "/repo/expander_compiler/src/utils/misc.rs"]
mod misc;
use std::collections::*;
fn main() {
    let v: HashSet<usize> = [0, 1].into();
    let e: HashMap<usize, HashSet<usize>> = [(0, [1].into()), (1, [1].into())].into();
    assert!(!misc::topo_order_and_is_dag(&v, &e).1);
    let e: HashMap<usize, HashSet<usize>> = [(0, [1].into())].into();
    assert_eq!(misc::topo_order_and_is_dag(&v, &e), (vec![0, 1], true));
}
'''),
dict(id="C13-dup", prop="C13", kind="utils", serdes=True,
  edits=[("circuit/input_mapping.rs", """                if used[m] {
                    return false;
                }
                used[m] = true;""", """                used[m] = true;""")],
  needs="a mapping that sends two inputs to one position and leaves none unused",
  breaks="validate accepts a mapping in which one input overwrites another",
  main='''#[path = "/repo/expander_compiler/src/circuit/input_mapping.rs"]
mod input_mapping;
use input_mapping::*;
fn main() {
    assert!(InputMapping::new(2, vec![1, EMPTY, 0]).validate());
    assert!(!InputMapping::new(2, vec![1, 1]).validate());
    assert!(!InputMapping::new(2, vec![1, 0, 1]).validate());
}
'''),
dict(id="C06-offset", prop="C06",
  edits=[("circuit/layered/opt.rs", """        let mut inputs = self.inputs;
        for input in inputs.iter_mut() {
            input.set_offset(input.offset() + in_offset.get(input.layer()));
        }""", """        let mut inputs = self.inputs;
        let base = in_offset.get(0);
        for input in inputs.iter_mut() {
            input.set_offset(input.offset() + base);
        }""")],
  needs="a circuit with cross-layer relays and a small segment placed at different offsets of two input layers",
  breaks="expanding a small segment reads the wrong position of an earlier layer",
  main=PRE+'''use expander_compiler::circuit::layered::*;
type I = CrossLayerInputType;
fn seg(ni: Vec<usize>, no: usize) -> Segment<C, I> {
    Segment { num_inputs: InputUsize::from_vec(ni), num_outputs: no, child_segs: vec![], gate_muls: vec![], gate_adds: vec![], gate_consts: vec![], gate_customs: vec![] }
}
fn main() {
    let one = Coef::Constant(F::one());
    let add = |l: usize, o: usize, out: usize| Gate { inputs: [Input::new(l, o)], output: out, coef: one };
    let mut small = seg(vec![1, 1], 1);
    small.gate_adds.push(add(0, 0, 0));
    small.gate_adds.push(add(1, 0, 0));
    let mut l1 = seg(vec![4], 4);
    for k in 0..4 {
        l1.gate_adds.push(Gate { inputs: [Input::new(0, k)], output: k, coef: Coef::Constant(f(10)) });
    }
    let mut l2 = seg(vec![4, 4], 1);
    l2.child_segs.push((0, vec![Allocation { input_offset: InputUsize::from_vec(vec![1, 2]), output_offset: 0 }]));
    let c = Circuit::<C, I> { num_public_inputs: 0, num_actual_outputs: 1, expected_num_output_zeroes: 0, segments: vec![small, l1, l2], layer_ids: vec![1, 2] };
    c.validate().unwrap();
    let x: Vec<F> = (1..=4).map(f).collect();
    assert_eq!(c.eval_unsafe(x.clone()), (vec![f(23)], true));
    let d = c.expand_small_segments();
    d.validate().unwrap();
    assert_eq!(d.eval_unsafe(x), (vec![f(23)], true));
}
'''),
dict(id="W03-lane", prop="W03",
  edits=[("circuit/layered/mod.rs", """                if !tmp[i].is_zero() {
                    constraints_satisfied[i] = false;
                }
            }
        }
        (
            cur[self.expected_num_output_zeroes..self.num_actual_outputs].to_vec(),
            constraints_satisfied,
        )
    }

    fn apply_segment_with_public_inputs_simd""", """                if !tmp[i].is_zero() {
                    constraints_satisfied[i] = false;
                    break;
                }
            }
        }
        (
            cur[self.expected_num_output_zeroes..self.num_actual_outputs].to_vec(),
            constraints_satisfied,
        )
    }

    fn apply_segment_with_public_inputs_simd""")],
  needs="a packed batch in which two assignments fail",
  breaks="only the first failing assignment of a pack is reported as failing",
  main=PRE+'''use expander_compiler::circuit::layered::*;
use vpshim::SimdField;
type I = NormalInputType;
fn main() {
    let s = Segment::<C, I> { num_inputs: InputUsize::from_vec(vec![1]), num_outputs: 1, child_segs: vec![], gate_muls: vec![], gate_adds: vec![Gate { inputs: [Input::new(0, 0)], output: 0, coef: Coef::Constant(F::one()) }], gate_consts: vec![], gate_customs: vec![] };
    let c = Circuit::<C, I> { num_public_inputs: 0, num_actual_outputs: 1, expected_num_output_zeroes: 1, segments: vec![s], layer_ids: vec![0] };
    type S = SIMDField<C>;
    let lanes: Vec<F> = (0..S::PACK_SIZE).map(|k| f((k == 1 || k == 2) as i64)).collect();
    let w = Witness::<C> { num_witnesses: S::PACK_SIZE, num_inputs_per_witness: 1, num_public_inputs_per_witness: 0, values: WitnessValues::Simd(vec![S::pack(&lanes)]) };
    assert_eq!(c.run(&w), lanes.iter().map(|x| x.is_zero()).collect::<Vec<_>>());
}
'''),
dict(id="C03-order", prop="C03",
  edits=[("circuit/ir/hint_normalized/mod.rs", "                        add_outputs_sub.push(new_var_max);", "                        add_outputs.push(new_var_max);")],
  needs="a circuit with a hint of its own after a call of a sub-circuit that has hints",
  breaks="the exported hint values come in an order that the hint-free circuit does not expect",
  main=PRE+'''use hint_normalized::*;
use expander_compiler::hints::registry::HintRegistry;
use expander_compiler::circuit::ir::common::RawConstraint;
fn main() {
    use expander_compiler::hints::BuiltinHintIds;
    let hint = |v: Vec<usize>, n| Instruction::<C>::Hint { hint_id: BuiltinHintIds::Identity as usize, inputs: v, num_outputs: n };
    let mut cs = HashMap::new();
    cs.insert(1, Circuit::<C> { num_inputs: 1, instructions: vec![hint(vec![1], 1)], constraints: vec![], outputs: vec![2] });
    cs.insert(0, Circuit::<C> { num_inputs: 2, instructions: vec![
        Instruction::SubCircuitCall { sub_circuit_id: 1, inputs: vec![1], num_outputs: 1 },
        hint(vec![2], 1),
    ], constraints: vec![], outputs: vec![3, 4] });
    let r = RootCircuit::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits: cs };
    r.validate().unwrap();
    let (hl, ex) = r.remove_and_export_hints();
    let reg: HintRegistry<F> = HintRegistry::new();
    let w = ex.eval_safe(vec![f(5), f(9)], &[], &reg).unwrap();
    assert_eq!(hl.eval_unsafe(w), (vec![f(5), f(9)], true));
}
'''),
dict(id="C02-chain", prop="C02",
  edits=[("circuit/ir/source/chains.rs", "                        constant += x_lc.constant * x.coef;", "                        constant += x_lc.constant;")],
  needs="a sum with a constant, used once, in another sum with a coefficient other than one",
  breaks="flattening nested sums forgets to scale the inner constant",
  main=PRE+'''use source::*;
fn main() {
    let mut cs = HashMap::new();
    cs.insert(0, Circuit::<C> { num_inputs: 2, instructions: vec![
        Instruction::LinComb(LinComb { terms: vec![LinCombTerm { var: 1, coef: f(1) }], constant: f(5) }),
        Instruction::LinComb(LinComb { terms: vec![LinCombTerm { var: 3, coef: f(3) }, LinCombTerm { var: 2, coef: f(1) }], constant: f(1) }),
    ], constraints: vec![], outputs: vec![4] });
    let mut r = RootCircuit::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits: cs };
    assert_eq!(r.eval_unsafe(vec![f(2), f(7)]), (vec![f(29)], true));
    r.detect_chains();
    assert_eq!(r.eval_unsafe(vec![f(2), f(7)]), (vec![f(29)], true));
}
'''),
dict(id="C07-relay", prop="C07",
  edits=[("circuit/ir/dest/mul_fanout_limit.rs", "relay_cnt[i] = (mul_ref_cnt[i] - 2) / (limit - 1);", "relay_cnt[i] = (mul_ref_cnt[i] - 1) / limit;")],
  needs="an input that is a factor of many more products than the limit allows",
  breaks="too few relays are made: the input itself is used by more products than the limit",
  main=PRE+'''use dest::*;
fn main() {
    for n in 2..14usize {
        for limit in 2..5usize {
            let q = |x, y| Instruction::<C>::InternalVariable { expr: Expression::new_quad(f(1), x, y) };
            let insns: Vec<_> = (0..n).map(|k| q(1, 2 + k)).collect();
            let mut cs = HashMap::new();
            cs.insert(0, CircuitRelaxed::<C> { num_inputs: n + 1, instructions: insns, constraints: vec![], outputs: (n + 2..2 * n + 2).collect() });
            let r = RootCircuitRelaxed::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits: cs };
            r.validate().unwrap();
            let o = r.solve_mul_fanout_limit(limit);
            let mut uses = HashMap::new();
            for i in o.circuits[&0].instructions.iter() {
                if let Instruction::InternalVariable { expr } = i {
                    for t in expr.iter() {
                        if let VarSpec::Quad(x, y) = t.vars {
                            *uses.entry(x).or_insert(0) += 1;
                            *uses.entry(y).or_insert(0) += 1;
                        }
                    }
                }
            }
            assert!(uses.values().all(|u| *u <= limit), "{n} {limit} {uses:?}");
        }
    }
}
'''),
dict(id="C05-single", prop="C05",
  edits=[("layering/wire.rs", """                    let coef = if *v >= ic.num_var {""", """                    // a combination of one value needs no randomness
                    let single = cc.variables.len() == 1 && cc.sub_circuit_ids.is_empty();
                    let coef = if *v >= ic.num_var || single {""")],
  needs="two calls of a circuit with one constraint, on values that add up to zero",
  breaks="the constraints of the two calls cancel: the layered circuit accepts what the source rejects",
  main=PRE+'''use dest::*;
use expander_compiler::layering;
fn main() {
    let mut cs = HashMap::new();
    cs.insert(1, Circuit::<C> { num_inputs: 1, instructions: vec![], constraints: vec![1], outputs: vec![] });
    let call = |x| Instruction::<C>::SubCircuitCall { sub_circuit_id: 1, inputs: vec![x], num_outputs: 0 };
    cs.insert(0, Circuit::<C> { num_inputs: 2, instructions: vec![call(1), call(2)], constraints: vec![], outputs: vec![1] });
    let r = RootCircuit::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits: cs };
    r.validate().unwrap();
    let (l, im) = layering::compile::<C, NormalInputType>(&r, layering::CompileOptions { allow_input_reorder: true });
    l.validate().unwrap();
    assert!(l.eval_unsafe(im.map_inputs(&[f(0), f(0)])).1);
    assert!(!l.eval_unsafe(im.map_inputs(&[f(5), f(0)])).1);
    assert!((0..3).any(|_| !l.eval_unsafe(im.map_inputs(&[f(5), f(-5)])).1));
}
'''),
dict(id="C01-level1", prop="C01",
  edits=[("compile/mod.rs", """        let (r, im) = r_hint_normalized.remove_unreachable();
        src_im.compose_in_place(&im);
        r
""", """        // the source was pruned above, so all inputs are still there
        let (r, _) = r_hint_normalized.remove_unreachable();
        r
""")],
  needs="optimisation level 1 and an input that only becomes unused when constants are folded",
  breaks="the inputs of the witness program are shifted (or compilation panics)",
  main=PRE+'''use source::*;
use expander_compiler::hints::registry::HintRegistry;
use expander_compiler::circuit::ir::hint_normalized::witness_solver::WitnessSolver;
fn main() {
    let lc = |t: Vec<(usize, i64)>, c: i64| Instruction::<C>::LinComb(LinComb { terms: t.into_iter().map(|(var, k)| LinCombTerm { var, coef: f(k) }).collect(), constant: f(c) });
    let mut cs = HashMap::new();
    // 1 * 0 + 2*3
    cs.insert(0, Circuit::<C> { num_inputs: 3, instructions: vec![
        lc(vec![], 0),
        Instruction::Mul(vec![1, 4]),
        Instruction::Mul(vec![2, 3]),
        lc(vec![(5, 1), (6, 1)], 0),
    ], constraints: vec![], outputs: vec![7, 2] });
    let r = RootCircuit::<C> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits: cs };
    for lv in 1..=3 {
        let (wp, l) = compile::compile_with_options::<C, NormalInputType>(&r, CompileOptions::default().with_opt_level(lv)).unwrap();
        let ws = WitnessSolver { circuit: wp };
        let reg: HintRegistry<F> = HintRegistry::new();
        let w = ws.solve_witness_from_raw_inputs(vec![f(4), f(5), f(6)], vec![], &reg).unwrap();
        let (ok, out) = l.run_with_output(&w);
        assert_eq!((ok, out), (vec![true], vec![vec![f(30), f(5)]]), "level {lv}");
    }
}
'''),
]
