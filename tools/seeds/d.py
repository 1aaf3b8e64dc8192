STD = '''use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use expander_compiler::frontend::*;
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok() }
'''
GO = '''package main

import (
	"math/big"
	"os"
%s
)

func out(ok bool) {
	if ok {
		os.Exit(0)
	}
	os.Exit(1)
}
'''
SEEDS = [
dict(id="S10-top", prop="S10", kind="std",
  edits=[("/rsa_circuit/src/main.rs", """            // assert result = x_powers[16]
            for i in 0..N_LIMBS {
""", """            // assert result = x_powers[16]
            for i in 0..N_LIMBS - 1 {
""")],
  needs="a result that differs from the last power in its top limb only",
  breaks="a signature whose claimed result is wrong in bits 2040 and above is accepted",
  main=STD+'''use circuit_std_rs::rsa_main::RSACircuit;
type F = CircuitField<BN254Config>;
const N: usize = 18;
fn accepts(res_top: u32) -> bool {
    let mut c = RSACircuit::<F>::default();
    let (need, _) = c.num_vars();
    // x = 1 modulo 5: every power is 1, every quotient 0
    let mut all = vec![F::from(0u32); need];
    all[0] = F::from(1u32);
    all[N] = F::from(5u32);
    for i in 0..17 { all[(2 + i) * N] = F::from(1u32); }
    all[36 * N] = F::from(1u32);
    all[37 * N - 1] = F::from(res_top);
    let (mut a, mut b): (&[F], &[F]) = (&all, &[]);
    c.load_from(&mut a, &mut b);
    quiet(|| extra::debug_eval::<BN254Config, _, _, _>(&RSACircuit::<Variable>::default(), &c, EmptyHintCaller)).is_some()
}
fn main() {
    let ok = accepts(0) && !accepts(7);
    std::process::exit(!ok as i32);
}
'''),
dict(id="F06-hi", prop="F06", kind="std",
  edits=[("utils/interpreter_loader.rs", "let hi = api.from_binary(&to_compose[30..]);", "let hi = api.from_binary(&to_compose[30..59]);")],
  needs="a zk.m31.compose of at least 60 bits whose last bit is one",
  breaks="the highest bit of a composed number is lost",
  main=STD+'''use expander_compiler::utils::interpreter_loader::M31Loader;
type C = M31Config;
type F = CircuitField<C>;
declare_circuit!(D { bit: Variable, hi: Variable });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let name = std::env::temp_dir().join(format!("demo.{}", std::process::id()));
        let mut s = String::from("decompose =v0 i 0 0 1\\nextractbit =v1 v0 0\\nzk.m31.compose =v2 60");
        for _ in 0..59 { s += " 0"; }
        s += " v1\\nzk.m31.extract =v3 v2 1\\nstore o 0 0 v3\\n";
        std::fs::write(&name, s).unwrap();
        let mut out = vec![];
        M31Loader::new().load(name.to_str().unwrap(), &[vec![self.bit]], &mut out, b);
        std::fs::remove_file(&name).unwrap();
        b.assert_is_equal(out[0][0][0], self.hi);
    }
}
fn bit(x: &[F], y: &mut [F]) -> Result<(), Error> { y[0] = x[0]; Ok(()) }
fn accepts(v: u32, hi: u32) -> bool {
    let mut h = HintRegistry::<F>::new();
    h.register("myhint.tobinary", bit);
    quiet(|| extra::debug_eval::<C, _, _, _>(&D::<Variable>::default(), &D::<F> { bit: F::from(v), hi: F::from(hi) }, h)).is_some()
}
fn main() {
    let ok = accepts(0, 0) && accepts(1, 1 << 29) && !accepts(1, 0);
    std::process::exit(!ok as i32);
}
'''),
dict(id="L02-neg", prop="L02", kind="go",
  edits=[("/ecgo/utils/convert.go", "	case int16:\n		r.SetInt64(int64(v))", "	case int16:\n		r.SetUint64(uint64(v))")],
  needs="an assignment given as a negative number of type int16",
  breaks="the witness holds another field element than the assigned one",
  main=GO % '''
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/field"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/irwg"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/frontend"''' + '''
type circ struct {
	X, Y frontend.Variable
}

func (c *circ) Define(api frontend.API) error { return nil }

func main() {
	p := big.NewInt(2147483647)
	f := field.GetFieldFromOrder(p)
	rc := irwg.RootCircuit{Field: f, Circuits: map[uint64]*irwg.Circuit{0: {
		NumInputs:    2,
		Instructions: []irwg.Instruction{{Type: irwg.LinComb, Inputs: []int{1, 2}, LinCombCoef: []constraint.Element{f.One(), f.One()}}},
		Outputs:      []int{1, 3},
	}}}
	w, err := rc.SolveInput(&circ{X: int16(-3), Y: int64(5)}, 1)
	if err != nil {
		os.Exit(3)
	}
	out(w.Values[0].Cmp(big.NewInt(2147483644)) == 0 && w.Values[1].Cmp(big.NewInt(2)) == 0)
}
'''),
dict(id="L03-cmp", prop="L03", kind="go",
  edits=[("/ecgo/builder/api.go", "	for i := builder.field.FieldBitLen() - 1; i >= 0; i-- {\n\n		iszeroi1", "	for i := builder.field.FieldBitLen() - 1; i > 0; i-- {\n\n		iszeroi1")],
  needs="a comparison of two numbers that differ in their lowest bit only",
  breaks="numbers that differ compare as equal",
  main=GO % '''
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/builder"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/field"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/irsource"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/schema"''' + '''
// the circuit of Cmp(x, y) = want, on an assignment
func accepts(x, y, want int64) bool {
	p := big.NewInt(2147483647)
	f := field.GetFieldFromOrder(p)
	root := builder.NewRoot(p, frontend.CompileConfig{})
	a := root.SecretVariable(schema.LeafInfo{})
	b := root.SecretVariable(schema.LeafInfo{})
	root.AssertIsEqual(root.Cmp(a, b), want)
	c := root.Finalize().Circuits[0]
	v := []constraint.Element{{}, f.FromInterface(x), f.FromInterface(y)}
	for _, in := range c.Instructions {
		switch in.Type {
		case irsource.LinComb:
			r := in.Const
			for i, j := range in.Inputs {
				r = f.Add(r, f.Mul(v[j], in.LinCombCoef[i]))
			}
			v = append(v, r)
		case irsource.Mul:
			r := f.One()
			for _, j := range in.Inputs {
				r = f.Mul(r, v[j])
			}
			v = append(v, r)
		case irsource.ConstantLike:
			v = append(v, in.Const)
		case irsource.IsZero:
			r := constraint.Element{}
			if v[in.X].IsZero() {
				r = f.One()
			}
			v = append(v, r)
		case irsource.BoolBinOp:
			xy := f.Mul(v[in.X], v[in.Y])
			s := f.Add(v[in.X], v[in.Y])
			switch in.ExtraId {
			case 1:
				v = append(v, f.Sub(s, f.Add(xy, xy)))
			case 2:
				v = append(v, f.Sub(s, xy))
			default:
				v = append(v, xy)
			}
		case irsource.Hint:
			ins := []*big.Int{}
			for _, j := range in.Inputs {
				ins = append(ins, f.ToBigInt(v[j]))
			}
			outs := make([]*big.Int, in.NumOutputs)
			for i := range outs {
				outs[i] = new(big.Int)
			}
			if solver.GetRegisteredHint(solver.HintID(in.ExtraId))(p, ins, outs) != nil {
				os.Exit(3)
			}
			for _, o := range outs {
				v = append(v, f.FromInterface(o))
			}
		default:
			os.Exit(3)
		}
	}
	for _, q := range c.Constraints {
		x := v[q.Var]
		switch q.Typ {
		case irsource.Zero:
			if !x.IsZero() {
				return false
			}
		case irsource.Bool:
			if !x.IsZero() && !f.IsOne(x) {
				return false
			}
		default:
			if x.IsZero() {
				return false
			}
		}
	}
	return true
}

func main() {
	out(accepts(4, 5, -1) && accepts(5, 4, 1) && accepts(4, 4, 0) && !accepts(5, 4, 0) && accepts(9, 5, 1))
}
'''),
dict(id="L01-again", prop="L01", kind="lib",
  edits=[("/expander_compiler/ec_go_lib/src/compile.rs", """    let result = compile_inner(ir_source.to_vec(), config_id);
    to_compile_result(result)""", """    // callers compile the same circuit again when they load it
    let mut last = LAST.lock().unwrap();
    if let Some((len, id, head, result)) = last.as_ref() {
        if *len == ir_source.len() && *id == config_id && head[..] == ir_source[..head.len()] {
            return to_compile_result(Ok(result.clone()));
        }
    }
    let result = compile_inner(ir_source.to_vec(), config_id);
    if let Ok(r) = &result {
        let head = ir_source[..ir_source.len().min(64)].to_vec();
        *last = Some((ir_source.len(), config_id, head, r.clone()));
    }
    to_compile_result(result)"""),
   ("/expander_compiler/ec_go_lib/src/compile.rs", "#[repr(C)]\npub struct CompileResult", """type Compiled = (Vec<u8>, Vec<u8>);
static LAST: std::sync::Mutex<Option<(usize, u64, Vec<u8>, Compiled)>> =
    std::sync::Mutex::new(None);

#[repr(C)]
pub struct CompileResult""")],
  needs="two circuits of the same size whose first 64 bytes agree, compiled one after the other",
  breaks="the second call returns the artifacts of the first circuit",
  main='''use expander_compiler::circuit::config::M31Config;
use expander_compiler::circuit::ir::expr::{LinComb, LinCombTerm};
use expander_compiler::circuit::ir::source;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::circuit::config::CircuitField;
use vpshim::ExpSerde;
type F = CircuitField<M31Config>;
#[repr(C)]
#[derive(Clone, Copy)]
struct Bytes { data: *mut u8, length: u64 }
#[repr(C)]
#[derive(Clone, Copy)]
struct Answer { witness: Bytes, layered: Bytes, error: Bytes }
fn circuit(c: u32) -> Vec<u8> {
    let mut circuits = std::collections::HashMap::new();
    let lin = |v: usize, b: u32| source::Instruction::LinComb(LinComb { terms: vec![LinCombTerm { var: v, coef: F::from(3u32) }], constant: F::from(b) });
    circuits.insert(0, source::Circuit::<M31Config> {
        num_inputs: 2,
        instructions: vec![lin(1, 1), lin(2, 2), lin(3, 3), source::Instruction::Mul(vec![4, 5]), lin(6, c)],
        constraints: vec![source::Constraint { typ: source::ConstraintType::Zero, var: 7 }],
        outputs: vec![],
    });
    let r = source::RootCircuit::<M31Config> { num_public_inputs: 0, expected_num_output_zeroes: 0, circuits };
    let mut b = vec![];
    r.serialize_into(&mut b).unwrap();
    b
}
fn call(c: u32) -> Vec<u8> {
    let mut s = circuit(c);
    let a = Bytes { data: s.as_mut_ptr(), length: s.len() as u64 };
    let r = ec_go_lib::compile::compile(unsafe { std::mem::transmute_copy(&a) }, 1);
    let r: Answer = unsafe { std::mem::transmute_copy(&r) };
    if r.layered.length == 0 { std::process::exit(3); }
    unsafe { std::slice::from_raw_parts(r.layered.data, r.layered.length as usize) }.to_vec()
}
fn main() {
    let (a, b, c) = (call(5), call(6), call(5));
    std::process::exit((a != c || a == b) as i32);
}
'''),
]
