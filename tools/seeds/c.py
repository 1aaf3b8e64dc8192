B = "/circuit-std-rs/src/"
HEAD = '''use circuit_std_rs::utils::register_hint;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::frontend::*;
type C = M31Config;
type F = CircuitField<C>;
fn f(x: u32) -> F { F::from(x) }
fn honest() -> HintRegistry<M31> { let mut h = HintRegistry::<M31>::new(); register_hint(&mut h); h }
macro_rules! accepts { ($c:expr, $a:expr, $h:expr) => {{
    let r: CompileResult<C> = compile(&$c, CompileOptions::default()).unwrap();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match r.witness_solver.solve_witness_with_hints(&$a, &mut $h) {
        Err(_) => false,
        Ok(w) => r.layered_circuit.run(&w)[0],
    })).unwrap_or(false)
}} }
'''
EMU = HEAD + '''use circuit_std_rs::gnark::element::*;
use circuit_std_rs::gnark::emparam::Bls12381Fp;
use circuit_std_rs::gnark::field::GField;
fn limbs(mut x: u128) -> [F; 48] {
    let mut r = [f(0); 48];
    for l in r.iter_mut() { *l = f((x & 255) as u32); x >>= 8; }
    r
}
'''
SEEDS = [
dict(id="S01-cols", prop="S01", kind="std",
  edits=[(B+"logup.rs", """    for _ in 1..n_columns {
        randomness.push(builder.get_random_value());
    }""", """    for i in 1..n_columns {
        if i <= 4 {
            randomness.push(builder.get_random_value());
        } else {
            randomness.push(randomness[i - 4]);
        }
    }""")],
  needs="a table with more than five columns and a query whose values are exchanged between columns four apart",
  breaks="a row that is not in the table is accepted as a query result",
  main=HEAD+'''use circuit_std_rs::logup::LogUpSingleKeyTable;
declare_circuit!(D { key: Variable, row: [Variable; 6] });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let mut t = LogUpSingleKeyTable::new(8);
        for i in 0..3u32 {
            let k = b.constant(i);
            let v: Vec<Variable> = (0..6).map(|j| b.constant(100 * i + 7 * j + 1)).collect();
            t.add_table_row(k, v);
        }
        t.query(self.key, self.row.to_vec());
        t.final_check(b);
    }
}
fn main() {
    let row = |k: u32| { let mut r = [f(0); 6]; for j in 0..6 { r[j] = f(100 * k + 7 * j as u32 + 1); } r };
    let good = D::<F> { key: f(1), row: row(1) };
    let mut x = row(1);
    x.swap(0, 4);
    let bad = D::<F> { key: f(1), row: x };
    let ok = accepts!(D::<Variable>::default(), good, honest()) && !accepts!(D::<Variable>::default(), bad, honest());
    std::process::exit(!ok as i32);
}
'''),
dict(id="S02-again", prop="S02", kind="std",
  edits=[(B+"logup.rs", """        if n > 128 {
            panic!("n must be less than 128");
        }
""", """        if n > 128 {
            panic!("n must be less than 128");
        }
        if n < self.rangeproof_bits && self.query_keys.iter().any(|k| k.id() == a.id()) {
            // its range was checked before
            return;
        }
""")],
  needs="one variable checked first against a wide range, later against a narrower one",
  breaks="a value outside the narrower range is accepted",
  main=HEAD+'''use circuit_std_rs::logup::LogUpRangeProofTable;
declare_circuit!(D { x: Variable });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let mut t = LogUpRangeProofTable::new(8);
        t.initial(b);
        t.rangeproof(b, self.x, 8);
        t.rangeproof(b, self.x, 3);
        t.final_check(b);
    }
}
fn main() {
    // counts of what is in the table
    let own = || { let mut h = HintRegistry::<M31>::new(); h.register("myhint.querycounthint", |i: &[F], o: &mut [F]| {
        for x in i { for k in 0..o.len() { if *x == f(k as u32) { o[k] = o[k] + F::one(); } } }
        Ok(())
    }); h };
    let ok = accepts!(D::<Variable>::default(), D::<F> { x: f(7) }, own())
        && !accepts!(D::<Variable>::default(), D::<F> { x: f(9) }, own());
    std::process::exit(!ok as i32);
}
'''),
dict(id="S03-rows", prop="S03", kind="std",
  edits=[(B+"matmul.rs", """            for i in 0..m1 {
                builder.assert_is_equal(aux_first[i], aux_res[i]);
            }""", """            // one comparison for all rows
            let mut sum_first = zero;
            let mut sum_res = zero;
            for i in 0..m1 {
                sum_first = builder.add(sum_first, aux_first[i]);
                sum_res = builder.add(sum_res, aux_res[i]);
            }
            builder.assert_is_equal(sum_first, sum_res);""")],
  needs="a claimed product with errors that cancel out in a column",
  breaks="a wrong matrix is accepted as the product",
  main=HEAD+'''use circuit_std_rs::matmul::*;
use expander_compiler::frontend::internal::DumpLoadTwoVariables;
use circuit_std_rs::StdCircuit;
fn main() {
    let p = MatMulParams { m1: 2, n1: 2, m2: 2, n2: 2 };
    let c = <MatMulCircuit as StdCircuit<C>>::new_circuit(&p);
    let with = |r: [u32; 4]| {
        let mut a = <MatMulCircuit as StdCircuit<C>>::new_assignment(&p, rand::thread_rng());
        let v: Vec<F> = [1, 2, 3, 4, 5, 6, 7, 8].iter().chain(r.iter()).map(|x| f(*x)).collect();
        a.load_from(&mut &v[..], &mut &[][..]);
        a
    };
    let good = accepts!(c, with([19, 22, 43, 50]), honest());
    let bad = accepts!(c, with([19, 22, 44, 50]), honest()) || accepts!(c, with([20, 22, 42, 50]), honest());
    std::process::exit(!(good && !bad) as i32);
}
'''),
dict(id="S04-block", prop="S04", kind="std",
  edits=[(B+"sha256/m31.rs", "    let n_bytes = (n * 8).to_be_bytes().to_vec();", "    let n_bytes = ((n % 256) * 8).to_be_bytes().to_vec();")],
  needs="a message of 256 bytes or more",
  breaks="the digest of a message of 256 bytes or more is wrong",
  main=HEAD+'''use circuit_std_rs::sha256::m31::sha256_var_bytes;
use sha2::{Digest, Sha256};
declare_circuit!(D { m: [Variable; 256], d: [Variable; 32] });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let r = sha256_var_bytes(b, &self.m);
        for i in 0..32 { b.assert_is_equal(r[i], self.d[i]); }
    }
}
fn main() {
    let msg: Vec<u8> = (0..256u32).map(|i| (i * 7 + 3) as u8).collect();
    let want = Sha256::digest(&msg);
    let mut a = D::<F> { m: [f(0); 256], d: [f(0); 32] };
    for i in 0..256 { a.m[i] = f(msg[i] as u32); }
    for i in 0..32 { a.d[i] = f(want[i] as u32); }
    let ok = std::panic::catch_unwind(|| expander_compiler::frontend::extra::debug_eval(&D::<Variable>::default(), &a, EmptyHintCaller)).is_ok();
    std::process::exit(!ok as i32);
}
'''),
dict(id="S05-copy", prop="S05", kind="std",
  edits=[(B+"poseidon/poseidon_m31.rs", "            assert_vars_is_equal(api, &copy_res, &res);", "            let capacity = self.width - self.rate;\n            assert_vars_is_equal(api, &copy_res[capacity..], &res[capacity..]);")],
  needs="an input of two blocks and a prover who answers the copying hint with another capacity part",
  breaks="the flattened hash of two blocks accepts a state of the prover's choice in its capacity part",
  main=HEAD+'''use circuit_std_rs::poseidon::poseidon_m31::PoseidonM31Params;
use expander_compiler::hints::registry::*;
declare_circuit!(D { m: [Variable; 16], y: [Variable; 16] });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let p = PoseidonM31Params::new(b, 8, 16, 8, 14);
        let r = p.hash_to_state_flatten(b, &self.m);
        let s = p.hash_to_state(b, &self.m);
        for i in 0..16 { let d = b.sub(r[i], s[i]); b.assert_is_equal(d, self.y[i]); }
    }
}
fn main() {
    // the difference is zero for everybody, whatever a prover says about copies
    let a = D::<F> { m: [f(5); 16], y: [f(0); 16] };
    let good = accepts!(D::<Variable>::default(), a, honest());
    // a lying prover: the first copy differs in the capacity part; it may only be refused
    #[derive(Clone)]
    struct Liar;
    let mut h = HintRegistry::<M31>::new();
    h.register("myhint.copyvarshint", |i: &[F], o: &mut [F]| { o.copy_from_slice(i); o[0] = o[0] + F::one(); Ok(()) });
    // with the lie the flattened state differs, so give the circuit the difference it computes: only outputs matter here
    let r = compile(&E::<Variable>::default(), CompileOptions::default()).unwrap();
    let w = r.witness_solver.solve_witness_with_hints(&E::<F> { m: [f(5); 16] }, &mut h).unwrap();
    let bad = r.layered_circuit.run(&w)[0];
    std::process::exit(!(good && !bad) as i32);
}
declare_circuit!(E { m: [Variable; 16] });
impl Define<C> for E<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let p = PoseidonM31Params::new(b, 8, 16, 8, 14);
        p.hash_to_state_flatten(b, &self.m);
    }
}
'''),
dict(id="S06-top", prop="S06", kind="std",
  edits=[(B+"non_native/u2048.rs", """            all_eq_so_far = builder.and(all_eq_so_far, curr_eq);

            // Assert""", """            all_eq_so_far = curr_eq;

            // Assert""")],
  needs="two numbers that differ in an upper limb, agree in the limb below and compare the other way in the limb after it",
  breaks="a larger number is said to be less than a smaller one",
  main='''use circuit_std_rs::non_native::u2048::*;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::frontend::*;
type C = BN254Config;
type F = CircuitField<C>;
declare_circuit!(D { a: [Variable; 18], b: [Variable; 18], lt: Variable });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let x = U2048Variable::from_raw(self.a);
        let y = U2048Variable::from_raw(self.b);
        let r = x.assert_is_less_than(&y, b);
        b.assert_is_equal(r, self.lt);
    }
}
fn main() {
    let mut x = [F::from(0u32); 18];
    let mut y = [F::from(0u32); 18];
    x[10] = F::from(9u32);
    y[10] = F::from(4u32);
    y[3] = F::from(1u32);
    let a = D::<F> { a: x, b: y, lt: F::from(0u32) };
    let ok = std::panic::catch_unwind(|| expander_compiler::frontend::extra::debug_eval(&D::<Variable>::default(), &a, EmptyHintCaller)).is_ok();
    std::process::exit(!ok as i32);
}
'''),
dict(id="S07-ands", prop="S07", kind="std",
  edits=[(B+"sha256/m31_utils.rs", """            ands[i] = api.and(eq_ands[i + 1], lt[i]);""", """            ands[i] = api.and(eq[i + 1], lt[i]);""")],
  needs="numbers of at least three limbs whose deciding limb is not next to the equal one",
  breaks="big_less_than says 1 for a number that is larger",
  main=HEAD+'''use circuit_std_rs::sha256::m31_utils::big_less_than;
declare_circuit!(D { a: [Variable; 4], b: [Variable; 4], lt: Variable });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let r = big_less_than(b, 8, 4, &self.a, &self.b);
        b.assert_is_equal(r, self.lt);
    }
}
fn main() {
    let v = |x: [u32; 4]| [f(x[0]), f(x[1]), f(x[2]), f(x[3])];
    let a = D::<F> { a: v([1, 5, 5, 9]), b: v([2, 5, 5, 3]), lt: f(0) };
    let ok = accepts!(D::<Variable>::default(), a, honest());
    std::process::exit(!ok as i32);
}
'''),
dict(id="S08-overflow", prop="S08", kind="std",
  edits=[(B+"gnark/field.rs", "        let next_overflow = std::cmp::max(new_a.overflow, new_b.overflow) + 1;", """        let next_overflow = if new_a.overflow == new_b.overflow {
            new_a.overflow + 1
        } else {
            std::cmp::max(new_a.overflow, new_b.overflow)
        };""")],
  needs="several additions of elements of unequal overflow, and then a subtraction",
  breaks="limbs outgrow the overflow that is accounted for; an honest prover is refused",
  main=EMU+'''declare_circuit!(D { a: [Variable; 48], want: [Variable; 48] });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let mut fp = GField::new(b, Bls12381Fp {});
        let a = new_internal_element::<Bls12381Fp>(self.a.to_vec(), 0);
        let w = new_internal_element::<Bls12381Fp>(self.want.to_vec(), 0);
        let mut s = a.clone();
        for _ in 0..16 { s = fp.add(b, &s, &a); }
        let n = fp.neg(b, &s);
        let one = fp.one_const.clone();
        let n = fp.mul(b, &n, &one);
        let z = fp.add(b, &n, &w);
        let zero = fp.zero_const.clone();
        fp.assert_is_equal(b, &z, &zero);
        fp.check_mul(b);
        fp.table.final_check(b);
    }
}
fn main() {
    let x = 0xffff_ffff_ffff_ffff_ffffu128;
    let a = D::<F> { a: limbs(x), want: limbs(17 * x) };
    let ok = accepts!(D::<Variable>::default(), a, honest());
    std::process::exit(!ok as i32);
}
'''),
dict(id="S08-select", prop="S08", kind="std",
  edits=[(B+"gnark/field.rs", """        let overflow = std::cmp::max(a.overflow, b.overflow);
        let nb_limbs""", """        let overflow = a.overflow;
        let nb_limbs""")],
  needs="a selection whose second operand has the larger overflow, taken, and subtracted from something",
  breaks="limbs outgrow the overflow that is accounted for; an honest prover is refused",
  main=EMU+'''declare_circuit!(D { a: [Variable; 48], s: Variable, want: [Variable; 48] });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let mut fp = GField::new(b, Bls12381Fp {});
        let a = new_internal_element::<Bls12381Fp>(self.a.to_vec(), 0);
        let w = new_internal_element::<Bls12381Fp>(self.want.to_vec(), 0);
        let mut m = a.clone();
        for _ in 0..6 { m = fp.add(b, &m, &m); }
        let x = fp.select(b, self.s, &a, &m);
        let n = fp.neg(b, &x);
        let one = fp.one_const.clone();
        let n = fp.mul(b, &n, &one);
        let z = fp.add(b, &n, &w);
        let zero = fp.zero_const.clone();
        fp.assert_is_equal(b, &z, &zero);
        fp.check_mul(b);
        fp.table.final_check(b);
    }
}
fn main() {
    let x = 0xffff_ffff_ffff_ffff_ffffu128;
    let ok = accepts!(D::<Variable>::default(), D::<F> { a: limbs(x), s: f(1), want: limbs(x) }, honest())
        && accepts!(D::<Variable>::default(), D::<F> { a: limbs(x), s: f(0), want: limbs(64 * x) }, honest());
    std::process::exit(!ok as i32);
}
'''),
dict(id="S09-lines", prop="S09", kind="std",
  edits=[(B+"gnark/emulated/sw_bls12381/g1.rs", """        let ypyp = self.curve_f.add(native, &p.y, &p.y);
        let x2xp""", """        let ypyp = self.curve_f.add(native, &p.y, &q.y);
        let x2xp""")],
  needs="a double-and-add of two different points",
  breaks="double_and_add(p, q) is no longer 2p + q",
  main=HEAD+'''use circuit_std_rs::gnark::emulated::sw_bls12381::g1::*;
declare_circuit!(D { x: Variable });
impl Define<C> for D<Variable> {
    fn define<B: RootAPI<C>>(&self, b: &mut B) {
        let mut g = G1::new(b);
        let p = G1Affine::one(b);
        let q = g.double(b, &p);
        let r = g.double(b, &q);
        let a = g.double_and_add(b, &q, &r);
        let e = g.double(b, &r);
        g.assert_is_equal(b, &a, &e);
        g.curve_f.check_mul(b);
        g.curve_f.table.final_check(b);
    }
}
fn main() {
    let ok = accepts!(D::<Variable>::default(), D::<F> { x: f(0) }, honest());
    std::process::exit(!ok as i32);
}
'''),
]
