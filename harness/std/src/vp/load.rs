//! Circuits that are given as text, one gate per line (F06).
use super::*;
use expander_compiler::utils::interpreter_loader::M31Loader;

/// the lines of a program, from their description
fn text(ops: &Value) -> String {
    let mut s = String::new();
    for o in ops.as_array().unwrap() {
        let n = |k: &str| o[k].as_u64().unwrap().to_string();
        let args: Vec<String> = o["a"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| if a["k"] == "v" { format!("v{}", a["n"]) } else { a["c"].as_str().unwrap().into() })
            .collect();
        let name = o["o"].as_str().unwrap();
        let mut t = vec![name.to_string()];
        if name == "store" {
            t.extend(["o".into(), n("i"), n("j")]);
        } else if name == "num_args" || name == "input" || name == "output" {
            t.push(n("i"));
        } else {
            t.push(format!("=v{}", n("l")));
        }
        match name {
            "decompose" if args.is_empty() => t.extend(["i".into(), n("i"), n("j"), n("n")]),
            "zk.m31.compose" | "compose" => t.push(args.len().to_string()),
            _ => {}
        }
        t.extend(args);
        if name == "extractbit" || name == "zk.m31.extract" {
            t.push(n("i"));
        }
        s += &t.join(" ");
        s += "\n";
    }
    s
}
fn to_binary<F: Field>(x: &[F], y: &mut [F]) -> Result<(), Error> {
    let v = x[0].to_u256();
    for (i, o) in y.iter_mut().enumerate() {
        *o = F::from(((v >> i as u32) & U256::ONE).as_u32());
    }
    Ok(())
}
pub fn hints<F: Field>() -> HintRegistry<F> {
    let mut r = HintRegistry::<F>::new();
    r.register("myhint.tobinary", to_binary);
    r
}
pub fn build<C: Config, B: RootAPI<C>>(b: &mut B, g: &Gad, x: &[Variable]) -> Option<Vec<Variable>> {
    if g.g != "load" {
        return None;
    }
    let mut groups = vec![];
    let mut at = 0;
    for n in &g.k {
        groups.push(x[at..at + n].to_vec());
        at += n;
    }
    let name = std::env::temp_dir().join(format!("vpload.{}.{:?}", std::process::id(), std::thread::current().id()));
    std::fs::write(&name, text(&g.ops)).unwrap();
    let mut out: Vec<Vec<Vec<Variable>>> = vec![];
    let got = catch_unwind(AssertUnwindSafe(|| M31Loader::new().load(name.to_str().unwrap(), &groups, &mut out, b)));
    std::fs::remove_file(&name).unwrap();
    if let Err(e) = got {
        std::panic::resume_unwind(e);
    }
    // the shape of what was stored, and the values
    let mut r = vec![b.constant(out.len() as u32)];
    for o in &out {
        r.push(b.constant(o.len() as u32));
        for v in o {
            r.push(b.constant(v.len() as u32));
            r.extend(v);
        }
    }
    Some(r)
}
/// what is known of a value
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Bit,
    Any,
    Bits(usize),
    Wide,
}
pub fn gen(_id: usize, r: &mut Rng) -> Sc {
    let cfg = r.pick(&["M31", "M31", "M31", "Goldilocks", "BN254"]);
    let m = modulus(cfg);
    let k: Vec<usize> = (0..r.range(1, 3)).map(|_| r.range(1, 3)).collect();
    let total: usize = k.iter().sum();
    let mut syms: Vec<Kind> = vec![];
    let mut ops: Vec<Value> = vec![];
    let v = |n: usize| json!({"k": "v", "n": n, "c": ""});
    let c = |s: String| json!({"k": "c", "n": 0, "c": s});
    let op = |o: &str, l: usize, a: Vec<Value>, i: usize, j: usize, n: usize| json!({"o": o, "l": l, "a": a, "i": i, "j": j, "n": n});
    for h in ["num_args", "input", "output"] {
        if r.pct(40) {
            ops.push(op(h, 0, vec![], r.below(4), 0, 0));
        }
    }
    let broken = r.pct(8);
    let len = r.range(3, 16);
    // a long carry chain is wanted, sometimes
    let ones = r.pct(30);
    for _ in 0..len {
        let l = syms.len();
        let z = r.next() as u32;
        let of = |f: &dyn Fn(Kind) -> bool| -> Vec<usize> { (0..syms.len()).filter(|i| f(syms[*i])).collect() };
        let bits = of(&|k| k == Kind::Bit);
        let scalars = of(&|k| k == Kind::Bit || k == Kind::Any);
        let many = of(&|k| matches!(k, Kind::Bits(_)));
        let wides = of(&|k| k == Kind::Wide);
        let word = |r: &mut Rng| c(r.pick(&[0, 1, (1 << 30) - 1, (1 << 31) - 1, u32::MAX, z]).to_string());
        let bit = |r: &mut Rng| if bits.is_empty() || r.pct(if ones { 60 } else { 20 }) { c(if ones || r.pct(50) { "1".into() } else { "0".into() }) } else { v(r.pick(&bits)) };
        let any = |r: &mut Rng| if scalars.is_empty() || r.pct(25) { word(r) } else { v(r.pick(&scalars)) };
        let (new, kind) = match r.below(13) {
            0 | 1 => {
                let i = r.below(k.len());
                let n = r.pick(&[1, 2, 8, 30, 31, 32]);
                (op("decompose", l, vec![], i, r.below(k[i]), n), Kind::Bits(n))
            }
            2 => (op("decompose", l, vec![any(r)], 0, 0, 0), Kind::Bits(30)),
            3 | 4 if !many.is_empty() => {
                let s = r.pick(&many);
                let Kind::Bits(n) = syms[s] else { unreachable!() };
                (op("extractbit", l, vec![v(s)], r.below(n), 0, 0), Kind::Bit)
            }
            5 | 6 => {
                let o = r.pick(&["xor", "and", "or"]);
                // not of bits, sometimes
                let a = if r.pct(6) { any(r) } else { bit(r) };
                (op(o, l, vec![a, bit(r)], 0, 0, 0), Kind::Bit)
            }
            7 => (op("mul", l, vec![any(r), any(r)], 0, 0, 0), Kind::Any),
            8 | 9 => {
                let n = r.pick(&[0, 1, 2, 29, 30, 31, 45, 59, 60, 60]);
                (op("zk.m31.compose", l, (0..n).map(|_| bit(r)).collect(), 0, 0, 0), Kind::Wide)
            }
            10 if !wides.is_empty() => (op("zk.m31.add", l, vec![v(r.pick(&wides)), v(r.pick(&wides))], 0, 0, 0), Kind::Wide),
            11 if !wides.is_empty() => (op("zk.m31.extract", l, vec![v(r.pick(&wides))], r.below(2), 0, 0), Kind::Any),
            12 => {
                let n = r.range(0, 33);
                (op("compose", l, (0..n).map(|_| if r.pct(85) { bit(r) } else { any(r) }).collect(), 0, 0, 0), Kind::Any)
            }
            _ if l > 0 => {
                ops.push(op("store", 0, vec![v(r.below(l))], r.below(3), r.below(3), 0));
                continue;
            }
            _ => continue,
        };
        ops.push(new);
        syms.push(kind);
    }
    let n = syms.len();
    for i in 0..n {
        if r.pct(40) {
            ops.push(op("store", 0, vec![v(n - 1 - i)], r.below(3), r.below(3), 0));
        }
    }
    if broken && !ops.is_empty() {
        let i = r.below(ops.len());
        match r.below(4) {
            // the names of values are counted
            0 if ops[i]["o"] != "store" && ops[i]["o"] != "input" && ops[i]["o"] != "num_args" && ops[i]["o"] != "output" => ops[i]["l"] = json!(ops[i]["l"].as_u64().unwrap() + 1),
            1 => ops[i]["o"] = json!("nand"),
            // a value that is not there
            2 if ops[i]["a"].as_array().unwrap().len() > 0 => ops[i]["a"][0] = v(n + r.below(2)),
            _ if n > 0 => ops.push(op("mul", n, vec![v(r.below(n)), c("3".into())], 0, 0, 0)),
            _ => {}
        }
    }
    let val = |r: &mut Rng| choose!(r; edgy(r, m), u(r.below(2)), pow2(30) - U256::ONE, below(r, pow2(30)), edgy(r, pow2(30)));
    let x: Vec<U256> = (0..total).map(|_| val(r)).collect();
    let more = (0..3).map(|_| (0..total).map(|_| val(r)).collect()).collect();
    Sc { cfg, reps: 1, full: !broken && r.pct(40), gad: Gad { g: "load".into(), k, ops: Value::Array(ops) }, x, more, ..Default::default() }
}
