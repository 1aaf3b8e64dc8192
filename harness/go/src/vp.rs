//! Calls of the library's C interface (L01); specs/GoLib.tla says what has to come back.
use expander_compiler::circuit::config::{BN254Config, BabyBearConfig, CircuitField, Config, GF2Config, GoldilocksConfig, M31Config};
use expander_compiler::circuit::{ir, layered::NormalInputType};
use expander_compiler::compile;
use expander_compiler::field::{Field, FieldArith};
use expander_compiler::vp::gen::{self, Lvl, Rng};
use expander_compiler::vp::{par, pipe, prog};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use vpshim::ExpSerde;

// the structures as a caller in C declares them
#[repr(C)]
#[derive(Clone, Copy)]
struct Bytes {
    data: *mut u8,
    length: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Answer {
    witness: Bytes,
    layered: Bytes,
    error: Bytes,
}
fn take(b: Bytes) -> Vec<u8> {
    if b.length == 0 {
        return vec![];
    }
    let v = unsafe { std::slice::from_raw_parts(b.data, b.length as usize) }.to_vec();
    unsafe { libc::free(b.data as *mut libc::c_void) };
    v
}
fn call(s: &[u8], id: u64) -> (Vec<u8>, Vec<u8>, Vec<u8>, bool) {
    let mut own = s.to_vec();
    own.reserve(1);
    let a = Bytes { data: own.as_mut_ptr(), length: own.len() as u64 };
    let r = crate::compile::compile(unsafe { std::mem::transmute_copy(&a) }, id);
    assert_eq!(std::mem::size_of_val(&r), std::mem::size_of::<Answer>());
    let r: Answer = unsafe { std::mem::transmute_copy(&r) };
    let kept = own == s;
    (take(r.witness), take(r.layered), take(r.error), kept)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// what the library itself makes of the bytes
fn library<C: Config>(s: &[u8]) -> Value {
    let none = |st: &str, msg: String| json!({"st": st, "msg": msg, "w": "", "l": ""});
    let src = match catch_unwind(AssertUnwindSafe(|| ir::source::RootCircuit::<C>::deserialize_from(s))) {
        Ok(Ok(x)) => x,
        Ok(Err(_)) => return none("unread", String::new()),
        Err(e) => return none("panic", par::panic_msg(&e)),
    };
    match catch_unwind(AssertUnwindSafe(|| compile::compile::<_, NormalInputType>(&src))) {
        Ok(Ok((w, l))) => {
            let (mut a, mut b) = (vec![], vec![]);
            w.serialize_into(&mut a).unwrap();
            l.serialize_into(&mut b).unwrap();
            json!({"st": "ok", "msg": "", "w": hex(&a), "l": hex(&b)})
        }
        Ok(Err(e)) => none("refused", e.to_string()),
        Err(e) => none("panic", par::panic_msg(&e)),
    }
}
fn of(id: u64, s: &[u8]) -> Value {
    match id {
        1 => library::<M31Config>(s),
        2 => library::<BN254Config>(s),
        3 => library::<GF2Config>(s),
        4 => library::<GoldilocksConfig>(s),
        _ => json!({"st": "none", "msg": "", "w": "", "l": ""}),
    }
}
/// a source file, and another one that differs from it in one place
fn source<C: Config>(r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let o = pipe::opts(r, Lvl::Source, gen::is_tiny::<CircuitField<C>>());
    let (mut p, _, _) = gen::prog::<CircuitField<C>>(r, &o);
    // not well formed, sometimes
    if r.pct(15) {
        let k = r.below(p.c.len());
        match r.below(3) {
            0 => p.c[k].n += 1,
            1 => p.c[k].z.push(1000),
            _ => {
                p.c[k].i.pop();
            }
        }
    }
    let mut q = p.clone();
    for _ in 0..20 {
        let k = r.below(q.c.len());
        let c = &mut q.c[k];
        let n = c.i.len();
        match r.below(5) {
            0 if !c.z.is_empty() => {
                let j = r.below(c.z.len());
                c.z[j] = r.range(1, c.n.max(1));
            }
            1 if !c.k.is_empty() => {
                let j = r.below(c.k.len());
                c.k[j].0 = r.range(1, 3) as u8;
            }
            _ if n > 0 => match &mut c.i[r.below(n)] {
                prog::I::Lin { c, .. } => *c += CircuitField::<C>::one(),
                prog::I::Mul(v) | prog::I::Call { v, .. } | prog::I::Hint { v, .. } if v.len() > 1 => v.reverse(),
                prog::I::Const(prog::K::C(c)) => *c += CircuitField::<C>::one(),
                prog::I::Div { k, .. } => *k = !*k,
                prog::I::Bool { b, .. } => *b = *b % 3 + 1,
                _ => {}
            },
            _ => {}
        }
        if q != p {
            break;
        }
    }
    let (mut b, mut d) = (vec![], vec![]);
    prog::to_source::<C>(&p).serialize_into(&mut b).unwrap();
    prog::to_source::<C>(&q).serialize_into(&mut d).unwrap();
    (b, d)
}
fn line(r: &mut Rng) -> Value {
    let mut calls = vec![];
    let mut kept: Vec<(u64, bool, Vec<u8>, Vec<u8>)> = vec![];
    for _ in 0..r.range(1, 4) {
        // the same request again, or one that differs little, or a new one
        let (cfg, mut whole, mut s, mut other) = if !kept.is_empty() && r.pct(40) {
            r.pick(&kept)
        } else {
            let cfg = r.pick(&[1u64, 1, 2, 3, 3, 4, 5]);
            let s = match cfg {
                1 => source::<M31Config>(r),
                2 => source::<BN254Config>(r),
                3 => source::<GF2Config>(r),
                4 => source::<GoldilocksConfig>(r),
                _ => source::<BabyBearConfig>(r),
            };
            (cfg, true, s.0, s.1)
        };
        if whole && r.pct(40) {
            std::mem::swap(&mut s, &mut other);
        }
        if whole && r.pct(20) {
            whole = false;
            match r.below(4) {
                0 => s.truncate(r.below(s.len())),
                1 => s.clear(),
                // (the file's mark and its field; a damaged size further on may well ask for more
                // memory than there is)
                2 => {
                    let i = r.below(40.min(s.len()));
                    s[i] ^= 1 << r.below(8);
                }
                _ => {
                    let i = r.below(8.min(s.len()));
                    s[i] = s[i].wrapping_add(1);
                }
            }
        }
        let near = [cfg ^ 4, cfg + (1 << 32), cfg << 8, cfg + (1 << 8), 0, 5, 6, 7, u64::MAX, 1 + r.below(4) as u64];
        let id = if r.pct(70) { cfg } else { r.pick(&near) };
        let lib = of(id, &s);
        let got = if lib["st"] == "panic" {
            Value::Null
        } else {
            let (w, l, e, kept) = call(&s, id);
            json!({"w": hex(&w), "l": hex(&l), "e": String::from_utf8_lossy(&e), "utf": String::from_utf8(e.clone()).is_ok(), "kept": kept})
        };
        if got != Value::Null {
            calls.push(json!({"for": cfg, "id": id.to_string(), "whole": whole, "lib": lib, "got": got}));
        }
        kept.push((cfg, whole, s, other));
    }
    json!({"calls": calls, "abi": crate::abi_version() as u32})
}
/// go L01|L02 SEED COUNT OUT [ONLY]
pub fn main() {
    if std::env::var("VP_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = a[2].parse().unwrap();
    let count: usize = a[3].parse().unwrap();
    let only = a.get(5).map(|x| x.parse().unwrap());
    if a[1] == "L02" {
        return crate::cross::run(seed, count, &a[4], only);
    }
    if a[1] == "L03" {
        return crate::built::run(seed, count, &a[4], only);
    }
    assert!(a[0] == "go" && a[1] == "L01");
    let lines = par::run(count, only, &a[4], |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64));
        let mut v = line(&mut r);
        v["id"] = json!(id);
        vec![v]
    });
    let n = lines.len();
    par::write(&a[4], &lines, json!({"scenarios": n, "lines": n}));
}
