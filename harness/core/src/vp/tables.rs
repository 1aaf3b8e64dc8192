//! Built-in hints and unconstrained operators (F04). See specs/Tables.tla.
use super::fields::*;
use super::gen::{self, Rng};
use super::pipe::panic_msg;
use super::prog::*;
use crate::circuit::ir::source::UnconstrainedBinOpType as Bin;
use crate::field::{Field, FieldArith};
use crate::hints::registry::{hint_key_to_id, EmptyHintCaller, HintCaller, HintRegistry, StubHintCaller};
use crate::hints::{self, BuiltinHintIds};
use crate::utils::error::Error;
use ethnum::U256;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn bin(k: usize) -> Bin {
    use Bin::*;
    match BIN[k] {
        "Div" => Div,
        "Pow" => Pow,
        "IntDiv" => IntDiv,
        "Mod" => Mod,
        "ShiftL" => ShiftL,
        "ShiftR" => ShiftR,
        "LesserEq" => LesserEq,
        "GreaterEq" => GreaterEq,
        "Lesser" => Lesser,
        "Greater" => Greater,
        "Eq" => Eq,
        "NotEq" => NotEq,
        "BoolOr" => BoolOr,
        "BoolAnd" => BoolAnd,
        "BitOr" => BitOr,
        "BitAnd" => BitAnd,
        "BitXor" => BitXor,
        _ => unreachable!(),
    }
}
fn got<T: Field>(f: impl FnOnce() -> Result<Vec<T>, Error>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => jfs(&v),
        Ok(Err(_)) => json!(["err"]),
        Err(e) => json!(["panic", panic_msg(&e)]),
    }
}
/// edge values of a field
fn edge<T: Field>(r: &mut Rng) -> T {
    let m = T::MODULUS;
    let one = U256::from(1u32);
    let x = match r.below(9) {
        0 => U256::from(r.below(4) as u32),
        1 => m - 1 - U256::from(r.below(4) as u32) % m,
        2 => m / 2 - 1 + U256::from(r.below(4) as u32),
        3 => U256::from(r.below(300) as u32),
        4 => m - 1 - U256::from(r.below(300) as u32) % m,
        5 => (one << (r.below(254) as u32)) - r.below(2) as u128,
        6 => (one << (60 + r.below(8) as u32)) + U256::from(r.below(3) as u32),
        7 => U256::from(r.next()),
        _ => return gen::big(r),
    };
    T::from_u256(x % m)
}
fn one<T: Field>(kind: &str, h: usize, a: &[T], n: usize) -> Value {
    let v = a.to_vec();
    let id = hint_id(HINTS[h]);
    let mut l = json!({"kind": kind, "p": jmod::<T>(), "h": HINTS[h], "a": jfs(a), "n": n, "b": got(|| Ok(hints::stub_impl(id, &v, n))),
        "s": got(|| StubHintCaller.call(id, &v, n))});
    if HINTS[h] == "ToBinary" {
        l["t"] = got(|| hints::to_binary(a[0], n));
    }
    l
}
fn ops<T: Field>(k: usize, pairs: &[(T, T)]) -> Value {
    let h = HINTS.iter().position(|x| *x == BIN[k]).unwrap();
    let id = hint_id(HINTS[h]);
    json!({"kind": "op", "p": jmod::<T>(), "h": BIN[k],
        "x": pairs.iter().map(|t| jf(&t.0)).collect::<Vec<_>>(), "y": pairs.iter().map(|t| jf(&t.1)).collect::<Vec<_>>(),
        "e": pairs.iter().map(|t| got(|| bin(k).eval(&t.0, &t.1).map(|x| vec![x]))).collect::<Vec<_>>(),
        "b": pairs.iter().map(|t| got(|| Ok(hints::stub_impl(id, &vec![t.0, t.1], 1)))).collect::<Vec<_>>()})
}
fn name(id: usize) -> String {
    match BuiltinHintIds::from_usize(id) {
        None => String::new(),
        Some(x) => {
            let k = x as u64 as usize;
            HINTS.get(k.wrapping_sub(HINT_BASE)).map(|x| x.to_string()).unwrap_or(format!("?{k}"))
        }
    }
}
fn field<T: Field>(r: &mut Rng) -> Value {
    let tiny = T::MODULUS <= U256::from(100u32);
    let p = T::MODULUS.as_u64() as usize;
    match r.below(10) {
        0..=5 => {
            let k = r.below(17);
            let pairs: Vec<(T, T)> = if tiny && p <= 13 {
                (0..p * p).map(|i| (T::from((i / p) as u32), T::from((i % p) as u32))).collect()
            } else {
                (0..40).map(|_| (edge(r), edge(r))).collect()
            };
            ops(k, &pairs)
        }
        6 | 7 => {
            let x: T = if r.pct(60) { edge(r) } else { gen::val(r) };
            let len = 256 - x.to_u256().leading_zeros() as usize;
            let n = match r.below(5) {
                0 => len,
                1 => len + r.below(3),
                2 => len.saturating_sub(1),
                3 => r.below(270),
                _ => r.range(1, 300),
            };
            one("hint", 19, &[x], n)
        }
        8 => one("hint", 9, &[if r.pct(40) { T::ZERO } else { edge(r) }, edge(r), edge(r)], 1),
        _ => {
            let n = r.range(1, 6);
            let a: Vec<T> = (0..n).map(|_| edge(r)).collect();
            one("hint", 0, &a, n)
        }
    }
}
fn twice<T: Field>(a: &[T], o: &mut [T]) -> Result<(), Error> {
    for (i, x) in o.iter_mut().enumerate() {
        *x = a[i % a.len()] + a[0];
    }
    Ok(())
}
fn thrice<T: Field>(a: &[T], o: &mut [T]) -> Result<(), Error> {
    if a[0] == T::ONE {
        return Err(Error::UserError("one".into()));
    }
    for x in o.iter_mut() {
        *x = a[0] + a[0] + a[0];
    }
    Ok(())
}
/// a history of registrations and calls
fn registry<T: Field>(r: &mut Rng) -> Value {
    let keys = ["a", "b", "vp.double", "", "double", "Ab", "bA"];
    let mut reg: HintRegistry<T> = HintRegistry::new();
    let mut ops = vec![];
    for _ in 0..r.range(3, 12) {
        let k = r.pick(&keys);
        if r.pct(40) {
            let f: fn(&[T], &mut [T]) -> Result<(), Error> = if r.pct(50) { twice } else { thrice };
            let w = if f == (twice as fn(&[T], &mut [T]) -> Result<(), Error>) { 2 } else { 3 };
            // a registry that refused is not used again
            let ok = catch_unwind(AssertUnwindSafe(|| reg.register(k, f))).is_ok();
            ops.push(json!({"o": "reg", "key": k, "w": w, "got": [if ok { "ok" } else { "panic" }], "a": [], "n": 0}));
        } else {
            let a: Vec<T> = (0..r.range(1, 3)).map(|_| gen::val(r)).collect();
            let n = r.range(1, 4);
            let id = hint_key_to_id(k);
            let w = r.below(3);
            let g = match w {
                0 => got(|| reg.call(id, &a, n)),
                1 => got(|| HintCaller::call(&reg, id, &a, n)),
                _ => got(|| EmptyHintCaller::new().call(id, &a, n)),
            };
            ops.push(json!({"o": if w == 2 { "empty" } else { "call" }, "key": k, "w": 0, "got": g, "a": jfs(&a), "n": n}));
        }
    }
    json!({"kind": "registry", "p": jmod::<T>(), "ops": ops})
}
fn fixed(id: usize, r: &mut Rng) -> Option<Value> {
    Some(match id {
        // every identifier around the built-in ones
        0..=19 => {
            let from = id as i64 * 20 - 200;
            let got: Vec<String> = (from..from + 20).map(|k| name((HINT_BASE as i64 + k) as usize)).collect();
            json!({"kind": "ids", "from": from, "got": got})
        }
        20 => {
            let ids = vec![0usize, 1, usize::MAX, HINT_BASE & 0xffff_ffff, HINT_BASE << 4, HINT_BASE | 1 << 63, HINT_BASE / 16, HINT_BASE ^ 1 << 32];
            let got: Vec<String> = ids.into_iter().chain((0..500).map(|_| r.next() as usize)).map(name).collect();
            json!({"kind": "far", "got": got})
        }
        // arities: built-in (0..19) and custom (20)
        21..=41 => {
            let k = id - 21;
            let hid = if k < 20 { HINT_BASE + k } else { hint_id("vp.lin") };
            let ns = [0usize, 1, 2, 3, 4, 5, 300];
            let got: Vec<Vec<bool>> = ns.iter().map(|i| ns.iter().map(|o| hints::validate_hint(hid, *i, *o).is_ok()).collect()).collect();
            json!({"kind": "arity", "h": if k < 20 { HINTS[k] } else { "custom" }, "ns": ns, "got": got})
        }
        42..=61 => {
            let key: String = match id {
                42 => String::new(),
                43 => "a".into(),
                44 => "myhint.querybigints".into(),
                // lengths around the block of the hash function
                45..=49 => (0..132 + id - 45).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
                50 => (0..272).map(|_| 'x').collect(),
                _ => {
                    let mut s: String = (0..r.range(1, 60)).map(|_| (32 + r.below(95)) as u8 as char).collect();
                    if r.pct(50) {
                        s.push('é');
                    }
                    s
                }
            };
            let got = hint_key_to_id(&key) as u64;
            json!({"kind": "key", "key": key.as_bytes(), "got": (0..64).map(|i| got >> i & 1).collect::<Vec<_>>()})
        }
        62..=70 => {
            let (h, i, o) = hints::random_builtin(SmallRng(r.next()));
            json!({"kind": "random", "h": name(h), "i": i, "o": o})
        }
        _ => return None,
    })
}
struct SmallRng(u64);
impl rand::RngCore for SmallRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let mut r = Rng(self.0);
        let x = r.next();
        self.0 = r.0;
        x
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// tables PROP SEED COUNT OUT [ONLY]
pub fn main(a: &[String]) {
    let seed: u64 = a[1].parse().unwrap();
    let count: usize = a[2].parse().unwrap();
    let only: Option<usize> = a.get(4).and_then(|x| x.parse().ok());
    let lines = super::par::run(count, only, &a[3], |id| {
        let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(id as u64) ^ 0x7ab1e);
        let mut v = match fixed(id, &mut r) {
            Some(v) => v,
            None if r.pct(8) => match r.below(2) {
                0 => registry::<Fp7>(&mut r),
                _ => registry::<crate::field::BN254Fr>(&mut r),
            },
            None => match r.below(9) {
                0 => field::<F<T2>>(&mut r),
                1 => field::<F<T3>>(&mut r),
                2 => field::<F<T5>>(&mut r),
                3 => field::<F<T7>>(&mut r),
                4 => field::<F<T13>>(&mut r),
                5 => field::<F<M31Config>>(&mut r),
                6 => field::<F<T97>>(&mut r),
                7 => field::<F<GoldilocksConfig>>(&mut r),
                _ => field::<F<BN254Config>>(&mut r),
            },
        };
        v["id"] = json!(id);
        vec![v]
    });
    let mut kinds = std::collections::BTreeMap::<String, usize>::new();
    for l in &lines {
        let mut k = l["kind"].as_str().unwrap_or("panic").to_string();
        if let Some(h) = l["h"].as_str() {
            k += &format!(" {h}");
        }
        *kinds.entry(k).or_default() += 1;
    }
    super::par::write(&a[3], &lines, json!({"scenarios": count, "kinds": kinds}));
}
type Fp7 = F<T7>;
