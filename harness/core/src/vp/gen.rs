//! Random programs, at the level of the source language, of each lower form, and layered
//! circuits.
use super::fields::F;
use super::prog::*;
use crate::circuit::config::Config;
use crate::circuit::layered::{self, Coef, Input, InputType, InputUsize};
use crate::field::Field;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def0);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true in p of 100 cases
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())].clone()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn is_tiny<T: Field>() -> bool {
    T::MODULUS <= ethnum::U256::from(1000u32)
}
/// any value, with a bias to 0, 1, -1, 2 and small ones
pub fn val<T: Field>(r: &mut Rng) -> T {
    match r.below(10) {
        0 => T::ZERO,
        1 => T::ONE,
        2 => -T::ONE,
        3 => T::from(2u32),
        4 | 5 => T::from(r.below(20) as u32),
        _ => big(r),
    }
}
pub fn big<T: Field>(r: &mut Rng) -> T {
    let mut x = ethnum::U256::from(r.next());
    for _ in 0..3 {
        x = (x << 64) | ethnum::U256::from(r.next());
    }
    T::from_u256(x % T::MODULUS)
}
pub fn nonzero<T: Field>(r: &mut Rng) -> T {
    loop {
        let x: T = val(r);
        if !x.is_zero() {
            return x;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lvl {
    Source,
    Hn,
    Hl,
    Dest,
}
#[derive(Clone)]
pub struct Opts {
    pub lvl: Lvl,
    pub max_circs: usize,
    pub max_in: usize,
    pub max_insn: usize,
    pub max_pub: usize,
    pub hints: bool,
    pub custom: bool, // custom gates
    pub nz: bool,
    pub div: bool,
    pub rnd: bool, // random constants (large fields only)
}

/// a program whose root accepts `xs` where that can be arranged
pub fn prog<T: Field>(r: &mut Rng, o: &Opts) -> (Prog<T>, Vec<T>, Vec<T>) {
    let ncirc = if r.pct(45) { 1 } else { r.range(1, o.max_circs) };
    let npub = if r.pct(60) { 0 } else { r.range(0, o.max_pub) };
    let pubs: Vec<T> = (0..npub).map(|_| val(r)).collect();
    let mut ids: Vec<usize> = vec![0];
    while ids.len() < ncirc {
        let id = if r.pct(50) { ids.len() + r.below(3) } else { r.below(1 << 40) + 1 };
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    // wide programs: expressions long enough to meet the compiler's size limits
    let wide = r.pct(6);
    let wide_at = r.below(ncirc);
    // built callees first
    let mut p = Prog::<T> { npub, nz: 0, ids: vec![], c: vec![] };
    let mut xs = vec![];
    for k in (0..ncirc).rev() {
        let wide = wide && k == wide_at;
        let n = if wide { r.range(9, 48) } else { r.range(1, o.max_in) };
        let mut c = Circ { n, i: vec![], k: vec![], z: vec![] };
        let sample: Vec<T> = (0..n).map(|_| val(r)).collect();
        let ninsn = r.range(1, o.max_insn);
        for _ in 0..ninsn {
            let i = if wide && r.pct(60) { Some(wide_insn(r, o, &c)) } else { insn(r, o, &c, &p, npub) };
            if let Some(i) = i {
                c.i.push(i);
            }
        }
        // repeat an earlier instruction now and then
        if r.pct(25) && !c.i.is_empty() {
            let i = c.i[r.below(c.i.len())].clone();
            c.i.push(i);
        }
        let total = |c: &Circ<T>| c.n + c.i.iter().map(|x| x.num_outputs()).sum::<usize>();
        if o.rnd {
            random_gadget(r, o, &mut c);
        }
        let nv = total(&c);
        // constraints
        let ncon = if r.pct(35) { 0 } else { r.range(1, 3) };
        for _ in 0..ncon {
            let kind = if o.lvl == Lvl::Source && !o.rnd { r.range(1, 3) as u8 } else { 1 };
            let v = pickv(r, nv, c.n);
            if kind == 1 && r.pct(70) {
                // arrange that v - value(sample) is constrained
                let mut vals = None;
                if k == 0 {
                    let mut q = p.clone();
                    let mut c0 = c.clone();
                    c0.z = vec![1];
                    c0.k = vec![];
                    q.ids.push(0);
                    q.c.push(c0);
                    let mut chal = || T::ONE;
                    let vs = Ev { p: &q, pubs: &pubs, chal: &mut chal }.values(&sample);
                    if v < vs.len() {
                        vals = Some(vs[v]);
                    }
                }
                if let Some(x) = vals {
                    let d = total(&c) + 1;
                    c.i.push(affine(o, v, T::ONE, -x));
                    c.k.push((1, d));
                    continue;
                } else if k != 0 {
                    // identically zero, or zero when two inputs agree
                    let a = pickv(r, total(&c), c.n);
                    let b = if r.pct(50) { a } else { pickv(r, total(&c), c.n) };
                    let d = total(&c) + 1;
                    c.i.push(diff(o, a, b));
                    if r.pct(30) {
                        c.i.push(prod(o, d, 1));
                        c.k.push((1, d + 1));
                    } else {
                        c.k.push((1, d));
                    }
                    continue;
                }
            }
            c.k.push((kind, v));
        }
        let nv = total(&c);
        let nout = if k == 0 { r.range(0, 3) } else { r.range(if c.k.is_empty() { 1 } else { 0 }, 3) };
        for _ in 0..nout {
            let n = if r.pct(30) { nv } else { 0 };
            c.z.push(pickv(r, nv, n));
        }
        if c.z.len() >= 2 && r.pct(15) {
            c.z[1] = c.z[0];
        }
        if k == 0 {
            xs = sample;
            if c.z.is_empty() && c.k.is_empty() {
                c.z.push(pickv(r, nv, 0));
            }
            if o.nz && r.pct(15) {
                // one output that must be zero
                let v = c.z.first().cloned().unwrap_or(1);
                let d = total(&c) + 1;
                c.i.push(diff(o, v, v));
                c.z.insert(0, if r.pct(50) { d } else { v });
                p.nz = 1;
            }
        }
        p.ids.push(ids[k]);
        p.c.push(c);
    }
    // root first, callees in identifier order
    let mut idx: Vec<usize> = (0..ncirc).collect();
    idx.sort_by_key(|j| p.ids[*j]);
    let q = Prog {
        npub,
        nz: p.nz,
        ids: idx.iter().map(|j| p.ids[*j]).collect(),
        c: idx.iter().map(|j| p.c[*j].clone()).collect(),
    };
    (q, xs, pubs)
}

fn affine<T: Field>(o: &Opts, v: usize, k: T, c: T) -> I<T> {
    if o.lvl == Lvl::Dest {
        let mut t = vec![(k, Tm::L(v))];
        if !c.is_zero() {
            t.insert(0, (c, Tm::C));
        }
        I::Expr(t)
    } else {
        I::Lin { t: vec![(k, v)], c }
    }
}
fn diff<T: Field>(o: &Opts, a: usize, b: usize) -> I<T> {
    if o.lvl == Lvl::Dest {
        if a == b {
            I::Expr(vec![])
        } else {
            I::Expr(vec![(T::ONE, Tm::L(a)), (-T::ONE, Tm::L(b))])
        }
    } else {
        I::Lin { t: vec![(T::ONE, a), (-T::ONE, b)], c: T::ZERO }
    }
}
fn prod<T: Field>(o: &Opts, a: usize, b: usize) -> I<T> {
    if o.lvl == Lvl::Dest {
        I::Expr(vec![(T::ONE, Tm::Q(a.min(b), a.max(b)))])
    } else {
        I::Mul(vec![a, b])
    }
}
/// the same random value used several times: (r*a - r*b) * (a = b), r*(a+b) - r*a - r*b, ...
fn random_gadget<T: Field>(r: &mut Rng, o: &Opts, c: &mut Circ<T>) {
    let mut nv = c.n + c.i.iter().map(|x| x.num_outputs()).sum::<usize>();
    let mut add = |c: &mut Circ<T>, i: I<T>| {
        nv += 1;
        c.i.push(i);
        nv
    };
    if r.pct(30) {
        return;
    }
    let x = add(c, I::Const(K::R));
    let mut ps = vec![];
    for _ in 0..r.range(2, 5) {
        let a = pickv(r, x - 1, c.n);
        let b = if r.pct(60) { a } else { pickv(r, x - 1, c.n) };
        let m = add(c, prod(o, x, a));
        if r.pct(30) {
            add(c, prod(o, x, pickv(r, x - 1, c.n)));
        }
        ps.push((m, b));
    }
    for (m, b) in ps {
        let m2 = add(c, prod(o, x, b));
        let d = add(c, diff(o, m, m2));
        match r.below(3) {
            0 => c.k.push((1, d)),
            1 => c.z.push(d),
            _ => {
                c.z.push(m);
                c.z.push(m2);
            }
        }
    }
}
/// a variable in 1..=nv; later ones and (with `n` inputs) inputs are more likely
fn pickv(r: &mut Rng, nv: usize, n: usize) -> usize {
    match r.below(3) {
        0 => nv - r.below(nv.min(3)),
        1 if n > 0 => 1 + r.below(n.min(nv)),
        _ => 1 + r.below(nv),
    }
}
/// a long sum, a product of many factors, or a product of sums
fn wide_insn<T: Field>(r: &mut Rng, o: &Opts, c: &Circ<T>) -> I<T> {
    let nv = c.n + c.i.iter().map(|x| x.num_outputs()).sum::<usize>();
    let mut at = c.n;
    let sums: Vec<usize> = c
        .i
        .iter()
        .filter_map(|x| {
            at += x.num_outputs();
            matches!(x, I::Lin { t, .. } if t.len() > 5).then_some(at)
        })
        .collect();
    let pick = |r: &mut Rng| if !sums.is_empty() && r.pct(50) { r.pick(&sums) } else { pickv(r, nv, c.n) };
    let coef = |r: &mut Rng| if r.pct(50) { T::ONE } else { nonzero(r) };
    if o.lvl == Lvl::Dest {
        let n = r.range(6, 45);
        let mut t: Vec<(T, Tm)> = vec![];
        for _ in 0..n {
            let (a, b) = (pickv(r, nv, c.n), pickv(r, nv, c.n));
            t.push((nonzero(r), if r.pct(50) { Tm::L(a) } else { Tm::Q(a.min(b), a.max(b)) }));
        }
        return I::Expr(t);
    }
    match r.below(5) {
        0..=2 => {
            let n = r.range(6, 50);
            let dense = r.pct(50);
            let t = (0..n).map(|i| (coef(r), if dense { 1 + (i % c.n) } else { pickv(r, nv, c.n) })).collect();
            I::Lin { t, c: if r.pct(60) { T::ZERO } else { val(r) } }
        }
        3 => I::Mul((0..2).map(|_| pick(r)).collect()),
        _ => {
            let n = r.range(3, 14);
            I::Mul((0..n).map(|_| pick(r)).collect())
        }
    }
}
fn insn<T: Field>(r: &mut Rng, o: &Opts, c: &Circ<T>, p: &Prog<T>, npub: usize) -> Option<I<T>> {
    let nv = c.n + c.i.iter().map(|x| x.num_outputs()).sum::<usize>();
    let mut v = |r: &mut Rng| pickv(r, nv, c.n);
    let call = |r: &mut Rng, p: &Prog<T>| -> Option<I<T>> {
        if p.c.is_empty() {
            return None;
        }
        let j = r.below(p.c.len());
        let n = p.c[j].n;
        // repeat an earlier argument list sometimes
        let prev: Vec<Vec<usize>> = c
            .i
            .iter()
            .filter_map(|x| match x {
                I::Call { s, v, .. } if *s == p.ids[j] => Some(v.clone()),
                _ => None,
            })
            .collect();
        let a = if !prev.is_empty() && r.pct(25) {
            r.pick(&prev)
        } else {
            (0..n).map(|_| pickv(r, nv, c.n)).collect()
        };
        Some(I::Call { s: p.ids[j], v: a, n: p.c[j].z.len() })
    };
    if !p.c.is_empty() && r.pct(30) {
        return call(r, p);
    }
    let konst = |r: &mut Rng| -> I<T> {
        if o.rnd && r.pct(60) {
            I::Const(K::R)
        } else if npub > 0 && r.pct(60) {
            I::Const(K::P(r.below(npub)))
        } else {
            I::Const(K::C(val(r)))
        }
    };
    if o.lvl == Lvl::Dest {
        return Some(match r.below(8) {
            0 => konst(r),
            _ => {
                let n = r.range(0, 5);
                let mut t: Vec<(T, Tm)> = vec![];
                for _ in 0..n {
                    let k = nonzero(r);
                    t.push(match r.below(10) {
                        0 => (k, Tm::C),
                        1..=4 => (k, Tm::L(v(r))),
                        9 if o.custom => {
                            let (g, a) = gate(r, nv, c.n);
                            (k, Tm::U(g, a))
                        }
                        _ => {
                            let (a, b) = (v(r), v(r));
                            (k, Tm::Q(a.min(b), a.max(b)))
                        }
                    });
                }
                I::Expr(t)
            }
        });
    }
    let lin = |r: &mut Rng| -> I<T> {
        let n = match r.below(6) {
            0 => 0,
            1 => 1,
            5 => r.range(3, 5),
            _ => 2,
        };
        let mut t: Vec<(T, usize)> = vec![];
        for _ in 0..n {
            let x = pickv(r, nv, c.n);
            let k = if r.pct(40) { T::ONE } else { val(r) };
            t.push((k, x));
        }
        I::Lin { t, c: if r.pct(60) { T::ZERO } else { val(r) } }
    };
    let mul = |r: &mut Rng| -> I<T> {
        let n = if r.pct(75) { 2 } else { r.range(2, 5) };
        I::Mul((0..n).map(|_| pickv(r, nv, c.n)).collect())
    };
    let hint = |r: &mut Rng| -> I<T> {
        let (name, ni, no) = match r.below(6) {
            0 => ("vp.lin", r.range(1, 3), r.range(1, 3)),
            1 => ("vp.sq", r.range(1, 3), r.range(1, 3)),
            2 => ("vp.fail", 1, r.range(1, 2)),
            3 => {
                let k = r.range(1, 2);
                ("Identity", k, k)
            }
            4 => {
                let b = r.pick(&BIN);
                (b, 2, 1)
            }
            _ => ("Select", 3, 1),
        };
        I::Hint { h: hint_id(name), v: (0..ni).map(|_| pickv(r, nv, c.n)).collect(), n: no }
    };
    if o.lvl != Lvl::Source {
        return Some(match r.below(10) {
            0..=3 => lin(r),
            4..=6 => mul(r),
            7 => konst(r),
            8 if o.custom => {
                let (g, a) = gate(r, nv, c.n);
                I::Cust { g, v: a }
            }
            _ => {
                if o.lvl == Lvl::Hn && o.hints {
                    hint(r)
                } else {
                    mul(r)
                }
            }
        });
    }
    let isbool: Vec<usize> = {
        let mut b = vec![];
        let mut at = c.n;
        for i in c.i.iter() {
            match i {
                I::Isz(_) | I::Bool { .. } => b.push(at + 1),
                I::ToBin { n, .. } => b.extend(at + 1..=at + n),
                _ => {}
            }
            at += i.num_outputs();
        }
        b
    };
    let bv = |r: &mut Rng| -> usize {
        if !isbool.is_empty() && r.pct(80) {
            r.pick(&isbool)
        } else {
            pickv(r, nv, c.n)
        }
    };
    if o.rnd {
        // nothing that needs to know the random values when the witness is made
        return Some(match r.below(5) {
            0 | 1 => lin(r),
            2 | 3 => mul(r),
            _ => konst(r),
        });
    }
    Some(match r.below(20) {
        0..=4 => lin(r),
        5..=7 => mul(r),
        8 | 9 if o.div => {
            let k = r.pct(50);
            I::Div { x: v(r), y: v(r), k }
        }
        10 | 11 => I::Bool { x: bv(r), y: bv(r), b: r.range(1, 3) as u8 },
        12 | 13 => I::Isz(v(r)),
        14 => konst(r),
        15 if o.hints => hint(r),
        16 if o.hints => {
            let b = r.range(1, 17) as u8;
            I::UBin { b, x: v(r), y: v(r) }
        }
        17 if o.hints => I::USel(v(r), v(r), v(r)),
        18 if o.hints => {
            let bits = 256 - T::MODULUS.leading_zeros() as usize;
            let n = if bits <= 8 { r.range(1, bits + 1) } else { r.range(1, 6) };
            I::ToBin { x: v(r), n }
        }
        19 if o.custom => {
            let (g, a) = gate(r, nv, c.n);
            I::Cust { g, v: a }
        }
        _ => lin(r),
    })
}
/// a custom gate: a builtin hint with one output that never fails
fn gate(r: &mut Rng, nv: usize, n: usize) -> (usize, Vec<usize>) {
    let (name, k) = match r.below(4) {
        0 => ("Select", 3),
        1 => ("Identity", 1),
        2 => ("Eq", 2),
        _ => ("BoolOr", 2),
    };
    (hint_id(name), (0..k).map(|_| pickv(r, nv, n)).collect())
}

/// Inputs to run a program on: all of them if there are few, otherwise the planted one,
/// neighbours of it, and random ones.
pub fn inputs<T: Field>(r: &mut Rng, n: usize, planted: &[T], max: usize) -> Vec<Vec<T>> {
    let m = T::MODULUS;
    let mut total = ethnum::U256::from(1u32);
    let mut small = true;
    for _ in 0..n {
        total = total * m;
        if total > ethnum::U256::from(max as u32) {
            small = false;
            break;
        }
    }
    if small {
        let p = m.as_u64();
        return (0..total.as_u64())
            .map(|mut k| {
                (0..n)
                    .map(|_| {
                        let d = k % p;
                        k /= p;
                        T::from(d as u32)
                    })
                    .collect()
            })
            .collect();
    }
    let mut out = vec![];
    if planted.len() == n {
        out.push(planted.to_vec());
        for _ in 0..max / 4 {
            let mut x = planted.to_vec();
            let j = r.below(n);
            x[j] = val(r);
            out.push(x);
        }
    }
    out.push(vec![T::ZERO; n]);
    while out.len() < max {
        let boolish = r.pct(30);
        out.push((0..n).map(|_| if boolish { T::from(r.below(2) as u32) } else { val(r) }).collect());
    }
    out.truncate(max);
    out
}

/// A random well-formed layered circuit without random coefficients.
pub fn layered<C: Config, I_: InputType>(r: &mut Rng) -> layered::Circuit<C, I_> {
    let cross = I_::CROSS_LAYER_RELAY;
    let bulk = r.pct(25); // layers that have many gates in common
    let nl = if bulk { r.range(2, 3) } else { r.range(1, 4) };
    let npub = r.below(3);
    let cust = r.pct(25); // custom gates
    let mut sizes = vec![1usize << r.below(4)];
    for _ in 0..nl {
        sizes.push(if bulk { sizes[0].max(4) } else { 1 << r.below(4) });
    }
    if bulk {
        sizes[0] = sizes[1];
    }
    let mut segs: Vec<layered::Segment<C, I_>> = vec![];
    let mk = |r: &mut Rng, ni: Vec<usize>, no: usize, segs: &Vec<layered::Segment<C, I_>>, busy: usize| {
        let mut s = layered::Segment::<C, I_> {
            num_inputs: iu::<I_>(ni.clone()),
            num_outputs: no,
            child_segs: vec![],
            gate_muls: vec![],
            gate_adds: vec![],
            gate_consts: vec![],
            gate_customs: vec![],
        };
        let inp = |r: &mut Rng| {
            let l = r.below(ni.len());
            I_::Input::new(if cross { l } else { 0 }, r.below(ni[if cross { l } else { 0 }]))
        };
        let co = |r: &mut Rng| -> Coef<C> {
            if npub > 0 && r.pct(25) {
                Coef::PublicInput(r.below(npub))
            } else {
                Coef::Constant(val(r))
            }
        };
        let g = |r: &mut Rng| r.below(busy + 1);
        for _ in 0..g(r) {
            s.gate_muls.push(layered::Gate { inputs: [inp(r), inp(r)], output: r.below(no), coef: co(r) });
        }
        for _ in 0..g(r) {
            s.gate_adds.push(layered::Gate { inputs: [inp(r)], output: r.below(no), coef: co(r) });
        }
        for _ in 0..g(r) / 2 {
            s.gate_consts.push(layered::Gate { inputs: [], output: r.below(no), coef: co(r) });
        }
        // duplicates for the gate merger
        if r.pct(30) && !s.gate_muls.is_empty() {
            let mut x = r.pick(&s.gate_muls);
            if r.pct(50) {
                x.coef = co(r);
            }
            if r.pct(50) {
                x.inputs.swap(0, 1);
            }
            s.gate_muls.push(x);
        }
        if r.pct(30) && !s.gate_adds.is_empty() {
            let mut x = r.pick(&s.gate_adds);
            if r.pct(50) {
                x.coef = co(r);
            }
            s.gate_adds.push(x);
        }
        for _ in 0..if cust { g(r) / 2 } else { 0 } {
            let (name, k) = r.pick(&[("Select", 3), ("Identity", 1), ("Eq", 2), ("BoolOr", 2)]);
            let mut x = layered::GateCustom {
                gate_type: hint_id(name),
                inputs: (0..k).map(|_| inp(r)).collect(),
                output: r.below(no),
                coef: co(r),
            };
            s.gate_customs.push(x.clone());
            // nearly the same gate again
            if r.pct(60) {
                match r.below(4) {
                    0 => x.inputs = (0..k).map(|_| inp(r)).collect(),
                    1 => x.output = r.below(no),
                    2 => x.gate_type = hint_id(if k == 2 { "Eq" } else { name }),
                    _ => x.coef = co(r),
                }
                s.gate_customs.push(x);
            }
        }
        for (id, sub) in segs.iter().enumerate() {
            let sn = sub.num_inputs.to_vec();
            if sn.len() <= ni.len() && sn.iter().zip(ni.iter()).all(|(a, b)| a <= b) && sub.num_outputs <= no && r.pct(45) {
                let k = if r.pct(60) { 1 } else { r.range(1, 3) };
                let al = (0..k)
                    .map(|_| layered::Allocation {
                        input_offset: iu::<I_>(
                            sn.iter().zip(ni.iter()).map(|(a, b)| a * r.below(b / a)).collect(),
                        ),
                        output_offset: sub.num_outputs * r.below(no / sub.num_outputs),
                    })
                    .collect();
                s.child_segs.push((id, al));
            }
        }
        s
    };
    for _ in 0..r.below(4) {
        let depth = if cross { r.range(1, 2) } else { 1 };
        let ni: Vec<usize> = (0..depth).map(|_| 1 << r.below(3)).collect();
        let no = 1 << r.below(3);
        let s = mk(r, ni, no, &segs, 4);
        segs.push(s);
    }
    let nsub = segs.len();
    let stock = {
        let depth = if cross && r.pct(40) { 2 } else { 1 };
        let mut st = mk(r, vec![sizes[0]; depth], sizes[0], &vec![], 12);
        if r.pct(50) {
            // some gates do not depend on layers further back
            st.gate_adds.retain(|g| g.inputs[0].layer() == 0);
        }
        st
    };
    let mut layer_ids = vec![];
    for i in 1..=nl {
        let depth = if cross { r.range(1, i.min(3)) } else { 1 };
        let ni: Vec<usize> = (0..depth).map(|k| sizes[i - 1 - k]).collect();
        // sometimes reuse an earlier layer segment that fits
        if r.pct(25) {
            if let Some(k) = (nsub..segs.len()).find(|k| segs[*k].num_outputs == sizes[i] && segs[*k].num_inputs.to_vec() == ni) {
                layer_ids.push(k);
                continue;
            }
        }
        let mut s = {
            let subs: Vec<_> = segs[..nsub].to_vec();
            mk(r, ni.clone(), sizes[i], &subs, if bulk { 2 } else { 6 })
        };
        if bulk {
            let keep = r.range(60, 100);
            s.gate_muls.extend(stock.gate_muls.iter().filter(|g| g.inputs.iter().all(|x| x.layer() < depth) && r.pct(keep)).cloned());
            s.gate_adds.extend(stock.gate_adds.iter().filter(|g| g.inputs[0].layer() < depth && r.pct(keep)).cloned());
            s.gate_consts.extend(stock.gate_consts.iter().filter(|_| r.pct(keep)).cloned());
            s.gate_customs.extend(stock.gate_customs.iter().filter(|g| g.inputs.iter().all(|x| x.layer() < depth) && r.pct(keep)).cloned());
        }
        layer_ids.push(segs.len());
        segs.push(s);
    }
    // what later layers read must have been written: add constants where needed
    let nact = r.range(1, sizes[nl]);
    let nz = if r.pct(50) { 0 } else { r.range(0, nact.min(2)) };
    let mut lc = layered::Circuit::<C, I_> {
        num_public_inputs: npub,
        num_actual_outputs: nact,
        expected_num_output_zeroes: nz,
        segments: segs,
        layer_ids,
    };
    for k in 0..lc.layer_ids.len() - 1 {
        let id = lc.layer_ids[k];
        let used = written(&lc, id);
        for o in 0..lc.segments[id].num_outputs {
            if !used[o] {
                let c = Coef::Constant(val(r));
                lc.segments[id].gate_consts.push(layered::Gate { inputs: [], output: o, coef: c });
            }
        }
    }
    lc
}
fn written<C: Config, I_: InputType>(lc: &layered::Circuit<C, I_>, id: usize) -> Vec<bool> {
    let s = &lc.segments[id];
    let mut w = vec![false; s.num_outputs];
    for g in &s.gate_muls {
        w[g.output] = true;
    }
    for g in &s.gate_adds {
        w[g.output] = true;
    }
    for g in &s.gate_consts {
        w[g.output] = true;
    }
    for g in &s.gate_customs {
        w[g.output] = true;
    }
    for (id, al) in &s.child_segs {
        let sub = written(lc, *id);
        for a in al {
            for (k, x) in sub.iter().enumerate() {
                w[a.output_offset + k] |= x;
            }
        }
    }
    w
}
/// per-layer numbers as the code's own type
pub fn iu<I_: InputType>(v: Vec<usize>) -> I_::InputUsize {
    I_::InputUsize::from_vec(v)
}
