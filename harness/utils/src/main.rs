//! Replays operation sequences on the real utilities and records the results
//! (specs/Utils.tla says which are right).
#![allow(warnings)]
include!(concat!(env!("OUT_DIR"), "/tree.rs"));
use input_mapping::{InputMapping, EMPTY};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
}

/// "[[1,2],[3]]" -> vectors of integers
fn parse(s: &str) -> Vec<Vec<i64>> {
    let mut v: Vec<Vec<i64>> = vec![];
    let mut num = String::new();
    let mut depth = 0;
    for c in s.chars() {
        match c {
            '[' => {
                depth += 1;
                if depth == 2 {
                    v.push(vec![]);
                }
            }
            ']' | ',' => {
                if !num.trim().is_empty() {
                    v.last_mut().unwrap().push(num.trim().parse().unwrap());
                    num.clear();
                }
                if c == ']' {
                    depth -= 1;
                }
            }
            c => num.push(c),
        }
    }
    v
}
fn j(v: &[i64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn jj(v: &[Vec<i64>]) -> String {
    format!("[{}]", v.iter().map(|x| j(x)).collect::<Vec<_>>().join(","))
}

struct Out {
    text: String,
    id: usize,
}
impl Out {
    /// one behaviour; a panic of the code under test is part of it
    fn line(&mut self, kind: &str, f: impl FnOnce() -> String) {
        let body = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(b) => b,
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_default();
                format!("\"panic\":{:?}", m.chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\').collect::<String>())
            }
        };
        self.text += &format!("{{\"id\":{},\"kind\":\"{kind}\",{body}}}\n", self.id);
        self.id += 1;
    }
}

// ops: [1, x] push x, [2] pop
fn heap(o: &mut Out, keys: &[i64], ops: &[Vec<i64>]) {
    let cmp = |a: usize, b: usize| -> Ordering { keys[a].cmp(&keys[b]) };
    o.line("heap", || {
        let mut h = vec![];
        let mut res = vec![];
        for op in ops {
            if op[0] == 1 {
                heap::push(&mut h, op[1] as usize, cmp);
                res.push(vec![1, op[1]]);
            } else {
                res.push(vec![2, heap::pop(&mut h, cmp).map_or(-1, |x| x as i64)]);
            }
        }
        // drain
        for _ in 0..ops.len() + 1 {
            let x = heap::pop(&mut h, cmp);
            res.push(vec![2, x.map_or(-1, |x| x as i64)]);
            if x.is_none() {
                break;
            }
        }
        format!("\"keys\":{},\"ops\":{}", j(keys), jj(&res))
    });
}
// ops: [1, v] add, [2, v] try_get_idx, [3, i] get the i-th (mod length) value back
fn pool(o: &mut Out, ops: &[Vec<i64>]) {
    o.line("pool", || {
        let mut p: pool::Pool<Vec<i64>> = pool::Pool::new();
        let mut res = vec![];
        for op in ops {
            let v = vec![op[1], op[1] % 2];
            match op[0] {
                1 => res.push(vec![1, op[1], p.add(&v) as i64, p.len() as i64]),
                2 => {
                    let t = p.try_get_idx(&v);
                    res.push(vec![2, op[1], t.map_or(-1, |x| x as i64), p.is_empty() as i64]);
                    if let Some(t) = t {
                        res.push(vec![2, op[1], p.get_idx(&v) as i64, p.is_empty() as i64]);
                        res.push(vec![2, op[1], p.map()[&v] as i64, p.is_empty() as i64]);
                    } else {
                        let e = catch_unwind(AssertUnwindSafe(|| p.get_idx(&v)));
                        res.push(vec![2, op[1], e.map_or(-1, |x| x as i64), p.is_empty() as i64]);
                    }
                }
                _ => {
                    if p.len() > 0 {
                        let i = op[1] as usize % p.len();
                        res.push(vec![3, i as i64, p.get(i)[0], p.vec()[i][0]]);
                    } else {
                        let e = catch_unwind(AssertUnwindSafe(|| p.get(0)[0]));
                        res.push(vec![3, 0, if e.is_err() { -1 } else { 0 }, -1]);
                    }
                }
            }
        }
        format!("\"ops\":{}", jj(&res))
    });
}
// ops: [1, x, y] union, [2, x] find
fn uf(o: &mut Out, n: usize, ops: &[Vec<i64>]) {
    o.line("uf", || {
        let mut u = union_find::UnionFind::new(n);
        let mut res = vec![];
        for op in ops {
            if op[0] == 1 {
                u.union(op[1] as usize, op[2] as usize);
                res.push(op.clone());
            } else {
                res.push(vec![2, op[1], u.find(op[1] as usize) as i64]);
            }
        }
        for x in 0..n {
            res.push(vec![2, x as i64, u.find(x) as i64]);
        }
        format!("\"n\":{n},\"ops\":{}", jj(&res))
    });
}
fn graph(o: &mut Out, verts: &[i64], edges: &[Vec<i64>]) {
    o.line("topo", || {
        let vs: HashSet<usize> = verts.iter().map(|&x| x as usize).collect();
        let mut es: HashMap<usize, HashSet<usize>> = HashMap::new();
        for e in edges {
            es.entry(e[0] as usize).or_default().insert(e[1] as usize);
        }
        let (ord, dag) = misc::topo_order_and_is_dag(&vs, &es);
        let ord2 = misc::topo_order(&vs, &es);
        format!(
            "\"verts\":{},\"edges\":{},\"dag\":{dag},\"ord\":{},\"ord2\":{}",
            j(verts),
            jj(edges),
            j(&ord.iter().map(|&x| x as i64).collect::<Vec<_>>()),
            j(&ord2.iter().map(|&x| x as i64).collect::<Vec<_>>())
        )
    });
}
fn bucket(o: &mut Out, keys: &[i64], m: usize) {
    o.line("bucket", || {
        let arr: Vec<(usize, usize)> = keys.iter().enumerate().map(|(i, &k)| (k as usize, i + 1)).collect();
        let (r, st) = bucket_sort::bucket_sort(arr, |x| x.0, m);
        format!(
            "\"keys\":{},\"m\":{m},\"res\":{},\"start\":{}",
            j(keys),
            j(&r.iter().map(|x| x.1 as i64).collect::<Vec<_>>()),
            j(&st.iter().map(|&x| x as i64).collect::<Vec<_>>())
        )
    });
}
fn shm(o: &mut Out, keys: &[usize]) {
    // does it come back at all?
    let (tx, rx) = std::sync::mpsc::channel();
    let k2 = keys.to_vec();
    std::thread::spawn(move || {
        let m = catch_unwind(|| {
            let m = static_hash_map::StaticHashMap::new(&k2);
            k2.iter().map(|&x| m.get(x) as i64).collect::<Vec<_>>()
        });
        let _ = tx.send(m);
    });
    let r = rx.recv_timeout(std::time::Duration::from_secs(60));
    let big = keys.len() > 3000;
    o.line("shm", || match r {
        Err(_) => format!("\"n\":{},\"st\":\"hang\",\"keys\":[],\"pos\":[]", keys.len()),
        Ok(Err(_)) => format!("\"n\":{},\"st\":\"panic\",\"keys\":[],\"pos\":[]", keys.len()),
        Ok(Ok(v)) => {
            // of long lists, every k-th entry is shown
            let step = if big { keys.len() / 1000 } else { 1 };
            let sel: Vec<i64> = (0..keys.len()).filter(|i| i % step == 0 || v[*i] != *i as i64).map(|i| i as i64).collect();
            format!(
                "\"n\":{},\"st\":\"ok\",\"keys\":{},\"pos\":{}",
                keys.len(),
                j(&sel),
                j(&sel.iter().map(|&i| v[i as usize]).collect::<Vec<_>>())
            )
        }
    });
}
// maps: sequences over 0 (dropped), 1.. (new position), with the size of the target in front
fn mapping(o: &mut Out, maps: &[Vec<i64>]) {
    let im = |m: &Vec<i64>| InputMapping::new(m[0] as usize, m[1..].iter().map(|&x| if x == 0 { EMPTY } else { x as usize - 1 }).collect());
    let back = |m: &InputMapping| -> Vec<i64> {
        let mut v = vec![m.next_size() as i64];
        v.extend(m.mapping().iter().map(|&x| if x == EMPTY { 0 } else { x as i64 + 1 }));
        v
    };
    o.line("im", || {
        let ms: Vec<InputMapping> = maps.iter().map(im).collect();
        // every mapping on its own
        let singles: Vec<String> = ms
            .iter()
            .map(|m| {
                let xs: Vec<i64> = (0..m.cur_size() as i64).map(|x| x + 100).collect();
                let ok = m.validate();
                let y = if ok { m.map_inputs(&xs) } else { vec![] };
                let pos: Vec<i64> = (0..m.cur_size()).map(|i| m.map(i)).map(|x| if x == EMPTY { 0 } else { x as i64 + 1 }).collect();
                format!("[{},{},{},{},{}]", j(&back(m)), ok, j(&y), j(&pos), m.cur_size())
            })
            .collect();
        let idn: Vec<String> = ms.iter().map(|m| j(&back(&InputMapping::new_identity(m.cur_size())))).collect();
        // the chain: left to right, right to left, in place
        let (mut l, mut r, mut p) = (vec![], vec![], vec![]);
        if ms.iter().all(|m| m.mapping().iter().all(|&x| x == EMPTY || x < m.next_size())) {
            let mut a = ms[0].clone();
            let mut c = ms[0].clone();
            for m in &ms[1..] {
                a = a.compose(m);
                c.compose_in_place(m);
            }
            let mut b = ms[ms.len() - 1].clone();
            for m in ms[..ms.len() - 1].iter().rev() {
                b = m.compose(&b);
            }
            l = back(&a);
            r = back(&b);
            p = back(&c);
        }
        format!("\"maps\":{},\"single\":[{}],\"idn\":[{}],\"l\":{},\"r\":{},\"p\":{}", jj(maps), singles.join(","), idn.join(","), j(&l), j(&r), j(&p))
    });
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    // KIND SEED COUNT GENFILE OUT [ignored]
    let kind = a[0].as_str();
    let mut r = Rng(a[1].parse::<u64>().unwrap().wrapping_mul(7919));
    let count: usize = a[2].parse().unwrap();
    let gen: Vec<String> = std::fs::read_to_string(&a[3]).unwrap_or_default().lines().map(|x| x.to_string()).collect();
    let mut o = Out { text: String::new(), id: 1 };
    match kind {
        "heap" => {
            for g in &gen {
                let ops = parse(g);
                for keys in [[0, 1, 2], [2, 1, 0], [1, 0, 1], [0, 0, 1], [0, 0, 0]] {
                    heap(&mut o, &keys, &ops);
                }
            }
            for _ in 0..count {
                let n = r.range(2, 40);
                let d = r.range(1, n);
                let keys: Vec<i64> = (0..n).map(|_| r.below(d) as i64).collect();
                let bias = r.range(40, 90);
                let ops: Vec<Vec<i64>> =
                    (0..r.range(8, 90)).map(|_| if r.pct(bias) { vec![1, r.below(n) as i64] } else { vec![2] }).collect();
                heap(&mut o, &keys, &ops);
            }
        }
        "pool" => {
            for g in &gen {
                pool(&mut o, &parse(g));
            }
            for _ in 0..count {
                let n = r.range(1, 30);
                let ops: Vec<Vec<i64>> =
                    (0..r.range(4, 80)).map(|_| vec![1 + [0, 0, 1, 2][r.below(4)], r.below(n) as i64]).collect();
                pool(&mut o, &ops);
            }
        }
        "uf" => {
            for g in &gen {
                uf(&mut o, 4, &parse(g));
            }
            for _ in 0..count {
                let n = r.range(1, 24);
                let ops: Vec<Vec<i64>> = (0..r.range(1, 60))
                    .map(|_| if r.pct(55) { vec![1, r.below(n) as i64, r.below(n) as i64] } else { vec![2, r.below(n) as i64] })
                    .collect();
                uf(&mut o, n, &ops);
            }
        }
        "graph" => {
            for g in &gen {
                let e = parse(g);
                let vs = e[0].clone();
                graph(&mut o, &vs, &e[1..]);
            }
            for _ in 0..count {
                let n = r.range(1, 9);
                let mut vs: Vec<i64> = (0..n as i64).map(|x| x * 3 + (r.below(3) as i64)).collect();
                let k = r.below(2 * n + 2);
                let acyclic = r.pct(60);
                for i in 0..n {
                    let q = r.below(n);
                    vs.swap(i, q);
                }
                let mut es = HashSet::new();
                for _ in 0..k {
                    let (x, y) = (r.below(n), r.below(n));
                    if acyclic && x >= y {
                        continue;
                    }
                    es.insert((vs[x], vs[y]));
                }
                let mut es: Vec<Vec<i64>> = es.into_iter().map(|(x, y)| vec![x, y]).collect();
                es.sort();
                graph(&mut o, &vs, &es);
            }
            let lim = if count > 5000 { 70000 } else { 9000 };
            let mut xs: Vec<usize> = (0..lim).collect();
            for k in 13..60 {
                let p = 1usize << k;
                xs.extend([p - 1, p, p + 1]);
            }
            for chunk in xs.chunks(500) {
                o.line("pow2", || {
                    // [x, log2 of the result] where the result is a power of two, [x, -1] otherwise
                    let lg = |y: usize| if y.is_power_of_two() { y.trailing_zeros() as i64 } else if y == 0 { -1 } else { -2 };
                    let v: Vec<Vec<i64>> = chunk
                        .iter()
                        .map(|&x| {
                            vec![
                                if x == 0 { -1 } else { 63 - x.leading_zeros() as i64 },
                                x.is_power_of_two() as i64,
                                lg(misc::prev_power_of_two(x)),
                                lg(misc::next_power_of_two(x)),
                                if x < 1 << 20 { x as i64 } else { -1 },
                            ]
                        })
                        .collect();
                    format!("\"v\":{}", jj(&v))
                });
            }
            for _ in 0..count / 4 + 50 {
                let m = r.range(1, 9);
                let n = r.below(14);
                let keys: Vec<i64> = (0..n).map(|_| r.below(m) as i64).collect();
                bucket(&mut o, &keys, m);
            }
        }
        "shm" => {
            // all subsets of 0..11, in order and reversed
            for mask in 0..1usize << 11 {
                let mut k: Vec<usize> = (0..11).filter(|i| mask >> i & 1 == 1).collect();
                if mask % 2 == 1 {
                    k.reverse();
                }
                shm(&mut o, &k);
            }
            for i in 0..count {
                let n = match r.below(6) {
                    0 => r.range(1, 8),
                    1 | 2 => r.range(1, 64),
                    3 => r.range(60, 70),
                    4 => r.range(100, 300),
                    _ => [255, 256, 257, 511, 512, 513, 900][r.below(7)],
                };
                let top = [n + 3, 4 * n + 3, 1 << 20, 1 << 40, usize::MAX / 2][r.below(5)];
                let mut seen = HashSet::new();
                let mut k = vec![];
                while k.len() < n {
                    let x = r.next() as usize % top;
                    if seen.insert(x) {
                        k.push(x);
                    }
                }
                shm(&mut o, &k);
            }
            // long lists, and keys that a hash over a prime field cannot tell apart
            for n in [2000, 5000, 12000, 30000, 100000] {
                let k: Vec<usize> = (0..n).map(|x| x * 3).collect();
                shm(&mut o, &k);
            }
            let q = 1_000_000_007usize;
            shm(&mut o, &[5, 5 + q]);
            shm(&mut o, &[0, 1, q, 2 * q, q + 1, 7]);
        }
        "im" => {
            for g in &gen {
                mapping(&mut o, &parse(g));
            }
            for _ in 0..count {
                let mut n = r.below(9);
                let mut maps = vec![];
                for _ in 0..r.range(1, 6) {
                    // mostly valid ones
                    let keep: Vec<bool> = (0..n).map(|_| r.pct(75)).collect();
                    let k = keep.iter().filter(|x| **x).count();
                    let mut to: Vec<i64> = (1..=k as i64).collect();
                    for i in 0..k {
                        let q = r.below(k);
                        to.swap(i, q);
                    }
                    let mut m = vec![k as i64];
                    let mut it = to.into_iter();
                    m.extend(keep.iter().map(|&b| if b { it.next().unwrap() } else { 0 }));
                    match r.below(12) {
                        0 => m[0] += 1,
                        1 if m[0] > 0 => m[0] -= 1,
                        2 if n > 0 => {
                            let q = r.range(1, n);
                            m[q] = r.below(k + 2) as i64;
                        }
                        _ => {}
                    }
                    n = m[0] as usize;
                    maps.push(m);
                }
                mapping(&mut o, &maps);
            }
        }
        k => {
            eprintln!("unknown kind {k}");
            std::process::exit(2);
        }
    }
    std::fs::write(&a[4], &o.text).unwrap();
    std::fs::write(format!("{}.sum", a[4]), format!("{{\"lines\":{}}}", o.id - 1)).unwrap();
    std::process::exit(0); // a list that never comes back may still be running
}
