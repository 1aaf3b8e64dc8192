//! Runs numbered scenarios on 8 threads. A scenario that does not come back is reported as such;
//! the numbers of the running scenarios are kept in a file, so that a crash can be traced.
use serde_json::{json, Value};
use std::os::unix::fs::FileExt;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
const LIMIT: u64 = 100;

pub fn run(count: usize, only: Option<usize>, out: &str, f: impl Fn(usize) -> Vec<Value> + Sync) -> Vec<Value> {
    let at = std::fs::File::create(format!("{out}.at")).unwrap();
    let cur: Vec<Mutex<Option<(usize, Instant)>>> = (0..THREADS).map(|_| Mutex::new(None)).collect();
    let done = std::sync::atomic::AtomicBool::new(false);
    let next = std::sync::atomic::AtomicUsize::new(0);
    use std::sync::atomic::Ordering::SeqCst;
    let mut lines: Vec<Value> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..THREADS)
            .map(|t| {
                let (f, at, cur, next) = (&f, &at, &cur, &next);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let mut v = vec![];
                        loop {
                            let id = next.fetch_add(1, SeqCst);
                            if id >= count {
                                break;
                            }
                            if only.is_some_and(|k| k != id) {
                                continue;
                            }
                            *cur[t].lock().unwrap() = Some((id, Instant::now()));
                            let _ = at.write_all_at(format!("{id:<19}\n").as_bytes(), 20 * t as u64);
                            v.extend(
                                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(id)))
                                    .unwrap_or_else(|e| vec![json!({"id": id, "panic": panic_msg(&e)})]),
                            );
                            *cur[t].lock().unwrap() = None;
                        }
                        v
                    })
                    .unwrap()
            })
            .collect();
        let (cur, done) = (&cur, &done);
        sc.spawn(move || {
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(50));
                for c in cur.iter() {
                    let g = *c.lock().unwrap();
                    if let Some((id, t)) = g {
                        if t.elapsed().as_secs() > LIMIT {
                            let l = json!({"id": id, "hang": true}).to_string() + "\n";
                            std::fs::write(out, l).unwrap();
                            std::process::exit(0);
                        }
                    }
                }
            }
        });
        let r = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
        done.store(true, SeqCst);
        r
    });
    lines.sort_by_key(|l| l["id"].as_u64().unwrap_or(0));
    lines
}
pub fn write(out: &str, lines: &[Value], sum: Value) {
    let mut text = String::new();
    for l in lines {
        text += &l.to_string();
        text.push('\n');
    }
    std::fs::write(out, text).unwrap();
    std::fs::write(format!("{out}.sum"), sum.to_string()).unwrap();
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    };
    s.chars().take(200).collect()
}
