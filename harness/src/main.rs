//! pgdt-harness record IN OUT THREADS : execute the operations of IN (ndjson: {"op","a"}) against the
//! real library and write one record per line to OUT (ndjson: {"op","a","k","v"}), in input order.
//! The input is cut into THREADS contiguous sessions; every session runs on its own thread, all at once.
mod cal;
mod ops;
use serde_json::{json, Value};
use std::fs;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// The last values a session has got, one of each type; "@d", "@t", "@s", "@i" as arguments stand for them.
struct Last {
    d: Value,
    t: Value,
    s: Value,
    i: Value,
}

impl Last {
    fn new() -> Self {
        Last { d: json!(0), t: json!([0, 0, 0]), s: json!([0, 0, 0]), i: json!([0, 0, 0, 0, 0]) }
    }
    fn args(&self, a: &Value) -> Vec<Value> {
        a.as_array()
            .unwrap()
            .iter()
            .map(|x| match x.as_str() {
                Some("@d") => self.d.clone(),
                Some("@t") => self.t.clone(),
                Some("@s") => self.s.clone(),
                Some("@i") => self.i.clone(),
                _ => x.clone(),
            })
            .collect()
    }
    fn keep(&mut self, op: &str, r: &ops::Res) {
        if r.0 != "ok" || r.1.is_empty() {
            return;
        }
        match ops::result_type(op) {
            'd' => self.d = json!(r.1[0]),
            't' => self.t = json!(r.1),
            's' => self.s = json!(r.1),
            'i' => self.i = json!(r.1),
            _ => {}
        }
    }
}

fn run_one(op: &str, a: &[Value]) -> ops::Res {
    if op == "soak" {
        return soak(a);
    }
    let op = op.to_string();
    let a = a.to_vec();
    match std::panic::catch_unwind(move || ops::exec(&op, &a)) {
        Ok(r) => r,
        Err(_) => ("panic", vec![]),
    }
}

/// soak [N, THREADS, CALLS]: every thread makes N of the calls, each its own way through them, all at once;
/// then each call is made over and over by one thread and every other call once after it. Answers how many of
/// the calls ever gave another answer than when they were first made.
fn soak(a: &[Value]) -> ops::Res {
    let n = a[0].as_u64().unwrap();
    let calls: Vec<(String, Vec<Value>)> = a[2]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| (c[0].as_str().unwrap().to_string(), c[1].as_array().unwrap().clone()))
        .collect();
    let first: Vec<ops::Res> = calls.iter().map(|c| run_one(&c.0, &c.1)).collect();
    let changed: Vec<AtomicUsize> = calls.iter().map(|_| AtomicUsize::new(0)).collect();
    std::thread::scope(|sc| {
        for t in 0..a[1].as_u64().unwrap() {
            let (calls, first, changed) = (&calls, &first, &changed);
            sc.spawn(move || {
                let mut x = t * 7919 + 12345;
                for _ in 0..n {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let i = (x >> 33) as usize % calls.len();
                    if run_one(&calls[i].0, &calls[i].1) != first[i] {
                        changed[i].store(1, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    for call in &calls {
        for _ in 0..n / 20 {
            run_one(&call.0, &call.1);
        }
        for (i, other) in calls.iter().enumerate() {
            if run_one(&other.0, &other.1) != first[i] {
                changed[i].store(1, Ordering::Relaxed);
            }
        }
    }
    ("ok", vec![changed.iter().map(|c| c.load(Ordering::Relaxed) as i64).sum()])
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args[1].as_str() {
        "record" => record(&args[2], &args[3], args[4].parse().unwrap()),
        "calendar" => std::process::exit(cal::run(&args[2..])),
        _ => std::process::exit(2),
    }
}

fn record(inp: &str, out: &str, threads: usize) {
    let lines: Vec<Value> = BufReader::new(fs::File::open(inp).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let n = lines.len();
    let lines = Arc::new(lines);
    let res: Arc<Vec<Mutex<Option<(Value, ops::Res)>>>> = Arc::new((0..n).map(|_| Mutex::new(None)).collect());
    let per = (n + threads - 1) / threads.max(1);
    let pos: Arc<Vec<AtomicUsize>> = Arc::new((0..threads).map(|_| AtomicUsize::new(0)).collect());
    let mut hs = vec![];
    for t in 0..threads {
        let (lines, res, pos) = (lines.clone(), res.clone(), pos.clone());
        let (lo, hi) = ((t * per).min(n), ((t + 1) * per).min(n));
        hs.push((
            lo,
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut last = Last::new();
                    for i in lo..hi {
                        pos[t].store(i - lo, Ordering::SeqCst);
                        let op = lines[i]["op"].as_str().unwrap();
                        let a = last.args(&lines[i]["a"]);
                        *res[i].lock().unwrap() = Some((Value::Array(a.clone()), ("hang", vec![])));
                        let r = run_one(op, &a);
                        last.keep(op, &r);
                        *res[i].lock().unwrap() = Some((Value::Array(a), r));
                    }
                    pos[t].store(usize::MAX, Ordering::SeqCst);
                })
                .unwrap(),
        ));
    }
    // A call that does not return within ~30 s of no progress is recorded as "hang".
    let mut last: Vec<(usize, u32)> = vec![(0, 0); threads];
    loop {
        let mut all = true;
        for t in 0..threads {
            let p = pos[t].load(Ordering::SeqCst);
            if p == usize::MAX {
                last[t] = (p, 0);
                continue;
            }
            if last[t].1 < 1500 {
                all = false;
            }
            last[t] = if last[t].0 == p { (p, last[t].1 + 1) } else { (p, 0) };
        }
        if all {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut w = BufWriter::new(fs::File::create(out).unwrap());
    for t in 0..threads {
        let (lo, hi) = ((t * per).min(n), ((t + 1) * per).min(n));
        for i in lo..hi {
            // A session ends with the call that does not return.
            match &*res[i].lock().unwrap() {
                Some((a, r)) => writeln!(w, "{}", ops::record(lines[i]["op"].as_str().unwrap(), a, r)).unwrap(),
                None => break,
            }
        }
    }
    w.flush().unwrap();
    std::process::exit(0);
}
