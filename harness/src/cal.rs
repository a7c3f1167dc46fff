//! pgdt-harness calendar TABLE CYCLES WHAT THREADS : compare the library with the counted calendar.
//! TABLE holds one 400-year cycle of days as the specification counted them ("n y m d doy wd iy iw" per
//! line); it is laid over the cycles CYCLES ("first:last:step,.."), within the range of dates.
//! WHAT: ymd, parts, trunc or read.
//! Prints what was compared and the first differences as JSON.
use crate::ops;
use pgdatetime::*;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

const CYCLE: i64 = 146_097;
const MIN: i64 = -2_451_545;
const MAX: i64 = 2_145_031_948;
const END_TS: i64 = 106_751_983;

struct Row {
    y: i64,
    m: i32,
    d: i32,
    last: bool,
    doy: i64,
    wd: i64,
    iy: i64,
    iw: i64,
}

/// The operation, its arguments, what is specified.
type Diff = (String, Value, String);

fn day(r: &Row, n: i64, c: i64, what: &str, calls: &mut u64, bad: &mut Vec<Diff>) {
    let x = n + c * CYCLE;
    let y = r.y + 400 * c;
    let w = if y > 0 { y } else { y - 1 };
    let inside = (MIN..=MAX).contains(&x);
    macro_rules! is {
        ($op:expr, $args:expr, $want:expr, $ok:expr) => {
            *calls += 1;
            if !$ok && bad.len() < 30 {
                bad.push(($op.to_string(), $args, $want));
            }
        };
    }
    if what == "ymd" {
        let got = Date::try_from_ymd(w as i32, r.m, r.d).ok().map(|d| i32::from(d) as i64);
        let want = if inside { Some(x) } else { None };
        is!("d_ymd", json!([w, r.m, r.d]), format!("{:?}", want), got == want);
        if r.last {
            let got = Date::try_from_ymd(w as i32, r.m, r.d + 1).is_ok();
            is!("d_ymd", json!([w, r.m, r.d + 1]), "None".into(), !got);
        }
    }
    if !inside {
        return;
    }
    let date = Date::from(x as i32);
    if what == "ymd" {
        let text = format!("{:04}-{:02}-{:02}{}", if y > 0 { y } else { 1 - y }, r.m, r.d, if y > 0 { "" } else { " BC" });
        let got = date.format(DateStyle::ISO, DateOrder::YMD).unwrap_or_default();
        is!("d_fmt", json!([x, 1, 0]), text.clone(), got == text);
    }
    if what == "read" {
        let k = x.rem_euclid(5);
        let style = [DateStyle::ISO, DateStyle::SQL, DateStyle::Postgres, DateStyle::German, DateStyle::XSD];
        let write = [DateOrder::YMD, DateOrder::DMY, DateOrder::MDY, DateOrder::YMD, DateOrder::MDY];
        let read = [DateOrder::YMD, DateOrder::DMY, DateOrder::MDY, DateOrder::DMY, DateOrder::YMD];
        let (s, w, q) = ([1, 2, 0, 3, 4][k as usize], [0, 1, 2, 0, 2][k as usize], [0, 1, 2, 1, 0][k as usize]);
        let text = date.format(style[k as usize], write[k as usize]).unwrap_or_default();
        let got = Date::try_from_str(&text, read[k as usize]).ok().map(|d| i32::from(d) as i64);
        is!("d_rt", json!([x, s, w, q]), x.to_string(), got == Some(x));
    }
    if what == "parts" && x < END_TS {
        let parts = [
            (8, DateUnit::Year, w),
            (6, DateUnit::Month, r.m as i64),
            (4, DateUnit::Day, r.d as i64),
            (16, DateUnit::Doy, r.doy),
            (14, DateUnit::Dow, r.wd),
            (15, DateUnit::IsoDow, if r.wd == 0 { 7 } else { r.wd }),
            (5, DateUnit::Week, r.iw),
            (21, DateUnit::IsoYear, r.iy + 400 * c),
            (13, DateUnit::JULIAN, x + 2_451_545),
        ];
        for (u, unit, want) in parts {
            let got = date.date_part(FieldType::Unit, unit).ok();
            is!("d_part", json!([x, 0, u]), want.to_string(), got == Some(want as f64));
        }
    }
    if what == "trunc" && x < END_TS {
        // Where the day's month, year and week begin.
        let starts =
            [(6, DateUnit::Month, x - r.d as i64 + 1), (8, DateUnit::Year, x - r.doy + 1), (5, DateUnit::Week, x - (r.wd + 6) % 7)];
        for (u, unit, want) in starts {
            let got = date.truncate(FieldType::Unit, unit).ok().map(|d| i32::from(d) as i64);
            let want = if want < MIN { None } else { Some(want) };
            is!("d_trunc", json!([x, 0, u]), format!("{:?}", want), got == want);
        }
    }
}

pub fn run(a: &[String]) -> i32 {
    let threads: usize = a[3].parse().unwrap();
    let mut cycles: Vec<i64> = vec![];
    for r in a[1].split(',') {
        let v: Vec<i64> = r.split(':').map(|x| x.parse().unwrap()).collect();
        cycles.extend((v[0]..=v[1]).step_by(v[2] as usize));
    }
    let cycles = Arc::new(cycles);
    let what = Arc::new(a[2].clone());
    let raw: Vec<Vec<i64>> = std::fs::read_to_string(&a[0])
        .unwrap()
        .lines()
        .map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect())
        .collect();
    if raw.len() as i64 != CYCLE {
        return 2;
    }
    let rows: Arc<Vec<Row>> = Arc::new(
        (0..raw.len())
            .map(|k| {
                let v = &raw[k];
                assert_eq!(v[0], k as i64);
                Row {
                    y: v[1],
                    m: v[2] as i32,
                    d: v[3] as i32,
                    last: raw[(k + 1) % raw.len()][3] == 1,
                    doy: v[4],
                    wd: v[5],
                    iy: v[6],
                    iw: v[7],
                }
            })
            .collect(),
    );
    let next = Arc::new(AtomicUsize::new(0));
    let total = Arc::new(AtomicU64::new(0));
    let diffs: Arc<Mutex<Vec<Diff>>> = Arc::new(Mutex::new(vec![]));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (rows, next, total, diffs, cycles, what) =
                (rows.clone(), next.clone(), total.clone(), diffs.clone(), cycles.clone(), what.clone());
            std::thread::spawn(move || loop {
                let Some(&c) = cycles.get(next.fetch_add(1, Ordering::SeqCst)) else { break };
                let (mut calls, mut bad) = (0, vec![]);
                for (n, r) in rows.iter().enumerate() {
                    let (mut k, mut b) = (0, vec![]);
                    let p = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| day(r, n as i64, c, &what, &mut k, &mut b)));
                    calls += k;
                    bad.append(&mut b);
                    if p.is_err() && bad.len() < 30 {
                        let w = r.y + 400 * c;
                        bad.push(("d_ymd".into(), json!([if w > 0 { w } else { w - 1 }, r.m, r.d]), "no panic".into()));
                    }
                    if bad.len() >= 30 {
                        break;
                    }
                }
                total.fetch_add(calls, Ordering::SeqCst);
                let mut d = diffs.lock().unwrap();
                d.extend(bad);
                if d.len() >= 30 {
                    break;
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let d = diffs.lock().unwrap();
    let out: Vec<Value> = d
        .iter()
        .take(30)
        .map(|(op, args, want)| {
            let v = args.as_array().unwrap();
            let (k, got) = std::panic::catch_unwind(|| ops::exec(op, v)).unwrap_or(("panic", vec![]));
            json!({"op": op, "a": args, "k": k, "v": got, "want": want})
        })
        .collect();
    println!("{}", json!({"replayed": total.load(Ordering::SeqCst), "violations": out}));
    0
}
