//! One named operation of the public API = one action of the specification.
//! Arguments and results are plain JSON integers small enough for TLC (32 bit):
//!   i64 microseconds  -> [days, secs, usecs]  (floor form)
//!   Interval          -> [month, day, days, secs, usecs]
//!   text              -> array of bytes
//!   f64               -> see `f64_arg` / `f64_res`
use pgdatetime::*;
use serde_json::{json, Value};
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};

pub type Res = (&'static str, Vec<i64>);
pub const DAY: i64 = 86_400_000_000;

pub fn split(us: i64) -> [i64; 3] {
    let d = us.div_euclid(DAY);
    let r = us.rem_euclid(DAY);
    [d, r / 1_000_000, r % 1_000_000]
}
pub fn join(v: &[i64]) -> i64 {
    (v[0] as i128 * DAY as i128 + v[1] as i128 * 1_000_000 + v[2] as i128) as i64
}
fn ints(v: &Value) -> Vec<i64> {
    v.as_array().expect("array").iter().map(|x| x.as_i64().expect("int")).collect()
}
fn int(v: &Value) -> i32 {
    v.as_i64().expect("int") as i32
}
fn us(v: &Value) -> i64 {
    join(&ints(v))
}
pub fn mk_iv(month: i32, day: i32, time: i64) -> Interval {
    let b = bincode::serialize(&(time, day, month)).unwrap();
    bincode::deserialize(&b).unwrap()
}
fn iv(v: &Value) -> Interval {
    let a = ints(v);
    mk_iv(a[0] as i32, a[1] as i32, join(&a[2..5]))
}
pub fn iv_raw(i: Interval) -> (i32, i32, i64) {
    let b = bincode::serialize(&i).unwrap();
    let (t, d, m): (i64, i32, i32) = bincode::deserialize(&b).unwrap();
    (m, d, t)
}
fn iv_res(i: Interval) -> Vec<i64> {
    let (m, d, t) = iv_raw(i);
    let s = split(t);
    vec![m as i64, d as i64, s[0], s[1], s[2]]
}
fn text(v: &Value) -> String {
    let b: Vec<u8> = ints(v).iter().map(|x| *x as u8).collect();
    String::from_utf8(b).expect("utf8 input")
}
fn date(v: &Value) -> Date {
    Date::from(int(v))
}
fn ts(v: &Value) -> Timestamp {
    Timestamp::from(us(v))
}
fn time(v: &Value) -> Time {
    Time::from(us(v))
}
fn d_res(d: Date) -> Vec<i64> {
    vec![i32::from(d) as i64]
}
fn s_res(d: Timestamp) -> Vec<i64> {
    split(i64::from(d)).to_vec()
}
fn t_res(d: Time) -> Vec<i64> {
    split(i64::from(d)).to_vec()
}
fn order(v: &Value) -> DateOrder {
    match int(v) {
        0 => DateOrder::YMD,
        1 => DateOrder::DMY,
        _ => DateOrder::MDY,
    }
}
fn style(v: &Value) -> DateStyle {
    match int(v) {
        0 => DateStyle::Postgres,
        1 => DateStyle::ISO,
        2 => DateStyle::SQL,
        3 => DateStyle::German,
        _ => DateStyle::XSD,
    }
}
fn istyle(v: &Value) -> IntervalStyle {
    match int(v) {
        0 => IntervalStyle::Postgres,
        1 => IntervalStyle::PostgresVerbose,
        2 => IntervalStyle::SQLStandard,
        _ => IntervalStyle::ISO8601,
    }
}
fn ftype(v: &Value) -> FieldType {
    if int(v) == 0 {
        FieldType::Unit
    } else {
        FieldType::Epoch
    }
}
fn unit(v: &Value) -> DateUnit {
    use DateUnit::*;
    [
        Delta, Second, Minute, Hour, Day, Week, Month, Quarter, Year, Decade, Century, MilliSec,
        MicroSec, JULIAN, Dow, IsoDow, Doy, Tz, TzMinute, TzHour, Millennium, IsoYear, Epoch,
    ][int(v) as usize]
}
/// [kind, sign, whole, num, den]: kind 0 = sign * (whole + num/den), 1 = NaN, 2 = +inf, 3 = -inf,
/// 4 = sign * 2^whole
fn f64_arg(v: &Value) -> f64 {
    let a = ints(v);
    match a[0] {
        0 => a[1] as f64 * (((a[2] as i128 * a[4] as i128 + a[3] as i128) as f64) / a[4] as f64),
        1 => f64::NAN,
        2 => f64::INFINITY,
        3 => f64::NEG_INFINITY,
        _ => a[1] as f64 * (2f64).powi(a[2] as i32),
    }
}
/// round(x * scale) as four base-10^6 limbs, most significant first, floor form.
fn limbs(x: i128) -> Vec<i64> {
    const B: i128 = 1_000_000;
    let l0 = x.rem_euclid(B);
    let x = x.div_euclid(B);
    let l1 = x.rem_euclid(B);
    let x = x.div_euclid(B);
    let l2 = x.rem_euclid(B);
    let x = x.div_euclid(B);
    vec![x as i64, l2 as i64, l1 as i64, l0 as i64]
}
/// A double as micro-units (round to nearest), exactly computed from its mantissa; and how many doubles it is away from
/// the one nearest to that (9: or more).
fn f64_res(x: f64) -> Res {
    if x.is_nan() {
        return ("nan", vec![]);
    }
    if x.is_infinite() {
        return (if x > 0.0 { "pinf" } else { "ninf" }, vec![]);
    }
    let bits = x.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = (bits & ((1u64 << 52) - 1)) | if e > 0 { 1u64 << 52 } else { 0 };
    let sh = if e > 0 { e } else { 1 } - 1075;
    let mut v: i128 = m as i128 * 1_000_000;
    if sh >= 0 {
        v = if sh < 50 { v << sh } else { return ("huge", vec![]) };
    } else if sh > -120 {
        let half = 1i128 << (-sh - 1);
        v = (v + half) >> (-sh);
    } else {
        v = 0;
    }
    let near = if v % 1_000_000 == 0 { (v / 1_000_000) as f64 } else if v < 1 << 53 { v as f64 / 1e6 } else { x.abs() };
    let mut l = limbs(if neg { -v } else { v });
    l.push((near.to_bits() as i64 - x.abs().to_bits() as i64).abs().min(9));
    ("ok", l)
}
/// Julian day with fraction -> [whole, micros of day / 10^6, % 10^6]
fn jul_res(x: f64) -> Res {
    if !x.is_finite() {
        return f64_res(x);
    }
    let w = x.floor();
    let fr = ((x - w) * DAY as f64).round() as i64;
    ("ok", vec![w as i64, fr / 1_000_000, fr % 1_000_000])
}
fn bytes(s: String) -> Vec<i64> {
    s.bytes().map(|b| b as i64).collect()
}
fn r<T, E, F: Fn(T) -> Vec<i64>>(x: Result<T, E>, f: F) -> Res {
    match x {
        Ok(v) => ("ok", f(v)),
        Err(_) => ("err", vec![]),
    }
}
fn part<T: DateTime>(x: T, a: &[Value]) -> Res {
    match x.date_part(ftype(&a[1]), unit(&a[2])) {
        Ok(v) => {
            if int(&a[2]) == 13 {
                jul_res(v)
            } else {
                f64_res(v)
            }
        }
        Err(_) => ("err", vec![]),
    }
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn cmp<T: Ord + Hash>(x: T, y: T) -> Res {
    let o = x.cmp(&y) as i64;
    let p = x.partial_cmp(&y).map(|c| c as i64).unwrap_or(9);
    let ops = (x < y) as i64 + 2 * ((x <= y) as i64) + 4 * ((x > y) as i64) + 8 * ((x >= y) as i64);
    ("ok", vec![o, p, ops, (x == y) as i64, (hash(&x) == hash(&y)) as i64])
}
fn json_out<T: serde_like::S>(x: T) -> Res {
    match serde_json::to_value(&x) {
        Ok(Value::String(s)) => ("ok", bytes(s)),
        Ok(_) => ("notstr", vec![]),
        Err(_) => ("err", vec![]),
    }
}
mod serde_like {
    pub trait S: serde::Serialize {}
    impl<T: serde::Serialize> S for T {}
}
fn bin_bytes<T: serde_like::S>(x: &T) -> Vec<i64> {
    bincode::serialize(x).unwrap().iter().map(|b| *b as i64).collect()
}
fn un<T: for<'a> serde::Deserialize<'a>, F: Fn(T) -> Vec<i64>>(v: &Value, f: F) -> Res {
    let s = serde_json::to_string(&Value::String(text(v))).unwrap();
    r(serde_json::from_str::<T>(&s), f)
}
fn jrt<T: serde_like::S + for<'a> serde::Deserialize<'a>, F: Fn(T) -> Vec<i64>>(x: T, f: F) -> Res {
    match serde_json::to_string(&x) {
        Ok(s) => r(serde_json::from_str::<T>(&s), f),
        Err(_) => ("fmterr", vec![]),
    }
}
fn unbin<T: for<'a> serde::Deserialize<'a>, F: Fn(T) -> Vec<i64>>(v: &Value, f: F) -> Res {
    let b: Vec<u8> = ints(v).iter().map(|x| *x as u8).collect();
    r(bincode::deserialize::<T>(&b), f)
}
/// Self-describing binary form: integers and maps say what they are (CBOR).
fn cbor_rt<T: serde_like::S + for<'a> serde::Deserialize<'a>, F: Fn(T) -> Vec<i64>>(x: T, packed: bool, f: F) -> Res {
    let b = if packed { serde_cbor::ser::to_vec_packed(&x) } else { serde_cbor::to_vec(&x) };
    match b {
        Ok(b) => r(serde_cbor::from_slice::<T>(&b), f),
        Err(_) => ("fmterr", vec![]),
    }
}
fn wide(v: &Value) -> i128 {
    let v = ints(v);
    v[0] as i128 * DAY as i128 + v[1] as i128 * 1_000_000 + v[2] as i128
}
fn head(out: &mut Vec<u8>, major: u8, n: u64, width: i64) {
    if n < 24 && width < 1 {
        out.push(major << 5 | n as u8);
    } else if n < 1 << 8 && width < 2 {
        out.extend([major << 5 | 24, n as u8]);
    } else if n < 1 << 16 && width < 3 {
        out.push(major << 5 | 25);
        out.extend((n as u16).to_be_bytes());
    } else if n < 1 << 32 && width < 4 {
        out.push(major << 5 | 26);
        out.extend((n as u32).to_be_bytes());
    } else {
        out.push(major << 5 | 27);
        out.extend(n.to_be_bytes());
    }
}
/// An integer in at least `width` steps of size.
fn cbor_int(out: &mut Vec<u8>, v: i128, width: i64) {
    if v >= 0 {
        head(out, 0, v as u64, width)
    } else {
        head(out, 1, (-1 - v) as u64, width)
    }
}
fn of_int<T: for<'a> serde::Deserialize<'a>, F: Fn(T) -> Vec<i64>>(a: &[Value], f: F) -> Res {
    let mut b = vec![];
    cbor_int(&mut b, wide(&a[0]), a[1].as_i64().unwrap());
    r(serde_cbor::from_slice::<T>(&b), f)
}
/// A map from the fields (0 time, 1 day, 2 month, 3 none of them), by name or by number, to integers.
fn of_map(a: &[Value]) -> Res {
    let (keys, vals, named) = (ints(&a[0]), a[1].as_array().unwrap(), int(&a[2]) == 0);
    let mut b = vec![];
    head(&mut b, 5, keys.len() as u64, 0);
    for (k, v) in keys.iter().zip(vals) {
        if named {
            let n = ["time", "day", "month", "year"][*k as usize];
            head(&mut b, 3, n.len() as u64, 0);
            b.extend(n.bytes());
        } else {
            head(&mut b, 0, *k as u64, 0);
        }
        cbor_int(&mut b, wide(v), 0);
    }
    r(serde_cbor::from_slice::<Interval>(&b), iv_res)
}
fn of_list(a: &[Value]) -> Res {
    let vals = a[0].as_array().unwrap();
    let mut b = vec![];
    head(&mut b, 4, vals.len() as u64, 0);
    vals.iter().for_each(|v| cbor_int(&mut b, wide(v), 0));
    r(serde_cbor::from_slice::<Interval>(&b), iv_res)
}

/// The type of the value an operation answers with: d, t, s, i, or - for anything else.
pub fn result_type(op: &str) -> char {
    match op {
        "d_ymd" | "d_parse" | "d_rt" | "d_adddays" | "d_subdays" | "d_trunc" | "d_unjson" | "d_jrt" | "d_cbor" | "s_tod" => 'd',
        "t_new" | "t_hms" | "t_parse" | "t_rt" | "t_addiv" | "t_subiv" | "t_trunc" | "t_fromts" | "t_fromiv" | "t_unjson"
        | "t_jrt" | "t_cbor" => 't',
        "s_ymdhms" | "s_parse" | "s_rt" | "s_addiv" | "s_subiv" | "s_addtime" | "s_subtime" | "s_trunc" | "s_unjson" | "s_jrt" | "s_cbor"
        | "d_tots" | "d_addtime" | "d_addiv" | "d_subiv" => 's',
        "i_new" | "i_ymwd" | "i_parse" | "i_rt" | "i_add" | "i_sub" | "i_plus" | "i_neg" | "i_jh" | "i_jd" | "i_ji" | "i_mul"
        | "i_div" | "i_trunc" | "i_fromt" | "i_unjson" | "i_jrt" | "i_cbor" | "t_subt" | "s_subdate" | "s_sub" | "s_age" => 'i',
        _ => '-',
    }
}

pub fn exec(op: &str, a: &[Value]) -> Res {
    match op {
        // ---- Date
        "d_ymd" => r(Date::try_from_ymd(int(&a[0]), int(&a[1]), int(&a[2])), d_res),
        "d_parse" => r(Date::try_from_str(&text(&a[0]), order(&a[1])), d_res),
        "d_fmt" => r(date(&a[0]).format(style(&a[1]), order(&a[2])), bytes),
        "d_rt" => match date(&a[0]).format(style(&a[1]), order(&a[2])) {
            Ok(s) => r(Date::try_from_str(&s, order(&a[3])), d_res),
            Err(_) => ("fmterr", vec![]),
        },
        "d_adddays" => r(date(&a[0]).add_days(int(&a[1])), d_res),
        "d_subdays" => r(date(&a[0]).sub_days(int(&a[1])), d_res),
        "d_subdate" => r(date(&a[0]).sub_date(date(&a[1])), |n| vec![n as i64]),
        "d_addtime" => r(date(&a[0]).add_time(time(&a[1])), s_res),
        "d_addiv" => r(date(&a[0]).add_interval(iv(&a[1])), s_res),
        "d_subiv" => r(date(&a[0]).sub_interval(iv(&a[1])), s_res),
        "d_part" => part(date(&a[0]), a),
        "d_trunc" => r(date(&a[0]).truncate(ftype(&a[1]), unit(&a[2])), d_res),
        "d_tots" => r(Timestamp::try_from(date(&a[0])), s_res),
        "d_json" => json_out(date(&a[0])),
        "d_unjson" => un(&a[0], d_res),
        "d_jrt" => jrt(date(&a[0]), d_res),
        "d_bin" => ("ok", bin_bytes(&date(&a[0]))),
        "d_unbin" => unbin(&a[0], d_res),
        "d_cbor" => cbor_rt(date(&a[0]), int(&a[1]) == 1, d_res),
        "d_ofint" => of_int(a, d_res),
        "d_cmp" => cmp(date(&a[0]), date(&a[1])),
        "d_fin" => {
            let x = date(&a[0]);
            ("ok", vec![x.is_finite() as i64, x.is_infinite() as i64])
        }
        // ---- Time
        "t_new" => ("ok", t_res(Time::new())),
        "t_hms" => r(Time::try_from_hms(int(&a[0]), int(&a[1]), f64_arg(&a[2])), t_res),
        "t_parse" => r(Time::try_from_str(&text(&a[0]), int(&a[1]), order(&a[2])), t_res),
        "t_fmt" => r(time(&a[0]).format(style(&a[1])), bytes),
        "t_rt" => match time(&a[0]).format(style(&a[1])) {
            Ok(s) => r(Time::try_from_str(&s, -1, order(&a[2])), t_res),
            Err(_) => ("fmterr", vec![]),
        },
        "t_addiv" => ("ok", t_res(time(&a[0]).add_interval(iv(&a[1])))),
        "t_subiv" => ("ok", t_res(time(&a[0]).sub_interval(iv(&a[1])))),
        "t_subt" => ("ok", iv_res(time(&a[0]).sub_time(time(&a[1])))),
        "t_part" => part(time(&a[0]), a),
        "t_trunc" => r(time(&a[0]).truncate(ftype(&a[1]), unit(&a[2])), t_res),
        "t_fromts" => r(<Option<Time>>::try_from(ts(&a[0])), |o| match o {
            Some(t) => t_res(t),
            None => vec![],
        }),
        "t_fromiv" => ("ok", t_res(Time::from(iv(&a[0])))),
        "t_json" => json_out(time(&a[0])),
        "t_unjson" => un(&a[0], t_res),
        "t_jrt" => jrt(time(&a[0]), t_res),
        "t_bin" => ("ok", bin_bytes(&time(&a[0]))),
        "t_unbin" => unbin(&a[0], t_res),
        "t_cbor" => cbor_rt(time(&a[0]), int(&a[1]) == 1, t_res),
        "t_ofint" => of_int(a, t_res),
        "t_cmp" => cmp(time(&a[0]), time(&a[1])),
        "t_fin" => {
            let x = time(&a[0]);
            ("ok", vec![x.is_finite() as i64, x.is_infinite() as i64])
        }
        // ---- Timestamp
        "s_ymdhms" => r(
            Timestamp::try_from_ymd_hms(
                int(&a[0]), int(&a[1]), int(&a[2]), int(&a[3]), int(&a[4]), f64_arg(&a[5]),
            ),
            s_res,
        ),
        "s_parse" => r(Timestamp::try_from_str(&text(&a[0]), int(&a[1]), order(&a[2])), s_res),
        "s_fmt" => r(ts(&a[0]).format(style(&a[1]), order(&a[2])), bytes),
        "s_rt" => match ts(&a[0]).format(style(&a[1]), order(&a[2])) {
            Ok(s) => r(Timestamp::try_from_str(&s, -1, order(&a[3])), s_res),
            Err(_) => ("fmterr", vec![]),
        },
        "s_addiv" => r(ts(&a[0]).add_interval(iv(&a[1])), s_res),
        "s_subiv" => r(ts(&a[0]).sub_interval(iv(&a[1])), s_res),
        "s_addtime" => r(ts(&a[0]).add_time(time(&a[1])), s_res),
        "s_subtime" => r(ts(&a[0]).sub_time(time(&a[1])), s_res),
        "s_subdate" => r(ts(&a[0]).sub_date(date(&a[1])), iv_res),
        "s_sub" => r(ts(&a[0]).sub_timestamp(ts(&a[1])), iv_res),
        "s_age" => r(ts(&a[0]).age(ts(&a[1])), iv_res),
        "s_part" => part(ts(&a[0]), a),
        "s_trunc" => r(ts(&a[0]).truncate(ftype(&a[1]), unit(&a[2])), s_res),
        "s_tod" => r(Date::try_from(ts(&a[0])), d_res),
        "s_json" => json_out(ts(&a[0])),
        "s_unjson" => un(&a[0], s_res),
        "s_jrt" => jrt(ts(&a[0]), s_res),
        "s_bin" => ("ok", bin_bytes(&ts(&a[0]))),
        "s_unbin" => unbin(&a[0], s_res),
        "s_cbor" => cbor_rt(ts(&a[0]), int(&a[1]) == 1, s_res),
        "s_ofint" => of_int(a, s_res),
        "s_cmp" => cmp(ts(&a[0]), ts(&a[1])),
        "s_fin" => {
            let x = ts(&a[0]);
            ("ok", vec![x.is_finite() as i64, x.is_infinite() as i64])
        }
        // ---- Interval
        "i_new" => ("ok", iv_res(Interval::new())),
        "i_ymwd" => r(
            Interval::try_from_ymwd_hms(
                int(&a[0]), int(&a[1]), int(&a[2]), int(&a[3]), int(&a[4]), int(&a[5]),
                f64_arg(&a[6]),
            ),
            iv_res,
        ),
        "i_parse" => r(Interval::try_from_str(&text(&a[0]), int(&a[1]), istyle(&a[2])), iv_res),
        "i_fmt" => r(iv(&a[0]).format(istyle(&a[1])), bytes),
        "i_rt" => match iv(&a[0]).format(istyle(&a[1])) {
            Ok(s) => r(Interval::try_from_str(&s, -1, istyle(&a[1])), iv_res),
            Err(_) => ("fmterr", vec![]),
        },
        "i_add" => r(iv(&a[0]).add_interval(iv(&a[1])), iv_res),
        "i_sub" => r(iv(&a[0]).sub_interval(iv(&a[1])), iv_res),
        "i_plus" => ("ok", iv_res(iv(&a[0]) + iv(&a[1]))),
        "i_neg" => r(iv(&a[0]).negate(), iv_res),
        "i_jh" => ("ok", iv_res(iv(&a[0]).justify_hours())),
        "i_jd" => ("ok", iv_res(iv(&a[0]).justify_days())),
        "i_ji" => ("ok", iv_res(iv(&a[0]).justify_interval())),
        "i_mul" => r(iv(&a[0]).mul_f64(f64_arg(&a[1])), iv_res),
        "i_div" => r(iv(&a[0]).div_f64(f64_arg(&a[1])), iv_res),
        "i_part" => part(iv(&a[0]), a),
        "i_trunc" => r(iv(&a[0]).truncate(ftype(&a[1]), unit(&a[2])), iv_res),
        "i_fromt" => ("ok", iv_res(Interval::from(time(&a[0])))),
        "i_i128" => ("ok", limbs(i128::from(iv(&a[0])))),
        "i_json" => json_out(iv(&a[0])),
        "i_unjson" => un(&a[0], iv_res),
        "i_jrt" => jrt(iv(&a[0]), iv_res),
        "i_bin" => ("ok", bin_bytes(&iv(&a[0]))),
        "i_unbin" => unbin(&a[0], iv_res),
        "i_cbor" => cbor_rt(iv(&a[0]), int(&a[1]) == 1, iv_res),
        "i_ofmap" => of_map(a),
        "i_oflist" => of_list(a),
        "i_cmp" => cmp(iv(&a[0]), iv(&a[1])),
        "i_fin" => {
            let x = iv(&a[0]);
            ("ok", vec![x.is_finite() as i64, x.is_infinite() as i64])
        }
        _ => panic!("unknown op {}", op),
    }
}

pub fn record(op: &str, a: &Value, res: &Res) -> Value {
    // TLC's integers have 32 bits; nothing the specification admits needs more
    if res.1.iter().any(|x| i32::try_from(*x).is_err()) {
        return json!({"op": op, "a": a, "k": "huge", "v": []});
    }
    json!({"op": op, "a": a, "k": res.0, "v": res.1})
}
