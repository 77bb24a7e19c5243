//! Calls of single functions: decimals, their text, the bitmap, the formulas of both pools.
use hmmcl_sandbox::cl_pool as dp;
use hmmcl_sandbox::cl_pool::PoolMath as _;
use hmmcl_sandbox::cl_pool_float as fp;
use hmmcl_sandbox::cl_pool_float::PoolMath as _;
use hmmcl_sandbox::decimal::*;
use hmmcl_sandbox::state::tick_bitmap::{byte_get_next_tick, PoolTickBitmap};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use crate::driver::Beat;

fn dec(v: &Value) -> Decimal { Decimal::new(v[0].as_str().unwrap().parse().unwrap(), v[1].as_u64().unwrap() as u8, v[2].as_bool().unwrap()) }
fn vd(d: Decimal) -> Value { json!(["d", d.value.to_string(), d.scale, d.negative]) }
fn vdr(d: Result<Decimal, ErrorCode>) -> Value { match d { Ok(d) => vd(d), Err(_) => json!(["e"]) } }
fn vi<T: ToString>(n: T) -> Value { json!(["i", n.to_string()]) }
fn vb(b: bool) -> Value { json!(["b", b]) }
fn vbr(b: Result<bool, ErrorCode>) -> Value { match b { Ok(b) => vb(b), Err(_) => json!(["e"]) } }
fn text(v: &Value) -> String { v.as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect() }
fn chars(s: &str) -> Value { json!(s.chars().map(|c| c.to_string()).collect::<Vec<_>>()) }

fn call(op: &str, a: &Value) -> Value {
    let x = || dec(&a[0]);
    let y = || dec(&a[1]);
    let k = || a[1].as_u64().unwrap() as u8;
    let n = |i: usize| a[i].as_str().unwrap().parse::<u128>().unwrap();
    match op {
        "add" => vdr(Add::add(x(), y())),
        "sub" => vdr(Sub::sub(x(), y())),
        "neg" => vd(-x()),
        "mul" => vd(Mul::mul(x(), y())),
        "mulup" => vd(x().mul_up(y())),
        "muli" => vd(Mul::mul(x(), n(1))),
        "div" => vd(Div::div(x(), y())),
        "divup" => vd(x().div_up(y())),
        "divs" => vd(x().div_to_scale(y(), a[2].as_u64().unwrap() as u8)),
        "toscale" => vd(x().to_scale(k())),
        "toscaleup" => vd(x().to_scale_up(k())),
        "tocompute" => vd(x().to_compute_scale()),
        "abs" => vi(x().abs()),
        "absup" => vi(x().abs_up()),
        "scaled" => vi(x().to_scaled_amount(k())),
        "scaledup" => vi(x().to_scaled_amount_up(k())),
        "denominator" => vi(x().denominator()),
        "ispos" => vb(x().is_positive()),
        "isneg" => vb(x().is_negative()),
        "iszero" => vb(x().is_zero()),
        "isint" => vb(x().is_integer()),
        "tou64" => vi(x().to_u64()),
        "intou64" => vi(Into::<u64>::into(x())),
        "intousize" => vi(Into::<usize>::into(x())),
        "intou128" => vi(Into::<u128>::into(x())),
        "intoi32" => vi(Into::<i32>::into(x())),
        "fromu64" => vd(Decimal::from_u64(n(0) as u64)),
        "fromu128" => vd(Decimal::from_u128(n(0))),
        "fromscaled" => vd(Decimal::from_scaled_amount(n(0) as u64, k())),
        "one" => vd(Decimal::one()),
        "two" => vd(Decimal::two()),
        "eq" => vbr(Compare::eq(x(), y())),
        "lt" => vbr(Compare::lt(x(), y())),
        "gt" => vbr(Compare::gt(x(), y())),
        "lte" => vbr(Compare::lte(x(), y())),
        "gte" => vbr(Compare::gte(x(), y())),
        "min" => vd(Compare::min(x(), y())),
        "max" => vd(Compare::max(x(), y())),
        "sqrt" => vdr(x().sqrt()),
        "ln" => vdr(x().ln()),
        "powi" => vd(Pow::pow(x(), a[1].as_u64().unwrap() as u128)),
        "pow" => vd(Pow::pow(x(), y())),
        "bitlen" => vdr(x().bit_length()),
        "parse" => vdr(Decimal::from_str(&text(&a[0]))),
        "show" => json!(["t", chars(&x().to_string())]),
        "trip" => vdr(Decimal::from_str(&x().to_string())),
        _ => panic!("unknown call {}", op),
    }
}

/// should the call never return, this is what is reported
fn pulse(beat: &Beat, s: &Value, e: Value) {
    let mut g = beat.lock().unwrap();
    let mut h = json!({"id": s["id"], "ev": [{"calls": []}]});
    if !s["imp"].is_null() { h["imp"] = s["imp"].clone(); }
    *g = (std::time::Instant::now(), e, vec![h]);
}

/// {id, calls: [{op, a}]}: "$k" as an argument is the outcome of the k-th call, when that is a decimal
pub fn calls(s: &Value, beat: &Beat) -> Value {
    let mut done: Vec<Value> = vec![];
    let mut outs: Vec<Value> = vec![];
    for c in s["calls"].as_array().unwrap() {
        let mut a = c["a"].clone();
        let mut skip = false;
        for x in a.as_array_mut().unwrap() {
            if let Some(k) = x.as_str().and_then(|t| t.strip_prefix('$')) {
                let o: &Value = &outs[k.parse::<usize>().unwrap()];
                if o[0] == "d" { *x = json!([o[1], o[2], o[3]]); } else { skip = true; }
            }
        }
        if skip { outs.push(json!(["skipped"])); continue; }
        let op = c["op"].as_str().unwrap();
        pulse(beat, s, json!({"calls": [{"op": op, "a": a, "o": ["hang"]}]}));
        let o = catch_unwind(AssertUnwindSafe(|| call(op, &a))).unwrap_or(json!(["p"]));
        outs.push(o.clone());
        done.push(json!({"op": op, "a": a, "o": o}));
    }
    let mut ev = vec![json!({"calls": []})];
    for b in done.chunks(40) { ev.push(json!({"calls": b})); }
    json!({"id": s["id"], "ev": ev})
}

// ------------------------------------------------------------------------------------------------
/// {id, ev: [["act", t], ["unset", t], ["ask", [[t, d], ..]], ["askall", [t, ..]], ["bytes"]]}
pub fn bitmap(s: &Value, beat: &Beat) -> Value {
    let mut m = PoolTickBitmap::default();
    let top = (m.tick_map.len() * 8) as i32;
    let mut ev = vec![json!({"op": "new"})];
    for e in s["ev"].as_array().unwrap() {
        let op = e[0].as_str().unwrap();
        pulse(beat, s, json!({"op": op, "res": "hang", "arg": e[1]}));
        let r = catch_unwind(AssertUnwindSafe(|| match op {
            "act" | "unset" => {
                let t = e[1].as_i64().unwrap() as i32;
                if op == "act" { m.activate_tick(t) } else { m.unset_tick(t) }
                let on: Vec<i32> = (0..top).filter(|t| m.tick_is_active(*t)).collect();
                json!({"op": op, "t": t, "on": on, "res": "ok"})
            }
            "ask" => {
                let q: Vec<Value> = e[1].as_array().unwrap().iter().map(|q| {
                    let (t, d) = (q[0].as_i64().unwrap() as i32, q[1].as_u64().unwrap() as u8);
                    json!([t, d, m.get_next_tick(t, d).unwrap_or(-1)])
                }).collect();
                json!({"op": "ask", "q": q, "res": "ok"})
            }
            "bytes" => {
                let b = e[1].as_u64().unwrap() as u8;
                let mut q = vec![];
                for d in 0..2u8 { for ix in 0..8u8 { for c in 0..2 {
                    q.push(json!([b, d, ix, c, byte_get_next_tick(b, d, ix, c == 1).map(|x| x as i32).unwrap_or(-1)]));
                } } }
                json!({"op": "byte", "q": q, "res": "ok"})
            }
            _ => panic!("unknown"),
        }));
        match r {
            Ok(v) => ev.push(v),
            Err(_) => { ev.push(json!({"op": op, "res": "panic", "arg": e[1]})); break; }
        }
    }
    json!({"id": s["id"], "ev": ev})
}

// ------------------------------------------------------------------------------------------------
/// a number of the float pool with 24 decimals
fn f24(f: f64) -> String { crate::pool::s24_f(f) }
fn d24(d: Decimal) -> Value { json!(["n", format!("{}{}{}", if d.negative && d.value != 0 { "-" } else { "" }, d.value, if d.value == 0 { String::new() } else { "0".repeat(24 - d.scale as usize) })]) }
fn n24(f: f64) -> Value { if f.is_finite() { json!(["n", f24(f)]) } else { json!(["nan"]) } }

fn formula(imp: &str, op: &str, a: &Value) -> Value {
    let t = |i: usize| a[i].as_u64().unwrap();
    let b = |i: usize| a[i].as_bool().unwrap();
    if imp == "dec" {
        type M = dp::Pool<'static>;
        // arguments in units of 1e-12
        let n = |i: usize| { let v: i128 = a[i].as_str().unwrap().parse().unwrap(); Decimal::new(v.unsigned_abs(), COMPUTE_SCALE, v < 0) };
        let t = |i: usize| t(i) as u128;
        match op {
            "t2p" => d24(M::tick_to_rp(t(0))),
            "p2t" => vi(M::rp_to_tick(n(0), b(1))),
            "p2tl" => vi(M::rp_to_tick_loop(n(0), b(1), t(2))),
            "tposs" => vi(M::tk_to_possible_tk(t(0), t(1), b(2))),
            "pposs" => vi(M::rp_to_possible_tk(n(0), t(1), b(2), t(3))),
            "liqx" => d24(M::liq_x_only(n(0), n(1), n(2))),
            "liqy" => d24(M::liq_y_only(n(0), n(1), n(2))),
            "liq" => d24(M::liq_from_x_y_rp_rng(n(0), n(1), n(2), n(3), n(4))),
            "liqt" => d24(M::liq_from_x_y_tick_rng(n(0), n(1), t(2), t(3), t(4))),
            "xl" => d24(M::x_from_l_rp_rng(n(0), n(1), n(2), n(3))),
            "xlt" => d24(M::x_from_l_tick_rng(n(0), t(1), t(2), t(3))),
            "yl" => d24(M::y_from_l_rp_rng(n(0), n(1), n(2), n(3))),
            "ylt" => d24(M::y_from_l_tick_rng(n(0), t(1), t(2), t(3))),
            "rpa1" => d24(M::rpa_from_l_rp_y(n(0), n(1), n(2))),
            "rpb1" => d24(M::rpb_from_l_rp_x(n(0), n(1), n(2))),
            "rpa2" => d24(M::rpa_from_x_y_rp_rpb(n(0), n(1), n(2), n(3))),
            "rpb2" => d24(M::rpb_from_x_y_rp_rpa(n(0), n(1), n(2), n(3))),
            "dx" => d24(M::dx_from_l_drp(n(0), n(1), n(2))),
            "dy" => d24(M::dy_from_l_drp(n(0), n(1), n(2))),
            "dxh" => d24(M::dx_from_l_drp_hmm(n(0), n(1), n(2), n(3), n(4))),
            "dyh" => d24(M::dy_from_l_drp_hmm(n(0), n(1), n(2), n(3), n(4))),
            "rpdx" => d24(M::rp_new_from_l_dx(n(0), n(1), n(2))),
            "rpdy" => d24(M::rp_new_from_l_dy(n(0), n(1), n(2))),
            _ => panic!("unknown formula {}", op),
        }
    } else if imp == "py" {
        crate::pool::py_formula(op, a)
    } else {
        type M = fp::Pool<'static>;
        let n = |i: usize| a[i].as_str().unwrap().parse::<i128>().unwrap() as f64 / 1e12;
        let t = |i: usize| t(i) as u32;
        match op {
            "t2p" => n24(M::tick_to_rp(t(0))),
            "p2t" | "p2tl" => vi(M::rp_to_tick(n(0), b(1))),
            "tposs" => vi(M::tk_to_possible_tk(t(0), t(1), b(2))),
            "pposs" => vi(M::rp_to_possible_tk(n(0), t(1), b(2))),
            "liqx" => n24(M::liq_x_only(n(0), n(1), n(2))),
            "liqy" => n24(M::liq_y_only(n(0), n(1), n(2))),
            "liq" => n24(M::liq_from_x_y_rp_rng(n(0), n(1), n(2), n(3), n(4))),
            "liqt" => n24(M::liq_from_x_y_tick_rng(n(0), n(1), t(2), t(3), t(4))),
            "xl" => n24(M::x_from_l_rp_rng(n(0), n(1), n(2), n(3))),
            "xlt" => n24(M::x_from_l_tick_rng(n(0), t(1), t(2), t(3))),
            "yl" => n24(M::y_from_l_rp_rng(n(0), n(1), n(2), n(3))),
            "ylt" => n24(M::y_from_l_tick_rng(n(0), t(1), t(2), t(3))),
            "rpa1" => n24(M::rpa_from_l_rp_y(n(0), n(1), n(2))),
            "rpb1" => n24(M::rpb_from_l_rp_x(n(0), n(1), n(2))),
            "rpa2" => n24(M::rpa_from_x_y_rp_rpb(n(0), n(1), n(2), n(3))),
            "rpb2" => n24(M::rpb_from_x_y_rp_rpa(n(0), n(1), n(2), n(3))),
            "dx" => n24(M::dx_from_l_drp(n(0), n(1), n(2))),
            "dy" => n24(M::dy_from_l_drp(n(0), n(1), n(2))),
            "dxh" => n24(M::dx_from_l_drp_hmm(n(0), n(1), n(2), n(3), n(4))),
            "dyh" => n24(M::dy_from_l_drp_hmm(n(0), n(1), n(2), n(3), n(4))),
            "rpdx" => n24(M::rp_new_from_l_dx(n(0), n(1), n(2))),
            "rpdy" => n24(M::rp_new_from_l_dy(n(0), n(1), n(2))),
            _ => panic!("unknown formula {}", op),
        }
    }
}

/// {id, imp, calls: [{op, a}]}; "@t" as an argument is the price the code gives tick t, "@t+k" k units beyond it
pub fn formulas(s: &Value, beat: &Beat) -> Value {
    let imp = s["imp"].as_str().unwrap();
    let tick = |t: i64| -> i128 {
        if imp == "dec" { dp::Pool::tick_to_rp(t as u128).value as i128 } else if imp == "py" { (crate::pool::py_tick(t as i64) * 1e12).round() as i128 } else { (fp::Pool::tick_to_rp(t as u32) * 1e12).round() as i128 }
    };
    let mut done = vec![];
    for c in s["calls"].as_array().unwrap() {
        let mut a = c["a"].clone();
        for x in a.as_array_mut().unwrap() {
            if let Some(r) = x.as_str().and_then(|t| t.strip_prefix('@')) {
                let (t, k) = match r[1..].find(|c| c == '+' || c == '-').map(|p| p + 1) {
                    Some(p) => (&r[..p], r[p..].trim_start_matches('+').parse::<i128>().unwrap()),
                    None => (r, 0),
                };
                *x = json!((tick(t.parse().unwrap()) + k).to_string());
            }
        }
        let op = c["op"].as_str().unwrap();
        pulse(beat, s, json!({"calls": [{"op": op, "a": a, "o": ["hang"]}]}));
        let o = catch_unwind(AssertUnwindSafe(|| formula(imp, op, &a))).unwrap_or(json!(["p"]));
        let mut e = json!({"op": op, "a": a, "o": o});
        // the prices of the ticks around a found one, as the code has them
        let price = |t: i64| {
            let r = if (t < 0 && imp != "py") || t.abs() > 300_000 { json!([]) } else { catch_unwind(AssertUnwindSafe(|| formula(imp, "t2p", &json!([t])))).unwrap_or(json!([])) };
            if r[0] == "n" { r[1].clone() } else { json!("nan") }
        };
        if ["p2t", "p2tl", "pposs", "t2p"].contains(&op) {
            let t: i64 = if op == "t2p" { a[0].as_i64().unwrap() } else if o[0] == "i" { o[1].as_str().unwrap().parse().unwrap_or(-999_999) } else { -999_999 };
            let sp = if op == "pposs" { a[1].as_i64().unwrap() } else { 1 };
            e["near"] = json!([price(t - sp), price(t), price(t + sp)]);
        }
        if ["liqt", "xlt", "ylt"].contains(&op) {
            let k = a.as_array().unwrap().len() - 3;
            e["pr"] = json!((k..k + 3).map(|k| price(a[k].as_i64().unwrap())).collect::<Vec<_>>());
        }
        done.push(e);
    }
    let mut ev = vec![json!({"calls": []})];
    for b in done.chunks(40) { ev.push(json!({"calls": b})); }
    // the prototype computes with doubles like the float pool
    json!({"id": s["id"], "imp": if imp == "dec" { "dec" } else { "float" }, "start": if imp == "py" { -300_000 } else { 0 }, "ev": ev})
}
