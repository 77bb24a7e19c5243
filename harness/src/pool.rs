//! Uniform black-box view of the pool implementations (public API only).
use hmmcl_sandbox::cl_pool as dp;
use hmmcl_sandbox::cl_pool::PoolMath as _;
use hmmcl_sandbox::cl_pool_float as fp;
use hmmcl_sandbox::cl_pool_float::PoolMath as _;
use hmmcl_sandbox::decimal::{Decimal, COMPUTE_SCALE};
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// fixed point integer, unit 1e-12, the argument format of every script
pub type Fx = i128;
pub const ONE: i128 = 1_000_000_000_000;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub imp: String, // "dec" | "float"
    /// the Python prototype (a float pool) instead of the Rust one
    pub py: bool,
    pub boot: Fx,
    pub spacing: i64,
    pub c: Fx,
    pub fee: Fx,
}

#[derive(Clone, Debug)]
pub enum Op {
    Dep { u: String, lo: i64, hi: i64, rpa: Fx, rpb: Fx, x: Fx, y: Fx },
    Wit { u: String, lo: i64, hi: i64, rpa: Fx, rpb: Fx, l: Fx },
    Swx { d: Fx, o: Fx },
    Swy { d: Fx, o: Fx },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub x: Fx, pub xa: Fx, pub xf: Fx,
    pub y: Fx, pub ya: Fx, pub yf: Fx,
    pub liq: Fx, pub rp: Fx, pub rpf: f64, pub tick: i64,
    pub g: [Fx; 4],
    pub ticks: Vec<i64>,
    pub np: usize,
    /// textual values at scale 24 (lossless)
    pub txt: Vec<(&'static str, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct SwapRes {
    pub txt: Vec<(&'static str, String)>,
    pub recv: f64,
    pub send: Fx, // magnitude
}

pub fn d(v: Fx) -> Decimal {
    Decimal::new(v.unsigned_abs(), COMPUTE_SCALE, v < 0)
}
pub fn fx(v: Decimal) -> Fx {
    // normalise to 1e-12 units
    let mut val = v.value as i128;
    let mut s = v.scale;
    while s < 12 { val *= 10; s += 1; }
    while s > 12 { val /= 10; s -= 1; }
    if v.negative { -val } else { val }
}
fn s24_dec(v: Decimal) -> String {
    let mut s = v.value.to_string();
    for _ in v.scale..24 { s.push('0'); }
    norm(v.negative, s)
}
fn norm(neg: bool, s: String) -> String {
    let t = s.trim_start_matches('0');
    if t.is_empty() { return "0".into(); }
    if neg { format!("-{}", t) } else { t.to_string() }
}
pub fn s24_fx(v: Fx) -> String {
    if v == 0 { return "0".into(); }
    format!("{}000000000000", v)
}
pub fn s24_f(v: f64) -> String {
    if !v.is_finite() { return "nan".into(); }
    let s = format!("{:.24}", v.abs()).replace('.', "");
    norm(v < 0.0, s)
}
pub fn s24_abs(s: String) -> String { s.trim_start_matches('-').to_string() }
pub fn f_of(v: Fx) -> f64 { (v / ONE) as f64 + (v % ONE) as f64 / 1e12 }
pub fn fx_of(v: f64) -> Fx { v.trunc() as i128 * ONE + (v.fract() * 1e12) as i128 }

pub enum Pool {
    D(dp::Pool<'static>),
    F(fp::Pool<'static>),
    Y(PyPool),
}

/// a pool living in this thread's Python process
pub struct PyPool { id: u64, obs: Obs }

struct Py { child: std::process::Child, tx: std::process::ChildStdin, rx: std::io::BufReader<std::process::ChildStdout>, next: u64 }
thread_local! { static PY: std::cell::RefCell<Option<Py>> = std::cell::RefCell::new(None); }

impl Drop for Py { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

fn py(q: Value) -> Result<Value, String> {
    use std::io::{BufRead, Write};
    PY.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            let f = concat!(env!("CARGO_MANIFEST_DIR"), "/pypool.py");
            let mut child = std::process::Command::new("python3").arg(f)
                .stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().expect("python3");
            let (tx, rx) = (child.stdin.take().unwrap(), std::io::BufReader::new(child.stdout.take().unwrap()));
            *c = Some(Py { child, tx, rx, next: 0 });
        }
        let s = c.as_mut().unwrap();
        let mut line = String::new();
        if writeln!(s.tx, "{}", q).is_err() || s.rx.read_line(&mut line).unwrap_or(0) == 0 {
            eprintln!("the Python process ended");
            std::process::exit(3);
        }
        let v: Value = serde_json::from_str(&line).unwrap();
        match v["err"].as_str() { Some(e) => Err(e.into()), None => Ok(v) }
    })
}
fn py_new(c: &Cfg) -> Result<PyPool, String> {
    let id = PY.with(|c| match c.borrow_mut().as_mut() { Some(s) => { s.next += 1; s.next } None => 0 });
    let v = py(json!({"cmd": "new", "id": id, "boot": c.boot.to_string(), "spacing": c.spacing, "c": c.c.to_string(), "fee": c.fee.to_string()}))?;
    Ok(PyPool { id, obs: py_obs(&v) })
}
impl Drop for PyPool { fn drop(&mut self) { let _ = py(json!({"cmd": "drop", "id": self.id})); } }

/// a static function of the prototype; amounts and prices in units of 1e-12
pub fn py_formula(op: &str, a: &Value) -> Value {
    match py(json!({"cmd": "call", "op": op, "a": a})) {
        Err(_) => json!(["p"]),
        Ok(v) => if let Some(i) = v["i"].as_i64() { json!(["i", i.to_string()]) } else {
            let f = py_f(&v["n"]);
            if f.is_finite() { json!(["n", s24_f(f)]) } else { json!(["nan"]) }
        }
    }
}
pub fn py_tick(t: i64) -> f64 {
    thread_local! { static MEMO: std::cell::RefCell<std::collections::HashMap<i64, f64>> = Default::default(); }
    MEMO.with(|m| *m.borrow_mut().entry(t).or_insert_with(|| py(json!({"cmd": "rp", "t": t})).map_or(f64::NAN, |v| py_f(&v["rp"]))))
}
fn py_f(v: &Value) -> f64 { v.as_str().unwrap().parse().unwrap() }
fn py_obs(v: &Value) -> Obs {
    let n: Vec<f64> = v["v"].as_array().unwrap().iter().map(py_f).collect();
    const K: [&str; 12] = ["x", "xa", "xf", "y", "ya", "yf", "liq", "rp", "gfx", "gfy", "ghx", "ghy"];
    let i = |k: usize| fx_of(n[k]);
    let tk = |v: &Value| v.as_i64().unwrap();
    Obs {
        x: i(0), xa: i(1), xf: i(2), y: i(3), ya: i(4), yf: i(5), liq: i(6), rp: i(7), rpf: n[7], tick: tk(&v["tick"]),
        g: [i(8), i(9), i(10), i(11)],
        ticks: v["ticks"].as_array().unwrap().iter().map(tk).collect(),
        np: v["np"].as_u64().unwrap() as usize,
        txt: K.iter().zip(n.iter()).map(|(k, v)| (*k, s24_f(*v))).collect(),
    }
}
impl PyPool {
    fn apply(&mut self, op: &Op) -> Result<Option<SwapRes>, String> {
        let mut q = Value::Object(op_json(op));
        q["cmd"] = q["op"].clone();
        q["id"] = json!(self.id);
        let v = py(q)?;
        self.obs = py_obs(&v);
        Ok(v["r"].as_array().map(|r| {
            let r: Vec<f64> = r.iter().map(py_f).collect();
            const K: [&str; 6] = ["recv", "send", "adj", "fee", "avg", "end"];
            SwapRes { recv: r[0], send: fx_of(r[1].abs()), txt: K.iter().zip(r.iter()).map(|(k, v)| (*k, s24_f(*v))).collect() }
        }))
    }
}

fn leak(s: &str) -> &'static str {
    // small fixed set of user names
    match s {
        "a" => "a", "b" => "b", "c" => "c", "d" => "d", "e" => "e",
        _ => Box::leak(s.to_string().into_boxed_str()),
    }
}

impl Cfg {
    /// the tick price of the implementation itself
    fn ftick(&self, t: i64) -> f64 { if self.py { py_tick(t) } else { fp::Pool::tick_to_rp(t as u32) } }
    pub fn tick_rp(&self, t: i64) -> Fx {
        if self.imp == "dec" { fx(dp::Pool::tick_to_rp(t as u128)) } else { fx_of(self.ftick(t)) }
    }
    pub fn tick_rp_txt(&self, t: i64) -> String {
        if self.imp == "dec" { s24_dec(dp::Pool::tick_to_rp(t as u128)) } else { s24_f(self.ftick(t)) }
    }
    pub fn liq_of(&self, x: Fx, y: Fx, o: &Obs, lo: i64, hi: i64) -> Option<Fx> {
        let (a, b) = (self.tick_rp(lo), self.tick_rp(hi));
        let r = catch_unwind(AssertUnwindSafe(|| {
            if self.imp == "dec" {
                fx(dp::Pool::liq_from_x_y_rp_rng(d(x), d(y), d(o.rp), d(a), d(b)))
            } else {
                fx_of(fp::Pool::liq_from_x_y_rp_rng(f_of(x), f_of(y), o.rpf,
                    self.ftick(lo), self.ftick(hi)).floor())
            }
        }));
        r.ok()
    }
    pub fn amounts_of(&self, l: Fx, rp: Fx, lo: i64, hi: i64) -> (Fx, Fx) {
        let (a, b) = (self.tick_rp(lo), self.tick_rp(hi));
        let r = catch_unwind(AssertUnwindSafe(|| {
            if self.imp == "dec" {
                (fx(dp::Pool::x_from_l_rp_rng(d(l), d(rp), d(a), d(b))), fx(dp::Pool::y_from_l_rp_rng(d(l), d(rp), d(a), d(b))))
            } else {
                let (a, b) = (self.ftick(lo), self.ftick(hi));
                (fx_of(fp::Pool::x_from_l_rp_rng(f_of(l), f_of(rp), a, b)), fx_of(fp::Pool::y_from_l_rp_rng(f_of(l), f_of(rp), a, b)))
            }
        }));
        r.unwrap_or((0, 0))
    }
    pub fn make(&self) -> Result<Pool, String> {
        let c = self.clone();
        if c.py { return Ok(Pool::Y(py_new(&c)?)); }
        catch_unwind(AssertUnwindSafe(move || {
            if c.imp == "dec" {
                Pool::D(dp::Pool::new("X", 9, "Y", 6, d(c.boot), c.spacing as u128, d(c.c), d(c.fee)))
            } else {
                Pool::F(fp::Pool::new("X", 9, "Y", 6, f_of(c.boot), c.spacing as u32, f_of(c.c), f_of(c.fee)))
            }
        })).map_err(pmsg)
    }
}

pub fn pmsg(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "panic".into() }
}

impl Pool {
    pub fn obs(&self) -> Obs {
        match self {
            Pool::D(p) => {
                let (x, xa, xf) = p.x_info();
                let (y, ya, yf) = p.y_info();
                let g = p.glbl_fees();
                Obs {
                    x: fx(x), xa: fx(xa), xf: fx(xf), y: fx(y), ya: fx(ya), yf: fx(yf),
                    liq: fx(p.glbl_liq()), rp: fx(p.glbl_rp()), rpf: f_of(fx(p.glbl_rp())), tick: p.glbl_tick() as i64,
                    g: [fx(g.0), fx(g.1), fx(g.2), fx(g.3)],
                    ticks: p.tick_keys_cloned(false).iter().map(|t| *t as i64).collect(),
                    np: p.position_count(),
                    txt: vec![("x", s24_dec(x)), ("xa", s24_dec(xa)), ("xf", s24_dec(xf)),
                              ("y", s24_dec(y)), ("ya", s24_dec(ya)), ("yf", s24_dec(yf)),
                              ("liq", s24_dec(p.glbl_liq())), ("rp", s24_dec(p.glbl_rp())),
                              ("gfx", s24_dec(g.0)), ("gfy", s24_dec(g.1)), ("ghx", s24_dec(g.2)), ("ghy", s24_dec(g.3))],
                }
            }
            Pool::Y(p) => p.obs.clone(),
            Pool::F(p) => {
                let (x, xa, xf) = p.x_info();
                let (y, ya, yf) = p.y_info();
                let g = p.glbl_fees();
                Obs {
                    x: fx_of(x), xa: fx_of(xa), xf: fx_of(xf), y: fx_of(y), ya: fx_of(ya), yf: fx_of(yf),
                    liq: fx_of(p.glbl_liq()), rp: fx_of(p.glbl_rp()), rpf: p.glbl_rp(), tick: p.glbl_tick() as i64,
                    g: [fx_of(g.0), fx_of(g.1), fx_of(g.2), fx_of(g.3)],
                    ticks: p.tick_keys_cloned(false).iter().map(|t| *t as i64).collect(),
                    np: p.position_count(),
                    txt: vec![("x", s24_f(x)), ("xa", s24_f(xa)), ("xf", s24_f(xf)),
                              ("y", s24_f(y)), ("ya", s24_f(ya)), ("yf", s24_f(yf)),
                              ("liq", s24_f(p.glbl_liq())), ("rp", s24_f(p.glbl_rp())),
                              ("gfx", s24_f(g.0)), ("gfy", s24_f(g.1)), ("ghx", s24_f(g.2)), ("ghy", s24_f(g.3))],
                }
            }
        }
    }

    pub fn apply(&mut self, _cfg: &Cfg, op: &Op) -> Result<Option<SwapRes>, String> {
        if let Pool::Y(p) = self { return p.apply(op); }
        let r = catch_unwind(AssertUnwindSafe(|| match self {
            Pool::Y(_) => unreachable!(),
            Pool::D(p) => match op {
                Op::Dep { u, rpa, rpb, x, y, .. } => { p.deposit(leak(u), d(*x), d(*y), d(*rpa), d(*rpb)); None }
                Op::Wit { u, rpa, rpb, l, .. } => { p.withdraw(leak(u), d(*l), d(*rpa), d(*rpb)); None }
                Op::Swx { d: q, o } => Some(sres(p.execute_swap_from_x(d(*q), d(*o)))),
                Op::Swy { d: q, o } => Some(sres(p.execute_swap_from_y(d(*q), d(*o)))),
            },
            Pool::F(p) => match op {
                Op::Dep { u, rpa, rpb, x, y, .. } => { p.deposit(leak(u), f_of(*x), f_of(*y), f_of(*rpa), f_of(*rpb)); None }
                Op::Wit { u, rpa, rpb, l, .. } => { p.withdraw(leak(u), f_of(*l), f_of(*rpa), f_of(*rpb)); None }
                Op::Swx { d: q, o } => {
                    Some(sresf(p.execute_swap_from_x(f_of(*q), f_of(*o))))
                }
                Op::Swy { d: q, o } => Some(sresf(p.execute_swap_from_y(f_of(*q), f_of(*o)))),
            },
        }));
        r.map_err(pmsg)
    }
}

fn sres(o: dp::SwapOutput) -> SwapRes {
    SwapRes {
        recv: f_of(fx(o.recv_amount())),
        send: fx(o.send_amount()).abs(),
        txt: vec![("recv", s24_dec(o.recv_amount())), ("send", s24_dec(o.send_amount())),
                  ("adj", s24_dec(o.send_hmm_adj())), ("fee", s24_dec(o.recv_fee())),
                  ("avg", s24_dec(o.avg_price())), ("end", s24_dec(o.end_price()))],
    }
}
fn sresf(o: fp::SwapOutput) -> SwapRes {
    SwapRes {
        recv: o.recv_amount(),
        send: fx_of(o.send_amount().abs()),
        txt: vec![("recv", s24_f(o.recv_amount())), ("send", s24_f(o.send_amount())),
                  ("adj", s24_f(o.send_hmm_adj())), ("fee", s24_f(o.recv_fee())),
                  ("avg", s24_f(o.avg_price())), ("end", s24_f(o.end_price()))],
    }
}

/// A pool together with the accepted history, so that a panicking call (which on chain
/// aborts the transaction) can be undone by rebuilding from the history.
pub struct Live {
    pub cfg: Cfg,
    pub pool: Pool,
    pub hist: Vec<Op>,
    pub obs: Obs,
}

impl Live {
    pub fn new(cfg: Cfg) -> Result<Live, String> {
        let pool = cfg.make()?;
        let obs = pool.obs();
        Ok(Live { cfg, pool, hist: vec![], obs })
    }
    pub fn rebuild(&self) -> Pool {
        let mut p = self.cfg.make().unwrap();
        for op in &self.hist { let _ = p.apply(&self.cfg, op); }
        p
    }
    pub fn step(&mut self, op: &Op) -> Result<Option<SwapRes>, String> {
        let r = self.pool.apply(&self.cfg, op);
        match r {
            Ok(s) => { self.hist.push(op.clone()); self.obs = self.pool.obs(); Ok(s) }
            Err(e) => { self.pool = self.rebuild(); self.obs = self.pool.obs(); Err(e) }
        }
    }
    /// try on a replica without committing
    pub fn probe(&self, op: &Op) -> Result<Obs, String> {
        let mut p = self.rebuild();
        p.apply(&self.cfg, op).map(|_| p.obs())
    }
    pub fn probe_swap(&self, op: &Op) -> Option<SwapRes> {
        let mut p = self.rebuild();
        p.apply(&self.cfg, op).ok().flatten()
    }
}

pub fn op_json(op: &Op) -> Map<String, Value> {
    let v = match op {
        Op::Dep { u, lo, hi, rpa, rpb, x, y } => json!({"op":"dep","u":u,"lo":lo,"hi":hi,"rpa":rpa.to_string(),"rpb":rpb.to_string(),"x":x.to_string(),"y":y.to_string()}),
        Op::Wit { u, lo, hi, rpa, rpb, l } => json!({"op":"wit","u":u,"lo":lo,"hi":hi,"rpa":rpa.to_string(),"rpb":rpb.to_string(),"l":l.to_string()}),
        Op::Swx { d, o } => json!({"op":"swx","d":d.to_string(),"orc":o.to_string()}),
        Op::Swy { d, o } => json!({"op":"swy","d":d.to_string(),"orc":o.to_string()}),
    };
    v.as_object().unwrap().clone()
}
