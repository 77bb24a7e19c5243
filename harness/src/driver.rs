//! Seeded, adaptive generator of pool histories.
use crate::pool::*;
use rand::prelude::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Gen {
    pub rng: StdRng,
    pub live: Live,
    pub pos: BTreeMap<(String, i64, i64), Fx>, // known liquidity
    pub events: Vec<Value>,
    pub grid: Vec<i64>,
    pub users: Vec<&'static str>,
    pub ticks: std::collections::BTreeSet<i64>, // every tick the history mentions
    pub beat: Option<Beat>,
    pub extra: Option<(String, Value)>,         // one more field for the next event
    pub id: String,
    pub last_send: Fx,                          // output of the last swap
    pub gone: Vec<(String, i64, i64)>,          // positions that were closed
}

/// where a watcher can see what is being executed, to notice a call that does not return
pub type Beat = std::sync::Arc<std::sync::Mutex<(std::time::Instant, Value, Vec<Value>)>>;

#[derive(Clone, Debug)]
pub struct Profile {
    pub imp: String,
    pub regime: String,   // low | zero | high
    pub n_ops: usize,
    pub invalid: f64,     // share of deliberately invalid operations
    pub fees: bool,
    pub hmm: bool,
    pub spacing: Option<i64>,
    pub drain: bool,      // end by withdrawing everything
}

pub fn mid_rp(cfg: &Cfg, t: i64) -> Fx {
    let a = cfg.tick_rp(t);
    let b = cfg.tick_rp(t + 1);
    a + (b - a) / 2
}

pub fn obs_json(cfg: &Cfg, o: &Obs) -> Value {
    let mut m = serde_json::Map::new();
    m.insert("rt".into(), json!(cfg.tick_rp_txt(o.tick)));
    m.insert("rt1".into(), json!(cfg.tick_rp_txt(o.tick.saturating_add(1))));
    m.insert("rts".into(), json!(cfg.tick_rp_txt(o.tick.saturating_add(cfg.spacing))));
    for (k, v) in &o.txt { m.insert(k.to_string(), json!(v)); }
    m.insert("tick".into(), json!(o.tick));
    m.insert("ticks".into(), json!(o.ticks));
    m.insert("np".into(), json!(o.np));
    Value::Object(m)
}

pub fn trace_json(id: &str, c: &Cfg, ticks: &std::collections::BTreeSet<i64>, events: &[Value]) -> Value {
    let mut p = serde_json::Map::new();
    for t in ticks { p.insert(t.to_string(), json!(c.tick_rp_txt(*t))); }
    json!({"id": id, "P": p, "pt": ticks, "ev": events,
           "cfg": {"imp": c.imp, "floor": !c.py, "boot": s24_fx(c.boot), "spacing": c.spacing, "c": s24_fx(c.c), "fee": s24_fx(c.fee)}})
}

/// the Python prototype computes with doubles like the float pool
fn imp_of(s: &str) -> String { if s == "py" { "float".into() } else { s.into() } }

impl Gen {
    pub fn log_uniform(&mut self, lo: f64, hi: f64) -> f64 {
        (self.rng.gen_range(lo.ln()..hi.ln())).exp()
    }

    /// run one operation against the real pool and record it
    pub fn exec(&mut self, op: Op) -> bool {
        let mut ev = op_json(&op);
        for k in ["x", "y", "l", "d", "orc", "rpa", "rpb"] {
            if let Some(Value::String(s)) = ev.get(k) {
                let v: i128 = s.parse().unwrap();
                ev.insert(k.into(), json!(s24_fx(v)));
            }
        }
        if let Op::Dep { lo, hi, .. } | Op::Wit { lo, hi, .. } = &op { self.ticks.insert(*lo); self.ticks.insert(*hi); }
        if let Some((k, v)) = self.extra.take() { ev.insert(k, v); }
        if let Some(b) = &self.beat {
            let mut g = b.lock().unwrap();
            g.0 = std::time::Instant::now();
            let mut e = ev.clone();
            e.insert("res".into(), json!("hang"));
            e.insert("o".into(), obs_json(&self.live.cfg, &self.live.obs));
            g.1 = Value::Object(e);
            g.2 = vec![self.trace_grid()];
        }
        let pre = self.live.obs.clone();
        let mut liq_known: Option<Fx> = None;
        if let Op::Dep { lo, hi, x, y, .. } = &op {
            if lo < hi && *x >= 0 && *y >= 0 {
                let guess = self.live.cfg.liq_of(*x, *y, &pre, *lo, *hi);
                liq_known = guess;
            }
        }
        let res = self.live.step(&op);
        let ok = res.is_ok();
        ev.insert("res".into(), json!(if ok { "ok" } else { "rej" }));
        match res {
            Ok(sw) => {
                if let Some(s) = sw {
                    let mut m = serde_json::Map::new();
                    self.last_send = s.send;
                    for (k, v) in s.txt { m.insert(k.into(), json!(v)); }
                    ev.insert("out".into(), Value::Object(m));
                }
                match &op {
                    Op::Dep { u, lo, hi, .. } => {
                        let key = (u.clone(), *lo, *hi);
                        let old = *self.pos.get(&key).unwrap_or(&0);
                        let mut l = liq_known.unwrap_or(0);
                        if pre.tick >= *lo && pre.tick < *hi { l = self.live.obs.liq - pre.liq; }
                        if self.live.cfg.imp == "float" {
                            // the float pool deals in whole units of liquidity
                            let w = (l + ONE / 2).div_euclid(ONE) * ONE;
                            if (l - w).abs() < ONE / 1000 { l = w; }
                        }
                        let l = self.settle_liq(&key, old + l) - old;
                        ev.insert("liq".into(), json!(s24_fx(l)));
                        if old + l > 0 { self.pos.insert(key, old + l); } 
                    }
                    Op::Wit { u, lo, hi, l, .. } => {
                        let key = (u.clone(), *lo, *hi);
                        let old = *self.pos.get(&key).unwrap_or(&0);
                        if old - l > 0 { self.pos.insert(key, old - l); } else { self.gone.push(key.clone()); self.pos.remove(&key); }
                    }
                    _ => {}
                }
            }
            Err(e) => { ev.insert("msg".into(), json!(e)); }
        }
        ev.insert("o".into(), obs_json(&self.live.cfg, &self.live.obs));
        self.events.push(Value::Object(ev));
        ok
    }

    /// the whole history as one line for the trace specification
    pub fn trace(&self) -> Value { trace_json(&self.id, &self.live.cfg, &self.ticks, &self.events) }

    /// The liquidity a position really has is what can be withdrawn from it: confirm the
    /// value we believe in, and search for the real one when the code disagrees.
    fn settle_liq(&self, key: &(String, i64, i64), guess: Fx) -> Fx {
        if guess <= 0 { return guess; }
        let w = |l: Fx| {
            let op = Op::Wit { u: key.0.clone(), lo: key.1, hi: key.2, rpa: mid_rp(&self.live.cfg, key.1), rpb: mid_rp(&self.live.cfg, key.2), l };
            self.live.probe(&op).ok()
        };
        let np = self.live.obs.np;
        if let Some(o) = w(guess) { if o.np == np - 1 { return guess; } }
        let (mut lo, mut hi) = (0i128, guess * 4 + 4);
        while hi - lo > 1 {
            let m = lo + (hi - lo) / 2;
            match w(m) { Some(o) => { lo = m; if o.np + 1 == np { break; } } None => hi = m }
        }
        // the float pool deals in whole units of liquidity
        if self.live.cfg.imp == "float" { lo = (lo + ONE / 2).div_euclid(ONE) * ONE; }
        lo
    }

    /// any price that means tick t as the end of a range: from the price of t up to, but not
    /// including, that of the next multiple of the spacing (tick 0 also stands for all below)
    fn end_rp(&mut self, t: i64) -> Fx {
        let c = &self.live.cfg;
        let (a, b) = (c.tick_rp(t), c.tick_rp(t + c.spacing));
        // floating point takes a logarithm: keep off the very ends
        let eps = if c.imp == "dec" { 0 } else { a / 1_000_000_000 + 1 };
        match self.rng.gen_range(0..10) {
            0..=2 => mid_rp(&self.live.cfg, t),
            3 | 4 => a + eps,
            5 => b - 1 - eps,
            6 if t == 0 && !self.live.cfg.py => self.rng.gen_range(0..a) + 1,
            _ => a + eps + ((b - a - 2 * eps) as f64 * self.rng.gen_range(0.0..0.999)) as Fx,
        }
    }
    pub fn dep_op(&mut self, u: &str, lo: i64, hi: i64, x: Fx, y: Fx) -> Op {
        let (rpa, rpb) = (self.end_rp(lo), self.end_rp(hi));
        Op::Dep { u: u.into(), lo, hi, rpa, rpb, x, y }
    }
    pub fn wit_op(&mut self, u: &str, lo: i64, hi: i64, l: Fx) -> Op {
        let (rpa, rpb) = (self.end_rp(lo), self.end_rp(hi));
        Op::Wit { u: u.into(), lo, hi, rpa, rpb, l }
    }

    /// the same liquidity as an existing position has, in a range that starts or ends where that
    /// one ends or starts: liquidity does not change at the common tick
    fn mirror(&mut self) -> bool {
        if self.pos.is_empty() { return false; }
        let i = self.rng.gen_range(0..self.pos.len());
        let (k, want) = { let (k, l) = self.pos.iter().nth(i).unwrap(); (k.clone(), *l) };
        let u = *self.users.choose(&mut self.rng).unwrap();
        let up: Vec<(i64, i64)> = self.grid.iter().filter(|t| **t > k.2).map(|t| (k.2, *t))
            .chain(self.grid.iter().filter(|t| **t < k.1).map(|t| (*t, k.1))).collect();
        let (lo, hi) = match up.choose(&mut self.rng) { Some(r) => *r, None => return false };
        let key = (u.to_string(), lo, hi);
        let old = *self.pos.get(&key).unwrap_or(&0);
        let (x, y) = self.live.cfg.amounts_of(want, self.live.obs.rp, lo, hi);
        let dec = self.live.cfg.imp == "dec";
        let more = |v: Fx| if v == 0 { 0 } else if dec { v + v / 1_000_000_000 + 100 } else { v + v / 10_000_000 + 1_000_000 };
        let op = self.dep_op(u, lo, hi, more(x), more(y));
        if self.exec(op) {
            let over = self.pos.get(&key).unwrap_or(&0) - old - want;
            if over > 0 { let op = self.wit_op(u, lo, hi, over); self.exec(op); }
        }
        true
    }

    fn rand_range(&mut self) -> (i64, i64) {
        let n = self.grid.len();
        let i = self.rng.gen_range(0..n - 1);
        let j = self.rng.gen_range(i + 1..n);
        (self.grid[i], self.grid[j])
    }

    pub fn random_deposit(&mut self) -> Op {
        let u = *self.users.choose(&mut self.rng).unwrap();
        let (lo, hi) = if !self.pos.is_empty() && self.rng.gen_bool(0.35) {
            let k = self.pos.keys().nth(self.rng.gen_range(0..self.pos.len())).unwrap().clone();
            (k.1, k.2)
        } else if !self.gone.is_empty() && self.rng.gen_bool(0.2) {
            let k = self.gone.choose(&mut self.rng).unwrap();
            (k.1, k.2)
        } else { self.rand_range() };
        if self.pos.contains_key(&(u.to_string(), lo, hi)) && self.rng.gen_bool(0.3) {
            return self.dep_op(u, lo, hi, 0, 0); // claim
        }
        let a = self.log_uniform(1.0, 1e5);
        let rp = f_of(self.live.obs.rp);
        let skew = if self.rng.gen_bool(0.5) { 1.0 } else { self.log_uniform(0.01, 100.0) };
        let (x, y) = (fx_of(a), fx_of(a * rp * rp * skew));
        self.dep_op(u, lo, hi, x, y)
    }

    pub fn random_withdraw(&mut self) -> Option<Op> {
        if self.pos.is_empty() { return None; }
        let (k, l) = { let i = self.rng.gen_range(0..self.pos.len()); let (k, l) = self.pos.iter().nth(i).unwrap(); (k.clone(), *l) };
        let grain = if self.live.cfg.imp == "float" { ONE } else { ONE / 1_000_000_000_000 };
        let amt = match self.rng.gen_range(0..20) {
            0..=2 => 0,
            // all but the least that a position can hold
            3 => l - grain,
            4 => l - self.rng.gen_range(1..4) * grain,
            5..=10 => l,
            11 | 12 => (l / 2).max(1),
            _ => (fx_of(f_of(l) * self.rng.gen_range(0.01..0.99))).min(l),
        };
        // the float pool deals in whole units of liquidity
        let amt = if self.live.cfg.imp == "float" { amt / ONE * ONE } else { amt };
        let amt = amt.max(0);
        Some(self.wit_op(&k.0, k.1, k.2, amt))
    }

    /// gross input amount that reaches the next active tick in that direction
    fn capacity(&self, from_x: bool, hops: usize) -> Option<f64> {
        let o = &self.live.obs;
        let mut cur = f_of(o.rp);
        let fee = f_of(self.live.cfg.fee);
        let mut tot = 0.0;
        let mut t = o.tick;
        for _ in 0..hops {
            let l: f64 = self.pos.iter().filter(|(k, _)| k.1 <= t && t < k.2).map(|(_, l)| f_of(*l)).sum();
            if from_x {
                let g = o.ticks.iter().rev().find(|k| **k <= t)?;
                let r = f_of(self.live.cfg.tick_rp(*g));
                tot += l * (1.0 / r - 1.0 / cur).max(0.0);
                cur = r;
                if *g == 0 { break; }
                t = *g - 1;
            } else {
                let g = o.ticks.iter().find(|k| **k > t)?;
                let r = f_of(self.live.cfg.tick_rp(*g));
                tot += l * (r - cur).max(0.0);
                cur = r;
                t = *g;
            }
        }
        Some(tot / (1.0 - fee))
    }

    pub fn oracle(&mut self) -> Fx {
        if self.live.cfg.c == 0 && self.rng.gen_bool(0.7) { return 0; }
        let rp = f_of(self.live.obs.rp);
        match self.rng.gen_range(0..12) {
            0 | 1 => 0,
            2 => self.live.obs.rp,
            // exactly where the liquidity changes
            10 => { let t = *self.grid.choose(&mut self.rng).unwrap(); self.live.cfg.tick_rp(t) }
            11 => {
                let at = self.live.obs.tick;
                let near: Vec<i64> = self.live.obs.ticks.iter().rev().find(|k| **k <= at).into_iter().chain(self.live.obs.ticks.iter().find(|k| **k > at)).cloned().collect();
                match near.choose(&mut self.rng) { Some(t) => self.live.cfg.tick_rp(*t), None => self.live.obs.rp }
            }
            3..=6 => fx_of(rp * self.rng.gen_range(0.97..1.03)),
            _ => fx_of(rp * self.rng.gen_range(0.7..1.4)),
        }
    }

    /// the least amount that crosses the next active tick, and a few of the smallest units around it
    fn edge_amount(&mut self, from_x: bool) -> Option<Fx> {
        let cap = fx_of(self.capacity(from_x, 1).filter(|c| *c > 1e-6)?);
        let at = self.live.obs.tick;
        let goal = if from_x { *self.live.obs.ticks.iter().rev().find(|k| **k <= at)? } else { *self.live.obs.ticks.iter().find(|k| **k > at)? };
        if goal == 0 && from_x { return None; }
        let grain = ONE / 1_000_000_000_000;
        let crosses = |n: i128| {
            let d = n * grain;
            self.live.probe(&if from_x { Op::Swx { d, o: 0 } } else { Op::Swy { d, o: 0 } }).ok().map(|o| if from_x { o.tick < goal } else { o.tick >= goal })
        };
        let slack = cap / grain / 1_000_000 + f_of(self.live.obs.liq) as i128 * 4 + 16;
        let (mut lo, mut hi) = ((cap / grain - slack).max(1), cap / grain + slack);
        if crosses(lo)? || !crosses(hi)? { return None; }
        while hi - lo > 1 {
            let m = lo + (hi - lo) / 2;
            if crosses(m)? { hi = m } else { lo = m }
        }
        let n = match self.rng.gen_range(0..4) { 0 => lo, 1 => hi, 2 => hi + 1, _ => hi + self.rng.gen_range(2..30) };
        Some(n * grain)
    }

    pub fn random_swap(&mut self) -> Op {
        let from_x = self.rng.gen_bool(0.5);
        if self.rng.gen_bool(0.04) && self.live.cfg.imp == "dec" {
            if let Some(d) = self.edge_amount(from_x) {
                let o = self.oracle();
                return if from_x { Op::Swx { d, o } } else { Op::Swy { d, o } };
            }
        }
        let hops = self.rng.gen_range(1..4);
        let cap = self.capacity(from_x, hops).or(self.capacity(from_x, 1)).filter(|c| *c > 1e-6).unwrap_or(1000.0);
        let amt = match self.rng.gen_range(0..12) {
            0 => if self.rng.gen_bool(0.5) { self.log_uniform(1e-6, 1e-2) } else { self.log_uniform(1e-12, 1e-6) },
            1 | 2 => cap,                       // lands (almost) exactly on a boundary
            3 => cap * 1.000001,
            4 => cap * 0.999999,
            5 => cap * self.rng.gen_range(1.0..4.0),
            _ => cap * self.rng.gen_range(0.02..0.98),
        };
        let o = self.oracle();
        let d = fx_of(amt).max(1);
        if from_x { Op::Swx { d, o } } else { Op::Swy { d, o } }
    }

    pub fn random_invalid(&mut self) -> Op {
        let (lo, hi) = self.rand_range();
        let u = *self.users.choose(&mut self.rng).unwrap();
        match self.rng.gen_range(0..12) {
            11 => {
                // a price below zero
                let a = self.end_rp(hi);
                let r = if self.rng.gen_bool(0.5) { (-a, a) } else { (-a, -1) };
                Op::Dep { u: u.into(), lo: 0, hi, rpa: r.0, rpb: r.1, x: 5 * ONE, y: 5 * ONE }
            }
            0 => self.dep_op(u, hi, lo, 5 * ONE, 5 * ONE),
            10 => {
                // two prices within one tick interval are no range
                let t = self.grid[self.rng.gen_range(0..self.grid.len())];
                let (a, b) = (self.end_rp(t), self.end_rp(t));
                Op::Dep { u: u.into(), lo: t, hi: t, rpa: a.min(b), rpb: a.max(b), x: 5 * ONE, y: 5 * ONE }
            }
            1 => self.dep_op(u, lo, lo, 5 * ONE, 5 * ONE),
            2 => self.dep_op(u, lo, hi, -5 * ONE, 5 * ONE),
            3 => self.dep_op(u, lo, hi, 5 * ONE, -5 * ONE),
            
            4 => Op::Swx { d: 0, o: 0 },
            5 => Op::Swy { d: 0, o: 0 },
            6 => if self.rng.gen_bool(0.5) { Op::Swx { d: -3 * ONE, o: 0 } } else { Op::Swy { d: -3 * ONE, o: 0 } },
            7 => self.wit_op(u, lo, hi, -ONE),
            8 => {
                // overdraw an existing position
                if let Some((k, l)) = self.pos.iter().next().map(|(k, l)| (k.clone(), *l)) {
                    let extra = if self.live.cfg.imp == "float" { ONE * 10 } else { 1 };
                    let m = if self.rng.gen_bool(0.5) { l + extra } else { l * 2 + extra };
                    self.wit_op(&k.0, k.1, k.2, m)
                } else { self.wit_op(u, lo, hi, ONE) }
            }
            _ => {
                // a position that does not exist
                if self.pos.contains_key(&(u.to_string(), lo, hi)) { Op::Swx { d: 0, o: 0 } }
                else { self.wit_op(u, lo, hi, 7 * ONE) }
            }
        }
    }

    /// another pool is set up, with a configuration that need not be a proper one
    fn mk(&mut self) {
        let mut c = self.live.cfg.clone();
        let one = self.log_uniform(1.0, 30.0);
        c.boot = *[fx_of(one), fx_of(one), -1, -fx_of(one), -ONE, ONE, ONE / 2, c.boot, c.tick_rp(self.grid[0])].choose(&mut self.rng).unwrap();
        c.c = *[0, c.c, ONE, 2 * ONE, ONE / 2, -1, -ONE, 2 * ONE + 1, 3 * ONE, -2 * ONE, 5 * ONE / 2].choose(&mut self.rng).unwrap();
        c.fee = *[0, c.fee, c.fee, ONE / 100, ONE / 2, -1, -ONE / 100, -ONE].choose(&mut self.rng).unwrap();
        c.spacing = *[1, 2, 10, 64, 200].choose(&mut self.rng).unwrap();
        if self.rng.gen_bool(0.6) {
            // at most one thing wrong
            let (b, f, k) = (c.boot.abs().max(1000), c.fee.abs(), c.c.abs().min(2 * ONE));
            match self.rng.gen_range(0..4) { 0 => { c.boot = b; c.fee = f } 1 => { c.fee = f; c.c = k } 2 => { c.c = k; c.boot = b } _ => { c.boot = b; c.fee = f; c.c = k } }
        }
        let mut ev = json!({"op": "mk", "boot": s24_fx(c.boot), "c": s24_fx(c.c), "fee": s24_fx(c.fee), "spacing": c.spacing,
                            "res": "rej", "o": obs_json(&self.live.cfg, &self.live.obs)});
        match c.make() {
            Ok(p) => { ev["res"] = json!("ok"); ev["made"] = obs_json(&c, &p.obs()); }
            Err(m) => { ev["msg"] = json!(m); }
        }
        self.events.push(ev);
    }

    pub fn new(seed: u64, p: &Profile) -> Result<Gen, String> {
        let mut rng = StdRng::seed_from_u64(seed);
        let spacing = p.spacing.unwrap_or_else(|| *[1i64, 1, 1, 2, 10, 50, 64].choose(&mut rng).unwrap());
        let (a, b) = match p.regime.as_str() {
            "zero" => (0i64, 40i64),
            "high" => (74_900, 76_900),
            "higher" => (119_000, 121_000),
            "wide" => (0, 80_000),
            "below" => (-900, -100),
            "around" => (-300, 300),
            "one" => (-20, 20),
            _ => (100, 900),
        };
        let step = (((b - a) / 8).max(1) + spacing - 1) / spacing * spacing;
        let base = a.div_euclid(spacing) * spacing;
        let mut grid: Vec<i64> = (0..8).map(|i| base + i * step).collect();
        if p.regime == "low" && rng.gen_bool(0.3) {
            // neighbouring ticks
            grid = vec![base + step, base + step + spacing, base + step + 2 * spacing, base + 2 * step, base + 3 * step, base + 3 * step + spacing];
        }
        grid.sort(); grid.dedup();
        let fee = if p.fees { *[0i128, 500_000_000, 3_000_000_000, 10_000_000_000, 300_000_000_000].choose(&mut rng).unwrap() } else { 0 };
        let c = if p.hmm { *[0i128, ONE, 5 * ONE / 4, 3 * ONE / 2, 2 * ONE].choose(&mut rng).unwrap() } else { 0 };
        let bt = grid[0] + rng.gen_range(0..(grid[grid.len() - 1] - grid[0]).max(1));
        let mut cfg = Cfg { imp: imp_of(&p.imp), py: p.imp == "py", boot: 0, spacing, c, fee };
        cfg.boot = mid_rp(&cfg, bt);
        let live = Live::new(cfg)?;
        Ok(Gen { rng, live, pos: BTreeMap::new(), events: vec![], grid, users: vec!["a", "b", "c"],
            ticks: [0i64].into_iter().collect(), beat: None, extra: None, last_send: 0, gone: vec![], id: format!("{}-{}-{}", p.imp, p.regime, seed) })
    }

    pub fn run(&mut self, p: &Profile) {
        let o0 = obs_json(&self.live.cfg, &self.live.obs);
        self.events.push(json!({"op": "new", "res": "ok", "o": o0}));
        for i in 0..p.n_ops {
            if p.invalid > 0.0 && self.rng.gen_bool(p.invalid / 3.0) { self.mk(); continue; }
            let op = if self.rng.gen_bool(p.invalid) { self.random_invalid() }
            else if i < 2 { self.random_deposit() }
            else {
                match self.rng.gen_range(0..100) {
                    0..=29 => self.random_deposit(),
                    30..=49 => match self.random_withdraw() { Some(o) => o, None => self.random_deposit() },
                    50..=57 if self.last_send > 0 => {
                        // take the output of the last swap straight back
                        let o = self.oracle();
                        let q = if self.rng.gen_bool(0.7) { self.last_send } else { (self.last_send / 2).max(1) };
                        match self.events.last().and_then(|e| e["op"].as_str().map(|s| s.to_string())).as_deref() {
                            Some("swx") => Op::Swy { d: q, o },
                            Some("swy") => Op::Swx { d: q, o },
                            _ => self.random_swap(),
                        }
                    }
                    64..=67 => if self.mirror() { continue } else { self.random_deposit() },
                    58..=63 => {
                        // an order split in two, against the whole of it
                        let op = self.random_swap();
                        let f = self.rng.gen_range(0.05..0.95);
                        let (d, o, x) = match &op { Op::Swx { d, o } => (*d, *o, true), Op::Swy { d, o } => (*d, *o, false), _ => unreachable!() };
                        let d1 = fx_of(f_of(d) * f).max(1);
                        let mk = |q: Fx| if x { Op::Swx { d: q, o } } else { Op::Swy { d: q, o } };
                        let whole = if d > d1 { self.live.probe_swap(&op) } else { None };
                        let ok = self.exec(mk(d1));
                        if let (true, Some(w)) = (ok, whole) {
                            self.extra = Some(("whole".into(), json!({"send": s24_abs(w.txt[1].1.clone())})));
                            mk(d - d1)
                        } else { continue }
                    }
                    _ => self.random_swap(),
                }
            };
            self.exec(op);
        }
        if p.drain {
            let mut ks: Vec<_> = self.pos.iter().map(|(k, l)| (k.clone(), *l)).collect();
            ks.shuffle(&mut self.rng);
            for (k, l) in ks {
                let op = self.wit_op(&k.0, k.1, k.2, l);
                self.exec(op);
            }
        }
    }

    // ---------------------------------------------------------------- behaviours of the specification
    /// gross input that moves the price from where it is to `target`, over gaps and crossings
    fn input_to(&self, from_x: bool, target: f64) -> f64 {
        let o = &self.live.obs;
        let (mut cur, mut t, mut tot) = (f_of(o.rp), o.tick as i64, 0.0);
        let c = &self.live.cfg;
        loop {
            let l: f64 = self.pos.iter().filter(|(k, _)| (k.1 as i64) <= t && t < (k.2 as i64)).map(|(_, l)| f_of(*l)).sum();
            let g = if from_x { o.ticks.iter().rev().map(|k| *k as i64).find(|k| *k <= t) } else { o.ticks.iter().map(|k| *k as i64).find(|k| *k > t) };
            let g = match g { Some(g) => g, None => break };
            let r = f_of(c.tick_rp(g as i64));
            let (end, last) = if from_x { if r <= target { (target, true) } else { (r, false) } } else if r >= target { (target, true) } else { (r, false) };
            tot += if from_x { l * (1.0 / end - 1.0 / cur).max(0.0) } else { l * (end - cur).max(0.0) };
            if last { break; }
            cur = r;
            t = if from_x { if g == 0 && !c.py { break } else { (g - 1).div_euclid(c.spacing) * c.spacing } } else { g };
        }
        tot / (1.0 - f_of(c.fee))
    }

    /// replay one behaviour of the specification; see MC_Gen.tla and check.py
    pub fn script(imp: &str, s: &Value, seed: u64, beat: Beat) -> Option<Gen> {
        let mut rng = StdRng::seed_from_u64(seed);
        let n = s["n"].as_u64().unwrap() as usize;
        let floor = s["floor"].as_bool().unwrap();
        let py = imp == "py";
        if py && floor { return None; }
        let spacing = *[1i64, 1, 2, 10, 64].choose(&mut rng).unwrap();
        let step = ((rng.gen_range(1..=200) + spacing - 1) / spacing).max(if spacing == 1 { 3 } else { 1 }) * spacing;
        let base = if floor { 0 } else { rng.gen_range(3..=1000) * step.max(4) % 3000 / spacing * spacing + 4 * spacing.max(step) };
        // the prototype has ticks below 0
        let base = if !py { base } else { base - rng.gen_range(0..2000) };
        let base = base.div_euclid(spacing) * spacing;
        let grid: Vec<i64> = (0..n as i64).map(|i| base + i * step).collect();
        let fee = *[0i128, 500_000_000, 3_000_000_000, 300_000_000_000].choose(&mut rng).unwrap();
        let c = *[0i128, ONE, 5 * ONE / 4, 3 * ONE / 2, 2 * ONE].choose(&mut rng).unwrap();
        let mut cfg = Cfg { imp: imp_of(imp), py: imp == "py", boot: 0, spacing, c, fee };
        let at = s["boot"].as_i64().unwrap();
        // the pool starts on a multiple of the spacing
        let bt = if at < 0 { base - spacing } else {
            let lo = grid[(at / 2) as usize];
            if at % 2 == 0 { lo } else { lo + (step / spacing / 2) * spacing }
        };
        if at >= 0 && at % 2 == 1 && step / spacing < 2 { return None; }
        cfg.boot = mid_rp(&cfg, bt);
        let live = Live::new(cfg).ok()?;
        let u = if imp == "dec" { rng.gen_range(1..1000i128) * ONE * 10 } else { rng.gen_range(1..1000i128) * ONE * 1_000_000 };
        let mut g = Gen { rng, live, pos: BTreeMap::new(), events: vec![], grid: grid.clone(), users: vec!["a", "b", "c"],
            ticks: [0i64].into_iter().collect(), beat: Some(beat), extra: None, last_send: 0, gone: vec![], id: format!("{}-mc-{}", imp, seed) };
        let o0 = obs_json(&g.live.cfg, &g.live.obs);
        g.events.push(json!({"op": "new", "res": "ok", "o": o0}));
        for st in s["steps"].as_array().unwrap() {
            let t = |k: &str| grid[st[k].as_u64().unwrap() as usize];
            let ok = match st["op"].as_str().unwrap() {
                "dep" => {
                    let want = st["l"].as_i64().unwrap() as i128 * u;
                    let (user, lo, hi) = (st["u"].as_str().unwrap(), t("lo"), t("hi"));
                    let key = (user.to_string(), lo, hi);
                    let old = *g.pos.get(&key).unwrap_or(&0);
                    let (x, y) = g.live.cfg.amounts_of(want, g.live.obs.rp, lo, hi);
                    let up = |v: Fx| if v == 0 { 0 } else if imp == "dec" { v + v / 1_000_000_000 + 100 } else { v + v / 10_000_000 + 1_000_000 };
                    let op = g.dep_op(user, lo, hi, up(x), up(y));
                    let mut ok = g.exec(op);
                    if ok {
                        let over = g.pos.get(&key).unwrap_or(&0) - old - want;
                        if over > 0 { let op = g.wit_op(user, lo, hi, over); ok = g.exec(op); }
                    }
                    ok
                }
                "wit" => {
                    let op = g.wit_op(st["u"].as_str().unwrap(), t("lo"), t("hi"), st["l"].as_i64().unwrap() as i128 * u);
                    g.exec(op)
                }
                d => {
                    let from_x = d == "swx";
                    let amt = match st["to"].as_i64() {
                        None => g.input_to(from_x, if from_x { 1e-9 } else { 1e9 }) * g.rng.gen_range(1.01..3.0) + g.rng.gen_range(0.001..1.0),
                        Some(k) => {
                            let (lo, hi) = (f_of(g.live.cfg.tick_rp(grid[(k / 2) as usize])), f_of(g.live.cfg.tick_rp(grid[(k / 2) as usize + 1])));
                            let cur = f_of(g.live.obs.rp);
                            let (lo, hi) = if from_x { (lo, hi.min(cur)) } else { (lo.max(cur), hi) };
                            let target = lo + (hi - lo) * g.rng.gen_range(0.2..0.8);
                            g.input_to(from_x, target)
                        }
                    };
                    let o = g.oracle();
                    let q = fx_of(amt).max(1);
                    g.exec(if from_x { Op::Swx { d: q, o } } else { Op::Swy { d: q, o } })
                }
            };
            if !ok { break; } // the refusal itself is judged
            // what the specification says about the state now
            let e = &st["exp"];
            let active: Vec<i64> = e["active"].as_array().unwrap().iter().map(|i| grid[i.as_u64().unwrap() as usize]).collect();
            let exp = json!({"tick": e["tick"], "at": e["at"], "active": active, "np": e["np"], "liq": s24_fx(e["liq"].as_i64().unwrap() as i128 * u)});
            if let Some(Value::Object(m)) = g.events.last_mut() { m.insert("exp".into(), exp); }
        }
        Some(g)
    }
    pub fn trace_grid(&self) -> Value {
        let mut t = trace_json(&self.id, &self.live.cfg, &self.ticks.iter().chain(self.grid.iter()).cloned().collect(), &self.events);
        t["grid"] = json!(self.grid);
        t
    }
}
