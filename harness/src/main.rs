mod calc;
mod driver;
mod onchain;
mod pool;
use driver::*;
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

fn arg<'a>(a: &'a [String], k: &str, d: &'a str) -> &'a str {
    a.iter().position(|x| x == &format!("--{}", k)).and_then(|i| a.get(i + 1)).map(|s| s.as_str()).unwrap_or(d)
}
fn num(a: &[String], k: &str, d: u64) -> u64 { arg(a, k, &d.to_string()).parse().unwrap() }
fn flt(a: &[String], k: &str, d: f64) -> f64 { arg(a, k, &d.to_string()).parse().unwrap() }

/// Write the histories to `shards` files FILE.0 .. FILE.k, and the counts of refusals to stderr.
fn write_out(base: &str, shards: usize, mut lines: Vec<(u64, Value)>) {
    lines.sort_by_key(|l| l.0);
    let mut fs: Vec<_> = (0..shards).map(|i| std::io::BufWriter::new(std::fs::File::create(format!("{}.{}", base, i)).unwrap())).collect();
    let mut hist: BTreeMap<String, (usize, u64)> = BTreeMap::new();
    for (n, (seed, l)) in lines.iter().enumerate() {
        if let Some(evs) = l["ev"].as_array() {
            for e in evs { if e["res"] != "ok" {
                let h = hist.entry(format!("{} {} {}", e["op"], e["res"], e["msg"])).or_insert((0, *seed)); h.0 += 1;
            } }
        }
        writeln!(fs[n % shards], "{}", l).unwrap();
    }
    for (k, v) in hist { eprintln!("{:6} seed {:5}  {}", v.0, v.1, k); }
}

/// Run `work(seed, beat)` for all seeds on all cores; a call that hangs for `patience` seconds
/// ends its history with a "hang" event and is abandoned.
pub fn run_all(seeds: Vec<u64>, patience: u64, work: fn(&[String], u64, Beat) -> Option<Value>, args: Vec<String>) -> Vec<(u64, Value)> {
    let next = Arc::new(AtomicU64::new(0));
    let out: Arc<Mutex<Vec<(u64, Value)>>> = Arc::new(Mutex::new(vec![]));
    let seeds = Arc::new(seeds);
    let args = Arc::new(args);
    let nw = 8;
    let mut slots: Vec<(Beat, Arc<Mutex<(u64, bool)>>)> = vec![];
    let spawn = |slots: &mut Vec<(Beat, Arc<Mutex<(u64, bool)>>)>| {
        let beat: Beat = Arc::new(Mutex::new((std::time::Instant::now(), Value::Null, vec![])));
        let cur = Arc::new(Mutex::new((0u64, false)));
        slots.push((beat.clone(), cur.clone()));
        let (next, out, seeds, args) = (next.clone(), out.clone(), seeds.clone(), args.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst) as usize;
            if i >= seeds.len() { cur.lock().unwrap().1 = true; return; }
            *cur.lock().unwrap() = (seeds[i], false);
            { let mut g = beat.lock().unwrap(); *g = (std::time::Instant::now(), Value::Null, vec![]); }
            if let Some(v) = work(&args, seeds[i], beat.clone()) { out.lock().unwrap().push((seeds[i], v)); }
        }).unwrap();
    };
    for _ in 0..nw { spawn(&mut slots); }
    let mut hung = 0;
    loop {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let mut live = 0;
        let mut dead = vec![];
        for (k, (b, c)) in slots.iter().enumerate() {
            let (seed, done) = *c.lock().unwrap();
            if done { continue; }
            live += 1;
            let g = b.lock().unwrap();
            if g.0.elapsed().as_secs() >= patience {
                if let Some(t) = g.2.first() {
                    let mut t = t.clone();
                    t["ev"].as_array_mut().unwrap().push(g.1.clone());
                    out.lock().unwrap().push((seed, t));
                }
                dead.push(k);
            }
        }
        for k in dead.iter().rev() { slots.remove(*k); hung += 1; if hung < 12 { spawn(&mut slots); } }
        if live == 0 || slots.is_empty() { break; }
        if hung >= 12 { break; }
    }
    let r = out.lock().unwrap().clone();
    r
}

fn work_pool(a: &[String], seed: u64, beat: Beat) -> Option<Value> {
    let regimes: Vec<&str> = arg(a, "regime", "low,zero,high").split(',').collect();
    let p = Profile {
        imp: arg(a, "imp", "dec").into(),
        regime: regimes[(seed % regimes.len() as u64) as usize].into(),
        n_ops: num(a, "ops", 14) as usize,
        invalid: flt(a, "invalid", 0.0),
        fees: num(a, "fees", 1) == 1,
        hmm: num(a, "hmm", 1) == 1,
        spacing: None,
        drain: num(a, "drain", 1) == 1,
    };
    let mut g = Gen::new(seed, &p).ok()?;
    g.beat = Some(beat);
    g.run(&p);
    Some(g.trace())
}

/// behaviours of the specification, one per line of --in; the seed is the line number
fn work_script(a: &[String], line: u64, beat: Beat) -> Option<Value> {
    use std::sync::OnceLock;
    static LINES: OnceLock<Vec<Value>> = OnceLock::new();
    let ls = LINES.get_or_init(|| std::fs::read_to_string(arg(a, "in", "")).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect());
    let s = &ls[line as usize];
    let g = Gen::script(arg(a, "imp", "dec"), s, line + num(a, "seed", 1) * 1_000_003, beat)?;
    Some(g.trace_grid())
}

/// what the lines of --in ask for, one history each
fn work_lines(a: &[String], line: u64, beat: Beat) -> Option<Value> {
    use std::sync::OnceLock;
    static LINES: OnceLock<Vec<Value>> = OnceLock::new();
    let ls = LINES.get_or_init(|| std::fs::read_to_string(arg(a, "in", "")).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect());
    let s = &ls[line as usize];
    Some(match a[1].as_str() {
        "chain" => onchain::replay(&format!("chain-{}", line), s, &beat),
        "calls" => calc::calls(s, &beat),
        "formulas" => calc::formulas(s, &beat),
        _ => calc::bitmap(s, &beat),
    })
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let out = arg(&a, "out", "/dev/null").to_string();
    let shards = num(&a, "shards", 8) as usize;
    let (s0, n) = (num(&a, "seed", 1), num(&a, "n", 100));
    match a[1].as_str() {
        "pool" => {
            let l = run_all((s0..s0 + n).collect(), 20, work_pool, a.clone());
            write_out(&out, shards, l);
        }
        "script" => {
            let n = std::fs::read_to_string(arg(&a, "in", "")).unwrap().lines().count() as u64;
            let l = run_all((0..n).collect(), 30, work_script, a.clone());
            write_out(&out, shards, l);
        }
        "chain" | "calls" | "formulas" | "bitmap" => {
            if a[1] == "chain" { onchain::install(); }
            let n = std::fs::read_to_string(arg(&a, "in", "")).unwrap().lines().count() as u64;
            let l = run_all((0..n).collect(), 20, work_lines, a.clone());
            write_out(&out, shards, l);
        }
        _ => { eprintln!("unknown command"); std::process::exit(2) }
    }
    std::process::exit(0);
}
