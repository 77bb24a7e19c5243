//! The on-chain program, run instruction by instruction against a small stand-in for the Solana
//! runtime: accounts in a map, cross-program calls to the system program and to the real SPL token
//! program, roll-back of failed instructions.
use anchor_lang::{AccountDeserialize, AnchorSerialize};
use hmmcl_sandbox::state::{pool_state::PoolState, position_state::PositionState, tick_bitmap::PoolTickBitmap, tick_state::TickState};
use serde_json::{json, Map, Value};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::hash::hash;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::program_pack::Pack;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_instruction::SystemInstruction;
use solana_program::{system_program, sysvar};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! { static SAID: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]); }
/// the events of an instruction: names and numbers
const EVENTS: [&str; 8] = ["SlippageExceeded", "LiquidityAdded", "LiquidityRemoved", "NegativeGlobalLiquidity", "InsufficientPositionLiquidity",
    "NegativeTickGrossLiquidity", "TickMismatch", "DepositAmountExceeded"];
fn said() -> Value {
    let all = SAID.with(|s| std::mem::take(&mut *s.borrow_mut()));
    json!(all.iter().map(|d| {
        let ev = EVENTS.iter().find(|n| d.len() >= 8 && d[..8] == hash(format!("event:{}", n).as_bytes()).to_bytes()[..8]).unwrap_or(&"?");
        let v: Vec<String> = if d.len() < 8 { vec![] } else { d[8..].chunks(8).map(|c| { let mut b = [0u8; 8]; b[..c.len()].copy_from_slice(c); u64::from_le_bytes(b).to_string() }).collect() };
        json!({"ev": ev, "v": v})
    }).collect::<Vec<_>>())
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, f: &[&[u8]]) { SAID.with(|s| s.borrow_mut().extend(f.iter().map(|d| d.to_vec()))) }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ins: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let caller = hmmcl_sandbox::ID;
        let mut pda = vec![];
        for s in seeds { pda.push(Pubkey::create_program_address(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?); }
        let mut args = vec![];
        for m in &ins.accounts {
            let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            // no privileges beyond those of the caller
            if m.is_signer && !i.is_signer && !pda.contains(&m.pubkey) { return Err(ProgramError::MissingRequiredSignature); }
            if m.is_writable && !i.is_writable { return Err(ProgramError::InvalidArgument); }
            let mut c = i.clone();
            c.is_signer = m.is_signer;
            c.is_writable = m.is_writable;
            args.push(c);
        }
        if ins.program_id == system_program::id() { return system(&args, &ins.data); }
        if ins.program_id == spl_token::id() { return spl_token::processor::Processor::process(&ins.program_id, &args, &ins.data); }
        Err(ProgramError::IncorrectProgramId)
    }
}

#[allow(invalid_reference_casting)]
fn set_owner(a: &AccountInfo, o: &Pubkey) { unsafe { std::ptr::write_volatile(a.owner as *const Pubkey as *mut Pubkey, *o) } }
fn allocate(a: &AccountInfo, space: u64) -> ProgramResult {
    if !a.is_signer { return Err(ProgramError::MissingRequiredSignature); }
    if a.data_len() != 0 || *a.owner != system_program::id() { return Err(ProgramError::AccountAlreadyInitialized); }
    *a.data.borrow_mut() = Box::leak(vec![0u8; space as usize].into_boxed_slice());
    Ok(())
}
fn pay(from: &AccountInfo, to: &AccountInfo, n: u64) -> ProgramResult {
    if !from.is_signer { return Err(ProgramError::MissingRequiredSignature); }
    if from.lamports() < n || *from.owner != system_program::id() { return Err(ProgramError::InsufficientFunds); }
    **from.lamports.borrow_mut() -= n;
    **to.lamports.borrow_mut() += n;
    Ok(())
}
fn system(a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    match bincode::deserialize(data).map_err(|_| ProgramError::InvalidInstructionData)? {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            if a[1].lamports() != 0 { return Err(ProgramError::AccountAlreadyInitialized); }
            allocate(&a[1], space)?;
            set_owner(&a[1], &owner);
            pay(&a[0], &a[1], lamports)
        }
        SystemInstruction::Transfer { lamports } => pay(&a[0], &a[1], lamports),
        SystemInstruction::Allocate { space } => allocate(&a[0], space),
        SystemInstruction::Assign { owner } => {
            if !a[0].is_signer { return Err(ProgramError::MissingRequiredSignature); }
            if *a[0].owner != system_program::id() { return Err(ProgramError::IllegalOwner); }
            set_owner(&a[0], &owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

pub fn install() { set_syscall_stubs(Box::new(Stubs)); }

#[derive(Clone, PartialEq)]
struct Acc { lamports: u64, data: Vec<u8>, owner: Pubkey, exec: bool }

pub struct World {
    accs: BTreeMap<Pubkey, Acc>,
    names: BTreeMap<Pubkey, String>,
}

fn le(t: &str) -> [u8; 8] { t.parse::<u64>().expect("a tick").to_le_bytes() }

impl World {
    /// address and bump of a name, see OnChain.tla for the names
    fn find(&mut self, name: &str) -> (Pubkey, u8) {
        let id = hmmcl_sandbox::ID;
        let (kind, rest) = name.split_once('/').unwrap_or((name, ""));
        // the account that others are derived from may be any, pool or not
        let r = match (kind, rest.rsplitn(4, '/').collect::<Vec<_>>().as_slice()) {
            ("pool", [m]) => { let m = self.key(m); Pubkey::find_program_address(&[b"pool_state_seed", m.as_ref()], &id) }
            ("bm", _) => { let p = self.key(rest); Pubkey::find_program_address(&[b"bitmap", p.as_ref()], &id) }
            ("tick", [_, _, ..]) => {
                let (p, t) = rest.rsplit_once('/').unwrap();
                let p = self.key(p);
                Pubkey::find_program_address(&[b"tick", p.as_ref(), &le(t)], &id)
            }
            ("pos", [hi, lo, u, p]) => {
                let (p, u) = (self.key(p), self.key(u));
                Pubkey::find_program_address(&[b"position", p.as_ref(), u.as_ref(), &le(lo), &le(hi)], &id)
            }
            ("vault", [b, a]) => { let (a, b) = (self.key(a), self.key(b)); Pubkey::find_program_address(&[b"token_vault_seed", a.as_ref(), b.as_ref()], &id) }
            ("lpv", [ml, "pool"]) => {
                let (p, m) = (self.key(rest), self.key(ml));
                Pubkey::find_program_address(&[b"lp_token_vault_seed", p.as_ref(), m.as_ref()], &id)
            }
            _ => match kind {
            "token" => (spl_token::id(), 0),
            "system" => (system_program::id(), 0),
            "rent" => (sysvar::rent::id(), 0),
            _ => (Pubkey::new_from_array(hash(name.as_bytes()).to_bytes()), 0),
            },
        };
        self.names.insert(r.0, name.to_string());
        r
    }
    fn key(&mut self, name: &str) -> Pubkey {
        if let Some((k, _)) = self.names.iter().find(|(_, n)| n.as_str() == name) { return *k; }
        self.find(name).0
    }
    fn name(&self, k: &Pubkey) -> String { self.names.get(k).cloned().unwrap_or_else(|| format!("?{}", k)) }

    pub fn new(setup: &Value) -> World {
        let mut w = World { accs: BTreeMap::new(), names: BTreeMap::new() };
        let mut put = |w: &mut World, n: &str, owner: Pubkey, data: Vec<u8>, exec: bool| {
            let k = w.key(n);
            w.accs.insert(k, Acc { lamports: 1_000_000_000_000_000, data, owner, exec });
        };
        for n in ["token", "system"] { put(&mut w, n, solana_program::bpf_loader::id(), vec![], true); }
        put(&mut w, "rent", sysvar::id(), bincode::serialize(&Rent::default()).unwrap(), false);
        for u in setup["users"].as_array().unwrap() { put(&mut w, u.as_str().unwrap(), system_program::id(), vec![], false); }
        for (n, m) in setup["mint"].as_object().unwrap() {
            let mut d = vec![0u8; spl_token::state::Mint::LEN];
            let auth = m["auth"].as_str().filter(|a| *a != "-").map(|a| w.key(a));
            let st = spl_token::state::Mint { mint_authority: auth.into(), supply: num(&m["supply"]), decimals: 0, is_initialized: true, freeze_authority: None.into() };
            spl_token::state::Mint::pack(st, &mut d).unwrap();
            put(&mut w, n, spl_token::id(), d, false);
        }
        for (n, t) in setup["tok"].as_object().unwrap() {
            let mut d = vec![0u8; spl_token::state::Account::LEN];
            let st = spl_token::state::Account { mint: w.key(t["mint"].as_str().unwrap()), owner: w.key(t["owner"].as_str().unwrap()), amount: num(&t["amt"]),
                delegate: None.into(), state: spl_token::state::AccountState::Initialized, is_native: None.into(), delegated_amount: 0, close_authority: None.into() };
            spl_token::state::Account::pack(st, &mut d).unwrap();
            put(&mut w, n, spl_token::id(), d, false);
        }
        w
    }

    /// run one instruction; everything is undone when it fails
    pub fn run(&mut self, op: &str, args: &[u64], accs: &[(String, bool)]) -> Result<(), String> {
        let mut data = hash(format!("global:{}", op).as_bytes()).to_bytes()[..8].to_vec();
        for a in args { a.serialize(&mut data).unwrap(); }
        let keys: Vec<Pubkey> = accs.iter().map(|a| self.key(&a.0)).collect();
        // a forgery: the same contents, but somewhere else and of another program
        for (n, _) in accs {
            if let Some(real) = n.strip_prefix("fake/") {
                let (r, f) = (self.key(real), self.key(n));
                if let Some(a) = self.accs.get(&r).cloned() { self.accs.insert(f, Acc { owner: Pubkey::new_from_array([7; 32]), ..a }); }
            }
        }
        let before = self.accs.clone();
        let empty = Acc { lamports: 0, data: vec![], owner: system_program::id(), exec: false };
        // what the runtime hands over: one set of cells per address, shared by its mentions
        let mut cells: BTreeMap<Pubkey, (&'static Pubkey, Rc<RefCell<&'static mut u64>>, Rc<RefCell<&'static mut [u8]>>, &'static Pubkey, bool)> = BTreeMap::new();
        for k in &keys {
            let a = self.accs.get(k).unwrap_or(&empty).clone();
            cells.entry(*k).or_insert_with(|| (
                Box::leak(Box::new(*k)),
                Rc::new(RefCell::new(Box::leak(Box::new(a.lamports)))),
                Rc::new(RefCell::new(Box::leak(a.data.into_boxed_slice()))),
                Box::leak(Box::new(a.owner)), a.exec));
        }
        let infos: Vec<AccountInfo> = keys.iter().zip(accs).map(|(k, a)| {
            let c = &cells[k];
            // a signature and write access given once hold for every mention
            let signs = accs.iter().zip(&keys).any(|(b, kb)| kb == k && b.1);
            AccountInfo { key: c.0, is_signer: signs, is_writable: !c.4 && a.0 != "rent", lamports: c.1.clone(), data: c.2.clone(), owner: c.3, executable: c.4, rent_epoch: 0 }
        }).collect();
        let r = catch_unwind(AssertUnwindSafe(|| hmmcl_sandbox::entry(&hmmcl_sandbox::ID, &infos, &data)));
        let res = match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(p) => Err(format!("panic: {}", crate::pool::pmsg(p))),
        };
        drop(infos);
        if res.is_ok() {
            for (k, c) in &cells {
                self.accs.insert(*k, Acc { lamports: **c.1.borrow(), data: c.2.borrow().to_vec(), owner: unsafe { std::ptr::read_volatile(c.3 as *const Pubkey) }, exec: c.4 });
            }
            self.accs.retain(|_, a| a.lamports > 0);
            let sum = |m: &BTreeMap<Pubkey, Acc>| m.values().map(|a| a.lamports as u128).sum::<u128>();
            if sum(&before) != sum(&self.accs) { self.accs = before; return Err("lamports created or destroyed".into()); }
        }
        self.accs.retain(|_, a| a.owner != Pubkey::new_from_array([7; 32]));
        res
    }

    /// the accounts, by name and in the terms of OnChain.tla
    pub fn dump(&mut self) -> Value {
        let mut o: BTreeMap<&str, Map<String, Value>> = BTreeMap::new();
        for k in ["pool", "bm", "tick", "pos", "tok", "mint"] { o.insert(k, Map::new()); }
        let accs = self.accs.clone();
        let fee0 = |f: &hmmcl_sandbox::state::fees::Fee| f.f_x == 0 && f.f_y == 0 && f.h_x == 0 && f.h_y == 0 && f.fee_scale == 12;
        for (k, a) in &accs {
            let n = self.name(k);
            if a.owner == spl_token::id() {
                if let Ok(t) = spl_token::state::Account::unpack(&a.data) {
                    let free = t.delegate.is_none() && t.close_authority.is_none();
                    o.get_mut("tok").unwrap().insert(n, json!({"mint": self.name(&t.mint), "owner": self.name(&t.owner), "amt": t.amount.to_string(), "free": free}));
                } else if let Ok(m) = spl_token::state::Mint::unpack(&a.data) {
                    let auth: Option<Pubkey> = m.mint_authority.into();
                    o.get_mut("mint").unwrap().insert(n, json!({"auth": auth.map(|x| self.name(&x)).unwrap_or("-".into()), "supply": m.supply.to_string()}));
                }
            } else if a.owner == hmmcl_sandbox::ID {
                let d = &mut &a.data[..];
                if let Ok(p) = PoolState::try_deserialize(d) {
                    let g = p.pool_global_state.clone();
                    let ml = self.name(&p.lp_token_mint);
                    let bumps = self.find(&n).1 == p.pool_state_bump
                        && self.find(&format!("vault/{}/{}", self.name(&p.token_x_mint), ml)).1 == p.token_x_vault_bump
                        && self.find(&format!("vault/{}/{}", self.name(&p.token_y_mint), ml)).1 == p.token_y_vault_bump
                        && self.find(&format!("lpv/pool/{}", ml)).1 == p.lp_token_vault_bump;
                    o.get_mut("pool").unwrap().insert(n, json!({"mx": self.name(&p.token_x_mint), "my": self.name(&p.token_y_mint), "ml": ml,
                        "vx": self.name(&p.token_x_vault), "vy": self.name(&p.token_y_vault), "auth": self.name(&p.authority),
                        "liq": s24(g.liquidity, g.liq_scale, false), "rp": s24(g.root_price, g.rp_scale, false), "tick": g.tick, "bumps": bumps, "fees": fee0(&g.global_fee)}));
                } else if let Ok(t) = TickState::try_deserialize(&mut &a.data[..]) {
                    let bumps = self.find(&n).1 == t.bump;
                    o.get_mut("tick").unwrap().insert(n, json!({"t": t.tick, "net": s24(t.liq_net, t.liq_net_scale, t.liq_net_neg != 0),
                        "gross": s24(t.liq_gross, t.liq_gross_scale, false), "bumps": bumps, "fees": fee0(&t.tick_fee)}));
                } else if let Ok(p) = PositionState::try_deserialize(&mut &a.data[..]) {
                    let bumps = self.find(&n).1 == p.bump;
                    o.get_mut("pos").unwrap().insert(n, json!({"lo": p.lower_tick, "hi": p.upper_tick, "L": s24(p.liquidity, p.liq_scale, false), "bumps": bumps, "fees": fee0(&p.last_collected_fee)}));
                } else if a.data.len() == 8 + std::mem::size_of::<PoolTickBitmap>() {
                    let bumps = self.find(&n).1 == *a.data.last().unwrap();
                    o.get_mut("bm").unwrap().insert(n, json!({"bumps": bumps}));
                } else { o.get_mut("pos").unwrap().insert(n, json!({"unknown": true})); }
            }
        }
        json!(o)
    }
}

fn s24(v: u128, scale: u8, neg: bool) -> String {
    let b = if scale <= 24 { format!("{}{}", v, "0".repeat((24 - scale) as usize)) } else { "nan".into() };
    let b = b.trim_start_matches('0').to_string();
    if b.is_empty() { "0".into() } else if neg { format!("-{}", b) } else { b }
}
fn num(v: &Value) -> u64 { match v { Value::String(s) => s.parse().unwrap(), v => v.as_u64().unwrap() } }

/// one behaviour of GenOnChain: {setup, ev: [{op, arg, acc, sig}]}
pub fn replay(id: &str, s: &Value, beat: &crate::driver::Beat) -> Value {
    let mut w = World::new(&s["setup"]);
    let mut evs = vec![json!({"op": "new", "res": "ok", "w": w.dump()})];
    for i in s["ev"].as_array().unwrap() {
        let op = i["op"].as_str().unwrap();
        let g = |k: &str| num(&i["arg"][k]);
        let (name, args, roles): (&str, Vec<u64>, Vec<&str>) = match op {
            "pool" => ("initialize_pool", vec![0, g("tick")], vec!["authority", "payer", "pool_state", "token_x_mint", "token_y_mint", "lp_token_mint",
                        "token_x_vault", "token_y_vault", "lp_token_vault", "system_program", "token_program", "rent"]),
            "bm" => ("initialize_bitmap", vec![], vec!["pool_state", "tick_bitmap", "payer", "system_program"]),
            "tick" => ("initialize_tick", vec![g("tick")], vec!["pool_state", "tick_state", "payer", "system_program"]),
            "pos" => ("create_position", vec![g("lo"), g("hi")], vec!["pool_state", "position_state", "lower_tick_state", "upper_tick_state", "user", "payer", "system_program"]),
            "dep" | "wit" => (if op == "dep" { "deposit" } else { "withdraw" },
                if op == "dep" { vec![g("lo"), g("hi"), g("cur"), g("x"), g("y")] } else { vec![g("lo"), g("hi"), g("cur"), g("lp")] },
                vec!["pool_state", "tick_bitmap", "position_state", "lower_tick_state", "upper_tick_state", "current_tick_state", "lp_token_mint", "user_token_x",
                     "user_token_y", "token_x_vault", "token_y_vault", "lp_token_vault", "lp_token_acc", "token_program", "user", "payer"]),
            _ => panic!("unknown instruction {}", op),
        };
        let sig: Vec<&str> = i["sig"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let accs: Vec<(String, bool)> = roles.iter().map(|r| { let n = i["acc"][*r].as_str().unwrap(); (n.to_string(), sig.contains(&n)) }).collect();
        let mut e = i.clone();
        {
            // should it never return: what has happened so far
            let mut g = beat.lock().unwrap();
            e["res"] = json!("hang");
            e["said"] = json!([]);
            e["w"] = evs.last().unwrap()["w"].clone();
            *g = (std::time::Instant::now(), e.clone(), vec![]);
            g.2.push(json!({"id": id, "P": {}, "ev": [{"op": "new", "res": "ok", "w": evs.last().unwrap()["w"]}]}));
        }
        let _ = said();
        let r = w.run(name, &args, &accs);
        e["said"] = said();
        e["res"] = json!(if r.is_ok() { "ok" } else { "rej" });
        if let Err(m) = r { e["msg"] = json!(m); }
        e["w"] = w.dump();
        evs.push(e);
    }
    json!({"id": id, "P": {}, "ev": evs})
}
