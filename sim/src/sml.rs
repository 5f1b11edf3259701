//! The small contracts: coin registry (C30), fee granter (C31), admin-list proxy (C32). Exact models.

use crate::chain::*;
use crate::code;
use crate::rng::Rng;
use crate::runner::*;
use crate::world::*;
use astroport::asset::AssetInfo;
use astroport::fee_granter as fg;
use astroport::native_coin_registry as cr;
use cosmwasm_std::{to_json_binary, Addr, Binary, Coin, Deps, DepsMut, Env, MessageInfo, Response, StdError, StdResult, Uint128};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

type U = Uint128;
const T0: u64 = 1_700_000_000;
const NU: usize = 4;

fn user(i: usize) -> String {
    if i == 0 {
        OWNER.into()
    } else {
        format!("user{i}")
    }
}

// ------------------------------------------------------------------------------------------ coin registry

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RegCfg {
    crowd: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RegOp {
    Add { u: usize, coins: Vec<(usize, u8)> },
    Register { u: usize, coins: Vec<(usize, u8)>, funds: Vec<(usize, U)> },
    Remove { u: usize, coins: Vec<usize> },
    Freeze { t: Option<usize> },
    Idle,
}

const DENOMS: [&str; 7] = ["uusd", "uluna", "ibc/27394FB0", "factory/owner/token", "uusdc", "u", "uus"];

pub struct RegScn {
    c: Chain,
    reg: String,
    factory: String,
    probe: String,
    m: BTreeMap<String, u8>,
    frozen: Option<usize>,
}

fn none_inst(_: DepsMut, _: Env, _: MessageInfo, _: cosmwasm_std::Empty) -> Result<Response, StdError> {
    Ok(Default::default())
}
fn none_exec(_: DepsMut, _: Env, _: MessageInfo, _: cosmwasm_std::Empty) -> Result<Response, StdError> {
    Ok(Default::default())
}
/// any contract that asks for the decimals of a coin
fn ask(d: Deps, _: Env, (denom, factory): (String, String)) -> StdResult<Binary> {
    to_json_binary(&AssetInfo::native(denom).decimals(&d.querier, &Addr::unchecked(factory))?)
}

impl RegScn {
    fn checks(&mut self, ctx: &mut Ctx) {
        let p = "C30";
        for d in DENOMS.iter().chain([&"unknown"]) {
            let w = self.m.get(*d).copied();
            let r: Result<u8, String> = self.c.query(&self.reg, &cr::QueryMsg::NativeToken { denom: d.to_string() });
            ctx.check(p, "token", r.as_ref().ok().copied() == w, || format!("{d}: {r:?}, expected {w:?}"));
            let r: Result<u8, String> = self.c.query(&self.probe, &(d.to_string(), self.factory.clone()));
            ctx.check(p, "seen-by-others", r.as_ref().ok().copied() == w, || format!("decimals of {d} through the factory: {r:?}, expected {w:?}"));
            let b = self.c.bal(&self.reg, d);
            ctx.check(p, "keeps-nothing", b == 0, || format!("the registry keeps {b} {d}"));
            for u in 0..NU {
                let b = self.c.bal(&user(u), d);
                ctx.check(p, "refunded", b == if DENOMS.contains(d) { 1000 } else { 0 }, || format!("{} is left with {b} {d}", user(u)));
            }
        }
        let lim = [None, Some(1), Some(3), Some(100)][ctx.step % 4];
        let mut got: Vec<(String, u8)> = vec![];
        for _ in 0..200 {
            let r: Result<Vec<cr::CoinResponse>, String> = self.c.query(&self.reg, &cr::QueryMsg::NativeTokens { start_after: got.last().map(|x| x.0.clone()), limit: lim });
            let Ok(r) = r else { break };
            ctx.check(p, "page-size", r.len() <= lim.unwrap_or(50) as usize, || format!("{} coins on a page of {lim:?}", r.len()));
            if r.is_empty() {
                break;
            }
            got.extend(r.into_iter().map(|c| (c.denom, c.decimals)));
        }
        let want: Vec<(String, u8)> = self.m.clone().into_iter().collect();
        ctx.check(p, "list", got == want, || format!("listed {got:?}, expected {want:?}"));
        // a page may start anywhere
        let from = DENOMS[ctx.step % DENOMS.len()].to_string();
        let r: Result<Vec<cr::CoinResponse>, String> = self.c.query(&self.reg, &cr::QueryMsg::NativeTokens { start_after: Some(from.clone()), limit: Some(4) });
        let got: Option<Vec<(String, u8)>> = r.ok().map(|v| v.into_iter().map(|c| (c.denom, c.decimals)).collect());
        let want: Vec<(String, u8)> = want.into_iter().filter(|x| x.0 > from).take(4).collect();
        ctx.check(p, "list", got.as_ref() == Some(&want), || format!("after {from} listed {got:?}, expected {want:?}"));
    }
}

impl Scenario for RegScn {
    type Cfg = RegCfg;
    type Op = RegOp;
    const NAME: &'static str = "coin_registry";

    fn cfg(rng: &mut Rng, _: &str, thorough: bool) -> (RegCfg, Sched) {
        (RegCfg { crowd: if rng.pct(25) { rng.idx(60) } else { 0 } }, Sched::draw(rng, if thorough { 100 } else { 40 }))
    }

    fn new(cfg: &RegCfg, ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(T0, 1_000_000);
        let d = dex::deploy(&c, vec![], None, None)?;
        let pc = c.store_code(code!("probe", inst = none_inst, exec = none_exec, query = ask));
        let probe = c.instantiate(pc, OWNER, &cosmwasm_std::Empty {}, &[], "probe", None)?;
        for u in 0..NU {
            for x in DENOMS {
                c.faucet(&user(u), x, 1000);
            }
        }
        let mut s = RegScn { reg: d.registry.clone(), factory: d.factory.clone(), c, probe, m: Default::default(), frozen: None };
        let crowd: Vec<(String, u8)> = (0..cfg.crowd).map(|i| (format!("crowd{i:02}"), (i % 19) as u8)).collect();
        if !crowd.is_empty() {
            s.c.execute(OWNER, &s.reg, &cr::ExecuteMsg::Add { native_coins: crowd.clone() }, &[])?;
        }
        s.m = crowd.into_iter().collect();
        s.checks(ctx);
        Ok(s)
    }

    fn gen(&mut self, rng: &mut Rng) -> RegOp {
        let u = rng.idx(NU);
        let n = rng.range(1, 3);
        let dec = |rng: &mut Rng| match rng.below(8) {
            0 => 19,
            1 => 18,
            2 => 0,
            3 => *rng.pick(&[20, 77, 255]),
            _ => rng.idx(19) as u8,
        };
        let coins: Vec<(usize, u8)> = (0..n).map(|_| (rng.idx(DENOMS.len()), dec(rng))).collect();
        match rng.weighted(&[30, 40, 20, 3, 2]) {
            0 => RegOp::Add { u: if rng.pct(75) { 0 } else { u }, coins },
            1 => {
                let mut funds: Vec<(usize, U)> = coins.iter().map(|c| (c.0, U::new(*rng.pick(&[1u128, 5, 1000, 1001])))).collect();
                if rng.pct(15) {
                    funds.pop();
                }
                if rng.pct(15) {
                    funds.push((rng.idx(DENOMS.len()), U::one()));
                }
                RegOp::Register { u, coins, funds }
            }
            2 => RegOp::Remove { u: if rng.pct(75) { 0 } else { u }, coins: coins.into_iter().map(|c| c.0).collect() },
            3 => RegOp::Freeze { t: if self.frozen.is_some() { None } else { Some(rng.idx(DENOMS.len())) } },
            _ => RegOp::Idle,
        }
    }

    fn apply(&mut self, step: &Step<RegOp>, ctx: &mut Ctx) {
        self.c.advance(step.dt, step.db);
        let list = |c: &[(usize, u8)]| -> Vec<(String, u8)> { c.iter().map(|(i, d)| (DENOMS[*i].to_string(), *d)).collect() };
        let uniq = |v: Vec<usize>| v.iter().collect::<BTreeSet<_>>().len() == v.len();
        let mut m = self.m.clone();
        let (u, msg, funds, ok, what) = match &step.op {
            RegOp::Add { u, coins } => {
                let ok = *u == 0 && uniq(coins.iter().map(|c| c.0).collect()) && coins.iter().all(|c| c.1 <= 18);
                m.extend(list(coins));
                (*u, cr::ExecuteMsg::Add { native_coins: list(coins) }, vec![], ok, "add")
            }
            RegOp::Register { u, coins, funds } => {
                let mut f: BTreeMap<usize, u128> = BTreeMap::new();
                for (t, a) in funds {
                    *f.entry(*t).or_default() += a.u128();
                }
                let ok = uniq(coins.iter().map(|c| c.0).collect())
                    && coins.iter().all(|c| c.1 <= 18 && f.contains_key(&c.0) && !self.m.contains_key(DENOMS[c.0]))
                    && f.iter().all(|(t, a)| *a <= 1000 && self.frozen != Some(*t));
                m.extend(list(coins));
                let f: Vec<Coin> = f.iter().map(|(t, a)| Coin::new(*a, DENOMS[*t])).collect();
                (*u, cr::ExecuteMsg::Register { native_coins: list(coins) }, f, ok, "register")
            }
            RegOp::Remove { u, coins } => {
                let ok = *u == 0 && uniq(coins.clone()) && coins.iter().all(|c| self.m.contains_key(DENOMS[*c]));
                for c in coins {
                    m.remove(DENOMS[*c]);
                }
                (*u, cr::ExecuteMsg::Remove { native_coins: coins.iter().map(|c| DENOMS[*c].to_string()).collect() }, vec![], ok, "remove")
            }
            RegOp::Freeze { t } => {
                self.frozen = *t;
                let mut s = self.c.0.borrow_mut();
                s.frozen_denoms.clear();
                if let Some(t) = t {
                    ctx.hit("fault.denom_frozen");
                    s.frozen_denoms.insert(DENOMS[*t].into());
                }
                return;
            }
            RegOp::Idle => return self.checks(ctx),
        };
        self.c.0.borrow_mut().fault = step.fault.clone();
        let r = self.c.execute(&user(u), &self.reg, &msg, &funds);
        let faulted = fault_mark(&self.c, ctx);
        ctx.outcome(what, r.is_ok(), r.as_ref().err().map_or("", |s| s));
        ctx.check("C30", "accepted", r.is_ok() == (ok && !faulted), || format!("{:?} (should work: {ok}): {:?}", step.op, r.as_ref().err()));
        if r.is_ok() {
            self.m = m;
        }
        self.checks(ctx);
    }

    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now() - T0
    }
}

// -------------------------------------------------------------------------------------------- fee granter

const GAS: &str = "inj";
const NG: usize = 5;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FeeCfg {
    admins: Vec<usize>,
    crowd: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FeeOp {
    Grant { u: usize, g: usize, amt: U, bypass: bool, funds: Vec<(bool, U)> },
    Revoke { u: usize, g: usize },
    Transfer { u: usize, amt: U, to: Option<usize> },
    Admins { u: usize, add: Vec<usize>, remove: Vec<usize> },
    /// a grantee's transaction paid by the allowance
    Spend { g: usize, amt: U },
    Donate { u: usize, amt: U },
    Idle,
}

#[derive(Clone, Default, Debug)]
struct FeeModel {
    admins: BTreeSet<String>,
    grants: BTreeMap<String, u128>,
    left: BTreeMap<String, u128>,
    bal: BTreeMap<String, u128>,
    other: BTreeMap<String, u128>,
}

pub struct FeeScn {
    c: Chain,
    a: String,
    m: FeeModel,
}

impl FeeScn {
    fn grantee(&self, g: usize) -> String {
        match g {
            NG => self.a.clone(),
            g if g > NG => "bad/address".into(),
            g => format!("grantee{g}"),
        }
    }
    fn mv(m: &mut BTreeMap<String, u128>, from: &str, to: &str, x: u128) -> bool {
        let b = m.entry(from.into()).or_default();
        let ok = *b >= x;
        *b = b.saturating_sub(x);
        *m.entry(to.into()).or_default() += x;
        ok
    }
    fn checks(&mut self, ctx: &mut Ctx) {
        let p = "C31";
        let r: Result<fg::Config, String> = self.c.query(&self.a, &fg::QueryMsg::Config {});
        let got: Option<(String, BTreeSet<String>, usize, String)> =
            r.as_ref().ok().map(|c| (c.owner.to_string(), c.admins.iter().map(|a| a.to_string()).collect(), c.admins.len(), c.gas_denom.clone()));
        let want = Some((OWNER.to_string(), self.m.admins.clone(), self.m.admins.len(), GAS.to_string()));
        ctx.check(p, "config", got == want, || format!("config {r:?}, expected {want:?}"));
        ctx.check(p, "admins", self.m.admins.len() <= 2, || format!("{} admins", self.m.admins.len()));
        let lim = [None, Some(1), Some(3), Some(100)][ctx.step % 4];
        let mut got: Vec<(String, u128)> = vec![];
        for _ in 0..200 {
            let r: Result<Vec<fg::GrantResponse>, String> = self.c.query(&self.a, &fg::QueryMsg::GrantsList { start_after: got.last().map(|x| x.0.clone()), limit: lim });
            let Ok(r) = r else { break };
            ctx.check(p, "page-size", r.len() <= lim.unwrap_or(50) as usize, || format!("{} grants on a page of {lim:?}", r.len()));
            if r.is_empty() {
                break;
            }
            got.extend(r.into_iter().map(|c| (c.grantee_contract, c.amount.u128())));
        }
        let want: Vec<(String, u128)> = self.m.grants.clone().into_iter().collect();
        ctx.check(p, "list", got == want, || format!("grants {got:?}, expected {want:?}"));
        // a page may start anywhere
        let from = self.grantee(ctx.step % NG);
        let r: Result<Vec<fg::GrantResponse>, String> = self.c.query(&self.a, &fg::QueryMsg::GrantsList { start_after: Some(from.clone()), limit: Some(2) });
        let got: Option<Vec<(String, u128)>> = r.ok().map(|v| v.into_iter().map(|c| (c.grantee_contract, c.amount.u128())).collect());
        let want: Vec<(String, u128)> = want.into_iter().filter(|x| x.0 > from).take(2).collect();
        ctx.check(p, "list", got.as_ref() == Some(&want), || format!("after {from} grants {got:?}, expected {want:?}"));
        for g in 0..NG {
            let n = self.grantee(g);
            let w = self.m.grants.get(&n).copied().unwrap_or(0);
            let r: Result<fg::GrantResponse, String> = self.c.query(&self.a, &fg::QueryMsg::GrantFor { grantee_contract: n.clone() });
            ctx.check(p, "grant", r.as_ref().is_ok_and(|r| r.amount.u128() == w && r.grantee_contract == n), || format!("grant of {n}: {r:?}, expected {w}"));
            let w = self.m.left.get(&n).copied();
            let l = self.c.allowance(&self.a, &n, GAS);
            ctx.check(p, "allowance", l == w, || format!("the chain allows {n} {l:?}, expected {w:?}"));
        }
        let n = self.c.0.borrow().grants.len();
        ctx.check(p, "allowance", n == self.m.left.len(), || format!("{n} allowances on the chain, {} expected", self.m.left.len()));
        for (a, w) in &self.m.bal {
            let b = self.c.bal(a, GAS);
            ctx.check(p, "balance", b == *w, || format!("{a} has {b}, expected {w}"));
        }
        for (a, w) in &self.m.other {
            let b = self.c.bal(a, "ujunk");
            ctx.check(p, "balance", b == *w, || format!("{a} has {b} of another coin, expected {w}"));
        }
    }
}

impl Scenario for FeeScn {
    type Cfg = FeeCfg;
    type Op = FeeOp;
    const NAME: &'static str = "fee_granter";

    fn cfg(rng: &mut Rng, _: &str, thorough: bool) -> (FeeCfg, Sched) {
        let n = rng.below(4);
        (FeeCfg { admins: (0..n).map(|_| rng.range(1, 4) as usize).collect(), crowd: if rng.pct(20) { rng.idx(60) } else { 0 } }, Sched::draw(rng, if thorough { 120 } else { 50 }))
    }

    fn new(cfg: &FeeCfg, ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(T0, 1_000_000);
        let code = c.store_code(code!(
            "fee_granter",
            inst = astroport_fee_granter::contract::instantiate,
            exec = astroport_fee_granter::contract::execute,
            query = astroport_fee_granter::query::query,
            reply = astroport_fee_granter::contract::reply
        ));
        let init = |l: &[usize]| c.instantiate(code, "deployer", &fg::InstantiateMsg { owner: OWNER.into(), admins: l.iter().map(|i| user(*i)).collect(), gas_denom: GAS.into() }, &[], "fg", None);
        let uniq: BTreeSet<usize> = cfg.admins.iter().copied().collect();
        let ok = uniq.len() == cfg.admins.len() && uniq.len() <= 2;
        let mut r = init(&cfg.admins);
        ctx.check("C31", "created", r.is_ok() == ok, || format!("admins {:?}: {r:?}", cfg.admins));
        let mut m = FeeModel::default();
        if r.is_ok() {
            m.admins = uniq.iter().map(|i| user(*i)).collect();
        } else {
            r = init(&[]);
        }
        let a = r?;
        for u in 0..5 {
            c.faucet(&user(u), GAS, 1_000_000);
            c.faucet(&user(u), "ujunk", 1_000_000);
            m.bal.insert(user(u), 1_000_000);
            m.other.insert(user(u), 1_000_000);
        }
        m.bal.insert(a.clone(), 0);
        m.other.insert(a.clone(), 0);
        let mut s = FeeScn { c, a, m };
        for i in 0..cfg.crowd {
            let g = format!("crowd{i:02}");
            s.c.execute(OWNER, &s.a, &fg::ExecuteMsg::Grant { grantee_contract: g.clone(), amount: U::new(7), bypass_amount_check: true }, &[])?;
            s.m.grants.insert(g.clone(), 7);
            s.m.left.insert(g, 7);
        }
        s.checks(ctx);
        Ok(s)
    }

    fn gen(&mut self, rng: &mut Rng) -> FeeOp {
        let adm: Vec<usize> = (1..5).filter(|i| self.m.admins.contains(&user(*i))).collect();
        let u = match rng.below(4) {
            0 => 0,
            1 => rng.idx(5),
            _ if !adm.is_empty() => *rng.pick(&adm),
            _ => 0,
        };
        let g = if rng.pct(95) { rng.idx(NG) } else { NG + rng.idx(2) };
        let have: Vec<usize> = (0..NG).filter(|g| self.m.grants.contains_key(&format!("grantee{g}"))).collect();
        let held = if have.is_empty() || rng.pct(15) { g } else { *rng.pick(&have) };
        match rng.weighted(&[30, 14, 14, 10, 22, 4, 2]) {
            0 => {
                let amt = U::new(if rng.pct(5) { 0 } else { rng.log(1, 100_000) });
                let bypass = rng.pct(30);
                let mut funds = match rng.below(10) {
                    0 => vec![],
                    1 => vec![(true, amt + U::one())],
                    2 => vec![(false, amt)],
                    _ if bypass && rng.pct(60) => vec![],
                    _ => vec![(true, amt)],
                };
                if rng.pct(6) {
                    funds.push((false, U::one()));
                }
                FeeOp::Grant { u, g, amt, bypass, funds }
            }
            1 => FeeOp::Revoke { u, g: held },
            2 => {
                let b = self.m.bal[&self.a];
                let amt = match rng.below(5) {
                    0 => b,
                    1 => b + 1,
                    2 => 0,
                    _ => rng.log(1, b.max(2)),
                };
                FeeOp::Transfer { u, amt: U::new(amt), to: if rng.pct(60) { Some(rng.idx(6)) } else { None } }
            }
            3 => {
                let n = rng.below(3);
                let k = rng.below(3);
                FeeOp::Admins { u: if rng.pct(80) { 0 } else { u }, add: (0..n).map(|_| rng.idx(5)).collect(), remove: (0..k).map(|_| rng.idx(6)).collect() }
            }
            4 => {
                let l = self.m.left.get(&self.grantee(held)).copied().unwrap_or(5);
                FeeOp::Spend { g: held, amt: U::new(if rng.pct(45) { l } else { rng.log(1, l.max(2)) }) }
            }
            5 => FeeOp::Donate { u: rng.idx(5), amt: U::new(rng.log(1, 10_000)) },
            _ => FeeOp::Idle,
        }
    }

    fn apply(&mut self, step: &Step<FeeOp>, ctx: &mut Ctx) {
        self.c.advance(step.dt, step.db);
        let mut m = self.m.clone();
        let a = self.a.clone();
        let may = |u: usize| u == 0 || self.m.admins.contains(&user(u));
        let (u, msg, funds, ok, what) = match &step.op {
            FeeOp::Grant { u, g, amt, bypass, funds } => {
                let n = self.grantee(*g);
                let mut f: BTreeMap<bool, u128> = BTreeMap::new();
                for (k, x) in funds {
                    if !x.is_zero() {
                        *f.entry(*k).or_default() += x.u128();
                    }
                }
                let exact = f.len() == 1 && f.get(&true) == Some(&amt.u128());
                let mut ok = may(*u) && *g < NG && !amt.is_zero() && !self.m.grants.contains_key(&n) && (*bypass || exact);
                for (k, x) in &f {
                    ok &= Self::mv(if *k { &mut m.bal } else { &mut m.other }, &user(*u), &a, *x);
                }
                m.grants.insert(n.clone(), amt.u128());
                m.left.insert(n.clone(), amt.u128());
                let f: Vec<Coin> = f.iter().rev().map(|(k, x)| Coin::new(*x, if *k { GAS } else { "ujunk" })).collect();
                (*u, fg::ExecuteMsg::Grant { grantee_contract: n, amount: *amt, bypass_amount_check: *bypass }, f, ok, "grant")
            }
            FeeOp::Revoke { u, g } => {
                let n = self.grantee(*g);
                // an allowance used up is gone from the chain, but the grant can still be revoked and given anew
                let ok = may(*u) && *g <= NG;
                if ok && self.m.grants.contains_key(&n) && !self.m.left.contains_key(&n) {
                    ctx.hit("probe.revoke_used_up_grant");
                }
                m.grants.remove(&n);
                m.left.remove(&n);
                (*u, fg::ExecuteMsg::Revoke { grantee_contract: n }, vec![], ok, "revoke")
            }
            FeeOp::Transfer { u, amt, to } => {
                let to = to.map(|t| if t == 5 { "outsider".to_string() } else { user(t) });
                let ok = may(*u) && !amt.is_zero() && Self::mv(&mut m.bal, &a, &to.clone().unwrap_or(user(*u)), amt.u128());
                (*u, fg::ExecuteMsg::TransferCoins { amount: *amt, receiver: to }, vec![], ok, "transfer")
            }
            FeeOp::Admins { u, add, remove } => {
                let nm = |i: &usize| if *i == 5 { "nobody".to_string() } else { user(*i) };
                let mut ok = *u == 0;
                for x in add {
                    ok &= m.admins.insert(nm(x));
                }
                for x in remove {
                    m.admins.remove(&nm(x));
                }
                ok &= m.admins.len() <= 2;
                (*u, fg::ExecuteMsg::UpdateAdmins { add: add.iter().map(nm).collect(), remove: remove.iter().map(nm).collect() }, vec![], ok, "admins")
            }
            FeeOp::Spend { g, amt } => {
                let n = self.grantee(*g);
                let did = self.c.use_allowance(&a, &n, GAS, amt.u128());
                let can = !amt.is_zero() && m.left.get(&n).is_some_and(|l| *l >= amt.u128()) && m.bal[&a] >= amt.u128();
                ctx.check("C31", "spend", did == can, || format!("fee of {amt} for {n}: {did}, expected {can}"));
                ctx.outcome("spend", did, "");
                if did {
                    let l = m.left.get_mut(&n).unwrap();
                    *l -= amt.u128();
                    if *l == 0 {
                        m.left.remove(&n);
                        ctx.hit("probe.allowance_used_up");
                    }
                    Self::mv(&mut m.bal, &a, "feecollector", amt.u128());
                    self.m = m;
                }
                return self.checks(ctx);
            }
            FeeOp::Donate { u, amt } => {
                if self.c.send(&user(*u), &a, &[Coin::new(amt.u128(), GAS)]).is_ok() {
                    Self::mv(&mut self.m.bal, &user(*u), &a, amt.u128());
                }
                return self.checks(ctx);
            }
            FeeOp::Idle => return self.checks(ctx),
        };
        // the chain's revoking fails only when there is nothing to revoke
        self.c.0.borrow_mut().fault = if what == "revoke" { None } else { step.fault.clone() };
        // revoking what was never granted may be refused or do nothing
        let unknown = what == "revoke" && self.m.grants == m.grants && self.m.left == m.left && may(u);
        let r = self.c.execute(&user(u), &a, &msg, &funds);
        let faulted = fault_mark(&self.c, ctx);
        ctx.outcome(what, r.is_ok(), r.as_ref().err().map_or("", |s| s));
        ctx.check("C31", "accepted", if r.is_ok() { ok && !faulted } else { !ok || faulted } || unknown, || format!("{:?} (should work: {ok}): {:?}", step.op, r.as_ref().err()));
        if r.is_ok() {
            self.m = m;
        }
        self.checks(ctx);
    }

    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now() - T0
    }
}

// -------------------------------------------------------------------------------------- admin-list proxy

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WlCfg {
    admins: Vec<usize>,
    mutable: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WlMsg {
    Send { to: usize, amt: U },
    Cw20 { to: usize, amt: U },
    Junk,
    /// the proxy calls itself
    Freeze,
    Admins { l: Vec<usize> },
    /// a message of the Neutron chain
    Ibc { amt: U },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WlOp {
    Exec { u: usize, msgs: Vec<WlMsg> },
    Freeze { u: usize },
    Admins { u: usize, l: Vec<usize> },
    Idle,
}

/// users 0..5; 5 is the proxy itself; 6 not an address
const WN: usize = 5;

pub struct WlScn {
    c: Chain,
    a: String,
    tok: Asst,
    m: WlModel,
}

#[derive(Clone)]
struct WlModel {
    admins: Vec<String>,
    mutable: bool,
    native: BTreeMap<String, u128>,
    cw20: BTreeMap<String, u128>,
    packets: usize,
}

fn wl_exec(d: DepsMut, e: Env, i: MessageInfo, m: Value) -> Result<Response<Value>, String> {
    let m = serde_json::from_value(m).map_err(|e| e.to_string())?;
    let r = astroport_whitelist::contract::execute(d, e, i, m).map_err(|e| e.to_string())?;
    // the message type is of another release of the SDK
    serde_json::to_value(r).and_then(serde_json::from_value).map_err(|e| e.to_string())
}
fn wl_inst(d: DepsMut, e: Env, i: MessageInfo, m: Value) -> Result<Response, String> {
    let m = serde_json::from_value(m).map_err(|e| e.to_string())?;
    astroport_whitelist::contract::instantiate(d, e, i, m).map_err(|e| e.to_string())
}
fn wl_query(d: Deps, e: Env, m: Value) -> Result<Binary, String> {
    let m = serde_json::from_value(m).map_err(|e| e.to_string())?;
    astroport_whitelist::contract::query(d, e, m).map_err(|e| e.to_string())
}

impl WlScn {
    fn who(&self, i: usize) -> String {
        match i {
            i if i < WN => user(i),
            WN => self.a.clone(),
            _ => "bad/address".into(),
        }
    }
    fn msg(&self, m: &WlMsg) -> Value {
        let wasm = |to: &str, msg: Value| json!({"wasm": {"execute": {"contract_addr": to, "msg": to_json_binary(&msg).unwrap(), "funds": []}}});
        match m {
            WlMsg::Send { to, amt } => json!({"bank": {"send": {"to_address": self.who(*to), "amount": [{"denom": "uluna", "amount": amt}]}}}),
            WlMsg::Cw20 { to, amt } => wasm(&self.tok.id, json!({"transfer": {"recipient": self.who(*to), "amount": amt}})),
            WlMsg::Junk => wasm(&self.tok.id, json!({"junk": {}})),
            WlMsg::Freeze => wasm(&self.a, json!({"freeze": {}})),
            WlMsg::Admins { l } => wasm(&self.a, json!({"update_admins": {"admins": l.iter().map(|i| self.who(*i)).collect::<Vec<_>>()}})),
            WlMsg::Ibc { amt } => json!({"custom": {"ibc_transfer": {"source_port": "transfer", "source_channel": "channel-1", "sender": self.a, "receiver": "far", "token": {"denom": "uluna", "amount": amt},
                "timeout_height": {}, "timeout_timestamp": (self.c.now() + 60) * 1_000_000_000, "memo": "", "fee": {"recv_fee": [], "ack_fee": [], "timeout_fee": []}}}}),
        }
    }
    fn run(&self, m: &mut WlModel, from: &str, x: &WlMsg) -> bool {
        let mv = |b: &mut BTreeMap<String, u128>, to: &str, amt: u128| {
            let f = b.entry(from.into()).or_default();
            if amt == 0 || *f < amt {
                return false;
            }
            *f -= amt;
            *b.entry(to.into()).or_default() += amt;
            true
        };
        let is = |m: &WlModel, a: &str| m.admins.iter().any(|x| x == a);
        match x {
            WlMsg::Send { to, amt } => *to <= WN && mv(&mut m.native, &self.who(*to), amt.u128()),
            WlMsg::Cw20 { to, amt } => *to <= WN && mv(&mut m.cw20, &self.who(*to), amt.u128()),
            WlMsg::Junk => false,
            WlMsg::Freeze => {
                let ok = m.mutable && is(m, from);
                m.mutable = false;
                ok
            }
            WlMsg::Admins { l } => {
                let ok = m.mutable && is(m, from) && l.iter().all(|i| *i <= WN);
                m.admins = l.iter().map(|i| self.who(*i)).collect();
                ok
            }
            WlMsg::Ibc { amt } => {
                m.packets += 1;
                mv(&mut m.native, IBC_ESCROW, amt.u128())
            }
        }
    }
    fn checks(&mut self, ctx: &mut Ctx) {
        let p = "C32";
        let r: Result<Value, String> = self.c.query(&self.a, &json!({"admin_list": {}}));
        let want = json!({"admins": self.m.admins, "mutable": self.m.mutable});
        ctx.check(p, "admins", r.as_ref().is_ok_and(|r| *r == want), || format!("admins {r:?}, expected {want}"));
        for i in 0..=WN {
            let n = self.who(i);
            let can = self.m.admins.contains(&n);
            let r: Result<Value, String> = self.c.query(&self.a, &json!({"can_execute": {"sender": n, "msg": {"bank": {"burn": {"amount": []}}}}}));
            ctx.check(p, "can-execute", r.as_ref().is_ok_and(|r| r["can_execute"] == json!(can)), || format!("{n} may execute: {r:?}, expected {can}"));
            let (b, w) = (self.c.bal(&n, "uluna"), self.m.native.get(&n).copied().unwrap_or(0));
            ctx.check(p, "balance", b == w, || format!("{n} has {b}, expected {w}"));
            let (b, w) = (self.tok.bal(&self.c, &n), self.m.cw20.get(&n).copied().unwrap_or(0));
            ctx.check(p, "balance", b == w, || format!("{n} has {b} cw20, expected {w}"));
        }
        // results of transfers it sent are taken note of, and nothing else
        let req = json!({"sequence": 1, "source_port": "transfer", "source_channel": "channel-1"});
        let msg = match self.c.height() % 3 {
            0 => json!({"response": {"request": req, "data": ""}}),
            1 => json!({"error": {"request": req, "details": "failed"}}),
            _ => json!({"timeout": {"request": req}}),
        };
        self.c.0.borrow_mut().fault = None;
        let d0 = self.c.state_digest_of(&self.a);
        let r = self.c.sudo(&self.a, &msg);
        ctx.check(p, "callback", r.is_ok() && d0 == self.c.state_digest_of(&self.a), || format!("{msg}: {:?}", r.as_ref().err()));
        let n = self.c.0.borrow().packets.len();
        ctx.check(p, "packets", n == self.m.packets, || format!("{n} packets, {} expected", self.m.packets));
    }
}

impl Scenario for WlScn {
    type Cfg = WlCfg;
    type Op = WlOp;
    const NAME: &'static str = "admin_proxy";

    fn cfg(rng: &mut Rng, _: &str, thorough: bool) -> (WlCfg, Sched) {
        let n = rng.below(4);
        (WlCfg { admins: (0..n).map(|_| if rng.pct(90) { rng.idx(WN) } else { 6 }).collect(), mutable: rng.pct(80) }, Sched::draw(rng, if thorough { 100 } else { 40 }))
    }

    fn new(cfg: &WlCfg, ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(T0, 1_000_000);
        let code = c.store_code(code!("whitelist", inst = wl_inst, exec = wl_exec, query = wl_query, sudo = astroport_whitelist::contract::sudo));
        let name = |i: &usize| if *i < WN { user(*i) } else { "bad/address".to_string() };
        let mk = |l: Vec<String>| c.instantiate(code, OWNER, &json!({"admins": l, "mutable": cfg.mutable}), &[], "wl", None);
        let ok = cfg.admins.iter().all(|i| *i < WN);
        let mut admins: Vec<String> = cfg.admins.iter().map(name).collect();
        let mut r = mk(admins.clone());
        ctx.check("C32", "created", r.is_ok() == ok, || format!("admins {admins:?}: {r:?}"));
        if r.is_err() {
            admins = vec![OWNER.into()];
            r = mk(admins.clone());
        }
        let a = r?;
        let cw = t_reg_cw20(&c);
        let tok = make_token(&c, cw, "", &Tok { cw20: true, dec: 6 }, &[(&a, 1_000_000)])?;
        c.faucet(&a, "uluna", 1_000_000);
        let m = WlModel { admins, mutable: cfg.mutable, native: [(a.clone(), 1_000_000)].into(), cw20: [(a.clone(), 1_000_000)].into(), packets: 0 };
        let mut s = WlScn { c, a, tok, m };
        s.checks(ctx);
        Ok(s)
    }

    fn gen(&mut self, rng: &mut Rng) -> WlOp {
        let adm: Vec<usize> = (0..WN).filter(|i| self.m.admins.contains(&user(*i))).collect();
        let u = if adm.is_empty() || rng.pct(35) { rng.idx(WN) } else { *rng.pick(&adm) };
        let to = |rng: &mut Rng| if rng.pct(95) { rng.idx(WN + 1) } else { 6 };
        let l = |rng: &mut Rng| -> Vec<usize> {
            let n = rng.below(4);
            (0..n).map(|_| if rng.pct(95) { rng.idx(WN + 1) } else { 6 }).collect()
        };
        match rng.weighted(&[60, 4, 20, 4]) {
            0 => {
                let n = rng.range(0, 3);
                let msgs = (0..n)
                    .map(|_| match rng.below(12) {
                        0..=3 => WlMsg::Send { to: to(rng), amt: U::new(rng.log(1, 300_000)) },
                        4..=7 => WlMsg::Cw20 { to: to(rng), amt: U::new(rng.log(1, 300_000)) },
                        8 => WlMsg::Junk,
                        9 => WlMsg::Freeze,
                        10 => WlMsg::Admins { l: l(rng) },
                        _ => WlMsg::Ibc { amt: U::new(rng.log(1, 10_000)) },
                    })
                    .collect();
                WlOp::Exec { u, msgs }
            }
            1 => WlOp::Freeze { u },
            2 => WlOp::Admins { u, l: l(rng) },
            _ => WlOp::Idle,
        }
    }

    fn apply(&mut self, step: &Step<WlOp>, ctx: &mut Ctx) {
        self.c.advance(step.dt, step.db);
        let mut m = self.m.clone();
        let a = self.a.clone();
        let (u, msg, ok, what) = match &step.op {
            WlOp::Exec { u, msgs } => {
                let ok = m.admins.contains(&self.who(*u)) && msgs.iter().all(|x| self.run(&mut m, &a, x));
                (*u, json!({"execute": {"msgs": msgs.iter().map(|m| self.msg(m)).collect::<Vec<_>>()}}), ok, "execute")
            }
            WlOp::Freeze { u } => {
                let ok = self.run(&mut m, &self.who(*u), &WlMsg::Freeze);
                (*u, json!({"freeze": {}}), ok, "freeze")
            }
            WlOp::Admins { u, l } => {
                let ok = self.run(&mut m, &self.who(*u), &WlMsg::Admins { l: l.clone() });
                (*u, json!({"update_admins": {"admins": l.iter().map(|i| self.who(*i)).collect::<Vec<_>>()}}), ok, "update_admins")
            }
            WlOp::Idle => return self.checks(ctx),
        };
        self.c.0.borrow_mut().fault = step.fault.clone();
        let r = self.c.execute(&self.who(u), &a, &msg, &[]);
        let faulted = fault_mark(&self.c, ctx);
        ctx.outcome(what, r.is_ok(), r.as_ref().err().map_or("", |s| s));
        ctx.check("C32", "accepted", r.is_ok() == (ok && !faulted), || format!("{:?} (should work: {ok}): {:?}", step.op, r.as_ref().err()));
        if r.is_ok() {
            self.m = m;
        }
        self.checks(ctx);
    }

    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now() - T0
    }
}
