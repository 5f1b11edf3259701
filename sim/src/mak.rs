//! The maker with real factory and pools. A reference collection, carried out by hand on a fork of the chain,
//! tells what every collection must do. Oracle of C25 (collection and distribution) and C26 (limits).

use crate::chain::*;
use crate::code;
use crate::rng::Rng;
use crate::runner::*;
use crate::world::*;
use astroport::asset::{AssetInfo, PairInfo};
use astroport::factory::{PairType, UpdateAddr};
use astroport::maker::*;
use astroport::pair;
use cosmwasm_std::{to_json_binary, Binary, Coin, Decimal, Uint128, Uint64};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

type U = Uint128;
const T0: u64 = 1_700_000_000;
const NT: usize = 6;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    cw20: [bool; NT],
    /// pools, with their depth
    pools: Vec<(usize, usize, u32, u32)>,
    fee: (u16, u16),
    staking: bool,
    gov: Option<u64>,
    second: Option<u64>,
    cooldown: Option<u64>,
    spread: u64,
    bridge: Option<usize>,
    enabled: bool,
    dev: Option<(usize, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Fee { t: usize, amt: U },
    Collect { u: usize, assets: Vec<(usize, Option<U>)> },
    /// anyone but the contract itself
    Inner { u: usize, assets: Vec<usize>, distribute: bool },
    Trade { pool: usize, back: bool, amt: U },
    Drain { pool: usize, part: u64 },
    Enable { u: usize, blocks: u64 },
    Config { u: usize, c: Upd },
    Bridges { u: usize, add: Vec<(usize, usize)>, remove: Vec<usize> },
    Seize { u: usize, assets: Vec<(usize, Option<U>)> },
    SeizeConfig { u: usize, receiver: bool, assets: Vec<usize> },
    Sink { dead: bool },
    Freeze { t: Option<usize> },
    Idle,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Upd {
    staking: bool,
    /// Some(false) removes
    gov: Option<bool>,
    pct: Option<u64>,
    /// permille
    spread: Option<u64>,
    second: Option<u64>,
    cooldown: Option<u64>,
    /// (token, permille); Some(None) removes
    dev: Option<Option<(usize, u64)>>,
    bridge: Option<usize>,
    /// the factory: 1 the one with the pools, 2 another one, 3 not an address
    #[serde(default)]
    factory: u8,
    /// an address that is none: 1 staking, 2 governance, 3 second receiver, 4 dev fund, 5 default bridge, 6 ASTRO
    #[serde(default)]
    bad: u8,
    /// ASTRO is set to what it is
    #[serde(default)]
    astro: Option<usize>,
}

fn sink_inst(_: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: cosmwasm_std::MessageInfo, _: cosmwasm_std::Empty) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
    Ok(Default::default())
}
fn sink_exec(_: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: cosmwasm_std::MessageInfo, _: serde_json::Value) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
    Ok(Default::default())
}
fn sink_query(_: cosmwasm_std::Deps, _: cosmwasm_std::Env, _: cosmwasm_std::Empty) -> Result<Binary, cosmwasm_std::StdError> {
    Ok(Binary::default())
}

#[derive(Clone)]
struct Model {
    /// which token is ASTRO
    astro: usize,
    staking: bool,
    gov: bool,
    pct: u64,
    spread: u64,
    second: Option<u64>,
    cooldown: Option<u64>,
    dev: Option<(usize, u64)>,
    bridge: Option<usize>,
    enabled: bool,
    blocks: u64,
    last_block: u64,
    remainder: u128,
    pre: u128,
    last_collect: u64,
    bridges: BTreeMap<usize, usize>,
    seize_to: bool,
    seizable: Vec<usize>,
    /// the factory in use is the one without pools
    elsewhere: bool,
}

pub struct MakScn {
    c: Chain,
    t: Vec<Asst>,
    d: dex::Dex,
    factory2: String,
    maker: String,
    sink: String,
    pools: Vec<(usize, usize, PairInfo)>,
    m: Model,
    dead: bool,
    frozen: Option<usize>,
}

const STAKING: &str = "staking";
const SECOND: &str = "second";
const DEV: &str = "devfund";
const SEIZER: &str = "seizer";

fn name(u: usize) -> String {
    if u == 0 {
        OWNER.into()
    } else {
        format!("user{u}")
    }
}

/// what the collection by hand left
struct Want {
    c: Chain,
    m: Model,
    /// balances are not exactly predicted (two ways through one pool in one round)
    loose: bool,
    /// the dev fund's swap
    dev: Option<(u128, u128)>,
    rounds: usize,
}

impl MakScn {
    fn pool(&self, a: usize, b: usize) -> Option<&PairInfo> {
        if self.m.elsewhere {
            return None;
        }
        self.any_pool(a, b)
    }
    fn any_pool(&self, a: usize, b: usize) -> Option<&PairInfo> {
        self.pools.iter().find(|p| (p.0, p.1) == (a, b) || (p.0, p.1) == (b, a)).map(|p| &p.2)
    }
    fn bals(&self, c: &Chain) -> Vec<(String, Vec<u128>)> {
        [self.maker.as_str(), STAKING, &self.sink, SECOND, DEV, SEIZER].iter().map(|a| (a.to_string(), self.t.iter().map(|t| t.bal(c, a)).collect())).collect()
    }
    fn swap(&self, c: &Chain, from: usize, to: usize, amt: u128, spread: u64) -> TxResult {
        let p = self.pool(from, to).ok_or("no pool")?;
        let a = &self.t[from];
        let ask = Some(self.t[to].info.clone());
        let ms = Some(Decimal::permille(spread));
        if a.native {
            let m = pair::ExecuteMsg::Swap { offer_asset: a.with(amt), ask_asset_info: ask, belief_price: None, max_spread: ms, to: None };
            c.execute(&self.maker, p.contract_addr.as_str(), &m, &[Coin::new(amt, &a.id)])
        } else {
            let m = to_json_binary(&pair::Cw20HookMsg::Swap { ask_asset_info: ask, belief_price: None, max_spread: ms, to: None }).unwrap();
            c.execute(&self.maker, &a.id, &cw20::Cw20ExecuteMsg::Send { contract: p.contract_addr.to_string(), amount: U::new(amt), msg: m }, &[])
        }
    }
    fn bridge_ok(&self, from: usize, to: usize, depth: u64, b: &BTreeMap<usize, usize>) -> bool {
        if self.pool(from, to).is_none() {
            return false;
        }
        to == self.m.astro || self.pool(to, self.m.astro).is_some() || depth < 2 && b.get(&to).is_some_and(|n| self.bridge_ok(to, *n, depth + 1, b))
    }
    /// the next token on the way to ASTRO, and whether the way goes on from there
    fn route(&self, from: usize) -> Option<(usize, bool)> {
        if let Some(b) = self.m.bridges.get(&from) {
            return self.bridge_ok(from, *b, 0, &self.m.bridges).then_some((*b, *b != self.m.astro));
        }
        if let Some(d) = self.m.bridge {
            if d != from && self.pool(from, d).is_some() {
                return Some((d, true));
            }
        }
        self.pool(from, self.m.astro).map(|_| (self.m.astro, false))
    }

    /// the collection done by hand
    fn by_hand(&self, assets: &[(usize, Option<U>)]) -> Result<Want, String> {
        let mut m = self.m.clone();
        let now = self.c.now();
        if m.cooldown.is_some_and(|cd| now < m.last_collect + cd) {
            return Err("cooldown".into());
        }
        m.last_collect = now;
        let mut seen = vec![];
        for a in assets {
            if seen.contains(&a.0) {
                return Err("twice".into());
            }
            seen.push(a.0);
        }
        let c = self.c.fork();
        let mut w = Want { c: c.clone(), m: m.clone(), loose: false, dev: None, rounds: 0 };
        let mut list: Vec<(usize, Option<U>)> = assets.iter().copied().filter(|a| a.0 != m.astro).collect();
        for round in 0.. {
            let mut ways = vec![];
            for (t, lim) in &list {
                let mut b = self.t[*t].bal(&c, &self.maker);
                if let Some(l) = lim {
                    if !l.is_zero() && l.u128() < b {
                        b = l.u128();
                    }
                }
                if b > 0 {
                    let (to, on) = self.route(*t).ok_or("no way to ASTRO")?;
                    ways.push((*t, to, b, on));
                }
            }
            if round > 0 && ways.iter().any(|x| ways.iter().any(|y| x.0 == y.1 && x.1 == y.0)) {
                w.loose = true;
            }
            for (a, b, amt, _) in &ways {
                self.swap(&c, *a, *b, *amt, m.spread)?;
            }
            if ways.is_empty() {
                if round > 0 {
                    return Err("nothing swapped".into());
                }
                break;
            }
            w.rounds = round;
            list = (0..NT).filter(|i| ways.iter().any(|w| w.1 == *i && w.3)).map(|i| (i, None)).collect();
            if list.is_empty() {
                break;
            }
            if round >= 5 {
                return Err("too long a way".into());
            }
        }
        self.give_out(&c, &mut w.m, &mut w.dev)?;
        Ok(w)
    }

    fn give_out(&self, c: &Chain, m: &mut Model, dev: &mut Option<(u128, u128)>) -> Result<(), String> {
        let astro = &self.t[m.astro];
        let bal = astro.bal(c, &self.maker);
        if bal == 0 {
            return Ok(());
        }
        let mut amount = bal;
        if !m.enabled {
            m.pre = bal;
            m.remainder = bal;
            return Ok(());
        }
        if m.remainder > 0 {
            let passed = c.height() - m.last_block;
            if passed == 0 {
                return Ok(());
            }
            let cur = (passed as u128).checked_mul(m.pre / m.blocks as u128).ok_or("too much")?.min(m.remainder);
            amount = amount.checked_sub(m.remainder).ok_or("less than the remainder")? + cur;
            m.remainder -= cur;
            m.last_block = c.height();
        }
        let second = m.second.map_or(0, |p| amount * p as u128 / 100);
        let gov = if m.gov { (amount - second) * m.pct as u128 / 100 } else { 0 };
        let dv = m.dev.map_or(0, |d| muldiv(amount, d.1 as u128, 1000));
        let rest = if m.staking { amount.checked_sub(second + gov + dv).ok_or("shares exceed the whole")? } else { 0 };
        let mut pay = |to: &str, amt: u128| if amt > 0 { astro.transfer(c, &self.maker, to, amt).map(|_| ()) } else { Ok(()) };
        pay(SECOND, second)?;
        if gov > 0 && self.dead {
            return Err("governance contract down".into());
        }
        pay(&self.sink, gov)?;
        if dv > 0 {
            let t = m.dev.unwrap().0;
            let before = self.t[t].bal(c, &self.maker);
            let o = self.swap(c, m.astro, t, dv, m.spread)?;
            let p = self.pool(m.astro, t).unwrap().contract_addr.to_string();
            let got = self.t[t].bal(c, &self.maker) - before;
            *dev = Some((attr_u(&o, &p, "return_amount"), got));
            if got > 0 {
                self.t[t].transfer(c, &self.maker, DEV, got)?;
            }
        }
        pay(STAKING, rest)
    }

    fn checks(&mut self, ctx: &mut Ctx) {
        let p = "C26";
        let m = &self.m;
        let q: Result<ConfigResponse, String> = self.c.query(&self.maker, &QueryMsg::Config {});
        let Ok(q) = q else {
            return ctx.violate(p, "config", format!("{q:?}"));
        };
        let ok = q.owner == OWNER
            && q.factory_contract == *if m.elsewhere { &self.factory2 } else { &self.d.factory }
            && q.staking_contract.as_ref().map(|s| s.as_str()) == m.staking.then_some(STAKING)
            && q.governance_contract.as_ref().map(|s| s.as_str()) == m.gov.then_some(self.sink.as_str())
            && q.governance_percent.u64() == m.pct
            && q.max_spread == Decimal::permille(m.spread)
            && q.astro_token == self.t[m.astro].info
            && q.default_bridge == m.bridge.map(|i| self.t[i].info.clone())
            && q.second_receiver_cfg.as_ref().map(|s| (s.second_fee_receiver.as_str(), s.second_receiver_cut.u64())) == m.second.map(|x| (SECOND, x))
            && q.dev_fund_conf.as_ref().map(|d| (d.address.as_str(), d.share, d.asset_info.clone())) == m.dev.map(|d| (DEV, Decimal::permille(d.1), self.t[d.0].info.clone()));
        ctx.check(p, "config", ok, || format!("{q:?}"));
        ctx.check(p, "config-bounds", q.governance_percent.u64() <= 100 && !q.max_spread.is_zero() && q.max_spread <= Decimal::percent(50) && (q.staking_contract.is_some() || q.governance_contract.is_some() && q.governance_percent.u64() == 100), || format!("{q:?}"));
        ctx.check("C25", "reserved", q.remainder_reward.u128() == m.remainder && q.pre_upgrade_astro_amount.u128() == m.pre, || format!("reserved {} of {}, expected {} of {}", q.remainder_reward, q.pre_upgrade_astro_amount, m.remainder, m.pre));
        let mut b: Vec<(String, String)> = m.bridges.iter().map(|(a, b)| (self.t[*a].info.to_string(), self.t[*b].info.to_string())).collect();
        b.sort();
        let q: Result<Vec<(String, String)>, String> = self.c.query(&self.maker, &QueryMsg::Bridges {});
        ctx.check(p, "bridges", q.as_ref() == Ok(&b), || format!("{q:?}, expected {b:?}"));
        let q: Result<SeizeConfig, String> = self.c.query(&self.maker, &QueryMsg::QuerySeizeConfig {});
        let want: Vec<AssetInfo> = m.seizable.iter().map(|i| self.t[*i].info.clone()).collect();
        ctx.check(p, "seize-config", q.as_ref().is_ok_and(|q| q.receiver == if m.seize_to { SEIZER } else { "" } && q.seizable_assets == want), || format!("{q:?}"));
        let q: Result<BalancesResponse, String> = self.c.query(&self.maker, &QueryMsg::Balances { assets: self.t.iter().map(|t| t.info.clone()).collect() });
        let want: Vec<_> = self.t.iter().map(|t| t.with(t.bal(&self.c, &self.maker))).filter(|a| !a.amount.is_zero()).collect();
        ctx.check(p, "balances", q.as_ref().is_ok_and(|q| q.balances == want), || format!("{q:?}, expected {want:?}"));
    }

    fn limits(&self, v: &[(usize, Option<U>)]) -> Vec<AssetWithLimit> {
        v.iter().map(|(t, l)| AssetWithLimit { info: self.t[*t].info.clone(), limit: *l }).collect()
    }
    fn run(&self, ctx: &mut Ctx, kind: &str, step: &Step<Op>, u: usize, m: &ExecuteMsg) -> (Result<TxOk, String>, bool) {
        self.c.0.borrow_mut().fault = step.fault.clone();
        let r = self.c.execute(&name(u), &self.maker, m, &[]);
        let f = fault_mark(&self.c, ctx);
        ctx.outcome(kind, r.is_ok(), r.as_ref().err().map_or("", |s| s));
        (r, f)
    }
}

fn upd_ok(m: &Model, c: &Upd, pool: impl Fn(usize, usize) -> bool) -> Option<Model> {
    let mut n = m.clone();
    if c.bad > 0 || c.factory == 3 {
        return None;
    }
    if c.factory > 0 {
        n.elsewhere = c.factory == 2;
    }
    n.staking |= c.staking;
    match c.gov {
        Some(true) => n.gov = true,
        Some(false) => {
            if !n.staking {
                return None;
            }
            n.gov = false;
        }
        None => {}
    }
    if let Some(p) = c.pct {
        if p > 100 || !n.staking && p != 100 {
            return None;
        }
        n.pct = p;
    }
    if let Some(b) = c.bridge {
        n.bridge = Some(b);
    }
    if let Some(s) = c.spread {
        if s == 0 || s > 500 {
            return None;
        }
        n.spread = s;
    }
    if let Some(s) = c.second {
        if s == 0 || s > 50 {
            return None;
        }
        n.second = Some(s);
    }
    if let Some(s) = c.cooldown {
        if !(30..=600).contains(&s) {
            return None;
        }
        n.cooldown = Some(s);
    }
    if let Some(t) = c.astro {
        n.astro = t;
    }
    if let Some(d) = c.dev {
        if let Some(d) = d {
            if d.1 == 0 || d.1 > 1000 || n.elsewhere || !pool(n.astro, d.0) {
                return None;
            }
        }
        n.dev = d;
    }
    Some(n)
}

impl Scenario for MakScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "maker";

    fn cfg(rng: &mut Rng, _prop: &str, thorough: bool) -> (Cfg, Sched) {
        let mut cw20 = [false; NT];
        for x in cw20.iter_mut() {
            *x = rng.pct(35);
        }
        let mut pools = vec![];
        for i in 0..NT {
            for j in 0..i {
                if rng.pct(if j == 0 { 60 } else { 30 }) {
                    let lo = if rng.pct(80) { 9 } else { 5 };
                    let d = rng.range(lo, 16) as u32;
                    pools.push((j, i, d, (d as i64 + rng.below(5) as i64 - 2) as u32));
                }
            }
        }
        let staking = rng.pct(85);
        let cfg = Cfg {
            cw20,
            pools,
            fee: *rng.pick(&[(30, 3333), (100, 5000), (5, 0), (300, 10_000), (0, 0)]),
            staking,
            gov: if staking { if rng.pct(60) { Some(*rng.pick(&[0, 10, 33, 50, 90, 99, 100])) } else { None } } else { Some(100) },
            second: rng.pct(35).then(|| *rng.pick(&[1, 10, 33, 50])),
            cooldown: rng.pct(50).then(|| *rng.pick(&[30, 60, 300, 600])),
            spread: *rng.pick(&[1, 10, 50, 50, 200, 500]),
            bridge: rng.pct(40).then(|| 1 + rng.idx(NT - 1)),
            enabled: rng.pct(65),
            dev: rng.pct(40).then(|| (1 + rng.idx(NT - 1), *rng.pick(&[1, 50, 100, 333, 500, 1000]))),
        };
        (cfg, Sched::draw(rng, if thorough { 100 } else { 45 }))
    }

    fn new(cfg: &Cfg, ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(T0, 1_000_000);
        let pc = dex::reg_pair(&c);
        let sc = c.store_code(code!("sink", inst = sink_inst, exec = sink_exec, query = sink_query));
        let mc = c.store_code(code!(
            "maker",
            inst = astroport_maker::contract::instantiate,
            exec = astroport_maker::contract::execute,
            query = astroport_maker::contract::query,
            reply = astroport_maker::reply::reply
        ));
        let d = dex::deploy(&c, vec![dex::pair_config(pc, PairType::Xyk {}, cfg.fee.0, cfg.fee.1)], None, None)?;
        let factory2 = dex::deploy(&c, vec![dex::pair_config(pc, PairType::Xyk {}, 30, 3333)], None, None)?.factory;
        let mut t = vec![];
        for i in 0..NT {
            let k = Tok { cw20: cfg.cw20[i], dec: 6 };
            t.push(make_token(&c, d.cw20_code, &format!("utok{i}"), &k, &[("provider", 10u128.pow(30)), ("user1", 10u128.pow(26))])?);
            if t[i].native {
                d.register_coin(&t[i].id, 6)?;
            }
        }
        let sink = c.instantiate(sc, OWNER, &cosmwasm_std::Empty {}, &[], "governance", None)?;
        let inst = |staking: bool, gov: Option<u64>, pct: u64, spread: u64, second: Option<u64>, cooldown: Option<u64>| {
            c.instantiate(
                mc,
                OWNER,
                &InstantiateMsg {
                    owner: OWNER.into(),
                    default_bridge: cfg.bridge.map(|i| t[i].info.clone()),
                    astro_token: t[0].info.clone(),
                    factory_contract: d.factory.clone(),
                    staking_contract: staking.then(|| STAKING.into()),
                    governance_contract: gov.map(|_| sink.clone()),
                    governance_percent: Some(Uint64::new(pct)),
                    max_spread: Some(Decimal::permille(spread)),
                    second_receiver_params: second.map(|x| SecondReceiverParams { second_fee_receiver: SECOND.into(), second_receiver_cut: Uint64::new(x) }),
                    collect_cooldown: cooldown,
                },
                &[],
                "maker",
                None,
            )
        };
        let pct = cfg.gov.unwrap_or(0);
        // what must never be accepted
        for (what, r) in [
            ("governance percent 101", inst(true, cfg.gov, 101, 50, None, None)),
            ("governance percent 99 without staking", inst(false, Some(99), 99, 50, None, None)),
            ("no receiver", inst(false, None, 100, 50, None, None)),
            ("spread 0", inst(true, cfg.gov, pct, 0, None, None)),
            ("spread 50.1%", inst(true, cfg.gov, pct, 501, None, None)),
            ("second receiver 0", inst(true, cfg.gov, pct, 50, Some(0), None)),
            ("second receiver 51", inst(true, cfg.gov, pct, 50, Some(51), None)),
            ("cooldown 29", inst(true, cfg.gov, pct, 50, None, Some(29))),
            ("cooldown 601", inst(true, cfg.gov, pct, 50, None, Some(601))),
        ] {
            ctx.check("C26", "instantiated", r.is_err(), || format!("maker created with {what}"));
        }
        let maker = inst(cfg.staking, cfg.gov, pct, cfg.spread, cfg.second, cfg.cooldown)?;
        c.execute(
            OWNER,
            &d.factory,
            &astroport::factory::ExecuteMsg::UpdateConfig { token_code_id: None, fee_address: Some(maker.clone()), generator_address: None, whitelist_code_id: None, coin_registry_address: None },
            &[],
        )?;
        let mut pools = vec![];
        for (a, b, da, db) in &cfg.pools {
            let infos = vec![t[*a].info.clone(), t[*b].info.clone()];
            let p = d.create_pair(OWNER, PairType::Xyk {}, infos, None)?;
            let mut f = vec![];
            let mut assets = vec![];
            for (i, e) in [(a, da), (b, db)] {
                let amt = 10u128.pow(*e) * (3 + *i as u128);
                assets.push(t[*i].with(amt));
                if t[*i].native {
                    f.push(Coin::new(amt, &t[*i].id));
                } else {
                    approve(&c, &t[*i], "provider", p.contract_addr.as_str(), amt)?;
                }
            }
            f.sort_by(|a, b| a.denom.cmp(&b.denom));
            c.execute("provider", p.contract_addr.as_str(), &pair::ExecuteMsg::ProvideLiquidity { assets, slippage_tolerance: None, auto_stake: None, receiver: None, min_lp_to_receive: None }, &f)?;
            pools.push((*a, *b, p));
        }
        let m = Model {
            staking: cfg.staking,
            gov: cfg.gov.is_some(),
            pct,
            spread: cfg.spread,
            second: cfg.second,
            cooldown: cfg.cooldown,
            dev: None,
            astro: 0,
            bridge: cfg.bridge,
            enabled: false,
            blocks: 0,
            last_block: 0,
            remainder: 0,
            pre: 0,
            last_collect: c.now(),
            bridges: Default::default(),
            seize_to: false,
            seizable: vec![],
            elsewhere: false,
        };
        let mut s = MakScn { c, t, d, factory2, maker, sink, pools, m, dead: false, frozen: None };
        if cfg.enabled {
            s.apply(&Step { dt: 0, db: 0, fault: None, op: Op::Enable { u: 0, blocks: 100 } }, ctx);
        }
        if cfg.dev.is_some() {
            s.apply(&Step { dt: 0, db: 0, fault: None, op: Op::Config { u: 0, c: Upd { dev: Some(cfg.dev), ..Default::default() } } }, ctx);
        }
        s.checks(ctx);
        Ok(s)
    }

    fn advance(&mut self, rng: &mut Rng, s: &Sched) -> (u64, u64) {
        if let Some(cd) = self.m.cooldown {
            let left = (self.m.last_collect + cd).saturating_sub(self.c.now());
            if left > 0 && rng.pct(50) {
                // around the end of the cooldown
                return (left + rng.below(3) - 1, rng.range(1, left + 1));
            }
        }
        default_advance(rng, s)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        let u = 1 + rng.idx(3);
        let own = |rng: &mut Rng| if rng.pct(93) { 0 } else { 1 };
        if self.frozen.is_some() && rng.pct(30) {
            return Op::Freeze { t: None };
        }
        if self.dead && rng.pct(30) {
            return Op::Sink { dead: false };
        }
        let held: Vec<usize> = (1..NT).filter(|i| self.t[*i].bal(&self.c, &self.maker) > 0).collect();
        let near = |rng: &mut Rng, b: u128| {
            U::new(match rng.below(6) {
                0 => b,
                1 => b + 1,
                2 => b.saturating_sub(1),
                3 => 0,
                _ => rng.log(1, b.max(2)),
            })
        };
        let depth = |s: &Self, t: usize| s.pools.iter().filter(|p| p.0 == t || p.1 == t).map(|p| s.t[t].bal(&s.c, p.2.contract_addr.as_str())).min().unwrap_or(1_000_000);
        match rng.weighted(&[24, 34, 3, 8, 1, 3, 12, 9, 6, 4, 2, 3, 1]) {
            0 => {
                let t = rng.idx(NT);
                let d = depth(self, t);
                Op::Fee { t, amt: U::new(if rng.pct(25) { rng.log(1, (d / 20).max(2)) } else { rng.log((d / 20_000).max(1), (d / 60).max(2)) }) }
            }
            1 => {
                let mut v: Vec<(usize, Option<U>)> = vec![];
                let mut pool = if held.is_empty() { (1..NT).collect() } else { held.clone() };
                // leave out what has no way out, mostly
                if rng.pct(80) {
                    pool.retain(|t| self.route(*t).is_some());
                }
                for t in pool {
                    if rng.pct(55) {
                        let b = self.t[t].bal(&self.c, &self.maker);
                        v.push((t, if rng.pct(70) { None } else { Some(near(rng, b)) }));
                    }
                }
                if rng.pct(20) {
                    v.insert(rng.idx(v.len() + 1), (0, None));
                }
                if rng.pct(3) && !v.is_empty() {
                    v.push(*rng.pick(&v));
                }
                for i in (1..v.len()).rev() {
                    let j = rng.idx(i + 1);
                    v.swap(i, j);
                }
                Op::Collect { u, assets: v }
            }
            2 => Op::Inner { u: rng.idx(4), assets: (1..NT).filter(|_| rng.pct(40)).collect(), distribute: rng.pct(50) },
            3 if !self.pools.is_empty() => {
                let pool = rng.idx(self.pools.len());
                let back = rng.pct(50);
                let (a, b, p) = &self.pools[pool];
                let d = self.t[if back { *b } else { *a }].bal(&self.c, p.contract_addr.as_str());
                let k = if rng.pct(70) { 50 } else { 3 };
                Op::Trade { pool, back, amt: U::new(rng.log(1, (d / k).max(2))) }
            }
            4 if !self.pools.is_empty() => Op::Drain { pool: rng.idx(self.pools.len()), part: *rng.pick(&[500, 900, 990, 999]) },
            5 => Op::Enable { u: own(rng), blocks: if rng.pct(10) { 0 } else { rng.log(1, 100_000) as u64 } },
            6 => {
                let mut c = Upd::default();
                if self.m.elsewhere && rng.pct(70) {
                    c.factory = 1;
                }
                for _ in 0..1 + rng.idx(2) {
                    match if rng.pct(4) { 8 } else { rng.below(8) } {
                        8 => match rng.below(4) {
                            0 => c.factory = 1 + rng.below(3) as u8,
                            1 => c.astro = Some(if rng.pct(if self.m.astro == 0 { 20 } else { 50 }) { 0 } else { rng.idx(NT) }),
                            _ => c.bad = 1 + rng.below(6) as u8,
                        },
                        0 => c.staking = true,
                        1 => c.gov = Some(rng.pct(70)),
                        2 => c.pct = Some(*rng.pick(&[0, 1, 30, 50, 99, 100, 100, 101, 255])),
                        3 => c.spread = Some(*rng.pick(&[0, 1, 20, 100, 500, 501])),
                        4 => c.second = Some(*rng.pick(&[0, 1, 25, 50, 51, 100])),
                        5 => c.cooldown = Some(*rng.pick(&[0, 29, 30, 100, 600, 601])),
                        6 => c.dev = Some(if rng.pct(25) { None } else { Some((1 + rng.idx(NT - 1), *rng.pick(&[0, 1, 50, 100, 333, 500, 1000, 1001]))) }),
                        _ => c.bridge = Some(1 + rng.idx(NT - 1)),
                    }
                }
                Op::Config { u: own(rng), c }
            }
            7 => {
                let mut add = vec![];
                for _ in 0..1 + rng.idx(2) {
                    let a = 1 + rng.idx(NT - 1);
                    let b: Vec<usize> = (0..NT).filter(|b| self.pool(a, *b).is_some() || rng.pct(5)).collect();
                    if !b.is_empty() {
                        add.push((a, *rng.pick(&b)));
                    }
                }
                Op::Bridges { u: own(rng), add, remove: (1..NT).filter(|_| rng.pct(15)).collect() }
            }
            8 => {
                let mut v = vec![];
                for t in self.m.seizable.clone() {
                    if rng.pct(70) {
                        let b = self.t[t].bal(&self.c, &self.maker);
                        v.push((t, if rng.pct(50) { None } else { Some(near(rng, b)) }));
                    }
                }
                if rng.pct(10) {
                    let t = rng.idx(NT);
                    v.push((t, Some(U::new(rng.log(1, 1000)))));
                }
                Op::Seize { u, assets: v }
            }
            9 => Op::SeizeConfig { u: own(rng), receiver: rng.pct(80), assets: (1..NT).filter(|_| rng.pct(40)).collect() },
            10 => Op::Sink { dead: true },
            11 => Op::Freeze { t: Some(rng.idx(NT)) },
            _ => Op::Idle,
        }
    }

    fn apply(&mut self, step: &Step<Op>, ctx: &mut Ctx) {
        self.c.advance(step.dt, step.db);
        match &step.op {
            Op::Fee { t, amt } => {
                let r = self.t[*t].transfer(&self.c, "user1", &self.maker, amt.u128());
                ctx.outcome("fee", r.is_ok(), r.as_ref().err().map_or("", |s| s));
            }
            Op::Collect { u, assets } => {
                let p = "C25";
                let want = self.by_hand(assets);
                let before = self.bals(&self.c);
                let (r, faulted) = self.run(ctx, "collect", step, *u, &ExecuteMsg::Collect { assets: self.limits(assets) });
                let expect = want.as_ref().map(|_| ()).map_err(|e| e.clone());
                let loose = want.as_ref().is_ok_and(|w| w.loose);
                ctx.check(p, "collect", if r.is_ok() { (expect.is_ok() || loose) && !faulted } else { expect.is_err() || faulted || loose }, || {
                    format!("{assets:?}: {:?}, done by hand {expect:?}", r.as_ref().err())
                });
                if expect.as_ref().is_err_and(|e| e == "cooldown") {
                    ctx.hit("probe.cooldown");
                    ctx.check("C26", "cooldown", r.is_err(), || format!("collected {}s after the last time, cooldown {:?}", self.c.now() - self.m.last_collect, self.m.cooldown));
                }
                if let (Ok(_), Ok(w)) = (&r, want) {
                    if w.m.remainder > 0 && w.m.enabled {
                        ctx.hit("probe.reserved_released");
                    }
                    if w.m.astro != 0 {
                        ctx.hit("probe.collected_another_astro");
                    }
                    if w.rounds > 0 {
                        ctx.hit(&format!("probe.bridged_{}", w.rounds));
                    }
                    let got = self.bals(&self.c);
                    let mut exp = self.bals(&w.c);
                    if let Some((ret, all)) = w.dev {
                        ctx.hit("probe.dev_fund");
                        // the fee of the fund's own swap may stay with the maker
                        let t = self.m.dev.unwrap().0;
                        let d = got[4].1[t] - before[4].1[t];
                        ctx.check(p, "dev-fund", d == all || d == ret, || format!("dev fund got {d}, its share swaps to {ret} and {} of fee", all - ret));
                        if d == ret && d != all {
                            exp[4].1[t] -= all - ret;
                            exp[0].1[t] += all - ret;
                        }
                    }
                    if !w.loose {
                        for (g, e) in got.iter().zip(&exp) {
                            ctx.check(p, "amounts", g == e, || format!("{} has {:?} after collecting {assets:?}, {:?} by hand", g.0, g.1, e.1));
                        }
                    }
                    self.m = w.m;
                }
            }
            Op::Inner { u, assets, distribute } => {
                let m = if *distribute { ExecuteMsg::DistributeAstro {} } else { ExecuteMsg::SwapBridgeAssets { assets: assets.iter().map(|i| self.t[*i].info.clone()).collect(), depth: 0 } };
                let (r, _) = self.run(ctx, "inner", step, *u, &m);
                ctx.check("C26", "self-only", r.is_err(), || format!("{} may {m:?}", name(*u)));
            }
            Op::Trade { pool, back, amt } => {
                let (a, b, p) = self.pools[*pool].clone();
                let (o, k) = if *back { (b, a) } else { (a, b) };
                let t = &self.t[o];
                let ask = Some(self.t[k].info.clone());
                let ms = Some(Decimal::percent(50));
                let r = if t.native {
                    let m = pair::ExecuteMsg::Swap { offer_asset: t.with(amt.u128()), ask_asset_info: ask, belief_price: None, max_spread: ms, to: None };
                    self.c.execute("user1", p.contract_addr.as_str(), &m, &[Coin::new(amt.u128(), &t.id)])
                } else {
                    let m = to_json_binary(&pair::Cw20HookMsg::Swap { ask_asset_info: ask, belief_price: None, max_spread: ms, to: None }).unwrap();
                    self.c.execute("user1", &t.id, &cw20::Cw20ExecuteMsg::Send { contract: p.contract_addr.to_string(), amount: *amt, msg: m }, &[])
                };
                ctx.outcome("trade", r.is_ok(), r.as_ref().err().map_or("", |s| s));
            }
            Op::Drain { pool, part } => {
                let p = &self.pools[*pool].2;
                let lp = self.c.bal("provider", &p.liquidity_token);
                let amt = lp / 1000 * *part as u128;
                if amt > 0 {
                    let r = self.c.execute("provider", p.contract_addr.as_str(), &pair::ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: None }, &[Coin::new(amt, &p.liquidity_token)]);
                    if r.is_ok() {
                        ctx.hit("fault.pool_drained");
                    }
                }
            }
            Op::Enable { u, blocks } => {
                let ok = *u == 0 && *blocks > 0 && !self.m.enabled;
                let (r, f) = self.run(ctx, "enable", step, *u, &ExecuteMsg::EnableRewards { blocks: *blocks });
                ctx.check("C26", "enable", if r.is_ok() { ok && !f } else { !ok || f }, || format!("{:?} enabled {}: {:?}", step.op, self.m.enabled, r.as_ref().err()));
                if r.is_ok() {
                    self.m.enabled = true;
                    self.m.blocks = *blocks;
                    self.m.last_block = self.c.height();
                }
            }
            Op::Config { u, c } => {
                let new = if *u == 0 { upd_ok(&self.m, c, |a, t| self.any_pool(a, t).is_some()) } else { None };
                let m = ExecuteMsg::UpdateConfig {
                    factory_contract: [None, Some(self.d.factory.clone()), Some(self.factory2.clone()), Some("x".into())][c.factory as usize].clone(),
                    staking_contract: if c.bad == 1 { Some("x".into()) } else { c.staking.then(|| STAKING.into()) },
                    governance_contract: if c.bad == 2 { Some(UpdateAddr::Set("x".into())) } else { c.gov.map(|x| if x { UpdateAddr::Set(self.sink.clone()) } else { UpdateAddr::Remove {} }) },
                    governance_percent: c.pct.map(Uint64::new),
                    basic_asset: if c.bad == 5 { Some(AssetInfo::Token { contract_addr: cosmwasm_std::Addr::unchecked("x") }) } else { c.bridge.map(|i| self.t[i].info.clone()) },
                    max_spread: c.spread.map(Decimal::permille),
                    second_receiver_params: c.second.or((c.bad == 3).then_some(10)).map(|x| SecondReceiverParams { second_fee_receiver: if c.bad == 3 { "x".into() } else { SECOND.into() }, second_receiver_cut: Uint64::new(x) }),
                    collect_cooldown: c.cooldown,
                    astro_token: if c.bad == 6 { Some(AssetInfo::Token { contract_addr: cosmwasm_std::Addr::unchecked("x") }) } else { c.astro.map(|t| self.t[t].info.clone()) },
                    dev_fund_config: if c.bad == 4 { Some(self.m.dev.or(c.dev.flatten()).or((1..NT).find(|t| self.pool(0, *t).is_some()).map(|t| (t, 100))).or(Some((1, 100)))) } else { c.dev }.map(|d| Box::new(UpdateDevFundConfig { set: d.map(|d| DevFundConfig { address: if c.bad == 4 { "x".into() } else { DEV.into() }, share: Decimal::permille(d.1), asset_info: self.t[d.0].info.clone() }) })),
                };
                let (r, f) = self.run(ctx, "config", step, *u, &m);
                ctx.check("C26", "config-update", if r.is_ok() { new.is_some() && !f } else { new.is_none() || f }, || format!("by {}, should work: {} {c:?}: {:?}", name(*u), new.is_some(), r.as_ref().err()));
                if let (Ok(_), Some(n)) = (&r, new) {
                    if n.astro != self.m.astro {
                        ctx.hit("probe.astro_token_changed");
                    }
                    self.m = n;
                }
            }
            Op::Bridges { u, add, remove } => {
                let mut b = self.m.bridges.clone();
                for r in remove {
                    b.remove(r);
                }
                let mut ok = *u == 0;
                for (x, y) in add {
                    ok &= x != y && self.bridge_ok(*x, *y, 0, &b);
                    b.insert(*x, *y);
                }
                let i = |x: &usize| self.t[*x].info.clone();
                let m = ExecuteMsg::UpdateBridges { add: Some(add.iter().map(|(a, b)| (i(a), i(b))).collect()), remove: Some(remove.iter().map(i).collect()) };
                let (r, f) = self.run(ctx, "bridges", step, *u, &m);
                ctx.check("C26", "bridge-update", if r.is_ok() { ok && !f } else { !ok || f }, || format!("by {}, should work: {ok} {add:?} {remove:?} {:?}: {:?}", name(*u), self.m.bridges, r.as_ref().err()));
                if r.is_ok() {
                    self.m.bridges = b;
                }
            }
            Op::Seize { u, assets } => {
                let p = "C26";
                let mut ok = !assets.is_empty() && !self.m.seizable.is_empty() && assets.iter().all(|a| self.m.seizable.contains(&a.0));
                let before = self.bals(&self.c);
                let mut take = vec![0u128; NT];
                for (t, l) in assets {
                    let b = before[0].1[*t];
                    take[*t] += l.map_or(b, |l| l.u128().min(b));
                    ok &= take[*t] <= b && !(take[*t] > 0 && (!self.m.seize_to || self.frozen == Some(*t)));
                }
                let (r, f) = self.run(ctx, "seize", step, *u, &ExecuteMsg::Seize { assets: self.limits(assets) });
                ctx.check(p, "seize", if r.is_ok() { ok && !f } else { !ok || f }, || format!("should work: {ok} {assets:?}, seizable {:?}: {:?}", self.m.seizable, r.as_ref().err()));
                let after = self.bals(&self.c);
                if r.is_ok() {
                    for t in 0..NT {
                        let (g, k) = (before[0].1[t] - after[0].1[t], after[5].1[t] - before[5].1[t]);
                        ctx.check(p, "seized", g == k && g == take[t], || format!("token {t}: {g} left the maker, {k} arrived, {} asked for", take[t]));
                    }
                }
            }
            Op::SeizeConfig { u, receiver, assets } => {
                let ok = *u == 0;
                let m = ExecuteMsg::UpdateSeizeConfig { receiver: receiver.then(|| SEIZER.into()), seizable_assets: assets.iter().map(|i| self.t[*i].info.clone()).collect() };
                let (r, f) = self.run(ctx, "seize_config", step, *u, &m);
                ctx.check("C26", "seize-update", if r.is_ok() { ok && !f } else { !ok || f }, || format!("by {}: {:?}", name(*u), r.as_ref().err()));
                if r.is_ok() {
                    self.m.seize_to |= *receiver;
                    self.m.seizable = assets.clone();
                }
            }
            Op::Sink { dead } => {
                self.dead = *dead;
                let mut s = self.c.0.borrow_mut();
                if *dead {
                    ctx.hit("fault.receiver_down");
                    s.dead_contracts.insert(self.sink.clone());
                } else {
                    s.dead_contracts.remove(&self.sink);
                }
            }
            Op::Freeze { t } => {
                let mut s = self.c.0.borrow_mut();
                s.frozen_denoms.clear();
                self.frozen = None;
                if let Some(t) = t {
                    if self.t[*t].native {
                        ctx.hit("fault.denom_frozen");
                        s.frozen_denoms.insert(self.t[*t].id.clone());
                        self.frozen = Some(*t);
                    }
                }
            }
            Op::Idle => {}
        }
        self.checks(ctx);
    }

    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now() - T0
    }
}
