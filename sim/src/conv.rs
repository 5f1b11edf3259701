//! The ASTRO converters (hub, outpost, Neutron) and the deprecated pair turned into a wrapper around them,
//! with a relayer that acknowledges or times out. Exact model of every balance. Oracle of C27.

use crate::chain::*;
use crate::code;
use crate::rng::Rng;
use crate::runner::*;
use crate::world::*;
use astroport::asset::{Asset, AssetInfo, PairInfo};
use astroport::astro_converter as ac;
use astroport::factory::PairType;
use astroport::pair::{self, PoolResponse, ReverseSimulationResponse, SimulationResponse};
use astroport_pair_converter::migration::MigrateMsg;
use cosmwasm_std::{to_json_binary, Addr, Coin, Deps, DepsMut, Empty, Env, MessageInfo, QuerierWrapper, Response, StdError, Uint128};
use neutron_sdk::bindings::{msg::NeutronMsg, query::NeutronQuery};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

type U = Uint128;
const T0: u64 = 1_700_000_000;
const NU: usize = 4;
const P: &str = "C27";
const BURN_TO: &str = "terra1burn";
const CHANNEL: &str = "channel-7";

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Hub,
    Outpost,
    Neutron,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    kind: Kind,
    /// version the pair is upgraded from
    wrap: Option<usize>,
    flip: bool,
    float: U,
    fee: U,
    scale: u32,
}

/// tokens: 0 old ASTRO, 1 new ASTRO, 2 untrn, 3 another denomination, 4 another cw20
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Convert { u: usize, to: Option<usize>, funds: Vec<(usize, U)> },
    Forge { u: usize, amt: U, to: Option<usize>, pair: bool },
    Send { u: usize, t: usize, amt: U, to: Option<usize>, pair: bool, junk: bool },
    Swap { u: usize, t: usize, amt: U, to: Option<usize>, funds: Vec<(usize, U)> },
    Other { u: usize, k: usize, t: usize, amt: U },
    Burn { u: usize, funds: Vec<(usize, U)> },
    Ship { u: usize, timeout: Option<u64>, funds: Vec<(usize, U)> },
    Settle { i: usize, ack: bool },
    Give { u: usize, t: usize, amt: U, pair: bool },
    Freeze { t: Option<usize> },
    Block { u: Option<usize> },
    Fee { min: U },
    Migrate { k: usize },
    New { k: usize },
    Idle,
}

const VERSIONS: [&str; 4] = ["1.0.1", "1.1.0", "1.3.0", "1.3.3"];

fn neu_exec(d: DepsMut, e: Env, i: MessageInfo, m: astroport_v4::astro_converter::ExecuteMsg) -> Result<Response<NeutronMsg>, astro_token_converter::error::ContractError> {
    let deps = DepsMut::<NeutronQuery> { storage: d.storage, api: d.api, querier: QuerierWrapper::new(&*d.querier) };
    astro_token_converter_neutron::contract::execute(deps, e, i, m)
}
fn old_inst(_: DepsMut, _: Env, _: MessageInfo, _: Empty) -> Result<Response, StdError> {
    Ok(Default::default())
}
fn old_exec(_: DepsMut, _: Env, _: MessageInfo, _: Empty) -> Result<Response, StdError> {
    Err(StdError::generic_err("deprecated"))
}
fn old_query(_: Deps, _: Env, _: Empty) -> Result<cosmwasm_std::Binary, StdError> {
    Err(StdError::generic_err("deprecated"))
}

type Bals = BTreeMap<(String, usize), u128>;

pub struct ConvScn {
    c: Chain,
    cfg: Cfg,
    conv: String,
    conv_code: u64,
    wrap_code: u64,
    old_code: u64,
    factory: String,
    pair: Option<String>,
    toks: Vec<Asst>,
    m: Bals,
    /// (amount, sent at, timeout, state)
    sent: Vec<(u128, u64, u64, u8)>,
    min_fee: u128,
    frozen: Option<usize>,
    blocked: Option<usize>,
}

fn add(m: &mut Bals, who: &str, t: usize, x: u128) {
    *m.entry((who.into(), t)).or_default() += x;
}
fn sub(m: &mut Bals, who: &str, t: usize, x: u128) -> bool {
    let b = m.entry((who.into(), t)).or_default();
    let ok = *b >= x;
    *b = b.saturating_sub(x);
    ok
}

impl ConvScn {
    fn who(&self, i: usize) -> String {
        match i {
            i if i < NU => format!("user{i}"),
            4 => self.conv.clone(),
            5 => self.pair.clone().unwrap_or("user9".into()),
            6 => "bad/address".into(),
            // the old token's own contract
            8 if !self.toks[0].native => self.toks[0].id.clone(),
            8 => "user8".into(),
            _ => "ab".into(),
        }
    }
    fn good(&self, to: Option<usize>) -> bool {
        to.map_or(true, |i| i < 6 || i == 8)
    }
    /// coins in the order the chain would pass them
    fn funds(&self, f: &[(usize, U)]) -> (Vec<(usize, u128)>, Vec<Coin>) {
        let mut v: BTreeMap<usize, u128> = BTreeMap::new();
        for (t, a) in f {
            if self.toks[*t].native && !a.is_zero() {
                *v.entry(*t).or_default() += a.u128();
            }
        }
        let coins: Vec<(&str, u128)> = v.iter().map(|(t, a)| (self.toks[*t].id.as_str(), *a)).collect();
        (v.iter().map(|(t, a)| (*t, *a)).collect(), coins.iter().map(|(d, a)| Coin::new(*a, *d)).collect())
    }
    /// a bank transfer (or a cw20 one) in the model
    fn mv(&self, m: &mut Bals, from: &str, to: &str, t: usize, x: u128) -> bool {
        let native = self.toks[t].native;
        let ok = x > 0 && !(native && (self.frozen == Some(t) || self.blocked.is_some_and(|b| self.who(b) == to)));
        let paid = sub(m, from, t, x);
        if paid {
            add(m, to, t, x);
        }
        ok && paid
    }
    fn pay(&self, m: &mut Bals, from: &str, to: &str, f: &[(usize, u128)]) -> bool {
        f.iter().all(|(t, a)| self.mv(m, from, to, *t, *a))
    }
    fn cfg_msg(&self) -> ac::InstantiateMsg {
        ac::InstantiateMsg {
            old_astro_asset_info: self.toks[0].info.clone(),
            new_astro_denom: self.toks[1].id.clone(),
            outpost_burn_params: (self.cfg.kind != Kind::Hub)
                .then(|| ac::OutpostBurnParams { terra_burn_addr: BURN_TO.into(), old_astro_transfer_channel: CHANNEL.into() }),
        }
    }
    fn pair_info(&self, addr: &str, infos: Vec<AssetInfo>) -> PairInfo {
        PairInfo { asset_infos: infos, contract_addr: Addr::unchecked(addr), liquidity_token: "lptoken".into(), pair_type: PairType::Xyk {} }
    }
    /// a pair of an earlier release, about to be upgraded to the wrapper
    fn old_pair(&self, name: &str, version: &str, infos: Vec<AssetInfo>) -> Result<String, String> {
        let a = self.c.instantiate(self.old_code, OWNER, &Empty {}, &[], "pair", Some(OWNER))?;
        let ci = json!({"contract": name, "version": version});
        let cfg = json!({"pair_info": self.pair_info(&a, infos), "factory_addr": self.factory, "block_time_last": 17, "price0_cumulative_last": "1", "price1_cumulative_last": "2"});
        self.c.raw_store_set(&a, b"contract_info", ci.to_string().as_bytes());
        self.c.raw_store_set(&a, b"config", cfg.to_string().as_bytes());
        Ok(a)
    }

    fn checks(&mut self, ctx: &mut Ctx) {
        let mut names: Vec<String> = (0..NU).map(|i| self.who(i)).collect();
        names.extend([self.conv.clone(), self.who(5), self.who(8), IBC_ESCROW.into(), "feerefunder".into(), BURN_TO.into(), OWNER.into()]);
        for n in &names {
            for (t, a) in self.toks.iter().enumerate() {
                let w = self.m.get(&(n.clone(), t)).copied().unwrap_or(0);
                let b = a.bal(&self.c, n);
                ctx.check(P, "balance", b == w, || format!("{n} has {b} of {}, expected {w}", a.id));
            }
        }
        if !self.toks[0].native {
            let s = self.toks[0].supply(&self.c);
            let w: u128 = self.m.iter().filter(|x| x.0 .1 == 0).map(|x| x.1).sum();
            ctx.check(P, "burned", s == w, || format!("{s} old ASTRO exist, {w} expected"));
        }
        let want = self.cfg_msg();
        let r: Result<ac::Config, String> = self.c.query(&self.conv, &ac::QueryMsg::Config {});
        ctx.check(
            P,
            "config",
            r.as_ref().is_ok_and(|r| r.old_astro_asset_info == want.old_astro_asset_info && r.new_astro_denom == want.new_astro_denom && r.outpost_burn_params == want.outpost_burn_params),
            || format!("config {r:?}"),
        );
        let pk: Vec<_> = self.c.0.borrow().packets.iter().map(|p| (p.sender.clone(), p.receiver.clone(), p.channel.clone(), p.denom.clone(), p.amount, p.timeout_ns, p.memo.clone())).collect();
        ctx.check(P, "packets", pk.len() == self.sent.len(), || format!("{} packets, {} expected", pk.len(), self.sent.len()));
        for (p, s) in pk.iter().zip(&self.sent) {
            let want = (self.conv.clone(), BURN_TO.to_string(), CHANNEL.to_string(), self.toks[0].id.clone(), s.0, (s.1 + s.2) * 1_000_000_000, String::new());
            ctx.check(P, "packet", *p == want, || format!("packet {p:?}, expected {want:?}"));
        }
        let Some(p) = self.pair.clone() else { return };
        let mut infos = vec![self.toks[0].info.clone(), self.toks[1].info.clone()];
        if self.cfg.flip {
            infos.reverse();
        }
        let x = (ctx.step as u128).pow(5) % 1_000_003;
        let sim = |a: Asset| self.c.query::<SimulationResponse>(&p, &pair::QueryMsg::Simulation { offer_asset: a, ask_asset_info: None });
        let rev = |a: Asset| self.c.query::<ReverseSimulationResponse>(&p, &pair::QueryMsg::ReverseSimulation { offer_asset_info: None, ask_asset: a });
        for (t, a) in self.toks.iter().enumerate() {
            let s = sim(a.with(x));
            let ok = match &s {
                Ok(s) => t == 0 && s.return_amount.u128() == x && s.spread_amount.is_zero() && s.commission_amount.is_zero(),
                Err(_) => t != 0,
            };
            ctx.check(P, "quote", ok, || format!("quote for {x} {}: {s:?}", a.id));
            let s = rev(a.with(x));
            let ok = match &s {
                Ok(s) => t == 1 && s.offer_amount.u128() == x && s.spread_amount.is_zero() && s.commission_amount.is_zero(),
                Err(_) => t != 1,
            };
            ctx.check(P, "quote", ok, || format!("reverse quote for {x} {}: {s:?}", a.id));
        }
        let want = self.pair_info(&p, infos.clone());
        let r: Result<PairInfo, String> = self.c.query(&p, &pair::QueryMsg::Pair {});
        ctx.check(P, "pair", r == Ok(want.clone()), || format!("pair {r:?}, expected {want:?}"));
        let zero: Vec<Asset> = infos.iter().map(|i| Asset { info: i.clone(), amount: U::zero() }).collect();
        let r: Result<PoolResponse, String> = self.c.query(&p, &pair::QueryMsg::Pool {});
        ctx.check(P, "pool", r.as_ref().is_ok_and(|r| r.assets == zero && r.total_share.is_zero()), || format!("pool {r:?}"));
        let r: Result<Vec<Asset>, String> = self.c.query(&p, &pair::QueryMsg::Share { amount: U::new(1 + x) });
        ctx.check(P, "share", r == Ok(zero), || format!("share {r:?}"));
        let r: Result<pair::ConfigResponse, String> = self.c.query(&p, &pair::QueryMsg::Config {});
        ctx.check(P, "pair-config", r.as_ref().is_ok_and(|r| r.owner == OWNER && r.factory_addr == self.factory && r.params.is_none()), || format!("config {r:?}"));
    }
}

impl Scenario for ConvScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "converter";

    fn cfg(rng: &mut Rng, _prop: &str, thorough: bool) -> (Cfg, Sched) {
        let scale = *rng.pick(&[3, 6, 9, 12, 18]);
        let kind = *rng.pick(&[Kind::Hub, Kind::Outpost, Kind::Neutron]);
        let wrap = if rng.pct(60) { Some(rng.idx(4)) } else { None };
        let float = U::new(if rng.pct(15) { 0 } else { rng.log(1, 10u128.pow(scale) * 20) });
        let fee = U::new(if kind == Kind::Neutron { *rng.pick(&[0, 1, 200_000]) } else { 0 });
        (Cfg { kind, wrap, flip: rng.pct(50), float, fee, scale }, Sched::draw(rng, if thorough { 120 } else { 45 }))
    }

    fn new(cfg: &Cfg, ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(T0, 1_000_000);
        let d = dex::deploy(&c, vec![dex::pair_config(dex::reg_pair(&c), PairType::Xyk {}, 30, 0)], None, None)?;
        let conv_code = if cfg.kind == Kind::Neutron {
            c.store_code(code!("converter", inst = astro_token_converter_neutron::contract::instantiate, exec = neu_exec, query = astro_token_converter_neutron::contract::query, sudo = astro_token_converter_neutron::contract::sudo))
        } else {
            c.store_code(code!("converter", inst = astro_token_converter::contract::instantiate, exec = astro_token_converter::contract::execute, query = astro_token_converter::contract::query))
        };
        let wrap_code = c.store_code(code!(
            "pair_converter",
            inst = old_inst,
            exec = astroport_pair_converter::contract::execute,
            query = astroport_pair_converter::queries::query,
            migrate = astroport_pair_converter::contract::migrate
        ));
        let old_code = c.store_code(code!("old_pair", inst = old_inst, exec = old_exec, query = old_query));
        let big = 10u128.pow(cfg.scale);
        let hold: Vec<(String, u128)> = (0..NU).map(|i| (format!("user{i}"), big * (1 + i as u128))).collect();
        let hold: Vec<(&str, u128)> = hold.iter().map(|x| (x.0.as_str(), x.1)).collect();
        let mut toks = vec![];
        for (i, (denom, cw20)) in [("ibc/0ldAstr0", cfg.kind == Kind::Hub), ("factory/terra1deployer/astro", false), ("untrn", false), ("uosmo", false), ("", true)].into_iter().enumerate() {
            toks.push(make_token(&c, d.cw20_code, denom, &Tok { cw20, dec: 6 }, &hold)?);
            let _ = i;
        }
        let mut s = ConvScn {
            c,
            cfg: cfg.clone(),
            conv: String::new(),
            conv_code,
            wrap_code,
            old_code,
            factory: d.factory.clone(),
            pair: None,
            toks,
            m: Default::default(),
            sent: vec![],
            min_fee: cfg.fee.u128(),
            frozen: None,
            blocked: None,
        };
        s.conv = s.c.instantiate(conv_code, OWNER, &s.cfg_msg(), &[], "converter", None)?;
        s.c.faucet(&s.conv, &s.toks[1].id, cfg.float.u128());
        s.c.0.borrow_mut().neutron_min_fee = s.min_fee;
        if let Some(v) = cfg.wrap {
            let mut infos = vec![s.toks[0].info.clone(), s.toks[1].info.clone()];
            if cfg.flip {
                infos.reverse();
            }
            let p = s.old_pair("astroport-pair", VERSIONS[v], infos)?;
            s.c.migrate(OWNER, &p, wrap_code, &MigrateMsg { converter_contract: s.conv.clone() })?;
            s.pair = Some(p);
        }
        for t in 0..s.toks.len() {
            for (u, a) in &hold {
                add(&mut s.m, u, t, *a);
            }
        }
        let conv = s.conv.clone();
        add(&mut s.m, &conv, 1, cfg.float.u128());
        s.checks(ctx);
        Ok(s)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        let u = rng.idx(NU);
        let t0 = if rng.pct(80) { 0 } else { rng.idx(5) };
        let bal = |s: &Self, t: usize, w: &str| s.m.get(&(w.to_string(), t)).copied().unwrap_or(0);
        let float = bal(self, 1, &self.conv);
        let b = bal(self, t0, &self.who(u));
        let amt = U::new(match rng.below(10) {
            0 => b,
            1 => b + 1,
            2 => 0,
            3 => 1,
            4 => float,
            5 => float + 1,
            _ => rng.log(1, b.min(float.max(10)).max(2)),
        });
        let to = match rng.below(10) {
            0..=3 => None,
            4..=8 => Some(rng.idx(NU)),
            _ => Some(4 + rng.idx(5)),
        };
        let extra = |rng: &mut Rng, mut f: Vec<(usize, U)>| {
            if rng.pct(10) {
                f.push((rng.idx(4), U::new(rng.range(0, 5) as u128)));
            }
            f
        };
        let pair = self.pair.is_some();
        let w = |on: bool, x: u64| if on { x } else { 0 };
        let hub = self.cfg.kind == Kind::Hub;
        match rng.weighted(&[w(!hub, 20) + 3, 3, w(hub, 30) + 3, w(pair, 14), w(pair, 4), w(hub, 10) + 2, w(!hub, 16) + 2, w(!self.sent.is_empty(), 14), 8, 3, 2, 2, 3, 3, 2]) {
            0 => {
                let f = if rng.pct(95) { vec![(t0, amt)] } else { vec![] };
                Op::Convert { u, to, funds: extra(rng, f) }
            }
            1 => Op::Forge { u, amt: U::new(1 + rng.below(100) as u128), to, pair: pair && rng.pct(50) },
            2 => Op::Send { u, t: if rng.pct(85) { 0 } else { 4 }, amt, to, pair: pair && rng.pct(50), junk: rng.pct(8) },
            3 => {
                let f = if rng.pct(90) { vec![(t0, amt)] } else { vec![(t0, amt + U::one())] };
                Op::Swap { u, t: t0, amt, to, funds: extra(rng, f) }
            }
            4 => Op::Other { u, k: rng.idx(4), t: t0, amt },
            5 => Op::Burn { u, funds: extra(rng, vec![]) },
            6 => {
                let f = if self.cfg.kind == Kind::Neutron && rng.pct(60) { vec![(2, U::new(self.min_fee + rng.below(2) as u128).saturating_sub(U::new(rng.below(2) as u128)))] } else { vec![] };
                let timeout = match rng.below(8) {
                    0 => Some(119),
                    1 => Some(120),
                    2 => Some(600),
                    3 => Some(601),
                    4 => Some(*rng.pick(&[0, 1, u64::MAX, 86400])),
                    5 => Some(rng.range(120, 600)),
                    _ => None,
                };
                Op::Ship { u, timeout, funds: extra(rng, f) }
            }
            7 => Op::Settle { i: rng.idx(self.sent.len()), ack: rng.pct(40) },
            8 => Op::Give { u, t: rng.idx(5), amt: U::new(rng.log(1, b.max(2))), pair: pair && rng.pct(30) },
            9 => Op::Freeze { t: if self.frozen.is_some() { None } else { Some(rng.idx(3)) } },
            10 => Op::Block { u: if self.blocked.is_some() { None } else { Some(rng.idx(6)) } },
            11 => Op::Fee { min: U::new(*rng.pick(&[0, 1, 7, 200_000])) },
            12 => Op::Migrate { k: rng.idx(10) },
            13 => Op::New { k: rng.idx(9) },
            _ => Op::Idle,
        }
    }

    fn apply(&mut self, step: &Step<Op>, ctx: &mut Ctx) {
        self.c.advance(step.dt, step.db);
        let now = self.c.now();
        let mut m = self.m.clone();
        let conv = self.conv.clone();
        let pr = self.who(5);
        let kind = self.cfg.kind;
        let name = |to: &Option<usize>| to.map(|i| self.who(i));
        let mut ship: Option<(u128, u64, u64, u8)> = None;
        self.c.0.borrow_mut().fault = step.fault.clone();
        let (what, ok, r): (&str, bool, TxResult) = match &step.op {
            Op::Convert { u, to, funds } => {
                let (f, coins) = self.funds(funds);
                let me = self.who(*u);
                let mut ok = kind != Kind::Hub && f.len() == 1 && f[0].0 == 0 && self.good(*to);
                ok &= self.pay(&mut m, &me, &conv, &f);
                if ok {
                    ok = self.mv(&mut m, &conv, &name(to).unwrap_or(me.clone()), 1, f[0].1);
                }
                ("convert", ok, self.c.execute(&me, &conv, &ac::ExecuteMsg::Convert { receiver: name(to) }, &coins))
            }
            Op::Forge { u, amt, to, pair } => {
                let hook = if *pair { to_json_binary(&pair::Cw20HookMsg::Swap { ask_asset_info: None, belief_price: None, max_spread: None, to: name(to) }) } else { to_json_binary(&ac::Cw20HookMsg { receiver: name(to) }) };
                let r = cw20::Cw20ReceiveMsg { sender: self.who(*u), amount: *amt, msg: hook.unwrap() };
                ("forged receive", false, if *pair { self.c.execute(&self.who(*u), &pr, &pair::ExecuteMsg::Receive(r), &[]) } else { self.c.execute(&self.who(*u), &conv, &ac::ExecuteMsg::Receive(r), &[]) })
            }
            Op::Send { u, t, amt, to, pair, junk } => {
                if self.toks[*t].native {
                    return self.checks(ctx);
                }
                let me = self.who(*u);
                let hook = match (*pair, *junk) {
                    (false, false) => to_json_binary(&ac::Cw20HookMsg { receiver: name(to) }),
                    (true, false) => to_json_binary(&pair::Cw20HookMsg::Swap { ask_asset_info: None, belief_price: None, max_spread: None, to: name(to) }),
                    (true, true) => to_json_binary(&json!({"withdraw_liquidity": {}})),
                    _ => to_json_binary("junk"),
                };
                let ok = !junk && kind == Kind::Hub && *t == 0 && self.good(*to) && self.mv(&mut m, &me, &conv, 0, amt.u128()) && self.mv(&mut m, &conv, &name(to).unwrap_or(me.clone()), 1, amt.u128());
                let target = if *pair { &pr } else { &conv };
                ("send", ok, self.c.execute(&me, &self.toks[*t].id, &cw20::Cw20ExecuteMsg::Send { contract: target.clone(), amount: *amt, msg: hook.unwrap() }, &[]))
            }
            Op::Swap { u, t, amt, to, funds } => {
                let me = self.who(*u);
                let (f, coins) = self.funds(funds);
                let mut ok = kind != Kind::Hub && *t == 0 && self.good(*to) && f == [(0, amt.u128())];
                ok &= self.pay(&mut m, &me, &pr, &f);
                ok = ok && self.mv(&mut m, &pr, &conv, 0, amt.u128()) && self.mv(&mut m, &conv, &name(to).unwrap_or(me.clone()), 1, amt.u128());
                let msg = pair::ExecuteMsg::Swap { offer_asset: self.toks[*t].with(amt.u128()), ask_asset_info: None, belief_price: None, max_spread: None, to: name(to) };
                let r = self.c.execute(&me, &pr, &msg, &coins);
                if let Ok(o) = &r {
                    let g = |k: &str| attr(o, &pr, k).unwrap_or("").to_string();
                    let good = g("offer_amount") == amt.to_string() && g("return_amount") == amt.to_string() && g("receiver") == name(to).unwrap_or(me.clone()) && ["spread_amount", "commission_amount", "maker_fee_amount"].iter().all(|k| g(k) == "0");
                    ctx.check(P, "event", good, || format!("event of a swap of {amt}: {:?}", o.attrs));
                }
                ("swap", ok, r)
            }
            Op::Other { u, k, t, amt } => {
                let a = self.toks[*t].with(amt.u128());
                let msg = match k {
                    0 => pair::ExecuteMsg::ProvideLiquidity { assets: vec![a, self.toks[1].with(1)], slippage_tolerance: None, auto_stake: None, receiver: None, min_lp_to_receive: None },
                    1 => pair::ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: None },
                    2 => pair::ExecuteMsg::UpdateConfig { params: to_json_binary("x").unwrap() },
                    _ => pair::ExecuteMsg::ProposeNewOwner { owner: self.who(*u), expires_in: 100 },
                };
                let w = if rngless(amt) { OWNER.to_string() } else { self.who(*u) };
                ("unsupported", false, self.c.execute(&w, &pr, &msg, &[]))
            }
            Op::Burn { u, funds } => {
                let me = self.who(*u);
                let (f, coins) = self.funds(funds);
                let b = m.get(&(conv.clone(), 0)).copied().unwrap_or(0);
                let ok = kind == Kind::Hub && f.is_empty() && b > 0;
                m.insert((conv.clone(), 0), 0);
                ("burn", ok, self.c.execute(&me, &conv, &ac::ExecuteMsg::Burn {}, &coins))
            }
            Op::Ship { u, timeout, funds } => {
                let me = self.who(*u);
                let (f, coins) = self.funds(funds);
                let mut ok = kind != Kind::Hub && (f.is_empty() || kind == Kind::Neutron && f.len() == 1 && f[0].0 == 2);
                ok &= self.pay(&mut m, &me, &conv, &f);
                let t = timeout.unwrap_or(300);
                ok &= (120..=600).contains(&t);
                let b = m.get(&(conv.clone(), 0)).copied().unwrap_or(0);
                if kind == Kind::Neutron && self.min_fee > 0 {
                    ok = ok && self.mv(&mut m, &conv, "feerefunder", 2, self.min_fee);
                }
                ok = ok && self.mv(&mut m, &conv, IBC_ESCROW, 0, b);
                ship = Some((b, now, t, 0));
                ("ship", ok, self.c.execute(&me, &conv, &ac::ExecuteMsg::TransferForBurning { timeout: *timeout }, &coins))
            }
            Op::Settle { i, ack } => {
                self.c.0.borrow_mut().fault = None;
                if *i < self.sent.len() {
                    let s = self.sent[*i];
                    let can = s.3 == 0 && (now < s.1 + s.2) == *ack;
                    let did = self.c.ibc_settle(*i, *ack);
                    ctx.outcome("settle", did, "");
                    ctx.check(P, "timeout", did == can, || format!("packet {s:?} settled at {now} (ack {ack}): {did}"));
                    if did {
                        self.sent[*i].3 = if *ack { 1 } else { 2 };
                        if self.cfg.kind == Kind::Neutron {
                            // the chain tells the contract how its transfer went
                            let req = json!({"sequence": i, "source_port": "transfer", "source_channel": "channel-1"});
                            let msg = if *ack { json!({"response": {"request": req, "data": ""}}) } else { json!({"timeout": {"request": req}}) };
                            let d0 = self.c.state_digest_of(&conv);
                            let r = self.c.sudo(&conv, &msg);
                            ctx.check(P, "callback", r.is_ok() && d0 == self.c.state_digest_of(&conv), || format!("{msg}: {:?}", r.as_ref().err()));
                        }
                        if *ack {
                            ctx.hit("probe.packet_acknowledged");
                        } else {
                            ctx.hit("fault.packet_timed_out");
                            sub(&mut self.m, IBC_ESCROW, 0, s.0);
                            add(&mut self.m, &conv, 0, s.0);
                        }
                    }
                }
                return self.checks(ctx);
            }
            Op::Give { u, t, amt, pair } => {
                let me = self.who(*u);
                let to = if *pair { &pr } else { &conv };
                let ok = self.mv(&mut m, &me, to, *t, amt.u128());
                ("give", ok, self.toks[*t].transfer(&self.c, &me, to, amt.u128()))
            }
            Op::Freeze { t } => {
                self.frozen = t.filter(|t| self.toks[*t].native);
                let mut s = self.c.0.borrow_mut();
                s.frozen_denoms.clear();
                if let Some(t) = self.frozen {
                    ctx.hit("fault.denom_frozen");
                    s.frozen_denoms.insert(self.toks[t].id.clone());
                }
                return;
            }
            Op::Block { u } => {
                self.blocked = *u;
                let mut s = self.c.0.borrow_mut();
                s.blocked_addrs.clear();
                if let Some(u) = u {
                    ctx.hit("fault.recipient_blocked");
                    s.blocked_addrs.insert(self.who(*u));
                }
                return;
            }
            Op::Fee { min } => {
                self.min_fee = if kind == Kind::Neutron { min.u128() } else { 0 };
                self.c.0.borrow_mut().neutron_min_fee = self.min_fee;
                return;
            }
            Op::Migrate { k } => {
                // upgrades that would make a wrapper of something else
                let (o, n, x) = (self.toks[0].info.clone(), self.toks[1].info.clone(), self.toks[3].info.clone());
                let (nm, v, infos, cv, ok) = match k {
                    0 => ("astroport-pair", "1.0.1", vec![o, n], conv.clone(), true),
                    1 => ("astroport-pair", "1.3.3", vec![n, o], conv.clone(), true),
                    2 => ("astroport-pair", "1.3.3", vec![o, x], conv.clone(), false),
                    3 => ("astroport-pair", "1.3.3", vec![x, n], conv.clone(), false),
                    4 => ("astroport-pair", "1.3.3", vec![o, n, x], conv.clone(), false),
                    5 => ("astroport-pair", "1.2.0", vec![o, n], conv.clone(), false),
                    6 => ("astroport-pair-stable", "1.1.0", vec![o, n], conv.clone(), false),
                    7 => ("astroport-pair", "1.1.0", vec![o, n], self.factory.clone(), false),
                    8 => ("astroport-pair", "1.1.0", vec![o, n], "bad/address".into(), false),
                    _ => ("astroport-pair", "1.1.0", vec![o.clone(), o], conv.clone(), false),
                };
                let Ok(p) = self.old_pair(nm, v, infos) else { return };
                let d0 = self.c.state_digest_of(&p);
                let r = self.c.migrate(OWNER, &p, self.wrap_code, &MigrateMsg { converter_contract: cv });
                let d1 = self.c.state_digest_of(&p);
                let f = fault_mark(&self.c, ctx);
                ctx.outcome("upgrade", r.is_ok(), r.as_ref().err().map_or("", |s| s));
                ctx.check(P, "upgrade", r.is_ok() == (ok && !f), || format!("upgrade {k} of {nm} {v} (should work: {ok}): {:?}", r.as_ref().err()));
                ctx.check(P, "upgrade", r.is_ok() || d0 == d1, || format!("refused upgrade {k} changed the pair"));
                if r.is_ok() {
                    // a wrapper cannot be upgraded again
                    let r = self.c.migrate(OWNER, &p, self.wrap_code, &MigrateMsg { converter_contract: conv.clone() });
                    ctx.check(P, "upgrade", r.is_err(), || "a wrapper was upgraded again".into());
                }
                return self.checks(ctx);
            }
            Op::New { k } => {
                let ibc = AssetInfo::native("ibc/AAAABBBB");
                let cw = self.toks[4].info.clone();
                let bp = || Some(ac::OutpostBurnParams { terra_burn_addr: BURN_TO.into(), old_astro_transfer_channel: CHANNEL.into() });
                let (old, new, b, ok) = match k {
                    0 => (ibc, "ibc/CCCC", bp(), true),
                    1 => (cw, "ibc/CCCC", None, true),
                    2 => (ibc, "ibc/CCCC", None, false),
                    3 => (cw, "ibc/CCCC", bp(), false),
                    4 => (ibc, "ibc/AAAABBBB", bp(), false),
                    5 => (AssetInfo::native("uluna"), "ibc/CCCC", bp(), false),
                    6 => (AssetInfo::native("factory/x/astro"), "ibc/CCCC", bp(), false),
                    7 => (ibc, "", bp(), false),
                    _ => (AssetInfo::cw20_unchecked("bad/address"), "ibc/CCCC", None, false),
                };
                let msg = ac::InstantiateMsg { old_astro_asset_info: old, new_astro_denom: new.into(), outpost_burn_params: b };
                let r = self.c.instantiate(self.conv_code, &self.who(0), &msg, &[], "c", None);
                let f = fault_mark(&self.c, ctx);
                ctx.outcome("instantiate", r.is_ok(), r.as_ref().err().map_or("", |s| s));
                ctx.check(P, "instantiate", r.is_ok() == (ok && !f), || format!("{msg:?} (should work: {ok}): {r:?}"));
                return self.checks(ctx);
            }
            Op::Idle => {
                self.c.0.borrow_mut().fault = None;
                return self.checks(ctx);
            }
        };
        let faulted = fault_mark(&self.c, ctx);
        ctx.outcome(what, r.is_ok(), r.as_ref().err().map_or("", |s| s));
        ctx.check(P, "accepted", r.is_ok() == (ok && !faulted), || format!("{:?} (should work: {ok}, fault {faulted}): {:?}", step.op, r.as_ref().err()));
        if r.is_ok() {
            self.m = m;
            if let Some(s) = ship {
                self.sent.push(s);
            }
        }
        self.checks(ctx);
    }

    fn finish(&mut self, ctx: &mut Ctx) {
        // faults stop: whatever old ASTRO the converter holds can still be disposed of
        {
            let mut s = self.c.0.borrow_mut();
            s.fault = None;
            s.frozen_denoms.clear();
            s.blocked_addrs.clear();
        }
        self.frozen = None;
        self.blocked = None;
        for i in 0..self.sent.len() {
            if self.sent[i].3 == 0 {
                self.c.advance(601, 100);
                self.apply(&Step { dt: 0, db: 0, fault: None, op: Op::Settle { i, ack: false } }, ctx);
            }
        }
        let b = self.m.get(&(self.conv.clone(), 0)).copied().unwrap_or(0);
        if b > 0 {
            let conv = self.conv.clone();
            self.c.faucet(&conv, "untrn", self.min_fee);
            add(&mut self.m, &conv, 2, self.min_fee);
            let op = if self.cfg.kind == Kind::Hub { Op::Burn { u: 0, funds: vec![] } } else { Op::Ship { u: 0, timeout: None, funds: vec![] } };
            self.apply(&Step { dt: 0, db: 0, fault: None, op }, ctx);
            let left = self.m.get(&(conv, 0)).copied().unwrap_or(0);
            ctx.check(P, "disposed", left == 0, || format!("{left} old ASTRO cannot be disposed of"));
        }
    }

    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now() - T0
    }
}

/// the owner asks as often as a user does
fn rngless(a: &U) -> bool {
    a.u128() % 2 == 0
}
