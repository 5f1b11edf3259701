//! ASTRO staking, its xASTRO pair and the balance tracker: the real staking, pair_xastro, factory and tracker contracts
//! (staking runs with the tracker release 1.0.0 it is built for, a second token with the current one, optionally
//! migrated from 1.0.0) against exact models of the staking rate and of the recorded history. Oracles of C12, C21, C22.

use crate::chain::*;
use crate::code;
use crate::rng::{mix, Rng};
use crate::runner::*;
use crate::world::dex::*;
use crate::world::*;
use astroport::asset::AssetInfo;
use astroport::factory::PairType;
use astroport::staking::{Config as StConfig, ExecuteMsg, InstantiateMsg, QueryMsg, StakingResponse, TrackerData};
use astroport::{pair, pair_xastro};
use cosmwasm_std::{from_json, to_json_binary, BankMsg, Binary, Coin, CosmosMsg, Decimal, Uint128};
use prost::Message;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

type U = Uint128;
const ASTRO: &str = "astro";
const THIRD: &str = "third";
const TK: &str = "factory/minter/token";
const TK2: &str = "factory/minter/other";
const MINTER: &str = "minter";
const NAMES: [&str; 5] = ["user0", "user1", "user2", "user3", MINTER];
const STAKING: usize = 5;
const PAIR: usize = 6;
const SINK: usize = 7;
const NOBODY: usize = 8;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    /// decimal digits of the usual amounts
    scale: u32,
    /// the second token's tracker counts seconds (else blocks)
    seconds: bool,
    /// it starts as release 1.0.0 and may be migrated
    old: bool,
    /// ASTRO sent to staking before anybody staked
    early: u64,
    wealth: Vec<U>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Via {
    Direct,
    Pair,
    /// enter with a hook that swaps back in the pair
    HookPair,
    /// enter with a hook that leaves again
    HookLeave,
    /// enter with a hook that keeps the xASTRO
    HookSink,
    /// enter with a hook that fails
    HookFail,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Enter { u: usize, amt: U, to: Option<usize>, via: Via },
    Leave { u: usize, permille: u64, to: Option<usize>, via: Via },
    /// xASTRO, ASTRO or the second token
    Send { u: usize, to: usize, permille: u64, tok: usize },
    /// several transfers in one transaction
    Burst { u: usize, tok: usize, hops: Vec<(usize, u64)> },
    Bad { u: usize, what: u8, amt: U },
    Mint { to: usize, amt: U },
    Burn { from: usize, permille: u64 },
    /// another token reports to the tracker
    Foreign,
    /// `heights`: count blocks from now on (done while nothing is recorded yet: the units do not mix)
    Upgrade { by: usize, again: bool, heights: bool },
    Tracker { which: usize, dead: bool },
    Freeze { tok: Option<usize> },
    Quote { amt: U },
    Idle,
}

fn sink_inst(_: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: cosmwasm_std::MessageInfo, _: cosmwasm_std::Empty) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
    Ok(Default::default())
}
fn sink_exec(_: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, i: cosmwasm_std::MessageInfo, m: serde_json::Value) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
    if m.get("fail").is_some() {
        return Err(cosmwasm_std::StdError::generic_err("refused"));
    }
    Ok(cosmwasm_std::Response::new().add_attribute("by", i.sender.as_str()).add_attribute("msg", m.to_string()))
}
fn sink_query(_: cosmwasm_std::Deps, _: cosmwasm_std::Env, _: cosmwasm_std::Empty) -> Result<Binary, cosmwasm_std::StdError> {
    Ok(Binary::default())
}

#[derive(Clone, PartialEq, ::prost::Message)]
struct TfAmt {
    #[prost(string, tag = "1")]
    sender: String,
    #[prost(message, optional, tag = "2")]
    amount: Option<PCoin>,
    #[prost(string, tag = "3")]
    target: String,
}
#[derive(Clone, PartialEq, ::prost::Message)]
struct TfStr {
    #[prost(string, tag = "1")]
    sender: String,
    #[prost(string, tag = "2")]
    a: String,
    #[prost(string, tag = "3")]
    b: String,
}
fn tf(kind: &str, m: impl Message) -> CosmosMsg {
    CosmosMsg::Stargate { type_url: format!("/osmosis.tokenfactory.v1beta1.{kind}"), value: m.encode_to_vec().into() }
}
fn tf_amt(kind: &str, denom: &str, amt: u128, target: &str) -> CosmosMsg {
    tf(kind, TfAmt { sender: MINTER.into(), amount: Some(PCoin { denom: denom.into(), amount: amt.to_string() }), target: target.into() })
}

/// values after each change: (time unit, value)
#[derive(Clone, Debug, Default)]
struct Series(Vec<(u64, u128)>);
impl Series {
    fn set(&mut self, t: u64, v: u128) {
        if self.0.last().map_or(0, |x| x.1) != v {
            self.0.push((t, v));
        }
    }
    fn at(&self, now: u64, t: u64) -> u128 {
        if t == now {
            return self.0.last().map_or(0, |x| x.1);
        }
        self.0.iter().rev().find(|x| x.0 < t).map_or(0, |x| x.1)
    }
}

#[derive(Default)]
struct Hist {
    bal: BTreeMap<usize, Series>,
    supply: Series,
}

pub struct TokScn {
    c: Chain,
    staking: String,
    pair: String,
    sink: String,
    xastro: String,
    trackers: [String; 2],
    new_code: u64,
    /// the current release runs on the second token
    new_api: bool,
    seconds: bool,
    scale: u32,
    dead: [bool; 2],
    burnt: bool,
    frozen: Option<usize>,
    hist: [Hist; 2],
    started: bool,
}

type Snap = Vec<[u128; 3]>;

impl TokScn {
    fn addr(&self, i: usize) -> String {
        match i {
            STAKING => self.staking.clone(),
            PAIR => self.pair.clone(),
            SINK => self.sink.clone(),
            NOBODY => "nobody".into(),
            i => NAMES[i].into(),
        }
    }
    fn denom(&self, t: usize) -> &str {
        match t {
            0 => ASTRO,
            1 => &self.xastro,
            2 => TK,
            _ => THIRD,
        }
    }
    /// balances of every account, and the supplies in the last row
    fn snap(&self) -> Snap {
        let mut v: Snap = (0..=NOBODY).map(|i| [0, 1, 2].map(|t| self.c.bal(&self.addr(i), self.denom(t)))).collect();
        v.push([0, 1, 2].map(|t| self.c.supply(self.denom(t))));
        v
    }
    fn unit(&self, k: usize) -> u64 {
        if k == 0 || self.seconds {
            self.c.now()
        } else {
            self.c.height()
        }
    }
    fn record(&mut self, k: usize, supply: bool) {
        let t = self.unit(k);
        for i in 0..=NOBODY {
            let b = self.c.bal(&self.addr(i), self.denom(1 + k));
            self.hist[k].bal.entry(i).or_default().set(t, b);
        }
        if supply {
            let s = self.c.supply(self.denom(1 + k));
            self.hist[k].supply.set(t, s);
        }
    }
    fn moves(&self, t: usize) -> bool {
        self.frozen != Some(t) && !(t >= 1 && t <= 2 && self.dead[t - 1])
    }
    fn fault_mark(&self, ctx: &mut Ctx) -> bool {
        let k = self.c.0.borrow().fault_fired.clone();
        if let Some(k) = k {
            ctx.hit(match k {
                FaultKind::Fail => "fault.tx_failed_mid",
                FaultKind::OutOfGas => "fault.out_of_gas",
                FaultKind::FailAfter => "fault.tx_failed_after",
            });
            true
        } else {
            false
        }
    }
    /// xASTRO for `a` ASTRO at these totals: (to the staker, locked for good)
    fn mint_for(d: u128, s: u128, a: u128) -> Option<(u128, u128)> {
        if d == 0 || s == 0 {
            (a > 1000).then(|| (a - 1000, 1000))
        } else {
            let m = muldiv(a, s, d);
            (m > 0).then_some((m, 0))
        }
    }
    fn totals(&self) -> (u128, u128) {
        (self.c.bal(&self.staking, ASTRO), self.c.supply(&self.xastro))
    }
    fn sim(&self, denom: &str, amt: u128) -> Result<u128, String> {
        self.c
            .query::<pair::SimulationResponse>(
                &self.pair,
                &pair::QueryMsg::Simulation { offer_asset: astroport::asset::Asset::native(denom, amt), ask_asset_info: None },
            )
            .map(|r| r.return_amount.u128())
    }
    fn rev(&self, denom: &str, amt: u128) -> Result<u128, String> {
        self.c
            .query::<pair::ReverseSimulationResponse>(
                &self.pair,
                &pair::QueryMsg::ReverseSimulation { ask_asset: astroport::asset::Asset::native(denom, amt), offer_asset_info: None },
            )
            .map(|r| r.offer_amount.u128())
    }

    /// the outcome and every balance are as expected
    #[allow(clippy::too_many_arguments)]
    fn judge(&mut self, what: &str, r: &TxResult, valid: bool, faulted: bool, pre: &Snap, want: &[(usize, usize, i128)], props: &[&str], ctx: &mut Ctx) -> bool {
        ctx.outcome(what, r.is_ok(), r.as_ref().err().map_or("", |s| s));
        let post = self.snap();
        for p in props {
            ctx.check(p, "accepted", if r.is_ok() { valid && !faulted } else { !valid || faulted }, || {
                format!("{what} (should work: {valid}, totals before {:?}): {:?}", (pre[STAKING][0], pre[NOBODY + 1][1]), r.as_ref().err())
            });
            if r.is_err() {
                ctx.check(p, "failed-unchanged", post == *pre, || format!("{what} failed but balances changed"));
                continue;
            }
            let mut exp = pre.clone();
            let mut neg = false;
            for (i, t, d) in want {
                let v = exp[*i][*t] as i128 + d;
                neg |= v < 0;
                exp[*i][*t] = v.max(0) as u128;
            }
            ctx.check(p, "flows", !neg && exp == post, || {
                let diff: Vec<String> = (0..post.len())
                    .flat_map(|i| [0, 1, 2].map(|t| (i, t)))
                    .filter(|(i, t)| exp[*i][*t] != post[*i][*t])
                    .map(|(i, t)| format!("{} of {}: {} -> {}, expected {}", ["ASTRO", "xASTRO", "token"][t], if i > NOBODY { "all".into() } else { self.addr(i) }, pre[i][t], post[i][t], exp[i][t]))
                    .collect();
                format!("{what}: {}", diff.join("; "))
            });
        }
        r.is_ok()
    }

    fn checks(&mut self, pre: &Snap, ctx: &mut Ctx) {
        let (d0, s0) = (pre[STAKING][0], pre[NOBODY + 1][1]);
        let (d, s) = self.totals();
        if ctx.on("C21") {
            if s0 > 0 {
                ctx.check("C21", "rate", u512(d) * u512(s0) >= u512(d0) * u512(s), || {
                    format!("ASTRO per xASTRO fell: {d0}/{s0} before, {d}/{s} after")
                });
            }
            ctx.check("C21", "backed", s == 0 || d >= s, || format!("{s} xASTRO are backed by {d} ASTRO"));
            ctx.check("C21", "locked", s == 0 || self.c.bal(&self.staking, &self.xastro) >= 1000, || "the locked minimum left the contract".into());
            let q: Result<U, String> = self.c.query(&self.staking, &QueryMsg::TotalDeposit {});
            let q2: Result<U, String> = self.c.query(&self.staking, &QueryMsg::TotalShares {});
            ctx.check("C21", "totals-query", q == Ok(U::new(d)) && q2 == Ok(U::new(s)), || format!("totals {q:?} {q2:?}, actual {d} {s}"));
            // everybody can leave, now
            if ctx.step % 4 == 0 && self.moves(0) && self.moves(1) {
                let f = self.c.fork();
                for u in 0..5 {
                    let x = f.bal(NAMES[u], &self.xastro);
                    if x == 0 {
                        continue;
                    }
                    let (d, s) = (f.bal(&self.staking, ASTRO), f.supply(&self.xastro));
                    let b = f.bal(NAMES[u], ASTRO);
                    let r = f.execute(NAMES[u], &self.staking, &ExecuteMsg::Leave { receiver: None }, &[Coin::new(x, &self.xastro)]);
                    let got = f.bal(NAMES[u], ASTRO) - b;
                    ctx.check("C21", "all-can-leave", r.is_ok() && got == muldiv(x, d, s), || {
                        format!("{} leaves with all {x} xASTRO at {d}/{s}: {:?}, got {got}", NAMES[u], r.as_ref().err())
                    });
                }
                ctx.hit("probe.everybody_left");
            }
        }
        if ctx.on("C22") {
            self.history(ctx);
        }
    }

    fn history(&mut self, ctx: &mut Ctx) {
        for k in 0..2 {
            let q: Result<serde_json::Value, String> = self.c.query(&self.trackers[k], &json!({"config":{}}));
            let seconds = self.seconds;
            let ok = q.as_ref().is_ok_and(|q| {
                q["tracked_denom"] == json!(self.denom(1 + k))
                    && q["token_factory_module"] == json!(TF_MODULE)
                    && (k == 0 || !self.new_api || q["track_over_seconds"] == json!(seconds))
            });
            ctx.check("C22", "tracker-config", ok, || format!("tracker of {} (over seconds: {seconds}): {q:?}", self.denom(1 + k)));
        }
        for k in 0..2 {
            let now = self.unit(k);
            let h = &self.hist[k];
            let mut at = vec![None, Some(now), Some(now + 1), Some(now.saturating_sub(1)), Some(0), Some(now + 1000)];
            let n = h.supply.0.len();
            for j in 0..3u64 {
                let x = mix(ctx.step as u64 * 8 + j, k as u64);
                if n > 0 {
                    let t = h.supply.0[x as usize % n].0;
                    at.push(Some(t + (x >> 32) % 3 - 1));
                    let i = (x >> 40) as usize % (NOBODY + 1);
                    if let Some(e) = h.bal.get(&i).filter(|s| !s.0.is_empty()) {
                        at.push(Some(e.0[(x >> 16) as usize % e.0.len()].0 + (x >> 50) % 2));
                    }
                }
            }
            for t in at {
                let mut sum = 0;
                let mut all = true;
                for i in 0..=NOBODY {
                    let a = self.addr(i);
                    if ctx.step % 16 != 0 && mix(t.unwrap_or(7), (ctx.step * 16 + i) as u64) % 4 != 0 {
                        sum += h.bal.get(&i).map_or(0, |s| s.at(now, t.unwrap_or(now)));
                        continue;
                    }
                    let want = h.bal.get(&i).map_or(0, |s| s.at(now, t.unwrap_or(now)));
                    let got: Vec<Result<U, String>> = if k == 0 {
                        vec![
                            self.c.query(&self.staking, &QueryMsg::BalanceAt { address: a.clone(), timestamp: t }),
                            self.c.query(&self.trackers[0], &json!({"balance_at":{"address":a,"timestamp":t}})),
                        ]
                    } else {
                        vec![self.c.query(&self.trackers[1], &json!({"balance_at":{"address":a, if self.new_api {"unit"} else {"timestamp"}: t}}))]
                    };
                    for g in got {
                        all &= g.is_ok();
                        ctx.check("C22", "balance-at", g == Ok(U::new(want)), || format!("{} of {a} at {t:?} (now {now}): {g:?}, it was {want}", self.denom(1 + k)));
                    }
                    sum += want;
                }
                let want = h.supply.at(now, t.unwrap_or(now));
                let got: Vec<Result<U, String>> = if k == 0 {
                    // nobody but the staking contract mints or burns: balances add up at every moment
                    ctx.check("C22", "adds-up", sum == want || !all, || format!("at {t:?} balances add up to {sum}, supply {want}"));
                    vec![
                        self.c.query(&self.staking, &QueryMsg::TotalSupplyAt { timestamp: t }),
                        self.c.query(&self.trackers[0], &json!({"total_supply_at":{"timestamp":t}})),
                    ]
                } else {
                    vec![self.c.query(&self.trackers[1], &json!({"total_supply_at":{if self.new_api {"unit"} else {"timestamp"}: t}}))]
                };
                for g in got {
                    ctx.check("C22", "supply-at", g == Ok(U::new(want)), || format!("supply of {} at {t:?} (now {now}): {g:?}, it was {want}", self.denom(1 + k)));
                }
            }
        }
    }
}

impl Scenario for TokScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "staking";

    fn cfg(rng: &mut Rng, _prop: &str, thorough: bool) -> (Cfg, Sched) {
        let scale = *rng.pick(&[1, 4, 7, 7, 10, 14, 20, 28]);
        let old = rng.pct(40);
        let cfg = Cfg {
            scale,
            seconds: old || rng.pct(50),
            old,
            early: if rng.pct(35) { rng.log(1, 1_000_000) as u64 } else { 0 },
            wealth: (0..4).map(|_| U::new(rng.log(pow10(scale.saturating_sub(2)).max(1500), pow10(scale + 5).max(10_000)))).collect(),
        };
        let mut s = Sched::draw(rng, if thorough { 150 } else { 60 });
        if rng.pct(30) {
            s.same_block_pct = 85;
        }
        (cfg, s)
    }

    fn new(cfg: &Cfg, _ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(1_700_000_000, 1_000_000);
        let pair_code = c.store_code(code!(
            "pair_xastro",
            inst = astroport_pair_xastro::contract::instantiate,
            exec = astroport_pair_xastro::contract::execute,
            query = astroport_pair_xastro::queries::query
        ));
        let st_code = c.store_code(code!(
            "staking",
            inst = astroport_staking::contract::instantiate,
            exec = astroport_staking::contract::execute,
            query = astroport_staking::contract::query,
            reply = astroport_staking::contract::reply
        ));
        let v1 = c.store_code(code!(
            "tracker_v1",
            inst = tracker_v1::contract::instantiate,
            exec = no_exec,
            query = tracker_v1::query::query,
            sudo = tracker_v1::contract::sudo
        ));
        let v2 = c.store_code(code!(
            "tokenfactory_tracker",
            inst = astroport_tokenfactory_tracker::contract::instantiate,
            exec = no_exec,
            query = astroport_tokenfactory_tracker::query::query,
            migrate = astroport_tokenfactory_tracker::contract::migrate,
            sudo = astroport_tokenfactory_tracker::contract::sudo
        ));
        let sink_code = c.store_code(code!("sink", inst = sink_inst, exec = sink_exec, query = sink_query));
        for (i, w) in cfg.wealth.iter().enumerate() {
            c.faucet(NAMES[i], ASTRO, w.u128());
            c.faucet(NAMES[i], THIRD, 1_000_000);
        }
        c.faucet(MINTER, ASTRO, 10_000_000);
        let staking = c.instantiate(
            st_code,
            OWNER,
            &InstantiateMsg { deposit_token_denom: ASTRO.into(), tracking_admin: OWNER.into(), tracking_code_id: v1, token_factory_addr: TF_MODULE.into() },
            &[],
            "staking",
            None,
        )?;
        let sc: StConfig = c.query(&staking, &QueryMsg::Config {})?;
        let td: TrackerData = c.query(&staking, &QueryMsg::TrackerConfig {})?;
        let dex = deploy(&c, vec![pair_config(pair_code, PairType::Custom("pair_xastro".into()), 0, 0)], None, None)?;
        for d in [ASTRO, &sc.xastro_denom, THIRD] {
            dex.register_coin(d, 6)?;
        }
        let infos = vec![AssetInfo::native(ASTRO), AssetInfo::native(&sc.xastro_denom)];
        let p = dex.create_pair(OWNER, PairType::Custom("pair_xastro".into()), infos, Some(to_json_binary(&pair_xastro::XastroPairInitParams { staking: staking.clone() }).unwrap()))?;
        let sink = c.instantiate(sink_code, OWNER, &cosmwasm_std::Empty {}, &[], "sink", None)?;
        // the second tracked token
        c.send_msg(MINTER, tf("MsgCreateDenom", TfStr { sender: MINTER.into(), a: "token".into(), b: "".into() }))?;
        c.send_msg(MINTER, tf("MsgCreateDenom", TfStr { sender: MINTER.into(), a: "other".into(), b: "".into() }))?;
        let t2 = if cfg.old {
            c.instantiate(v1, OWNER, &json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": TK}), &[], "tracker", Some(OWNER))?
        } else {
            c.instantiate(v2, OWNER, &json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": TK, "track_over_seconds": cfg.seconds}), &[], "tracker", Some(OWNER))?
        };
        for d in [TK, TK2] {
            c.send_msg(MINTER, tf("MsgSetBeforeSendHook", TfStr { sender: MINTER.into(), a: d.into(), b: t2.clone() }))?;
        }
        if cfg.early > 0 {
            c.send(MINTER, &staking, &coins(&[(ASTRO, cfg.early as u128)]))?;
        }
        Ok(TokScn {
            staking,
            pair: p.contract_addr.to_string(),
            sink,
            xastro: sc.xastro_denom,
            trackers: [td.tracker_addr, t2],
            new_code: v2,
            new_api: !cfg.old,
            seconds: cfg.seconds,
            scale: cfg.scale,
            dead: [false; 2],
            burnt: false,
            frozen: None,
            hist: Default::default(),
            started: false,
            c,
        })
    }

    fn advance(&mut self, rng: &mut Rng, s: &Sched) -> (u64, u64) {
        let (dt, db) = default_advance(rng, s);
        // several blocks within one second
        if dt > 0 && rng.pct(15) {
            return (0, db);
        }
        (dt, db)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        let u = rng.idx(4);
        let to = if rng.pct(30) { Some(rng.idx(9)) } else { None };
        let via = *rng.pick(&[Via::Direct, Via::Direct, Via::Pair, Via::Pair, Via::HookPair, Via::HookLeave, Via::HookSink, Via::HookFail]);
        let broken = self.dead.iter().any(|x| *x) || self.frozen.is_some();
        if broken && rng.pct(25) {
            return if self.frozen.is_some() { Op::Freeze { tok: None } } else { Op::Tracker { which: self.dead[1] as usize, dead: false } };
        }
        if !self.new_api && self.hist[1].supply.0.is_empty() && rng.pct(8) {
            return Op::Upgrade { by: 0, again: true, heights: true };
        }
        let part = |rng: &mut Rng| *rng.pick(&[1, 10, 100, 333, 500, 999, 1000, 1000, 1001]);
        if std::mem::take(&mut self.burnt) && rng.pct(35) {
            // the supply is recorded with the next transfer, whatever it is
            let u = rng.idx(5);
            return Op::Send { u, to: if rng.pct(50) { u } else { rng.idx(9) }, permille: part(rng), tok: 2 };
        }
        match rng.weighted(&[30, 22, 14, 6, 5, 6, 4, 2, 2, 2, 2, 8, 2]) {
            0 => {
                let have = self.c.bal(NAMES[u], ASTRO);
                let amt = match rng.below(8) {
                    0 => rng.range128(1, 3),
                    1 => rng.range128(995, 1005),
                    2 => have,
                    3 => have + 1,
                    _ => rng.log(1, pow10(self.scale + 4)).min(have.max(1)),
                };
                Op::Enter { u, amt: U::new(amt), to, via }
            }
            1 => {
                let holders: Vec<usize> = (0..4).filter(|i| self.c.bal(NAMES[*i], &self.xastro) > 0).collect();
                let u = if holders.is_empty() || rng.pct(10) { u } else { *rng.pick(&holders) };
                Op::Leave { u, permille: part(rng), to, via: *rng.pick(&[Via::Direct, Via::Pair]) }
            }
            2 if rng.pct(25) => Op::Send { u, to: STAKING, permille: rng.range(1, 300), tok: 0 },
            2 => Op::Send { u: rng.idx(5), to: if rng.pct(25) { u } else { rng.idx(9) }, permille: part(rng), tok: rng.idx(3) },
            3 => Op::Burst { u: rng.idx(5), tok: rng.range(1, 2) as usize, hops: (0..rng.range(2, 5)).map(|_| (rng.idx(9), rng.range(1, 1000))).collect() },
            4 => Op::Bad { u, what: rng.below(9) as u8, amt: U::new(rng.log(1, 100_000)) },
            5 => Op::Mint { to: rng.idx(5), amt: U::new(rng.log(1, pow10(self.scale))) },
            6 => Op::Burn { from: rng.idx(5), permille: part(rng) },
            7 => Op::Foreign,
            8 => Op::Upgrade { by: rng.idx(5), again: rng.pct(50), heights: rng.pct(50) },
            9 => Op::Tracker { which: rng.idx(2), dead: true },
            10 => Op::Freeze { tok: Some(rng.idx(3)) },
            11 => Op::Quote { amt: U::new(rng.log(1, pow10(self.scale + 3))) },
            _ => Op::Idle,
        }
    }

    fn apply(&mut self, step: &Step<Op>, ctx: &mut Ctx) {
        self.c.advance(step.dt, step.db);
        let fault = step.fault.clone();
        let pre = self.snap();
        let arm = |c: &Chain| c.0.borrow_mut().fault = fault.clone();
        let sup = NOBODY + 1;
        match &step.op {
            Op::Enter { u, amt, to, via } => {
                let (u, a) = (*u, amt.u128());
                let (d, s) = self.totals();
                let minted = Self::mint_for(d, s, a);
                let dest = to.unwrap_or(u);
                let mut want: Vec<(usize, usize, i128)> = vec![(u, 0, -(a as i128)), (STAKING, 0, a as i128)];
                let mut valid = a <= pre[u][0] && minted.is_some() && self.moves(0) && self.moves(1);
                let (m, lock) = minted.unwrap_or((0, 0));
                let funds = coins(&[(ASTRO, a)]);
                let recv = to.map(|i| self.addr(i));
                want.push((STAKING, 1, lock as i128));
                want.push((sup, 1, lock as i128));
                let back = if s + lock + m > 0 { muldiv(m, d + a, s + lock + m) } else { 0 };
                let quote = self.sim(ASTRO, a);
                arm(&self.c);
                let r = match via {
                    Via::Direct => {
                        want.push((dest, 1, m as i128));
                        want.push((sup, 1, m as i128));
                        self.c.execute(NAMES[u], &self.staking, &ExecuteMsg::Enter { receiver: recv }, &funds)
                    }
                    Via::Pair => {
                        want.push((dest, 1, m as i128));
                        want.push((sup, 1, m as i128));
                        self.c.execute(
                            NAMES[u],
                            &self.pair,
                            &pair::ExecuteMsg::Swap { offer_asset: astroport::asset::Asset::native(ASTRO, a), ask_asset_info: None, belief_price: None, max_spread: None, to: recv },
                            &funds,
                        )
                    }
                    Via::HookSink | Via::HookFail => {
                        let fail = *via == Via::HookFail;
                        valid &= !fail;
                        want.push((SINK, 1, m as i128));
                        want.push((sup, 1, m as i128));
                        let msg = if fail { json!({"fail":{}}) } else { json!({"keep": a.to_string()}) };
                        self.c.execute(NAMES[u], &self.staking, &ExecuteMsg::EnterWithHook { contract_address: self.sink.clone(), msg: to_json_binary(&msg).unwrap() }, &funds)
                    }
                    Via::HookLeave | Via::HookPair => {
                        // straight out again, at the new rate
                        let (target, msg) = if *via == Via::HookLeave {
                            (self.staking.clone(), to_json_binary(&ExecuteMsg::Leave { receiver: recv }).unwrap())
                        } else {
                            (
                                self.pair.clone(),
                                to_json_binary(&pair::ExecuteMsg::Swap {
                                    offer_asset: astroport::asset::Asset::native(&self.xastro, m),
                                    ask_asset_info: None,
                                    belief_price: None,
                                    max_spread: None,
                                    to: recv,
                                })
                                .unwrap(),
                            )
                        };
                        // without a receiver the sender of the hook, staking itself, gets the ASTRO
                        let dest = to.unwrap_or(STAKING);
                        want.push((STAKING, 0, -(back as i128)));
                        want.push((dest, 0, back as i128));
                        self.c.execute(NAMES[u], &self.staking, &ExecuteMsg::EnterWithHook { contract_address: target, msg }, &funds)
                    }
                };
                let faulted = self.fault_mark(ctx);
                let ok = self.judge(&format!("enter_{via:?}"), &r, valid, faulted, &pre, &want, &["C21", "C12"], ctx);
                if ok {
                    let r = r.unwrap();
                    if s == 0 {
                        ctx.hit("probe.first_stake");
                        if d > 0 {
                            ctx.hit("probe.first_stake_after_donation");
                        }
                    }
                    if *via == Via::Direct {
                        let x: Option<StakingResponse> = r.data.as_ref().and_then(|d| from_json(d).ok());
                        ctx.check("C21", "response", x.as_ref().is_some_and(|x| x.astro_amount.u128() == a && x.xastro_amount.u128() == m), || format!("response {x:?}, staked {a} for {m}"));
                    }
                    if *via == Via::HookSink {
                        ctx.check("C21", "hook", attr(&r, &self.sink, "by") == Some(self.staking.as_str()) && attr(&r, &self.sink, "msg").is_some_and(|m| m.contains(&a.to_string())), || "the hook did not get the message".into());
                    }
                    if *via == Via::Pair {
                        ctx.check("C12", "simulated", quote == Ok(m), || format!("simulated {quote:?} xASTRO for {a}, received {m}"));
                        let at = attr_u(&r, &self.pair, "return_amount");
                        ctx.check("C12", "reported", at == m && attr_u(&r, &self.pair, "offer_amount") == a, || format!("the swap reports {at} xASTRO for {a}, paid {m}"));
                    }
                    self.record(0, true);
                    if *via == Via::HookLeave || *via == Via::HookPair {
                        ctx.hit("probe.enter_and_leave");
                    }
                }
            }
            Op::Leave { u, permille, to, via } => {
                let u = *u;
                let x = part(pre[u][1], *permille);
                let (d, s) = self.totals();
                let out = if s > 0 { muldiv(x, d, s) } else { 0 };
                let valid = x > 0 && x <= pre[u][1] && self.moves(0) && self.moves(1);
                let dest = to.unwrap_or(u);
                let want = [(u, 1, -(x as i128)), (sup, 1, -(x as i128)), (STAKING, 0, -(out as i128)), (dest, 0, out as i128)];
                let recv = to.map(|i| self.addr(i));
                let funds = coins(&[(&self.xastro, x)]);
                let quote = self.sim(&self.xastro.clone(), x);
                arm(&self.c);
                let r = if *via == Via::Direct {
                    self.c.execute(NAMES[u], &self.staking, &ExecuteMsg::Leave { receiver: recv }, &funds)
                } else {
                    self.c.execute(
                        NAMES[u],
                        &self.pair,
                        &pair::ExecuteMsg::Swap { offer_asset: astroport::asset::Asset::native(&self.xastro, x), ask_asset_info: None, belief_price: None, max_spread: None, to: recv },
                        &funds,
                    )
                };
                let faulted = self.fault_mark(ctx);
                if self.judge(&format!("leave_{via:?}"), &r, valid, faulted, &pre, &want, &["C21", "C12"], ctx) {
                    let r = r.unwrap();
                    if *via == Via::Direct {
                        let y: Option<StakingResponse> = r.data.as_ref().and_then(|d| from_json(d).ok());
                        ctx.check("C21", "response", y.as_ref().is_some_and(|y| y.astro_amount.u128() == out && y.xastro_amount.u128() == x), || format!("response {y:?}, left {x} for {out}"));
                    } else {
                        ctx.check("C12", "simulated", quote == Ok(out), || format!("simulated {quote:?} ASTRO for {x}, received {out}"));
                        let at = attr_u(&r, &self.pair, "return_amount");
                        ctx.check("C12", "reported", at == out && attr_u(&r, &self.pair, "offer_amount") == x, || format!("the swap reports {at} ASTRO for {x}, paid {out}"));
                    }
                    self.record(0, true);
                }
            }
            Op::Send { u, to, permille, tok } => {
                let x = part(pre[*u][*tok], *permille);
                let to = *to;
                let valid = x > 0 && x <= pre[*u][*tok] && self.moves(*tok);
                arm(&self.c);
                let r = self.c.send(NAMES[*u], &self.addr(to), &coins(&[(self.denom(*tok), x)]));
                let faulted = self.fault_mark(ctx);
                let want = [(*u, *tok, -(x as i128)), (to, *tok, x as i128)];
                if self.judge("send", &r, valid, faulted, &pre, &want, &["C22"], ctx) {
                    if *tok == 0 && to == STAKING {
                        ctx.hit("probe.donation");
                    }
                    if *tok > 0 {
                        self.record(*tok - 1, true);
                    }
                }
            }
            Op::Burst { u, tok, hops } => {
                let mut bal = pre.clone();
                let mut msgs: Vec<CosmosMsg> = vec![];
                let mut want = vec![];
                for (to, pm) in hops {
                    let to = *to;
                    let x = part(bal[*u][*tok], *pm);
                    if x == 0 || x > bal[*u][*tok] {
                        continue;
                    }
                    bal[*u][*tok] -= x;
                    bal[to][*tok] += x;
                    want.push((*u, *tok, -(x as i128)));
                    want.push((to, *tok, x as i128));
                    msgs.push(BankMsg::Send { to_address: self.addr(to), amount: coins(&[(self.denom(*tok), x)]) }.into());
                }
                if !msgs.is_empty() {
                    arm(&self.c);
                    let n = msgs.len();
                    let r = self.c.multi(NAMES[*u], msgs);
                    let faulted = self.fault_mark(ctx);
                    if self.judge("burst", &r, self.moves(*tok), faulted, &pre, &want, &["C22"], ctx) {
                        self.record(*tok - 1, true);
                        if n > 2 {
                            ctx.hit("probe.burst_in_one_tx");
                        }
                    }
                }
            }
            Op::Bad { u, what, amt } => {
                let a = amt.u128().min(pre[*u][0]).max(1);
                let x = self.xastro.clone();
                let swap = |d: &str, a: u128| pair::ExecuteMsg::Swap { offer_asset: astroport::asset::Asset::native(d, a), ask_asset_info: None, belief_price: None, max_spread: None, to: None };
                arm(&self.c);
                let r = match what {
                    0 => self.c.execute(NAMES[*u], &self.staking, &ExecuteMsg::Enter { receiver: None }, &coins(&[(THIRD, 10)])),
                    1 => self.c.execute(NAMES[*u], &self.staking, &ExecuteMsg::Enter { receiver: None }, &coins(&[(ASTRO, a), (THIRD, 10)])),
                    2 => self.c.execute(NAMES[*u], &self.staking, &ExecuteMsg::Enter { receiver: None }, &[]),
                    3 => self.c.execute(NAMES[*u], &self.staking, &ExecuteMsg::Leave { receiver: None }, &coins(&[(ASTRO, a)])),
                    4 => self.c.execute(NAMES[*u], &self.pair, &swap(ASTRO, a + 1), &coins(&[(ASTRO, a)])),
                    5 => self.c.execute(NAMES[*u], &self.pair, &swap(&x, a), &coins(&[(ASTRO, a)])),
                    6 => self.c.execute(NAMES[*u], &self.pair, &swap(THIRD, 10), &coins(&[(THIRD, 10)])),
                    7 => self.c.execute(
                        NAMES[*u],
                        &self.pair,
                        &pair::ExecuteMsg::ProvideLiquidity {
                            assets: vec![astroport::asset::Asset::native(ASTRO, a), astroport::asset::Asset::native(&x, 0u128)],
                            slippage_tolerance: Some(Decimal::percent(50)),
                            auto_stake: None,
                            receiver: None,
                            min_lp_to_receive: None,
                        },
                        &coins(&[(ASTRO, a)]),
                    ),
                    _ => self.c.execute(NAMES[*u], &self.pair, &pair::ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: None }, &coins(&[(ASTRO, a)])),
                };
                let faulted = self.fault_mark(ctx);
                self.judge(&format!("bad_{what}"), &r, false, faulted, &pre, &[], &["C21", "C12"], ctx);
            }
            Op::Mint { to, amt } => {
                let to = *to;
                let a = amt.u128();
                arm(&self.c);
                let r = self.c.send_msg(MINTER, tf_amt("MsgMint", TK, a, NAMES[to]));
                let faulted = self.fault_mark(ctx);
                if self.judge("mint", &r, self.moves(2), faulted, &pre, &[(to, 2, a as i128), (sup, 2, a as i128)], &["C22"], ctx) {
                    self.record(1, true);
                }
            }
            Op::Burn { from, permille } => {
                let x = part(pre[*from][2], *permille);
                let valid = x > 0 && x <= pre[*from][2] && self.moves(2);
                arm(&self.c);
                let r = self.c.send_msg(MINTER, tf_amt("MsgBurn", TK, x, NAMES[*from]));
                let faulted = self.fault_mark(ctx);
                if self.judge("burn", &r, valid, faulted, &pre, &[(*from, 2, -(x as i128)), (sup, 2, -(x as i128))], &["C22"], ctx) {
                    self.burnt = true;
                    // the chain tells before it burns: the new supply is seen with the next transfer
                    let t = self.unit(1);
                    self.hist[1].supply.set(t, pre[sup][2]);
                    self.record(1, false);
                }
            }
            Op::Foreign => {
                arm(&self.c);
                let r = self.c.send_msg(MINTER, tf_amt("MsgMint", TK2, 77, NAMES[0]));
                let faulted = self.fault_mark(ctx);
                self.judge("foreign_mint", &r, false, faulted, &pre, &[], &["C22"], ctx);
            }
            Op::Upgrade { by, again, heights } => {
                let who = if *again { OWNER } else { NAMES[*by] };
                let valid = who == OWNER && !self.new_api;
                arm(&self.c);
                let seconds = !(*heights && self.hist[1].supply.0.is_empty());
                let r = self.c.migrate(who, &self.trackers[1], self.new_code, &json!({"track_over_seconds": seconds}));
                let faulted = self.fault_mark(ctx);
                if self.judge("upgrade", &r, valid, faulted, &pre, &[], &["C22"], ctx) {
                    self.new_api = true;
                    self.seconds = seconds;
                    ctx.hit(if seconds { "probe.tracker_upgraded" } else { "probe.tracker_upgraded_to_heights" });
                }
            }
            Op::Tracker { which, dead } => {
                self.dead[*which] = *dead;
                let mut s = self.c.0.borrow_mut();
                if *dead {
                    ctx.hit("fault.tracker_down");
                    s.dead_contracts.insert(self.trackers[*which].clone());
                } else {
                    s.dead_contracts.remove(&self.trackers[*which]);
                }
            }
            Op::Freeze { tok } => {
                self.frozen = *tok;
                let mut s = self.c.0.borrow_mut();
                s.frozen_denoms.clear();
                if let Some(t) = tok {
                    ctx.hit("fault.denom_frozen");
                    s.frozen_denoms.insert(self.denom(*t).to_string());
                }
            }
            Op::Quote { amt } => self.quotes(amt.u128(), ctx),
            Op::Idle => {}
        }
        self.started |= pre[sup][1] > 0;
        self.checks(&pre, ctx);
    }

    fn finish(&mut self, ctx: &mut Ctx) {
        // faults stop: everything works again, and what was recorded meanwhile is right
        {
            let mut s = self.c.0.borrow_mut();
            s.dead_contracts.clear();
            s.frozen_denoms.clear();
        }
        self.dead = [false; 2];
        self.frozen = None;
        for dt in [0, 7] {
            self.c.advance(dt, dt.min(1));
            let pre = self.snap();
            ctx.step += 4 - ctx.step % 4;
            self.checks(&pre, ctx);
        }
    }
    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now() - 1_700_000_000
    }
}

fn part(have: u128, permille: u64) -> u128 {
    match permille {
        1001 => have + 1,
        x => muldiv(have, x as u128, 1000).max((have > 0) as u128),
    }
}

impl TokScn {
    /// quotes equal what the staking contract does, and asking for anything else is refused
    fn quotes(&self, a: u128, ctx: &mut Ctx) {
        if !ctx.on("C12") {
            return;
        }
        let (d, s) = self.totals();
        let x = self.xastro.clone();
        let q = self.sim(ASTRO, a);
        let want = Self::mint_for(d, s, a).map(|m| m.0);
        // an amount too small to stake may be quoted as zero or refused
        ctx.check("C12", "quote-stake", q.as_ref().ok().copied().filter(|q| *q > 0) == want, || format!("{a} ASTRO quoted as {q:?} at {d}/{s}, staking gives {want:?}"));
        let q = self.sim(&x, a);
        let want = (s > 0 && a <= s).then(|| muldiv(a, d, s));
        ctx.check("C12", "quote-unstake", q.clone().ok() == want, || format!("{a} xASTRO quoted as {q:?} at {d}/{s}, staking gives {want:?}"));
        if s > 0 {
            // offering the quoted amount yields what was asked, up to the rounding of one unit on either side
            let q = self.rev(&x, a.min(s));
            if let Ok(o) = q {
                let got = muldiv(o, s, d);
                ctx.check("C12", "reverse-stake", got <= a.min(s) && a.min(s) - got <= 1, || format!("asked {} xASTRO, quoted {o} ASTRO at {d}/{s}, they give {got}", a.min(s)));
            } else {
                ctx.check("C12", "reverse-stake", false, || format!("asking {} xASTRO: {q:?}", a.min(s)));
            }
            let q = self.rev(ASTRO, a.min(d));
            let want = muldiv(a.min(d), s, d);
            ctx.check("C12", "reverse-unstake", q == Ok(want), || format!("asked {} ASTRO at {d}/{s}: {q:?}, worth {want} xASTRO", a.min(d)));
        }
        ctx.check("C12", "quote-other", self.sim(THIRD, a).is_err() && self.rev(THIRD, a).is_err(), || "a third asset was quoted".into());
        let p: Result<pair::PoolResponse, String> = self.c.query(&self.pair, &pair::QueryMsg::Pool {});
        ctx.check("C12", "pool", p.as_ref().is_ok_and(|p| p.total_share.is_zero() && p.assets.len() == 2 && p.assets.iter().all(|a| a.amount.is_zero())), || format!("the pair has no liquidity, reports {p:?}"));
    }
}
