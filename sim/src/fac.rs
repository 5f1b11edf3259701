//! Factory and router over several pools: the pair registry against a reference map, and every route against the same
//! hops executed one by one by the user on a forked copy of the chain. Oracles of C14 and C15.

use crate::chain::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::world::dex::*;
use crate::world::*;
use astroport::asset::{AssetInfo, PairInfo};
use astroport::factory::{ConfigResponse, ExecuteMsg, FeeInfoResponse, PairConfig, PairType, PairsResponse, QueryMsg};
use astroport::pair::{self, ReverseSimulationResponse, SimulationResponse, StablePoolParams};
use astroport::pair_concentrated::ConcentratedPoolParams;
use astroport::router::{self, SwapOperation, SwapResponseData};
use cosmwasm_std::{from_json, to_json_binary, Coin, CosmosMsg, Decimal, DepsMut, Env, MessageInfo, Response, Uint128};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

type U = Uint128;
const USERS: usize = 4;
const NAMES: [&str; 6] = ["user0", "user1", "user2", "user3", "owner", "feesink"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TypeCfg {
    total: u16,
    maker: u16,
    perm: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    toks: Vec<Tok>,
    types: Vec<TypeCfg>,
    /// pools created and funded at the start: (type, a, b, liquidity in tokens)
    pools: Vec<(usize, usize, usize, u64)>,
    /// denoms whose concatenations coincide
    collide: bool,
    fee_addr: bool,
    generator: bool,
    #[serde(default)]
    no_tracker: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Create { u: usize, ptype: usize, toks: Vec<usize>, quirk: u8 },
    Deregister { u: usize, toks: Vec<usize> },
    PairCfg { u: usize, ptype: usize, total: u16, maker: u16, disabled: bool, gen_disabled: bool, perm: bool },
    FacCfg {
        u: usize,
        fee: Option<usize>,
        bad: bool,
        /// 1: token code, 2: coin registry
        #[serde(default)]
        more: u8,
    },
    Tracker { u: usize, code: u64, addr: bool },
    /// a separate factory with these settings: 1 bad owner, 2 bad registry, 3 bad fee receiver, 4 bad generator, 5 bad module
    NewFactory { dup: bool, total: u16, maker: u16, bad: u8, tracker: bool },
    Provide { u: usize, p: usize, amt: U, skew: u64 },
    Withdraw { u: usize, p: usize, pct: u64 },
    Swap { u: usize, p: usize, from: usize, amt: U },
    Route { u: usize, path: Vec<usize>, amt: U, min: Option<(u64, u64)>, to: Option<usize>, spread_bps: Option<u64>, quirk: u8 },
    Quote { path: Vec<usize>, amt: U, rev: bool },
    ToRouter { u: usize, tok: usize, amt: U },
    /// a token on the route starts another route while it is transferred (after `skip` transfers)
    Nested { u: usize, path: Vec<usize>, amt: U, min: (u64, u64), tok: usize, skip: u8, inner: Vec<usize>, inner_amt: U },
    Idle,
}

struct Rec {
    ptype: usize,
    set: BTreeSet<usize>,
    addr: String,
    lp: String,
}

pub struct FacScn {
    c: Chain,
    d: Dex,
    router: String,
    a: Vec<Asst>,
    recs: Vec<Rec>,
    /// pools that were deregistered
    gone: Vec<Rec>,
    types: Vec<PairConfig>,
    fee_addr: Option<String>,
    whitelist: u64,
    token_code: u64,
    touched: Option<usize>,
    registries: [String; 2],
    registry: usize,
    generator: Option<String>,
    tracker: Option<(u64, String)>,
    collide: bool,
}

/// cw20-base, except that it may call another contract while it transfers
fn hook_exec(d: DepsMut, e: Env, i: MessageInfo, m: cw20_base::msg::ExecuteMsg) -> Result<Response, String> {
    use cw20_base::msg::ExecuteMsg::{Send, Transfer};
    let moves = matches!(m, Transfer { .. } | Send { .. });
    let mut call = None;
    if let Some(v) = d.storage.get(HOOK).filter(|v| moves && !v.is_empty()) {
        if v[0] == 0 {
            d.storage.remove(HOOK);
            call = Some(from_json::<CosmosMsg>(&v[1..]).map_err(|e| e.to_string())?);
        } else {
            d.storage.set(HOOK, &[&[v[0] - 1], &v[1..]].concat());
        }
    }
    let r = cw20_base::contract::execute(d, e, i, m).map_err(|e| e.to_string())?;
    Ok(r.add_messages(call))
}
const HOOK: &[u8] = b"hook_call";

fn ptype(i: usize) -> PairType {
    match i {
        0 => PairType::Xyk {},
        1 => PairType::Stable {},
        2 => PairType::Custom("concentrated".into()),
        3 => PairType::Custom("transmuter".into()),
        _ => PairType::Custom("unheard-of".into()),
    }
}

impl FacScn {
    fn key(&self, toks: &[usize]) -> Vec<u8> {
        let mut v: Vec<&[u8]> = toks.iter().map(|t| self.a[*t].id.as_bytes()).collect();
        v.sort();
        v.concat()
    }
    fn rec(&self, toks: &[usize]) -> Option<&Rec> {
        let s: BTreeSet<usize> = toks.iter().copied().collect();
        self.recs.iter().find(|r| r.set == s)
    }
    fn infos(&self, toks: &[usize]) -> Vec<AssetInfo> {
        toks.iter().map(|t| self.a[*t].info.clone()).collect()
    }
    fn init(t: usize) -> Option<cosmwasm_std::Binary> {
        match t {
            1 => to_json_binary(&StablePoolParams { amp: 100, owner: None }).ok(),
            2 => to_json_binary(&ConcentratedPoolParams {
                amp: Decimal::from_ratio(40u8, 1u8),
                gamma: Decimal::permille(1),
                mid_fee: Decimal::permille(2),
                out_fee: Decimal::permille(4),
                fee_gamma: Decimal::permille(1),
                repeg_profit_threshold: Decimal::zero(),
                min_price_scale_delta: Decimal::permille(1),
                price_scale: Decimal::one(),
                ma_half_time: 600,
                track_asset_balances: None,
                fee_share: None,
            })
            .ok(),
            _ => None,
        }
    }
    fn bals(&self) -> Vec<Vec<u128>> {
        (0..NAMES.len() + 1)
            .map(|i| {
                let w = if i < NAMES.len() { NAMES[i] } else { self.router.as_str() };
                self.a.iter().map(|t| t.bal(&self.c, w)).collect()
            })
            .collect()
    }
    fn fault_mark(&self, ctx: &mut Ctx) -> bool {
        let k = self.c.0.borrow().fault_fired.clone();
        if let Some(k) = k {
            ctx.hit(match k {
                FaultKind::Fail => "fault.tx_failed_mid",
                FaultKind::OutOfGas => "fault.out_of_gas",
                FaultKind::FailAfter => "fault.tx_failed_after",
            });
            true
        } else {
            false
        }
    }

    fn create(&mut self, u: usize, t: usize, toks: &[usize], quirk: u8, ctx: &mut Ctx) {
        let set: BTreeSet<usize> = toks.iter().copied().collect();
        let dup = set.len() != toks.len();
        let exists = self.recs.iter().any(|r| r.set == set);
        let k = self.key(toks);
        // distinct sets of assets whose registry keys coincide: finding of the key format
        let clash = !exists && self.recs.iter().any(|r| self.key(&r.set.iter().copied().collect::<Vec<_>>()) == k);
        let n_ok = match t {
            0..=2 => toks.len() == 2,
            3 => (2..=5).contains(&toks.len()) && toks.iter().all(|x| self.a[*x].native),
            _ => false,
        };
        let conf = self.types.get(t);
        let allowed = conf.is_some_and(|c| !c.is_disabled && (!c.permissioned || NAMES[u] == OWNER));
        let mut infos = self.infos(toks);
        let mut valid = n_ok && !dup && !exists && allowed;
        let mut init = Self::init(t);
        match quirk {
            1 => {
                infos[0] = AssetInfo::native("unregistered");
                // constant-product pools do not ask for decimals
                valid = valid && t == 0 && false;
            }
            2 => {
                if t == 1 || t == 2 {
                    init = None;
                    valid = false;
                }
            }
            _ => {}
        }
        let pre = self.c.state_digest_of(&self.d.factory);
        let armed = self.c.0.borrow().fault.is_some();
        let r = self.c.execute(
            NAMES[u],
            &self.d.factory,
            &ExecuteMsg::CreatePair { pair_type: ptype(t), asset_infos: infos.clone(), init_params: init },
            &[],
        );
        self.fault_mark(ctx);
        if quirk == 1 && t == 0 {
            // not judged: whether an unknown denom may be paired is up to the pool type
            if r.is_ok() {
                let _ = self.c.execute(OWNER, &self.d.factory, &ExecuteMsg::Deregister { asset_infos: infos }, &[]);
            }
            return;
        }
        let what = || format!("create {} over {:?} by {}", ptype(t), toks, NAMES[u]);
        match &r {
            Ok(o) => {
                ctx.check("C14", "create-accepted", valid && !clash, || {
                    format!("{} was accepted (known type and allowed: {allowed}, already registered: {exists}, duplicate assets: {dup})", what())
                });
                let addr = attr(o, &self.d.factory, "pair_contract_addr").unwrap_or("").to_string();
                let admin = self.c.0.borrow().contracts.get(&addr).and_then(|i| i.admin.clone());
                ctx.check("C14", "pair-admin", admin.as_deref() == Some(OWNER), || format!("{}: contract {addr:?} has admin {admin:?}", what()));
                let pi: Result<PairInfo, String> = self.c.query(&addr, &pair::QueryMsg::Pair {});
                let lp = pi.map(|p| p.liquidity_token).unwrap_or_default();
                self.recs.push(Rec { ptype: t, set, addr, lp });
            }
            Err(e) => {
                if clash && valid && !armed {
                    ctx.violate("C14", "pair-key-collision", format!("{} was refused because its registry key equals that of a different set of assets: {e}", what()));
                } else {
                    ctx.check("C14", "create-refused", !valid || armed, || format!("{} was refused: {e}", what()));
                }
                ctx.check("C14", "failed-create-traceless", self.c.state_digest_of(&self.d.factory) == pre, || format!("{} failed but changed the factory's state", what()));
            }
        }
        ctx.outcome("create_pair", r.is_ok(), &r.err().unwrap_or_default());
    }

    fn check_registry(&self, ctx: &mut Ctx) {
        let f = &self.d.factory;
        // lookups, in both orders
        for r in &self.recs {
            let mut v: Vec<usize> = r.set.iter().copied().collect();
            for _ in 0..2 {
                let p: Result<PairInfo, String> = self.c.query(f, &QueryMsg::Pair { asset_infos: self.infos(&v) });
                let good = p.as_ref().is_ok_and(|p| {
                    p.contract_addr.as_str() == r.addr
                        && p.liquidity_token == r.lp
                        && p.pair_type == ptype(r.ptype)
                        && p.asset_infos.len() == v.len()
                        && v.iter().all(|t| p.asset_infos.contains(&self.a[*t].info))
                });
                ctx.check("C14", "lookup", good, || format!("lookup of {v:?} expecting {} gives {p:?}", r.addr));
                v.reverse();
            }
        }
        for i in 0..self.a.len() {
            for j in 0..i {
                if self.rec(&[i, j]).is_none() {
                    let p: Result<PairInfo, String> = self.c.query(f, &QueryMsg::Pair { asset_infos: self.infos(&[i, j]) });
                    if p.is_ok() && self.recs.iter().any(|r| self.key(&r.set.iter().copied().collect::<Vec<_>>()) == self.key(&[i, j])) {
                        ctx.violate("C14", "pair-key-collision", format!("looking up assets {:?} answers with the pair of a different set of assets whose registry key is equal", [&self.a[i].id, &self.a[j].id]));
                    } else {
                        ctx.check("C14", "lookup-absent", p.is_err(), || format!("there is no pair of {i} and {j}, but the factory answers {p:?}"));
                    }
                }
            }
        }
        // every page size walks the whole registry once
        let want: BTreeSet<&str> = self.recs.iter().map(|r| r.addr.as_str()).collect();
        for limit in [None, Some(1 + (ctx.step as u32 % 5)), Some(30), Some(100)] {
            let mut seen: Vec<String> = vec![];
            let mut after: Option<Vec<AssetInfo>> = None;
            let max = limit.unwrap_or(10).min(30) as usize;
            loop {
                let p: Result<PairsResponse, String> = self.c.query(f, &QueryMsg::Pairs { start_after: after.clone(), limit });
                let Ok(p) = p else {
                    ctx.violate("C14", "pages", format!("page with limit {limit:?} after {after:?} failed: {:?}", p.err()));
                    return;
                };
                ctx.check("C14", "page-size", p.pairs.len() <= max && (p.pairs.len() == max || seen.len() + p.pairs.len() >= want.len()), || {
                    format!("a page of at most {max} has {} of {} pairs left", p.pairs.len(), want.len() - seen.len().min(want.len()))
                });
                if p.pairs.is_empty() || seen.len() > 4 * want.len() + 4 {
                    break;
                }
                after = p.pairs.last().map(|x| x.asset_infos.clone());
                seen.extend(p.pairs.iter().map(|x| x.contract_addr.to_string()));
            }
            let set: BTreeSet<&str> = seen.iter().map(|s| s.as_str()).collect();
            ctx.check("C14", "pages", set == want && seen.len() == want.len(), || {
                format!("walking the pairs {limit:?} at a time lists {} entries ({} distinct), registered are {}", seen.len(), set.len(), want.len())
            });
        }
        // a page may start anywhere, also at assets without a pair
        let nt = self.a.len();
        let i = ctx.step % nt;
        let from = [i, (i + 1 + ctx.step / nt % (nt - 1)) % nt];
        let infos: Vec<AssetInfo> = from.iter().map(|t| self.a[*t].info.clone()).collect();
        let key = |s: &mut dyn Iterator<Item = usize>| {
            let mut v: Vec<&str> = s.map(|t| self.a[t].id.as_str()).collect();
            v.sort();
            v.concat()
        };
        let at = key(&mut from.iter().copied());
        let mut rest: Vec<(String, &str)> = self.recs.iter().map(|r| (key(&mut r.set.iter().copied()), r.addr.as_str())).filter(|r| r.0 > at).collect();
        rest.sort();
        let p: Result<PairsResponse, String> = self.c.query(f, &QueryMsg::Pairs { start_after: Some(infos), limit: Some(3) });
        let got: Option<Vec<String>> = p.ok().map(|p| p.pairs.iter().map(|x| x.contract_addr.to_string()).collect());
        let want: Vec<String> = rest.iter().take(3).map(|r| r.1.to_string()).collect();
        ctx.check("C14", "pages", got.as_ref() == Some(&want), || format!("pairs after those of {from:?}: {got:?}, expected {want:?}"));
        if self.recs.len() > 30 {
            ctx.hit("probe.more_than_thirty_pairs");
        }
        // pair type configuration
        for (i, t) in self.types.iter().enumerate() {
            let fi: Result<FeeInfoResponse, String> = self.c.query(f, &QueryMsg::FeeInfo { pair_type: ptype(i) });
            let good = fi.as_ref().is_ok_and(|x| {
                x.total_fee_bps == t.total_fee_bps && x.maker_fee_bps == t.maker_fee_bps && x.fee_address.as_ref().map(|a| a.to_string()) == self.fee_addr
            });
            ctx.check("C14", "fee-info", good, || format!("fee info of {}: {fi:?}, set were {}/{} bps and receiver {:?}", t.pair_type, t.total_fee_bps, t.maker_fee_bps, self.fee_addr));
        }
        let black: Result<Vec<PairType>, String> = self.c.query(f, &QueryMsg::BlacklistedPairTypes {});
        let want: Vec<PairType> = self.types.iter().filter(|t| t.is_disabled || t.is_generator_disabled).map(|t| t.pair_type.clone()).collect();
        ctx.check("C14", "blacklist", black.as_ref().is_ok_and(|b| b.len() == want.len() && want.iter().all(|w| b.contains(w))), || format!("blacklisted types {black:?}, expected {want:?}"));
        let cf: Result<ConfigResponse, String> = self.c.query(f, &QueryMsg::Config {});
        let good = cf.as_ref().is_ok_and(|c| {
            c.owner == OWNER
                && c.whitelist_code_id == self.whitelist
                && c.token_code_id == self.token_code
                && c.coin_registry_address == self.registries[self.registry]
                && c.fee_address.as_ref().map(|a| a.to_string()) == self.fee_addr
                && c.generator_address.as_ref().map(|a| a.to_string()) == self.generator
                && c.pair_configs.len() == self.types.len()
                && self.types.iter().all(|t| c.pair_configs.contains(t))
        });
        ctx.check("C14", "config", good, || format!("factory configuration {cf:?}, last accepted: fee receiver {:?}, registry {}, codes {} and {}", self.fee_addr, self.registries[self.registry], self.token_code, self.whitelist));
        let tr: Result<astroport::factory::TrackerConfig, String> = self.c.query(f, &QueryMsg::TrackerConfig {});
        let got = tr.as_ref().ok().map(|t| (t.code_id, t.token_factory_addr.clone()));
        ctx.check("C14", "tracker-config", got == self.tracker, || format!("tracker configuration {tr:?}, last accepted {:?}", self.tracker));
        let rc: Result<router::ConfigResponse, String> = self.c.query(&self.router, &router::QueryMsg::Config {});
        ctx.check("C14", "config", rc.as_ref().is_ok_and(|c| c.astroport_factory == *f), || format!("router configuration {rc:?}"));
    }

    /// swaps the whole `amt` of asset `a` into `b` as a plain user of the pool
    fn hop(c: &Chain, who: &str, pair: &str, a: &Asst, b: &Asst, amt: u128, belief: Option<Decimal>, spread: Option<Decimal>, to: Option<&str>) -> TxResult {
        if a.native {
            c.execute(
                who,
                pair,
                &pair::ExecuteMsg::Swap {
                    offer_asset: a.with(amt),
                    ask_asset_info: Some(b.info.clone()),
                    belief_price: belief,
                    max_spread: spread,
                    to: to.map(|s| s.to_string()),
                },
                &[Coin::new(amt, &a.id)],
            )
        } else {
            c.execute(
                who,
                &a.id,
                &cw20::Cw20ExecuteMsg::Send {
                    contract: pair.into(),
                    amount: U::new(amt),
                    msg: to_json_binary(&pair::Cw20HookMsg::Swap {
                        ask_asset_info: Some(b.info.clone()),
                        belief_price: belief,
                        max_spread: spread,
                        to: to.map(|s| s.to_string()),
                    })
                    .unwrap(),
                },
                &[],
            )
        }
    }

    fn ops(&self, path: &[usize]) -> Vec<SwapOperation> {
        path.windows(2)
            .map(|w| SwapOperation::AstroSwap { offer_asset_info: self.a[w[0]].info.clone(), ask_asset_info: self.a[w[1]].info.clone() })
            .collect()
    }

    #[allow(clippy::too_many_arguments)]
    fn route(&mut self, u: usize, path: &[usize], amt: u128, min: Option<(u64, u64)>, to: Option<usize>, spread: Option<u64>, quirk: u8, ctx: &mut Ctx) {
        let hops = path.len().saturating_sub(1);
        let quirk = if quirk == 2 && (hops < 2 || path[2] == path[0]) { 0 } else { quirk };
        let who = NAMES[u];
        let recv = to.map_or(who, |t| NAMES[t]);
        let max_spread = spread.map(|b| Decimal::from_ratio(b, 10_000u64));
        let mut ops = self.ops(path);
        let mut well_formed = hops > 0 && hops <= 50 && path.windows(2).all(|w| w[0] != w[1]);
        match quirk {
            1 => {
                ops.insert(0, SwapOperation::NativeSwap { offer_denom: "utok0".into(), ask_denom: "utok1".into() });
                well_formed = false;
            }
            // swapped hops still chain when the path returns to its start
            2 if path[2] != path[0] => {
                ops.swap(0, 1);
                well_formed = false;
            }
            _ => {}
        }
        let (Some(&first), Some(&last)) = (path.first(), path.last()) else { return };
        // what the same hops would give the user one by one, on a copy of the chain
        let f = self.c.fork();
        let mut expect: Option<u128> = Some(amt);
        let mut stray = vec![];
        if well_formed && quirk == 0 {
            let mut cur = amt;
            for (i, w) in path.windows(2).enumerate() {
                let (a, b) = (&self.a[w[0]], &self.a[w[1]]);
                // the router swaps everything it holds, so strays join in
                let left = a.bal(&f, &self.router);
                if left > 0 {
                    stray.push(w[0]);
                    if a.transfer(&f, &self.router, who, left).is_err() {
                        expect = None;
                        break;
                    }
                    cur += left;
                }
                let Some(rec) = self.rec(w) else {
                    expect = None;
                    break;
                };
                let end = if i + 1 == hops { recv } else { who };
                let b0 = b.bal(&f, end);
                let belief = (hops > 1).then_some(Decimal::MAX);
                if Self::hop(&f, who, &rec.addr, a, b, cur, belief, max_spread, Some(end)).is_err() {
                    expect = None;
                    break;
                }
                cur = b.bal(&f, end) - b0;
                expect = Some(cur);
            }
        } else {
            expect = None;
        }
        let quote: Option<u128> = self
            .c
            .query::<router::SimulateSwapOperationsResponse>(&self.router, &router::QueryMsg::SimulateSwapOperations { offer_amount: U::new(amt), operations: ops.clone() })
            .ok()
            .map(|x| x.amount.u128());
        let minimum = min.map(|(k, add)| muldiv(expect.or(quote).unwrap_or(amt), k as u128, 1000) + add as u128);
        let pre = self.bals();
        let dig = self.c.digest();
        let armed = self.c.0.borrow().fault.is_some();
        let a0 = &self.a[first];
        let r = if quirk == 3 {
            self.c.execute(
                who,
                &self.router,
                &router::ExecuteMsg::ExecuteSwapOperation { operation: ops.first().cloned().unwrap_or(SwapOperation::NativeSwap { offer_denom: "a".into(), ask_denom: "b".into() }), to: Some(who.into()), max_spread, single: true },
                &if a0.native { vec![Coin::new(amt, &a0.id)] } else { vec![] },
            )
        } else if a0.native {
            self.c.execute(
                who,
                &self.router,
                &router::ExecuteMsg::ExecuteSwapOperations { operations: ops, minimum_receive: minimum.map(U::new), to: to.map(|t| NAMES[t].into()), max_spread },
                &[Coin::new(amt, &a0.id)],
            )
        } else {
            self.c.execute(
                who,
                &a0.id,
                &cw20::Cw20ExecuteMsg::Send {
                    contract: self.router.clone(),
                    amount: U::new(amt),
                    msg: to_json_binary(&router::Cw20HookMsg::ExecuteSwapOperations { operations: ops, minimum_receive: minimum.map(U::new), to: to.map(|t| NAMES[t].into()), max_spread }).unwrap(),
                },
                &[],
            )
        };
        self.fault_mark(ctx);
        let what = || format!("route {path:?} of {amt} by {who} to {recv} (minimum {minimum:?}, spread {spread:?})");
        match &r {
            Ok(o) => {
                ctx.check("C15", "malformed-route", well_formed && quirk != 3, || format!("{} was accepted although it is malformed (quirk {quirk})", what()));
                let post = self.bals();
                let ri = to.unwrap_or(u);
                let mut want: Vec<Vec<u128>> = pre.clone();
                want[u][first] -= amt;
                let got = (post[ri][last] + if ri == u && first == last { amt } else { 0 }).saturating_sub(pre[ri][last]);
                want[ri][last] += got;
                if let Some(m) = minimum {
                    ctx.check("C15", "minimum-receive", got >= m, || format!("{} delivered only {got}", what()));
                }
                match expect {
                    None => ctx.violate("C15", "impossible-route", format!("{} went through, although its hops do not work one by one", what())),
                    Some(e) => ctx.check("C15", "delivers-hop-by-hop", got == e, || format!("{} delivered {got}, the same hops one by one deliver {e}", what())),
                }
                // nobody else's balance moves; the router keeps nothing of the assets on the way
                let feei = 5;
                for i in 0..USERS {
                    for t in 0..self.a.len() {
                        ctx.check("C15", "only-offer-taken", post[i][t] == want[i][t], || {
                            format!("{}: {} has {} of asset {t}, expected {}", what(), NAMES[i], post[i][t], want[i][t])
                        });
                    }
                }
                let _ = feei;
                for t in path.iter().take(hops) {
                    ctx.check("C15", "router-keeps-nothing", post[NAMES.len()][*t] == 0, || format!("{} left {} of asset {t} in the router", what(), post[NAMES.len()][*t]));
                }
                if a0.native {
                    let data: Option<SwapResponseData> = o.data.as_ref().and_then(|d| from_json(d).ok());
                    ctx.check("C15", "reported-return", data.as_ref().is_some_and(|d| d.return_amount.u128() == got), || format!("{} delivered {got} and reported {data:?}", what()));
                }
                let pools: Vec<BTreeSet<usize>> = path.windows(2).map(|w| w.iter().copied().collect()).collect();
                let once = pools.iter().collect::<BTreeSet<_>>().len() == pools.len();
                if once && stray.is_empty() {
                    ctx.check("C15", "quote", quote == Some(got), || format!("{} was quoted {quote:?} and delivered {got}", what()));
                }
                if hops > 1 {
                    ctx.hit("probe.multi_hop");
                }
                if !once {
                    ctx.hit("probe.same_pool_twice");
                }
            }
            Err(e) => {
                ctx.check("C15", "failed-route-traceless", self.c.digest() == dig, || format!("{} failed but changed state", what()));
                let must = well_formed && quirk == 0 && expect.is_some_and(|x| minimum.is_none_or(|m| x >= m));
                ctx.check("C15", "route-refused", !must || armed, || format!("{} was refused, although the hops one by one deliver {expect:?}: {e}", what()));
            }
        }
        ctx.outcome(if hops > 1 { "route_multi" } else { "route" }, r.is_ok(), &r.err().unwrap_or_default());
    }

    #[allow(clippy::too_many_arguments)]
    fn nested(&mut self, u: usize, path: &[usize], amt: u128, min: (u64, u64), tok: usize, skip: u8, inner: &[usize], inner_amt: u128, ctx: &mut Ctx) {
        let who = NAMES[u];
        let (first, last) = (path[0], path[path.len() - 1]);
        let evil = self.a[tok].id.clone();
        let swap = |path: &[usize], amt: u128, min: Option<u128>| {
            let a = &self.a[path[0]];
            let (operations, minimum_receive) = (self.ops(path), min.map(U::new));
            if a.native {
                let msg = router::ExecuteMsg::ExecuteSwapOperations { operations, minimum_receive, to: None, max_spread: None };
                (self.router.clone(), to_json_binary(&msg).unwrap(), vec![Coin::new(amt, &a.id)])
            } else {
                let hook = router::Cw20HookMsg::ExecuteSwapOperations { operations, minimum_receive, to: None, max_spread: None };
                let msg = cw20::Cw20ExecuteMsg::Send { contract: self.router.clone(), amount: U::new(amt), msg: to_json_binary(&hook).unwrap() };
                (a.id.clone(), to_json_binary(&msg).unwrap(), vec![])
            }
        };
        // what the route delivers if nobody interferes
        let f = self.c.fork();
        let b0 = self.a[last].bal(&f, who);
        let (to, msg, funds) = swap(path, amt, None);
        let plain: Value = from_json(&msg).unwrap();
        let quote = match f.execute(who, &to, &plain, &funds) {
            Ok(_) => self.a[last].bal(&f, who).saturating_sub(b0),
            Err(_) => amt,
        };
        let fault = self.c.0.borrow_mut().fault.take();
        let _ = self.a[inner[0]].transfer(&self.c, OWNER, &evil, inner_amt);
        self.c.0.borrow_mut().fault = fault;
        let minimum = muldiv(quote, min.0 as u128, 1000) + min.1 as u128;
        let (to, msg, funds) = swap(inner, inner_amt, None);
        let call: CosmosMsg = cosmwasm_std::WasmMsg::Execute { contract_addr: to, msg, funds }.into();
        self.c.raw_store_set(&evil, HOOK, &[&[skip], to_json_binary(&call).unwrap().as_slice()].concat());
        let (to, msg, funds) = swap(path, amt, Some(minimum));
        let msg: Value = from_json(&msg).unwrap();
        let pre = self.bals();
        let dig = self.c.digest();
        let r = self.c.execute(who, &to, &msg, &funds);
        self.fault_mark(ctx);
        let what = || format!("route {path:?} of {amt} by {who} with minimum {minimum}, during which token {tok} swaps {inner_amt} along {inner:?}");
        match &r {
            Ok(o) => {
                let post = self.bals();
                let got = (post[u][last] + if first == last { amt } else { 0 }).saturating_sub(pre[u][last]);
                ctx.check("C15", "minimum-receive", got >= minimum, || format!("{} delivered only {got}", what()));
                if self.a[first].native {
                    let data: Option<SwapResponseData> = o.data.as_ref().and_then(|d| from_json(d).ok());
                    ctx.check("C15", "reported-return", data.as_ref().is_some_and(|d| d.return_amount.u128() == got), || format!("{} delivered {got} and reported {data:?}", what()));
                }
                if self.c.raw_store_get(&evil, HOOK).is_none_or(|v| v.is_empty()) {
                    ctx.hit("fault.nested_route");
                }
            }
            Err(_) => ctx.check("C15", "failed-route-traceless", self.c.digest() == dig, || format!("{} failed but changed state", what())),
        }
        self.c.raw_store_set(&evil, HOOK, &[]);
        ctx.outcome("route_nested", r.is_ok(), &r.err().unwrap_or_default());
    }

    fn quote(&self, path: &[usize], amt: u128, rev: bool, ctx: &mut Ctx) {
        let ops = self.ops(path);
        let bad = path.len() < 2 || path.windows(2).any(|w| w[0] == w[1]) || path.len() > 51;
        let mut cur = Some(amt);
        if bad {
            cur = None;
        } else if rev {
            for w in path.windows(2).collect::<Vec<_>>().iter().rev() {
                cur = cur.and_then(|x| {
                    let r = self.rec(w)?;
                    self.c
                        .query::<ReverseSimulationResponse>(&r.addr, &pair::QueryMsg::ReverseSimulation { offer_asset_info: Some(self.a[w[0]].info.clone()), ask_asset: self.a[w[1]].with(x) })
                        .ok()
                        .map(|x| x.offer_amount.u128())
                });
            }
        } else {
            for w in path.windows(2) {
                cur = cur.and_then(|x| {
                    let r = self.rec(w)?;
                    self.c
                        .query::<SimulationResponse>(&r.addr, &pair::QueryMsg::Simulation { offer_asset: self.a[w[0]].with(x), ask_asset_info: Some(self.a[w[1]].info.clone()) })
                        .ok()
                        .map(|x| x.return_amount.u128())
                });
            }
        }
        let got = if rev {
            self.c.query::<U>(&self.router, &router::QueryMsg::ReverseSimulateSwapOperations { ask_amount: U::new(amt), operations: ops }).map(|x| x.u128())
        } else {
            self.c.query::<router::SimulateSwapOperationsResponse>(&self.router, &router::QueryMsg::SimulateSwapOperations { offer_amount: U::new(amt), operations: ops }).map(|x| x.amount.u128())
        };
        ctx.check("C15", "quote-composition", got.as_ref().ok().copied() == cur, || format!("{} quote of {amt} over {path:?} is {got:?}, the pools' quotes compose to {cur:?}", if rev { "reverse" } else { "forward" }));
    }
}

impl Scenario for FacScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "factory-router";

    fn cfg(rng: &mut Rng, prop: &str, thorough: bool) -> (Cfg, Sched) {
        let many = prop == "C14" && rng.permille(30);
        let collide = prop == "C14" && !many && rng.pct(4);
        let n = if many { 9 } else { rng.range(3, 5) as usize };
        let toks: Vec<Tok> = (0..n).map(|_| Tok { cw20: !many && !collide && rng.pct(40), dec: *rng.pick(&[6, 6, 6, 8, 18]) }).collect();
        let types = (0..4)
            .map(|_| TypeCfg { total: *rng.pick(&[0, 5, 30, 100]), maker: *rng.pick(&[0, 3333, 10_000]), perm: prop == "C14" && rng.pct(10) })
            .collect();
        let mut pools = vec![];
        for i in 0..n {
            for j in 0..i {
                if many || (!collide && rng.pct(if prop == "C15" { 75 } else { 40 })) {
                    let t = if many {
                        0
                    } else if toks[i].cw20 || toks[j].cw20 {
                        rng.idx(3)
                    } else {
                        rng.idx(4)
                    };
                    pools.push((t, i, j, if many { 0 } else { rng.log(1_000, 10_000_000) as u64 }));
                }
            }
        }
        let cfg = Cfg { toks, types, pools, collide, fee_addr: rng.pct(70), generator: rng.pct(40), no_tracker: rng.pct(25) };
        (cfg, Sched::draw(rng, if thorough { 120 } else { 50 }))
    }

    fn new(cfg: &Cfg, ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(1_700_000_000, 1000);
        let codes = [reg_pair(&c), reg_stable(&c), reg_pcl(&c), reg_transmuter(&c)];
        let tracker = astroport::factory::TrackerConfig { code_id: reg_tracker(&c), token_factory_addr: TF_MODULE.into() };
        let types: Vec<PairConfig> = cfg
            .types
            .iter()
            .enumerate()
            .map(|(i, t)| PairConfig { permissioned: t.perm, ..pair_config(codes[i], ptype(i), t.total, t.maker) })
            .collect();
        let d = deploy(&c, types.clone(), cfg.fee_addr.then_some("feesink"), (!cfg.no_tracker).then_some(tracker.clone()))?;
        let mut generator = None;
        let registry2 = c.instantiate(
            reg_registry(&c),
            OWNER,
            &astroport::native_coin_registry::InstantiateMsg { owner: OWNER.into() },
            &[],
            "registry2",
            None,
        )?;
        if cfg.generator {
            let vc = reg_vesting(&c);
            let vest = c.instantiate(vc, OWNER, &astroport::vesting::InstantiateMsg { owner: OWNER.into(), vesting_token: AssetInfo::native("astro") }, &[], "vesting", None)?;
            let ic = reg_incentives(&c);
            let g = c.instantiate(
                ic,
                OWNER,
                &astroport::incentives::InstantiateMsg { owner: OWNER.into(), factory: d.factory.clone(), astro_token: AssetInfo::native("astro"), vesting_contract: vest, incentivization_fee_info: None, guardian: None },
                &[],
                "incentives",
                None,
            )?;
            d.set_generator(&g)?;
            generator = Some(g);
        }
        let rc = c.store_code(crate::code!(
            "router",
            inst = astroport_router::contract::instantiate,
            exec = astroport_router::contract::execute,
            query = astroport_router::contract::query,
            reply = astroport_router::contract::reply
        ));
        let router = c.instantiate(rc, OWNER, &router::InstantiateMsg { astroport_factory: d.factory.clone() }, &[], "router", None)?;
        let hooked = c.store_code(crate::code!("cw20-hooked", inst = cw20_base::contract::instantiate, exec = hook_exec, query = cw20_base::contract::query));
        let mut a = vec![];
        for (i, t) in cfg.toks.iter().enumerate() {
            let denom = if cfg.collide { ["abcd", "efg", "abc", "defg", "zzz"][i].to_string() } else { format!("utok{i}") };
            let hold: Vec<(&str, u128)> = (0..5).map(|k| (NAMES[k], 4_000_000_000 * pow10(t.dec as u32))).collect();
            a.push(make_token(&c, hooked, &denom, t, &hold)?);
            if !t.cw20 {
                d.register_coin(&denom, t.dec)?;
                c.execute(OWNER, &registry2, &astroport::native_coin_registry::ExecuteMsg::Add { native_coins: vec![(denom.clone(), t.dec)] }, &[])?;
            }
        }
        let mut s = FacScn { c, d, router, a, recs: vec![], gone: vec![], types, fee_addr: cfg.fee_addr.then(|| "feesink".to_string()), whitelist: 1, token_code: 0, touched: None, registries: [String::new(), registry2], registry: 0, generator, tracker: (!cfg.no_tracker).then(|| (tracker.code_id, tracker.token_factory_addr.clone())), collide: cfg.collide };
        s.token_code = s.d.cw20_code;
        s.registries[0] = s.d.registry.clone();
        for (t, i, j, liq) in &cfg.pools {
            let u = 4;
            s.create(u, *t, &[*i, *j], 0, ctx);
            let p = s.recs.len().checked_sub(1).ok_or("no pair was created")?;
            if *liq > 0 {
                s.provide(0, p, *liq as u128, 1000)?;
            }
        }
        Ok(s)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        let n = self.a.len();
        let u = rng.idx(USERS);
        let np = self.recs.len();
        if let Some(t) = self.touched.take() {
            // does a new configuration apply at once?
            let free: Vec<Vec<usize>> = (0..n).flat_map(|i| (0..n).map(move |j| vec![i, j])).filter(|v| v[0] != v[1] && self.rec(v).is_none()).collect();
            if rng.pct(50) && !free.is_empty() {
                return Op::Create { u: if rng.pct(50) { 4 } else { u }, ptype: t, toks: rng.pick(&free).clone(), quirk: 0 };
            }
        }
        let amt = |rng: &mut Rng, t: &Asst| U::new(rng.log(1, 100_000 * pow10(t.dec as u32)));
        let walk = |s: &Self, rng: &mut Rng| -> Vec<usize> {
            let mut p = vec![rng.idx(n)];
            let len = match rng.below(20) {
                0 => 0,
                1 => *rng.pick(&[50, 51]),
                2..=7 => 1,
                _ => rng.range(2, 5),
            };
            for _ in 0..len {
                let cur = *p.last().unwrap();
                let near: Vec<usize> = (0..n).filter(|x| *x != cur && s.rec(&[cur, *x]).is_some()).collect();
                if near.is_empty() || rng.pct(3) {
                    p.push(rng.idx(n));
                } else {
                    p.push(*rng.pick(&near));
                }
            }
            p
        };
        match rng.weighted(&[14, 6, 6, 3, 8, 4, 12, 40, 8, 2, 2, 1, 1]) {
            0 => {
                let k = if rng.pct(80) { 2 } else { rng.range(1, 4) as usize };
                let toks = (0..k).map(|_| rng.idx(n)).collect();
                Op::Create { u: if rng.pct(30) { 4 } else { u }, ptype: if rng.pct(95) { rng.idx(4) } else { 4 }, toks, quirk: if rng.pct(10) { rng.range(1, 2) as u8 } else { 0 } }
            }
            1 => {
                let toks = if np > 0 && rng.pct(80) {
                    let mut v: Vec<usize> = self.recs[rng.idx(np)].set.iter().copied().collect();
                    if rng.pct(50) {
                        v.reverse();
                    }
                    v
                } else {
                    (0..2).map(|_| rng.idx(n)).collect()
                };
                Op::Deregister { u: if rng.pct(75) { 4 } else { u }, toks }
            }
            2 => Op::PairCfg {
                u: if rng.pct(85) { 4 } else { u },
                ptype: rng.idx(4),
                total: *rng.pick(&[0, 1, 30, 500, 10_000, 10_001]),
                maker: *rng.pick(&[0, 1, 5000, 10_000, 10_001]),
                disabled: rng.pct(25),
                gen_disabled: rng.pct(25),
                perm: rng.pct(25),
            },
            3 => Op::FacCfg { u: if rng.pct(85) { 4 } else { u }, fee: rng.pct(70).then(|| rng.idx(2)), bad: rng.pct(15), more: rng.below(4) as u8 },
            11 => Op::Tracker { u: if rng.pct(80) { 4 } else { u }, code: rng.range(1, 9), addr: rng.pct(60) },
            12 => Op::NewFactory {
                dup: rng.pct(20),
                total: *rng.pick(&[0, 30, 10_000, 10_000, 10_001]),
                maker: *rng.pick(&[0, 5000, 10_000, 10_000, 10_001]),
                bad: if rng.pct(40) { rng.range(1, 5) as u8 } else { 0 },
                tracker: rng.pct(50),
            },
            4 if np > 0 => Op::Provide { u, p: rng.idx(np), amt: U::new(rng.log(1, 1_000_000)), skew: rng.range(500, 1500) },
            5 if np > 0 => Op::Withdraw { u, p: rng.idx(np + self.gone.len()), pct: rng.range(1, 100) },
            6 if np > 0 => {
                let p = rng.idx(np);
                let from = rng.idx(2);
                Op::Swap { u, p, from, amt: U::new(rng.log(1, 1_000_000)) }
            }
            8 => {
                let path = walk(self, rng);
                let t = self.a[path[0]].clone();
                Op::Quote { amt: amt(rng, &t), path, rev: rng.pct(50) }
            }
            9 => {
                let tok = rng.idx(n);
                let t = self.a[tok].clone();
                Op::ToRouter { u, tok, amt: amt(rng, &t) }
            }
            10 => Op::Idle,
            _ if rng.pct(12) && self.a.iter().any(|a| !a.native) => {
                let (path, inner) = (walk(self, rng), walk(self, rng));
                let (t, ti) = (self.a[path[0]].clone(), self.a[inner[0]].clone());
                let on: Vec<usize> = path.iter().copied().filter(|i| !self.a[*i].native).collect();
                if path.len() < 2 || inner.len() < 2 || on.is_empty() {
                    return Op::Idle;
                }
                Op::Nested {
                    u: rng.idx(4),
                    amt: amt(rng, &t),
                    min: *rng.pick(&[(1000, 0), (1000, 1), (1000, 0), (990, 0), (500, 0), (2000, 0)]),
                    tok: *rng.pick(&on),
                    skip: rng.below(3) as u8,
                    inner_amt: amt(rng, &ti),
                    path,
                    inner,
                }
            }
            _ => {
                let path = walk(self, rng);
                let t = self.a[path[0]].clone();
                Op::Route {
                    u,
                    path,
                    amt: amt(rng, &t),
                    min: match rng.below(6) {
                        0 => Some((1000, 0)),
                        1 => Some((1000, 1)),
                        2 => Some((990, 0)),
                        3 => Some((1200, 0)),
                        _ => None,
                    },
                    to: rng.pct(30).then(|| rng.idx(USERS + 1)),
                    spread_bps: match rng.below(5) {
                        0 => None,
                        1 => Some(rng.range(1, 300)),
                        2 => Some(5001),
                        _ => Some(5000),
                    },
                    quirk: if rng.pct(10) { rng.range(1, 3) as u8 } else { 0 },
                }
            }
        }
    }

    fn apply(&mut self, st: &Step<Op>, ctx: &mut Ctx) {
        self.c.advance(st.dt, st.db);
        self.c.0.borrow_mut().fault = st.fault.clone();
        let armed = st.fault.is_some();
        match st.op.clone() {
            Op::Create { u, ptype, toks, quirk } => self.create(u, ptype, &toks, quirk, ctx),
            Op::Deregister { u, toks } => {
                let set: BTreeSet<usize> = toks.iter().copied().collect();
                let i = self.recs.iter().position(|r| r.set == set && set.len() == toks.len());
                let r = self.c.execute(NAMES[u], &self.d.factory, &ExecuteMsg::Deregister { asset_infos: self.infos(&toks) }, &[]);
                self.fault_mark(ctx);
                let valid = u == 4 && i.is_some();
                let clash = i.is_none() && self.recs.iter().any(|x| self.key(&x.set.iter().copied().collect::<Vec<_>>()) == self.key(&toks));
                if clash && r.is_ok() {
                    ctx.violate("C14", "pair-key-collision", format!("deregistering {toks:?} removed the pair of a different set of assets whose registry key is equal"));
                    let k = self.key(&toks);
                    if let Some(j) = self.recs.iter().position(|x| self.key(&x.set.iter().copied().collect::<Vec<_>>()) == k) {
                        let x = self.recs.remove(j);
                        self.gone.push(x);
                    }
                } else {
                    ctx.check("C14", "deregister", r.is_ok() == valid || (armed && r.is_err()), || format!("deregister {toks:?} by {} (registered: {}): {:?}", NAMES[u], i.is_some(), r.as_ref().err()));
                    if let (true, Some(i)) = (r.is_ok(), i) {
                        let x = self.recs.remove(i);
                        self.gone.push(x);
                    }
                }
                ctx.outcome("deregister", r.is_ok(), &r.err().unwrap_or_default());
            }
            Op::PairCfg { u, ptype: t, total, maker, disabled, gen_disabled, perm } => {
                let pc = PairConfig { is_disabled: disabled, is_generator_disabled: gen_disabled, permissioned: perm, ..pair_config(self.types[t].code_id, ptype(t), total, maker) };
                let r = self.c.execute(NAMES[u], &self.d.factory, &ExecuteMsg::UpdatePairConfig { config: pc.clone() }, &[]);
                self.fault_mark(ctx);
                let valid = u == 4 && total <= 10_000 && maker <= 10_000;
                ctx.check("C14", "pair-config", r.is_ok() == valid || (armed && r.is_err()), || format!("pair configuration {total}/{maker} bps by {}: {:?}", NAMES[u], r.as_ref().err()));
                if r.is_ok() {
                    self.types[t] = pc;
                    self.touched = Some(t);
                }
                ctx.outcome("pair_config", r.is_ok(), &r.err().unwrap_or_default());
            }
            Op::FacCfg { u, fee, bad, more } => {
                const BAD: &str = "NOT AN ADDRESS";
                let fee_s = fee.map(|i| if bad { BAD.to_string() } else { ["feesink", "feesink2"][i].to_string() });
                let code = (more & 1 > 0).then_some(self.token_code + 7);
                let next = 1 - self.registry;
                let reg = (more & 2 > 0).then(|| if bad { BAD.to_string() } else { self.registries[next].clone() });
                let gen_s = (bad && fee.is_none() && reg.is_none() && more & 1 > 0).then(|| BAD.to_string());
                let valid = u == 4 && !(bad && (fee.is_some() || reg.is_some() || gen_s.is_some()));
                let r = self.c.execute(
                    NAMES[u],
                    &self.d.factory,
                    &ExecuteMsg::UpdateConfig {
                        token_code_id: code,
                        fee_address: fee_s.clone(),
                        generator_address: gen_s,
                        whitelist_code_id: Some(ctx.step as u64 + 1),
                        coin_registry_address: reg.clone(),
                    },
                    &[],
                );
                self.fault_mark(ctx);
                ctx.check("C14", "update-config", r.is_ok() == valid || (armed && r.is_err()), || format!("factory configuration by {} (malformed addresses: {bad}, changes {more}): {:?}", NAMES[u], r.as_ref().err()));
                if r.is_ok() {
                    if fee_s.is_some() {
                        self.fee_addr = fee_s;
                    }
                    if let Some(c) = code {
                        self.token_code = c;
                    }
                    if reg.is_some() {
                        self.registry = next;
                    }
                    self.whitelist = ctx.step as u64 + 1;
                }
                ctx.outcome("factory_config", r.is_ok(), &r.err().unwrap_or_default());
            }
            Op::Tracker { u, code, addr } => {
                let r = self.c.execute(
                    NAMES[u],
                    &self.d.factory,
                    &ExecuteMsg::UpdateTrackerConfig { tracker_code_id: code, token_factory_addr: addr.then(|| "tfmodule".into()) },
                    &[],
                );
                self.fault_mark(ctx);
                let valid = u == 4 && (self.tracker.is_some() || addr);
                ctx.check("C14", "tracker-config", r.is_ok() == valid || (armed && r.is_err()), || format!("tracker configuration {code} by {} (module named: {addr}, set: {:?}): {:?}", NAMES[u], self.tracker, r.as_ref().err()));
                if r.is_ok() {
                    // the module is fixed once set
                    self.tracker = Some((code, self.tracker.take().map_or("tfmodule".into(), |t| t.1)));
                }
                ctx.outcome("tracker_config", r.is_ok(), &r.err().unwrap_or_default());
            }
            Op::NewFactory { dup, total, maker, bad, tracker } => {
                let id = self.c.0.borrow().contracts.get(&self.d.factory).map(|i| i.code_id).unwrap_or_default();
                let addr = |k: u8, s: &str| if bad == k { "NOT AN ADDRESS".to_string() } else { s.to_string() };
                let mut pcs = vec![pair_config(1, ptype(1), 5, 5), pair_config(1, ptype(0), total, maker)];
                if dup {
                    pcs.push(pair_config(2, ptype(0), 30, 30));
                }
                let r = self.c.instantiate(
                    id,
                    OWNER,
                    &astroport::factory::InstantiateMsg {
                        pair_configs: pcs.clone(),
                        token_code_id: 1,
                        fee_address: Some(addr(3, "feesink")),
                        generator_address: Some(addr(4, "gen0")),
                        owner: addr(1, "user1"),
                        whitelist_code_id: 3,
                        coin_registry_address: addr(2, &self.d.registry),
                        tracker_config: tracker.then(|| astroport::factory::TrackerConfig { code_id: 5, token_factory_addr: addr(5, "tfmodule") }),
                    },
                    &[],
                    "factory2",
                    None,
                );
                self.fault_mark(ctx);
                let valid = !dup && total <= 10_000 && maker <= 10_000 && (bad == 0 || bad == 5 && !tracker);
                ctx.check("C14", "init-rule", r.is_ok() == valid || (armed && r.is_err()), || format!("a factory with fees {total}/{maker}, the same type twice: {dup}, malformed address {bad}: {r:?}"));
                if let Ok(f) = &r {
                    let cf: Result<ConfigResponse, String> = self.c.query(f, &QueryMsg::Config {});
                    let good = cf.as_ref().is_ok_and(|c| {
                        c.owner == "user1"
                            && c.token_code_id == 1
                            && c.fee_address.as_ref().is_some_and(|a| a.as_str() == "feesink")
                            && c.generator_address.as_ref().is_some_and(|a| a.as_str() == "gen0")
                            && c.whitelist_code_id == 3
                            && c.coin_registry_address == self.d.registry
                            && c.pair_configs.len() == 2
                            && pcs.iter().all(|p| c.pair_configs.contains(p))
                    });
                    ctx.check("C14", "init-kept", good, || format!("a new factory reports {cf:?}"));
                }
                ctx.outcome("new_factory", r.is_ok(), &r.err().unwrap_or_default());
            }
            Op::Provide { u, p, amt, skew } => {
                if p < self.recs.len() {
                    let r = self.provide(u, p, amt.u128(), skew as u128);
                    self.fault_mark(ctx);
                    ctx.outcome("provide", r.is_ok(), &r.err().unwrap_or_default());
                }
            }
            Op::Withdraw { u, p, pct } => {
                let Some(r) = (if p < self.recs.len() { self.recs.get(p) } else { self.gone.get(p - self.recs.len()) }) else { return };
                let have = self.c.bal(NAMES[u], &r.lp);
                if have > 0 {
                    let x = muldiv(have, pct as u128, 100).max(1);
                    let res = self.c.execute(NAMES[u], &r.addr, &pair::ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: None }, &[Coin::new(x, &r.lp)]);
                    self.fault_mark(ctx);
                    ctx.outcome(if p < self.recs.len() { "withdraw" } else { "withdraw_deregistered" }, res.is_ok(), &res.err().unwrap_or_default());
                }
            }
            Op::Swap { u, p, from, amt } => {
                let Some(r) = self.recs.get(p) else { return };
                let v: Vec<usize> = r.set.iter().copied().collect();
                let (i, j) = (v[from % v.len()], v[(from + 1) % v.len()]);
                let x = amt.u128() * pow10(self.a[i].dec as u32 - 6).max(1);
                let res = Self::hop(&self.c, NAMES[u], &r.addr, &self.a[i], &self.a[j], x, None, Some(Decimal::percent(50)), None);
                self.fault_mark(ctx);
                ctx.outcome("swap", res.is_ok(), &res.err().unwrap_or_default());
            }
            Op::Route { u, path, amt, min, to, spread_bps, quirk } => self.route(u, &path, amt.u128(), min, to, spread_bps, quirk, ctx),
            Op::Quote { path, amt, rev } => {
                self.quote(&path, amt.u128(), rev, ctx);
                ctx.outcome("quote", true, "");
            }
            Op::Nested { u, path, amt, min, tok, skip, inner, inner_amt } => self.nested(u, &path, amt.u128(), min, tok, skip, &inner, inner_amt.u128(), ctx),
            Op::ToRouter { u, tok, amt } => {
                let r = self.a[tok].transfer(&self.c, NAMES[u], &self.router.clone(), amt.u128());
                self.fault_mark(ctx);
                ctx.outcome("to_router", r.is_ok(), &r.err().unwrap_or_default());
            }
            Op::Idle => ctx.outcome("idle", true, ""),
        }
        self.c.0.borrow_mut().fault = None;
        if ctx.on("C14") {
            self.check_registry(ctx);
        }
    }
    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now()
    }
}

impl FacScn {
    fn provide(&self, u: usize, p: usize, liq: u128, skew: u128) -> Result<(), String> {
        let r = &self.recs[p];
        let who = NAMES[u];
        let mut assets = vec![];
        let mut funds = vec![];
        for (k, t) in r.set.iter().enumerate() {
            let a = &self.a[*t];
            let mut x = (liq * pow10(a.dec as u32)).min(400_000_000 * pow10(a.dec as u32));
            if k == 0 {
                x = (x / 1000 * skew).max(1);
            }
            assets.push(a.with(x));
            if a.native {
                funds.push(Coin::new(x, &a.id));
            } else {
                approve(&self.c, a, who, &r.addr, x)?;
            }
        }
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        self.c
            .execute(
                who,
                &r.addr,
                &pair::ExecuteMsg::ProvideLiquidity { assets, slippage_tolerance: Some(Decimal::percent(50)), auto_stake: None, receiver: None, min_lp_to_receive: None },
                &funds,
            )
            .map(|_| ())
    }
}
