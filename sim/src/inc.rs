//! Incentives (staking of LP tokens): the real incentives, factory, pair and vesting contracts against an exact model of
//! every accrual (per pool, reward and user, in wide integers). Oracles of C17 - C20.

use crate::chain::*;
use crate::code;
use crate::rng::Rng;
use crate::runner::*;
use crate::world::dex::*;
use crate::world::*;
use astroport::asset::{Asset, AssetInfo, AssetInfoExt, PairInfo};
use astroport::factory::PairType;
use astroport::incentives::*;
use astroport::{pair, vesting};
use cosmwasm_std::{from_json, to_json_binary, to_json_vec, Addr, Binary, Coin, Decimal, Deps, DepsMut, Env, MessageInfo, Response, StdError, StdResult, Uint128, Uint512};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

type U = Uint128;
type W = Uint512;
const USERS: usize = 4;
const OWN: usize = 4;
const GUARD: usize = 5;
const CTRL: usize = 6;
const SINK: usize = 7;
const NAMES: [&str; 8] = ["user0", "user1", "user2", "user3", "owner", "guardian", "controller", "feesink"];
/// scale of reward rates and indexes
const S18: u128 = 1_000_000_000_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    astro_cw20: bool,
    pools: usize,
    rew: Vec<Tok>,
    /// fee for a new reward token: amount, and whether it is paid in the first native reward token
    fee: Option<(u64, bool)>,
    start: u64,
    aps: u64,
    lp: Vec<U>,
    gas_limit: bool,
    /// one pool crowded with many reward tokens
    #[serde(default)]
    crowd: bool,
    /// pools of an older kind, whose LP token is a cw20
    #[serde(default)]
    old_lp: Vec<bool>,
}

// A pool from before native LP tokens: it only answers what it holds and which cw20 is its LP token.
fn legacy_inst(d: DepsMut, env: Env, _: MessageInfo, m: pair::InstantiateMsg) -> StdResult<Response> {
    let p = PairInfo { asset_infos: m.asset_infos, contract_addr: env.contract.address, liquidity_token: String::new(), pair_type: PairType::Custom("legacy".into()) };
    d.storage.set(b"p", &to_json_vec(&p)?);
    Ok(Response::new())
}
fn legacy_exec(d: DepsMut, _: Env, _: MessageInfo, lp: String) -> StdResult<Response> {
    let mut p: PairInfo = from_json(d.storage.get(b"p").unwrap_or_default())?;
    p.liquidity_token = lp;
    d.storage.set(b"p", &to_json_vec(&p)?);
    Ok(Response::new())
}
fn legacy_query(d: Deps, _: Env, m: pair::QueryMsg) -> StdResult<Binary> {
    match m {
        pair::QueryMsg::Pair {} => Ok(d.storage.get(b"p").unwrap_or_default().into()),
        _ => Err(StdError::generic_err("not supported")),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Item {
    p: usize,
    r: usize,
    /// units per second, in permille
    rate: U,
    extra: u64,
    periods: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Deposit { u: usize, p: usize, permille: u64, to: Option<usize>, quirk: u8 },
    Withdraw { u: usize, p: usize, permille: u64 },
    Claim { u: usize, pools: Vec<usize> },
    Incentivize { u: usize, items: Vec<Item>, quirk: u8 },
    Remove { u: usize, rm: Vec<(usize, usize, bool)>, to: usize },
    Orphans { u: usize, limit: Option<u8>, to: usize },
    Setup { u: usize, pools: Vec<(usize, U)> },
    Aps { u: usize, amt: U },
    Block { u: usize, add: Vec<usize>, remove: Vec<usize> },
    Deregister { u: usize, p: usize },
    Deactivate { u: usize, p: usize },
    TypeBlock { t: usize, on: bool },
    DeactivateBlocked { u: usize },
    Conf { u: usize, what: u8, v: u64 },
    Break { r: usize, how: u8 },
    Mend,
    Idle,
    Recreate { u: usize, p: usize },
}

/// one running external reward of a pool
#[derive(Clone, Debug, Default)]
struct Act {
    /// (start, end, rate * 1e18)
    segs: Vec<(u64, u64, W)>,
    orphan: W,
}
impl Act {
    fn end(&self) -> u64 {
        self.segs.iter().map(|s| s.1).max().unwrap_or(0)
    }
    /// amount * 1e18 released in (a, b]
    fn between(&self, a: u64, b: u64) -> W {
        let mut x = W::zero();
        for (s, e, r) in &self.segs {
            let (lo, hi) = (a.max(*s), b.min(*e));
            if hi > lo {
                x += *r * u512((hi - lo) as u128);
            }
        }
        x
    }
    fn rate(&self, t: u64) -> W {
        self.segs.iter().filter(|s| s.0 <= t && t < s.1).fold(W::zero(), |a, s| a + s.2)
    }
}

#[derive(Clone, Debug, Default)]
struct PoolM {
    exists: bool,
    registered: bool,
    total: u128,
    last: u64,
    stake: [u128; 7],
    act: BTreeMap<usize, Act>,
    /// external rewards owed: (user, token) -> amount * 1e36
    owed: BTreeMap<(usize, usize), W>,
    has_int: bool,
    int_rate: W,
    int_orphan: W,
    int_owed: BTreeMap<usize, W>,
    /// accruals since the beginning: bounds the rounding of indexes
    upd: u128,
    /// accruals done with each user's stake since his last claim, and rewards that ended meanwhile
    since: [u128; 7],
}

#[derive(Clone, Debug, Default)]
struct Model {
    pools: Vec<PoolM>,
    orph: BTreeMap<usize, u128>,
    blocked: BTreeSet<usize>,
    active: Vec<(usize, u128)>,
    alloc: u128,
    aps: u128,
    now: u64,
}

fn pool_type(i: usize) -> PairType {
    [PairType::Xyk {}, PairType::Stable {}, PairType::Custom("legacy".into())][i].clone()
}

impl Model {
    fn touch(&mut self, p: usize) {
        let t = self.now;
        let m = &mut self.pools[p];
        m.exists = true;
        if t == m.last {
            return;
        }
        let one = u512(S18);
        let mut gone = vec![];
        for (r, a) in m.act.iter_mut() {
            let acc = a.between(m.last, t) + a.orphan;
            if m.total == 0 {
                a.orphan = acc;
            } else {
                a.orphan = W::zero();
                for u in 0..7 {
                    if m.stake[u] > 0 {
                        *m.owed.entry((u, *r)).or_default() += acc * one * u512(m.stake[u]) / u512(m.total);
                    }
                }
            }
            if a.end() <= t {
                gone.push(*r);
            }
        }
        for r in gone {
            let a = m.act.remove(&r).unwrap();
            for s in m.since.iter_mut() {
                *s += 1;
            }
            if !a.orphan.is_zero() {
                *self.orph.entry(r).or_default() += low(a.orphan / one);
            }
        }
        let acc = m.int_rate * u512((t - m.last) as u128) + m.int_orphan;
        if m.total == 0 {
            m.int_orphan = if m.has_int { acc } else { W::zero() };
        } else {
            m.int_orphan = W::zero();
            for u in 0..7 {
                if m.stake[u] > 0 {
                    *m.int_owed.entry(u).or_default() += acc * one * u512(m.stake[u]) / u512(m.total);
                }
            }
        }
        m.upd += 1;
        for s in m.since.iter_mut() {
            *s += 1;
        }
        m.last = t;
    }
    fn set_rates(&mut self) {
        for (p, a) in self.active.clone() {
            self.touch(p);
            let m = &mut self.pools[p];
            m.has_int = true;
            m.int_rate = u512(self.aps) * u512(a) * u512(S18) / u512(self.alloc);
        }
    }
    fn drop_active(&mut self, gone: &BTreeSet<usize>) {
        let (out, keep): (Vec<_>, Vec<_>) = self.active.iter().copied().partition(|(p, _)| gone.contains(p));
        for (p, a) in out {
            self.touch(p);
            self.pools[p].int_rate = W::zero();
            self.alloc -= a;
        }
        self.active = keep;
        self.set_rates();
    }
    /// what the user may claim in a pool: token -> (amount, tolerance), protocol reward
    fn due(&self, p: usize, u: usize) -> (BTreeMap<usize, u128>, u128, u128) {
        let m = &self.pools[p];
        let sq = u512(S18) * u512(S18);
        let mut v: BTreeMap<usize, u128> = BTreeMap::new();
        for ((w, r), x) in &m.owed {
            if *w == u {
                *v.entry(*r).or_default() += low(*x / sq);
            }
        }
        let int = m.int_owed.get(&u).map(|x| low(*x / sq)).unwrap_or(0);
        // index rounding (1e-18 per accrual and staked unit) and one unit for each settled piece
        let tol = 2 + m.since[u] + m.since[u] * (m.stake[u] / S18 + 1);
        (v, int, tol)
    }
    fn settle(&mut self, p: usize, u: usize) {
        let m = &mut self.pools[p];
        m.owed.retain(|k, _| k.0 != u);
        m.int_owed.remove(&u);
        m.since[u] = 0;
    }
    /// external amount * 1e18 the contract must still hold, per token
    fn required(&self) -> BTreeMap<usize, W> {
        let one = u512(S18);
        let mut v: BTreeMap<usize, W> = BTreeMap::new();
        for m in &self.pools {
            for ((_, r), x) in &m.owed {
                *v.entry(*r).or_default() += *x / one;
            }
            for (r, a) in &m.act {
                *v.entry(*r).or_default() += a.orphan + a.between(m.last, u64::MAX);
            }
        }
        for (r, x) in &self.orph {
            *v.entry(*r).or_default() += u512(*x) * one;
        }
        v
    }
}

fn low(x: W) -> u128 {
    Uint128::try_from(x).map(|x| x.u128()).unwrap_or(u128::MAX)
}

fn next_epoch(t: u64) -> u64 {
    crate::world::EPOCHS_START + ((t - crate::world::EPOCHS_START) / EPOCH + 1) * EPOCH
}

pub struct IncScn {
    c: Chain,
    factory: String,
    inc: String,
    /// two vesting contracts, one for ASTRO's successor, and the one in use
    vest: [String; 3],
    cur: usize,
    /// what the protocol pays in: ASTRO or, after a switch, its successor
    astro: usize,
    /// 0 ASTRO, then reward tokens, pool assets, LP tokens, ASTRO's successor, the fee token
    t: Vec<Asst>,
    nrew: usize,
    crowd: bool,
    npool: usize,
    pair_assets: Vec<[usize; 2]>,
    codes: [u64; 3],
    ptypes: Vec<usize>,
    type_blocked: [bool; 3],
    /// a newer pool of the same assets took the place of a deregistered one
    twin: [bool; 3],
    m: Model,
    fee: Option<(usize, u128)>,
    guardian: bool,
    ctrl: bool,
    gas_limit: bool,
    broken: BTreeMap<usize, u8>,
    /// tokens that stay in the contract for good (failed payouts, bypassed schedules) and rounding dust
    stuck: BTreeMap<usize, u128>,
    dust: BTreeMap<usize, u128>,
    paid_int: u128,
    budget: u128,
    vest_left: [u128; 3],
}

type Snap = Vec<Vec<u128>>;

impl IncScn {
    fn lp(&self, p: usize) -> usize {
        1 + self.nrew + 3 + p
    }
    fn accounts(&self) -> Vec<String> {
        NAMES.iter().map(|s| s.to_string()).chain([self.inc.clone()]).chain(self.vest.clone()).collect()
    }
    fn snap(&self) -> Snap {
        self.accounts().iter().map(|a| self.t.iter().map(|t| t.bal(&self.c, a)).collect()).collect()
    }
    fn fault_mark(&self, ctx: &mut Ctx) -> bool {
        let k = self.c.0.borrow().fault_fired.clone();
        if let Some(k) = k {
            ctx.hit(match k {
                FaultKind::Fail => "fault.tx_failed_mid",
                FaultKind::OutOfGas => "fault.out_of_gas",
                FaultKind::FailAfter => "fault.tx_failed_after",
            });
            true
        } else {
            false
        }
    }
    fn exec(&self, u: usize, msg: &ExecuteMsg, funds: &[Coin]) -> TxResult {
        self.c.execute(NAMES[u], &self.inc, msg, funds)
    }
    /// transfers of this token out of the contract fail quietly
    fn is_broken(&self, r: usize) -> bool {
        self.broken.get(&r).is_some_and(|h| *h != 2 || self.gas_limit)
    }
    fn is_bomb(&self, r: usize) -> bool {
        self.broken.get(&r) == Some(&2) && !self.gas_limit
    }

    /// the balances changed exactly as expected; `rew` lists payouts that a failing token may swallow
    #[allow(clippy::too_many_arguments)]
    fn flows(&mut self, what: &str, pre: &Snap, exact: &[(usize, usize, i128)], rew: &BTreeMap<usize, u128>, to: usize, int: u128, tol: u128, faulted: bool, ctx: &mut Ctx) {
        let post = self.snap();
        let names = self.accounts();
        let (inc, vest) = (NAMES.len(), NAMES.len() + 1 + self.cur);
        let mut lost = 0;
        for r in 0..self.t.len() {
            let mut exp: Vec<i128> = vec![0; names.len()];
            for (w, t, d) in exact {
                if *t == r {
                    exp[*w] += d;
                }
            }
            let due = rew.get(&r).copied().unwrap_or(0);
            let int = if r == self.astro { int } else { 0 };
            let got = post[to][r] as i128 - pre[to][r] as i128 - exp[to];
            let want = (due + int) as i128;
            let mut ok = (got - want).unsigned_abs() <= tol && got >= 0;
            if self.is_broken(r) && due > 0 {
                ok = got == 0;
                *self.stuck.entry(r).or_default() += due + tol;
                ctx.hit("probe.payout_swallowed");
            } else if faulted && !ok && got + tol as i128 >= int as i128 && got <= want && got >= 0 && lost == 0 {
                // the injected failure hit exactly this payout
                lost += 1;
                ok = true;
                *self.stuck.entry(r).or_default() += (want - got) as u128 + tol;
                ctx.hit("probe.payout_failed_by_fault");
            } else if due > 0 {
                *self.dust.entry(r).or_default() += tol;
            }
            for p in ["C17", "C19"] {
                ctx.check(p, "payout", ok, || {
                    format!("{what}: {} received {got} of {}, due are {due} from the pool and {int} from the protocol (tolerance {tol})", names[to], self.t[r].id)
                });
            }
            let paid_int = pre[vest][r] as i128 - post[vest][r] as i128;
            if r == self.astro {
                ctx.check("C17", "protocol-payout", (paid_int - int as i128).unsigned_abs() <= tol && paid_int >= 0, || {
                    format!("{what}: vesting paid {paid_int} ASTRO, due are {int} (tolerance {tol})")
                });
                self.paid_int += paid_int.max(0) as u128;
                self.vest_left[self.cur] = self.vest_left[self.cur].saturating_sub(paid_int.max(0) as u128);
            }
            for (i, n) in names.iter().enumerate() {
                if i == to || i == vest {
                    continue;
                }
                let d = post[i][r] as i128 - pre[i][r] as i128;
                let e = if i == inc { exp[i] - (got - paid_int * (r == self.astro) as i128) } else { exp[i] };
                for p in ["C17", "C18"] {
                    ctx.check(p, "flows", d == e, || format!("{what}: {n}'s {} changed by {d}, expected {e}", self.t[r].id));
                }
            }
        }
    }

    fn unchanged(&self, what: &str, pre: &Snap, ctx: &mut Ctx) {
        if ctx.on("C18") || ctx.on("C17") {
            let post = self.snap();
            for p in ["C17", "C18"] {
                ctx.check(p, "failed-unchanged", &post == pre, || format!("{what} failed but balances changed"));
            }
        }
    }

    /// tokens due to a user in several pools after settling them: amounts, protocol, tolerance
    fn collect(&mut self, u: usize, pools: &[usize]) -> (BTreeMap<usize, u128>, u128, u128) {
        let mut v: BTreeMap<usize, u128> = BTreeMap::new();
        let (mut int, mut tol) = (0, 0);
        for p in pools {
            self.m.touch(*p);
            let (a, i, t) = self.m.due(*p, u);
            for (r, x) in a {
                *v.entry(r).or_default() += x;
            }
            int += i;
            tol += t;
        }
        (v, int, tol)
    }
    /// would paying these make the transaction fail? (an unpayable protocol reward or an unlimited gas bomb)
    fn payable(&self, v: &BTreeMap<usize, u128>, int: u128, tol: u128) -> Option<bool> {
        let bomb = v.iter().filter(|(r, _)| self.is_bomb(**r)).map(|(_, x)| *x).max().unwrap_or(0);
        if bomb > tol || int > self.vest_left[self.cur] + tol {
            return Some(false);
        }
        if (bomb > 0 || v.keys().any(|r| self.is_bomb(*r))) || int + tol > self.vest_left[self.cur] {
            return None;
        }
        Some(true)
    }

    /// runs a schedule through the model: tokens the sender must bring (fee included)
    fn try_incent(&self, m: &mut Model, items: &[Item]) -> Result<Vec<(usize, u128)>, String> {
        let mut need = vec![];
        for i in items {
            if !(1..=25).contains(&i.periods) {
                return Err("periods".into());
            }
            let end = next_epoch(m.now) + i.periods * EPOCH;
            let amt = self.amount(i, m.now);
            if amt < (end - m.now) as u128 {
                return Err("rate".into());
            }
            if m.blocked.contains(&i.r) {
                return Err("blocked".into());
            }
            if !m.pools[i.p].registered {
                return Err("pool".into());
            }
            m.touch(i.p);
            let pm = &mut m.pools[i.p];
            let fresh = !pm.act.contains_key(&i.r);
            if fresh && i.r != self.astro && pm.act.keys().filter(|r| **r != i.r).count() >= MAX_REWARD_TOKENS as usize {
                return Err("too many".into());
            }
            if fresh && i.r != self.astro {
                if let Some((t, x)) = self.fee {
                    need.push((t, x));
                }
            }
            need.push((i.r, amt));
            let rate = u512(amt) * u512(S18) / u512((end - m.now) as u128);
            pm.act.entry(i.r).or_default().segs.push((m.now, end, rate));
        }
        Ok(need)
    }
    fn amount(&self, i: &Item, now: u64) -> u128 {
        let dur = next_epoch(now) + i.periods.min(30) * EPOCH - now;
        if i.rate.is_zero() {
            // one unit short of one per second
            return dur as u128 - 1;
        }
        (dur as u128 * i.rate.u128() / 1000).max(1) + i.extra as u128
    }

    fn checks(&mut self, ctx: &mut Ctx) {
        let now = self.m.now;
        let mut m = self.m.clone();
        let h = ctx.step;
        if ctx.on("C17") {
            for p in 0..self.npool {
                let lp = self.t[self.lp(p)].id.clone();
                for u in 0..7 {
                    let d: Result<Uint128, String> = self.c.query(&self.inc, &QueryMsg::Deposit { lp_token: lp.clone(), user: NAMES[u].into() });
                    ctx.check("C17", "deposit-query", d == Ok(U::new(m.pools[p].stake[u])), || format!("staked by {} in pool {p}: {d:?}, deposits minus withdrawals are {}", NAMES[u], m.pools[p].stake[u]));
                }
                if !m.pools[p].exists {
                    continue;
                }
                m.touch(p);
                for u in 0..7 {
                    if m.pools[p].stake[u] == 0 {
                        continue;
                    }
                    let q: Result<Vec<Asset>, String> = self.c.query(&self.inc, &QueryMsg::PendingRewards { lp_token: lp.clone(), user: NAMES[u].into() });
                    let (due, int, tol) = m.due(p, u);
                    match q {
                        Err(e) => ctx.violate("C17", "pending-unreadable", format!("pending rewards of {} in pool {p}: {e}", NAMES[u])),
                        Ok(v) => {
                            for r in 0..self.t.len() {
                                let got: u128 = v.iter().filter(|a| a.info == self.t[r].info).map(|a| a.amount.u128()).sum();
                                let want = due.get(&r).copied().unwrap_or(0) + if r == self.astro { int } else { 0 };
                                ctx.check("C17", "pending", got.abs_diff(want) <= tol, || {
                                    format!("pending {} of {} in pool {p} at {now}: {got}, the share of what was emitted while staked is {want} (tolerance {tol})", self.t[r].id, NAMES[u])
                                });
                            }
                        }
                    }
                }
                // schedules
                let r = h % self.t.len();
                let q: Result<Vec<ScheduleResponse>, String> = self.c.query(&self.inc, &QueryMsg::ExternalRewardSchedules { reward: self.t[r].id.clone(), lp_token: lp.clone(), start_after: None, limit: None });
                match (q, m.pools[p].act.get(&r)) {
                    (Ok(v), Some(a)) => {
                        let mut at = now;
                        let mut ok = true;
                        for s in &v {
                            let want = a.rate(s.start_ts);
                            let got = W::from(s.rps.atomics());
                            ok &= s.start_ts == at && s.end_ts > s.start_ts && dist(got, want) <= u512(16) && a.rate(s.end_ts - 1) == want;
                            at = s.end_ts;
                        }
                        let paged = pages(|after: Option<ScheduleResponse>, n| self.c.query(&self.inc, &QueryMsg::ExternalRewardSchedules { reward: self.t[r].id.clone(), lp_token: lp.clone(), start_after: after.map(|x| x.end_ts), limit: Some(n) }), 1 + (h % 3) as u8);
                        ctx.check("C17", "schedules-pages", paged.as_ref() == Ok(&v), || format!("schedules of {} in pool {p} page by page: {paged:?}, all at once {v:?}", self.t[r].id));
                        ctx.check("C17", "schedules", ok && at == a.end(), || format!("schedules of {} in pool {p} at {now}: {v:?}; funded: {:?}", self.t[r].id, a.segs));
                    }
                    (Err(_), None) => ctx.check("C17", "schedules", true, String::new),
                    (q, a) => ctx.violate("C17", "schedules", format!("schedules of {} in pool {p} at {now}: {q:?}; funded: {a:?}", self.t[r].id)),
                }
                let st: Vec<(String, U)> = self.c.query(&self.inc, &QueryMsg::PoolStakers { lp_token: lp.clone(), start_after: None, limit: None }).unwrap_or_default();
                let want: BTreeMap<String, U> = (0..7).filter(|u| m.pools[p].stake[*u] > 0).map(|u| (NAMES[u].to_string(), U::new(m.pools[p].stake[u]))).collect();
                let paged = pages(|after: Option<(String, U)>, n| self.c.query(&self.inc, &QueryMsg::PoolStakers { lp_token: lp.clone(), start_after: after.map(|x| x.0), limit: Some(n) }), 1 + (h % 3) as u8);
                ctx.check("C17", "stakers-pages", paged.as_ref() == Ok(&st), || format!("stakers of pool {p} page by page: {paged:?}, all at once {st:?}"));
                let from = NAMES[ctx.step % 7].to_string();
                let after: Result<Vec<(String, U)>, String> = self.c.query(&self.inc, &QueryMsg::PoolStakers { lp_token: lp.clone(), start_after: Some(from.clone()), limit: Some(2) });
                let rest: Vec<(String, U)> = st.iter().filter(|x| x.0 > from).take(2).cloned().collect();
                ctx.check("C17", "stakers-pages", after.as_ref() == Ok(&rest), || format!("stakers of pool {p} after {from}: {after:?}, expected {rest:?}"));
                ctx.check("C17", "stakers", st.len() == want.len() && st.iter().cloned().collect::<BTreeMap<_, _>>() == want, || format!("stakers of pool {p}: {st:?}, expected {want:?}"));
                let pi: Result<PoolInfoResponse, String> = self.c.query(&self.inc, &QueryMsg::PoolInfo { lp_token: lp.clone() });
                ctx.check("C17", "total", pi.as_ref().is_ok_and(|x| x.total_lp.u128() == m.pools[p].total), || format!("pool {p}: {pi:?}, staked are {}", m.pools[p].total));
            }
        }
        if ctx.on("C20") {
            self.check_emissions(&mut m, ctx);
        }
        if ctx.on("C18") {
            self.check_solvency(ctx);
        }
    }

    fn check_solvency(&mut self, ctx: &mut Ctx) {
        let req = self.m.required();
        for r in 0..self.t.len() {
            let have = self.t[r].bal(&self.c, &self.inc);
            let need = req.get(&r).map(|x| low(*x / u512(S18))).unwrap_or(0);
            let staked = if r > self.nrew + 3 && r <= self.nrew + 3 + self.npool { self.m.pools[r - self.nrew - 4].total } else { 0 };
            ctx.check("C18", "solvent", have + 1 >= need + staked, || {
                format!("the contract holds {have} {}, but owes {staked} staked and {need} rewards", self.t[r].id)
            });
            let slack = self.stuck.get(&r).copied().unwrap_or(0) + self.dust.get(&r).copied().unwrap_or(0) + 1000;
            ctx.check("C18", "nothing-lost", have <= need + staked + slack, || {
                format!("the contract holds {have} {}, of which only {staked} staked and {need} rewards are owed to anybody (explained: {slack})", self.t[r].id)
            });
        }
        ctx.check("C18", "emission-cap", self.paid_int <= self.budget, || format!("{} ASTRO claimed, emitted were {}", self.paid_int, self.budget));
        ctx.check("C20", "emission-cap", self.paid_int <= self.budget, || format!("{} ASTRO claimed, emitted were {}", self.paid_int, self.budget));
    }

    fn check_emissions(&mut self, m: &mut Model, ctx: &mut Ctx) {
        let q: Result<Vec<(String, U)>, String> = self.c.query(&self.inc, &QueryMsg::ActivePools {});
        let got: Option<BTreeMap<String, U>> = q.as_ref().ok().map(|v| v.iter().cloned().collect());
        let want: BTreeMap<String, U> = m.active.iter().map(|(p, a)| (self.t[self.lp(*p)].id.clone(), U::new(*a))).collect();
        ctx.check("C20", "active-pools", got.as_ref() == Some(&want) && q.as_ref().is_ok_and(|v| v.len() == want.len()), || format!("active pools are {q:?}, expected {want:?}"));
        let c: Result<Config, String> = self.c.query(&self.inc, &QueryMsg::Config {});
        match &c {
            Ok(c) => ctx.check("C20", "config", c.astro_token == self.t[self.astro].info
                && c.vesting_contract == self.vest[self.cur]
                && c.guardian.as_ref().map(|g| g.as_str()) == self.guardian.then_some(NAMES[GUARD])
                && c.generator_controller.as_ref().map(|g| g.as_str()) == self.ctrl.then_some(NAMES[CTRL])
                && c.incentivization_fee_info.as_ref().map(|f| (f.fee.denom.clone(), f.fee.amount.u128(), f.fee_receiver.to_string())) == self.fee.map(|(t, x)| (self.t[t].id.clone(), x, NAMES[SINK].to_string()))
                && c.total_alloc_points.u128() == m.alloc && c.astro_per_second.u128() == m.aps, || {
                format!("the configuration is {c:?}, expected {} allocation points at {} {} per second from vesting {}, guardian {}, controller {}, fee {:?}", m.alloc, m.aps, self.t[self.astro].id, self.cur, self.guardian, self.ctrl, self.fee)
            }),
            Err(e) => ctx.violate("C20", "config", e.clone()),
        }
        let mut sum = W::zero();
        for p in 0..self.npool {
            if !m.pools[p].exists {
                continue;
            }
            m.touch(p);
            let q: Result<Vec<RewardInfo>, String> = self.c.query(&self.inc, &QueryMsg::RewardInfo { lp_token: self.t[self.lp(p)].id.clone() });
            let Ok(v) = q else {
                ctx.violate("C20", "reward-info", format!("rewards of pool {p}: {q:?}"));
                continue;
            };
            let labels: Vec<&AssetInfo> = v.iter().filter(|r| !r.reward.is_external()).map(|r| r.reward.asset_info()).collect();
            ctx.check("C20", "protocol-token", labels.iter().all(|l| **l == self.t[self.astro].info), || format!("pool {p} pays protocol rewards in {labels:?}, they are paid in {}", self.t[self.astro].id));
            let int: W = v.iter().filter(|r| !r.reward.is_external()).fold(W::zero(), |a, r| a + W::from(r.rps.atomics()));
            sum += int;
            ctx.check("C20", "emission", dist(int, m.pools[p].int_rate) <= u512(1), || {
                format!("pool {p} receives {} ASTRO*1e18 per second, its share is {}", int, m.pools[p].int_rate)
            });
            let ext: BTreeMap<String, W> = v.iter().filter(|r| r.reward.is_external()).map(|r| (r.reward.asset_info().to_string(), W::from(r.rps.atomics()))).collect();
            let want: BTreeMap<String, W> = m.pools[p].act.iter().map(|(r, a)| (self.t[*r].id.clone(), a.rate(self.m.now))).collect();
            ctx.check("C20", "external-rewards", ext.len() == want.len() && ext.iter().all(|(k, x)| want.get(k).is_some_and(|y| dist(*x, *y) <= u512(16))), || {
                format!("pool {p} pays external rewards {ext:?} per second, funded are {want:?}")
            });
            ctx.check("C20", "reward-limit", ext.keys().filter(|k| **k != self.t[0].id && **k != self.t[self.astro].id).count() <= MAX_REWARD_TOKENS as usize, || {
                format!("pool {p} has external rewards {:?}", ext.keys().collect::<Vec<_>>())
            });
            let r = (ctx.step * 3 + p) % self.t.len();
            let fe: Result<bool, String> = self.c.query(&self.inc, &QueryMsg::IsFeeExpected { lp_token: self.t[self.lp(p)].id.clone(), reward: self.t[r].id.clone() });
            ctx.check("C20", "fee-expected", fe == Ok(r != self.astro && !m.pools[p].act.contains_key(&r)), || format!("fee expected for {} in pool {p}: {fe:?}", self.t[r].id));
        }
        ctx.check("C20", "emission-sum", sum <= u512(m.aps) * u512(S18), || format!("all pools together receive {sum} ASTRO*1e18 per second, the limit is {}", m.aps));
        let b: Result<Vec<AssetInfo>, String> = self.c.query(&self.inc, &QueryMsg::BlockedTokensList { start_after: None, limit: None });
        let paged = pages(|after: Option<AssetInfo>, n| self.c.query(&self.inc, &QueryMsg::BlockedTokensList { start_after: after, limit: Some(n) }), 1 + (ctx.step % 3) as u8);
        ctx.check("C20", "blocked-pages", paged == b, || format!("blocked tokens page by page: {paged:?}, all at once {b:?}"));
        let lp: Result<Vec<String>, String> = pages(|after: Option<String>, n| self.c.query(&self.inc, &QueryMsg::ListPools { start_after: after, limit: Some(n) }), 1 + (ctx.step % 3) as u8);
        let want: BTreeSet<String> = (0..self.npool).filter(|p| m.pools[*p].exists).map(|p| self.t[self.lp(p)].id.clone()).collect();
        ctx.check("C20", "list-pools", lp.as_ref().is_ok_and(|v| v.len() == want.len() && v.iter().cloned().collect::<BTreeSet<_>>() == want), || format!("pools listed {lp:?}, expected {want:?}"));
        let got: Option<BTreeSet<String>> = b.as_ref().ok().map(|v| v.iter().map(|a| a.to_string()).collect());
        let want: BTreeSet<String> = m.blocked.iter().map(|r| self.t[*r].id.clone()).collect();
        ctx.check("C20", "blocked-list", got.as_ref() == Some(&want) && b.as_ref().is_ok_and(|v| v.len() == want.len()), || format!("blocked tokens are {b:?}, expected {want:?}"));
    }
}

/// a list read page by page
fn pages<T: Clone>(f: impl Fn(Option<T>, u8) -> Result<Vec<T>, String>, n: u8) -> Result<Vec<T>, String> {
    let mut v: Vec<T> = vec![];
    loop {
        let page = f(v.last().cloned(), n)?;
        if page.len() > n as usize {
            return Err(format!("a page of {n} has {} entries", page.len()));
        }
        let k = page.len();
        v.extend(page);
        if k < n as usize || v.len() > 1000 {
            return Ok(v);
        }
    }
}

fn dist(a: W, b: W) -> W {
    if a > b {
        a - b
    } else {
        b - a
    }
}

impl Scenario for IncScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "incentives";

    fn cfg(rng: &mut Rng, _prop: &str, thorough: bool) -> (Cfg, Sched) {
        let mut nrew = rng.range(1, 7) as usize;
        let crowd = rng.pct(15);
        if crowd {
            nrew = 7;
        }
        let cfg = Cfg {
            crowd,
            astro_cw20: rng.pct(40),
            pools: rng.range(1, 3) as usize,
            rew: (0..nrew).map(|_| Tok { cw20: rng.pct(40), dec: 6 }).collect(),
            fee: rng.pct(60).then(|| (rng.log(1, 1_000_000) as u64, rng.pct(30))),
            start: rng.below(EPOCH),
            aps: *rng.pick(&[0, 1, 7, 1_000_000, 123_456_789]),
            lp: (0..USERS).map(|_| U::new(rng.log(2_000, 1_000_000_000_000_000))).collect(),
            gas_limit: rng.pct(60),
            old_lp: (0..3).map(|_| rng.pct(25)).collect(),
        };
        let mut s = Sched::draw(rng, if thorough { 200 } else { 80 });
        s.same_block_pct = *rng.pick(&[10, 40, 60]);
        (cfg, s)
    }

    fn new(cfg: &Cfg, _ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(1_700_000_000 / EPOCH * EPOCH + cfg.start, 1000);
        let codes = [reg_pair(&c), reg_stable(&c), c.store_code(code!("legacy_pair", inst = legacy_inst, exec = legacy_exec, query = legacy_query))];
        let d = deploy(
            &c,
            vec![pair_config(codes[0], PairType::Xyk {}, 30, 3333), pair_config(codes[1], PairType::Stable {}, 5, 5000), pair_config(codes[2], PairType::Custom("legacy".into()), 30, 3333)],
            None,
            None,
        )?;
        let big = 1u128 << 100;
        let hold: Vec<(&str, u128)> = NAMES.iter().map(|n| (*n, big)).collect();
        let mut t = vec![make_token(&c, d.cw20_code, "uastro", &Tok { cw20: cfg.astro_cw20, dec: 6 }, &hold)?];
        for (i, k) in cfg.rew.iter().enumerate() {
            t.push(make_token(&c, d.cw20_code, &format!("urew{i}"), k, &hold)?);
        }
        for n in ["uaa", "ubb", "ucc"] {
            t.push(make_token(&c, d.cw20_code, n, &Tok { cw20: false, dec: 6 }, &hold)?);
            d.register_coin(n, 6)?;
        }
        let a0 = 1 + cfg.rew.len();
        let old = |p: usize| cfg.old_lp.get(p) == Some(&true);
        let ptypes: Vec<usize> = (0..3).map(|p| if old(p) { 2 } else { p % 2 }).collect();
        let pair_assets = vec![[a0, a0 + 1], [a0 + 1, a0 + 2], [a0, a0 + 2]];
        for p in 0..cfg.pools {
            let infos: Vec<AssetInfo> = pair_assets[p].iter().map(|i| t[*i].info.clone()).collect();
            let ty = pool_type(ptypes[p]);
            let init = (ptypes[p] == 1).then(|| to_json_binary(&pair::StablePoolParams { amp: 100, owner: None }).unwrap());
            let pi = d.create_pair(OWNER, ty, infos.clone(), init)?;
            if old(p) {
                let lp = c.instantiate(
                    d.cw20_code,
                    OWNER,
                    &cw20_base::msg::InstantiateMsg {
                        name: "lp token".into(),
                        symbol: "LPTOKEN".into(),
                        decimals: 6,
                        initial_balances: (0..USERS).map(|u| cw20::Cw20Coin { address: NAMES[u].into(), amount: cfg.lp[u] }).collect(),
                        mint: Some(cw20::MinterResponse { minter: pi.contract_addr.to_string(), cap: None }),
                        marketing: None,
                    },
                    &[],
                    "lp",
                    None,
                )?;
                c.execute(OWNER, pi.contract_addr.as_str(), &lp, &[])?;
                t.push(Asst { info: AssetInfo::cw20_unchecked(lp.clone()), id: lp, dec: 6, native: false });
                continue;
            }
            for u in 0..USERS {
                let x = cfg.lp[u].u128();
                let funds = coins(&[(&t[pair_assets[p][0]].id, x), (&t[pair_assets[p][1]].id, x)]);
                c.execute(
                    NAMES[u],
                    pi.contract_addr.as_str(),
                    &pair::ExecuteMsg::ProvideLiquidity { assets: infos.iter().map(|i| i.with_balance(x)).collect(), slippage_tolerance: Some(Decimal::percent(50)), auto_stake: None, receiver: None, min_lp_to_receive: None },
                    &funds,
                )?;
            }
            t.push(Asst { info: AssetInfo::native(pi.liquidity_token.clone()), id: pi.liquidity_token, dec: 6, native: true });
        }
        for n in NAMES {
            c.faucet(n, "uastrob", big);
        }
        t.push(Asst { info: AssetInfo::native("uastrob"), id: "uastrob".into(), dec: 6, native: true });
        c.faucet(OWNER, "ufee", 1 << 90);
        for n in NAMES {
            c.faucet(n, "ufee", 1 << 90);
        }
        t.push(Asst { info: AssetInfo::native("ufee"), id: "ufee".into(), dec: 6, native: true });
        let vc = reg_vesting(&c);
        let mut vest = [String::new(), String::new(), String::new()];
        for (i, v) in vest.iter_mut().enumerate() {
            *v = c.instantiate(vc, OWNER, &vesting::InstantiateMsg { owner: OWNER.into(), vesting_token: t[if i == 2 { t.len() - 2 } else { 0 }].info.clone() }, &[], &format!("vesting{i}"), None)?;
        }
        let fee = cfg.fee.map(|(x, in_rew)| {
            let tok = (1..=cfg.rew.len()).find(|r| in_rew && t[*r].native).unwrap_or(t.len() - 1);
            (tok, x as u128)
        });
        let ic = reg_incentives(&c);
        let inc = c.instantiate(
            ic,
            OWNER,
            &InstantiateMsg {
                owner: OWNER.into(),
                factory: d.factory.clone(),
                astro_token: t[0].info.clone(),
                vesting_contract: vest[0].clone(),
                incentivization_fee_info: fee.map(|(r, x)| IncentivizationFeeInfo { fee_receiver: Addr::unchecked(NAMES[SINK]), fee: Coin::new(x, &t[r].id) }),
                guardian: Some(NAMES[GUARD].into()),
            },
            &[],
            "incentives",
            None,
        )?;
        d.set_generator(&inc)?;
        let fund = 1u128 << 96;
        for (i, v) in vest.iter().enumerate() {
            let tok = &t[if i == 2 { t.len() - 2 } else { 0 }];
            let accs = vec![vesting::VestingAccount {
                address: inc.clone(),
                schedules: vec![vesting::VestingSchedule { start_point: vesting::VestingSchedulePoint { time: 1, amount: U::new(fund) }, end_point: None }],
            }];
            if tok.native {
                c.execute(OWNER, v, &vesting::ExecuteMsg::RegisterVestingAccounts { vesting_accounts: accs }, &coins(&[(&tok.id, fund)]))?;
            } else {
                c.execute(
                    OWNER,
                    &tok.id,
                    &cw20::Cw20ExecuteMsg::Send { contract: v.clone(), amount: U::new(fund), msg: to_json_binary(&vesting::Cw20HookMsg::RegisterVestingAccounts { vesting_accounts: accs }).unwrap() },
                    &[],
                )?;
            }
        }
        let mut s = IncScn {
            factory: d.factory.clone(),
            inc,
            vest,
            cur: 0,
            nrew: cfg.rew.len(),
            crowd: cfg.crowd,
            npool: cfg.pools,
            pair_assets,
            codes,
            ptypes,
            type_blocked: [false; 3],
            twin: [false; 3],
            m: Model { pools: (0..cfg.pools).map(|_| PoolM { registered: true, ..Default::default() }).collect(), now: c.now(), ..Default::default() },
            fee,
            guardian: true,
            ctrl: false,
            gas_limit: false,
            broken: BTreeMap::new(),
            stuck: BTreeMap::new(),
            dust: BTreeMap::new(),
            paid_int: 0,
            budget: 0,
            vest_left: [fund; 3],
            astro: 0,
            t,
            c,
        };
        if cfg.gas_limit {
            s.conf(OWN, 3, 500_000, _ctx);
        }
        if cfg.aps > 0 {
            s.exec(OWN, &ExecuteMsg::SetTokensPerSecond { amount: U::new(cfg.aps as u128) }, &[])?;
            s.m.aps = cfg.aps as u128;
        }
        Ok(s)
    }

    fn advance(&mut self, rng: &mut Rng, s: &Sched) -> (u64, u64) {
        if rng.pct(s.same_block_pct) {
            return (0, 0);
        }
        let now = self.c.now();
        let ends: Vec<u64> = self.m.pools.iter().flat_map(|p| p.act.values().flat_map(|a| a.segs.iter().map(|s| s.1))).filter(|e| *e > now).collect();
        if !ends.is_empty() && rng.pct(20) {
            let e = *rng.pick(&ends) + rng.below(3);
            return ((e - now).saturating_sub(1).max(1), rng.range(1, 1000));
        }
        if rng.pct(30) {
            let d = rng.log(600, 20 * 86_400) as u64;
            return (d, rng.range(1, d / 5));
        }
        default_advance(rng, s)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        let u = rng.idx(USERS);
        let p = rng.idx(self.npool);
        let rew = |rng: &mut Rng, s: &Self| -> usize {
            match rng.below(12) {
                0 => 0,
                1 => s.lp(rng.idx(s.npool)),
                2 => 1 + s.nrew + rng.idx(3),
                3 => s.t.len() - 1,
                _ => 1 + rng.idx(s.nrew),
            }
        };
        let boss = |rng: &mut Rng| if rng.pct(90) { OWN } else { rng.idx(NAMES.len()) };
        match rng.weighted(&[18, 14, 14, 20, 7, 3, 8, 5, 4, 2, 1, 2, 2, 4, 3, 4, 1, 5]) {
            0 => Op::Deposit { u, p, permille: rng.range(1, 1000), to: rng.pct(15).then(|| rng.idx(7)), quirk: if rng.pct(8) { rng.range(1, 3) as u8 } else { 0 } },
            1 => Op::Withdraw { u: if rng.pct(95) { u } else { rng.idx(7) }, p, permille: *rng.pick(&[1, 333, 1000, 1000, 1001, 0]) },
            2 => {
                let mut v: Vec<usize> = (0..self.npool).filter(|_| rng.pct(60)).collect();
                if rng.pct(5) {
                    v.push(p);
                }
                Op::Claim { u, pools: v }
            }
            3 if self.crowd && rng.pct(80) => Op::Incentivize {
                u: rng.idx(6),
                items: (0..rng.range(1, 3)).map(|_| Item { p: 0, r: rng.idx(8), rate: U::new(rng.log(1000, 1_000_000)), extra: rng.below(1000), periods: *rng.pick(&[2, 5, 8, 25]) }).collect(),
                quirk: 0,
            },
            3 => {
                let n = if rng.pct(25) { rng.range(2, 3) } else { 1 };
                Op::Incentivize {
                    u: rng.idx(6),
                    items: (0..n)
                        .map(|_| (rng.below(100), Item {
                            p: rng.idx(self.npool),
                            r: rew(rng, self),
                            rate: U::new(if rng.pct(6) { 999 } else { rng.log(1000, 100_000_000_000) }),
                            extra: rng.below(1000),
                            periods: *rng.pick(&[1, 1, 1, 1, 2, 2, 2, 3, 3, 5, 8, 25, 26, 0]),
                        }))
                        // exactly the least rate, or one unit short of it
                        .map(|(x, i)| match x {
                            0..=3 => Item { rate: U::new(1000), extra: 0, ..i },
                            4..=7 => Item { rate: U::zero(), extra: 0, ..i },
                            _ => i,
                        })
                        .collect(),
                    quirk: if rng.pct(12) { rng.range(1, 5) as u8 } else { 0 },
                }
            }
            4 => {
                let mut act: Vec<(usize, usize)> = self.m.pools.iter().enumerate().flat_map(|(p, m)| m.act.keys().map(move |r| (p, *r))).collect();
                if act.is_empty() || rng.pct(5) {
                    act.push((p, rew(rng, self)));
                }
                let n = if rng.pct(30) { 2 } else { 1 };
                Op::Remove { u: boss(rng), rm: (0..n).map(|_| { let (a, b) = *rng.pick(&act); (a, b, rng.pct(25)) }).collect(), to: rng.idx(USERS) }
            }
            5 => Op::Orphans { u: boss(rng), limit: *rng.pick(&[None, None, Some(1), Some(2), Some(2), Some(0), Some(200)]), to: rng.idx(USERS) },
            6 => {
                let mut v: Vec<(usize, U)> = (0..self.npool).filter_map(|p| if rng.pct(65) { Some((p, U::new(rng.log(1, 1000)))) } else { None }).collect();
                if rng.pct(6) {
                    v.push((p, U::new(rng.below(3) as u128)));
                }
                Op::Setup { u: if rng.pct(20) { CTRL } else { boss(rng) }, pools: v }
            }
            7 => Op::Aps { u: boss(rng), amt: U::new(*rng.pick(&[0, 0, 1, 3, 1_000_000, 777_777_777])) },
            8 => {
                let n = self.t.len();
                let mut add: Vec<usize> = (0..rng.range(0, 2)).map(|_| if rng.pct(60) { 1 + self.nrew + rng.idx(3) } else { rng.idx(n) }).collect();
                let bl: Vec<usize> = self.m.blocked.iter().copied().collect();
                let remove = if !bl.is_empty() && rng.pct(70) { bl.into_iter().filter(|_| rng.pct(70)).collect() } else { vec![] };
                if rng.pct(3) {
                    add.extend(remove.first().copied());
                }
                Op::Block { u: if rng.pct(30) { GUARD } else { boss(rng) }, add, remove }
            }
            9 => Op::Deregister { u: boss(rng), p },
            10 => Op::Deactivate { u: rng.idx(NAMES.len()), p },
            11 => Op::TypeBlock { t: rng.idx(3), on: rng.pct(50) },
            12 => Op::DeactivateBlocked { u: rng.idx(NAMES.len()) },
            13 => Op::Conf { u: boss(rng), what: rng.below(10) as u8, v: *rng.pick(&[0, 399_999, 400_000, 500_000, 1_500_000, 1_500_001, 7]) },
            14 => Op::Break { r: 1 + rng.idx(self.nrew), how: rng.range(0, 2) as u8 },
            15 => Op::Mend,
            16 => Op::Recreate { u: boss(rng), p: (0..self.npool).find(|p| !self.m.pools[*p].registered).unwrap_or(p) },
            _ => Op::Idle,
        }
    }

    fn apply(&mut self, st: &Step<Op>, ctx: &mut Ctx) {
        self.c.advance(st.dt, st.db);
        self.m.now = self.c.now();
        if self.m.alloc > 0 {
            self.budget += self.m.aps * st.dt as u128;
        }
        let pre = self.snap();
        let fault = st.fault.clone();
        match st.op.clone() {
            Op::Deposit { u, p, permille, to, quirk } => self.deposit(u, p, permille, to, quirk, fault, &pre, ctx),
            Op::Withdraw { u, p, permille } => {
                self.withdraw(u, p, permille, fault, &pre, ctx);
            }
            Op::Claim { u, pools } => {
                let back = self.m.clone();
                let uniq: BTreeSet<usize> = pools.iter().copied().collect();
                let valid = uniq.len() == pools.len() && pools.iter().all(|p| self.m.pools[*p].stake[u] > 0);
                let (due, int, tol) = if valid { self.collect(u, &pools) } else { Default::default() };
                let pay = self.payable(&due, int, tol);
                self.c.0.borrow_mut().fault = fault;
                let r = self.exec(u, &ExecuteMsg::ClaimRewards { lp_tokens: pools.iter().map(|p| self.t[self.lp(*p)].id.clone()).collect() }, &[]);
                let faulted = self.fault_mark(ctx);
                ctx.outcome("claim", r.is_ok(), r.as_ref().err().map_or("", |s| s));
                for q in ["C17", "C19"] {
                    ctx.check(q, "claim", if r.is_ok() { valid && (pay != Some(false) || faulted) } else { !valid || faulted || pay != Some(true) }, || {
                        format!("{} claims from pools {pools:?} (positions: {valid}, payable: {pay:?}): {:?}", NAMES[u], r.as_ref().err())
                    });
                }
                if r.is_ok() {
                    self.flows("claim", &pre, &[], &due, u, int, tol, faulted, ctx);
                    for p in pools {
                        self.m.settle(p, u);
                    }
                } else {
                    self.m = back;
                    self.unchanged("claim", &pre, ctx);
                }
            }
            Op::Incentivize { u, items, quirk } => self.incent(u, &items, quirk, fault, &pre, ctx),
            Op::Remove { u, rm, to } => self.remove(u, &rm, to, fault, &pre, ctx),
            Op::Orphans { u, limit, to } => self.orphans(u, limit, to, fault, &pre, ctx),
            Op::Setup { u, pools } => {
                let set: BTreeSet<usize> = pools.iter().map(|x| x.0).collect();
                let valid = (u == OWN || (u == CTRL && self.ctrl))
                    && set.len() == pools.len()
                    && pools.iter().all(|(p, a)| {
                        !a.is_zero() && self.m.pools[*p].registered && !self.type_blocked[self.ptypes[*p]] && self.pair_assets[*p].iter().all(|x| !self.m.blocked.contains(x))
                    });
                self.c.0.borrow_mut().fault = fault;
                let r = self.exec(u, &ExecuteMsg::SetupPools { pools: pools.iter().map(|(p, a)| (self.t[self.lp(*p)].id.clone(), *a)).collect() }, &[]);
                self.simple("setup_pools", u, &r, valid, &pre, ctx);
                if r.is_ok() {
                    for (p, _) in self.m.active.clone() {
                        self.m.touch(p);
                        self.m.pools[p].int_rate = W::zero();
                    }
                    self.m.active = pools.iter().map(|(p, a)| (*p, a.u128())).collect();
                    self.m.alloc = pools.iter().map(|x| x.1.u128()).sum();
                    self.m.set_rates();
                }
            }
            Op::Aps { u, amt } => {
                self.c.0.borrow_mut().fault = fault;
                let r = self.exec(u, &ExecuteMsg::SetTokensPerSecond { amount: amt }, &[]);
                self.simple("set_rate", u, &r, u == OWN, &pre, ctx);
                if r.is_ok() {
                    for (p, _) in self.m.active.clone() {
                        self.m.touch(p);
                    }
                    self.m.aps = amt.u128();
                    self.m.set_rates();
                }
            }
            Op::Block { u, add, remove } => {
                let all: BTreeSet<usize> = add.iter().chain(&remove).copied().collect();
                let valid = (u == OWN || (u == GUARD && self.guardian))
                    && all.len() == add.len() + remove.len()
                    && remove.iter().all(|r| self.m.blocked.contains(r))
                    && add.iter().all(|r| *r != self.astro && !self.m.blocked.contains(r));
                let i = |v: &Vec<usize>| v.iter().map(|r| self.t[*r].info.clone()).collect::<Vec<_>>();
                self.c.0.borrow_mut().fault = fault;
                let r = self.exec(u, &ExecuteMsg::UpdateBlockedTokenslist { add: i(&add), remove: i(&remove) }, &[]);
                self.simple("block_tokens", u, &r, valid, &pre, ctx);
                if r.is_ok() {
                    for x in remove {
                        self.m.blocked.remove(&x);
                    }
                    self.m.blocked.extend(add.iter().copied());
                    let gone: BTreeSet<usize> = self.m.active.iter().map(|x| x.0).filter(|p| self.pair_assets[*p].iter().any(|x| add.contains(x))).collect();
                    if !gone.is_empty() {
                        if gone.len() < self.m.active.len() {
                            ctx.hit("probe.block_disables_pool");
                        }
                        self.m.drop_active(&gone);
                    }
                }
            }
            Op::Deregister { u, p } => {
                let infos: Vec<AssetInfo> = self.pair_assets[p].iter().map(|x| self.t[*x].info.clone()).collect();
                self.c.0.borrow_mut().fault = fault;
                let r = self.c.execute(NAMES[u], &self.factory.clone(), &astroport::factory::ExecuteMsg::Deregister { asset_infos: infos }, &[]);
                let valid = u == OWN && (self.m.pools[p].registered || self.twin[p]);
                self.simple("deregister", u, &r, valid, &pre, ctx);
                if r.is_ok() && self.twin[p] {
                    self.twin[p] = false;
                } else if r.is_ok() {
                    self.m.pools[p].registered = false;
                    if self.m.active.iter().any(|x| x.0 == p) {
                        ctx.hit("probe.active_pool_deregistered");
                        self.m.drop_active(&[p].into());
                    }
                }
            }
            Op::Recreate { u, p } => {
                let infos: Vec<AssetInfo> = self.pair_assets[p].iter().map(|x| self.t[*x].info.clone()).collect();
                self.c.0.borrow_mut().fault = fault;
                let msg = astroport::factory::ExecuteMsg::CreatePair { pair_type: PairType::Xyk {}, asset_infos: infos, init_params: None };
                let r = self.c.execute(NAMES[u], &self.factory.clone(), &msg, &[]);
                let valid = !self.m.pools[p].registered && !self.twin[p];
                self.simple("create_again", u, &r, valid, &pre, ctx);
                if r.is_ok() {
                    ctx.hit("probe.pool_replaced");
                    self.twin[p] = true;
                }
            }
            Op::Deactivate { u, p } => {
                self.c.0.borrow_mut().fault = fault;
                let r = self.exec(u, &ExecuteMsg::DeactivatePool { lp_token: self.t[self.lp(p)].id.clone() }, &[]);
                self.simple("deactivate_by_stranger", u, &r, false, &pre, ctx);
            }
            Op::TypeBlock { t, on } => {
                let ty = pool_type(t);
                let mut config = pair_config(self.codes[t], ty, 30, 3333);
                config.is_generator_disabled = on;
                if self.c.execute(OWNER, &self.factory.clone(), &astroport::factory::ExecuteMsg::UpdatePairConfig { config }, &[]).is_ok() {
                    self.type_blocked[t] = on;
                }
            }
            Op::DeactivateBlocked { u } => {
                self.c.0.borrow_mut().fault = fault;
                let r = self.exec(u, &ExecuteMsg::DeactivateBlockedPools {}, &[]);
                self.simple("deactivate_blocked", u, &r, true, &pre, ctx);
                if r.is_ok() {
                    let gone: BTreeSet<usize> = self.m.active.iter().map(|x| x.0).filter(|p| self.type_blocked[self.ptypes[*p]]).collect();
                    if !gone.is_empty() {
                        ctx.hit("probe.blocked_type_deactivated");
                        self.m.drop_active(&gone);
                    }
                }
            }
            Op::Conf { u, what, v } => {
                self.c.0.borrow_mut().fault = fault;
                self.conf(u, what, v, ctx);
            }
            Op::Break { r, how } => {
                let mut s = self.c.0.borrow_mut();
                let id = self.t[r].id.clone();
                if self.t[r].native {
                    s.frozen_denoms.insert(id);
                    self.broken.insert(r, 0);
                } else if how == 2 {
                    s.gas_bombs.insert(id);
                    self.broken.insert(r, 2);
                } else {
                    s.dead_contracts.insert(id.clone());
                    s.gas_bombs.remove(&id);
                    self.broken.insert(r, 1);
                }
                drop(s);
                ctx.hit(["fault.denom_frozen", "fault.token_contract_dead", "fault.token_burns_all_gas"][self.broken[&r] as usize]);
            }
            Op::Mend => self.mend(),
            Op::Idle => ctx.outcome("idle", true, ""),
        }
        self.c.0.borrow_mut().fault = None;
        // balances of tokens are read by the checks: a dead contract still answers queries
        self.checks(ctx);
    }

    fn finish(&mut self, ctx: &mut Ctx) {
        self.mend();
        self.c.0.borrow_mut().fault = None;
        let end = self.m.pools.iter().flat_map(|p| p.act.values().map(|a| a.end())).max().unwrap_or(0).max(self.c.now());
        let dt = end - self.c.now() + 86_400;
        self.c.advance(dt, dt / 6);
        self.m.now = self.c.now();
        if self.m.alloc > 0 {
            self.budget += self.m.aps * dt as u128;
        }
        // with faults stopped everybody leaves, in any order
        for p in 0..self.npool {
            for k in 0..7 {
                let u = (k + ctx.step) % 7;
                if self.m.pools[p].stake[u] > 0 {
                    let pre = self.snap();
                    let ok = self.withdraw(u, p, 1000, None, &pre, ctx);
                    ctx.check("C19", "exit", ok, || format!("{} cannot leave pool {p} after the faults stopped", NAMES[u]));
                }
            }
        }
        for p in 0..self.npool {
            self.c.advance(1, 1);
            self.m.now = self.c.now();
            if self.m.pools[p].exists {
                // anybody's zero-risk touch: a tiny deposit and its withdrawal settle finished rewards
                let pre = self.snap();
                if self.m.pools[p].registered {
                    self.deposit(0, p, 1, None, 0, None, &pre, ctx);
                    let pre = self.snap();
                    self.withdraw(0, p, 1000, None, &pre, ctx);
                }
            }
        }
        for _ in 0..3 {
            if self.m.orph.values().any(|x| *x > 0) {
                let pre = self.snap();
                self.orphans(OWN, None, 0, None, &pre, ctx);
            }
        }
        self.check_solvency(ctx);
    }

    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now()
    }
}

impl IncScn {
    fn simple(&self, what: &str, u: usize, r: &TxResult, valid: bool, pre: &Snap, ctx: &mut Ctx) {
        let faulted = self.fault_mark(ctx);
        ctx.outcome(what, r.is_ok(), r.as_ref().err().map_or("", |s| s));
        ctx.check("C20", "permission", if r.is_ok() { valid } else { !valid || faulted }, || format!("{what} by {} (valid: {valid}): {:?}", NAMES[u], r.as_ref().err()));
        self.unchanged(what, pre, ctx);
    }

    fn mend(&mut self) {
        let mut s = self.c.0.borrow_mut();
        s.frozen_denoms.clear();
        s.dead_contracts.clear();
        s.gas_bombs.clear();
        self.broken.clear();
    }

    fn conf(&mut self, u: usize, what: u8, v: u64, ctx: &mut Ctx) {
        let mut m = (None, None, None, None);
        let mut valid = u == OWN;
        let mut fee = self.fee;
        let (mut astro, mut vest) = (None, None);
        match what {
            4 | 5 if self.astro != 0 => return,
            4 | 5 => vest = Some(self.vest[what as usize - 4].clone()),
            6 => astro = Some(self.t[self.astro].info.clone()),
            7 => {
                // the protocol moves to another token, together with the vesting contract that pays it
                let to = if self.astro == 0 { (self.t.len() - 2, 2) } else { (0, 0) };
                astro = Some(self.t[to.0].info.clone());
                vest = Some(self.vest[to.1].clone());
            }
            8 => {
                valid = false;
                astro = Some(match v % 3 {
                    0 => AssetInfo::cw20_unchecked("UPPER"),
                    1 => AssetInfo::cw20_unchecked(""),
                    _ => AssetInfo::native(""),
                });
            }
            9 => {
                valid = false;
                vest = Some(if v % 2 == 1 { "UPPER" } else { "" }.to_string());
            }
            0 => m.0 = Some(NAMES[CTRL].to_string()),
            1 => m.1 = Some(NAMES[GUARD].to_string()),
            2 => {
                let tok = if v % 2 == 1 { 1 } else { self.t.len() - 1 };
                valid &= self.t[tok].native;
                fee = Some((tok, v as u128 % 1000 + 1));
                m.2 = Some(IncentivizationFeeInfo { fee_receiver: Addr::unchecked(NAMES[SINK]), fee: Coin::new(v as u128 % 1000 + 1, &self.t[tok].id) });
            }
            _ => {
                valid &= (400_000..=1_500_000).contains(&v);
                m.3 = Some(v);
            }
        }
        if what == 2 && !valid && u == OWN {
            return; // a cw20 address as a fee denom: not judged
        }
        let r = self.exec(u, &ExecuteMsg::UpdateConfig { astro_token: astro, vesting_contract: vest, generator_controller: m.0, guardian: m.1, incentivization_fee_info: m.2, token_transfer_gas_limit: m.3 }, &[]);
        let faulted = self.fault_mark(ctx);
        ctx.outcome("config", r.is_ok(), r.as_ref().err().map_or("", |s| s));
        ctx.check("C20", "permission", if r.is_ok() { valid } else { !valid || faulted }, || format!("configuration {what}={v} by {}: {:?}", NAMES[u], r.as_ref().err()));
        if r.is_ok() {
            match what {
                0 => self.ctrl = true,
                1 => self.guardian = true,
                2 => self.fee = fee,
                4 | 5 => self.cur = what as usize - 4,
                6 => ctx.hit("probe.astro_token_confirmed"),
                7 => {
                    ctx.hit("probe.astro_token_switched");
                    self.astro = if self.astro == 0 { self.t.len() - 2 } else { 0 };
                    self.cur = if self.astro == 0 { 0 } else { 2 };
                }
                _ => self.gas_limit = true,
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn deposit(&mut self, u: usize, p: usize, permille: u64, to: Option<usize>, quirk: u8, fault: Option<Fault>, pre: &Snap, ctx: &mut Ctx) {
        let l = self.lp(p);
        let have = pre[u][l];
        let amt = if quirk == 3 { have + 1 } else { muldiv(have, permille as u128, 1000).max(1) };
        let staker = to.unwrap_or(u);
        let funds = match quirk {
            1 => coins(&[(&self.t[1 + self.nrew].id, amt)]),
            2 => coins(&[(&self.t[l].id, amt), ("ufee", 1)]),
            _ => coins(&[(&self.t[l].id, amt)]),
        };
        let quirk = if quirk == 2 && !self.t[l].native { 0 } else { quirk };
        let valid = self.m.pools[p].registered && quirk == 0 && amt <= have;
        let back = self.m.clone();
        let (due, int, tol) = self.collect(staker, &[p]);
        let pay = self.payable(&due, int, tol);
        self.c.0.borrow_mut().fault = fault;
        let to_s = to.map(|x| NAMES[x].to_string());
        let r = if !self.t[l].native && quirk != 4 {
            let hook = match (&to_s, amt % 2) {
                (Some(x), 1) => Cw20Msg::DepositFor(x.clone()),
                _ => Cw20Msg::Deposit { recipient: to_s.clone() },
            };
            // the wrong token: some cw20 that is no LP token (a native one is refused like any coin)
            let tok = if quirk == 1 { self.t.iter().take(1 + self.nrew).find(|t| !t.native).map_or("nothing", |t| &t.id) } else { &self.t[l].id };
            let msg = cw20::Cw20ExecuteMsg::Send { contract: self.inc.clone(), amount: U::new(amt), msg: to_json_binary(&hook).unwrap() };
            self.c.execute(NAMES[u], tok, &msg, &[])
        } else {
            self.exec(u, &ExecuteMsg::Deposit { recipient: to_s }, &funds)
        };
        let faulted = self.fault_mark(ctx);
        ctx.outcome("deposit", r.is_ok(), r.as_ref().err().map_or("", |s| s));
        ctx.check("C17", "deposit", if r.is_ok() { valid && (pay != Some(false) || faulted) } else { !valid || faulted || pay != Some(true) }, || {
            format!("{} deposits {amt} of {have} LP into pool {p} (valid: {valid}): {:?}", NAMES[u], r.as_ref().err())
        });
        if r.is_err() {
            self.m = back;
            self.unchanged("deposit", pre, ctx);
            return;
        }
        if !self.t[l].native {
            ctx.hit("probe.cw20_lp_staked");
        }
        self.flows("deposit", pre, &[(u, l, -(amt as i128)), (NAMES.len(), l, amt as i128)], &due, staker, int, tol, faulted, ctx);
        self.m.settle(p, staker);
        let m = &mut self.m.pools[p];
        m.stake[staker] += amt;
        m.total += amt;
    }

    fn withdraw(&mut self, u: usize, p: usize, permille: u64, fault: Option<Fault>, pre: &Snap, ctx: &mut Ctx) -> bool {
        let l = self.lp(p);
        let have = self.m.pools[p].stake[u];
        let amt = match permille {
            1001 => have + 1,
            x => muldiv(have, x as u128, 1000).max((x > 0) as u128),
        };
        let valid = have > 0 && amt <= have;
        let back = self.m.clone();
        let (due, int, tol) = if valid { self.collect(u, &[p]) } else { Default::default() };
        let pay = self.payable(&due, int, tol);
        self.c.0.borrow_mut().fault = fault;
        let r = self.exec(u, &ExecuteMsg::Withdraw { lp_token: self.t[l].id.clone(), amount: U::new(amt) }, &[]);
        let faulted = self.fault_mark(ctx);
        ctx.outcome("withdraw", r.is_ok(), r.as_ref().err().map_or("", |s| s));
        // a bank message without coins is refused: not judged
        let judged = amt > 0;
        for q in ["C17", "C19"] {
            ctx.check(q, "withdraw", !judged || if r.is_ok() { valid && (pay != Some(false) || faulted) } else { !valid || faulted || pay != Some(true) }, || {
                format!("{} withdraws {amt} of {have} staked in pool {p} (payable: {pay:?}): {:?}", NAMES[u], r.as_ref().err())
            });
        }
        if !self.broken.is_empty() && r.is_ok() && self.broken.keys().any(|r| due.get(r).is_some_and(|x| *x > 0)) {
            ctx.hit("probe.withdraw_with_broken_reward");
        }
        if r.is_err() {
            self.m = back;
            self.unchanged("withdraw", pre, ctx);
            return false;
        }
        self.flows("withdraw", pre, &[(u, l, amt as i128), (NAMES.len(), l, -(amt as i128))], &due, u, int, tol, faulted, ctx);
        self.m.settle(p, u);
        let m = &mut self.m.pools[p];
        m.stake[u] -= amt;
        m.total -= amt;
        true
    }

    fn incent(&mut self, u: usize, items: &[Item], quirk: u8, fault: Option<Fault>, pre: &Snap, ctx: &mut Ctx) {
        let mut m = self.m.clone();
        let res = self.try_incent(&mut m, items);
        let now = self.m.now;
        let mut need: BTreeMap<usize, u128> = BTreeMap::new();
        match &res {
            Ok(v) => {
                for (r, x) in v {
                    *need.entry(*r).or_default() += x;
                }
            }
            Err(_) => {
                for i in items {
                    *need.entry(i.r).or_default() += self.amount(i, now);
                }
                if let Some((t, x)) = self.fee {
                    *need.entry(t).or_default() += x;
                }
            }
        }
        let mut valid = res.is_ok() && need.iter().all(|(r, x)| pre[u][*r] >= *x && !self.broken.contains_key(r));
        let mut funds: Vec<(String, u128)> = vec![];
        for (r, x) in &need {
            let a = &self.t[*r];
            let mut x = *x;
            if a.native {
                if quirk == 1 && x > 0 {
                    x -= 1;
                    valid = false;
                }
                if quirk == 2 {
                    x += 1;
                    valid = false;
                }
                if x > 0 {
                    funds.push((a.id.clone(), x));
                }
            } else {
                let _ = approve(&self.c, a, NAMES[u], &self.inc, if quirk == 3 { x - 1 } else { x });
                if quirk == 3 {
                    valid = false;
                }
            }
        }
        if quirk == 4 && !need.contains_key(&(2 + self.nrew)) {
            funds.push((self.t[2 + self.nrew].id.clone(), 1));
            valid = false;
        }
        if quirk == 3 || quirk == 1 || quirk == 2 {
            // the variant may not concern any of the tokens
            let any = need.keys().any(|r| self.t[*r].native == (quirk != 3));
            if !any {
                valid = res.is_ok() && need.iter().all(|(r, x)| pre[u][*r] >= *x && !self.broken.contains_key(r));
            }
        }
        let fs: Vec<(&str, u128)> = funds.iter().map(|(a, b)| (a.as_str(), *b)).collect();
        let input: Vec<(String, InputSchedule)> = items
            .iter()
            .map(|i| (self.t[self.lp(i.p)].id.clone(), InputSchedule { reward: self.t[i.r].with(self.amount(i, now)), duration_periods: i.periods }))
            .collect();
        let msg = if input.len() == 1 {
            ExecuteMsg::Incentivize { lp_token: input[0].0.clone(), schedule: input[0].1.clone() }
        } else {
            ExecuteMsg::IncentivizeMany(input)
        };
        self.c.0.borrow_mut().fault = fault;
        let r = self.exec(u, &msg, &coins(&fs));
        let faulted = self.fault_mark(ctx);
        ctx.outcome("incentivize", r.is_ok(), r.as_ref().err().map_or("", |s| s));
        for q in ["C18", "C20"] {
            ctx.check(q, "incentivize", if r.is_ok() { valid } else { !valid || faulted }, || {
                format!("{} adds {items:?} with {fs:?} (valid: {valid}, model: {:?}): {:?}", NAMES[u], res.as_ref().err(), r.as_ref().err())
            });
        }
        // revoke what is left of the approvals
        for rr in need.keys().filter(|r| !self.t[**r].native) {
            let _ = self.c.execute(
                NAMES[u],
                &self.t[*rr].id,
                &cw20::Cw20ExecuteMsg::DecreaseAllowance { spender: self.inc.clone(), amount: U::MAX, expires: None },
                &[],
            );
        }
        if r.is_err() {
            self.unchanged("incentivize", pre, ctx);
            return;
        }
        let mut fl = vec![];
        if let Ok(v) = &res {
            let inc = NAMES.len();
            for i in items {
                let x = self.amount(i, now) as i128;
                fl.push((u, i.r, -x));
                fl.push((inc, i.r, x));
                *self.dust.entry(i.r).or_default() += 30_000_000;
            }
            let paid: BTreeMap<usize, u128> = v.iter().fold(BTreeMap::new(), |mut a, (r, x)| {
                *a.entry(*r).or_default() += x;
                a
            });
            for (r, x) in paid {
                let own: u128 = items.iter().filter(|i| i.r == r).map(|i| self.amount(i, now)).sum();
                if x > own {
                    fl.push((u, r, -((x - own) as i128)));
                    fl.push((SINK, r, (x - own) as i128));
                }
            }
        }
        self.flows("incentivize", pre, &fl, &BTreeMap::new(), u, 0, 0, false, ctx);
        self.m = m;
    }

    fn remove(&mut self, u: usize, rm: &[(usize, usize, bool)], to: usize, fault: Option<Fault>, pre: &Snap, ctx: &mut Ctx) {
        let mut m = self.m.clone();
        let mut valid = u == OWN;
        let mut due: BTreeMap<usize, u128> = BTreeMap::new();
        let mut lost: BTreeMap<usize, u128> = BTreeMap::new();
        let one = u512(S18);
        for (p, r, bypass) in rm {
            if !m.pools[*p].exists {
                valid = false;
                continue;
            }
            m.touch(*p);
            let last = m.pools[*p].last;
            let Some(a) = m.pools[*p].act.remove(r) else {
                valid = false;
                continue;
            };
            for s in m.pools[*p].since.iter_mut() {
                *s += 1;
            }
            let all = low((a.between(last, u64::MAX) + a.orphan) / one);
            let x = if *bypass {
                // only the current rate period is paid back
                let first = a.segs.iter().map(|s| s.1).filter(|e| *e > last).min().unwrap_or(last);
                low((a.between(last, first) + a.orphan) / one)
            } else {
                all
            };
            *due.entry(*r).or_default() += x;
            *lost.entry(*r).or_default() += all - x;
        }
        let tol = 2 * rm.len() as u128;
        let pay = self.payable(&due, 0, 0) == Some(true);
        let msgs: Vec<cosmwasm_std::CosmosMsg> = rm
            .iter()
            .map(|(p, r, b)| {
                cosmwasm_std::wasm_execute(
                    &self.inc,
                    &ExecuteMsg::RemoveRewardFromPool { lp_token: self.t[self.lp(*p)].id.clone(), reward: self.t[*r].id.clone(), bypass_upcoming_schedules: *b, receiver: NAMES[to].into() },
                    vec![],
                )
                .unwrap()
                .into()
            })
            .collect();
        self.c.0.borrow_mut().fault = fault;
        let r = self.c.multi(NAMES[u], msgs);
        let faulted = self.fault_mark(ctx);
        ctx.outcome("remove_reward", r.is_ok(), r.as_ref().err().map_or("", |s| s));
        for q in ["C18", "C20"] {
            ctx.check(q, "remove-reward", if r.is_ok() { valid && (pay || faulted) } else { !valid || faulted || !pay }, || format!("{} removes {rm:?} (valid: {valid}): {:?}", NAMES[u], r.as_ref().err()));
        }
        if r.is_err() {
            self.unchanged("remove_reward", pre, ctx);
            return;
        }
        for (r, x) in lost {
            *self.stuck.entry(r).or_default() += x + 1;
        }
        self.flows("remove_reward", pre, &[], &due, to, 0, tol, faulted, ctx);
        self.m = m;
    }

    fn orphans(&mut self, u: usize, limit: Option<u8>, to: usize, fault: Option<Fault>, pre: &Snap, ctx: &mut Ctx) {
        let key = |r: usize| -> (u8, String) { (!self.t[r].native as u8, self.t[r].id.clone()) };
        let mut v: Vec<(usize, u128)> = self.m.orph.iter().map(|(r, x)| (*r, *x)).collect();
        v.sort_by_key(|x| key(x.0));
        let v: Vec<(usize, u128)> = v.into_iter().take(limit.unwrap_or(10).min(10) as usize).collect();
        let due: BTreeMap<usize, u128> = v.iter().filter(|x| x.1 > 0).copied().collect();
        let pay = self.payable(&due, 0, 0) == Some(true);
        let valid = u == OWN && !v.is_empty();
        self.c.0.borrow_mut().fault = fault;
        let r = self.exec(u, &ExecuteMsg::ClaimOrphanedRewards { limit, receiver: NAMES[to].into() }, &[]);
        let faulted = self.fault_mark(ctx);
        ctx.outcome("claim_orphans", r.is_ok(), r.as_ref().err().map_or("", |s| s));
        for q in ["C18", "C20"] {
            ctx.check(q, "claim-orphans", if r.is_ok() { valid && (pay || faulted) } else { !valid || faulted || !pay }, || format!("{} claims orphaned rewards {v:?}: {:?}", NAMES[u], r.as_ref().err()));
        }
        if r.is_err() {
            self.unchanged("claim_orphans", pre, ctx);
            return;
        }
        ctx.hit("probe.orphans_claimed");
        let tol = 2;
        self.flows("claim_orphans", pre, &[], &due, to, 0, tol, faulted, ctx);
        for r in due.keys() {
            self.m.orph.remove(r);
        }
    }
}
