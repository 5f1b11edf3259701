//! Vesting: the real contract (with the real ASTRO converter for its migration) against an exact model. Oracle of C24.

use crate::chain::*;
use crate::code;
use crate::rng::{mix, Rng};
use crate::runner::*;
use crate::world::*;
use astroport::astro_converter;
use astroport::vesting::*;
use cosmwasm_std::{to_json_binary, Coin, Uint128};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

type U = Uint128;
const T0: u64 = 1_700_000_000;
const USERS: usize = 5;
const LIMIT: usize = 8;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sch {
    /// starting this long from now
    start: i64,
    at_start: U,
    /// (seconds after the start, total by then)
    end: Option<(i64, U)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    cw20: bool,
    /// instantiated by an earlier release, whose token is later converted
    old: Option<String>,
    scale: u32,
    crowd: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Register { who: usize, accounts: Vec<(usize, Vec<Sch>)>, off: i64, other: bool },
    Claim { u: usize, to: Option<usize>, amt: Option<U> },
    Withdraw { who: usize, u: usize, to: Option<usize>, amt: U },
    Donate { amt: U },
    Migrate { wrong: bool },
    /// the bank refuses payments to this user
    Block { u: Option<usize> },
    Idle,
}

#[derive(Clone, Debug, PartialEq)]
struct MSch {
    s: (u64, u128),
    e: Option<(u64, u128)>,
}
impl MSch {
    fn total(&self) -> u128 {
        self.e.map_or(self.s.1, |e| e.1)
    }
    fn unlocked(&self, t: u64) -> u128 {
        if t < self.s.0 {
            return 0;
        }
        match self.e {
            None => self.s.1,
            Some(e) => self.s.1 + muldiv((t.min(e.0) - self.s.0) as u128, e.1 - self.s.1, (e.0 - self.s.0) as u128),
        }
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Acc {
    s: Vec<MSch>,
    released: u128,
}
impl Acc {
    fn unlocked(&self, t: u64) -> u128 {
        self.s.iter().map(|s| s.unlocked(t)).sum()
    }
    fn total(&self) -> u128 {
        self.s.iter().map(|s| s.total()).sum()
    }
}

pub struct VesScn {
    c: Chain,
    cfg: Cfg,
    v: String,
    tok: Asst,
    new: Asst,
    conv: [String; 2],
    code: u64,
    migrated: bool,
    m: BTreeMap<String, Acc>,
    spare: u128,
    last: BTreeMap<String, (u64, u128)>,
    blocked: Option<usize>,
    nonce: u64,
}

fn name(i: usize) -> String {
    match i {
        0 => OWNER.into(),
        i if i <= USERS => format!("user{i}"),
        i => format!("other{i:02}"),
    }
}
impl VesScn {
    fn now_tok(&self) -> &Asst {
        if self.migrated {
            &self.new
        } else {
            &self.tok
        }
    }
    fn owed(&self) -> u128 {
        self.m.values().map(|a| a.total() - a.released).sum()
    }

    fn checks(&mut self, ctx: &mut Ctx) {
        let p = "C24";
        let now = self.c.now();
        let t = self.now_tok().clone();
        let bal = t.bal(&self.c, &self.v);
        let want = self.owed() + self.spare;
        ctx.check(p, "covered", bal == want, || format!("vesting holds {bal}, owes {} and was given {} on top", self.owed(), self.spare));
        if self.migrated {
            let b = self.tok.bal(&self.c, &self.v);
            ctx.check(p, "converted", b == 0, || format!("{b} of the old token left after migration"));
        }
        for i in 0..=USERS {
            let a = name(i);
            let got: Result<VestingAccountResponse, String> = self.c.query(&self.v, &QueryMsg::VestingAccount { address: a.clone() });
            let av: Result<U, String> = self.c.query(&self.v, &QueryMsg::AvailableAmount { address: a.clone() });
            match self.m.get(&a) {
                None => ctx.check(p, "unknown-account", got.is_err() && av.is_err(), || format!("{a} was never registered: {got:?} {av:?}")),
                Some(m) => {
                    let ok = got.as_ref().is_ok_and(|g| {
                        g.address == a && g.info.released_amount.u128() == m.released && same(&g.info.schedules, &m.s)
                    });
                    ctx.check(p, "account", ok, || format!("{a}: {got:?}, expected {m:?}"));
                    let w = m.unlocked(now) - m.released;
                    ctx.check(p, "available", av == Ok(U::new(w)), || format!("{a} at {now}: {av:?}, expected {w} of {m:?}"));
                    if let Ok(av) = av {
                        let av = av.u128();
                        // what has been unlocked is never taken back, nor more than all of it
                        let l = self.last.insert(a.clone(), (now, av + m.released));
                        ctx.check(p, "never-less", l.map_or(true, |l| l.1 <= av + m.released), || format!("{a}: unlocked {} earlier, now {}", l.unwrap().1, av + m.released));
                        ctx.check(p, "never-too-much", av + m.released <= m.total(), || format!("{a}: {av} + {} of {}", m.released, m.total()));
                        if m.s.iter().all(|s| s.e.map_or(s.s.0, |e| e.0) <= now) {
                            ctx.hit("probe.fully_vested");
                            ctx.check(p, "all-in-the-end", av + m.released == m.total(), || format!("{a}: all schedules over, {av} + {} of {}", m.released, m.total()));
                        }
                    }
                }
            }
        }
        let cf: Result<ConfigResponse, String> = self.c.query(&self.v, &QueryMsg::Config {});
        ctx.check(p, "config", cf.as_ref().is_ok_and(|c| c.owner == OWNER && c.vesting_token == t.info), || format!("{cf:?}, token {:?}", t.info));
        let ts: Result<u64, String> = self.c.query(&self.v, &QueryMsg::Timestamp {});
        ctx.check(p, "timestamp", ts == Ok(self.c.now()), || format!("timestamp {ts:?} at {}", self.c.now()));
        // pages
        self.nonce += 1;
        let asc = mix(self.nonce, 1) % 2 == 0;
        let lim = [None, Some(1), Some(2), Some(7), Some(30), Some(99)][mix(self.nonce, 2) as usize % 6];
        let mut got: Vec<(String, U)> = vec![];
        for _ in 0..100 {
            let order_by = if asc { Some(OrderBy::Asc) } else if mix(self.nonce, 3) % 2 == 0 { None } else { Some(OrderBy::Desc) };
            let r: Result<VestingAccountsResponse, String> = self.c.query(&self.v, &QueryMsg::VestingAccounts { start_after: got.last().map(|g| g.0.clone()), limit: lim, order_by });
            let Ok(r) = r else {
                ctx.violate(p, "pages", format!("{r:?}"));
                break;
            };
            let n = r.vesting_accounts.len();
            ctx.check(p, "pages", n <= lim.unwrap_or(10).min(30) as usize, || format!("{n} on a page of {lim:?}"));
            got.extend(r.vesting_accounts.into_iter().map(|a| (a.address.to_string(), a.info.released_amount)));
            if n == 0 {
                break;
            }
        }
        let mut want: Vec<(String, U)> = self.m.iter().map(|(a, m)| (a.clone(), U::new(m.released))).collect();
        if !asc {
            want.reverse();
        }
        ctx.check(p, "pages", got == want, || format!("listed {got:?}, expected {want:?}"));
        // a page may start anywhere
        let from = name(mix(self.nonce, 4) as usize % 8);
        let order_by = if asc { Some(OrderBy::Asc) } else { None };
        let r: Result<VestingAccountsResponse, String> = self.c.query(&self.v, &QueryMsg::VestingAccounts { start_after: Some(from.clone()), limit: Some(2), order_by });
        let got: Option<Vec<(String, U)>> = r.ok().map(|r| r.vesting_accounts.into_iter().map(|a| (a.address.to_string(), a.info.released_amount)).collect());
        want.retain(|x| if asc { x.0 > from } else { x.0 < from });
        want.truncate(2);
        ctx.check(p, "pages", got.as_ref() == Some(&want), || format!("after {from} listed {got:?}, expected {want:?}"));
    }
}

fn same(a: &[VestingSchedule], b: &[MSch]) -> bool {
    let mut x: Vec<MSch> = a.iter().map(|s| MSch { s: (s.start_point.time, s.start_point.amount.u128()), e: s.end_point.map(|e| (e.time, e.amount.u128())) }).collect();
    let mut y = b.to_vec();
    let k = |s: &MSch| (s.s, s.e);
    x.sort_by_key(k);
    y.sort_by_key(k);
    x == y
}

impl Scenario for VesScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "vesting";

    fn cfg(rng: &mut Rng, _prop: &str, thorough: bool) -> (Cfg, Sched) {
        let old = rng.pct(35).then(|| rng.pick(&["1.1.0", "1.2.0", "1.3.0", "1.3.1"]).to_string());
        let cfg = Cfg { cw20: rng.pct(40), old, scale: *rng.pick(&[1, 3, 6, 12, 18, 27]), crowd: if rng.pct(15) { rng.idx(45) } else { 0 } };
        (cfg, Sched::draw(rng, if thorough { 120 } else { 50 }))
    }

    fn new(cfg: &Cfg, ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(T0, 1_000_000);
        let cw = t_reg_cw20(&c);
        let big = 10u128.pow(cfg.scale) * 1_000_000_000;
        let denom = "ibc/8D8A7F7253615E5F76CB6252A1E1BD921D5EDB7BBAAF8913FB1C77FF125D9995";
        let holders = [(OWNER, big), ("user1", big), ("user2", big)];
        let tok = make_token(&c, cw, denom, &Tok { cw20: cfg.cw20, dec: 6 }, &holders)?;
        let new = make_token(&c, cw, "unewastro", &Tok { cw20: false, dec: 6 }, &holders)?;
        let vc = c.store_code(code!(
            "vesting",
            inst = astroport_vesting::contract::instantiate,
            exec = astroport_vesting::contract::execute,
            query = astroport_vesting::contract::query,
            migrate = astroport_vesting::contract::migrate
        ));
        let cc = c.store_code(code!(
            "astro_converter",
            inst = astro_token_converter::contract::instantiate,
            exec = astro_token_converter::contract::execute,
            query = astro_token_converter::contract::query
        ));
        let v = c.instantiate(vc, OWNER, &InstantiateMsg { owner: OWNER.into(), vesting_token: tok.info.clone() }, &[], "vesting", Some(OWNER))?;
        let mut conv = [String::new(), String::new()];
        for i in 0..2 {
            // the second one converts something else
            let other = make_token(&c, cw, "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", &Tok { cw20: false, dec: 6 }, &[])?;
            let old = if i == 0 { &tok } else { &other };
            conv[i] = c.instantiate(
                cc,
                OWNER,
                &astro_converter::InstantiateMsg {
                    old_astro_asset_info: old.info.clone(),
                    new_astro_denom: new.id.clone(),
                    outpost_burn_params: old.native.then(|| astro_converter::OutpostBurnParams { terra_burn_addr: "terra1burn".into(), old_astro_transfer_channel: "channel-1".into() }),
                },
                &[],
                "converter",
                None,
            )?;
            c.faucet(&conv[i], &new.id, big * 100);
        }
        if let Some(v1) = &cfg.old {
            c.raw_store_set(&v, b"contract_info", format!("{{\"contract\":\"astroport-vesting\",\"version\":\"{v1}\"}}").as_bytes());
        }
        let mut s = VesScn { c, cfg: cfg.clone(), v, tok, new, conv, code: vc, migrated: false, m: Default::default(), spare: 0, last: Default::default(), blocked: None, nonce: 0 };
        if cfg.crowd > 0 {
            let accounts = (0..cfg.crowd).map(|i| (USERS + 1 + i, vec![Sch { start: i as i64 * 50, at_start: U::new(1 + i as u128), end: None }])).collect();
            s.apply(&Step { dt: 0, db: 0, fault: None, op: Op::Register { who: 0, accounts, off: 0, other: false } }, ctx);
        }
        Ok(s)
    }

    fn advance(&mut self, rng: &mut Rng, s: &Sched) -> (u64, u64) {
        if rng.pct(s.same_block_pct) {
            return (0, 0);
        }
        let now = self.c.now();
        if rng.pct(40) {
            let ends: Vec<u64> = self.m.values().flat_map(|a| a.s.iter().flat_map(|s| [Some(s.s.0), s.e.map(|e| e.0)])).flatten().filter(|t| *t > now).collect();
            if !ends.is_empty() {
                let e = *rng.pick(&ends);
                let t = if rng.pct(40) { now + (e - now) / rng.range(2, 5) } else { e + rng.below(3) };
                return (t.saturating_sub(now).saturating_sub(1).max(1), rng.range(1, 1000));
            }
        }
        default_advance(rng, s)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        let now = self.c.now();
        let u = 1 + rng.idx(USERS);
        let to = if rng.pct(25) { Some(rng.idx(USERS + 1)) } else { None };
        let amount = |rng: &mut Rng, s: &Self| rng.log(1, 10u128.pow(s.cfg.scale) * 20);
        match rng.weighted(&[26, 40, 22, 3, if self.cfg.old.is_some() { 4 } else { 1 }, 4, 1]) {
            0 => {
                let n = if rng.pct(70) { 1 } else { 1 + rng.idx(3) };
                let mut accounts = vec![];
                for _ in 0..n {
                    let k = if rng.pct(3) {
                        0
                    } else if rng.pct(4) {
                        7 + rng.idx(4)
                    } else {
                        1 + rng.idx(2)
                    };
                    let mut v = vec![];
                    for _ in 0..k {
                        let start = match rng.below(4) {
                            0 => 0,
                            1 => rng.log(1, 1_000_000) as i64,
                            2 => -(rng.log(1, 1_000_000) as i64),
                            _ => rng.below(600) as i64 - 300,
                        };
                        let a = amount(rng, self);
                        let at = match rng.below(4) {
                            0 | 1 => 0,
                            2 => a / rng.range128(2, 20),
                            _ if rng.pct(10) => a,
                            _ => a - 1,
                        };
                        let mut end = None;
                        if !rng.pct(20) {
                            let mut d = match rng.below(5) {
                                0 => rng.range(1, 20) as i64,
                                1 => rng.log(20, 100_000) as i64,
                            _ => rng.log(100_000, 50_000_000) as i64,
                            };
                            if start + d <= 0 && !rng.pct(15) {
                                d += -start;
                            }
                            if rng.pct(3) {
                                d = -(rng.below(3) as i64);
                            }
                            end = Some((d, U::new(a)));
                        }
                        v.push(Sch { start, at_start: U::new(if end.is_none() { a } else { at }), end });
                    }
                    accounts.push((1 + rng.idx(USERS), v));
                }
                let who = if rng.pct(95) { 0 } else { u };
                Op::Register { who, accounts, off: if rng.pct(92) { 0 } else { *rng.pick(&[-1, 1, 2, -2]) }, other: rng.pct(3) }
            }
            1 => {
                let av = self.m.get(&name(u)).map_or(0, |m| m.unlocked(now) - m.released);
                let amt = match rng.below(10) {
                    0..=4 => None,
                    5 => Some(av),
                    6 => Some(av + 1),
                    7 => Some(0),
                    _ => Some(rng.log(1, av.max(2))),
                };
                Op::Claim { u, to, amt: amt.map(U::new) }
            }
            2 => {
                let act: Vec<(usize, MSch)> = (1..=USERS)
                    .filter_map(|i| {
                        let v: Vec<_> = self.m.get(&name(i))?.s.iter().filter(|s| s.s.0 <= now && s.e.is_some_and(|e| now < e.0)).cloned().collect();
                        if v.is_empty() { None } else { Some((i, v[0].clone())) }
                    })
                    .collect();
                if act.is_empty() && rng.pct(85) {
                    return Op::Claim { u, to, amt: None };
                }
                let (u, left) = if act.is_empty() || rng.pct(10) {
                    (u, 100)
                } else {
                    let a = rng.pick(&act).clone();
                    (a.0, a.1.total() - a.1.unlocked(now))
                };
                let amt = match rng.below(8) {
                    0 => left,
                    1 => left.saturating_sub(1),
                    2 => 0,
                    3 => left + 1,
                    4 => 1,
                    _ => rng.log(1, left.max(2)),
                };
                Op::Withdraw { who: if rng.pct(93) { 0 } else { u }, u, to, amt: U::new(amt) }
            }
            3 => Op::Donate { amt: U::new(amount(rng, self)) },
            4 => Op::Migrate { wrong: rng.pct(25) },
            5 => Op::Block { u: if self.blocked.is_some() { None } else { Some(u) } },
            _ => Op::Idle,
        }
    }

    fn apply(&mut self, step: &Step<Op>, ctx: &mut Ctx) {
        let p = "C24";
        self.c.advance(step.dt, step.db);
        let now = self.c.now();
        let t = self.now_tok().clone();
        let blocked = |s: &Self, i: usize| s.blocked == Some(i) && s.now_tok().native;
        match &step.op {
            Op::Register { who, accounts, off, other } => {
                let mut m = self.m.clone();
                let mut ok = *who == 0 && !*other;
                let mut sum = 0u128;
                let mut va = vec![];
                for (i, schs) in accounts {
                    let mut ms = vec![];
                    let mut vs = vec![];
                    for s in schs {
                        let st = (now as i64 + s.start) as u64;
                        let e = s.end.map(|(d, a)| ((st as i64 + d) as u64, a.u128()));
                        if let Some(e) = e {
                            ok &= st < e.0 && e.0 > now && s.at_start.u128() < e.1;
                        }
                        sum += e.map_or(s.at_start.u128(), |e| e.1);
                        ms.push(MSch { s: (st, s.at_start.u128()), e });
                        let pt = |x: (u64, u128)| VestingSchedulePoint { time: x.0, amount: U::new(x.1) };
                        vs.push(VestingSchedule { start_point: pt((st, s.at_start.u128())), end_point: e.map(pt) });
                    }
                    let a = m.entry(name(*i)).or_default();
                    a.s.extend(ms);
                    ok &= a.s.len() <= LIMIT;
                    va.push(VestingAccount { address: name(*i), schedules: vs });
                }
                let pay = (sum as i128 + *off as i128).max(0) as u128;
                ok &= pay == sum;
                let src = name(*who);
                if t.bal(&self.c, &src) < pay {
                    ok = false;
                }
                // registering nothing may be refused
                let empty = pay == 0 || accounts.iter().any(|a| a.1.is_empty());
                let o = if self.migrated { &self.tok } else { &self.new };
                let paid = if *other { o } else { &t };
                let before = paid.bal(&self.c, &self.v);
                self.c.0.borrow_mut().fault = step.fault.clone();
                let r = if paid.native {
                    let f: Vec<Coin> = if pay > 0 { vec![Coin::new(pay, &paid.id)] } else { vec![] };
                    self.c.execute(&src, &self.v, &ExecuteMsg::RegisterVestingAccounts { vesting_accounts: va }, &f)
                } else {
                    let msg = to_json_binary(&Cw20HookMsg::RegisterVestingAccounts { vesting_accounts: va }).unwrap();
                    self.c.execute(&src, &paid.id, &cw20::Cw20ExecuteMsg::Send { contract: self.v.clone(), amount: U::new(pay), msg }, &[])
                };
                let faulted = fault_mark(&self.c, ctx);
                ctx.outcome("register", r.is_ok(), r.as_ref().err().map_or("", |s| s));
                ctx.check(p, "register", if r.is_ok() { ok && !faulted } else { !ok || faulted || empty }, || format!("should work: {ok} {:?}: {:?}", step.op, r.as_ref().err()));
                let got = paid.bal(&self.c, &self.v) - before;
                if r.is_ok() {
                    ctx.check(p, "paid-in", got == sum, || format!("{got} paid for {sum}"));
                    self.m = m;
                } else {
                    ctx.check(p, "refused-keeps", got == 0, || format!("refused but kept {got}"));
                }
            }
            Op::Claim { u, to, amt } => {
                let a = name(*u);
                let dst = to.unwrap_or(*u);
                let av = self.m.get(&a).map(|m| m.unlocked(now) - m.released);
                let pay = amt.map_or(av.unwrap_or(0), |x| x.u128());
                let ok = av.is_some_and(|av| pay <= av) && !(pay > 0 && blocked(self, dst));
                let before = t.bal(&self.c, &name(dst));
                self.c.0.borrow_mut().fault = step.fault.clone();
                let r = self.c.execute(&a, &self.v, &ExecuteMsg::Claim { recipient: to.map(name), amount: *amt }, &[]);
                let faulted = fault_mark(&self.c, ctx);
                ctx.outcome("claim", r.is_ok(), r.as_ref().err().map_or("", |s| s));
                ctx.check(p, "claim", if r.is_ok() { ok && !faulted } else { !ok || faulted }, || format!("should work: {ok} {:?}, {av:?} available: {:?}", step.op, r.as_ref().err()));
                if r.is_ok() {
                    let got = t.bal(&self.c, &name(dst)) - before;
                    ctx.check(p, "claim-paid", got == pay, || format!("{got} paid, {pay} claimed"));
                    if let Some(m) = self.m.get_mut(&a) {
                        m.released += pay;
                    }
                }
            }
            Op::Withdraw { who, u, to, amt } => {
                let a = name(*u);
                let dst = to.unwrap_or(*who);
                let act: Vec<usize> = self.m.get(&a).map_or(vec![], |m| m.s.iter().enumerate().filter(|(_, s)| s.s.0 <= now && s.e.is_some_and(|e| now < e.0)).map(|x| x.0).collect());
                let mut ok = *who == 0 && !amt.is_zero() && act.len() == 1 && !blocked(self, dst);
                if act.len() > 1 {
                    ctx.hit("probe.several_active");
                }
                let mut upd = None;
                if act.len() == 1 {
                    let s = &self.m[&a].s[act[0]];
                    let un = s.unlocked(now);
                    ok &= amt.u128() < s.total() - un;
                    upd = Some(MSch { s: (now, un), e: Some((s.e.unwrap().0, s.total().saturating_sub(amt.u128()))) });
                }
                let before = t.bal(&self.c, &name(dst));
                self.c.0.borrow_mut().fault = step.fault.clone();
                let r = self.c.execute(&name(*who), &self.v, &ExecuteMsg::WithdrawFromActiveSchedule { account: a.clone(), recipient: to.map(name), withdraw_amount: *amt }, &[]);
                let faulted = fault_mark(&self.c, ctx);
                ctx.outcome("withdraw", r.is_ok(), r.as_ref().err().map_or("", |s| s));
                ctx.check(p, "withdraw", if r.is_ok() { ok && !faulted } else { !ok || faulted }, || format!("should work: {ok} {:?} {:?}: {:?}", step.op, self.m.get(&a), r.as_ref().err()));
                if r.is_ok() {
                    let got = t.bal(&self.c, &name(dst)) - before;
                    ctx.check(p, "withdraw-paid", got == amt.u128(), || format!("{got} paid, {amt} withdrawn"));
                    if let (Some(x), Some(m)) = (upd, self.m.get_mut(&a)) {
                        m.s[act[0]] = x;
                    }
                }
            }
            Op::Donate { amt } => {
                if t.transfer(&self.c, "user1", &self.v, amt.u128()).is_ok() {
                    self.spare += amt.u128();
                    ctx.hit("fault.donation");
                }
            }
            Op::Migrate { wrong } => {
                let ok = self.cfg.old.is_some() && !self.migrated && !*wrong && self.owed() + self.spare > 0;
                self.c.0.borrow_mut().fault = step.fault.clone();
                let r = self.c.migrate(OWNER, &self.v, self.code, &MigrateMsg { converter_contract: self.conv[*wrong as usize].clone() });
                let faulted = fault_mark(&self.c, ctx);
                ctx.outcome("migrate", r.is_ok(), r.as_ref().err().map_or("", |s| s));
                let nothing = self.owed() + self.spare == 0;
                ctx.check(p, "migrate", if r.is_ok() { (ok || nothing) && !faulted } else { !ok || faulted }, || format!("should work: {ok}: {:?}", r.as_ref().err()));
                self.migrated |= r.is_ok();
            }
            Op::Block { u } => {
                self.blocked = *u;
                let mut s = self.c.0.borrow_mut();
                s.blocked_addrs.clear();
                if let Some(u) = u {
                    ctx.hit("fault.receiver_blocked");
                    s.blocked_addrs.insert(name(*u));
                }
            }
            Op::Idle => {}
        }
        self.checks(ctx);
    }

    /// when everything has vested, everyone can take all of it
    fn finish(&mut self, ctx: &mut Ctx) {
        self.c.0.borrow_mut().blocked_addrs.clear();
        self.c.0.borrow_mut().fault = None;
        let end = self.m.values().flat_map(|a| a.s.iter().map(|s| s.e.map_or(s.s.0, |e| e.0))).max().unwrap_or(0);
        let now = self.c.now();
        self.c.advance(end.saturating_sub(now), 1);
        let t = self.now_tok().clone();
        for (a, m) in &self.m {
            let before = t.bal(&self.c, a);
            let r = self.c.execute(a, &self.v, &ExecuteMsg::Claim { recipient: None, amount: None }, &[]);
            let got = t.bal(&self.c, a) - before;
            ctx.check("C24", "all-paid", r.is_ok() && got == m.total() - m.released, || format!("{a} got {got} of {} in the end: {:?}", m.total() - m.released, r.as_ref().err()));
        }
        let left = t.bal(&self.c, &self.v);
        ctx.check("C24", "all-paid", left == self.spare, || format!("{left} left, {} given on top", self.spare));
    }

    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now() - T0
    }
}
