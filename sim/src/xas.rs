//! The cw20 xASTRO token with history: the real contract against an exact model. Oracle of C23.

use crate::chain::*;
use crate::code;
use crate::rng::{mix, Rng};
use crate::runner::*;
use astroport::xastro_token::{InstantiateMarketingInfo, InstantiateMsg, QueryMsg};
use cosmwasm_std::{to_json_binary, Binary, Uint128};
use cw20::{AllAccountsResponse, AllAllowancesResponse, AllowanceResponse, BalanceResponse, Cw20Coin, Cw20ExecuteMsg, DownloadLogoResponse, EmbeddedLogo, Expiration, Logo, LogoInfo, MarketingInfoResponse, MinterResponse, TokenInfoResponse};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

type U = Uint128;
/// the minter (the old staking contract) first; the last is a contract
const SINK: usize = 6;
const N: usize = 7;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    minter: bool,
    cap: Option<U>,
    init: Vec<(usize, U)>,
    /// extra holders, to make pages
    crowd: usize,
    scale: u32,
    /// descriptive data: project and description given?, who may change it, logo
    #[serde(default)]
    about: Option<(bool, bool, Option<usize>, Option<u8>)>,
    /// tries to create the token with something wrong first
    #[serde(default)]
    bad: u8,
}

/// some logos, the first five of which are good
fn logo(k: u8) -> (Logo, bool) {
    let svg = |head: &str, n: usize| {
        let mut v = head.as_bytes().to_vec();
        v.resize(n.max(v.len()), b' ');
        Logo::Embedded(EmbeddedLogo::Svg(Binary(v)))
    };
    let png = |b: u8, n: usize| {
        let mut v = vec![b, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a, 0x0a];
        v.resize(n, 7);
        Logo::Embedded(EmbeddedLogo::Png(Binary(v)))
    };
    let x = "<?xml version=\"1.0\"?><svg></svg>";
    let l = match k {
        0 => Logo::Url("https://astroport.fi/logo".into()),
        1 => svg(x, 0),
        2 => png(0x89, 30),
        3 => svg(x, 5120),
        4 => png(0x89, 5120),
        5 => svg("<svg></svg>", 0),
        6 => png(0x88, 30),
        7 => svg(x, 5121),
        8 => png(0x89, 5121),
        9 => svg("", 0),
        10 => png(0x89, 7),
        _ => svg("<?xml version=\"1.0\"><svg></svg>", 0),
    };
    (l, k < 5)
}
fn logo_info(l: &Logo) -> LogoInfo {
    match l {
        Logo::Url(u) => LogoInfo::Url(u.clone()),
        Logo::Embedded(_) => LogoInfo::Embedded,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Exp {
    None,
    Never,
    Height(i64),
    Time(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Transfer { u: usize, to: usize, amt: U },
    Send { u: usize, to: usize, amt: U, fail: bool },
    Mint { u: usize, to: usize, amt: U },
    Burn { u: usize, amt: U },
    BurnFrom { u: usize, owner: usize, amt: U },
    TransferFrom { u: usize, owner: usize, to: usize, amt: U },
    SendFrom { u: usize, owner: usize, to: usize, amt: U, fail: bool },
    Allow { u: usize, to: usize, amt: U, exp: Exp },
    Disallow { u: usize, to: usize, amt: U, exp: Exp },
    Dead { on: bool },
    /// project, description: 0 keep, 1 clear, 2.. set; who: 0 keep, 1 clear, 2 invalid, 3.. somebody
    About { u: usize, project: u8, text: u8, who: u8 },
    Upload { u: usize, logo: u8 },
    Idle,
}

fn sink_inst(_: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: cosmwasm_std::MessageInfo, _: cosmwasm_std::Empty) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
    Ok(Default::default())
}
fn sink_exec(_: cosmwasm_std::DepsMut, _: cosmwasm_std::Env, _: cosmwasm_std::MessageInfo, m: serde_json::Value) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
    let r = &m["receive"];
    if r["msg"].as_str() == Some(&to_json_binary("fail").unwrap().to_base64()) {
        return Err(cosmwasm_std::StdError::generic_err("refused"));
    }
    Ok(cosmwasm_std::Response::new().add_attribute("from", r["sender"].as_str().unwrap_or("")).add_attribute("amount", r["amount"].as_str().unwrap_or("")))
}
fn sink_query(_: cosmwasm_std::Deps, _: cosmwasm_std::Env, _: cosmwasm_std::Empty) -> Result<Binary, cosmwasm_std::StdError> {
    Ok(Binary::default())
}

#[derive(Clone, Default)]
struct Model {
    bal: BTreeMap<String, u128>,
    supply: u128,
    allow: BTreeMap<(usize, usize), (u128, Expiration)>,
    about: Option<MarketingInfoResponse>,
    logo: Option<u8>,
}

pub struct XasScn {
    c: Chain,
    t: String,
    sink: String,
    cfg: Cfg,
    m: Model,
    /// (block, value at its end)
    hist: BTreeMap<String, Vec<(u64, u128)>>,
    sup: Vec<(u64, u128)>,
    dead: bool,
    up: bool,
}

impl XasScn {
    fn name(&self, i: usize) -> String {
        match i {
            SINK => self.sink.clone(),
            0 => "minter".into(),
            i => format!("user{i}"),
        }
    }
    fn exp(&self, e: Exp) -> (Option<Expiration>, bool) {
        let (h, t) = (self.c.height(), self.c.now());
        let x = match e {
            Exp::None => None,
            Exp::Never => Some(Expiration::Never {}),
            Exp::Height(d) => Some(Expiration::AtHeight((h as i64 + d).max(0) as u64)),
            Exp::Time(d) => Some(Expiration::AtTime(cosmwasm_std::Timestamp::from_seconds((t as i64 + d).max(0) as u64))),
        };
        (x, x.is_some_and(|x| self.expired(x)))
    }
    fn expired(&self, e: Expiration) -> bool {
        match e {
            Expiration::Never {} => false,
            Expiration::AtHeight(h) => self.c.height() >= h,
            Expiration::AtTime(t) => self.c.now() >= t.seconds(),
        }
    }
    fn record(&mut self) {
        let h = self.c.height();
        for (a, b) in &self.m.bal {
            let v = self.hist.entry(a.clone()).or_default();
            match v.last_mut() {
                Some(l) if l.0 == h => l.1 = *b,
                Some(l) if l.1 == *b => {}
                _ => v.push((h, *b)),
            }
        }
        match self.sup.last_mut() {
            Some(l) if l.0 == h => l.1 = self.m.supply,
            Some(l) if l.1 == self.m.supply => {}
            _ => self.sup.push((h, self.m.supply)),
        }
    }
    fn moved(m: &mut Model, from: &str, to: &str, amt: u128) -> bool {
        let b = m.bal.get(from).copied().unwrap_or(0);
        if b < amt {
            return false;
        }
        m.bal.insert(from.into(), b - amt);
        *m.bal.entry(to.into()).or_default() += amt;
        true
    }
    fn deduct(&self, m: &mut Model, owner: usize, spender: usize, amt: u128) -> bool {
        match m.allow.get_mut(&(owner, spender)) {
            Some((a, e)) if !self.expired(*e) && *a >= amt => {
                *a -= amt;
                true
            }
            _ => false,
        }
    }

    fn checks(&mut self, ctx: &mut Ctx) {
        let p = "C23";
        let mut addrs: Vec<String> = (0..N).map(|i| self.name(i)).collect();
        addrs.push("nobody".into());
        let mut sum = 0;
        for a in self.m.bal.keys() {
            let b: Result<BalanceResponse, String> = self.c.query(&self.t, &QueryMsg::Balance { address: a.clone() });
            let w = self.m.bal[a];
            sum += b.as_ref().map_or(0, |b| b.balance.u128());
            ctx.check(p, "balance", b.as_ref().is_ok_and(|b| b.balance.u128() == w), || format!("{a} has {b:?}, expected {w}"));
        }
        let ti: Result<TokenInfoResponse, String> = self.c.query(&self.t, &QueryMsg::TokenInfo {});
        let s = self.m.supply;
        ctx.check(p, "supply", ti.as_ref().is_ok_and(|t| t.total_supply.u128() == s) && sum == s, || format!("supply {ti:?}, expected {s}, balances add up to {sum}"));
        let mi: Result<Option<MinterResponse>, String> = self.c.query(&self.t, &QueryMsg::Minter {});
        let want = self.cfg.minter.then(|| MinterResponse { minter: "minter".into(), cap: self.cfg.cap });
        ctx.check(p, "minter", mi == Ok(want.clone()), || format!("minter {mi:?}, expected {want:?}"));
        let t = ti.ok();
        ctx.check(p, "token-info", t.as_ref().is_some_and(|t| (&t.name[..], &t.symbol[..], t.decimals) == ("Staked Astroport", "xASTRO", 6)), || format!("token {t:?}"));
        let a: Result<MarketingInfoResponse, String> = self.c.query(&self.t, &QueryMsg::MarketingInfo {});
        let want = self.m.about.clone().unwrap_or_default();
        ctx.check(p, "marketing", a.as_ref() == Ok(&want), || format!("descriptive data {a:?}, expected {want:?}"));
        let l: Result<DownloadLogoResponse, String> = self.c.query(&self.t, &QueryMsg::DownloadLogo {});
        let want = self.m.logo.and_then(|k| match logo(k).0 {
            Logo::Embedded(EmbeddedLogo::Svg(data)) => Some(DownloadLogoResponse { mime_type: "image/svg+xml".into(), data }),
            Logo::Embedded(EmbeddedLogo::Png(data)) => Some(DownloadLogoResponse { mime_type: "image/png".into(), data }),
            _ => None,
        });
        ctx.check(p, "logo", l.as_ref().ok() == want.as_ref(), || format!("logo {:?}, expected {:?} of {:?}", l.as_ref().map(|l| &l.mime_type), want.map(|l| l.mime_type), self.m.logo));
        // history
        let h = self.c.height();
        let mut at = vec![h, h + 1, h - 1, 0, h + 1000];
        for j in 0..4u64 {
            let x = mix(ctx.step as u64, j);
            at.push(self.sup[x as usize % self.sup.len()].0 + (x >> 32) % 3 - 1);
            let a = &addrs[(x >> 40) as usize % addrs.len()];
            if let Some(v) = self.hist.get(a) {
                at.push(v[(x >> 20) as usize % v.len()].0 + (x >> 50) % 2);
            }
        }
        for t in at {
            for a in &addrs {
                let b: Result<BalanceResponse, String> = self.c.query(&self.t, &QueryMsg::BalanceAt { address: a.clone(), block: t });
                let w = self.hist.get(a).and_then(|v| v.iter().rev().find(|x| x.0 < t)).map_or(0, |x| x.1);
                ctx.check(p, "balance-at", b.as_ref().is_ok_and(|b| b.balance.u128() == w), || format!("{a} at block {t} (now {h}): {b:?}, when it began {w}"));
            }
            let b: Result<U, String> = self.c.query(&self.t, &QueryMsg::TotalSupplyAt { block: t });
            let w = self.sup.iter().rev().find(|x| x.0 <= t).map_or(0, |x| x.1);
            ctx.check(p, "supply-at", b == Ok(U::new(w)), || format!("supply at block {t} (now {h}): {b:?}, when it ended {w}"));
        }
        // allowances
        for o in 0..N {
            let mut want = vec![];
            for s in 0..N {
                let w = self.m.allow.get(&(o, s)).copied();
                let a: Result<AllowanceResponse, String> = self.c.query(&self.t, &QueryMsg::Allowance { owner: self.name(o), spender: self.name(s) });
                let (x, e) = w.unwrap_or((0, Expiration::Never {}));
                ctx.check(p, "allowance", a == Ok(AllowanceResponse { allowance: U::new(x), expires: e }), || format!("allowance {o}->{s}: {a:?}, expected {x} {e:?}"));
                if w.is_some() {
                    want.push(self.name(s));
                }
            }
            want.sort();
            let l: Result<AllAllowancesResponse, String> = self.c.query(&self.t, &QueryMsg::AllAllowances { owner: self.name(o), start_after: None, limit: Some(30) });
            let got: Vec<String> = l.map(|l| l.allowances.into_iter().map(|a| a.spender).collect()).unwrap_or_default();
            ctx.check(p, "allowances", got == want, || format!("allowances of {o}: {got:?}, expected {want:?}"));
        }
        // every page size lists the accounts once each, in order
        let lim = [None, Some(1), Some(3), Some(30), Some(100)][ctx.step % 5];
        let mut got: Vec<String> = vec![];
        for _ in 0..200 {
            let r: Result<AllAccountsResponse, String> = self.c.query(&self.t, &QueryMsg::AllAccounts { start_after: got.last().cloned(), limit: lim });
            let Ok(r) = r else { break };
            let n = r.accounts.len();
            ctx.check(p, "page-size", n <= lim.unwrap_or(10).min(30) as usize, || format!("{n} accounts on a page of {lim:?}"));
            got.extend(r.accounts);
            if n == 0 {
                break;
            }
        }
        let want: Vec<String> = self.m.bal.keys().cloned().collect();
        ctx.check(p, "accounts", got == want, || format!("accounts {got:?}, expected {want:?}"));
        // a page may start anywhere
        let from = self.name(ctx.step % 4);
        let r: Result<AllAccountsResponse, String> = self.c.query(&self.t, &QueryMsg::AllAccounts { start_after: Some(from.clone()), limit: Some(2) });
        let got = r.ok().map(|r| r.accounts);
        let want: Vec<String> = want.into_iter().filter(|x| *x > from).take(2).collect();
        ctx.check(p, "accounts", got.as_ref() == Some(&want), || format!("after {from} accounts {got:?}, expected {want:?}"));
    }
}

impl Scenario for XasScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "xastro_token";

    fn cfg(rng: &mut Rng, _prop: &str, thorough: bool) -> (Cfg, Sched) {
        let scale = *rng.pick(&[1, 6, 9, 18, 30]);
        let n = rng.below(5);
        let init: Vec<(usize, U)> = (0..n).map(|_| (rng.idx(N - 1), U::new(rng.log(1, 10u128.pow(scale)) * rng.below(2).max((scale > 3) as u64) as u128))).collect();
        let minter = rng.pct(90);
        let sum: u128 = init.iter().map(|x| x.1.u128()).sum();
        let cap = if minter && rng.pct(40) { Some(U::new((sum + rng.log(1, 10u128.pow(scale) * 20)).saturating_sub(rng.below(2) as u128 * 5))) } else { None };
        let about = rng.pct(50).then(|| (rng.pct(50), rng.pct(50), rng.pct(80).then(|| rng.idx(N - 1)), rng.pct(50).then(|| rng.below(5) as u8)));
        let bad = if rng.pct(30) { rng.range(1, 17) as u8 } else { 0 };
        (Cfg { minter, cap, init, crowd: if rng.pct(20) { rng.idx(45) } else { 0 }, scale, about, bad }, Sched::draw(rng, if thorough { 120 } else { 50 }))
    }

    fn new(cfg: &Cfg, ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(1_700_000_000, 1_000_000);
        let code = c.store_code(code!(
            "xastro_token",
            inst = astroport_xastro_token::contract::instantiate,
            exec = astroport_xastro_token::contract::execute,
            query = astroport_xastro_token::contract::query
        ));
        let sc = c.store_code(code!("sink", inst = sink_inst, exec = sink_exec, query = sink_query));
        let sink = c.instantiate(sc, "minter", &cosmwasm_std::Empty {}, &[], "sink", None)?;
        let mut s = XasScn { c, t: String::new(), sink, cfg: cfg.clone(), m: Default::default(), hist: Default::default(), sup: vec![], dead: false, up: false };
        let mut init: Vec<Cw20Coin> = cfg.init.iter().map(|(i, a)| Cw20Coin { address: s.name(*i), amount: *a }).collect();
        for i in 0..cfg.crowd {
            init.push(Cw20Coin { address: format!("crowd{i:02}"), amount: U::new(1 + i as u128) });
        }
        let make = |init: &Vec<Cw20Coin>, cap: Option<U>, bad: u8| {
            let mut about = cfg.about.map(|(project, text, who, l)| InstantiateMarketingInfo {
                project: project.then(|| "project0".into()),
                description: text.then(|| "text0".into()),
                marketing: who.map(|w| s.name(w)),
                logo: l.map(|l| logo(l).0),
            });
            let none = || InstantiateMarketingInfo { project: None, description: None, marketing: None, logo: None };
            match bad {
                9 => about = Some(InstantiateMarketingInfo { marketing: Some("NO SUCH".into()), ..none() }),
                11..=17 => about = Some(InstantiateMarketingInfo { logo: Some(logo(bad - 6).0), ..none() }),
                _ => {}
            }
            s.c.instantiate(
                code,
                "minter",
                &InstantiateMsg {
                    name: match bad {
                        1 => "ab".into(),
                        2 => "n".repeat(51),
                        _ => "Staked Astroport".into(),
                    },
                    symbol: match bad {
                        3 => "xA".into(),
                        4 => "x".repeat(13),
                        5 => "xASTRO2".into(),
                        6 => "x[STRO".into(),
                        7 => "x STRO".into(),
                        _ => "xASTRO".into(),
                    },
                    decimals: if bad == 8 { 19 } else { 6 },
                    initial_balances: init.clone(),
                    mint: if bad == 10 { Some(MinterResponse { minter: "NO SUCH".into(), cap }) } else { cfg.minter.then(|| MinterResponse { minter: "minter".into(), cap }) },
                    marketing: about,
                },
                &[],
                "xastro",
                None,
            )
        };
        let sum: u128 = init.iter().map(|x| x.amount.u128()).sum();
        if cfg.bad > 0 {
            let r = make(&init, cfg.cap, cfg.bad);
            ctx.check("C23", "created-wrong", r.is_err(), || format!("a token with mistake {} was created: {r:?}", cfg.bad));
        }
        let mut r = make(&init, cfg.cap, 0);
        let over = cfg.cap.is_some_and(|c| sum > c.u128());
        let mut names: Vec<&String> = init.iter().map(|x| &x.address).collect();
        names.sort();
        names.dedup();
        let dup = names.len() < init.len();
        // naming an account twice may be refused or add up, but never create supply nobody holds
        ctx.check("C23", "created", r.is_ok() != over || dup && r.is_err(), || format!("initial supply {sum}, cap {:?}: {r:?}", cfg.cap));
        if r.is_err() {
            init.clear();
            r = make(&init, cfg.cap, 0);
        } else if dup {
            ctx.hit("probe.duplicate_initial_balance");
        }
        s.t = r?;
        for x in &init {
            *s.m.bal.entry(x.address.clone()).or_default() += x.amount.u128();
            s.m.supply += x.amount.u128();
        }
        s.sup.push((s.c.height(), s.m.supply));
        if let Some((project, text, who, l)) = cfg.about {
            s.m.about = Some(MarketingInfoResponse {
                project: project.then(|| "project0".into()),
                description: text.then(|| "text0".into()),
                marketing: who.map(|w| cosmwasm_std::Addr::unchecked(s.name(w))),
                logo: l.map(|l| logo_info(&logo(l).0)),
            });
            s.m.logo = l;
        }
        s.record();
        s.up = true;
        s.checks(ctx);
        Ok(s)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        let rich: Vec<usize> = (0..N - 1).filter(|i| self.m.bal.get(&self.name(*i)).is_some_and(|b| *b > 0)).collect();
        let u = if rich.is_empty() || rng.pct(15) { rng.idx(N - 1) } else { *rng.pick(&rich) };
        let to = rng.idx(N);
        let part = |rng: &mut Rng, b: u128| {
            U::new(match rng.below(8) {
                0 => b,
                1 => b + 1,
                2 => 0,
                3 => 1,
                _ => rng.log(1, b.max(2)).min(b.max(1)),
            })
        };
        let b = |s: &Self, i: usize| s.m.bal.get(&s.name(i)).copied().unwrap_or(0);
        let exp = |rng: &mut Rng| match rng.below(6) {
            0 => Exp::Never,
            1 => Exp::Height(rng.below(20) as i64 - 2),
            2 => Exp::Time(rng.below(100) as i64 - 10),
            _ => Exp::None,
        };
        let pair = |s: &Self, rng: &mut Rng| {
            let v: Vec<(usize, usize)> = s.m.allow.keys().copied().filter(|k| k.1 != SINK).collect();
            if v.is_empty() || rng.pct(10) {
                (rng.idx(N - 1), rng.idx(N - 1))
            } else {
                *rng.pick(&v)
            }
        };
        let boss = |s: &Self, rng: &mut Rng| {
            let b = s.m.about.as_ref().and_then(|a| a.marketing.as_ref()).and_then(|a| (0..N - 1).find(|i| s.name(*i) == a.as_str()));
            b.filter(|_| rng.pct(80)).unwrap_or(u)
        };
        match rng.weighted(&[20, 10, 18, 6, 8, 14, 6, 14, 6, 2, 2, 3, 3]) {
            0 => Op::Transfer { u, to: if rng.pct(10) { u } else { to }, amt: part(rng, b(self, u)) },
            1 => Op::Send { u, to: if rng.pct(80) { SINK } else { to }, amt: part(rng, b(self, u)), fail: rng.pct(30) },
            2 => Op::Mint { u: if rng.pct(85) { 0 } else { u }, to, amt: U::new(if rng.pct(5) { 0 } else { rng.log(1, 10u128.pow(self.cfg.scale) * 3) }) },
            3 => Op::Burn { u: if rng.pct(75) { 0 } else { u }, amt: part(rng, b(self, 0)) },
            4 => {
                let (owner, mut s) = pair(self, rng);
                if rng.pct(60) {
                    s = 0;
                }
                Op::BurnFrom { u: s, owner, amt: part(rng, b(self, owner).min(self.m.allow.get(&(owner, s)).map_or(9, |x| x.0))) }
            }
            5 => {
                let (owner, s) = pair(self, rng);
                Op::TransferFrom { u: s, owner, to, amt: part(rng, b(self, owner).min(self.m.allow.get(&(owner, s)).map_or(9, |x| x.0))) }
            }
            6 => {
                let (owner, s) = pair(self, rng);
                Op::SendFrom { u: s, owner, to: if rng.pct(80) { SINK } else { to }, amt: part(rng, b(self, owner).min(self.m.allow.get(&(owner, s)).map_or(9, |x| x.0))), fail: rng.pct(30) }
            }
            7 => Op::Allow { u, to: if rng.pct(40) { 0 } else { to }, amt: part(rng, b(self, u) * 2), exp: exp(rng) },
            8 => {
                let (o, s) = pair(self, rng);
                Op::Disallow { u: o, to: s, amt: part(rng, self.m.allow.get(&(o, s)).map_or(5, |x| x.0)), exp: exp(rng) }
            }
            9 => Op::Dead { on: !self.dead },
            11 => Op::About { u: boss(self, rng), project: rng.below(4) as u8, text: rng.below(4) as u8, who: if rng.pct(60) { 0 } else { rng.range(1, 2 + N as u64 - 1) as u8 } },
            12 => Op::Upload { u: boss(self, rng), logo: rng.below(12) as u8 },
            _ => Op::Idle,
        }
    }

    fn apply(&mut self, step: &Step<Op>, ctx: &mut Ctx) {
        self.c.advance(step.dt, step.db);
        let mut m = self.m.clone();
        let n = |i: usize| self.name(i);
        let data = |fail: bool| to_json_binary(if fail { "fail" } else { "ok" }).unwrap();
        // contracts without code cannot be called
        let callable = |to: usize, fail: bool| to == SINK && !fail && !self.dead;
        let (what, u, msg, valid): (&str, usize, Cw20ExecuteMsg, bool) = match &step.op {
            Op::Transfer { u, to, amt } => {
                let ok = !amt.is_zero() && Self::moved(&mut m, &n(*u), &n(*to), amt.u128());
                ("transfer", *u, Cw20ExecuteMsg::Transfer { recipient: n(*to), amount: *amt }, ok)
            }
            Op::Send { u, to, amt, fail } => {
                let ok = !amt.is_zero() && callable(*to, *fail) && Self::moved(&mut m, &n(*u), &n(*to), amt.u128());
                ("send", *u, Cw20ExecuteMsg::Send { contract: n(*to), amount: *amt, msg: data(*fail) }, ok)
            }
            Op::Mint { u, to, amt } => {
                let ok = *u == 0 && self.cfg.minter && !amt.is_zero() && self.cfg.cap.map_or(true, |c| m.supply + amt.u128() <= c.u128());
                m.supply += amt.u128();
                *m.bal.entry(n(*to)).or_default() += amt.u128();
                ("mint", *u, Cw20ExecuteMsg::Mint { recipient: n(*to), amount: *amt }, ok)
            }
            Op::Burn { u, amt } => {
                let b = m.bal.get(&n(*u)).copied().unwrap_or(0);
                let ok = *u == 0 && self.cfg.minter && !amt.is_zero() && b >= amt.u128();
                m.supply = m.supply.saturating_sub(amt.u128());
                m.bal.insert(n(*u), b.saturating_sub(amt.u128()));
                ("burn", *u, Cw20ExecuteMsg::Burn { amount: *amt }, ok)
            }
            Op::BurnFrom { u, owner, amt } => {
                let b = m.bal.get(&n(*owner)).copied().unwrap_or(0);
                let ok = *u == 0 && self.cfg.minter && b >= amt.u128() && self.deduct(&mut m, *owner, *u, amt.u128());
                m.supply = m.supply.saturating_sub(amt.u128());
                m.bal.insert(n(*owner), b.saturating_sub(amt.u128()));
                ("burn_from", *u, Cw20ExecuteMsg::BurnFrom { owner: n(*owner), amount: *amt }, ok)
            }
            Op::TransferFrom { u, owner, to, amt } => {
                let ok = self.deduct(&mut m, *owner, *u, amt.u128()) && Self::moved(&mut m, &n(*owner), &n(*to), amt.u128());
                ("transfer_from", *u, Cw20ExecuteMsg::TransferFrom { owner: n(*owner), recipient: n(*to), amount: *amt }, ok)
            }
            Op::SendFrom { u, owner, to, amt, fail } => {
                let ok = callable(*to, *fail) && self.deduct(&mut m, *owner, *u, amt.u128()) && Self::moved(&mut m, &n(*owner), &n(*to), amt.u128());
                ("send_from", *u, Cw20ExecuteMsg::SendFrom { owner: n(*owner), contract: n(*to), amount: *amt, msg: data(*fail) }, ok)
            }
            Op::Allow { u, to, amt, exp } => {
                let (e, past) = self.exp(*exp);
                let a = m.allow.entry((*u, *to)).or_insert((0, Expiration::Never {}));
                a.0 = a.0.saturating_add(amt.u128());
                if let Some(e) = e {
                    a.1 = e;
                }
                ("increase_allowance", *u, Cw20ExecuteMsg::IncreaseAllowance { spender: n(*to), amount: *amt, expires: e }, u != to && !past)
            }
            Op::Disallow { u, to, amt, exp } => {
                let (e, past) = self.exp(*exp);
                let mut ok = u != to;
                match m.allow.get_mut(&(*u, *to)) {
                    None => ok = false,
                    Some(a) if amt.u128() < a.0 => {
                        a.0 -= amt.u128();
                        if let Some(e) = e {
                            a.1 = e;
                        }
                        ok &= !past;
                    }
                    Some(_) => {
                        m.allow.remove(&(*u, *to));
                    }
                }
                ("decrease_allowance", *u, Cw20ExecuteMsg::DecreaseAllowance { spender: n(*to), amount: *amt, expires: e }, ok)
            }
            Op::Dead { on } => {
                self.dead = *on;
                let mut s = self.c.0.borrow_mut();
                if *on {
                    ctx.hit("fault.receiver_down");
                    s.dead_contracts.insert(self.sink.clone());
                } else {
                    s.dead_contracts.remove(&self.sink);
                }
                return;
            }
            Op::About { u, project, text, who } => {
                let set = |k: u8, name: &str| match k {
                    0 => None,
                    1 => Some(" ".to_string()),
                    k => Some(format!("{name}{k}")),
                };
                let mail = match who {
                    0 => None,
                    1 => Some(String::new()),
                    2 => Some("NO SUCH".into()),
                    w => Some(n(*w as usize - 3)),
                };
                let mut ok = *who != 2;
                match m.about.as_mut().filter(|a| a.marketing.as_ref().is_some_and(|b| b.as_str() == n(*u))) {
                    None => ok = false,
                    Some(a) => {
                        let put = |x: &mut Option<String>, v: Option<String>| {
                            if let Some(v) = v {
                                *x = Some(v).filter(|v| v != " ");
                            }
                        };
                        put(&mut a.project, set(*project, "project"));
                        put(&mut a.description, set(*text, "text"));
                        if let Some(v) = &mail {
                            a.marketing = Some(cosmwasm_std::Addr::unchecked(v)).filter(|v| !v.as_str().is_empty());
                        }
                    }
                }
                ("update_marketing", *u, Cw20ExecuteMsg::UpdateMarketing { project: set(*project, "project"), description: set(*text, "text"), marketing: mail }, ok)
            }
            Op::Upload { u, logo: k } => {
                let (l, mut ok) = logo(*k);
                match m.about.as_mut().filter(|a| a.marketing.as_ref().is_some_and(|b| b.as_str() == n(*u))) {
                    None => ok = false,
                    Some(a) => a.logo = Some(logo_info(&l)),
                }
                m.logo = Some(*k);
                ("upload_logo", *u, Cw20ExecuteMsg::UploadLogo(l), ok)
            }
            Op::Idle => return self.checks(ctx),
        };
        self.c.0.borrow_mut().fault = step.fault.clone();
        let r = self.c.execute(&self.name(u), &self.t, &msg, &[]);
        let faulted = fault_mark(&self.c, ctx);
        ctx.outcome(what, r.is_ok(), r.as_ref().err().map_or("", |s| s));
        ctx.check("C23", "accepted", if r.is_ok() { valid && !faulted } else { !valid || faulted }, || format!("{what} by {} (should work: {valid}) {:?}: {:?}", self.name(u), step.op, r.as_ref().err()));
        if r.is_ok() {
            self.m = m;
            self.record();
        }
        self.checks(ctx);
    }

    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now() - 1_700_000_000
    }
}
