//! One AMM pool (any of the five pool types of the repository) in a full deployment: factory, coin registry, tracker,
//! incentives; random traffic, stale quotes, fee and parameter changes, donations, failures in the middle of a
//! transaction. Oracles of C01-C13 (minus those that live in their own scenario).

use crate::chain::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::world::dex::*;
use crate::world::*;
use astroport::asset::{Asset, AssetInfo, PairInfo};
use astroport::factory::PairType;
use astroport::observation::OracleObservation;
use astroport::pair::*;
use astroport::pair_concentrated::{
    ConcentratedPoolConfig, ConcentratedPoolParams, ConcentratedPoolUpdateParams, PromoteParams,
    UpdatePoolParams,
};
use astroport::pair_xyk_sale_tax::{SaleTaxConfigUpdates, SaleTaxInitParams, TaxConfig, TaxConfigs};
use cosmwasm_std::{to_json_binary, Addr, Coin, Decimal, Decimal256, Uint128, Uint256, Uint512, Uint64};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Xyk,
    Stable,
    Pcl,
    Trans,
    Sale,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PclCfg {
    pub amp_milli: u64,
    pub gamma_e9: u64,
    pub mid_e7: u64,
    pub out_e7: u64,
    pub fee_gamma_e6: u64,
    pub repeg_e9: u64,
    pub delta_e9: u64,
    pub scale_e6: u64,
    pub half: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub kind: Kind,
    pub toks: Vec<Tok>,
    pub total_bps: u16,
    pub maker_bps: u16,
    pub fee_addr: bool,
    pub amp: u64,
    pub pcl: PclCfg,
    pub tax: Vec<Option<u64>>,
    pub track: bool,
    pub generator: bool,
    pub fee_share: Option<u16>,
    pub liq: Uint128,
    #[serde(default)]
    pub warm: bool,
}

type U = Uint128;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Provide {
        u: usize,
        amts: Vec<U>,
        slip_bps: Option<u64>,
        min_lp: Option<U>,
        to: Option<usize>,
        stake: bool,
        quirk: u8,
    },
    Withdraw {
        u: usize,
        lp: U,
        min: Option<Vec<U>>,
        pick: Vec<U>,
        quirk: u8,
    },
    Swap {
        u: usize,
        from: usize,
        ask: usize,
        amt: U,
        belief: Option<(U, U)>,
        spread_bps: Option<u64>,
        to: Option<usize>,
        quirk: u8,
    },
    Donate {
        u: usize,
        tok: usize,
        amt: U,
    },
    Fees {
        total: u16,
        maker: u16,
    },
    FeeAddr {
        which: usize,
    },
    Share {
        u: usize,
        bps: u16,
        on: bool,
    },
    Ramp {
        u: usize,
        amp: u64,
        gamma_e9: u64,
        dur: u64,
    },
    StopRamp {
        u: usize,
    },
    Params {
        u: usize,
        mid_e7: Option<u64>,
        out_e7: Option<u64>,
        fee_gamma_e6: Option<u64>,
        repeg_e9: Option<u64>,
        delta_e9: Option<u64>,
        half: Option<u64>,
    },
    Tax {
        u: usize,
        rates: Vec<Option<u64>>,
        who: usize,
        /// hand the right to change taxes to this account
        #[serde(default)]
        admin: Option<usize>,
        /// 1: a denom that is not in the pool, 2: malformed receiver, 3: malformed admin
        #[serde(default)]
        quirk: u8,
    },
    /// instantiate a separate pool with these parameters (it is not used further)
    NewPool(Box<Init>),
    Quote {
        from: usize,
        ask: usize,
        amt: U,
    },
    /// `n` alternating small trades, one per second
    Warm { n: u32, amt: U },
    Idle,
}

/// parameters of a fresh pool; `assets`: 0 as the pool, 1 doubled, 2 one only, 3 too many
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Init {
    amp: u64,
    pcl: PclCfg,
    rates: Vec<Option<u64>>,
    tax_quirk: u8,
    track: bool,
    assets: u8,
}

const USERS: usize = 4;
const NAMES: [&str; 12] = [
    "user0", "user1", "user2", "user3", "owner", "maker0", "maker1", "sharer", "taxman0", "taxman1",
    "PAIR", "GEN",
];

fn dec_e(x: u64, e: u32) -> Decimal {
    Decimal::from_atomics(x as u128, e).unwrap()
}

pub struct PoolScn {
    pub cfg: Cfg,
    pub c: Chain,
    pub dex: Dex,
    pub pair: String,
    pub lp: String,
    pub a: Vec<Asst>,
    gen_addr: String,
    ptype: PairType,
    // model
    total_bps: u16,
    maker_bps: u16,
    fee_addr: Option<usize>,
    share: Option<(u16, usize)>,
    tax: Vec<Option<u64>>,
    taxman: usize,
    tax_admin: usize,
    /// (a0, g0, t0, a1, g1, t1) in the unit of the pool type
    ramp: (u128, u128, u64, u128, u128, u64),
    pp: PclParams,
    /// reference state of the concentrated pool
    pcl: PclRef,
    hist: Vec<(u64, Vec<u128>)>,
    touched: Vec<u64>,
    obs: ObsRef,
    cum: Option<(u64, Vec<u128>)>,
    cum_now: Option<Vec<u128>>,
    cum_slack: [f64; 2],
    cum_ops: usize,
    cum_tiny: bool,
    cum_res: Vec<u128>,
    cum_last: f64,
    last_op_provide: bool,
    last_ret: u128,
    warmed: bool,
    pub last_op_settles: bool,
    code: u64,
    born: u64,
    staked: Vec<u128>,
}

#[derive(Clone, Debug, Default)]
struct PclParams {
    mid: u64,
    out: u64,
    fg: u64,
    repeg: u64,
    delta: u64,
    half: u64,
}
#[derive(Clone, Debug, Default)]
struct PclRef {
    oracle: f64,
    last: f64,
    scale: f64,
    upd: u64,
    profit: f64,
    real: f64,
    sure: bool,
}
#[derive(Clone, Debug, Default)]
struct ObsRef {
    pre: Option<(u64, u128, u128)>,
    list: Vec<(u64, Decimal, Decimal)>,
    total: usize,
}

pub struct Snap {
    pub b: Vec<Vec<u128>>,
    pub sup: Vec<u128>,
}

impl PoolScn {
    pub fn n(&self) -> usize {
        self.a.len()
    }
    pub fn who(&self, i: usize) -> &str {
        match NAMES[i] {
            "PAIR" => &self.pair,
            "GEN" => &self.gen_addr,
            s => s,
        }
    }
    pub fn snap(&self) -> Snap {
        let mut b = vec![];
        for i in 0..NAMES.len() {
            let w = self.who(i);
            let mut v: Vec<u128> = self.a.iter().map(|a| a.bal(&self.c, w)).collect();
            v.push(self.c.bal(w, &self.lp));
            b.push(v);
        }
        let mut sup: Vec<u128> = self.a.iter().map(|a| a.supply(&self.c)).collect();
        sup.push(self.c.supply(&self.lp));
        Snap { b, sup }
    }
    pub fn res(&self) -> Vec<u128> {
        self.a.iter().map(|a| a.bal(&self.c, &self.pair)).collect()
    }
    pub fn lp_sup(&self) -> u128 {
        self.c.supply(&self.lp)
    }
    fn sim(&self, from: usize, ask: usize, amt: u128) -> Result<SimulationResponse, String> {
        self.c.query(
            &self.pair,
            &QueryMsg::Simulation {
                offer_asset: self.a[from].with(amt),
                ask_asset_info: Some(self.a[ask].info.clone()),
            },
        )
    }
    fn config(&self) -> Result<ConfigResponse, String> {
        self.c.query(&self.pair, &QueryMsg::Config {})
    }
    fn pcl_config(&self) -> Result<ConcentratedPoolConfig, String> {
        let c = self.config()?;
        cosmwasm_std::from_json(c.params.ok_or("no params")?).map_err(|e| e.to_string())
    }
    fn stable_config(&self) -> Result<StablePoolConfig, String> {
        let c = self.config()?;
        cosmwasm_std::from_json(c.params.ok_or("no params")?).map_err(|e| e.to_string())
    }
    /// reference amplification (stable: x100; concentrated: atomics) and gamma at this time
    fn amp_now(&self) -> (u128, u128) {
        let (a0, g0, t0, a1, g1, t1) = self.ramp;
        let t = self.c.now();
        if t >= t1 {
            return (a1, g1);
        }
        match self.cfg.kind {
            Kind::Pcl => {
                let tot = (t1 - t0) as u128;
                let p = (t - t0) as u128;
                let l = tot - p;
                let lin = |x0: u128, x1: u128| {
                    let n = u256(x0) * u256(l) + u256(x1) * u256(p);
                    let r: Uint128 = (n / u256(tot)).try_into().unwrap();
                    r.u128()
                };
                (lin(a0, a1), lin(g0, g1))
            }
            _ => {
                let tot = (t1 - t0) as u128;
                let p = (t - t0) as u128;
                if a1 > a0 {
                    (a0 + (a1 - a0) * p / tot, 0)
                } else {
                    (a0 - (a0 - a1) * p / tot, 0)
                }
            }
        }
    }
    fn max_dec(&self) -> u8 {
        self.a.iter().map(|a| a.dec).max().unwrap()
    }
    /// stable pool invariant D for the given reserves, in 1e-30 token units (Uint512 Newton iteration)
    fn stable_d(&self, r: &[u128]) -> Uint512 {
        let (amp, _) = self.amp_now();
        stable_d(amp, &self.stable_x(r))
    }
    fn stable_x(&self, r: &[u128]) -> Vec<Uint512> {
        r.iter()
            .zip(&self.a)
            .map(|(x, a)| u512(*x) * u512(pow10(30 - a.dec as u32)))
            .collect()
    }
    fn toks(&self, i: usize, x: u128) -> f64 {
        f(x) / 10f64.powi(self.a[i].dec as i32)
    }
    fn pcl_math(&self) -> PclMath {
        let (a, g) = self.amp_now();
        PclMath {
            a: f(a) / 1e18,
            g: f(g) / 1e18,
        }
    }
    /// value of one LP share in the pool's own unit (xcp per LP), at the given price scale
    fn pcl_v(&self, r: &[u128], sup: u128, scale: f64) -> f64 {
        let m = self.pcl_math();
        let d = m.d([self.toks(0, r[0]), self.toks(1, r[1]) * scale]);
        d / 2.0 / scale.sqrt() / (f(sup) / 1e6)
    }
}

/// Stableswap invariant by Newton's method in wide integers; amp is scaled by 100.
pub fn stable_d(amp: u128, x: &[Uint512]) -> Uint512 {
    let n = x.len() as u128;
    let s = x.iter().fold(Uint512::zero(), |a, b| a + *b);
    if s.is_zero() || x.iter().any(|v| v.is_zero()) {
        return Uint512::zero();
    }
    let ann = u512(amp * n); // scaled by 100
    let h = u512(100);
    let mut d = s;
    for _ in 0..255 {
        let mut dp = d;
        for v in x {
            dp = dp * d / (*v * u512(n));
        }
        let num = (ann * s / h + dp * u512(n)) * d;
        let den = (ann - h) * d / h + dp * u512(n + 1);
        let nd = num / den;
        let diff = if nd > d { nd - d } else { d - nd };
        d = nd;
        if diff <= u512(1) {
            break;
        }
    }
    d
}

pub struct PclMath {
    a: f64,
    g: f64,
}
impl PclMath {
    fn f(&self, d: f64, x: [f64; 2]) -> f64 {
        let k0 = 4.0 * x[0] * x[1] / (d * d);
        let gg = self.g + 1.0 - k0;
        let k = self.a * self.g * self.g * k0 / (gg * gg);
        d * (x[0] + x[1]) * k + x[0] * x[1] - k * d * d - d * d / 4.0
    }
    /// D: the root of f in (2 sqrt(xy), x+y]. f is decreasing there; bisection then polish.
    pub fn d(&self, x: [f64; 2]) -> f64 {
        let lo0 = 2.0 * (x[0] * x[1]).sqrt();
        let hi0 = x[0] + x[1];
        if hi0 - lo0 < 1e-15 * hi0 {
            return hi0;
        }
        let (mut lo, mut hi) = (lo0, hi0);
        for _ in 0..200 {
            let m = 0.5 * (lo + hi);
            if m <= lo || m >= hi {
                break;
            }
            if self.f(m, x) > 0.0 {
                lo = m
            } else {
                hi = m
            }
        }
        0.5 * (lo + hi)
    }
    /// the y for which the invariant holds at D with the other reserve x
    pub fn y(&self, d: f64, x: f64) -> f64 {
        // f increases with y around the solution: bracket [d^2/4x * small, large]
        let mut lo = 0.0;
        let mut hi = d * d / (4.0 * x);
        // at y = d^2/(4x), k0 = 1 and f >= 0 (sum >= d)
        for _ in 0..200 {
            let m = 0.5 * (lo + hi);
            if m <= lo || m >= hi {
                break;
            }
            if self.f(d, [x, m]) > 0.0 {
                hi = m
            } else {
                lo = m
            }
        }
        0.5 * (lo + hi)
    }
}

fn fee_rate(p: &PclParams, x: [f64; 2]) -> f64 {
    let s = x[0] + x[1];
    let k = 4.0 * x[0] * x[1] / (s * s);
    let fg = p.fg as f64 / 1e6;
    let mut k = if fg == 0.0 { 0.0 } else { fg / (fg + 1.0 - k) };
    if k <= 0.001 {
        k = 0.0
    }
    k * p.mid as f64 / 1e7 + (1.0 - k) * p.out as f64 / 1e7
}

fn isqrt(x: Uint512) -> Uint512 {
    if x.is_zero() {
        return x;
    }
    let mut r = Uint512::one();
    let mut t = x;
    while t > Uint512::one() {
        t = t >> 2u32;
        r = r << 1u32;
    }
    r = r << 1u32;
    loop {
        let n = (r + x / r) / u512(2);
        if n >= r {
            return r;
        }
        r = n;
    }
}
fn to128(x: Uint512) -> u128 {
    Uint128::try_from(x).map(|v| v.u128()).unwrap_or(u128::MAX)
}
fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::Xyk => "xyk",
        Kind::Stable => "stable",
        Kind::Pcl => "concentrated",
        Kind::Trans => "transmuter",
        Kind::Sale => "sale-tax",
    }
}

pub fn draw_cfg(rng: &mut Rng, prop: &str, thorough: bool) -> (Cfg, Sched) {
    let kinds: &[Kind] = match prop {
        "C06" => &[Kind::Xyk, Kind::Stable, Kind::Pcl, Kind::Sale],
        "C07" | "C10" => &[Kind::Stable, Kind::Pcl],
        "C08" => &[Kind::Pcl],
        "C09" => &[Kind::Xyk, Kind::Pcl, Kind::Sale],
        "C11" => &[Kind::Trans],
        "C13" => &[Kind::Sale],
        _ => &[
            Kind::Xyk,
            Kind::Xyk,
            Kind::Stable,
            Kind::Stable,
            Kind::Pcl,
            Kind::Trans,
            Kind::Sale,
        ],
    };
    let kind = *rng.pick(kinds);
    let n = if kind == Kind::Trans { rng.range(2, 4) as usize } else { 2 };
    let toks: Vec<Tok> = (0..n)
        .map(|_| Tok {
            cw20: kind != Kind::Trans && rng.pct(40),
            dec: *rng.pick(&[6, 6, 6, 8, 18]),
        })
        .collect();
    let mid = rng.range(500, 50_000);
    let cfg = Cfg {
        kind,
        toks,
        total_bps: *rng.pick(&[0, 1, 5, 30, 30, 100, 1000]),
        maker_bps: *rng.pick(&[0, 1, 3333, 5000, 10_000]),
        fee_addr: rng.pct(75),
        amp: *rng.pick(&[1, 4, 10, 100, 500, 100_000]),
        pcl: PclCfg {
            amp_milli: rng.log(2_000, 1_000_000) as u64,
            gamma_e9: rng.log(5_000, 15_000_000) as u64,
            mid_e7: mid,
            out_e7: (mid + rng.range(1, 50_000)).min(100_000),
            fee_gamma_e6: rng.log(100, 100_000) as u64,
            repeg_e9: *rng.pick(&[0, 1, 1000, 1_000_000]),
            delta_e9: *rng.pick(&[0, 1000, 146_000, 10_000_000]),
            scale_e6: rng.log(1_000, 1_000_000_000) as u64,
            half: rng.log(1, 7200) as u64,
        },
        tax: (0..n)
            .map(|_| rng.pct(70).then(|| *rng.pick(&[0, 1, 50, 333, 500])))
            .collect(),
        track: prop == "C09" || rng.pct(30),
        generator: rng.pct(70),
        fee_share: rng.pct(40).then(|| rng.range(1, 1000) as u16),
        liq: Uint128::new(rng.log(100, 10_000_000)),
        warm: prop == "C10" && rng.permille(5),
    };
    let steps = if thorough { 160 } else { 60 };
    let mut s = Sched::draw(rng, steps);
    if prop == "C07" {
        s.long_jump_pct = *rng.pick(&[10, 30]);
    }
    if prop == "C08" {
        s.same_block_pct = *rng.pick(&[5, 20]);
        s.jump_pct = *rng.pick(&[5, 30]);
    }
    (cfg, s)
}

impl Scenario for PoolScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "pool";

    fn cfg(rng: &mut Rng, prop: &str, thorough: bool) -> (Cfg, Sched) {
        draw_cfg(rng, prop, thorough)
    }

    fn new(cfg: &Cfg, ctx: &mut Ctx) -> Result<Self, String> {
        let c = Chain::new(1_700_000_000, 1000);
        let ptype = match cfg.kind {
            Kind::Xyk => PairType::Xyk {},
            Kind::Stable => PairType::Stable {},
            Kind::Pcl => PairType::Custom("concentrated".into()),
            Kind::Trans => PairType::Custom("transmuter".into()),
            Kind::Sale => PairType::Custom("astroport-pair-xyk-sale-tax".into()),
        };
        let code = match cfg.kind {
            Kind::Xyk => reg_pair(&c),
            Kind::Stable => reg_stable(&c),
            Kind::Pcl => reg_pcl(&c),
            Kind::Trans => reg_transmuter(&c),
            Kind::Sale => reg_saletax(&c),
        };
        let tracker = astroport::factory::TrackerConfig {
            code_id: reg_tracker(&c),
            token_factory_addr: TF_MODULE.into(),
        };
        let d = deploy(
            &c,
            vec![pair_config(code, ptype.clone(), cfg.total_bps, cfg.maker_bps)],
            cfg.fee_addr.then_some("maker0"),
            Some(tracker),
        )?;
        let mut a = vec![];
        for (i, t) in cfg.toks.iter().enumerate() {
            let denom = format!("utok{i}");
            let hold: Vec<(&str, u128)> = (0..=USERS)
                .map(|k| (NAMES[k], 4_000_000_000 * pow10(t.dec as u32)))
                .collect();
            a.push(make_token(&c, d.cw20_code, &denom, t, &hold)?);
            if !t.cw20 {
                d.register_coin(&denom, t.dec)?;
            }
        }
        c.faucet("user0", "ujunk", 1_000_000);
        c.faucet("user1", "ujunk", 1_000_000);
        let init = match cfg.kind {
            Kind::Xyk => Some(to_json_binary(&XYKPoolParams {
                track_asset_balances: Some(cfg.track),
            })),
            Kind::Stable => Some(to_json_binary(&StablePoolParams {
                amp: cfg.amp,
                owner: None,
            })),
            Kind::Pcl => Some(to_json_binary(&pcl_params(&cfg.pcl, cfg.track))),
            Kind::Trans => None,
            Kind::Sale => {
                let v: Vec<(String, TaxConfig<String>)> = cfg
                    .tax
                    .iter()
                    .enumerate()
                    .filter(|(i, t)| t.is_some() && !cfg.toks[*i].cw20)
                    .map(|(i, t)| {
                        (
                            format!("utok{i}"),
                            TaxConfig {
                                tax_rate: Decimal::permille(t.unwrap()),
                                tax_recipient: "taxman0".to_string(),
                            },
                        )
                    })
                    .collect();
                Some(to_json_binary(&SaleTaxInitParams {
                    tax_configs: v
                        .iter()
                        .map(|(k, v)| (k.as_str(), v.clone()))
                        .collect::<Vec<_>>()
                        .into(),
                    tax_config_admin: "owner".into(),
                    track_asset_balances: cfg.track,
                }))
            }
        };
        let init = init.transpose().map_err(|e| e.to_string())?;
        let born = c.height();
        let pi: PairInfo = d.create_pair(
            "user0",
            ptype.clone(),
            a.iter().map(|x| x.info.clone()).collect(),
            init,
        )?;
        let pair = pi.contract_addr.to_string();
        // the pool stores its assets in a fixed order: follow it
        let mut toks2 = vec![];
        let mut a2 = vec![];
        let mut tax2 = vec![];
        for info in &pi.asset_infos {
            let i = a.iter().position(|x| &x.info == info).ok_or("asset set")?;
            a2.push(a[i].clone());
            toks2.push(cfg.toks[i].clone());
            tax2.push(if cfg.kind == Kind::Sale && !cfg.toks[i].cw20 {
                cfg.tax[i]
            } else {
                None
            });
        }
        let a = a2;
        for x in a.iter().filter(|x| !x.native) {
            for u in 0..=USERS {
                approve(&c, x, NAMES[u], &pair, u128::MAX / 4)?;
            }
        }
        // incentives, for auto-staked deposits
        let mut gen_addr = "nogenerator".to_string();
        if cfg.generator {
            let vc = reg_vesting(&c);
            let vest = c.instantiate(
                vc,
                OWNER,
                &astroport::vesting::InstantiateMsg {
                    owner: OWNER.into(),
                    vesting_token: AssetInfo::native("astro"),
                },
                &[],
                "vesting",
                None,
            )?;
            let ic = reg_incentives(&c);
            gen_addr = c.instantiate(
                ic,
                OWNER,
                &astroport::incentives::InstantiateMsg {
                    owner: OWNER.into(),
                    factory: d.factory.clone(),
                    astro_token: AssetInfo::native("astro"),
                    vesting_contract: vest,
                    incentivization_fee_info: None,
                    guardian: None,
                },
                &[],
                "incentives",
                None,
            )?;
            d.set_generator(&gen_addr)?;
        }
        let mut s = PoolScn {
            total_bps: cfg.total_bps,
            maker_bps: cfg.maker_bps,
            fee_addr: cfg.fee_addr.then_some(5),
            share: None,
            tax: tax2,
            taxman: 8,
            tax_admin: 4,
            ramp: match cfg.kind {
                Kind::Stable => {
                    let v = cfg.amp as u128 * 100;
                    (v, 0, c.now(), v, 0, c.now())
                }
                _ => {
                    let v = dec_e(cfg.pcl.amp_milli, 3).atomics().u128();
                    let g = dec_e(cfg.pcl.gamma_e9, 9).atomics().u128();
                    (v, g, 0, v, g, c.now())
                }
            },
            pp: PclParams {
                mid: cfg.pcl.mid_e7,
                out: cfg.pcl.out_e7,
                fg: cfg.pcl.fee_gamma_e6,
                repeg: cfg.pcl.repeg_e9,
                delta: cfg.pcl.delta_e9,
                half: cfg.pcl.half,
            },
            pcl: PclRef {
                oracle: cfg.pcl.scale_e6 as f64 / 1e6,
                last: cfg.pcl.scale_e6 as f64 / 1e6,
                scale: cfg.pcl.scale_e6 as f64 / 1e6,
                upd: c.now(),
                profit: 0.0,
                real: 0.0,
                sure: true,
            },
            hist: vec![],
            touched: vec![],
            obs: ObsRef::default(),
            cum: None,
            cum_now: None,
            cum_slack: [0.0; 2],
            cum_ops: 0,
            cum_tiny: false,
            cum_res: vec![0; 2],
            cum_last: 0.0,
            last_op_provide: false,
            last_ret: 1,
            warmed: false,
            last_op_settles: false,
            code,
            born,
            staked: vec![],
            lp: pi.liquidity_token.clone(),
            cfg: Cfg {
                toks: toks2,
                ..cfg.clone()
            },
            c,
            dex: d,
            pair,
            a,
            gen_addr,
            ptype,
        };
        s.staked = vec![0; NAMES.len()];
        if let Some(b) = cfg.fee_share {
            if matches!(cfg.kind, Kind::Xyk | Kind::Stable | Kind::Pcl) {
                s.set_share(4, b, true, ctx);
                if s.share.is_none() {
                    return Err("fee share refused".into());
                }
            }
        }
        Ok(s)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        let r = self.res();
        let sup = self.lp_sup();
        let n = self.n();
        let u = rng.idx(USERS);
        if sup == 0 || r.iter().all(|x| *x == 0) {
            // bootstrap the pool (sometimes with something too small or one-sided)
            let scale = self.cfg.pcl.scale_e6 as f64 / 1e6;
            let liq = self.cfg.liq.u128();
            let mut amts: Vec<U> = (0..n)
                .map(|i| {
                    let mut v = liq as f64;
                    if self.cfg.kind == Kind::Pcl && i == 1 {
                        v /= scale;
                    }
                    if self.cfg.kind == Kind::Xyk || self.cfg.kind == Kind::Sale {
                        v *= 0.001 + rng.below(3_000_000) as f64 / 1e6;
                    }
                    if self.cfg.kind == Kind::Stable || self.cfg.kind == Kind::Trans {
                        v *= 0.5 + rng.below(1000) as f64 / 1000.0;
                    }
                    U::new(((v * 10f64.powi(self.a[i].dec as i32)) as u128).clamp(
                        1,
                        1_500_000_000 * pow10(self.a[i].dec as u32),
                    ))
                })
                .collect();
            if rng.pct(10) {
                for v in amts.iter_mut() {
                    *v = U::new(rng.log(1, 100_000));
                }
            }
            if rng.pct(5) {
                amts[rng.idx(n)] = U::zero();
            }
            let norm: Vec<f64> = (0..n).map(|i| self.toks(i, amts[i].u128())).collect();
            let lp = 1e6
                * match self.cfg.kind {
                    Kind::Xyk | Kind::Sale => norm.iter().product::<f64>().sqrt(),
                    Kind::Pcl => norm.iter().product::<f64>().sqrt() * 2.0,
                    _ => norm.iter().sum(),
                };
            return Op::Provide {
                u,
                amts,
                slip_bps: rng.pct(15).then(|| rng.range(0, 5000)),
                // around what it may mint
                min_lp: rng.pct(20).then(|| U::new((lp * rng.range(50, 150) as f64 / 100.0) as u128)),
                to: rng.pct(8).then(|| rng.idx(NAMES.len())),
                stake: rng.pct(6),
                quirk: if rng.pct(15) { 2 } else { 0 },
            };
        }
        if self.cfg.warm && !self.warmed && sup > 0 && rng.pct(15) {
            self.warmed = true;
            return Op::Warm { n: rng.range(2990, 3020) as u32, amt: U::new((r[0] / 20_000).max(1)) };
        }
        let w: &[u64] = match self.cfg.kind {
            // provide withdraw swap donate fees feeaddr share ramp stop params tax quote idle newpool
            Kind::Xyk => &[18, 14, 40, 3, 3, 2, 3, 1, 0, 0, 1, 8, 4, 1],
            Kind::Stable => &[18, 12, 38, 3, 3, 2, 3, 8, 3, 0, 0, 8, 4, 2],
            Kind::Pcl => &[16, 10, 46, 2, 2, 2, 3, 6, 2, 4, 0, 6, 4, 3],
            Kind::Trans => &[20, 20, 40, 3, 3, 2, 1, 0, 0, 0, 0, 8, 4, 1],
            Kind::Sale => &[18, 14, 40, 3, 3, 2, 1, 0, 0, 0, 8, 8, 4, 2],
        };
        match rng.weighted(w) {
            0 => {
                let style = rng.below(10);
                let frac = rng.log(1, 500_000_000) as f64 / 1e9;
                let amts: Vec<U> = (0..n)
                    .map(|i| {
                        let base = f(r[i]) * frac;
                        let v = match style {
                            0 => rng.log(1, r[i].max(2)) as f64,
                            1 => {
                                if i == (u & 1) {
                                    base
                                } else {
                                    0.0
                                }
                            }
                            2..=4 => base * (0.5 + rng.below(1000) as f64 / 1000.0),
                            5..=6 => base * (0.99 + rng.below(2000) as f64 / 1e5),
                            _ => base,
                        };
                        U::new((v as u128).min(400_000_000 * pow10(self.a[i].dec as u32)))
                    })
                    .collect();
                let est = (0..n)
                    .map(|i| muldiv(amts[i].u128(), sup, r[i].max(1)))
                    .min()
                    .unwrap_or(0);
                Op::Provide {
                    u,
                    amts,
                    slip_bps: match rng.below(10) {
                        0 => Some(0),
                        1 => Some(5001),
                        2..=3 => Some(rng.range(1, 300)),
                        4..=6 => Some(5000),
                        _ => None,
                    },
                    min_lp: match rng.below(8) {
                        0 => Some(U::new(est)),
                        1 => Some(U::new(est + 1)),
                        2 => Some(U::new(muldiv(est, 95, 100))),
                        3 => Some(U::new(muldiv(est, 120, 100))),
                        _ => None,
                    },
                    to: rng.pct(20).then(|| {
                        let k = if rng.pct(25) { NAMES.len() } else { USERS };
                        rng.idx(k)
                    }),
                    stake: rng.pct(12),
                    quirk: if rng.pct(16) { rng.range(1, 9) as u8 } else { 0 },
                }
            }
            1 => {
                let have = self.c.bal(NAMES[u], &self.lp);
                let lp = match rng.below(8) {
                    0 => have,
                    1 => rng.log(1, 1000),
                    2 => have.saturating_add(1),
                    _ => rng.log(1, have.max(2)),
                };
                let est: Vec<u128> = (0..n).map(|i| muldiv(r[i], lp, sup)).collect();
                let min = match rng.below(6) {
                    0 => Some(est.iter().map(|e| U::new(*e)).collect()),
                    1 => Some(
                        est.iter()
                            .enumerate()
                            .map(|(i, e)| U::new(if i == (u & 1) { e + 1 + e / 50 } else { e * 9 / 10 }))
                            .collect(),
                    ),
                    2 => Some(est.iter().map(|e| U::new(e - e / 20)).collect()),
                    _ => None,
                };
                let pick = if self.cfg.kind == Kind::Trans && rng.pct(50) {
                    let md = self.max_dec() as u32;
                    let mut left = lp;
                    (0..n)
                        .map(|i| {
                            let norm = pow10(md - self.a[i].dec as u32);
                            let m = (left / norm).min(r[i]);
                            let v = if rng.pct(30) { 0 } else { rng.range128(0, m) };
                            let v = if rng.pct(4) { v + m + 1 } else { v };
                            left = left.saturating_sub(v * norm);
                            U::new(v)
                        })
                        .collect()
                } else {
                    vec![]
                };
                Op::Withdraw {
                    u,
                    lp: U::new(lp),
                    min,
                    pick,
                    quirk: if rng.pct(14) { rng.range(1, 6) as u8 } else { 0 },
                }
            }
            2 => {
                let from = rng.idx(n);
                let ask = (from + 1 + rng.idx(n - 1)) % n;
                let cap = 400_000_000 * pow10(self.a[from].dec as u32);
                let amt = match rng.below(12) {
                    0 => rng.range128(1, 20),
                    1 => rng.log(1, r[from].max(2)),
                    2 => muldiv(r[from], rng.range(500, 3000) as u128, 1000),
                    3..=6 => muldiv(r[from], rng.log(1_000, 300_000), 1_000_000),
                    _ => muldiv(r[from], rng.log(1, 30_000), 1_000_000),
                }
                .clamp(1, cap);
                let belief = if rng.pct(35) {
                    let ret = self
                        .sim(from, ask, amt)
                        .map(|s| s.return_amount.u128() + s.commission_amount.u128())
                        .unwrap_or(amt)
                        .max(1);
                    let k = *rng.pick(&[800u128, 950, 990, 999, 1000, 1001, 1005, 1050, 1300]);
                    Some((U::new(muldiv(amt, k, 1000).max(1)), U::new(ret)))
                } else {
                    None
                };
                Op::Swap {
                    u,
                    from,
                    ask,
                    amt: U::new(amt),
                    belief,
                    spread_bps: match rng.below(10) {
                        0 => Some(0),
                        1 => Some(5001),
                        2 => Some(rng.range(1, 100)),
                        3 => Some(rng.range(100, 2000)),
                        4..=7 => Some(5000),
                        _ => None,
                    },
                    to: rng.pct(25).then(|| {
                        let k = if rng.pct(25) { NAMES.len() } else { USERS };
                        rng.idx(k)
                    }),
                    quirk: if rng.pct(15) { rng.range(1, 8) as u8 } else { 0 },
                }
            }
            3 => {
                let t = rng.idx(n);
                Op::Donate {
                    u,
                    tok: t,
                    amt: U::new(rng.log(1, (r[t] / 10).max(2))),
                }
            }
            4 => Op::Fees {
                total: *rng.pick(&[0, 1, 7, 30, 250, 1000, 10_000, 10_001]),
                maker: *rng.pick(&[0, 1, 2500, 5000, 10_000, 10_001]),
            },
            5 => Op::FeeAddr { which: rng.idx(2) },
            6 => Op::Share {
                u: if rng.pct(80) { 4 } else { rng.idx(USERS) },
                bps: *rng.pick(&[0, 1, 100, 333, 1000, 1001, 5000]),
                on: rng.pct(75),
            },
            7 => {
                let (a, g) = self.amp_now();
                let k = *rng.pick(&[50u128, 99, 100, 101, 300, 500, 1000, 2000, 9999, 10_000, 10_001]);
                let up = rng.pct(50);
                let sc = |x: u128, k: u128| if up { x * k / 1000 } else { x * 1000 / k };
                let amp = match self.cfg.kind {
                    Kind::Stable => sc(a, k.max(100)) / 100,
                    _ => sc(a, k) / 1_000_000_000_000_000,
                };
                let g = sc(g, *rng.pick(&[1000, 1000, 500, 2000, 10_000, 11_000])) / 1_000_000_000;
                Op::Ramp {
                    u: if rng.pct(85) { 4 } else { rng.idx(USERS) },
                    amp: if rng.pct(4) { *rng.pick(&[0, 1, 1_000_001]) } else { amp.min(u64::MAX as u128 / 2) as u64 },
                    gamma_e9: g as u64,
                    dur: *rng.pick(&[0, 1, 86_399, 86_400, 86_401, 100_000, 864_000, 3_000_000]),
                }
            }
            8 => Op::StopRamp {
                u: if rng.pct(85) { 4 } else { rng.idx(USERS) },
            },
            9 => Op::Params {
                u: if rng.pct(85) { 4 } else { rng.idx(USERS) },
                mid_e7: rng.pct(30).then(|| rng.log(300, 120_000) as u64),
                out_e7: rng.pct(30).then(|| rng.log(300, 120_000) as u64),
                fee_gamma_e6: rng.pct(20).then(|| rng.log(1, 1_200_000) as u64),
                repeg_e9: rng.pct(20).then(|| rng.log(1, 12_000_000) as u64),
                delta_e9: rng.pct(20).then(|| rng.log(1, 100_000_000) as u64),
                half: rng.pct(20).then(|| *rng.pick(&[0, 1, 60, 600, 86_400, 604_800, 604_801])),
            },
            10 => Op::Tax {
                u: match rng.below(10) {
                    0 => rng.idx(USERS),
                    1 => 4,
                    _ => self.tax_admin,
                },
                rates: if rng.pct(15) {
                    vec![]
                } else {
                    (0..n)
                        .map(|_| rng.pct(60).then(|| *rng.pick(&[0, 1, 10, 100, 499, 500, 501, 1000])))
                        .collect()
                },
                who: rng.idx(2),
                admin: rng.pct(15).then(|| rng.idx(USERS + 1)),
                quirk: if rng.pct(12) { rng.range(1, 3) as u8 } else { 0 },
            },
            13 => Op::NewPool(Box::new(self.gen_init(rng))),
            11 => {
                let from = rng.idx(n);
                let ask = (from + 1 + rng.idx(n - 1)) % n;
                Op::Quote {
                    from,
                    ask,
                    amt: U::new(rng.log(1, r[ask].max(2))),
                }
            }
            _ => Op::Idle,
        }
    }

    fn apply(&mut self, st: &Step<Op>, ctx: &mut Ctx) {
        self.c.advance(st.dt, st.db);
        if let Op::Warm { n, amt } = st.op {
            for i in 0..n {
                self.c.advance(1, 1);
                let from = (i % 2) as usize;
                let a = if from == 0 { amt.u128() } else { self.last_ret } + (i % 7) as u128;
                self.swap(0, from, 1 - from, a, None, Some(5000), None, 0, ctx);
                if ctx.first.is_some() {
                    return;
                }
            }
            ctx.hit("probe.warmed_up");
            return;
        }
        self.last_op_settles = false;
        self.last_op_provide = false;
        if ctx.on("C06") {
            self.check_cumulative(ctx);
        }
        if ctx.on("C07") {
            self.check_params(ctx);
        }
        if ctx.on("C10") {
            self.check_observe(ctx);
        }
        self.c.0.borrow_mut().fault = st.fault.clone();
        match st.op.clone() {
            Op::Provide { u, amts, slip_bps, min_lp, to, stake, quirk } => {
                self.provide(u, amts, slip_bps, min_lp, to, stake, quirk, ctx)
            }
            Op::Withdraw { u, lp, min, pick, quirk } => self.withdraw(u, lp.u128(), min, pick, quirk, ctx),
            Op::Swap { u, from, ask, amt, belief, spread_bps, to, quirk } => {
                self.swap(u, from, ask, amt.u128(), belief, spread_bps, to, quirk, ctx)
            }
            Op::Donate { u, tok, amt } => {
                if self.lp_sup() == 0 {
                    return;
                }
                let r = self.a[tok].transfer(&self.c, NAMES[u], &self.pair.clone(), amt.u128());
                self.fault_mark(ctx);
                if r.is_ok() {
                    self.pcl.sure = false;
                }
                ctx.outcome("donate", r.is_ok(), &r.err().unwrap_or_default());
            }
            Op::Fees { total, maker } => {
                let armed = self.c.0.borrow().fault.is_some();
                let pc = pair_config(self.code_id(), self.ptype.clone(), total, maker);
                let r = self.c.execute(
                    OWNER,
                    &self.dex.factory,
                    &astroport::factory::ExecuteMsg::UpdatePairConfig { config: pc },
                    &[],
                );
                self.fault_mark(ctx);
                let valid = total <= 10_000 && maker <= 10_000;
                ctx.check("C05", "fee-config", r.is_ok() == valid || (armed && r.is_err()), || {
                    format!("fee configuration {total}/{maker} bps: {:?}", r.as_ref().err())
                });
                if r.is_ok() {
                    self.total_bps = total;
                    self.maker_bps = maker;
                }
                ctx.outcome("set_fees", r.is_ok(), &r.err().unwrap_or_default());
            }
            Op::FeeAddr { which } => {
                let r = self.c.execute(
                    OWNER,
                    &self.dex.factory,
                    &astroport::factory::ExecuteMsg::UpdateConfig {
                        token_code_id: None,
                        fee_address: Some(NAMES[5 + which].into()),
                        generator_address: None,
                        whitelist_code_id: None,
                        coin_registry_address: None,
                    },
                    &[],
                );
                self.fault_mark(ctx);
                if r.is_ok() {
                    self.fee_addr = Some(5 + which);
                }
                ctx.outcome("set_fee_address", r.is_ok(), &r.err().unwrap_or_default());
            }
            Op::Share { u, bps, on } => self.set_share(u, bps, on, ctx),
            Op::Ramp { u, amp, gamma_e9, dur } => self.set_ramp(u, amp, gamma_e9, dur, ctx),
            Op::StopRamp { u } => self.stop_ramp(u, ctx),
            Op::Params { u, mid_e7, out_e7, fee_gamma_e6, repeg_e9, delta_e9, half } => {
                self.set_params(u, mid_e7, out_e7, fee_gamma_e6, repeg_e9, delta_e9, half, ctx)
            }
            Op::Tax { u, rates, who, admin, quirk } => self.set_tax(u, rates, who, admin, quirk, ctx),
            Op::NewPool(i) => self.new_pool(*i, ctx),
            Op::Quote { from, ask, amt } => self.quote(from, ask, amt.u128(), ctx),
            Op::Warm { .. } | Op::Idle => {}
        }
        self.c.0.borrow_mut().fault = None;
        if ctx.on("C06") {
            self.after_cumulative(ctx);
        }
        if ctx.on("C07") {
            self.check_params(ctx);
        }
        if ctx.on("C04") || ctx.on("C05") {
            self.check_reads(ctx);
        }
        if ctx.on("C09") {
            self.check_tracked(ctx);
        }
        if ctx.on("C11") && self.cfg.kind == Kind::Trans {
            self.check_transmuter(ctx);
        }
    }

    fn finish(&mut self, ctx: &mut Ctx) {
        // once the faults stop, every holder can leave with its share of everything the pool holds
        if ctx.on("C04") || ctx.on("C03") || ctx.on("C01") {
            for u in 0..10 {
                let have = self.c.bal(NAMES[u], &self.lp);
                if have > 0 {
                    self.c.advance(6, 1);
                    self.withdraw(u, have, None, vec![], 0, ctx);
                    if ctx.first.is_some() {
                        return;
                    }
                }
            }
        }
    }
    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now()
    }
}

// ------------------------------------------------------------------------------------------------ operations

#[derive(Clone, Debug, Default)]
struct Flow {
    /// (account, column, delta)
    d: Vec<(usize, usize, i128)>,
    lp_supply: i128,
}
impl Flow {
    fn add(&mut self, who: usize, col: usize, v: i128) {
        self.d.push((who, col, v));
    }
}

fn amt_of(s: &str) -> (u128, &str) {
    let k = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
    (s[..k].parse().unwrap_or(0), &s[k..])
}

impl PoolScn {
    fn fault_mark(&self, ctx: &mut Ctx) -> bool {
        let k = self.c.0.borrow().fault_fired.clone();
        if let Some(k) = k {
            ctx.hit(match k {
                FaultKind::Fail => "fault.tx_failed_mid",
                FaultKind::OutOfGas => "fault.out_of_gas",
                FaultKind::FailAfter => "fault.tx_failed_after",
            });
            true
        } else {
            false
        }
    }

    /// balances of every account in every asset moved exactly as the flow says
    fn settle(&self, what: &str, pre: &Snap, flow: &Flow, ctx: &mut Ctx) {
        if !ctx.on("C01") && !ctx.on("C13") {
            return;
        }
        let p = ctx.prop.clone();
        let post = self.snap();
        let n = self.n() + 1;
        let mut want: Vec<Vec<i128>> = pre.b.iter().map(|v| v.iter().map(|x| *x as i128).collect()).collect();
        for (w, c, v) in &flow.d {
            want[*w][*c] += v;
        }
        // accounts that share an address (nobody does today) would need merging
        for i in 0..NAMES.len() {
            for c in 0..n {
                ctx.check(&p, "flow", post.b[i][c] as i128 == want[i][c], || {
                    format!(
                        "{what}: {} holds {} of column {c} ({}), the reported amounts give {}",
                        self.who(i),
                        post.b[i][c],
                        if c + 1 == n { "LP" } else { &self.a[c].id },
                        want[i][c]
                    )
                });
            }
        }
        for c in 0..n {
            let d = if c + 1 == n { flow.lp_supply } else { 0 };
            ctx.check(&p, "supply", post.sup[c] as i128 == pre.sup[c] as i128 + d, || {
                format!("{what}: supply of column {c} went {} -> {}, expected change {d}", pre.sup[c], post.sup[c])
            });
        }
    }
    fn unchanged(&self, what: &str, pre: &Snap, ctx: &mut Ctx) {
        if ctx.on("C01") {
            self.settle(&format!("rejected {what}"), pre, &Flow::default(), ctx)
        }
    }

    // ------------------------------------------------------------------------------------------ provide

    #[allow(clippy::too_many_arguments)]
    fn provide(
        &mut self,
        u: usize,
        amts: Vec<U>,
        slip_bps: Option<u64>,
        min_lp: Option<U>,
        to: Option<usize>,
        stake: bool,
        quirk: u8,
        ctx: &mut Ctx,
    ) {
        let n = self.n();
        let kind = self.cfg.kind;
        let mut amts: Vec<u128> = amts.iter().map(|x| x.u128()).collect();
        amts.resize(n, 0);
        let pre = self.snap();
        let r0 = self.res();
        let s0 = self.lp_sup();
        let mut list: Vec<usize> = (0..n).collect();
        match quirk {
            2 => list.reverse(),
            4 => list[n - 1] = 0,
            5 if matches!(kind, Kind::Pcl | Kind::Trans) => list.retain(|i| amts[*i] > 0),
            9 => list.truncate(1),
            _ => {}
        }
        let named: Vec<u128> = (0..n).map(|i| if list.contains(&i) { amts[i] } else { 0 }).collect();
        let mut must_fail = quirk == 4;
        let mut funds: Vec<(&str, u128)> = vec![];
        let mut bent = false;
        for i in 0..n {
            if self.a[i].native {
                let mut v = named[i];
                if quirk == 1 && !bent && v > 0 {
                    v = if u % 2 == 0 { v + 1 } else { v - 1 };
                    bent = true;
                    must_fail = true;
                }
                funds.push((&self.a[i].id, v));
            }
        }
        if quirk == 3 && u < 2 {
            funds.push(("ujunk", 1));
            must_fail = true;
        }
        let mut listed: Vec<Asset> = list.iter().map(|i| self.a[*i].with(amts[*i])).collect();
        if quirk == 6 && u < 2 {
            // an asset the pool does not have, declared and paid
            funds.push(("ujunk", 1));
            listed.push(Asset { info: AssetInfo::native("ujunk"), amount: U::new(1) });
            must_fail = true;
        }
        if quirk == 7 && u < 2 {
            // ... in place of one of its own
            if self.a[n - 1].native {
                funds.retain(|f| f.0 != self.a[n - 1].id);
            }
            funds.push(("ujunk", 1));
            listed[n - 1] = Asset { info: AssetInfo::native("ujunk"), amount: U::new(1) };
            must_fail = true;
        }
        if quirk == 9 {
            // the pool's own coins attached, yet only one asset announced
            for i in 1..n {
                if self.a[i].native && amts[i] > 0 {
                    funds.retain(|f| f.0 != self.a[i].id);
                    funds.push((&self.a[i].id, amts[i]));
                    must_fail = true;
                }
            }
        }
        if quirk == 8 {
            // nothing at all
            listed.clear();
            funds.clear();
            must_fail = true;
        }
        let msg = ExecuteMsg::ProvideLiquidity {
            assets: listed.clone(),
            slippage_tolerance: slip_bps.map(|b| Decimal::bps(b.min(10_000))),
            auto_stake: stake.then_some(true),
            receiver: to.map(|t| self.who(t).to_string()),
            min_lp_to_receive: min_lp,
        };
        let quote: Result<Uint128, String> = if ctx.on("C04") && kind != Kind::Trans {
            self.c.query(
                &self.pair,
                &QueryMsg::SimulateProvide {
                    assets: listed,
                    slippage_tolerance: slip_bps.map(|b| Decimal::bps(b.min(10_000))),
                },
            )
        } else {
            Err(String::new())
        };
        let res = self.c.execute(NAMES[u], &self.pair.clone(), &msg, &coins(&funds));
        let faulted = self.fault_mark(ctx);
        ctx.outcome("provide", res.is_ok(), res.as_ref().err().map(|s| s.as_str()).unwrap_or(""));
        let ok = match res {
            Err(e) => {
                self.unchanged("provide", &pre, ctx);
                if ctx.on("C04") && matches!(quirk, 0 | 2) && !faulted && (!stake || self.cfg.generator && kind != Kind::Trans) {
                    let afford = (0..n).all(|i| pre.b[u][i] >= amts[i]);
                    let valid = afford && self.deposit_valid(&amts, &r0, s0, slip_bps, min_lp, &e);
                    ctx.check("C04", "deposit-refused", !valid, || {
                        format!("deposit {amts:?} into {r0:?} with {s0} LP, slippage {slip_bps:?} bps, at least {min_lp:?}, was refused: {e}")
                    });
                }
                return;
            }
            Ok(o) => o,
        };
        if faulted {
            ctx.hit("probe.fault_survived");
        }
        ctx.check("C01", "funds", !must_fail, || {
            format!("provide accepted although the attached funds do not match the declared assets (variant {quirk})")
        });
        let share = attr_u(&ok, &self.pair, "share");
        let recv = to.unwrap_or(u);
        let mut fl = Flow::default();
        for i in 0..n {
            fl.add(u, i, -(named[i] as i128));
            fl.add(10, i, named[i] as i128);
        }
        let dest = if stake { 11 } else { recv };
        fl.add(dest, n, share as i128);
        fl.lp_supply = share as i128;
        let first = s0 == 0;
        if first && kind != Kind::Trans {
            fl.add(10, n, 1000);
            fl.lp_supply += 1000;
        }
        self.settle("provide", &pre, &fl, ctx);
        if stake {
            ctx.hit("probe.auto_stake");
            let dep: Result<Uint128, String> = self.c.query(
                &self.gen_addr,
                &astroport::incentives::QueryMsg::Deposit {
                    lp_token: self.lp.clone(),
                    user: self.who(recv).into(),
                },
            );
            self.staked[recv] += share;
            ctx.check("C01", "auto-stake", dep.clone().map(|d| d.u128()) == Ok(self.staked[recv]), || {
                format!("auto-staked {share} LP for {}: the staking contract records {dep:?}, expected {}", NAMES[recv], self.staked[recv])
            });
        }
        let r1 = self.res();
        let s1 = self.lp_sup();
        ctx.check("C04", "min-lp", min_lp.is_none_or(|m| share >= m.u128()), || {
            format!("provide minted {share} LP although at least {} was demanded", min_lp.unwrap())
        });
        if let Ok(q) = quote {
            ctx.check("C04", "quote-provide", q.u128() == share, || {
                format!("SimulateProvide quoted {q} LP, {share} were minted")
            });
        }
        if ctx.on("C04") || ctx.on("C11") {
            self.check_minted(&named, &r0, s0, share, slip_bps, ctx);
        }
        self.check_value("provide", &r0, s0, &r1, s1, ctx);
        if kind == Kind::Pcl {
            self.pcl_provide(&named, &r0, s0, &r1, ctx);
        }
        self.record(&r1);
        self.last_op_provide = true;
    }

    fn norm(&self, i: usize) -> u128 {
        pow10((self.max_dec() - self.a[i].dec) as u32)
    }

    /// the LP a deposit should mint: lower and upper bound
    fn mint_bounds(&self, d: &[u128], r0: &[u128], s0: u128) -> Option<(f64, f64, &'static str)> {
        Some(match self.cfg.kind {
            Kind::Xyk | Kind::Sale => {
                let want = if s0 == 0 {
                    to128(isqrt(u512(d[0]) * u512(d[1]))).saturating_sub(1000)
                } else {
                    muldiv(d[0], s0, r0[0]).min(muldiv(d[1], s0, r0[1]))
                };
                (f(want), f(want), "pro rata")
            }
            Kind::Trans => {
                let want: u128 = (0..self.n()).map(|i| d[i] * self.norm(i)).sum();
                (f(want), f(want), "the normalised value")
            }
            Kind::Stable => {
                let r1: Vec<u128> = (0..2).map(|i| r0[i] + d[i]).collect();
                if s0 > 0 && !self.healthy(r0) {
                    return None;
                }
                let d1 = self.stable_d(&r1);
                let unit = u512(pow10(30 - self.max_dec() as u32));
                if s0 == 0 {
                    let w = f(to128(d1 / unit)) - 1000.0;
                    let tol = 2.0 + self.stable_tol(&r1) * 10f64.powi(self.max_dec() as i32) + w * 1e-15;
                    (w - tol, w + tol, "initial D")
                } else {
                    let d0 = self.stable_d(r0);
                    let g = if d1 > d0 { d1 - d0 } else { u512(0) };
                    let w = f(to128(u512(s0) * g / d0));
                    let dt = (f(to128(d0 / unit)) / 10f64.powi(self.max_dec() as i32)).max(1e-30);
                    let tol = 2.0 + f(s0) * (self.stable_tol(r0) + self.stable_tol(&r1)) / dt
                        + w * (1e-15 + self.stable_tol(r0) / dt);
                    (w - tol, w + tol, "invariant growth")
                }
            }
            Kind::Pcl => {
                let rn = [r0[0] + d[0], r0[1] + d[1]];
                if !self.healthy(if s0 > 0 { r0 } else { &rn }) {
                    return None;
                }
                let m = self.pcl_math();
                let ps = self.pcl.scale;
                let x1 = [self.toks(0, r0[0] + d[0]), self.toks(1, r0[1] + d[1]) * ps];
                let d1 = m.d(x1);
                if s0 == 0 {
                    let w = (d1 / 2.0 / ps.sqrt()) * 1e6 - 1000.0;
                    (w * (1.0 - 1e-9) - 2.0, w * (1.0 + 1e-9) + 2.0, "initial xcp")
                } else {
                    let x0 = [self.toks(0, r0[0]), self.toks(1, r0[1]) * ps];
                    let d0 = m.d(x0);
                    let dp = [self.toks(0, d[0]), self.toks(1, d[1]) * ps];
                    let sum = dp[0] + dp[1];
                    let fee = if sum > 0.0 {
                        (dp[0] - sum / 2.0).abs() * fee_rate(&self.pp, x1) / sum
                    } else {
                        0.0
                    };
                    let w = f(s0) * (d1 / d0 - 1.0) * (1.0 - fee);
                    let tol = 2.0 + f(s0) * self.pcl_tol(d0) + w * 1e-8;
                    (w - tol, w + tol, "invariant growth net of the imbalance fee")
                }
            }
        })
    }

    /// how far a deposit minting `share` LP is from its value at the pool's price, in [lower, upper] bounds; nothing where
    /// the pool kind has no such limit or the reference is not precise enough
    fn deposit_slip(&self, d: &[u128], r0: &[u128], s0: u128, share: (f64, f64)) -> Option<(f64, f64)> {
        if s0 == 0 {
            return None;
        }
        match self.cfg.kind {
            Kind::Xyk | Kind::Sale => {
                let q = f(r0[0]) / f(r0[1]);
                if !(1e-9..=1e9).contains(&q) || d[0] == 0 || d[1] == 0 {
                    return None;
                }
                let p = f(d[0]) / f(d[1]) / q;
                let s = 1.0 - p.min(1.0 / p);
                Some((s - 1e-9, s + 1e-9))
            }
            Kind::Pcl => {
                if !self.pcl.sure || !self.healthy(r0) || self.pcl.real <= 0.0 {
                    return None;
                }
                let ps = self.pcl.scale;
                let dp = [self.toks(0, d[0]), self.toks(1, d[1])];
                let v = dp[0] + dp[1] * ps;
                let want = v / 2.0 / ps.sqrt() / self.pcl.real * 1e6;
                // deposits close to balance pass
                let s = f(s0);
                let bal = |sh: f64| {
                    let k = sh / (s + sh);
                    let x = [self.toks(0, r0[0] + d[0]), self.toks(1, r0[1] + d[1])];
                    ((dp[0] - x[0] * k).abs()).min((dp[1] - x[1] * k).abs())
                };
                let traded = bal(share.0).min(bal(share.1));
                let tol = 1e-7 + self.pcl_tol(want.max(1e-6) / 1e6);
                let lo = if traded < 2e-5 { 0.0 } else { 1.0 - (share.1 + 2.0) / want - tol };
                Some((lo, 1.0 - (share.0 - 2.0) / want + tol))
            }
            _ => None,
        }
    }

    fn check_minted(&self, d: &[u128], r0: &[u128], s0: u128, share: u128, slip: Option<u64>, ctx: &mut Ctx) {
        let kind = self.cfg.kind;
        if matches!(kind, Kind::Xyk | Kind::Sale | Kind::Pcl) {
            let tol = slip.map(|b| b.min(10_000) as f64 / 1e4).unwrap_or(if kind == Kind::Pcl { 0.05 } else { 0.005 });
            if let Some((lo, hi)) = self.deposit_slip(d, r0, s0, (f(share), f(share))) {
                if kind == Kind::Pcl && hi > tol * 0.9 && lo < tol {
                    ctx.hit("probe.deposit_near_slippage_limit");
                }
                ctx.check("C04", "slippage", lo <= 0.0 || (lo <= tol && tol <= 0.5), || {
                    format!("deposit {d:?} into {r0:?}, off by {lo}, was accepted with slippage tolerance {tol}")
                });
            }
        }
        let Some((lo, hi, what)) = self.mint_bounds(d, r0, s0) else { return };
        if kind == Kind::Trans {
            ctx.check("C11", "mint", lo == f(share), || format!("deposit {d:?} minted {share} LP, its normalised value is {lo}"));
        }
        ctx.check("C04", "mint", f(share) >= lo && f(share) <= hi && (s0 > 0 || share > 0), || {
            format!("deposit {d:?} into {r0:?} with {s0} LP minted {share}; {what} allows [{lo}, {hi}]")
        });
    }

    /// a plain deposit into a pool in good shape, within every limit: there is no reason to refuse it
    #[allow(clippy::too_many_arguments)]
    fn deposit_valid(&self, d: &[u128], r0: &[u128], s0: u128, slip: Option<u64>, min_lp: Option<U>, err: &str) -> bool {
        let kind = self.cfg.kind;
        let n = self.n();
        let r1: Vec<u128> = (0..n).map(|i| r0[i] + d[i]).collect();
        if d.iter().all(|x| *x == 0) || s0 > 0 && !self.healthy(r0) || !self.healthy(&r1) {
            return false;
        }
        let Some((lo, hi, _)) = self.mint_bounds(d, r0, s0) else { return false };
        if lo < 10.0 || f(s0) + hi > 1e30 || r1.iter().any(|x| f(*x) > 1e30) || min_lp.is_some_and(|m| f(m.u128()) * (1.0 + 1e-12) >= lo) {
            return false;
        }
        let tol = slip.map(|b| b as f64 / 1e4).unwrap_or(if kind == Kind::Pcl { 0.05 } else { 0.005 });
        if s0 == 0 && kind != Kind::Trans {
            // the first deposit needs all assets
            return d.iter().all(|x| *x > 0) && r0.iter().all(|x| *x == 0) && slip.is_none_or(|b| b <= 5000);
        }
        match kind {
            Kind::Trans | Kind::Stable => true,
            Kind::Xyk | Kind::Sale => {
                d.iter().all(|x| *x > 0) && self.deposit_slip(d, r0, s0, (lo, hi)).is_some_and(|s| s.1 < tol && tol <= 0.5)
            }
            Kind::Pcl => {
                // the pool refuses what loses LP value; if the fee that stays with the LPs is within rounding, it may
                let ps = self.pcl.scale;
                let x = |r: &[u128]| [self.toks(0, r[0]), self.toks(1, r[1]) * ps];
                let (x0, x1, dp) = (x(r0), x(&r1), x(d));
                let fee = (dp[0] - dp[1]).abs() / 2.0 * fee_rate(&self.pp, x1) / (dp[0] + dp[1]);
                let kept = fee * hi / (f(s0) + hi) < 1e-8 + 8.0 * self.pcl_tol(self.pcl_math().d(x0));
                !(err.contains("XCP profit real value dropped") && kept)
                    && self.deposit_slip(d, r0, s0, (lo, hi)).is_some_and(|s| s.1 < tol && tol <= 0.5)
            }
        }
    }

    /// relative precision of the concentrated pool's own Newton iterations (last step below 1e-5 token, then quadratic),
    /// for an invariant of `d` tokens
    fn pcl_tol(&self, d: f64) -> f64 {
        let g = self.pcl_math().g.max(1e-9);
        let d = d.max(1e-9);
        1e-11 + (2e-5 / d).min(3e-10 / (g * d * d))
    }

    /// The concentrated pool stops its Newton iterations at the first step below 1e-5 token. Both iterations start where
    /// that step is about gamma times the reserve, so below this bound they stop at once, far from the root (known finding).
    fn newton_ok(&self, r: &[u128]) -> bool {
        let g = self.pcl_math().g;
        let x = [self.toks(0, r[0]), self.toks(1, r[1]) * self.pcl.scale];
        g * x[0].min(x[1]) >= 5e-4 && g * (x[0] * x[1]).sqrt() >= 1e-3
    }

    /// large and balanced enough that the contract's 18-digit Newton iterations and the reference agree to many digits
    fn healthy(&self, r: &[u128]) -> bool {
        match self.cfg.kind {
            Kind::Pcl => {
                let x = [self.toks(0, r[0]), self.toks(1, r[1]) * self.pcl.scale];
                if x[0] <= 0.0 || x[1] <= 0.0 {
                    return false;
                }
                let d = self.pcl_math().d(x);
                d >= 1.0
                    && x[0].min(x[1]) / d >= 1e-4
                    && self.toks(0, r[0]) >= 1e-2
                    && self.toks(1, r[1]) >= 1e-2
                    && self.newton_ok(r)
            }
            Kind::Stable => (0..2).all(|i| self.toks(i, r[i]) >= 1e-3),
            _ => true,
        }
    }

    /// precision of the contract's own stable invariant, in tokens
    fn stable_tol(&self, r: &[u128]) -> f64 {
        let m = (0..2).map(|i| self.toks(i, r[i])).fold(f64::MAX, f64::min);
        if m >= 1.0 {
            1e-9
        } else {
            2e-6 + 1e-12 / m.max(1e-12)
        }
    }

    /// C03: what one LP token is worth never falls
    fn check_value(&self, what: &str, r0: &[u128], s0: u128, r1: &[u128], s1: u128, ctx: &mut Ctx) {
        if !ctx.on("C03") || s0 == 0 {
            return;
        }
        match self.cfg.kind {
            Kind::Xyk | Kind::Sale => {
                let e18 = u512(pow10(18));
                let a = (u512(r1[0]) * u512(r1[1]) * e18 + u512(2) * u512(r1[0].max(r1[1]))) * u512(s0) * u512(s0);
                let b = u512(r0[0]) * u512(r0[1]) * e18 * u512(s1) * u512(s1);
                ctx.check("C03", "value", a >= b, || {
                    format!("{what} lowered sqrt(k)/LP: reserves {r0:?} -> {r1:?}, LP {s0} -> {s1}")
                });
            }
            Kind::Stable if !self.healthy(r0) => {}
            Kind::Stable => {
                let d0 = self.stable_d(r0);
                let d1 = self.stable_d(r1);
                // the pool rounds reserves to units in the trader's favour by less than two units
                let up: Vec<u128> = r1.iter().map(|x| x + 2).collect();
                let tol = (self.stable_tol(r0) + self.stable_tol(r1)) * 1e30;
                let slack = self.stable_d(&up) - d1 + u512(tol as u128);
                ctx.check("C03", "value", (d1 + slack) * u512(s0) >= d0 * u512(s1), || {
                    format!("{what} lowered D per LP: reserves {r0:?} -> {r1:?}, LP {s0} -> {s1}, D {d0} -> {d1}")
                });
            }
            Kind::Pcl if !self.newton_ok(r0) && r0.iter().enumerate().all(|(i, x)| self.toks(i, *x) >= 0.1) => {
                let old = self.pcl.scale;
                let (v0, v1) = (self.pcl_v(r0, s0, old), self.pcl_v(r1, s1, old));
                if s1 > 0 && v1 < v0 * (1.0 - 1e-4) {
                    ctx.violate("C03", "value-newton-tolerance", format!(
                        "{what} in a pool whose gamma times reserve is within the Newton tolerance lowered xcp per LP: {v0} -> {v1} (gamma {}, reserves {r0:?} -> {r1:?}, LP {s0} -> {s1})",
                        self.pcl_math().g
                    ));
                }
            }
            Kind::Pcl if !self.healthy(r0) || !self.healthy(r1) => {}
            Kind::Pcl => {
                let old = self.pcl.scale;
                let v0 = self.pcl_v(r0, s0, old);
                let v1 = self.pcl_v(r1, s1, old);
                let x = [self.toks(0, r1[0]), self.toks(1, r1[1]) * old];
                let unit = (3.0 * 10f64.powi(-(self.a[0].dec as i32)) + 3.0 * old * 10f64.powi(-(self.a[1].dec as i32)))
                    / x[0].min(x[1]).max(1e-30);
                let tol = 1e-9 + self.pcl_tol(x[0] + x[1]) + unit;
                ctx.check("C03", "value", v1 >= v0 * (1.0 - tol), || {
                    format!("{what} lowered xcp per LP at price scale {old}: {v0} -> {v1} (reserves {r0:?} -> {r1:?}, LP {s0} -> {s1})")
                });
                // moving the price scale may only spend profit: at least half of what was earned stays
                if let Ok(c) = self.pcl_config() {
                    let new = df(c.price_scale);
                    if (new / old - 1.0).abs() > 1e-12 && self.pcl.sure {
                        let v = self.pcl_v(r1, s1, new);
                        ctx.check("C03", "repeg-loss", v >= 1.0 - 1e-6, || {
                            format!("{what}: after moving the price scale {old} -> {new} one LP is worth {v} < 1")
                        });
                    }
                }
            }
            Kind::Trans => {
                let v: u128 = (0..self.n()).map(|i| r1[i] * self.norm(i)).sum();
                ctx.check("C03", "value", v >= s1, || {
                    format!("{what}: the pool holds normalised {v} for {s1} LP")
                });
            }
        }
    }

    fn record(&mut self, r1: &[u128]) {
        let h = self.c.height();
        match self.hist.last_mut() {
            Some(l) if l.0 == h => l.1 = r1.to_vec(),
            _ => self.hist.push((h, r1.to_vec())),
        }
        self.touched.push(h);
        self.last_op_settles = true;
    }

    // ------------------------------------------------------------------------------------------ withdraw

    fn withdraw(&mut self, u: usize, lp: u128, min: Option<Vec<U>>, pick: Vec<U>, quirk: u8, ctx: &mut Ctx) {
        let n = self.n();
        let kind = self.cfg.kind;
        let pre = self.snap();
        let r0 = self.res();
        let s0 = self.lp_sup();
        let pick: Vec<u128> = pick.iter().map(|x| x.u128()).collect();
        let imb = kind == Kind::Trans && pick.len() == n && pick.iter().any(|x| *x > 0);
        let mut assets = if imb {
            (0..n).filter(|i| pick[*i] > 0).map(|i| self.a[i].with(pick[i])).collect()
        } else {
            vec![]
        };
        let mut must_fail = false;
        if quirk == 2 && kind != Kind::Trans {
            assets = vec![self.a[0].with(1)];
            must_fail = true;
        }
        if imb && quirk == 2 {
            // an asset that is not in the pool
            assets.push(Asset { info: AssetInfo::native("ujunk"), amount: U::new(1) });
            must_fail = true;
        }
        if imb && quirk == 3 {
            // the same asset named twice
            assets = (0..n).filter(|i| pick[*i] > 0).flat_map(|i| [pick[i] - pick[i] / 2, pick[i] / 2].map(|v| self.a[i].with(v))).filter(|a| !a.amount.is_zero()).collect();
        }
        let mut minv: Option<Vec<Asset>> = min
            .as_ref()
            .map(|m| (0..n).map(|i| self.a[i].with(m.get(i).copied().unwrap_or_default().u128())).collect());
        if lp % 2 == 1 {
            if let Some(m) = minv.as_mut() {
                m.reverse();
            }
        }
        // minimum amounts that nothing the pool pays can satisfy
        let over = self.a[0].with(r0[0].saturating_add(1));
        match quirk {
            4 => minv = Some(vec![over]),
            5 => minv = Some(vec![self.a[0].with(0), Asset { info: AssetInfo::native("ujunk"), amount: U::new(1) }]),
            6 => {
                let mut v: Vec<Asset> = (0..n).map(|_| self.a[0].with(0)).collect();
                v[n - 1] = over;
                minv = Some(v);
            }
            _ => {}
        }
        must_fail |= quirk >= 4;
        let denom = if quirk == 1 {
            must_fail = true;
            "ujunk".to_string()
        } else {
            self.lp.clone()
        };
        let have = self.c.bal(NAMES[u], &denom);
        let quote: Result<Vec<Asset>, String> = if ctx.on("C04") && !imb {
            self.c.query(&self.pair, &QueryMsg::Share { amount: U::new(lp) })
        } else {
            Err(String::new())
        };
        let res = self.c.execute(
            NAMES[u],
            &self.pair.clone(),
            &ExecuteMsg::WithdrawLiquidity { assets, min_assets_to_receive: minv },
            &coins(&[(&denom, lp)]),
        );
        let faulted = self.fault_mark(ctx);
        ctx.outcome("withdraw", res.is_ok(), res.as_ref().err().map(|s| s.as_str()).unwrap_or(""));
        // exact pro-rata amounts
        let eff = if kind == Kind::Pcl { lp.saturating_sub(1) } else { lp };
        let exact: Vec<u128> = if s0 > 0 { r0.iter().map(|r| muldiv(*r, eff, s0)).collect() } else { vec![0; n] };
        let low: Vec<u128> = (0..n)
            .map(|i| exact[i].saturating_sub(r0[i] / pow10(18) + 2))
            .collect();
        let ok = match res {
            Err(e) => {
                self.unchanged("withdraw", &pre, ctx);
                let fine = !faulted
                    && quirk == 0
                    && !imb
                    && lp > 0
                    && lp <= have
                    && self.healthy(&r0)
                    && (lp as f64) / (s0.max(1) as f64) > 1e-17
                    && low.iter().all(|x| *x > 0)
                    && min.as_ref().is_none_or(|m| (0..n).all(|i| m.get(i).is_some_and(|v| v.u128() <= low[i])));
                let rest: Vec<u128> = (0..n).map(|i| r0[i].saturating_sub(exact[i])).collect();
                if fine && kind == Kind::Pcl && !self.healthy(&rest) && e.contains("Division failed") {
                    ctx.violate("C04", "withdraw-to-dust", format!(
                        "redeeming {lp} of {s0} LP would leave a concentrated pool with dust only ({rest:?}) and panics: {e}"
                    ));
                    return;
                }
                ctx.check("C04", "withdraw-refused", !fine, || {
                    format!("a holder of {have} LP cannot redeem {lp} of {s0} from {r0:?}: {e}")
                });
                return;
            }
            Ok(o) => o,
        };
        ctx.check("C01", "funds", !must_fail, || format!("withdraw accepted with wrong funds or an unsupported asset list (variant {quirk})"));
        let burned = attr_u(&ok, &self.pair, "withdrawn_share");
        let mut refund = vec![0u128; n];
        for part in attr(&ok, &self.pair, "refund_assets").unwrap_or("").split(", ") {
            let (v, name) = amt_of(part);
            if let Some(i) = self.a.iter().position(|a| a.id == name) {
                refund[i] += v;
            }
        }
        let mut fl = Flow::default();
        for i in 0..n {
            fl.add(u, i, refund[i] as i128);
            fl.add(10, i, -(refund[i] as i128));
        }
        fl.add(u, n, -(burned as i128));
        fl.lp_supply = -(burned as i128);
        self.settle("withdraw", &pre, &fl, ctx);
        let r1 = self.res();
        let s1 = self.lp_sup();
        ctx.check(
            "C04",
            "min-assets",
            min.as_ref().is_none_or(|m| (0..n).all(|i| m.get(i).is_none_or(|v| refund[i] >= v.u128()))),
            || format!("withdraw paid {refund:?} although at least {min:?} was demanded"),
        );
        if imb {
            let need: u128 = (0..n).map(|i| pick[i] * self.norm(i)).sum();
            for p in ["C04", "C11"] {
                ctx.check(p, "redeem", refund == pick && burned == need && burned <= lp, || {
                    format!("asked for {pick:?} with {lp} LP: got {refund:?} for {burned} LP, the normalised value is {need}")
                });
            }
        } else {
            for p in ["C04", "C11"] {
                ctx.check(
                    p,
                    "redeem",
                    burned == lp && (0..n).all(|i| refund[i] <= exact[i] && refund[i] >= low[i]),
                    || format!("{lp} of {s0} LP redeemed {refund:?} from {r0:?}; the pro-rata amounts are {exact:?} (burned {burned})"),
                );
            }
            if let Ok(q) = quote {
                ctx.check("C04", "quote-withdraw", (0..n).all(|i| q[i].amount.u128() == refund[i]), || {
                    format!("Share quoted {q:?}, withdraw paid {refund:?}")
                });
            }
        }
        self.check_value("withdraw", &r0, s0, &r1, s1, ctx);
        if kind == Kind::Pcl {
            self.pcl.real = self.pcl_v(&r1, s1, self.pcl.scale);
            self.pcl_after("withdraw", None, ctx);
        }
        self.record(&r1);
        // a concentrated pool does not settle its price accumulator on withdrawals
        self.last_op_settles = kind != Kind::Pcl;
    }

    // ------------------------------------------------------------------------------------------ swap

    /// reference result of a swap on the current reserves
    fn ref_swap(&self, from: usize, ask: usize, amt: u128, r: &[u128]) -> RefSwap {
        let mut o = RefSwap::default();
        o.net = amt;
        match self.cfg.kind {
            Kind::Xyk | Kind::Sale => {
                if let Some(t) = self.tax[from] {
                    o.tax = muldiv(amt, t as u128, 1000);
                    o.net = amt - o.tax;
                }
                let (x, y) = (u512(r[from]), u512(r[ask]));
                let e18 = u512(pow10(18));
                let q = x * y * e18 / (x + u512(o.net));
                o.gross = to128((y * e18 - q) / e18);
                let ideal = u512(o.net) * (y * e18 / x) / e18;
                o.spread = to128(ideal).saturating_sub(o.gross);
            }
            Kind::Stable => {
                let (amp, _) = self.amp_now();
                let xs = self.stable_x(r);
                if xs.iter().any(|x| x.is_zero()) {
                    return o;
                }
                let d = stable_d(amp, &xs);
                let unit_f = u512(pow10(30 - self.a[from].dec as u32));
                let unit_a = u512(pow10(30 - self.a[ask].dec as u32));
                let y = stable_y(amp, d, xs[from] + u512(amt) * unit_f);
                let ya = to128(y / unit_a);
                o.gross = r[ask].saturating_sub(ya);
                o.spread = to128(u512(amt) * unit_f / unit_a).saturating_sub(o.gross);
                let t = self.stable_tol(r).max(self.stable_tol(&[xs_u(&xs, 0, self), xs_u(&xs, 1, self)]));
                o.tol = 2 + (t.min(1e-3) * 10f64.powi(self.a[ask].dec as i32) * 0.1) as u128;
            }
            Kind::Trans => {
                o.gross = amt * self.norm(from) / self.norm(ask);
            }
            Kind::Pcl => {
                let m = self.pcl_math();
                let ps = self.pcl.scale;
                let x0 = [self.toks(0, r[0]), self.toks(1, r[1]) * ps];
                let d = m.d(x0);
                let off = self.toks(from, amt) * if from == 1 { ps } else { 1.0 };
                let nx = x0[from] + off;
                let y = m.y(d, nx);
                let k = if ask == 1 { ps } else { 1.0 };
                o.dy = (x0[ask] - y) / k;
                let mut xs = x0;
                xs[from] = nx;
                xs[ask] = y;
                o.rate = fee_rate(&self.pp, xs);
                let u = 10f64.powi(self.a[ask].dec as i32);
                o.gross = (o.dy.max(0.0) * u) as u128;
                o.tol = 2 + ((self.pcl_tol(d) * d / k) * u) as u128 + (o.gross as f64 * 1e-9) as u128;
                o.d = d;
            }
        }
        o
    }

    #[allow(clippy::too_many_arguments)]
    fn swap(
        &mut self,
        u: usize,
        from: usize,
        ask: usize,
        amt: u128,
        belief: Option<(U, U)>,
        spread_bps: Option<u64>,
        to: Option<usize>,
        quirk: u8,
        ctx: &mut Ctx,
    ) {
        let n = self.n();
        if from >= n || ask >= n || from == ask {
            return;
        }
        // what a pool pays to itself is a donation behind its back: its histories and prices learn of it with the next operation
        let to = to.filter(|t| *t != 10 || matches!(&ctx.prop[..], "C01" | "C02" | "C03" | "C04" | "C05" | "C11" | "C13"));
        let kind = self.cfg.kind;
        let pre = self.snap();
        let r0 = self.res();
        let s0 = self.lp_sup();
        let sim = self.sim(from, ask, amt);
        let belief_d = belief.and_then(|(a, b)| (!b.is_zero() && !a.is_zero()).then(|| Decimal::checked_from_ratio(a, b).ok()).flatten());
        let maxs = spread_bps.map(|b| Decimal::bps(b.min(10_000)));
        let ask_info = if quirk == 5 && n == 2 { None } else { Some(self.a[ask].info.clone()) };
        let to_s = to.map(|t| self.who(t).to_string());
        let native = self.a[from].native;
        let mut must_fail = false;
        let mut extra = 0u128;
        let junk = AssetInfo::native("ujunk");
        if quirk >= 7 && ctx.on("C02") {
            for (o, a) in [(junk.clone(), Some(self.a[ask].info.clone())), (junk.clone(), None)] {
                let s: Result<SimulationResponse, String> = self.c.query(
                    &self.pair,
                    &QueryMsg::Simulation { offer_asset: Asset { info: o, amount: U::new(1000) }, ask_asset_info: a },
                );
                ctx.check("C02", "foreign-asset", s.is_err(), || format!("the pool quotes {s:?} for an asset it does not hold"));
            }
            let s: Result<ReverseSimulationResponse, String> = self.c.query(
                &self.pair,
                &QueryMsg::ReverseSimulation {
                    offer_asset_info: None,
                    ask_asset: Asset { info: junk.clone(), amount: U::new(1) },
                },
            );
            ctx.check("C02", "foreign-asset", s.is_err(), || format!("the pool quotes {s:?} to buy an asset it does not hold"));
        }
        let res = if quirk == 7 && u < 2 {
            must_fail = true;
            self.c.execute(
                NAMES[u],
                &self.pair.clone(),
                &ExecuteMsg::Swap {
                    offer_asset: Asset { info: junk, amount: U::new(1000) },
                    ask_asset_info: ask_info,
                    belief_price: None,
                    max_spread: maxs,
                    to: to_s,
                },
                &coins(&[("ujunk", 1000)]),
            )
        } else if native {
            let mut funds = vec![(self.a[from].id.as_str(), amt)];
            if quirk == 1 {
                funds[0].1 = if u % 2 == 0 { amt + 1 } else { amt - 1 };
                must_fail = true;
            }
            if quirk == 4 && u < 2 {
                funds.push(("ujunk", 1));
                extra = 1;
                must_fail = true;
            }
            self.c.execute(
                NAMES[u],
                &self.pair.clone(),
                &ExecuteMsg::Swap {
                    offer_asset: self.a[from].with(amt),
                    ask_asset_info: ask_info,
                    belief_price: belief_d,
                    max_spread: maxs,
                    to: to_s,
                },
                &coins(&funds),
            )
        } else if quirk == 3 {
            must_fail = true;
            self.c.execute(
                NAMES[u],
                &self.pair.clone(),
                &ExecuteMsg::Swap {
                    offer_asset: self.a[from].with(amt),
                    ask_asset_info: ask_info,
                    belief_price: belief_d,
                    max_spread: maxs,
                    to: to_s,
                },
                &[],
            )
        } else {
            let hook = Cw20HookMsg::Swap {
                ask_asset_info: ask_info,
                belief_price: belief_d,
                max_spread: maxs,
                to: to_s,
            };
            if quirk == 2 {
                // a hook that no pool token sent
                must_fail = true;
                self.c.execute(
                    NAMES[u],
                    &self.pair.clone(),
                    &ExecuteMsg::Receive(cw20::Cw20ReceiveMsg {
                        sender: NAMES[u].into(),
                        amount: U::new(amt),
                        msg: to_json_binary(&hook).unwrap(),
                    }),
                    &[],
                )
            } else {
                self.c.execute(
                    NAMES[u],
                    &self.a[from].id.clone(),
                    &cw20::Cw20ExecuteMsg::Send {
                        contract: self.pair.clone(),
                        amount: U::new(amt),
                        msg: to_json_binary(&hook).unwrap(),
                    },
                    &[],
                )
            }
        };
        let _ = extra;
        let faulted = self.fault_mark(ctx);
        ctx.outcome("swap", res.is_ok(), res.as_ref().err().map(|s| s.as_str()).unwrap_or(""));

        // what the caller's limits say about the reference result
        let rf = self.ref_swap(from, ask, amt, &r0);
        // a plain offer to a pool in good shape has a price
        if let Err(e) = &sim {
            let mine = if kind == Kind::Sale && ctx.on("C13") { "C13" } else { "C02" };
            let fee = if kind == Kind::Pcl { self.pp.out as f64 / 1e7 } else { self.total_bps as f64 / 1e4 };
            let fair = kind != Kind::Trans
                && s0 > 0
                && from < self.a.len()
                && ask < self.a.len()
                && from != ask
                && amt > 0
                && self.healthy(&r0)
                && fee < 0.5
                && amt < r0[from] / 4
                && r0.iter().all(|x| f(*x) < 1e30)
                && rf.net > 0
                && self.toks(from, amt) >= 1e-3
                && (kind == Kind::Pcl || self.toks(ask, rf.gross) >= 1e-3 && rf.gross > 1000);
            ctx.check(mine, "quote-refused", !fair, || format!("no quote for {amt} {} to a pool of {r0:?}: {e}", self.a[from].id));
        }
        let dflt = if kind == Kind::Pcl { 0.05 } else { 0.005 };
        let lim = maxs.map(df).unwrap_or(dflt);
        let got = |ret: u128, com: u128| if kind == Kind::Pcl { f(ret) } else { f(ret + com) };
        // relative shortfall the limit is applied to; ref spread for the concentrated pool comes from its oracle price
        let shortfall = |ret: u128, com: u128, spread: u128| -> f64 {
            if let Some(b) = belief_d {
                let exp = f(rf.net) / df(b);
                ((exp - got(ret, com)) / exp.max(1e-300)).max(0.0)
            } else {
                f(spread) / (got(ret, com) + f(spread)).max(1e-300)
            }
        };
        let unit_noise = |ret: u128, com: u128| 1e-9 + 4.0 / got(ret, com).max(1.0) + {
            match belief_d {
                Some(b) => 4.0 / (f(rf.net) / df(b)).max(1.0) + 2e-18 / (1.0 / df(b)),
                None => 0.0,
            }
        };
        let ok = match res {
            Err(e) => {
                self.unchanged("swap", &pre, ctx);
                let mine = if kind == Kind::Sale && ctx.on("C13") { "C13" } else { "C02" };
                if ctx.on(mine) && quirk_harmless(quirk, native, u, n) && !faulted && s0 > 0 {
                    if let Ok(q) = &sim {
                        let (ret, com) = (q.return_amount.u128(), q.commission_amount.u128());
                        let big = self.healthy(&r0) && ret < r0[ask] / 2 && self.toks(from, amt) >= 1e-3 && self.toks(ask, ret) >= 1e-3 && ret > 1000;
                        let within = kind == Kind::Trans
                            || (lim <= 0.5
                                && shortfall(ret, com, q.spread_amount.u128()) + unit_noise(ret, com) < lim);
                        // a concentrated pool refuses what loses LP value; if the part of the fee that stays with the LPs is
                        // within rounding, it may
                        let kept = {
                            let mk = if self.fee_addr.is_some() { self.maker_bps as f64 / 1e4 } else { 0.0 };
                            let sh = self.share.map(|s| s.0 as f64 / 1e4).unwrap_or(0.0);
                            rf.rate * (1.0 - sh) * (1.0 - mk) * f(ret) / f(r0[ask])
                        };
                        let guard = e.contains("XCP profit real value dropped") && kept < 1e-8 + 8.0 * self.pcl_tol(rf.d);
                        let pcl_ok = kind != Kind::Pcl
                            || (self.pcl.sure && !guard);
                        // a belief price whose inverse is below the smallest decimal is refused as invalid
                        let within = within && !belief_d.is_some_and(|b| b.is_zero() || df(b) >= 1e18 && e.contains("belief_price"));
                        let afford = self.a[from].bal(&self.c, NAMES[u]) >= amt;
                        ctx.check(mine, "refused-within-limits", !(big && within && pcl_ok && afford), || {
                            format!(
                                "swap of {amt} {} quoted {ret}+{com} (spread {}) is within the limit {lim} but was refused: {e}",
                                self.a[from].id, q.spread_amount
                            )
                        });
                    }
                }
                return;
            }
            Ok(o) => o,
        };
        ctx.check("C01", "funds", !must_fail, || format!("swap accepted although the funds do not match the offer (variant {quirk})"));
        let at = |k: &str| attr_u(&ok, &self.pair, k);
        let (offer, ret, spread, com, maker, share, tax) = (
            at("offer_amount"),
            at("return_amount"),
            at("spread_amount"),
            at("commission_amount"),
            at("maker_fee_amount"),
            at("fee_share_amount"),
            at("sale_tax"),
        );
        let recv = to.unwrap_or(u);
        let mut fl = Flow::default();
        fl.add(u, from, -(amt as i128));
        fl.add(10, from, amt as i128 - tax as i128);
        fl.add(self.taxman, from, tax as i128);
        fl.add(recv, ask, ret as i128);
        fl.add(10, ask, -((ret + maker + share) as i128));
        if let Some(fa) = self.fee_addr {
            fl.add(fa, ask, maker as i128);
        }
        if let Some((_, w)) = self.share {
            fl.add(w, ask, share as i128);
        }
        self.last_ret = ret;
        ctx.check("C01", "offer", offer == amt, || format!("swap of {amt} reports an offer of {offer}"));
        self.settle("swap", &pre, &fl, ctx);
        let r1 = self.res();
        let s1 = self.lp_sup();

        if ctx.on("C02") {
            match &sim {
                Ok(q) => ctx.check(
                    "C02",
                    "quote",
                    q.return_amount.u128() == ret && q.commission_amount.u128() == com && q.spread_amount.u128() == spread,
                    || format!("simulated {q:?}, executed return {ret} commission {com} spread {spread}"),
                ),
                Err(e) => ctx.check("C02", "quote", false, || format!("simulation failed ({e}) but the swap executed")),
            }
            let gross = ret + com;
            let tol = rf.tol + (kind == Kind::Pcl) as u128 * 2;
            let fine = self.healthy(&r0) && self.healthy(&r1);
            ctx.check("C02", "curve", !fine || gross.abs_diff(rf.gross) <= tol, || {
                format!("swap of {amt} on {r0:?} ({from}->{ask}) priced at {gross} before fees, the pool curve gives {} (+-{tol})", rf.gross)
            });
            if kind != Kind::Trans {
                ctx.check("C02", "max-spread-cap", lim <= 0.5 + 1e-12, || format!("accepted with a spread limit of {lim}"));
                let sp = if kind == Kind::Pcl { spread } else { rf.spread };
                let s = shortfall(ret, com, sp);
                ctx.check("C02", "limit", s <= lim + unit_noise(ret, com), || {
                    format!("swap of {amt} paid {ret} (+{com} fee): shortfall {s} exceeds the caller's limit {lim} (belief {belief_d:?})")
                });
                if kind == Kind::Pcl && self.pcl.sure && fine {
                    let orc = self.pcl_oracle();
                    let u_ask = 10f64.powi(self.a[ask].dec as i32);
                    let ideal = if ask == 1 { self.toks(from, amt) / orc } else { self.toks(from, amt) * orc };
                    let want = (ideal - rf.dy).max(0.0) * u_ask;
                    let tol = 3.0 + rf.tol as f64 + ideal * u_ask * 1e-6;
                    ctx.check("C02", "spread", (f(spread) - want).abs() <= tol, || {
                        format!("reported spread {spread}, against the oracle price {orc} it is {want}")
                    });
                } else if kind != Kind::Pcl {
                    ctx.check("C02", "spread", !fine || spread.abs_diff(rf.spread) <= rf.tol, || {
                        format!("reported spread {spread}, expected {}", rf.spread)
                    });
                }
            }
        }
        if ctx.on("C11") && kind == Kind::Trans {
            ctx.check("C11", "one-to-one", ret == rf.gross && com == 0 && maker == 0 && spread == 0, || {
                format!("{amt} of {} returned {ret} of {}, one-to-one is {}", self.a[from].id, self.a[ask].id, rf.gross)
            });
        }
        if ctx.on("C05") {
            let gross = ret + com;
            let want_com = match kind {
                Kind::Trans => (0.0, 0.0),
                Kind::Pcl if !(self.healthy(&r0) && self.healthy(&r1)) => {
                    ((f(gross) * self.pp.mid.min(self.pp.out) as f64 / 1e7) * (1.0 - 1e-9) - 2.0, (f(gross) * self.pp.out.max(self.pp.mid) as f64 / 1e7) * (1.0 + 1e-9) + 2.0)
                }
                Kind::Pcl => {
                    let c = f(gross) * rf.rate;
                    let tol = 2.0 + c * 1e-5 + rf.tol as f64 * rf.rate + f(rf.gross) * 1e-12;
                    (c - tol, c + tol)
                }
                _ => {
                    let c = f(muldiv(gross, self.total_bps as u128, 10_000));
                    (c, c)
                }
            };
            ctx.check("C05", "commission", f(com) >= want_com.0 && f(com) <= want_com.1, || {
                format!("gross {gross} was charged {com}, the configured fee gives {want_com:?}")
            });
            let slop = if kind == Kind::Pcl { 2 } else { 0 };
            let bps = self.share.map(|s| s.0).unwrap_or(0) as u128;
            let want_share = if kind == Kind::Trans { 0 } else { muldiv(com, bps, 10_000) };
            ctx.check("C05", "fee-share", share.abs_diff(want_share) <= slop && (bps > 0 || share == 0), || {
                format!("commission {com}: fee share of {bps} bps paid {share}, expected {want_share}")
            });
            let want_maker = if self.fee_addr.is_some() && kind != Kind::Trans {
                muldiv(com - share.min(com), self.maker_bps as u128, 10_000)
            } else {
                0
            };
            ctx.check("C05", "maker-fee", maker.abs_diff(want_maker) <= slop, || {
                format!("commission {com}, fee share {share}: maker got {maker}, expected {want_maker} ({} bps)", self.maker_bps)
            });
            ctx.check("C05", "fees-inside", maker + share <= com + slop, || format!("paid out {maker}+{share} of a {com} commission"));
        }
        if kind == Kind::Sale {
            ctx.check("C13", "tax", tax == rf.tax, || {
                format!("sale of {amt} {} was taxed {tax}, the configured rate {:?} permille gives {}", self.a[from].id, self.tax[from], rf.tax)
            });
            ctx.check("C13", "net-price", ret + com == rf.gross, || {
                format!("sale of {amt} priced at {} before fees; the curve on the net amount {} gives {}", ret + com, rf.net, rf.gross)
            });
            if tax > 0 {
                ctx.hit("probe.sale_taxed");
            }
        }
        self.check_value("swap", &r0, s0, &r1, s1, ctx);
        if matches!(kind, Kind::Stable | Kind::Pcl) {
            let min = 1e-5;
            self.observe_swap(from, amt, ret, self.toks(from, amt) >= min, self.toks(ask, if kind == Kind::Pcl { ret } else { ret }) >= min);
        }
        if kind == Kind::Pcl {
            self.pcl_swap(from, ask, amt, &rf, s0, &r1, ctx);
        }
        self.record(&r1);
    }

    // ------------------------------------------------------------------------------------------ concentrated pool

    /// the oracle price as it stands before this transaction updates it
    fn pcl_oracle(&self) -> f64 {
        self.pcl.oracle
    }

    fn pcl_provide(&mut self, dep: &[u128], r0: &[u128], s0: u128, r1: &[u128], ctx: &mut Ctx) {
        let ps = self.pcl.scale;
        let m = self.pcl_math();
        let x1 = [self.toks(0, r0[0] + dep[0]), self.toks(1, r0[1] + dep[1]) * ps];
        if s0 == 0 {
            self.pcl.profit = 1.0;
            self.pcl.real = 1.0;
            self.pcl.upd = self.pcl.upd;
            self.pcl_after("provide", None, ctx);
            return;
        }
        let x0 = [self.toks(0, r0[0]), self.toks(1, r0[1]) * ps];
        let d0 = m.d(x0);
        let d1 = m.d(x1);
        let dp = [self.toks(0, dep[0]), self.toks(1, dep[1])];
        let idp = [dp[0], dp[1] * ps];
        let sum = idp[0] + idp[1];
        let fee = if sum > 0.0 { (idp[0] - sum / 2.0).abs() * fee_rate(&self.pp, x1) / sum } else { 0.0 };
        let s = f(s0) / 1e6;
        let share = (s * (d1 / d0 - 1.0)).max(0.0) * (1.0 - fee);
        let ratio = share / (s + share);
        let bal = [x1[0] * ratio, x1[1] * ratio / ps];
        let diff = [(dp[0] - bal[0]).abs(), (dp[1] - bal[1]).abs()];
        let err = 10.0 * (x1[0] + x1[1]) * self.pcl_tol(d0);
        let near = |d: f64, k: f64| (d - 1e-5).abs() < 1e-7 + err / k;
        if near(diff[0], 1.0) || near(diff[1], ps) {
            self.pcl.sure = false;
        }
        if diff[0] >= 1e-5 && diff[1] >= 1e-5 {
            if err / diff[0] > 1e-6 || err / ps / diff[1] > 1e-6 {
                self.pcl.sure = false;
            }
            self.pcl_update(diff[0] / diff[1], x1, s + share, ctx, "provide");
        } else {
            self.pcl_after("provide", None, ctx);
        }
        let _ = r1;
    }

    #[allow(clippy::too_many_arguments)]
    fn pcl_swap(&mut self, from: usize, ask: usize, amt: u128, rf: &RefSwap, s0: u128, r1: &[u128], ctx: &mut Ctx) {
        let mk = if self.fee_addr.is_some() { self.maker_bps as f64 / 1e4 } else { 0.0 };
        let sh = self.share.map(|s| s.0 as f64 / 1e4).unwrap_or(0.0);
        let fee = rf.dy * rf.rate;
        let share = fee * sh;
        let out = rf.dy - fee + (fee - share) * mk + share;
        let off = self.toks(from, amt);
        if (off / 1e-5 - 1.0).abs() < 1e-3 || (out / 1e-5 - 1.0).abs() < 1e-3 {
            self.pcl.sure = false;
        }
        if off < 1e-5 || out < 1e-5 {
            ctx.hit("probe.dust_trade");
            let clear = (off < 0.99e-5 || out < 0.99e-5) && self.healthy(r1);
            if !clear {
                self.pcl_resync();
                return;
            }
            self.pcl_after("swap", None, ctx);
            return;
        }
        let abs_err = self.pcl_tol(rf.d) * rf.d;
        if abs_err / out / if ask == 1 { self.pcl.scale } else { 1.0 } > 1e-7 {
            self.pcl.sure = false;
        }
        let price = if from == 0 { off / out } else { out / off };
        let x = [self.toks(0, r1[0]), self.toks(1, r1[1]) * self.pcl.scale];
        self.pcl_update(price, x, f(s0) / 1e6, ctx, "swap");
    }

    /// the reference repegging step; `x` are the reserves after the operation in the pool's internal unit
    fn pcl_update(&mut self, price: f64, x: [f64; 2], lp: f64, ctx: &mut Ctx, what: &str) {
        let now = self.c.now();
        let m = self.pcl_math();
        let p = self.pp.clone();
        let ptol = self.pcl_tol(m.d(x));
        // the contract steps on with unrounded amounts, `x` are the units that really moved
        let unit = 10f64.powi(-(self.a[0].dec as i32)) / x[0] + 10f64.powi(-(self.a[1].dec as i32)) * self.pcl.scale / x[1];
        let q = &mut self.pcl;
        if q.upd < now {
            let arg = (now - q.upd) as f64 / p.half as f64;
            let alpha = 0.5f64.powf(arg);
            q.oracle = q.last * (1.0 - alpha) + q.oracle * alpha;
            q.upd = now;
        }
        q.last = price;
        let d = m.d(x);
        let real = d / 2.0 / q.scale.sqrt() / lp;
        if q.real > 0.0 {
            q.profit = q.profit * real / q.real;
            q.real = real;
        }
        let norm = (q.oracle / q.scale - 1.0).abs();
        let delta = (p.delta as f64 / 1e9).max(norm / 10.0);
        let lhs = (q.real - 1.0).max(0.0);
        let rhs = (q.profit - 1.0).max(0.0) / 2.0 + p.repeg as f64 / 1e9;
        // the contract's invariant is solved to 1e-5 token
        let eps = 2e-8 + 4.0 * ptol + 2.0 * unit;
        let mut ambiguous = (norm - delta).abs() < 1e-8 || (lhs - rhs).abs() < eps;
        let mut next = None;
        if d < 1.0 || x[0].min(x[1]) / d < 1e-4 {
            q.sure = false;
        }
        if norm >= delta && norm > 0.0 && lhs > rhs || ambiguous && norm > 0.0 {
            let ns = (q.scale * (norm - delta) + delta * q.oracle) / norm;
            if ns > 0.0 {
                let nd = m.d([x[0], x[1] * ns / q.scale]);
                let nr = nd / 2.0 / ns.sqrt() / lp;
                let gap = 2.0 * nr - (q.profit + 1.0);
                let left = nr - 1.0;
                if gap.abs() < 4.0 * eps && left > -2.0 * eps || left.abs() < 2.0 * eps && gap > -4.0 * eps {
                    ambiguous = true;
                }
                if gap > 0.0 && left > 0.0 || ambiguous {
                    next = Some((ns, nr));
                }
            }
        }
        ctx.hit("probe.pcl_price_update");
        self.pcl_after(what, Some((next, ambiguous)), ctx);
    }

    /// compares the published price scale with the reference, then re-bases the reference where it lost precision
    fn pcl_after(&mut self, what: &str, exp: Option<(Option<(f64, f64)>, bool)>, ctx: &mut Ctx) {
        let Ok(c) = self.pcl_config() else { return };
        let now_scale = df(c.price_scale);
        let old = self.pcl.scale;
        let moved = (now_scale / old - 1.0).abs() > 1e-11;
        if moved {
            ctx.hit("probe.repeg");
        }
        match exp {
            None => {
                ctx.check("C08", "scale-still", !moved || !self.pcl.sure, || {
                    format!("{what} without a price update moved the price scale {old} -> {now_scale}")
                });
            }
            Some((next, ambiguous)) if self.pcl.sure => {
                let fits = |s: f64| (now_scale / s - 1.0).abs() < 1e-6;
                let ok = match next {
                    Some((ns, _)) => fits(ns) || (ambiguous && !moved),
                    None => !moved,
                };
                if !ambiguous {
                    ctx.check("C08", "repeg", ok, || {
                        format!(
                            "{what}: price scale {old} -> {now_scale}, the repegging rule gives {:?} (oracle {}, profit {}, real {})",
                            next.map(|x| x.0).unwrap_or(old),
                            self.pcl.oracle,
                            self.pcl.profit,
                            self.pcl.real
                        )
                    });
                } else {
                    ctx.hit("probe.repeg_too_close_to_call");
                }
                if moved {
                    if let Some((_, nr)) = next {
                        self.pcl.real = nr;
                    }
                }
            }
            Some(_) => ctx.hit("probe.repeg_unsure"),
        }
        self.pcl.scale = now_scale;
        if !self.pcl.sure || exp.is_some_and(|e| e.1) {
            self.pcl_resync();
        }
    }

    /// reads the pool's own price state, so that the reference can follow on from a point where floating point could not
    /// decide; if the state cannot be read the reference stays out of the judgement
    fn pcl_resync(&mut self) {
        self.pcl.sure = false;
        let Some(raw) = self.c.raw_store_get(&self.pair, b"config") else { return };
        let Ok(j) = serde_json::from_slice::<serde_json::Value>(&raw) else { return };
        let ps = &j["pool_state"]["price_state"];
        let g = |k: &str| ps[k].as_str().and_then(|s| s.parse::<f64>().ok());
        if let (Some(o), Some(l), Some(s), Some(p), Some(r), Some(t)) = (
            g("oracle_price"),
            g("last_price"),
            g("price_scale"),
            g("xcp_profit"),
            g("xcp_profit_real"),
            ps["last_price_update"].as_u64(),
        ) {
            self.pcl = PclRef { oracle: o, last: l, scale: s, upd: t, profit: p, real: r, sure: true };
        }
    }

    // ------------------------------------------------------------------------------------------ parameters

    fn set_share(&mut self, u: usize, bps: u16, on: bool, ctx: &mut Ctx) {
        let to = "sharer".to_string();
        let p = match self.cfg.kind {
            Kind::Xyk => to_json_binary(&if on {
                XYKPoolUpdateParams::EnableFeeShare { fee_share_bps: bps, fee_share_address: to }
            } else {
                XYKPoolUpdateParams::DisableFeeShare
            }),
            Kind::Stable => to_json_binary(&if on {
                StablePoolUpdateParams::EnableFeeShare { fee_share_bps: bps, fee_share_address: to }
            } else {
                StablePoolUpdateParams::DisableFeeShare
            }),
            Kind::Pcl => to_json_binary(&if on {
                ConcentratedPoolUpdateParams::EnableFeeShare { fee_share_bps: bps, fee_share_address: to }
            } else {
                ConcentratedPoolUpdateParams::DisableFeeShare
            }),
            _ => return,
        }
        .unwrap();
        let r = self.update(u, p, "fee_share", ctx);
        let valid = u == 4 && (!on || (1..=1000).contains(&bps));
        for p in ["C05", "C07"] {
            ctx.check(p, "fee-share-config", r.is_err() || valid, || format!("{} set fee share {bps} bps on={on}", NAMES[u]));
        }
        if r.is_ok() {
            self.share = on.then_some((bps, 7));
        }
    }

    fn update(&mut self, u: usize, params: cosmwasm_std::Binary, what: &str, ctx: &mut Ctx) -> TxResult {
        let r = self.c.execute(NAMES[u], &self.pair.clone(), &ExecuteMsg::UpdateConfig { params }, &[]);
        self.fault_mark(ctx);
        ctx.outcome(what, r.is_ok(), r.as_ref().err().map(|s| s.as_str()).unwrap_or(""));
        r
    }

    fn set_ramp(&mut self, u: usize, amp: u64, gamma_e9: u64, dur: u64, ctx: &mut Ctx) {
        let now = self.c.now();
        let (a, g) = self.amp_now();
        let (_, _, t0, ..) = self.ramp;
        let end = now + dur;
        let (p, valid, na, ng) = match self.cfg.kind {
            Kind::Stable => {
                let na = (amp as u128).saturating_mul(100);
                (
                    to_json_binary(&StablePoolUpdateParams::StartChangingAmp { next_amp: amp, next_amp_time: end }).unwrap(),
                    (1..=1_000_000).contains(&amp) && na * 10 >= a && na <= a * 10 && now >= t0 + 86_400 && dur >= 86_400,
                    na,
                    0,
                )
            }
            Kind::Pcl => {
                let Ok(nad) = Decimal::from_atomics(amp as u128, 3) else { return };
                let ngd = dec_e(gamma_e9, 9);
                let na = nad.atomics().u128();
                let ng = ngd.atomics().u128();
                let within = |x: u128, y: u128| y > 0 && x > 0 && muldiv(x.max(y), pow10(18), x.min(y)) <= 10 * pow10(18);
                (
                    to_json_binary(&ConcentratedPoolUpdateParams::Promote(PromoteParams {
                        next_amp: nad,
                        next_gamma: ngd,
                        future_time: end,
                    }))
                    .unwrap(),
                    (100..=100_000_000).contains(&amp)
                        && (10..=20_000_000).contains(&gamma_e9)
                        && within(a, na)
                        && within(g, ng)
                        && now >= t0 + 86_400
                        && dur >= 86_400,
                    na,
                    ng,
                )
            }
            _ => return,
        };
        let armed = self.c.0.borrow().fault.is_some();
        let r = self.update(u, p, "ramp", ctx);
        let want = valid && u == 4;
        ctx.check("C07", "ramp-rule", r.is_ok() == want || (armed && r.is_err()), || {
            format!(
                "{} asked for amp {amp} gamma {gamma_e9}e-9 over {dur} s (current {a}/{g}, last change {} s ago): {} although the rules say {}",
                NAMES[u],
                now - t0,
                if r.is_ok() { "accepted" } else { "refused" },
                if want { "accept" } else { "refuse" }
            )
        });
        if r.is_ok() {
            self.ramp = (a, g, now, na, ng, end);
        }
    }

    fn stop_ramp(&mut self, u: usize, ctx: &mut Ctx) {
        let now = self.c.now();
        let (a, g) = self.amp_now();
        let p = match self.cfg.kind {
            Kind::Stable => to_json_binary(&StablePoolUpdateParams::StopChangingAmp {}).unwrap(),
            Kind::Pcl => to_json_binary(&ConcentratedPoolUpdateParams::StopChangingAmpGamma {}).unwrap(),
            _ => return,
        };
        let armed = self.c.0.borrow().fault.is_some();
        let r = self.update(u, p, "stop_ramp", ctx);
        ctx.check("C07", "stop-rule", r.is_ok() == (u == 4) || (armed && r.is_err()), || {
            format!("stopping the ramp by {}: {:?}", NAMES[u], r.as_ref().err())
        });
        if r.is_ok() {
            let t0 = if self.cfg.kind == Kind::Stable { now } else { self.ramp.2 };
            self.ramp = (a, g, t0, a, g, now);
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn set_params(
        &mut self,
        u: usize,
        mid: Option<u64>,
        out: Option<u64>,
        fg: Option<u64>,
        repeg: Option<u64>,
        delta: Option<u64>,
        half: Option<u64>,
        ctx: &mut Ctx,
    ) {
        if self.cfg.kind != Kind::Pcl {
            return;
        }
        let n = PclParams {
            mid: mid.unwrap_or(self.pp.mid),
            out: out.unwrap_or(self.pp.out),
            fg: fg.unwrap_or(self.pp.fg),
            repeg: repeg.unwrap_or(self.pp.repeg),
            delta: delta.unwrap_or(self.pp.delta),
            half: half.unwrap_or(self.pp.half),
        };
        let fee = |x: u64| (500..=100_000).contains(&x);
        let valid = fee(n.mid)
            && fee(n.out)
            && n.out > n.mid
            && n.fg <= 1_000_000
            && n.repeg <= 10_000_000
            && n.delta <= 1_000_000_000
            && (1..=604_800).contains(&n.half);
        let p = to_json_binary(&ConcentratedPoolUpdateParams::Update(UpdatePoolParams {
            mid_fee: mid.map(|x| dec_e(x, 7)),
            out_fee: out.map(|x| dec_e(x, 7)),
            fee_gamma: fg.map(|x| dec_e(x, 6)),
            repeg_profit_threshold: repeg.map(|x| dec_e(x, 9)),
            min_price_scale_delta: delta.map(|x| dec_e(x, 9)),
            ma_half_time: half,
        }))
        .unwrap();
        let armed = self.c.0.borrow().fault.is_some();
        let r = self.update(u, p, "params", ctx);
        let want = valid && u == 4;
        ctx.check("C07", "param-rule", r.is_ok() == want || (armed && r.is_err()), || {
            format!(
                "{} set {n:?} (was {:?}): {}",
                NAMES[u],
                self.pp,
                if r.is_ok() { "accepted although out of bounds or not the owner" } else { "refused although valid" }
            )
        });
        if r.is_ok() {
            self.pp = n;
        }
    }

    fn check_params(&mut self, ctx: &mut Ctx) {
        let (a, g) = self.amp_now();
        match self.cfg.kind {
            Kind::Stable => match self.stable_config() {
                Ok(c) => {
                    let want = Decimal::from_ratio(a, 100u128);
                    ctx.check("C07", "amp-path", c.amp == want, || {
                        format!("amplification is {} at {}, the ramp {:?} gives {want}", c.amp, self.c.now(), self.ramp)
                    });
                }
                Err(e) => ctx.violate("C07", "unreadable", e),
            },
            Kind::Pcl => match self.pcl_config() {
                Ok(c) => {
                    ctx.check(
                        "C07",
                        "amp-path",
                        c.amp.atomics().u128().abs_diff(a) <= 1 && c.gamma.atomics().u128().abs_diff(g) <= 1,
                        || format!("amp/gamma are {}/{} at {}, the ramp {:?} gives {a}/{g} e-18", c.amp, c.gamma, self.c.now(), self.ramp),
                    );
                    let p = &self.pp;
                    let same = c.mid_fee == dec_e(p.mid, 7)
                        && c.out_fee == dec_e(p.out, 7)
                        && c.fee_gamma == dec_e(p.fg, 6)
                        && c.repeg_profit_threshold == dec_e(p.repeg, 9)
                        && c.min_price_scale_delta == dec_e(p.delta, 9)
                        && c.ma_half_time == p.half;
                    ctx.check("C07", "params-kept", same, || format!("pool parameters {c:?}, last accepted update {p:?}"));
                    let fs = c.fee_share.map(|f| f.bps);
                    ctx.check("C07", "params-kept", fs == self.share.map(|s| s.0), || format!("fee share {fs:?}, last accepted {:?}", self.share));
                }
                Err(e) => ctx.violate("C07", "unreadable", e),
            },
            _ => {}
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn set_tax(&mut self, u: usize, rates: Vec<Option<u64>>, who: usize, admin: Option<usize>, quirk: u8, ctx: &mut Ctx) {
        if self.cfg.kind != Kind::Sale {
            return;
        }
        let (v, rates_ok) = self.tax_list(&rates, who, quirk);
        let set = !rates.is_empty();
        let admin_s = admin.map(|a| if quirk == 3 { "x".to_string() } else { NAMES[a].to_string() });
        let allowed = u == self.tax_admin || (u == 4 && !set && admin.is_none());
        let valid = allowed && (!set || rates_ok) && (admin.is_none() || quirk != 3);
        let p = to_json_binary(&SaleTaxConfigUpdates {
            tax_configs: set.then(|| v.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>().into()),
            tax_config_admin: admin_s.clone(),
        })
        .unwrap();
        let armed = self.c.0.borrow().fault.is_some();
        let r = self.update(u, p, "set_tax", ctx);
        ctx.check("C13", "tax-config", r.is_ok() == valid || (armed && r.is_err()), || {
            format!(
                "{} set tax rates {rates:?} and admin {admin_s:?} (variant {quirk}, tax admin {}): {:?}",
                NAMES[u], NAMES[self.tax_admin], r.as_ref().err()
            )
        });
        if r.is_ok() {
            if set {
                for i in 0..self.n() {
                    self.tax[i] = if self.a[i].native { rates.get(i).copied().flatten() } else { None };
                }
                self.taxman = 8 + who.min(1);
            }
            if let Some(a) = admin {
                self.tax_admin = a;
            }
        }
    }

    /// the tax settings to send, and whether they are acceptable
    fn tax_list(&self, rates: &[Option<u64>], who: usize, quirk: u8) -> (Vec<(String, TaxConfig<String>)>, bool) {
        let rate = |i: usize| rates.get(i).copied().flatten().filter(|_| self.a[i].native);
        let one = |r: u64| TaxConfig {
            tax_rate: Decimal::permille(r),
            tax_recipient: if quirk == 2 { "x".to_string() } else { NAMES[8 + who.min(1)].to_string() },
        };
        let mut v: Vec<(String, TaxConfig<String>)> =
            (0..self.n()).filter_map(|i| rate(i).map(|r| (self.a[i].id.clone(), one(r)))).collect();
        if quirk == 1 {
            v.push(("ujunk".into(), one(10)));
        }
        let ok = (0..self.n()).all(|i| rate(i).is_none_or(|r| r <= 500)) && (quirk != 2 || v.is_empty()) && quirk != 1;
        (v, ok)
    }

    fn gen_init(&self, rng: &mut Rng) -> Init {
        let mut pcl = self.cfg.pcl.clone();
        let mut amp = self.cfg.amp;
        if rng.pct(70) {
            match rng.below(9) {
                0 => pcl.amp_milli = *rng.pick(&[0, 99, 100, 99_999_999, 100_000_001]),
                1 => pcl.gamma_e9 = *rng.pick(&[0, 9, 10, 20_000_000, 20_000_001]),
                2 => pcl.mid_e7 = *rng.pick(&[0, 499, 500, pcl.out_e7, pcl.out_e7 + 1]),
                3 => pcl.out_e7 = *rng.pick(&[pcl.mid_e7.saturating_sub(1), pcl.mid_e7 + 1, 100_000, 100_001]),
                4 => pcl.fee_gamma_e6 = *rng.pick(&[0, 1_000_000, 1_000_001]),
                5 => pcl.repeg_e9 = *rng.pick(&[0, 10_000_000, 10_000_001]),
                6 => pcl.delta_e9 = *rng.pick(&[0, 1_000_000_000, 1_000_000_001]),
                7 => pcl.scale_e6 = *rng.pick(&[0, 1]),
                _ => pcl.half = *rng.pick(&[0, 1, 604_800, 604_801]),
            }
            amp = *rng.pick(&[0, 1, 1_000_000, 1_000_001, u64::MAX]);
        }
        Init {
            amp,
            pcl,
            rates: (0..self.n()).map(|_| rng.pct(60).then(|| *rng.pick(&[0, 10, 500, 501, 1001]))).collect(),
            tax_quirk: if rng.pct(20) { rng.range(1, 3) as u8 } else { 0 },
            track: rng.pct(50),
            assets: if rng.pct(15) { rng.range(1, 3) as u8 } else { 0 },
        }
    }

    /// a pool comes into being only with parameters inside the documented bounds, and with exactly those
    fn new_pool(&mut self, p: Init, ctx: &mut Ctx) {
        if !ctx.on("C07") && !ctx.on("C13") && !ctx.on("C14") && !ctx.on("C11") {
            return;
        }
        let mut infos: Vec<AssetInfo> = self.a.iter().map(|x| x.info.clone()).collect();
        match p.assets {
            1 => infos[1] = infos[0].clone(),
            2 => infos.truncate(1),
            3 => {
                while infos.len() < if self.cfg.kind == Kind::Trans { 6 } else { 3 } {
                    infos.push(AssetInfo::native(format!("uextra{}", infos.len())));
                }
            }
            _ => {}
        }
        let mut good = p.assets == 0;
        let mut taxes = vec![];
        let init = match self.cfg.kind {
            Kind::Xyk => Some(to_json_binary(&XYKPoolParams { track_asset_balances: Some(p.track) })),
            Kind::Trans => None,
            Kind::Stable => {
                good &= (1..=1_000_000).contains(&p.amp);
                Some(to_json_binary(&StablePoolParams { amp: p.amp, owner: None }))
            }
            Kind::Pcl => {
                let c = &p.pcl;
                let fee = |x: u64| (500..=100_000).contains(&x);
                good &= (100..=100_000_000).contains(&c.amp_milli)
                    && (10..=20_000_000).contains(&c.gamma_e9)
                    && fee(c.mid_e7)
                    && fee(c.out_e7)
                    && c.out_e7 > c.mid_e7
                    && c.fee_gamma_e6 <= 1_000_000
                    && c.repeg_e9 <= 10_000_000
                    && c.delta_e9 <= 1_000_000_000
                    && c.scale_e6 > 0
                    && (1..=604_800).contains(&c.half);
                Some(to_json_binary(&pcl_params(c, p.track)))
            }
            Kind::Sale => {
                let (v, ok) = self.tax_list(&p.rates, 0, p.tax_quirk);
                good &= ok && p.tax_quirk != 3;
                taxes = v.clone();
                Some(to_json_binary(&SaleTaxInitParams {
                    tax_configs: v.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>().into(),
                    tax_config_admin: if p.tax_quirk == 3 { "x" } else { "user2" }.into(),
                    track_asset_balances: p.track,
                }))
            }
        };
        let armed = self.c.0.borrow().fault.is_some();
        let r = self.c.instantiate(
            self.code,
            "user1",
            &astroport::pair::InstantiateMsg {
                pair_type: self.ptype.clone(),
                asset_infos: infos,
                token_code_id: 1,
                factory_addr: self.dex.factory.clone(),
                init_params: init.map(|x| x.unwrap()),
            },
            &[],
            "pool",
            None,
        );
        self.fault_mark(ctx);
        ctx.outcome("new_pool", r.is_ok(), r.as_ref().err().map(|s| s.as_str()).unwrap_or(""));
        let prop = ctx.prop.clone();
        ctx.check(&prop, "init-rule", r.is_ok() == good || (armed && r.is_err()), || {
            format!("a {} pool with {p:?}: {:?}, expected to be {}", kind_name(self.cfg.kind), r, if good { "accepted" } else { "refused" })
        });
        let Ok(addr) = r else { return };
        let conf: Result<ConfigResponse, String> = self.c.query(&addr, &QueryMsg::Config {});
        let json = |c: ConfigResponse| c.params.map(|b| String::from_utf8_lossy(b.as_slice()).to_string()).unwrap_or_default();
        match self.cfg.kind {
            Kind::Stable => {
                let got = conf.and_then(|c| cosmwasm_std::from_json::<StablePoolConfig>(c.params.unwrap_or_default()).map_err(|e| e.to_string()));
                let ok = got.as_ref().is_ok_and(|g| g.amp == Decimal::from_ratio(p.amp, 1u64));
                ctx.check("C07", "init-kept", ok, || format!("a pool made with amplification {} reports {got:?}", p.amp));
            }
            Kind::Pcl => {
                let got = conf.and_then(|c| cosmwasm_std::from_json::<ConcentratedPoolConfig>(c.params.unwrap_or_default()).map_err(|e| e.to_string()));
                let w = pcl_params(&p.pcl, p.track);
                let ok = got.as_ref().is_ok_and(|g| {
                    g.amp == w.amp
                        && g.gamma == w.gamma
                        && g.mid_fee == w.mid_fee
                        && g.out_fee == w.out_fee
                        && g.fee_gamma == w.fee_gamma
                        && g.repeg_profit_threshold == w.repeg_profit_threshold
                        && g.min_price_scale_delta == w.min_price_scale_delta
                        && g.price_scale == w.price_scale
                        && g.ma_half_time == w.ma_half_time
                        && g.track_asset_balances == p.track
                });
                ctx.check("C07", "init-kept", ok, || format!("a pool made with {w:?} reports {got:?}"));
            }
            Kind::Sale => {
                let got = conf.map(json);
                let ok = got.as_ref().is_ok_and(|g| {
                    let Ok(v) = cosmwasm_std::from_json::<SaleTaxInitParams>(g.as_bytes()) else { return false };
                    let w: TaxConfigs<String> = taxes.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>().into();
                    v.tax_configs == w && v.tax_config_admin == "user2" && v.track_asset_balances == p.track
                });
                ctx.check("C13", "init-kept", ok, || format!("a pool made with {p:?} reports {got:?}"));
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------------------------------------ quotes

    fn quote(&mut self, from: usize, ask: usize, amt: u128, ctx: &mut Ctx) {
        let n = self.n();
        if !ctx.on("C02") && !ctx.on("C11") || from >= n || ask >= n || from == ask || amt == 0 {
            return;
        }
        let r: Result<ReverseSimulationResponse, String> = self.c.query(
            &self.pair,
            &QueryMsg::ReverseSimulation {
                offer_asset_info: Some(self.a[from].info.clone()),
                ask_asset: self.a[ask].with(amt),
            },
        );
        ctx.outcome("reverse_quote", r.is_ok(), r.as_ref().err().map(|s| s.as_str()).unwrap_or(""));
        let r0 = self.res();
        if self.cfg.kind == Kind::Trans {
            let (nf, na) = (self.norm(from), self.norm(ask));
            let want = (amt * na).div_ceil(nf);
            let p = ctx.prop.clone();
            let ok = match &r {
                Ok(q) => amt <= r0[ask] && q.offer_amount.u128() == want,
                Err(_) => amt > r0[ask],
            };
            ctx.check(&p, "reverse", ok, || {
                format!("to receive {amt} of {} (pool holds {}) the quote is {r:?}; one-to-one needs {want}", self.a[ask].id, r0[ask])
            });
            return;
        }
        let q = match r {
            Ok(q) => q,
            Err(e) => {
                // a small part of a pool in good shape has a price
                let fee = match self.cfg.kind {
                    Kind::Pcl => self.pp.out as f64 / 1e7,
                    _ => self.total_bps as f64 / 1e4,
                };
                let fair = self.lp_sup() > 0 && self.healthy(&r0) && fee < 0.5 && amt < r0[ask] / 4 && r0.iter().all(|x| f(*x) < 1e30) && self.toks(ask, amt) >= 1e-3;
                ctx.check("C02", "reverse-refused", !fair, || format!("no reverse quote for {amt} of {r0:?}: {e}"));
                return;
            }
        };
        let off = q.offer_amount.u128();
        if self.toks(ask, amt) < 1e-3 || off < 10 || self.toks(from, off) < 1e-3 || !self.healthy(&r0) {
            return;
        }
        // offering (a hair more than) the quoted amount really yields the desired amount
        let up = off + 3 + off / pow10(12) + pow10(self.a[from].dec as u32) / pow10(6).max(1) * (self.cfg.kind == Kind::Stable) as u128 / 100;
        if let Ok(s) = self.sim(from, ask, up) {
            let got = s.return_amount.u128();
            let tol = 4 + amt / pow10(9) + match self.cfg.kind {
                Kind::Stable | Kind::Pcl => (1e-7 * 10f64.powi(self.a[ask].dec as i32)) as u128,
                _ => 0,
            };
            ctx.check("C02", "reverse", got + tol >= amt, || {
                format!("reverse quote: {off} buys {amt}; offering {up} is simulated to return only {got}")
            });
            // what it says about fee and spread is what the swap would say
            let gross = f(s.return_amount.u128() + s.commission_amount.u128());
            let slack = gross * (1e-5 + 8.0 / f(off)) + 8.0 + tol as f64;
            // (the stable pool states the spread in the offered token, the concentrated one gives estimates in it)
            let (sp, unit) = if self.cfg.kind == Kind::Stable {
                let k = 10f64.powi(self.a[from].dec as i32);
                ((self.toks(from, off) - gross / 10f64.powi(self.a[ask].dec as i32)).max(0.0) * k, k / 10f64.powi(self.a[ask].dec as i32))
            } else {
                (f(s.spread_amount.u128()), 1.0)
            };
            let (qc, qs, sc) = (f(q.commission_amount.u128()), f(q.spread_amount.u128()), f(s.commission_amount.u128()));
            let est = self.cfg.kind == Kind::Pcl;
            ctx.check("C02", "reverse-parts", est || (qc - sc).abs() <= slack, || {
                format!("reverse quote for {amt}: commission {qc}, swapping the quoted {up} would have {sc}")
            });
            ctx.check("C02", "reverse-parts", est || (qs - sp).abs() <= (slack + f(s.spread_amount.u128()) * (1e-5 + 8.0 / f(off))) * unit.max(1.0) + f(off) * 1e-6, || {
                format!("reverse quote for {amt}: spread {qs}, swapping the quoted {up} would have {sp}")
            });
        }
        if self.cfg.kind != Kind::Pcl && off > 1000 {
            if let Ok(s) = self.sim(from, ask, off - off / 1000) {
                let got = s.return_amount.u128();
                ctx.check("C02", "reverse", got <= amt + 4, || {
                    format!("reverse quote asks {off} for {amt}, but 0.1% less already returns {got}")
                });
            }
        }
    }

    fn code_id(&self) -> u64 {
        self.code
    }

    // ------------------------------------------------------------------------------------------ TWAP

    pub fn cumulative(&self) -> Result<Vec<u128>, String> {
        let r: CumulativePricesResponse = self.c.query(&self.pair, &QueryMsg::CumulativePrices {})?;
        let mut v = vec![];
        for (i, j) in [(0, 1), (1, 0)] {
            let e = r
                .cumulative_prices
                .iter()
                .find(|(a, b, _)| *a == self.a[i].info && *b == self.a[j].info)
                .ok_or("missing direction")?;
            v.push(e.2.u128());
        }
        Ok(v)
    }

    /// (value per second as a number, tolerance) in both directions; None if there is no price
    pub fn spot(&self, r: &[u128]) -> Option<[(f64, f64); 2]> {
        if r.iter().any(|x| *x == 0) {
            return None;
        }
        match self.cfg.kind {
            Kind::Stable => {
                let mut o = [(0.0, 0.0); 2];
                for (i, j) in [(0usize, 1usize), (1, 0)] {
                    let one = pow10(self.a[i].dec as u32);
                    let s = self.ref_swap(i, j, one, r);
                    let k = 10f64.powi(6 - self.a[j].dec as i32);
                    o[i] = (f(s.gross) * k, 1.0 + (s.tol as f64 + 1.0) * k);
                }
                Some(o)
            }
            Kind::Pcl => {
                let x = self.toks(0, r[0]);
                let off = (x * 1e-4).min(1.0);
                let m = self.pcl_math();
                let ps = self.pcl.scale;
                let x0 = [x, self.toks(1, r[1]) * ps];
                let d = m.d(x0);
                let y = m.y(d, x0[0] + off);
                let dy = (x0[1] - y) / ps;
                let rate = fee_rate(&self.pp, [x0[0] + off, y]);
                let p1 = off / (dy * (1.0 - rate));
                let rel = (1e-5 + 1e-11 * d / off + 2.0 * self.pcl_tol(d) * d / off).min(0.05);
                Some([(1e6 / p1, 1.0 + rel * 1e6 / p1), (1e6 * p1, 1.0 + rel * 1e6 * p1)])
            }
            _ => Some([(1e6 * f(r[1]) / f(r[0]), 0.0), (1e6 * f(r[0]) / f(r[1]), 0.0)]),
        }
    }

    pub fn ramping(&self) -> bool {
        self.c.now() < self.ramp.5
    }
    /// reserves large enough for the pool's price to be meaningful
    pub fn priced(&self, r: &[u128]) -> bool {
        (0..2).all(|i| self.toks(i, r[i]) >= 1.0) && self.healthy(r)
    }

    fn check_cumulative(&mut self, ctx: &mut Ctx) {
        let r = self.res();
        self.cum_now = None;
        if self.cfg.kind == Kind::Trans || self.lp_sup() == 0 {
            return;
        }
        let tiny = (0..2).any(|i| self.toks(i, r[i]) < 1.0) || !self.healthy(&r);
        self.cum_tiny = tiny;
        self.cum_res = r.clone();
        self.cum_last = self.pcl.last;
        let v = match self.cumulative() {
            Ok(v) => v,
            Err(e) => {
                ctx.check("C06", "unreadable", tiny, || format!("cumulative prices cannot be read: {e}"));
                return;
            }
        };
        if let Some((t, base)) = &self.cum {
            let dt = (self.c.now() - t) as u128;
            match self.cfg.kind {
                Kind::Xyk | Kind::Sale => {
                    for i in 0..2 {
                        let want = base[i].wrapping_add(muldiv(dt * 1_000_000, r[1 - i], r[i]));
                        ctx.check("C06", "growth", v[i] == want, || {
                            format!("cumulative price {i} reads {} at {}, last value {} + {dt} s at reserves {r:?} gives {want}", v[i], self.c.now(), base[i])
                        });
                    }
                }
                _ if tiny => {}
                _ => {
                    if let Some(sp) = self.spot(&r) {
                        for i in 0..2 {
                            let g = f(v[i].wrapping_sub(base[i]));
                            let want = sp[i].0 * dt as f64;
                            let tol = sp[i].1 * dt as f64 + 1.0 + self.cum_slack[i];
                            ctx.check("C06", "growth", (g - want).abs() <= tol, || {
                                format!("cumulative price {i} grew {g} in {dt} s at reserves {r:?}; the pool price gives {want} (+-{tol})")
                            });
                        }
                    }
                }
            }
        }
        self.cum_now = Some(v);
    }

    fn after_cumulative(&mut self, ctx: &mut Ctx) {
        if self.cfg.kind == Kind::Trans || self.lp_sup() == 0 {
            return;
        }
        let Ok(v) = self.cumulative() else { return };
        let traded = self.touched.len() > self.cum_ops;
        self.cum_ops = self.touched.len();
        if !traded {
            return;
        }
        let now = self.c.now();
        let r = self.res();
        let tiny_after = (0..2).any(|i| self.toks(i, r[i]) < 1.0) || !self.healthy(&r);
        match (&self.cum_now, &self.cum) {
            (Some(b), Some((t, base))) => {
                let dt = (now - t) as f64;
                // a concentrated pool does not settle its accumulator on withdrawals: the pool price itself must not move
                for i in 0..2 {
                    let tol = if self.cfg.kind == Kind::Pcl {
                        let x = |r: &[u128]| {
                            let x0 = self.toks(0, r[0]);
                            let d = self.pcl_math().d([x0, self.toks(1, r[1]) * self.pcl.scale]);
                            4.0 * self.pcl_tol(d) * d / (x0 * 1e-4).min(1.0)
                        };
                        let rel = 2e-3 + x(&r) + x(&self.cum_res);
                        2.0 + dt * 1.0 + rel * f(b[i].wrapping_sub(base[i]))
                    } else {
                        0.0
                    };
                    let exact = self.last_op_settles;
                    let tol = if exact { 0.0 } else { tol };
                    if self.cfg.kind == Kind::Pcl && (self.cum_tiny || tiny_after) {
                        continue;
                    }
                    if self.cfg.kind == Kind::Pcl && self.last_op_provide {
                        // the concentrated pool settles a deposit at its last trade price
                        let p = if i == 0 { 1e6 / self.cum_last } else { 1e6 * self.cum_last };
                        let g = f(v[i].wrapping_sub(base[i]));
                        if v[i] != b[i] && (g - p * dt).abs() <= dt * (1.0 + p * 1e-6) + 1.0 {
                            ctx.violate("C06", "deposit-at-last-trade-price", format!(
                                "a deposit settled cumulative price {i} with the last trade price {p}: it read {} before and {} after, at {now}", b[i], v[i]));
                            continue;
                        }
                    }
                    ctx.check("C06", "same-instant", f(v[i].abs_diff(b[i])) <= tol, || {
                        format!("cumulative price {i} at {now} read {} before and {} after a transaction of the same instant", b[i], v[i])
                    });
                }
                if self.last_op_settles {
                    self.cum = Some((now, v));
                    self.cum_slack = [0.0; 2];
                } else {
                    for i in 0..2 {
                        self.cum_slack[i] += f(v[i].abs_diff(b[i]));
                    }
                }
            }
            _ => {
                self.cum = Some((now, v));
                self.cum_slack = [0.0; 2];
            }
        }
    }

    // ------------------------------------------------------------------------------------------ tracked balances

    fn check_tracked(&mut self, ctx: &mut Ctx) {
        if !self.cfg.track || !matches!(self.cfg.kind, Kind::Xyk | Kind::Pcl | Kind::Sale) {
            return;
        }
        let now = self.c.height();
        let mut hs = vec![now, now + 1, self.born, self.born + 1, self.born.saturating_sub(1)];
        for (h, _) in self.hist.iter().rev().take(4) {
            hs.extend([h.saturating_sub(1), *h, h + 1]);
        }
        if self.hist.len() > 6 {
            let k = (self.touched.len() * 7919) % self.hist.len();
            let h = self.hist[k].0;
            hs.extend([h - 1, h, h + 1]);
        }
        hs.sort();
        hs.dedup();
        for h in hs {
            let want: Option<Vec<u128>> = if h <= self.born {
                None
            } else {
                Some(self.hist.iter().rev().find(|(k, _)| *k < h).map(|x| x.1.clone()).unwrap_or(vec![0; 2]))
            };
            for i in 0..2 {
                let got: Result<Option<Uint128>, String> = self.c.query(
                    &self.pair,
                    &QueryMsg::AssetBalanceAt { asset_info: self.a[i].info.clone(), block_height: Uint64::new(h) },
                );
                let w = want.as_ref().map(|v| v[i]);
                ctx.check("C09", "balance-at", got.clone().map(|x| x.map(|v| v.u128())) == Ok(w), || {
                    format!("balance of asset {i} at height {h} (now {now}): {got:?}, the pool's operations before that height left {w:?}")
                });
            }
        }
    }

    // ------------------------------------------------------------------------------------------ price observations

    fn observe_swap(&mut self, from: usize, amt: u128, ret: u128, offer_big: bool, ret_big: bool) {
        let now = self.c.now();
        if let Some((ts, b, q)) = self.obs.pre {
            let price = Decimal::from_ratio(b, q);
            let k = self.obs.list.len();
            if let Some((lts, _, sma)) = self.obs.list.last().copied() {
                if lts < ts {
                    let head = (self.obs.total % OBS_CAP) as u128;
                    let num = if k >= OBS_CAP {
                        let oldest = self.obs.list[k - OBS_CAP].1;
                        (u256(sma.atomics().u128()) * u256(OBS_CAP as u128) + u256(price.atomics().u128())
                            - u256(oldest.atomics().u128()))
                            / u256(OBS_CAP as u128)
                    } else {
                        (u256(sma.atomics().u128()) * u256(head) + u256(price.atomics().u128())) / u256(head + 1)
                    };
                    let n: Uint128 = num.try_into().unwrap_or(Uint128::MAX);
                    self.obs.list.push((ts, price, Decimal::new(n)));
                    self.obs.total += 1;
                }
            } else if now > ts {
                self.obs.list.push((ts, price, price));
                self.obs.total += 1;
            }
        }
        if offer_big && ret_big {
            let (b, q) = if from == 0 { (amt, ret) } else { (ret, amt) };
            self.obs.pre = match self.obs.pre {
                Some((ts, pb, pq)) if ts == now => Some((ts, pb + b, pq + q)),
                _ => Some((now, b, q)),
            };
        }
    }

    fn check_observe(&mut self, ctx: &mut Ctx) {
        if !matches!(self.cfg.kind, Kind::Stable | Kind::Pcl) {
            return;
        }
        let now = self.c.now();
        let list: &[(u64, Decimal, Decimal)] = {
            let k = self.obs.list.len();
            &self.obs.list[k.saturating_sub(OBS_CAP)..]
        };
        let mut ago = vec![0u64, 1, 60];
        if !list.is_empty() {
            let k = list.len();
            for i in [0, k / 2, k.saturating_sub(2), k - 1, (self.touched.len() * 31) % k] {
                let d = now - list[i].0;
                ago.extend([d, d + 1, d.saturating_sub(1)]);
                if i + 1 < k {
                    ago.push(now - (list[i].0 + (list[i + 1].0 - list[i].0) / 3));
                }
            }
        } else if let Some((ts, ..)) = self.obs.pre {
            ago.extend([now - ts, now - ts + 1]);
        }
        ago.sort();
        ago.dedup();
        for s in ago {
            let got: Result<OracleObservation, String> = self.c.query(&self.pair, &QueryMsg::Observe { seconds_ago: s });
            let t = now - s;
            let want: Option<(f64, f64)> = if list.is_empty() {
                self.obs.pre.and_then(|(ts, b, q)| (ts <= t).then(|| (df(Decimal::from_ratio(b, q)), 0.0)))
            } else if t >= list.last().unwrap().0 {
                Some((df(list.last().unwrap().2), 0.0))
            } else if t < list[0].0 {
                None
            } else {
                let i = list.iter().rposition(|x| x.0 <= t).unwrap();
                let (l, r) = (list[i], list[i + 1]);
                let (pl, pr) = (df(l.2), df(r.2));
                if l.0 == t {
                    Some((pl, 0.0))
                } else {
                    let p = pl + (pr - pl) * (t - l.0) as f64 / (r.0 - l.0) as f64;
                    Some((p, (pr - pl).abs() * 1e-9 + 2e-18 * (r.0 - l.0) as f64 * (1.0 + (pr - pl).abs())))
                }
            };
            let ok = match (&got, want) {
                (Ok(o), Some((p, tol))) => o.timestamp == t && (df(o.price) - p).abs() <= tol + p.abs() * 1e-12 + 2e-18,
                (Err(_), None) => true,
                _ => false,
            };
            ctx.check("C10", "observation", ok, || {
                format!("Observe {s} s ago (t={t}, {} observations, pending {:?}): {got:?}, expected {want:?}", list.len(), self.obs.pre)
            });
        }
    }

    // ------------------------------------------------------------------------------------------ transmuter

    /// the pool's own reports: holdings, LP supply, what a share redeems, invariant, LP value, settings
    fn check_reads(&mut self, ctx: &mut Ctx) {
        let kind = self.cfg.kind;
        if ctx.on("C05") {
            // the fee share a pool reports is the one last accepted
            let got = match kind {
                Kind::Xyk => self.config().and_then(|c| {
                    cosmwasm_std::from_json::<astroport::pair::XYKPoolConfig>(c.params.unwrap_or_default()).map_err(|e| e.to_string())
                }).map(|c| c.fee_share),
                Kind::Stable => self.stable_config().map(|c| c.fee_share),
                Kind::Pcl => self.pcl_config().map(|c| c.fee_share),
                _ => return,
            };
            let want = self.share.map(|s| (s.0, NAMES[s.1].to_string()));
            let ok = got.as_ref().is_ok_and(|g| g.as_ref().map(|g| (g.bps, g.recipient.to_string())) == want);
            ctx.check("C05", "fee-share-config", ok, || format!("the pool reports the fee share {got:?}, last accepted {want:?}"));
            return;
        }
        let r = self.res();
        let s = self.lp_sup();
        let p: Result<astroport::pair::PoolResponse, String> = self.c.query(&self.pair, &QueryMsg::Pool {});
        let ok = p.as_ref().is_ok_and(|p| {
            p.total_share.u128() == s
                && p.assets.len() == r.len()
                && (0..self.n()).all(|i| p.assets[i].info == self.a[i].info && p.assets[i].amount.u128() == r[i])
        });
        ctx.check("C04", "pool-query", ok, || format!("the pool reports {p:?}, it holds {r:?} for {s} LP"));
        if kind != Kind::Trans && s > 0 {
            let l = s / (2 + (self.c.height() % 5) as u128);
            let a: Result<Vec<Asset>, String> = self.c.query(&self.pair, &QueryMsg::SimulateWithdraw { lp_amount: U::new(l) });
            let eff = if kind == Kind::Pcl { l.saturating_sub(1) } else { l };
            let ok = match &a {
                Ok(a) => a.len() == r.len() && (0..self.n()).all(|i| {
                    let x = muldiv(r[i], eff, s);
                    a[i].info == self.a[i].info && a[i].amount.u128() <= x && a[i].amount.u128() + r[i] / pow10(18) + 2 >= x
                }),
                Err(_) => !self.healthy(&r),
            };
            self.check_share(&r, s, "C04", ctx);
            ctx.check("C04", "pool-query", ok, || format!("SimulateWithdraw({l}) answers {a:?}; the pool holds {r:?} for {s} LP"));
        }
        if s == 0 || !self.healthy(&r) {
            return;
        }
        match kind {
            Kind::Stable => {
                let d: Result<Uint128, String> = self.c.query(&self.pair, &QueryMsg::QueryComputeD {});
                let want = self.stable_d(&r);
                let unit = u512(pow10(30 - self.max_dec() as u32));
                let w = to128(want / unit);
                let tol = 2 + (self.stable_tol(&r) * 2.0 * 10f64.powi(self.max_dec() as i32)) as u128;
                let ok = d.as_ref().is_ok_and(|d| d.u128().abs_diff(w) <= tol);
                ctx.check("C04", "invariant-query", ok, || format!("the pool reports the invariant {d:?}, the reference is {w} (tolerance {tol})"));
            }
            Kind::Pcl => {
                use astroport::pair_concentrated::QueryMsg as Q;
                let Ok(ps) = self.pcl_config().map(|c| df(c.price_scale)) else { return };
                let d: Result<Decimal256, String> = self.c.query(&self.pair, &Q::ComputeD {});
                let want = self.pcl_math().d([self.toks(0, r[0]), self.toks(1, r[1]) * ps]);
                let tol = 1e-9 + 4.0 * self.pcl_tol(want);
                let ok = d.as_ref().is_ok_and(|d| (d256(*d) / want - 1.0).abs() <= tol);
                ctx.check("C04", "invariant-query", ok, || format!("the pool reports the invariant {d:?}, the reference is {want} (tolerance {tol})"));
                let l: Result<Decimal256, String> = self.c.query(&self.pair, &Q::LpPrice {});
                let want = self.pcl_v(&r, s, ps);
                let ok = l.as_ref().is_ok_and(|l| (d256(*l) / want - 1.0).abs() <= tol);
                ctx.check("C04", "lp-price-query", ok, || format!("the pool reports {l:?} per LP token, the reference is {want} (tolerance {tol})"));
            }
            _ => {}
        }
    }

    /// what the pool says some LP tokens are worth
    fn check_share(&self, r: &[u128], s: u128, prop: &str, ctx: &mut Ctx) {
        let l = s / (2 + (self.c.height() % 7) as u128);
        let a: Result<Vec<Asset>, String> = self.c.query(&self.pair, &QueryMsg::Share { amount: U::new(l) });
        let eff = if self.cfg.kind == Kind::Pcl { l.saturating_sub(1) } else { l };
        let ok = match &a {
            Ok(a) => {
                a.len() == r.len()
                    && (0..self.n()).all(|i| {
                        let x = muldiv(r[i], eff, s);
                        a[i].info == self.a[i].info && a[i].amount.u128() <= x && a[i].amount.u128() + r[i] / pow10(18) + 2 >= x
                    })
            }
            Err(_) => !self.healthy(r),
        };
        ctx.check(prop, "share-query", ok, || format!("Share({l}) answers {a:?}; the pool holds {r:?} for {s} LP"));
    }

    fn check_transmuter(&mut self, ctx: &mut Ctx) {
        let r = self.res();
        let s = self.lp_sup();
        let v: u128 = (0..self.n()).map(|i| r[i] * self.norm(i)).sum();
        ctx.check("C11", "backing", v >= s, || format!("the pool holds normalised {v} for {s} LP (reserves {r:?})"));
        let c = self.config();
        let ok = c.as_ref().is_ok_and(|c| c.owner == OWNER && c.factory_addr.as_str() == self.dex.factory && c.params.is_none());
        ctx.check("C11", "pool-config", ok, || format!("the pool reports the configuration {c:?}"));
        if s > 0 {
            self.check_share(&r, s, "C11", ctx);
        }
    }
}

fn pcl_params(p: &PclCfg, track: bool) -> ConcentratedPoolParams {
    ConcentratedPoolParams {
        amp: dec_e(p.amp_milli, 3),
        gamma: dec_e(p.gamma_e9, 9),
        mid_fee: dec_e(p.mid_e7, 7),
        out_fee: dec_e(p.out_e7, 7),
        fee_gamma: dec_e(p.fee_gamma_e6, 6),
        repeg_profit_threshold: dec_e(p.repeg_e9, 9),
        min_price_scale_delta: dec_e(p.delta_e9, 9),
        price_scale: dec_e(p.scale_e6, 6),
        ma_half_time: p.half,
        track_asset_balances: Some(track),
        fee_share: None,
    }
}

const OBS_CAP: usize = astroport::observation::OBSERVATIONS_SIZE as usize;

fn d256(d: Decimal256) -> f64 {
    d.to_string().parse().unwrap_or(f64::NAN)
}

fn xs_u(xs: &[Uint512], i: usize, s: &PoolScn) -> u128 {
    to128(xs[i] / u512(pow10(30 - s.a[i].dec as u32)))
}

fn quirk_harmless(quirk: u8, native: bool, u: usize, n: usize) -> bool {
    match quirk {
        0 | 6 | 8 => true,
        7 => u >= 2,
        1 => !native,
        4 => !native || u >= 2,
        5 => n == 2,
        _ => native,
    }
}

#[derive(Clone, Debug, Default)]
struct RefSwap {
    net: u128,
    tax: u128,
    gross: u128,
    spread: u128,
    tol: u128,
    // concentrated pool, in tokens
    dy: f64,
    rate: f64,
    d: f64,
}

/// the other reserve of a stable pool with invariant d
fn stable_y(amp: u128, d: Uint512, x: Uint512) -> Uint512 {
    let ann = u512(amp * 2);
    let h = u512(100);
    let two = u512(2);
    let c = d * d / (x * two) * d * h / (ann * two);
    let b = x + d * h / ann;
    let mut y = d;
    for _ in 0..255 {
        let p = y;
        y = (y * y + c) / (two * y + b - d);
        let diff = if y > p { y - p } else { p - y };
        if diff <= u512(1) {
            break;
        }
    }
    y
}
