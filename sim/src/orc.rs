//! The periodic price oracle (C29) over a pool with traffic: exact model of the average, bounds from the pool's
//! prices during the window.

use crate::chain::*;
use crate::code;
use crate::pool::{self, Kind, PoolScn};
use crate::rng::Rng;
use crate::runner::*;
use crate::world::*;
use astroport::asset::AssetInfo;
use astroport::pair::QueryMsg;
use cosmwasm_std::{Uint128, Uint256, Uint512};
use serde::{Deserialize, Serialize};
use serde_json::json;

const DAY: u64 = 86_400;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pool: pool::Cfg,
    /// how many pool operations precede the oracle
    late: usize,
    flip: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Pool(pool::Op),
    Update { u: usize },
    Consult { from: usize, amt: Uint128 },
    Wait { secs: u64 },
}

pub struct OrcScn {
    p: PoolScn,
    late: usize,
    flip: bool,
    code: u64,
    orc: Option<String>,
    last: u64,
    base: Vec<u128>,
    /// averages (atomics, 18 decimals) per direction
    avg: Vec<Uint512>,
    /// lowest and highest price (and tolerance) of each direction since the last update
    win: Option<[(f64, f64); 2]>,
    win_ok: bool,
    /// parameters were ramping since the pool last settled its cumulative prices (settling prices the whole time)
    tainted: bool,
    seen: u64,
}

impl OrcScn {
    fn raw(&self) -> bool {
        matches!(self.p.cfg.kind, Kind::Xyk | Kind::Sale)
    }

    fn reset(&mut self) {
        self.win = None;
        self.win_ok = !self.tainted;
        self.seen = self.p.c.now();
    }

    fn taint(&mut self) {
        if !self.raw() && self.p.ramping() {
            self.tainted = true;
            self.win_ok = false;
        }
    }

    /// the price that has held since the last call
    fn observe(&mut self) {
        self.taint();
        let now = self.p.c.now();
        if now == self.seen {
            return;
        }
        self.seen = now;
        let r = self.p.res();
        let sp = if self.p.lp_sup() == 0 {
            Some([(0.0, 1.0); 2])
        } else if !self.raw() && !self.p.priced(&r) {
            None
        } else {
            self.p.spot(&r)
        };
        let Some(sp) = sp else {
            self.win_ok = false;
            return;
        };
        let w = self.win.get_or_insert([(f64::MAX, 0.0); 2]);
        for i in 0..2 {
            w[i].0 = w[i].0.min(sp[i].0 - sp[i].1);
            w[i].1 = w[i].1.max(sp[i].0 + sp[i].1);
        }
    }

    fn deploy(&mut self, ctx: &mut Ctx) {
        let mut infos: Vec<AssetInfo> = self.p.a.iter().map(|a| a.info.clone()).collect();
        if self.flip {
            infos.reverse();
        }
        for bad in [vec![infos[0].clone()], vec![infos[0].clone(), AssetInfo::native("ujunk")]] {
            let r = self.p.c.instantiate(self.code, OWNER, &json!({"factory_contract": self.p.dex.factory, "asset_infos": bad}), &[], "oracle", None);
            ctx.check("C29", "no-such-pair", r.is_err(), || format!("an oracle for {bad:?} was set up without a pair"));
        }
        let cum = self.p.cumulative();
        let r = self.p.c.instantiate(self.code, OWNER, &json!({"factory_contract": self.p.dex.factory, "asset_infos": infos}), &[], "oracle", None);
        ctx.check("C29", "set-up", r.is_ok() == cum.is_ok(), || format!("oracle set up: {r:?}; cumulative prices {cum:?}"));
        ctx.outcome("instantiate", r.is_ok(), &r.clone().err().unwrap_or_default());
        if let (Ok(a), Ok(cum)) = (r, cum) {
            self.orc = Some(a);
            self.last = self.p.c.now();
            self.base = cum;
            self.avg = vec![Uint512::zero(); 2];
            self.reset();
        }
    }

    fn consult(&mut self, from: usize, amt: u128, ctx: &mut Ctx) {
        let Some(orc) = self.orc.clone() else { return };
        let ask = 1 - from;
        let r: Result<Vec<(AssetInfo, Uint256)>, String> =
            self.p.c.query(&orc, &json!({"consult": {"token": self.p.a[from].info, "amount": Uint128::new(amt)}}));
        let one = pow10(self.p.a[from].dec as u32);
        let avg = self.avg[from];
        if avg.is_zero() {
            ctx.hit("probe.consult_spot");
            let s: Result<u128, String> = self
                .p
                .c
                .query::<astroport::pair::SimulationResponse>(
                    &self.p.pair,
                    &QueryMsg::Simulation { offer_asset: self.p.a[from].with(one), ask_asset_info: Some(self.p.a[ask].info.clone()) },
                )
                .map(|s| s.return_amount.u128());
            match (&r, &s) {
                (Ok(v), Ok(s)) => {
                    let want = u512(*s) * u512(amt) / u512(one);
                    ctx.check("C29", "spot", v.len() == 1 && v[0].0 == self.p.a[ask].info && Uint512::from(v[0].1) == want, || {
                        format!("without an average, {amt} of token {from} are worth {v:?}; one token trades for {s}: {want}")
                    });
                }
                _ => ctx.check("C29", "spot", r.is_ok() == s.is_ok(), || format!("without an average, {amt} of token {from}: {r:?}; the pool quotes {s:?}")),
            }
            return;
        }
        ctx.hit("probe.consult_average");
        let plain = u512(amt) * avg / u512(pow10(18)) / u512(1_000_000);
        let v = match r {
            Ok(v) if v.len() == 1 && v[0].0 == self.p.a[ask].info => Uint512::from(v[0].1),
            r => {
                ctx.violate("C29", "average", format!("consulting {amt} of token {from} gives {r:?}"));
                return;
            }
        };
        let (df, da) = (self.p.a[from].dec as u32, self.p.a[ask].dec as u32);
        let want = if self.raw() || df == da {
            plain
        } else {
            // the average is a price per whole token: an amount in smallest units has to be scaled
            u512(amt) * avg * u512(pow10(da)) / u512(pow10(df)) / u512(pow10(18)) / u512(1_000_000)
        };
        if v == plain && v != want && v.abs_diff(want) > Uint512::one() {
            ctx.violate("C29", "decimals-scale", format!(
                "the average price of a {:?} pool is per whole token, but {amt} smallest units ({df} decimals) are valued {v} of a token with {da} decimals without conversion (expected {want})", self.p.cfg.kind));
            return;
        }
        ctx.check("C29", "average", v.abs_diff(want) <= Uint512::from(1u64), || {
            format!("{amt} of token {from} at the average {avg} (18 decimals) are worth {want}, consult says {v}")
        });
    }

    fn update(&mut self, u: usize, ctx: &mut Ctx) {
        let Some(orc) = self.orc.clone() else { return };
        let now = self.p.c.now();
        let cum = self.p.cumulative();
        let r = self.p.c.execute(&format!("user{u}"), &orc, &json!({"update": {}}), &[]);
        let faulted = fault_mark(&self.p.c, ctx);
        let due = now - self.last >= DAY;
        ctx.outcome("update", r.is_ok(), &r.as_ref().err().cloned().unwrap_or_default());
        if faulted && r.is_err() {
            return;
        }
        ctx.check("C29", "period", r.is_ok() == (due && cum.is_ok()), || {
            format!("update at {now}, {} s after the last one: {:?} (cumulative prices {cum:?})", now - self.last, r.as_ref().err())
        });
        let (Ok(_), Ok(cum)) = (r, cum) else { return };
        if !due {
            return;
        }
        let dt = now - self.last;
        for i in 0..2 {
            let grown = cum[i].wrapping_sub(self.base[i]);
            self.avg[i] = u512(grown) * u512(pow10(18)) / u512(dt as u128);
            let a = f(grown) / dt as f64;
            if let (true, Some(w)) = (self.win_ok, self.win) {
                let slack = 1.0 + a * 1e-9 + 1.0 / dt as f64;
                ctx.hit("probe.window_bounded");
                ctx.check("C29", "window", a >= w[i].0 - slack && a <= w[i].1 + slack, || {
                    format!("average price {a} of direction {i} over {dt} s is outside the prices the pool had: {:?}", w[i])
                });
            }
        }
        self.base = cum;
        self.last = now;
        self.reset();
        for i in 0..2 {
            self.consult(i, 1_000_000_007 * pow10((i as u32) * 3), ctx);
        }
    }
}

impl Scenario for OrcScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "oracle";

    fn cfg(rng: &mut Rng, _: &str, thorough: bool) -> (Cfg, Sched) {
        let (mut p, mut s) = pool::draw_cfg(rng, "C06", thorough);
        if rng.pct(70) && !matches!(p.kind, Kind::Xyk | Kind::Sale) {
            let d = p.toks[0].dec;
            p.toks.iter_mut().for_each(|t| t.dec = d);
        }
        s.same_block_pct = *rng.pick(&[10, 40]);
        (Cfg { pool: p, late: *rng.pick(&[0, 0, 1, 5, 20]), flip: rng.pct(50) }, s)
    }

    fn new(cfg: &Cfg, ctx: &mut Ctx) -> Result<Self, String> {
        let p = PoolScn::new(&cfg.pool, ctx)?;
        let code = p.c.store_code(code!(
            "oracle",
            inst = astroport_oracle::contract::instantiate,
            exec = astroport_oracle::contract::execute,
            query = astroport_oracle::contract::query
        ));
        let mut s = OrcScn { seen: p.c.now(), p, late: cfg.late, flip: cfg.flip, code, orc: None, last: 0, base: vec![], avg: vec![], win: None, win_ok: true, tainted: false };
        if s.late == 0 {
            s.deploy(ctx);
        }
        Ok(s)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        match rng.weighted(&[55, 15, 15, 15]) {
            0 => Op::Pool(self.p.gen(rng)),
            1 => Op::Update { u: rng.idx(4) },
            2 => Op::Consult { from: rng.idx(2), amt: Uint128::new(*rng.pick(&[0, 1, 999, 1_000_000, 1_000_000_000_000_000_000, u128::MAX])) },
            _ => {
                // around the period, counted from the last update
                let due = (self.last + DAY).saturating_sub(self.p.c.now());
                let secs = match rng.below(6) {
                    0 => due,
                    1 => due.saturating_sub(1),
                    2 => due + 1,
                    3 => rng.log(1, DAY as u128 * 30) as u64,
                    _ => rng.log(1, DAY as u128) as u64,
                };
                Op::Wait { secs }
            }
        }
    }

    fn apply(&mut self, st: &Step<Op>, ctx: &mut Ctx) {
        match &st.op {
            Op::Pool(op) => {
                if st.dt > 0 {
                    self.p.c.advance(st.dt, st.db);
                    self.observe();
                }
                let sup = self.p.lp_sup();
                let res = self.p.res();
                self.p.apply(&Step { dt: 0, db: 0, fault: st.fault.clone(), op: op.clone() }, ctx);
                if self.p.cfg.kind == Kind::Pcl && (matches!(op, pool::Op::Provide { .. }) && sup != self.p.lp_sup() || matches!(op, pool::Op::Warm { .. })) {
                    // settled at the last trade price (known finding of C06)
                    self.win_ok = false;
                }
                if matches!(op, pool::Op::Warm { .. }) {
                    self.win_ok = false;
                }
                if self.p.last_op_settles {
                    self.tainted = false;
                } else if res != self.p.res() || matches!(op, pool::Op::Params { .. }) && !self.raw() {
                    // a donation (or new fee parameters) reprices the time since the pool last settled
                    self.tainted = true;
                    self.win_ok = false;
                }
                self.taint();
                self.seen = self.p.c.now();
                if self.late > 0 {
                    self.late -= 1;
                    if self.late == 0 {
                        self.deploy(ctx);
                    }
                }
            }
            Op::Wait { secs } => {
                let secs = st.dt + secs;
                // parameters may be ramping: look at the price on the way
                let n = if self.raw() { 1 } else { 4.min(secs.max(1)) };
                for k in 0..n {
                    self.p.c.advance(secs / n + if k == 0 { secs % n } else { 0 }, st.db);
                    self.observe();
                }
            }
            Op::Update { u } => {
                self.p.c.advance(st.dt, st.db);
                self.observe();
                self.p.c.0.borrow_mut().fault = st.fault.clone();
                self.update(*u, ctx);
                self.p.c.0.borrow_mut().fault = None;
            }
            Op::Consult { from, amt } => {
                self.p.c.advance(st.dt, st.db);
                self.observe();
                self.consult(*from, amt.u128(), ctx);
                if let Some(o) = &self.orc {
                    let r: Result<Vec<(AssetInfo, Uint256)>, String> = self.p.c.query(o, &json!({"consult": {"token": AssetInfo::native("ujunk"), "amount": "1"}}));
                    ctx.check("C29", "unknown-token", r.is_err(), || "a token outside the pair has a price".into());
                }
            }
        }
    }

    fn finish(&mut self, ctx: &mut Ctx) {
        // one period later anyone can update
        if self.orc.is_some() {
            self.p.c.advance(DAY, 10_000);
            self.observe();
            self.update(0, ctx);
        }
    }
    fn digest(&self) -> u64 {
        self.p.digest()
    }
    fn sim_time(&self) -> u64 {
        self.p.sim_time()
    }
}
