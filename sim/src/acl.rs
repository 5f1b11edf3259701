//! Who may do what (C16): two-step ownership transfer and owner-only messages of every owned contract. Each privileged
//! message is first tried on a fork of the chain by somebody entitled to it: if it works there, the same message from
//! anybody else has to fail, and rights have to follow ownership at once.

use crate::chain::*;
use crate::code;
use crate::rng::Rng;
use crate::runner::*;
use crate::world::*;
use astroport::asset::{AssetInfo, AssetInfoExt, PairInfo};
use astroport::factory::{PairConfig, PairType};
use cosmwasm_std::{to_json_binary, Coin};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

const T0: u64 = 1_700_000_000;
const P: &str = "C16";
const NU: usize = 6;
const MAX_TTL: u64 = 14 * 86_400;

pub fn person(i: usize) -> String {
    if i == 0 {
        OWNER.into()
    } else {
        format!("user{i}")
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    /// which contracts start with an owner of their own, different from the factory's
    owners: Vec<usize>,
    stable_owner: Option<usize>,
    pcl_seed: u64,
    /// time between deployment and the first message
    age: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Propose { t: usize, u: usize, to: usize, exp: u64 },
    Claim { t: usize, u: usize },
    Drop { t: usize, u: usize },
    Priv { t: usize, k: usize, u: usize, v: u64 },
    Wait { secs: u64 },
    /// anybody: create the dedicated pair again
    Recreate,
    /// anybody: stake LP tokens
    Stake { p: usize },
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Who {
    Owner,
    /// granter admins as well
    Admins,
    Controller,
    Guardian,
    TaxAdmin,
    Factory,
    Itself,
}

pub struct Target {
    pub name: &'static str,
    pub addr: String,
    owner: Option<String>,
    prop: Option<(String, u64)>,
    two_step: bool,
    kinds: usize,
}

pub struct AclScn {
    pub c: Chain,
    pub t: Vec<Target>,
    pub factory: String,
    registry: String,
    vest_cw20: String,
    cw20: String,
    pub cw20_code: u64,
    lp: Vec<String>,
    xyk_code: u64,
    admins: BTreeSet<String>,
    controller: Option<String>,
    guardian: Option<String>,
    tax_admin: String,
    /// probability bias of the next message: last changed target
    last_t: usize,
    last_v: u64,
    old: Vec<String>,
}

fn nat(d: &str) -> AssetInfo {
    AssetInfo::native(d)
}

impl AclScn {
    fn factory_owner(&self) -> String {
        self.t[0].owner.clone().unwrap()
    }
    fn owner(&self, t: usize) -> String {
        self.t[t].owner.clone().unwrap_or_else(|| self.factory_owner())
    }
    fn may(&self, t: usize, who: Who, u: &str) -> bool {
        let o = self.owner(t) == u;
        match who {
            Who::Owner => o,
            Who::Admins => o || self.admins.contains(u),
            Who::Controller => o || self.controller.as_deref() == Some(u),
            Who::Guardian => o || self.guardian.as_deref() == Some(u),
            Who::TaxAdmin => self.tax_admin == u,
            Who::Factory => self.factory == u,
            Who::Itself => self.t[t].addr == u,
        }
    }
    /// somebody entitled
    fn entitled(&self, t: usize, who: Who) -> String {
        match who {
            Who::TaxAdmin => self.tax_admin.clone(),
            Who::Factory => self.factory.clone(),
            Who::Itself => self.t[t].addr.clone(),
            _ => self.owner(t),
        }
    }

    /// privileged message k of target t: (label, entitled, message, funds, contract called)
    fn privileged(&self, t: usize, k: usize, v: u64) -> (String, Who, Value, Vec<Coin>, String) {
        let p = person((v % NU as u64) as usize);
        let p2 = person(((v / 7) % NU as u64) as usize);
        let now = self.c.now();
        let bin = |x: Value| to_json_binary(&x).unwrap();
        let mut funds = vec![];
        let mut to = self.t[t].addr.clone();
        let pc = |ty: PairType, total: u16, permissioned: bool| PairConfig {
            code_id: self.xyk_code,
            pair_type: ty,
            total_fee_bps: total,
            maker_fee_bps: 3333,
            is_disabled: false,
            is_generator_disabled: false,
            permissioned,
        };
        let share = |v: u64| match v % 3 {
            0 => json!({"enable_fee_share": {"fee_share_bps": 1 + v % 1000, "fee_share_address": p.clone()}}),
            1 => json!("disable_fee_share"),
            _ => json!({"enable_fee_share": {"fee_share_bps": 7, "fee_share_address": p2.clone()}}),
        };
        let vp = person((v / 11 % 2) as usize);
        let vest = |amt: u64| json!([{"address": vp.clone(), "schedules": [{"start_point": {"time": now, "amount": "0"}, "end_point": {"time": now + 86_400 * 40, "amount": amt.to_string()}}]}]);
        let (l, who, m): (&str, Who, Value) = match (self.t[t].name, k) {
            ("factory", 0) => ("update_config fee address", Who::Owner, json!({"update_config": {"fee_address": p}})),
            ("factory", 1) => ("update_config generator", Who::Owner, json!({"update_config": {"generator_address": self.t[3].addr, "coin_registry_address": self.registry, "whitelist_code_id": v % 9, "token_code_id": 1}})),
            ("factory", 2) => ("update_pair_config", Who::Owner, json!({"update_pair_config": {"config": pc(PairType::Xyk {}, (v % 1000) as u16, false)}})),
            ("factory", 3) => ("deregister", Who::Owner, json!({"deregister": {"asset_infos": [nat("ucoa"), nat("ucob")]}})),
            ("factory", 4) => ("update_tracker_config", Who::Owner, json!({"update_tracker_config": {"tracker_code_id": v % 50 + 1, "token_factory_addr": p}})),
            ("factory", 5) => ("create permissioned pair", Who::Owner, json!({"create_pair": {"pair_type": PairType::Custom("restricted".into()), "asset_infos": [nat("ucoa"), nat(if v % 2 == 0 { "ucoc" } else { "ucof" })]}})),
            ("factory", _) => ("deregister permissioned pair", Who::Owner, json!({"deregister": {"asset_infos": [nat("ucoa"), nat(if v % 2 == 0 { "ucoc" } else { "ucof" })]}})),
            ("registry", 0) => ("add", Who::Owner, json!({"add": {"native_coins": [[format!("udenom{}", v % 2), v % 19]]}})),
            ("registry", _) => ("remove", Who::Owner, json!({"remove": {"native_coins": [format!("udenom{}", v % 2)]}})),
            ("fee_granter", 0) => ("grant", Who::Admins, json!({"grant": {"grantee_contract": format!("grantee{}", v % 4), "amount": (v % 1000 + 1).to_string(), "bypass_amount_check": true}})),
            ("fee_granter", 1) => ("revoke", Who::Admins, json!({"revoke": {"grantee_contract": format!("grantee{}", v % 4)}})),
            ("fee_granter", 2) => ("transfer_coins", Who::Admins, json!({"transfer_coins": {"amount": (v % 100 + 1).to_string(), "receiver": if v % 2 == 0 { Value::Null } else { json!(p) }}})),
            ("fee_granter", 3) => ("add admin", Who::Owner, json!({"update_admins": {"add": [p]}})),
            ("fee_granter", _) => ("remove admin", Who::Owner, json!({"update_admins": {"remove": [p]}})),
            ("incentives", 0) => ("setup_pools", Who::Controller, json!({"setup_pools": {"pools": [[self.lp[(v % 2) as usize], (v % 100 + 1).to_string()]]}})),
            ("incentives", 1) => ("set_tokens_per_second", Who::Owner, json!({"set_tokens_per_second": {"amount": (v % 1000).to_string()}})),
            ("incentives", 2) => ("set controller", Who::Owner, json!({"update_config": {"generator_controller": p}})),
            ("incentives", 3) => ("set guardian", Who::Owner, json!({"update_config": {"guardian": p}})),
            ("incentives", 4) => ("update_config fee", Who::Owner, json!({"update_config": {"incentivization_fee_info": {"fee_receiver": p, "fee": {"denom": "uinc", "amount": (v % 9).to_string()}}, "token_transfer_gas_limit": 500_000}})),
            ("incentives", 5) => ("block", Who::Guardian, json!({"update_blocked_tokenslist": {"add": [nat("ublock")], "remove": []}})),
            ("incentives", 6) => ("unblock", Who::Guardian, json!({"update_blocked_tokenslist": {"add": [], "remove": [nat("ublock")]}})),
            ("incentives", 7) => ("remove_reward_from_pool", Who::Owner, json!({"remove_reward_from_pool": {"lp_token": self.lp[(v % 2) as usize], "reward": format!("urew{}", v / 2 % 3), "bypass_upcoming_schedules": v % 5 == 0, "receiver": p}})),
            ("incentives", 8) => ("claim_orphaned_rewards", Who::Owner, json!({"claim_orphaned_rewards": {"limit": null, "receiver": p}})),
            ("incentives", 9) => ("deactivate_pool", Who::Factory, json!({"deactivate_pool": {"lp_token": self.lp[(v % 2) as usize]}})),
            ("incentives", _) => ("update_config vesting", Who::Owner, json!({"update_config": {"vesting_contract": self.t[4].addr}})),
            ("vesting", 0) => {
                funds = vec![Coin::new((v % 50 + 1) as u128, "astro")];
                ("register_vesting_accounts", Who::Owner, json!({"register_vesting_accounts": {"vesting_accounts": vest(v % 50 + 1)}}))
            }
            ("vesting", _) => ("withdraw_from_active_schedule", Who::Owner, json!({"withdraw_from_active_schedule": {"account": vp, "recipient": p2, "withdraw_amount": "1"}})),
            ("vesting_cw20", 0) => {
                to = self.cw20.clone();
                ("register through the token", Who::Owner, json!({"send": {"contract": self.vest_cw20, "amount": (v % 50 + 1).to_string(), "msg": bin(json!({"register_vesting_accounts": {"vesting_accounts": vest(v % 50 + 1)}}))}}))
            }
            ("vesting_cw20", _) => ("withdraw_from_active_schedule", Who::Owner, json!({"withdraw_from_active_schedule": {"account": vp, "recipient": p2, "withdraw_amount": "1"}})),
            ("maker", 0) => ("update_config cooldown", Who::Owner, json!({"update_config": {"collect_cooldown": 60 + v % 100, "governance_percent": null}})),
            ("maker", 1) => ("update_config receivers", Who::Owner, json!({"update_config": {"staking_contract": p, "second_receiver_params": {"second_fee_receiver": p2, "second_receiver_cut": (v % 50 + 1).to_string()}}})),
            ("maker", 2) => ("update_config dev fund", Who::Owner, json!({"update_config": {"dev_fund_config": {"set": {"address": p, "share": "0.1", "asset_info": nat("ucoa")}}}})),
            ("maker", 3) => ("add bridge", Who::Owner, json!({"update_bridges": {"add": [[nat("ucoa"), nat("astro")]], "remove": null}})),
            ("maker", 4) => ("remove bridge", Who::Owner, json!({"update_bridges": {"add": null, "remove": [nat("ucoa")]}})),
            ("maker", 5) => ("enable_rewards", Who::Owner, json!({"enable_rewards": {"blocks": v % 9 + 1}})),
            ("maker", 6) => ("update_seize_config", Who::Owner, json!({"update_seize_config": {"receiver": p, "seizable_assets": if v % 2 == 0 { json!([]) } else { json!([nat("ucoa")]) }}})),
            ("maker", 7) => ("swap_bridge_assets", Who::Itself, json!({"swap_bridge_assets": {"assets": [], "depth": 0}})),
            ("maker", _) => ("distribute_astro", Who::Itself, json!({"distribute_astro": {}})),
            ("pair", _) => ("update_config", Who::Owner, json!({"update_config": {"params": bin(share(v))}})),
            ("pair_stable", 0) => ("change amp", Who::Owner, json!({"update_config": {"params": bin(json!({"start_changing_amp": {"next_amp": 50 + v % 100, "next_amp_time": now + 90_000}}))}})),
            ("pair_stable", 1) => ("stop changing amp", Who::Owner, json!({"update_config": {"params": bin(json!({"stop_changing_amp": {}}))}})),
            ("pair_stable", _) => ("fee share", Who::Owner, json!({"update_config": {"params": bin(share(v))}})),
            ("pair_concentrated", 0) => ("update params", Who::Owner, json!({"update_config": {"params": bin(json!({"update": {"ma_half_time": 60 + v % 500}}))}})),
            ("pair_concentrated", 1) => ("promote", Who::Owner, json!({"update_config": {"params": bin(json!({"promote": {"next_amp": "11", "next_gamma": "0.00015", "future_time": now + 90_000}}))}})),
            ("pair_concentrated", 2) => ("stop promotion", Who::Owner, json!({"update_config": {"params": bin(json!({"stop_changing_amp_gamma": {}}))}})),
            ("pair_concentrated", _) => ("fee share", Who::Owner, json!({"update_config": {"params": bin(match v % 3 { 1 => json!("disable_fee_share"), _ => share(0) })}})),
            ("sale_tax", 0) => ("tax", Who::TaxAdmin, json!({"update_config": {"params": bin(json!({"tax_configs": {"ucob": {"tax_rate": "0.01", "tax_recipient": p}}}))}})),
            ("sale_tax", _) => ("tax admin", Who::TaxAdmin, json!({"update_config": {"params": bin(json!({"tax_config_admin": p}))}})),
            ("router", _) => {
                (
                    "execute_swap_operation",
                    Who::Itself,
                    json!({"execute_swap_operation": {"operation": {"astro_swap": {"offer_asset_info": nat("ucoa"), "ask_asset_info": nat("ucoe")}}, "to": p, "max_spread": "0.5", "single": v % 2 == 0}}),
                )
            }
            x => unreachable!("{x:?}"),
        };
        (format!("{} {l}", self.t[t].name), who, m, funds, to)
    }

    fn learn(&mut self, t: usize, k: usize, v: u64) {
        let p = person((v % NU as u64) as usize);
        match (self.t[t].name, k) {
            ("fee_granter", 3) => {
                self.admins.insert(p);
            }
            ("fee_granter", 4) => {
                self.admins.remove(&p);
            }
            ("incentives", 2) => self.controller = Some(p),
            ("incentives", 3) => self.guardian = Some(p),
            ("sale_tax", 1) => self.tax_admin = p,
            _ => {}
        }
    }

    fn checks(&self, ctx: &mut Ctx) {
        for (i, t) in self.t.iter().enumerate() {
            let q = match t.name {
                "router" => continue,
                _ => json!({"config": {}}),
            };
            let r: Result<Value, String> = self.c.query(&t.addr, &q);
            let w = self.owner(i);
            if matches!(t.name, "pair" | "sale_tax") {
                continue;
            }
            let got = r.as_ref().ok().and_then(|v| v["owner"].as_str().map(String::from));
            ctx.check(P, "reported-owner", got.as_deref() == Some(w.as_str()), || format!("{}: owner {got:?} reported, {w} expected", t.name));
        }
        let ro: Result<Value, String> = self.c.query(&self.t[2].addr, &json!({"config": {}}));
        let l: BTreeSet<String> = ro.ok().and_then(|v| v["admins"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect())).unwrap_or_default();
        ctx.check(P, "reported-admins", l == self.admins, || format!("fee granter admins {l:?} reported, {:?} expected", self.admins));
    }
}

impl Scenario for AclScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "access";

    fn cfg(rng: &mut Rng, _: &str, thorough: bool) -> (Cfg, Sched) {
        let mut s = Sched::draw(rng, if thorough { 160 } else { 60 });
        s.jump_pct = *rng.pick(&[0, 5, 20]);
        (
            Cfg { owners: (0..6).map(|_| if rng.pct(50) { 0 } else { rng.idx(NU) }).collect(), stable_owner: rng.pct(40).then(|| rng.idx(NU)), pcl_seed: rng.below(3), age: if rng.pct(50) { 0 } else { rng.log(1, 60 * 86_400) as u64 } },
            s,
        )
    }

    fn new(cfg: &Cfg, ctx: &mut Ctx) -> Result<Self, String> {
        use dex::*;
        let c = Chain::new(T0, 1_000_000);
        let xyk = reg_pair(&c);
        let (stable, pcl, sale) = (reg_stable(&c), reg_pcl(&c), reg_saletax(&c));
        let custom = |s: &str| PairType::Custom(s.into());
        let mut restricted = pair_config(xyk, custom("restricted"), 30, 3333);
        restricted.permissioned = true;
        let d = deploy(
            &c,
            vec![
                pair_config(xyk, PairType::Xyk {}, 30, 3333),
                pair_config(stable, PairType::Stable {}, 5, 5000),
                pair_config(pcl, custom("concentrated"), 0, 5000),
                pair_config(sale, custom("astroport-pair-xyk-sale-tax"), 30, 3333),
                restricted,
            ],
            Some("feeaddr"),
            None,
        )?;
        let own = |i: usize| person(cfg.owners[i]);
        for x in ["ucoa", "ucob", "ucoc", "ucoe", "ucof", "astro", "uinc", "ugas", "urew0", "urew1", "urew2", "ublock"] {
            for u in 0..NU {
                c.faucet(&person(u), x, 1_000_000_000_000);
            }
            d.register_coin(x, 6)?;
        }
        let mut pairs: Vec<PairInfo> = vec![];
        let pcl_init = json!({"amp": "10", "gamma": "0.000145", "mid_fee": "0.0026", "out_fee": "0.0045", "fee_gamma": "0.00023", "repeg_profit_threshold": "0.000002", "min_price_scale_delta": "0.000146", "price_scale": "1", "ma_half_time": 600, "track_asset_balances": null});
        let sale_init = json!({"tax_configs": {"ucob": {"tax_rate": "0.02", "tax_recipient": "taxman"}}, "tax_config_admin": person(cfg.owners[5]), "track_asset_balances": false});
        for (ty, a, b, init) in [
            (PairType::Xyk {}, "ucoa", "ucob", None),
            (PairType::Xyk {}, "ucoa", "ucoe", None),
            (PairType::Stable {}, "ucob", "ucoc", Some(json!({"amp": 100, "owner": cfg.stable_owner.map(person)}))),
            (custom("concentrated"), "ucoc", "ucoe", Some(pcl_init)),
            (custom("astroport-pair-xyk-sale-tax"), "ucob", "ucoe", Some(sale_init)),
            (PairType::Xyk {}, "ucoa", "astro", None),
        ] {
            let init = init.map(|v| to_json_binary(&v).unwrap());
            pairs.push(d.create_pair("user1", ty, vec![nat(a), nat(b)], init)?);
        }
        for (i, (a, b)) in [(0, ("ucoa", "ucob")), (1, ("ucoa", "ucoe")), (5, ("ucoa", "astro"))] {
            let p = &pairs[i];
            c.execute(
                "user1",
                p.contract_addr.as_str(),
                &json!({"provide_liquidity": {"assets": [nat(a).with_balance(1_000_000_000u128), nat(b).with_balance(1_000_000_000u128)], "slippage_tolerance": null}}),
                &coins(&[(a, 1_000_000_000), (b, 1_000_000_000)]),
            )?;
        }
        let cw20 = make_token(&c, d.cw20_code, "vtok", &Tok { cw20: true, dec: 6 }, &(0..NU).map(|i| (if i == 0 { OWNER } else { ["", "user1", "user2", "user3", "user4", "user5"][i] }, 1_000_000)).collect::<Vec<_>>())?;
        let vc = reg_vesting(&c);
        let vest = c.instantiate(vc, OWNER, &json!({"owner": own(0), "vesting_token": nat("astro")}), &[], "vesting", None)?;
        let vest2 = c.instantiate(vc, OWNER, &json!({"owner": own(1), "vesting_token": cw20.info}), &[], "vesting2", None)?;
        let ic = reg_incentives(&c);
        let inc = c.instantiate(ic, OWNER, &json!({"owner": own(2), "factory": d.factory, "astro_token": nat("astro"), "vesting_contract": vest, "incentivization_fee_info": null, "guardian": null}), &[], "incentives", None)?;
        d.set_generator(&inc)?;
        let mc = c.store_code(code!("maker", inst = astroport_maker::contract::instantiate, exec = astroport_maker::contract::execute, query = astroport_maker::contract::query, reply = astroport_maker::reply::reply, migrate = astroport_maker::contract::migrate));
        let maker = c.instantiate(
            mc,
            OWNER,
            &json!({"owner": own(3), "default_bridge": null, "astro_token": nat("astro"), "factory_contract": d.factory, "staking_contract": "staking0", "governance_contract": null, "governance_percent": null, "max_spread": "0.5", "second_receiver_params": null, "collect_cooldown": 60}),
            &[],
            "maker",
            None,
        )?;
        c.faucet(&maker, "astro", 1000);
        let fc = c.store_code(code!(
            "fee_granter",
            inst = astroport_fee_granter::contract::instantiate,
            exec = astroport_fee_granter::contract::execute,
            query = astroport_fee_granter::query::query,
            reply = astroport_fee_granter::contract::reply
        ));
        let fg = c.instantiate(fc, OWNER, &json!({"owner": own(4), "admins": [], "gas_denom": "ugas"}), &[], "fg", None)?;
        c.faucet(&fg, "ugas", 1_000_000);
        let rc = c.store_code(code!(
            "router",
            inst = astroport_router::contract::instantiate,
            exec = astroport_router::contract::execute,
            query = astroport_router::contract::query,
            reply = astroport_router::contract::reply,
            migrate = astroport_router::contract::migrate
        ));
        let router = c.instantiate(rc, OWNER, &json!({"astroport_factory": d.factory}), &[], "router", None)?;
        c.faucet(&router, "ucoa", 1000);
        let lp: Vec<String> = pairs[..2].iter().map(|p| p.liquidity_token.clone()).collect();
        // rewards nobody earns: orphaned sooner or later
        for (i, l) in lp.iter().enumerate() {
            for r in 0..3 {
                if (i + r + cfg.pcl_seed as usize) % 3 == 0 {
                    continue;
                }
                let denom = format!("urew{r}");
                let r = c.execute("user2", &inc, &json!({"incentivize": {"lp_token": l, "schedule": {"reward": nat(&denom).with_balance(10_000_000_000u128), "duration_periods": 1}}}), &coins(&[(denom.as_str(), 10_000_000_000)]));
                r?;
            }
        }
        let tgt = |name, addr: &str, owner: Option<String>, two_step, kinds| Target { name, addr: addr.into(), owner, prop: None, two_step, kinds };
        let t = vec![
            tgt("factory", &d.factory, Some(OWNER.into()), true, 7),
            tgt("registry", &d.registry, Some(OWNER.into()), true, 2),
            tgt("fee_granter", &fg, Some(own(4)), true, 5),
            tgt("incentives", &inc, Some(own(2)), true, 11),
            tgt("vesting", &vest, Some(own(0)), true, 2),
            tgt("vesting_cw20", &vest2, Some(own(1)), true, 2),
            tgt("maker", &maker, Some(own(3)), true, 9),
            tgt("pair", pairs[0].contract_addr.as_str(), None, false, 1),
            tgt("pair_stable", pairs[2].contract_addr.as_str(), cfg.stable_owner.map(person), true, 3),
            tgt("pair_concentrated", pairs[3].contract_addr.as_str(), None, true, 4),
            tgt("sale_tax", pairs[4].contract_addr.as_str(), None, false, 2),
            tgt("router", &router, None, false, 1),
        ];
        let s = AclScn {
            t,
            factory: d.factory.clone(),
            registry: d.registry.clone(),
            vest_cw20: vest2,
            cw20: cw20.id.clone(),
            cw20_code: d.cw20_code,
            lp,
            xyk_code: xyk,
            admins: Default::default(),
            controller: None,
            guardian: None,
            tax_admin: person(cfg.owners[5]),
            last_t: 0,
            last_v: 0,
            old: vec![],
            c,
        };
        s.c.advance(cfg.age, cfg.age / 6);
        s.checks(ctx);
        Ok(s)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        let w: Vec<u64> = self.t.iter().map(|t| t.kinds as u64 + 1).collect();
        let t = if rng.pct(55) { self.last_t } else { rng.weighted(&w) };
        let own: usize = (0..NU).find(|i| person(*i) == self.owner(t)).unwrap_or(0);
        let someone = |rng: &mut Rng| if rng.pct(50) { own } else { rng.idx(NU) };
        if rng.pct(20) {
            self.last_t = rng.weighted(&w);
        }
        if rng.pct(50) {
            self.last_v = rng.below(1 << 20);
        }
        match rng.weighted(&[20, 18, 6, 45, 10, 3]) {
            0 => Op::Propose {
                t,
                u: if rng.pct(80) { own } else { rng.idx(NU) },
                to: rng.idx(NU),
                exp: match rng.below(8) {
                    0 => 0,
                    1 => MAX_TTL,
                    2 => MAX_TTL + 1,
                    3 => 1,
                    4 => rng.log(1, 1 << 40) as u64,
                    _ => rng.log(1, MAX_TTL as u128) as u64,
                },
            },
            1 => {
                let pending: Vec<usize> = (0..self.t.len()).filter(|i| self.t[*i].prop.is_some()).collect();
                let t = if rng.pct(85) && !pending.is_empty() { *rng.pick(&pending) } else { t };
                let heir = self.t[t].prop.as_ref().and_then(|p| (0..NU).find(|i| person(*i) == p.0));
                Op::Claim { t, u: heir.filter(|_| rng.pct(75)).unwrap_or_else(|| rng.idx(NU)) }
            }
            2 => Op::Drop { t, u: someone(rng) },
            3 => Op::Priv { t, k: rng.idx(self.t[t].kinds), u: someone(rng), v: self.last_v },
            4 => Op::Wait {
                secs: match (&self.t[t].prop, rng.below(4)) {
                    (Some(p), 0) => p.1.saturating_sub(self.c.now()),
                    (Some(p), 1) => (p.1 + 1).saturating_sub(self.c.now()),
                    (Some(p), 2) => p.1.saturating_sub(self.c.now() + 1),
                    _ => rng.log(1, 90 * 86_400) as u64,
                }
                .min(400 * 86_400),
            },
            _ if rng.pct(40) => Op::Recreate,
            _ => Op::Stake { p: rng.idx(2) },
        }
    }

    fn apply(&mut self, st: &Step<Op>, ctx: &mut Ctx) {
        self.c.advance(st.dt, st.db);
        let now = self.c.now();
        match st.op.clone() {
            Op::Propose { t, u, to, exp } => {
                if !self.t[t].two_step {
                    return;
                }
                let (by, heir) = (person(u), person(to));
                let valid = by == self.owner(t) && heir != by && exp <= MAX_TTL;
                self.c.0.borrow_mut().fault = st.fault.clone();
                let r = self.c.execute(&by, &self.t[t].addr, &json!({"propose_new_owner": {"owner": heir, "expires_in": exp}}), &[]);
                let f = fault_mark(&self.c, ctx);
                ctx.outcome("propose", r.is_ok(), &r.as_ref().err().cloned().unwrap_or_default());
                ctx.check(P, "propose", r.is_ok() == valid || (f && r.is_err()), || {
                    format!("{}: {by} proposes {heir} for {exp} s (owner {}): {:?}", self.t[t].name, self.owner(t), r.as_ref().err())
                });
                if r.is_ok() {
                    self.t[t].prop = Some((heir, now + exp));
                }
            }
            Op::Claim { t, u } => {
                if !self.t[t].two_step {
                    return;
                }
                let by = person(u);
                let valid = matches!(&self.t[t].prop, Some((h, ttl)) if *h == by && now <= *ttl);
                self.c.0.borrow_mut().fault = st.fault.clone();
                let r = self.c.execute(&by, &self.t[t].addr, &json!({"claim_ownership": {}}), &[]);
                let f = fault_mark(&self.c, ctx);
                ctx.outcome("claim", r.is_ok(), &r.as_ref().err().cloned().unwrap_or_default());
                ctx.check(P, "claim", r.is_ok() == valid || (f && r.is_err()), || {
                    format!("{}: {by} claims ownership at {now} (proposal {:?}): {:?}", self.t[t].name, self.t[t].prop, r.as_ref().err())
                });
                if r.is_ok() {
                    let o = self.owner(t);
                    self.old.push(o);
                    self.t[t].prop = None;
                    self.t[t].owner = Some(by);
                    ctx.hit("probe.ownership_moved");
                }
            }
            Op::Drop { t, u } => {
                if !self.t[t].two_step {
                    return;
                }
                let by = person(u);
                let valid = by == self.owner(t);
                self.c.0.borrow_mut().fault = st.fault.clone();
                let r = self.c.execute(&by, &self.t[t].addr, &json!({"drop_ownership_proposal": {}}), &[]);
                let f = fault_mark(&self.c, ctx);
                ctx.outcome("drop", r.is_ok(), &r.as_ref().err().cloned().unwrap_or_default());
                ctx.check(P, "drop", r.is_ok() == valid || (f && r.is_err()), || {
                    format!("{}: {by} drops the proposal (owner {}): {:?}", self.t[t].name, self.owner(t), r.as_ref().err())
                });
                if r.is_ok() {
                    self.t[t].prop = None;
                }
            }
            Op::Priv { t, k, u, v } => {
                let (label, who, msg, funds, to) = self.privileged(t, k, v);
                let by = person(u);
                let allowed = self.may(t, who, &by);
                let judge = self.c.fork();
                judge.0.borrow_mut().fault = None;
                let ent = self.entitled(t, who);
                let j = judge.execute(&ent, &to, &msg, &funds);
                if let Err(e) = &j {
                    ctx.check(P, "entitled-refused", !e.contains("nauthorized"), || format!("{label}: {ent} is entitled to it but got {e}"));
                }
                self.c.0.borrow_mut().fault = st.fault.clone();
                let r = self.c.execute(&by, &to, &msg, &funds);
                let f = fault_mark(&self.c, ctx);
                ctx.outcome(&format!("{} by {}", label, if allowed { "entitled" } else { "others" }), r.is_ok(), &r.as_ref().err().cloned().unwrap_or_default());
                if allowed {
                    if let Err(e) = &r {
                        ctx.check(P, "entitled-refused", f || !e.contains("nauthorized"), || format!("{label}: {by} is entitled to it but got {e}"));
                    }
                    if ent == by && !f {
                        ctx.check(P, "fork", r.is_ok() == j.is_ok(), || format!("{label}: {:?} on the fork, {:?} on the chain", j.as_ref().err(), r.as_ref().err()));
                    }
                } else {
                    ctx.check(P, "others-accepted", r.is_err(), || {
                        format!("{label}: accepted from {by} although only {ent} (owner {}, proposal {:?}) may do it", self.owner(t), self.t[t].prop)
                    });
                    if r.is_err() && j.is_ok() {
                        ctx.hit("probe.refused_what_entitled_may");
                        if self.old.contains(&by) {
                            ctx.hit("probe.refused_former_owner");
                        }
                        if matches!(&self.t[t].prop, Some((h, _)) if *h == by) {
                            ctx.hit("probe.refused_proposed_owner");
                        }
                    }
                }
                if r.is_ok() && allowed {
                    self.learn(t, k, v);
                }
            }
            Op::Stake { p } => {
                let r = self.c.execute("user1", &self.t[3].addr, &json!({"deposit": {}}), &coins(&[(self.lp[p].as_str(), 10)]));
                ctx.outcome("stake", r.is_ok(), &r.err().unwrap_or_default());
            }
            Op::Wait { secs } => self.c.advance(secs, secs / 6 + 1),
            Op::Recreate => {
                let r = self.c.execute("user1", &self.factory, &json!({"create_pair": {"pair_type": PairType::Xyk {}, "asset_infos": [nat("ucoa"), nat("ucob")]}}), &[]);
                ctx.outcome("recreate", r.is_ok(), &r.err().unwrap_or_default());
            }
        }
        self.c.0.borrow_mut().fault = None;
        self.checks(ctx);
    }

    fn digest(&self) -> u64 {
        self.c.digest()
    }
    fn sim_time(&self) -> u64 {
        self.c.now()
    }
}
