//! In-place upgrades (C28): contracts with a history (the traffic of the access-control scenario plus staking, the price
//! oracle, the xASTRO token and a pair running the real release 1.3.3) are put back into the stored layout of an earlier
//! release and migrated to the current code.

use crate::acl::{self, person, AclScn};
use crate::chain::*;
use crate::code;
use crate::rng::Rng;
use crate::runner::*;
use crate::world::*;
use astroport::asset::{AssetInfo, AssetInfoExt};
use cosmwasm_std::to_json_binary;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const P: &str = "C28";
const TF_MODULE: &str = "tfmodule";
type Dump = BTreeMap<Vec<u8>, Value>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    acl: acl::Cfg,
    /// the pair of the earlier release tracks balances
    track: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Acl(acl::Op),
    Use { k: usize, u: usize, v: u64 },
    Up { t: usize, rel: usize, v: u64 },
}

struct Rel {
    name: &'static str,
    cw2: &'static str,
    ok: &'static [&'static str],
    addr: String,
    code: u64,
    /// cw2 record of a fresh instance
    fresh: Value,
    plain: bool,
}

pub struct UpgScn {
    a: AclScn,
    rel: Vec<Rel>,
    xastro: String,
    staking: String,
    xdenom: String,
    oracle: String,
    old_pair: String,
    old_lp: String,
    upgraded: bool,
    last: usize,
}

fn nat(d: &str) -> AssetInfo {
    AssetInfo::native(d)
}
fn val(b: &[u8]) -> Value {
    serde_json::from_slice(b).unwrap_or_else(|_| Value::String(format!("{b:?}")))
}
/// storage key of an entry of a map
fn entry(ns: &str, key: &str) -> Vec<u8> {
    let mut k = (ns.len() as u16).to_be_bytes().to_vec();
    k.extend(ns.as_bytes());
    k.extend(key.as_bytes());
    k
}

impl UpgScn {
    fn dump(&self, addr: &str) -> Dump {
        self.a.c.0.borrow().store.get(addr).map(|m| m.iter().map(|(k, v)| (k.clone(), val(v))).collect()).unwrap_or_default()
    }
    fn get(&self, addr: &str, key: &str) -> Value {
        self.a.c.raw_store_get(addr, key.as_bytes()).map_or(Value::Null, |b| val(&b))
    }
    fn set(&self, addr: &str, key: &[u8], v: &Value) {
        self.a.c.raw_store_set(addr, key, serde_json::to_string(v).unwrap().as_bytes());
    }
    fn del(&self, addr: &str, key: &[u8]) {
        if let Some(m) = self.a.c.0.borrow_mut().store.get_mut(addr) {
            m.remove(key);
        }
    }

    /// Rewrites the stored records of `r` the way its release `ver` kept them. Returns the migration message and what
    /// has to be stored afterwards (None: the message is not acceptable).
    fn age(&self, r: &Rel, ver: &str, v: u64, ctx: &mut Ctx) -> (Value, Option<Dump>) {
        let a = r.addr.as_str();
        let mut fine = true;
        let mut msg = json!({});
        let mut want = self.dump(a);
        match r.name {
            "factory" => {
                let old = matches!(ver, "1.3.1" | "1.5.1" | "1.6.0");
                let tracker = (!ver.starts_with("1.8") && v % 3 > 0).then(|| json!({"code_id": v % 40 + 1, "token_factory_addr": if v % 7 == 0 { "x" } else { "tfaddr" }}));
                if old {
                    let prefix = entry("pair_configs", "");
                    let cfgs: Vec<Vec<u8>> = want.keys().filter(|k| k.starts_with(&prefix)).cloned().collect();
                    for (i, k) in cfgs.into_iter().enumerate() {
                        let mut c = want[&k].clone();
                        // every combination of the switches and fees a release could have stored
                        let w = v.rotate_right(7 * i as u32);
                        c["is_disabled"] = json!(w % 2 == 0);
                        c["is_generator_disabled"] = json!(w / 2 % 2 == 0);
                        c["total_fee_bps"] = json!(w / 4 % 10_001);
                        c["maker_fee_bps"] = json!(w / 40_007 % 10_001);
                        c["permissioned"] = json!(false);
                        want.insert(k.clone(), c.clone());
                        c.as_object_mut().unwrap().remove("permissioned");
                        // earlier releases knew the concentrated type by a name of its own
                        let own = c["pair_type"] == json!({"custom": "concentrated"}) && v % 2 == 0;
                        if own {
                            ctx.hit("probe.concentrated_renamed");
                            c["pair_type"] = json!({"concentrated": {}});
                            self.del(a, &k);
                            self.set(a, &entry("pair_configs", "concentrated"), &c);
                        } else {
                            self.set(a, &k, &c);
                        }
                    }
                }
                if v % 5 == 0 {
                    self.del(a, b"tracker_config");
                    want.remove(&b"tracker_config"[..]);
                }
                if let Some(t) = &tracker {
                    fine = t["token_factory_addr"] != "x";
                    want.insert(b"tracker_config".to_vec(), t.clone());
                }
                msg = json!({"tracker_config": tracker});
            }
            "maker" => {
                let mut c = self.get(a, "config");
                // figures a maker in service has
                for (k, w) in [("rewards_enabled", json!(v % 2 == 0)), ("pre_upgrade_blocks", json!(v % 1009)), ("last_distribution_block", json!(v % 100_003)), ("remainder_reward", json!((v % 1_000_003).to_string())), ("pre_upgrade_astro_amount", json!((v % 10_000_019).to_string())), ("governance_percent", json!((v % 101).to_string()))] {
                    c[k] = w.clone();
                    want.get_mut(&b"config"[..]).unwrap()[k] = w;
                }
                self.set(a, b"config", &c);
                let o = c.as_object_mut().unwrap();
                self.del(a, b"seize_config");
                want.insert(b"seize_config".to_vec(), json!({"receiver": "", "seizable_assets": []}));
                match ver {
                    "1.2.0" => {
                        o.remove("dev_fund_conf");
                        o.remove("collect_cooldown");
                        if o["second_receiver_cfg"].is_null() && v % 2 == 0 {
                            o.remove("second_receiver_cfg");
                        }
                        self.set(a, b"config", &c);
                        self.del(a, b"last_collect_ts");
                        let cool = *[None, Some(29), Some(30), Some(60), Some(600), Some(601), Some(77)].get((v % 7) as usize).unwrap();
                        let cut = v / 7 % 60;
                        let second = (v % 3 == 0).then(|| json!({"second_fee_receiver": "second1", "second_receiver_cut": cut.to_string()}));
                        fine = cool.is_none_or(|x| (30..=600).contains(&x)) && (second.is_none() || (1..=50).contains(&cut));
                        let w = want.get_mut(&b"config"[..]).unwrap();
                        w["dev_fund_conf"] = Value::Null;
                        w["collect_cooldown"] = json!(cool);
                        if let Some(s) = &second {
                            w["second_receiver_cfg"] = s.clone();
                        }
                        want.insert(b"last_collect_ts".to_vec(), json!(self.a.c.now()));
                        msg = json!({"second_receiver_params": second, "collect_cooldown": cool});
                    }
                    "1.4.0" | "1.5.0" => {
                        o.remove("dev_fund_conf");
                        self.set(a, b"config", &c);
                        want.get_mut(&b"config"[..]).unwrap()["dev_fund_conf"] = Value::Null;
                        msg = json!({"second_receiver_params": null, "collect_cooldown": null});
                    }
                    _ => msg = json!({"second_receiver_params": null, "collect_cooldown": null}),
                }
            }
            "oracle" => {
                let p = self.get(a, "price_last");
                self.set(
                    a,
                    b"price_last",
                    &json!({"price0_cumulative_last": p["cumulative_prices"][0][2], "price1_cumulative_last": p["cumulative_prices"][1][2], "price_0_average": p["average_prices"][0][2], "price_1_average": p["average_prices"][1][2], "block_timestamp_last": p["block_timestamp_last"]}),
                );
                let prefix = entry("precisions", "");
                for k in want.keys().filter(|k| k.starts_with(&prefix)) {
                    self.del(a, k);
                }
            }
            "tracker" => {
                let mut c = self.get(a, "c");
                let t = v % 2 == 0;
                c["t"] = json!(t);
                want.insert(b"c".to_vec(), c.clone());
                c.as_object_mut().unwrap().remove("t");
                self.set(a, b"c", &c);
                msg = json!({"track_over_seconds": t});
            }
            "old_pair" => {
                let (denom, rate) = (["ucoa", "ucob", "ucoc"][(v % 3) as usize], ["0", "0.02", "0.5", "0.500000000000000001", "0.3"][(v / 3 % 5) as usize]);
                fine = denom != "ucoc" && rate != "0.500000000000000001";
                let none = v % 11 == 0;
                let tax = if none { json!({}) } else { json!({ denom: {"tax_rate": rate, "tax_recipient": "taxman"} }) };
                fine |= none;
                let w = want.get_mut(&b"config"[..]).unwrap();
                w["tax_configs"] = tax.clone();
                w["tax_config_admin"] = json!("taxadmin");
                w["tracker_addr"] = Value::Null;
                msg = json!({"tax_configs": tax, "tax_config_admin": "taxadmin"});
            }
            _ => {}
        }
        want.insert(b"contract_info".to_vec(), r.fresh.clone());
        (msg, fine.then_some(want))
    }

    fn upgrade(&mut self, t: usize, rel: usize, v: u64, st: &Step<Op>, ctx: &mut Ctx) {
        let r = &self.rel[t];
        let bad = rel >= r.ok.len();
        let (name, ver) = if !bad {
            (r.cw2.to_string(), r.ok[rel].to_string())
        } else {
            match rel - r.ok.len() {
                0 => (r.cw2.into(), r.fresh["version"].as_str().unwrap_or("7.7.7").to_string()),
                1 => (r.cw2.into(), "0.0.1".into()),
                2 => ("astroport-something".into(), r.ok[0].into()),
                _ => (r.cw2.into(), format!("{}0", r.ok[0])),
            }
        };
        // a judge keeps the stored records before the change
        let before = self.a.c.fork();
        let (msg, want) = self.age(r, &ver, v, ctx);
        self.set(&r.addr, b"contract_info", &json!({"contract": name, "version": ver}));
        let old = self.dump(&r.addr);
        let bal = self.a.c.0.borrow().bal.get(&r.addr).cloned();
        let admin = self.a.c.0.borrow().contracts[&r.addr].admin.clone().unwrap_or_default();
        self.a.c.0.borrow_mut().fault = st.fault.clone();
        let res = self.a.c.migrate(&admin, &r.addr, r.code, &msg);
        let faulted = fault_mark(&self.a.c, ctx);
        self.a.c.0.borrow_mut().fault = None;
        ctx.outcome(&format!("upgrade {}{}", r.name, if bad { " (unsupported)" } else { "" }), res.is_ok(), &res.as_ref().err().cloned().unwrap_or_default());
        let new = self.dump(&r.addr);
        if bad {
            ctx.check(P, "unsupported-release", res.is_err(), || format!("{}: upgraded from {name} {ver}, which this release cannot read", r.name));
        } else if let Some(want) = want.as_ref() {
            ctx.check(P, "refused", res.is_ok() || faulted, || format!("{}: upgrade from {ver} with {msg} fails: {:?}", r.name, res.as_ref().err()));
            if res.is_ok() {
                ctx.hit(if r.plain { "probe.upgraded" } else { "probe.converted" });
                for (k, w) in want {
                    ctx.check(P, "record", new.get(k) == Some(w), || {
                        format!("{} from {ver}: {} should be {w} after the upgrade, it is {:?}", r.name, String::from_utf8_lossy(k), new.get(k).map(|x| x.to_string()))
                    });
                }
                for (k, w) in &new {
                    ctx.check(P, "record", want.contains_key(k), || format!("{} from {ver}: the upgrade stored {} = {w}", r.name, String::from_utf8_lossy(k)));
                }
                let now = self.a.c.0.borrow().bal.get(&r.addr).cloned();
                ctx.check(P, "balance", now == bal, || format!("{} from {ver}: the upgrade moved coins: {bal:?} to {now:?}", r.name));
            }
        } else {
            ctx.check(P, "bad-message", res.is_err(), || format!("{}: upgrade from {ver} accepted {msg}", r.name));
        }
        if res.is_err() {
            ctx.check(P, "failed-upgrade", old == new, || format!("{}: a failed upgrade from {ver} changed the stored records", r.name));
        }
        let keep = res.is_ok() && !bad;
        if r.name == "old_pair" && keep {
            self.upgraded = true;
            self.after_pair(&before, ctx);
        }
        if !keep || self.rel[t].name == "old_pair" && !self.upgraded {
            // back to the current release
            self.a.c = before;
        }
        if self.rel[t].name == "tracker" && keep || self.rel[t].name == "factory" && keep {
            ctx.hit("probe.kept");
        }
    }

    /// holders of the pair's tokens keep their share and can take it out
    fn after_pair(&self, before: &Chain, ctx: &mut Ctx) {
        let c = self.a.c.fork();
        for (k, q) in [("reserves", json!({"pool": {}})), ("share", json!({"share": {"amount": "1000"}}))] {
            let (x, y): (Result<Value, String>, Result<Value, String>) = (before.query(&self.old_pair, &q), c.query(&self.old_pair, &q));
            if k == "reserves" {
                ctx.check(P, "reserves", x.as_ref().ok().map(|x| &x["assets"]) == y.as_ref().ok().map(|x| &x["assets"]), || format!("reserves {x:?} before, {y:?} after the upgrade"));
            }
        }
        for u in ["user1", "user2"] {
            let lp = cw20_bal(before, &self.old_lp, u);
            if lp == 0 {
                continue;
            }
            let hook = json!({"send": {"contract": self.old_pair, "amount": lp.to_string(), "msg": to_json_binary(&json!({"withdraw_liquidity": {"assets": []}})).unwrap()}});
            let b = before.fork().execute(u, &self.old_lp, &hook, &[]);
            let direct = c.fork().execute(u, &self.old_pair, &json!({"withdraw_liquidity": {"assets": [], "min_assets_to_receive": null}}), &[]);
            let a = c.fork().execute(u, &self.old_lp, &hook, &[]);
            if b.is_ok() {
                ctx.hit("probe.holder");
                ctx.check(P, "cw20-lp-locked", a.is_ok() || direct.is_ok(), || {
                    format!("{u} holds {lp} cw20 LP tokens of a pair upgraded from astroport-pair 1.3.3 to the sale-tax pair; withdrawing worked before, now {:?} (through the token) and {:?} (directly)", a.err(), direct.err())
                });
            }
        }
    }

    fn use_(&mut self, k: usize, u: usize, v: u64, ctx: &mut Ctx) {
        let c = &self.a.c;
        let by = person(u);
        let amt = v % 1_000_000 + 1;
        let (label, r) = match k {
            0 => ("stake", c.execute(&by, &self.staking, &json!({"enter": {"receiver": null}}), &coins(&[("astro", amt as u128)]))),
            1 => ("unstake", c.execute(&by, &self.staking, &json!({"leave": {"receiver": null}}), &coins(&[(self.xdenom.as_str(), amt as u128)]))),
            2 => ("xastro mint", c.execute("minter", &self.xastro, &json!({"mint": {"recipient": by, "amount": amt.to_string()}}), &[])),
            3 => ("xastro transfer", c.execute(&by, &self.xastro, &json!({"transfer": {"recipient": person(v as usize % 6), "amount": (amt % 1000 + 1).to_string()}}), &[])),
            4 => ("xastro allow", c.execute(&by, &self.xastro, &json!({"increase_allowance": {"spender": person(v as usize % 6), "amount": amt.to_string(), "expires": null}}), &[])),
            5 => ("oracle update", c.execute(&by, &self.oracle, &json!({"update": {}}), &[])),
            6 => {
                let m = amt as u128 * 1000;
                let fund = coins(&[("ucoa", m), ("ucob", m)]);
                ("old provide", c.execute(&by, &self.old_pair, &json!({"provide_liquidity": {"assets": [nat("ucoa").with_balance(m), nat("ucob").with_balance(m)], "slippage_tolerance": "0.5"}}), &fund))
            }
            7 => {
                let (to, d) = if v % 2 == 0 { (&self.old_pair, "ucoa") } else { (&self.a.t[7].addr, "ucob") };
                ("swap", c.execute(&by, to, &json!({"swap": {"offer_asset": nat(d).with_balance(amt as u128), "max_spread": "0.5"}}), &coins(&[(d, amt as u128)])))
            }
            8 => {
                let x = amt as u128 * 1000;
                let fund = coins(&[("ucoc", x), ("ucoe", x)]);
                ("pcl provide", c.execute(&by, &self.a.t[9].addr, &json!({"provide_liquidity": {"assets": [nat("ucoc").with_balance(x), nat("ucoe").with_balance(x)], "slippage_tolerance": "0.5"}}), &fund))
            }
            _ => {
                let d = ["ucoc", "ucoe"][v as usize % 2];
                ("pcl swap", c.execute(&by, &self.a.t[9].addr, &json!({"swap": {"offer_asset": nat(d).with_balance(amt as u128), "max_spread": "0.5"}}), &coins(&[(d, amt as u128)])))
            }
        };
        ctx.outcome(label, r.is_ok(), &r.err().unwrap_or_default());
    }
}

impl Scenario for UpgScn {
    type Cfg = Cfg;
    type Op = Op;
    const NAME: &'static str = "upgrade";

    fn cfg(rng: &mut Rng, p: &str, thorough: bool) -> (Cfg, Sched) {
        let (acl, s) = AclScn::cfg(rng, p, thorough);
        (Cfg { acl, track: rng.pct(50) }, s)
    }

    fn new(cfg: &Cfg, ctx: &mut Ctx) -> Result<Self, String> {
        use dex::no_exec;
        let a = AclScn::new(&cfg.acl, ctx)?;
        let c = a.c.clone();
        let st_code = c.store_code(code!(
            "staking",
            inst = astroport_staking::contract::instantiate,
            exec = astroport_staking::contract::execute,
            query = astroport_staking::contract::query,
            reply = astroport_staking::contract::reply,
            migrate = astroport_staking::migrate::migrate
        ));
        let v1 = c.store_code(code!("tracker_v1", inst = tracker_v1::contract::instantiate, exec = no_exec, query = tracker_v1::query::query, sudo = tracker_v1::contract::sudo));
        let v2 = c.store_code(code!(
            "tokenfactory_tracker",
            inst = astroport_tokenfactory_tracker::contract::instantiate,
            exec = no_exec,
            query = astroport_tokenfactory_tracker::query::query,
            migrate = astroport_tokenfactory_tracker::contract::migrate,
            sudo = astroport_tokenfactory_tracker::contract::sudo
        ));
        let x_code = c.store_code(code!(
            "xastro_token",
            inst = astroport_xastro_token::contract::instantiate,
            exec = astroport_xastro_token::contract::execute,
            query = astroport_xastro_token::contract::query,
            migrate = astroport_xastro_token::contract::migrate
        ));
        let o_code = c.store_code(code!(
            "oracle",
            inst = astroport_oracle::contract::instantiate,
            exec = astroport_oracle::contract::execute,
            query = astroport_oracle::contract::query,
            migrate = astroport_oracle::contract::migrate
        ));
        let p_code = c.store_code(code!("pair_1_3_3", inst = pair_133::contract::instantiate, exec = pair_133::contract::execute, query = pair_133::contract::query, reply = pair_133::contract::reply));
        let staking = c.instantiate(st_code, OWNER, &json!({"deposit_token_denom": "astro", "tracking_admin": OWNER, "tracking_code_id": v1, "token_factory_addr": TF_MODULE}), &[], "staking", None)?;
        let xdenom = c.query::<Value>(&staking, &json!({"config": {}}))?["xastro_denom"].as_str().unwrap_or_default().to_string();
        let tracker = c.query::<Value>(&staking, &json!({"tracker_config": {}}))?["tracker_addr"].as_str().unwrap_or_default().to_string();
        let xastro = c.instantiate(x_code, "minter", &json!({"name": "Staked Astroport", "symbol": "xASTRO", "decimals": 6, "initial_balances": [{"address": "user1", "amount": "1000000"}], "mint": {"minter": "minter", "cap": null}, "marketing": null}), &[], "xastro", None)?;
        let oracle = c.instantiate(o_code, OWNER, &json!({"factory_contract": a.factory, "asset_infos": [nat("ucoa"), nat("ucob")]}), &[], "oracle", None)?;
        let old_pair = c.instantiate(p_code, OWNER, &json!({"asset_infos": [nat("ucoa"), nat("ucob")], "token_code_id": a.cw20_code, "factory_addr": a.factory, "init_params": to_json_binary(&json!({"track_asset_balances": cfg.track})).unwrap()}), &[], "pair", None)?;
        let old_lp = c.query::<Value>(&old_pair, &json!({"pair": {}}))?["liquidity_token"].as_str().unwrap_or_default().to_string();
        c.advance(100, 10);
        for (u, d) in [("user1", ("ucoa", "ucob", 5_000_000u128)), ("user2", ("ucoa", "ucob", 77_777))] {
            c.execute(u, &old_pair, &json!({"provide_liquidity": {"assets": [nat(d.0).with_balance(d.2), nat(d.1).with_balance(d.2)], "slippage_tolerance": null}}), &coins(&[(d.0, d.2), (d.1, d.2)]))?;
        }
        c.execute("user1", &a.t[9].addr, &json!({"provide_liquidity": {"assets": [nat("ucoc").with_balance(1_000_000_000u128), nat("ucoe").with_balance(1_000_000_000u128)], "slippage_tolerance": null}}), &coins(&[("ucoc", 1_000_000_000), ("ucoe", 1_000_000_000)]))?;
        let fresh_tracker = c.instantiate(v2, OWNER, &json!({"tokenfactory_module_address": TF_MODULE, "tracked_denom": "none", "track_over_seconds": false}), &[], "tracker", None)?;
        let mut s = UpgScn { a, rel: vec![], xastro, staking, xdenom, oracle, old_pair, old_lp, upgraded: false, last: 0 };
        let addr = |i: usize| s.a.t[i].addr.clone();
        let code_of = |x: &str| c.0.borrow().contracts[x].code_id;
        let mut rel = vec![];
        let mut add = |name, cw2, ok: &'static [&'static str], addr: String, like: &str, plain| {
            c.0.borrow_mut().contracts.get_mut(&addr).unwrap().admin = Some("admin0".into());
            rel.push(Rel { name, cw2, ok, code: code_of(like), fresh: s.get(like, "contract_info"), addr, plain });
        };
        add("factory", "astroport-factory", &["1.3.1", "1.5.1", "1.6.0", "1.7.0", "1.8.0", "1.8.1"], addr(0), &addr(0), false);
        add("registry", "astroport-native-coin-registry", &["1.0.1"], addr(1), &addr(1), true);
        add("incentives", "astroport-incentives", &["1.0.0", "1.0.1", "1.1.0", "1.2.0"], addr(3), &addr(3), true);
        add("maker", "astroport-maker", &["1.2.0", "1.4.0", "1.5.0", "1.6.0"], addr(6), &addr(6), false);
        add("pcl", "astroport-pair-concentrated", &["4.0.0", "4.0.1", "4.1.0"], addr(9), &addr(9), true);
        add("router", "astroport-router", &["1.1.2", "1.2.0", "1.3.0"], addr(11), &addr(11), true);
        add("xastro", "astroport-xastro-token", &["1.0.0", "1.0.1", "1.0.2"], s.xastro.clone(), &s.xastro, true);
        add("staking", "astroport-staking", &["2.0.0", "2.1.0"], s.staking.clone(), &s.staking, true);
        add("tracker", "astroport-tokenfactory-tracker", &["1.0.0"], tracker, &fresh_tracker, false);
        add("oracle", "astroport-oracle", &["1.0.0", "1.0.1", "1.0.2"], s.oracle.clone(), &s.oracle, false);
        add("old_pair", "astroport-pair", &["1.3.0", "1.3.1", "1.3.3", "1.4.0", "1.5.0", "1.5.1"], s.old_pair.clone(), &addr(10), false);
        s.rel = rel;
        for r in &s.rel {
            let cw2 = if r.name == "old_pair" { "astroport-pair-xyk-sale-tax" } else { r.cw2 };
            let ver = r.fresh["version"].as_str().unwrap_or_default();
            ctx.check(P, "release-recorded", r.fresh["contract"] == cw2 && !ver.is_empty() && !r.ok.contains(&ver), || {
                format!("a new {} records itself as {}, upgrades are accepted from {:?}", r.name, r.fresh, r.ok)
            });
        }
        Ok(s)
    }

    fn gen(&mut self, rng: &mut Rng) -> Op {
        match rng.weighted(&[35, 35, 30]) {
            0 => {
                let op = self.a.gen(rng);
                Op::Acl(op)
            }
            1 => Op::Use { k: if rng.pct(40) { self.last } else { rng.idx(10) }, u: 1 + rng.idx(3), v: rng.below(1 << 30) },
            _ => {
                let t = rng.idx(self.rel.len());
                let n = self.rel[t].ok.len();
                Op::Up { t, rel: if rng.pct(75) { rng.idx(n) } else { n + rng.idx(4) }, v: rng.below(1 << 48) }
            }
        }
    }

    fn apply(&mut self, st: &Step<Op>, ctx: &mut Ctx) {
        match st.op.clone() {
            Op::Acl(op) => self.a.apply(&Step { dt: st.dt, db: st.db, fault: st.fault.clone(), op }, ctx),
            Op::Use { k, u, v } => {
                self.a.c.advance(st.dt, st.db);
                self.last = k;
                self.a.c.0.borrow_mut().fault = st.fault.clone();
                self.use_(k, u, v, ctx);
                fault_mark(&self.a.c, ctx);
                self.a.c.0.borrow_mut().fault = None;
            }
            Op::Up { t, rel, v } => {
                self.a.c.advance(st.dt, st.db);
                if self.rel[t].name == "old_pair" && self.upgraded {
                    return;
                }
                self.upgrade(t, rel, v, st, ctx);
            }
        }
    }

    fn digest(&self) -> u64 {
        self.a.digest()
    }
    fn sim_time(&self) -> u64 {
        self.a.sim_time()
    }
}
