//! Small deployment helpers for the demonstration.
#![allow(dead_code)]
use crate::chain::*;
use crate::code;
use astroport::asset::{Asset, AssetInfo, PairInfo};
use astroport::factory::*;
use cosmwasm_std::{Addr, Binary, Coin, Uint128};

pub const OWNER: &str = "owner";

pub struct Dex {
    pub c: Chain,
    pub factory: String,
    pub registry: String,
    pub cw20: u64,
}

pub fn cfg(code_id: u64, pair_type: PairType, total: u16, maker: u16) -> PairConfig {
    PairConfig { code_id, pair_type, total_fee_bps: total, maker_fee_bps: maker, is_disabled: false, is_generator_disabled: false, permissioned: false }
}

pub fn deploy(c: &Chain, cfgs: Vec<PairConfig>, fee_address: Option<&str>) -> Dex {
    let cw20 = c.store_code(code!("cw20", inst = cw20_base::contract::instantiate, exec = cw20_base::contract::execute, query = cw20_base::contract::query));
    let reg = c.store_code(code!("registry", inst = astroport_native_coin_registry::contract::instantiate, exec = astroport_native_coin_registry::contract::execute, query = astroport_native_coin_registry::contract::query));
    let fac = c.store_code(code!("factory", inst = astroport_factory::contract::instantiate, exec = astroport_factory::contract::execute, query = astroport_factory::contract::query, reply = astroport_factory::contract::reply));
    let registry = c.instantiate(reg, OWNER, &astroport::native_coin_registry::InstantiateMsg { owner: OWNER.into() }, &[], "registry", None).unwrap();
    let factory = c
        .instantiate(
            fac,
            OWNER,
            &InstantiateMsg {
                pair_configs: cfgs,
                token_code_id: cw20,
                fee_address: fee_address.map(|s| s.into()),
                generator_address: None,
                owner: OWNER.into(),
                whitelist_code_id: 1,
                coin_registry_address: registry.clone(),
                tracker_config: None,
            },
            &[],
            "factory",
            None,
        )
        .unwrap();
    Dex { c: c.clone(), factory, registry, cw20 }
}

pub fn nat(d: &str) -> AssetInfo {
    AssetInfo::native(d)
}
pub fn with(i: &AssetInfo, a: u128) -> Asset {
    Asset { info: i.clone(), amount: Uint128::new(a) }
}
pub fn coin(d: &str, a: u128) -> Coin {
    Coin::new(a, d)
}

impl Dex {
    /// registers native coins and gives `who` a lot of each
    pub fn coins(&self, l: &[(&str, u8)], who: &[&str]) {
        for (d, dec) in l {
            self.c.execute(OWNER, &self.registry, &astroport::native_coin_registry::ExecuteMsg::Add { native_coins: vec![(d.to_string(), *dec)] }, &[]).unwrap();
            for w in who {
                self.c.faucet(w, d, 1_000_000_000 * 10u128.pow(*dec as u32));
            }
        }
    }
    pub fn pair(&self, t: PairType, infos: &[AssetInfo], init: Option<Binary>) -> PairInfo {
        self.c.execute("user0", &self.factory, &ExecuteMsg::CreatePair { pair_type: t, asset_infos: infos.to_vec(), init_params: init }, &[]).unwrap();
        self.c.query(&self.factory, &QueryMsg::Pair { asset_infos: infos.to_vec() }).unwrap()
    }
    pub fn provide(&self, who: &str, pair: &Addr, l: &[(&str, u128)]) -> TxResult {
        let mut f: Vec<Coin> = l.iter().filter(|x| x.1 > 0).map(|(d, a)| coin(d, *a)).collect();
        f.sort_by(|a, b| a.denom.cmp(&b.denom));
        let assets = l.iter().map(|(d, a)| with(&nat(d), *a)).collect();
        self.c.execute(who, pair.as_str(), &astroport::pair::ExecuteMsg::ProvideLiquidity { assets, slippage_tolerance: None, auto_stake: None, receiver: None, min_lp_to_receive: None }, &f)
    }
    pub fn swap(&self, who: &str, pair: &Addr, d: &str, a: u128, ask: Option<&str>) -> TxResult {
        self.c.execute(
            who,
            pair.as_str(),
            &astroport::pair::ExecuteMsg::Swap { offer_asset: with(&nat(d), a), ask_asset_info: ask.map(nat), belief_price: None, max_spread: Some(cosmwasm_std::Decimal::percent(50)), to: None },
            &[coin(d, a)],
        )
    }
}

/// Prints the failure and exits 1.
pub fn fail(m: impl std::fmt::Display) -> ! {
    println!("property broken: {m}");
    std::process::exit(1)
}
