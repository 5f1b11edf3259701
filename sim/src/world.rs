//! Deployments shared by the scenarios: registering the real contract code and instantiating it.
#![allow(dead_code)]

use crate::chain::*;
use crate::code;
use astroport::asset::{Asset, AssetInfo, PairInfo};
use cosmwasm_std::{Addr, Coin, Decimal, Uint128, Uint256, Uint512};
use cw20::Cw20Coin;
use serde::{Deserialize, Serialize};

pub const OWNER: &str = "owner";
pub const EPOCHS_START: u64 = 1_696_809_600;
pub const EPOCH: u64 = 604_800;

pub fn t_reg_cw20(c: &Chain) -> u64 {
    c.store_code(code!(
        "cw20",
        inst = cw20_base::contract::instantiate,
        exec = cw20_base::contract::execute,
        query = cw20_base::contract::query
    ))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tok {
    pub cw20: bool,
    pub dec: u8,
}

/// A token of the simulated world: a bank denom or a cw20 contract.
#[derive(Clone, Debug)]
pub struct Asst {
    pub info: AssetInfo,
    pub id: String,
    pub dec: u8,
    pub native: bool,
}

impl Asst {
    pub fn bal(&self, c: &Chain, who: &str) -> u128 {
        if self.native {
            c.bal(who, &self.id)
        } else {
            cw20_bal(c, &self.id, who)
        }
    }
    pub fn supply(&self, c: &Chain) -> u128 {
        if self.native {
            c.supply(&self.id)
        } else {
            cw20_supply(c, &self.id)
        }
    }
    pub fn with(&self, amt: u128) -> Asset {
        Asset {
            info: self.info.clone(),
            amount: Uint128::new(amt),
        }
    }
    pub fn transfer(&self, c: &Chain, from: &str, to: &str, amt: u128) -> TxResult {
        if self.native {
            c.send(from, to, &[Coin::new(amt, &self.id)])
        } else {
            c.execute(
                from,
                &self.id,
                &cw20::Cw20ExecuteMsg::Transfer {
                    recipient: to.into(),
                    amount: Uint128::new(amt),
                },
                &[],
            )
        }
    }
}

/// Creates a token held in the given amounts by the given accounts.
pub fn make_token(
    c: &Chain,
    cw20_code: u64,
    denom: &str,
    t: &Tok,
    holders: &[(&str, u128)],
) -> Result<Asst, String> {
    if t.cw20 {
        let addr = c.instantiate(
            cw20_code,
            OWNER,
            &cw20_base::msg::InstantiateMsg {
                name: "token".into(),
                symbol: "TOKEN".into(),
                decimals: t.dec,
                initial_balances: holders
                    .iter()
                    .map(|(a, v)| Cw20Coin {
                        address: a.to_string(),
                        amount: Uint128::new(*v),
                    })
                    .collect(),
                mint: None,
                marketing: None,
            },
            &[],
            "token",
            None,
        )?;
        Ok(Asst {
            info: AssetInfo::Token {
                contract_addr: Addr::unchecked(&addr),
            },
            id: addr,
            dec: t.dec,
            native: false,
        })
    } else {
        for (a, v) in holders {
            c.faucet(a, denom, *v);
        }
        Ok(Asst {
            info: AssetInfo::NativeToken {
                denom: denom.into(),
            },
            id: denom.into(),
            dec: t.dec,
            native: true,
        })
    }
}

pub fn approve(c: &Chain, a: &Asst, who: &str, spender: &str, amt: u128) -> TxResult {
    c.execute(
        who,
        &a.id,
        &cw20::Cw20ExecuteMsg::IncreaseAllowance {
            spender: spender.into(),
            amount: Uint128::new(amt),
            expires: None,
        },
        &[],
    )
}

#[cfg(any(feature = "dex", feature = "inc", feature = "tok", feature = "per"))]
pub mod dex {
    use super::*;
    use astroport::factory::*;

    pub struct Dex {
        pub c: Chain,
        pub factory: String,
        pub registry: String,
        pub cw20_code: u64,
    }

    pub fn reg_factory(c: &Chain) -> u64 {
        c.store_code(code!(
            "factory",
            inst = astroport_factory::contract::instantiate,
            exec = astroport_factory::contract::execute,
            query = astroport_factory::contract::query,
            reply = astroport_factory::contract::reply,
            migrate = astroport_factory::contract::migrate
        ))
    }
    pub fn reg_registry(c: &Chain) -> u64 {
        c.store_code(code!(
            "native_coin_registry",
            inst = astroport_native_coin_registry::contract::instantiate,
            exec = astroport_native_coin_registry::contract::execute,
            query = astroport_native_coin_registry::contract::query,
            migrate = astroport_native_coin_registry::contract::migrate
        ))
    }
    #[cfg(any(feature = "dex", feature = "inc", feature = "per"))]
    pub fn reg_pair(c: &Chain) -> u64 {
        c.store_code(code!(
            "pair",
            inst = astroport_pair::contract::instantiate,
            exec = astroport_pair::contract::execute,
            query = astroport_pair::contract::query,
            reply = astroport_pair::contract::reply
        ))
    }
    #[cfg(any(feature = "dex", feature = "inc", feature = "per"))]
    pub fn reg_stable(c: &Chain) -> u64 {
        c.store_code(code!(
            "pair_stable",
            inst = astroport_pair_stable::contract::instantiate,
            exec = astroport_pair_stable::contract::execute,
            query = astroport_pair_stable::contract::query,
            reply = astroport_pair_stable::contract::reply
        ))
    }
    #[cfg(any(feature = "dex", feature = "per"))]
    pub fn reg_pcl(c: &Chain) -> u64 {
        c.store_code(code!(
            "pair_concentrated",
            inst = astroport_pair_concentrated::contract::instantiate,
            exec = astroport_pair_concentrated::contract::execute,
            query = astroport_pair_concentrated::queries::query,
            reply = astroport_pair_concentrated::contract::reply,
            migrate = astroport_pair_concentrated::contract::migrate
        ))
    }
    #[cfg(feature = "dex")]
    pub fn reg_transmuter(c: &Chain) -> u64 {
        c.store_code(code!(
            "pair_transmuter",
            inst = astroport_pair_transmuter::contract::instantiate,
            exec = astroport_pair_transmuter::contract::execute,
            query = astroport_pair_transmuter::queries::query,
            reply = astroport_pair_transmuter::contract::reply
        ))
    }
    #[cfg(any(feature = "dex", feature = "per"))]
    pub fn reg_saletax(c: &Chain) -> u64 {
        c.store_code(code!(
            "pair_xyk_sale_tax",
            inst = astroport_pair_xyk_sale_tax::contract::instantiate,
            exec = astroport_pair_xyk_sale_tax::contract::execute,
            query = astroport_pair_xyk_sale_tax::contract::query,
            reply = astroport_pair_xyk_sale_tax::contract::reply,
            migrate = astroport_pair_xyk_sale_tax::contract::migrate
        ))
    }
    #[cfg(any(feature = "dex", feature = "tok"))]
    pub fn reg_tracker(c: &Chain) -> u64 {
        c.store_code(code!(
            "tokenfactory_tracker",
            inst = astroport_tokenfactory_tracker::contract::instantiate,
            exec = no_exec,
            query = astroport_tokenfactory_tracker::query::query,
            sudo = astroport_tokenfactory_tracker::contract::sudo
        ))
    }
    #[cfg(any(feature = "dex", feature = "inc", feature = "per"))]
    pub fn reg_incentives(c: &Chain) -> u64 {
        c.store_code(code!(
            "incentives",
            inst = astroport_incentives::instantiate::instantiate,
            exec = astroport_incentives::execute::execute,
            query = astroport_incentives::query::query,
            reply = astroport_incentives::reply::reply,
            migrate = astroport_incentives::migrate::migrate
        ))
    }
    #[cfg(any(feature = "dex", feature = "inc", feature = "per"))]
    pub fn reg_vesting(c: &Chain) -> u64 {
        c.store_code(code!(
            "vesting",
            inst = astroport_vesting::contract::instantiate,
            exec = astroport_vesting::contract::execute,
            query = astroport_vesting::contract::query
        ))
    }

    pub fn no_exec(
        _: cosmwasm_std::DepsMut,
        _: cosmwasm_std::Env,
        _: cosmwasm_std::MessageInfo,
        _: cosmwasm_std::Empty,
    ) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
        Err(cosmwasm_std::StdError::generic_err("no execute entry point"))
    }

    pub fn pair_config(code_id: u64, pair_type: PairType, total: u16, maker: u16) -> PairConfig {
        PairConfig {
            code_id,
            pair_type,
            total_fee_bps: total,
            maker_fee_bps: maker,
            is_disabled: false,
            is_generator_disabled: false,
            permissioned: false,
        }
    }

    pub fn deploy(
        c: &Chain,
        pair_configs: Vec<PairConfig>,
        fee_address: Option<&str>,
        tracker: Option<TrackerConfig>,
    ) -> Result<Dex, String> {
        let cw20_code = t_reg_cw20(c);
        let reg = reg_registry(c);
        let fac = reg_factory(c);
        let registry = c.instantiate(
            reg,
            OWNER,
            &astroport::native_coin_registry::InstantiateMsg {
                owner: OWNER.into(),
            },
            &[],
            "registry",
            None,
        )?;
        let factory = c.instantiate(
            fac,
            OWNER,
            &InstantiateMsg {
                pair_configs,
                token_code_id: cw20_code,
                fee_address: fee_address.map(|s| s.into()),
                generator_address: None,
                owner: OWNER.into(),
                whitelist_code_id: 1,
                coin_registry_address: registry.clone(),
                tracker_config: tracker,
            },
            &[],
            "factory",
            None,
        )?;
        Ok(Dex {
            c: c.clone(),
            factory,
            registry,
            cw20_code,
        })
    }

    impl Dex {
        pub fn register_coin(&self, denom: &str, dec: u8) -> TxResult {
            self.c.execute(
                OWNER,
                &self.registry,
                &astroport::native_coin_registry::ExecuteMsg::Add {
                    native_coins: vec![(denom.into(), dec)],
                },
                &[],
            )
        }
        pub fn create_pair(
            &self,
            sender: &str,
            t: PairType,
            infos: Vec<AssetInfo>,
            init: Option<cosmwasm_std::Binary>,
        ) -> Result<PairInfo, String> {
            self.c.execute(
                sender,
                &self.factory,
                &ExecuteMsg::CreatePair {
                    pair_type: t,
                    asset_infos: infos.clone(),
                    init_params: init,
                },
                &[],
            )?;
            self.c
                .query(&self.factory, &QueryMsg::Pair { asset_infos: infos })
        }
        pub fn set_generator(&self, g: &str) -> TxResult {
            self.c.execute(
                OWNER,
                &self.factory,
                &ExecuteMsg::UpdateConfig {
                    token_code_id: None,
                    fee_address: None,
                    generator_address: Some(g.into()),
                    whitelist_code_id: None,
                    coin_registry_address: None,
                },
                &[],
            )
        }
    }
}

// ------------------------------------------------------------------------------------------------ arithmetic

pub fn u256(x: u128) -> Uint256 {
    Uint256::from(x)
}
pub fn u512(x: u128) -> Uint512 {
    Uint512::from(x)
}
pub fn pow10(n: u32) -> u128 {
    10u128.pow(n)
}
/// floor(a*b/c) in wide arithmetic
pub fn muldiv(a: u128, b: u128, c: u128) -> u128 {
    (u512(a) * u512(b) / u512(c))
        .try_into()
        .map(|x: Uint128| x.u128())
        .unwrap_or(u128::MAX)
}
/// atomics of a Decimal given as permille
pub fn permille(p: u64) -> Decimal {
    Decimal::permille(p)
}
pub fn f(x: u128) -> f64 {
    x as f64
}
/// Decimal text to f64
pub fn df(x: impl std::fmt::Display) -> f64 {
    x.to_string().parse().unwrap_or(f64::NAN)
}

pub fn attr<'a>(o: &'a TxOk, contract: &str, key: &str) -> Option<&'a str> {
    o.attrs
        .iter()
        .find(|(c, k, _)| c == contract && k == key)
        .map(|(_, _, v)| v.as_str())
}
pub fn attr_u(o: &TxOk, contract: &str, key: &str) -> u128 {
    attr(o, contract, key)
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}
