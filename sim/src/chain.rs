//! Deterministic in-process CosmWasm chain: bank, wasm, tokenfactory, IBC-transfer and feegrant modules around the
//! real contract code. Every source of nondeterminism (time, height, ordering, failures, hash seeds) is owned by the
//! caller; nothing in here reads a clock, spawns a thread or draws randomness.

use cosmwasm_std::testing::MockApi;
use cosmwasm_std::{
    to_json_binary, Addr, AllBalanceResponse, BalanceResponse, BankMsg, BankQuery, Binary,
    BlockInfo, Coin, ContractInfo, ContractInfoResponse, ContractResult, CosmosMsg, Deps, DepsMut,
    Empty, Env, Event, IbcMsg, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper,
    QueryRequest, Record, Reply, ReplyOn, Response, Storage, SubMsgResponse, SubMsgResult,
    SupplyResponse, SystemError, SystemResult, Timestamp, TransactionInfo, Uint128, WasmMsg,
    WasmQuery,
};
use prost::Message;
use serde::Serialize;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const TF_MODULE: &str = "tokenfactorymodule";
pub const IBC_ESCROW: &str = "ibcescrow";
const MAX_DEPTH: u32 = 24;
const OOG: &str = "out of gas";

// ------------------------------------------------------------------------------------------------ code registry

#[derive(Clone)]
pub enum SimMsg {
    Std(CosmosMsg<Empty>),
    Custom(Value),
}

pub struct SimSub {
    pub id: u64,
    pub msg: SimMsg,
    pub gas_limit: Option<u64>,
    pub reply_on: ReplyOn,
}

pub struct SimResp {
    pub messages: Vec<SimSub>,
    pub attributes: Vec<(String, String)>,
    pub data: Option<Binary>,
}

pub fn conv<T: Serialize + Clone + std::fmt::Debug + PartialEq>(r: Response<T>) -> SimResp {
    SimResp {
        messages: r
            .messages
            .into_iter()
            .map(|s| SimSub {
                id: s.id,
                gas_limit: s.gas_limit,
                reply_on: s.reply_on,
                msg: match s.msg {
                    CosmosMsg::Bank(b) => SimMsg::Std(CosmosMsg::Bank(b)),
                    CosmosMsg::Wasm(b) => SimMsg::Std(CosmosMsg::Wasm(b)),
                    CosmosMsg::Ibc(b) => SimMsg::Std(CosmosMsg::Ibc(b)),
                    CosmosMsg::Stargate { type_url, value } => {
                        SimMsg::Std(CosmosMsg::Stargate { type_url, value })
                    }
                    CosmosMsg::Custom(c) => SimMsg::Custom(serde_json::to_value(&c).unwrap()),
                    _ => SimMsg::Custom(Value::String("unsupported message".into())),
                },
            })
            .collect(),
        attributes: r
            .attributes
            .into_iter()
            .map(|a| (a.key, a.value))
            .collect(),
        data: r.data,
    }
}

type R = Result<SimResp, String>;
pub type ExecFn = fn(DepsMut, Env, MessageInfo, &[u8]) -> R;
pub struct Code {
    pub name: &'static str,
    pub inst: ExecFn,
    pub exec: ExecFn,
    pub query: fn(Deps, Env, &[u8]) -> Result<Binary, String>,
    pub reply: Option<fn(DepsMut, Env, Reply) -> R>,
    pub migrate: Option<fn(DepsMut, Env, &[u8]) -> R>,
    pub sudo: Option<fn(DepsMut, Env, &[u8]) -> R>,
}

/// code!("name", inst = path, exec = path, query = path; reply = path, migrate = path, sudo = path)
#[macro_export]
macro_rules! code {
    ($name:expr, inst = $i:path, exec = $e:path, query = $q:path $(, reply = $r:path)? $(, migrate = $m:path)? $(, sudo = $s:path)?) => {{
        #[allow(unused_mut)]
        let mut c = $crate::chain::Code {
            name: $name,
            inst: |d, e, i, m| $i(d, e, i, cosmwasm_std::from_json(m).map_err(|e| e.to_string())?).map($crate::chain::conv).map_err(|e| e.to_string()),
            exec: |d, e, i, m| $e(d, e, i, cosmwasm_std::from_json(m).map_err(|e| e.to_string())?).map($crate::chain::conv).map_err(|e| e.to_string()),
            query: |d, e, m| $q(d, e, cosmwasm_std::from_json(m).map_err(|e| e.to_string())?).map_err(|e| e.to_string()),
            reply: None,
            migrate: None,
            sudo: None,
        };
        $( c.reply = Some(|d, e, r| $r(d, e, r).map($crate::chain::conv).map_err(|e| e.to_string())); )?
        $( c.migrate = Some(|d, e, m| $m(d, e, cosmwasm_std::from_json(m).map_err(|e| e.to_string())?).map($crate::chain::conv).map_err(|e| e.to_string())); )?
        $( c.sudo = Some(|d, e, m| $s(d, e, cosmwasm_std::from_json(m).map_err(|e| e.to_string())?).map($crate::chain::conv).map_err(|e| e.to_string())); )?
        c
    }};
}

// ------------------------------------------------------------------------------------------------ state

#[derive(Clone)]
pub struct Inst {
    pub code_id: u64,
    pub admin: Option<String>,
    pub creator: String,
    pub label: String,
}

#[derive(Clone, Debug)]
pub struct TfDenom {
    pub admin: String,
    pub hook: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PacketState {
    InFlight,
    Acked,
    TimedOut,
}

#[derive(Clone, Debug)]
pub struct Packet {
    pub sender: String,
    pub receiver: String,
    pub channel: String,
    pub denom: String,
    pub amount: u128,
    pub timeout_ns: u64,
    pub sent_ns: u64,
    pub memo: String,
    pub fee: u128,
    pub state: PacketState,
}

enum Undo {
    Store(String, Vec<u8>, Option<Vec<u8>>),
    Bal(String, String, Option<u128>),
    Supply(String, Option<u128>),
    Contract(String, Option<Inst>),
    Denom(String, Option<TfDenom>),
    Packet(usize, Option<Packet>),
    Grant((String, String), Option<Vec<u8>>),
    NextId(u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, serde::Deserialize)]
pub enum FaultKind {
    /// the n-th dispatched sub-message of the transaction fails
    Fail,
    /// the n-th dispatched sub-message of the transaction runs out of gas (catchable only under a gas limit)
    OutOfGas,
    /// the n-th dispatched sub-message executes and then its reply/continuation fails, i.e. effects are rolled back
    FailAfter,
}

#[derive(Clone, Debug, PartialEq, Serialize, serde::Deserialize)]
pub struct Fault {
    pub at: u64,
    pub kind: FaultKind,
}

#[derive(Default)]
pub struct State {
    pub time: u64,
    pub height: u64,
    pub tx_index: u32,
    pub bal: BTreeMap<String, BTreeMap<String, u128>>,
    pub supply: BTreeMap<String, u128>,
    pub contracts: BTreeMap<String, Inst>,
    pub store: BTreeMap<String, BTreeMap<Vec<u8>, Vec<u8>>>,
    pub denoms: BTreeMap<String, TfDenom>,
    pub packets: Vec<Packet>,
    pub grants: BTreeMap<(String, String), Vec<u8>>,
    pub codes: Vec<Rc<Code>>,
    next_id: u64,
    journal: Vec<Undo>,
    // fault control (not part of consensus state)
    pub fault: Option<Fault>,
    dispatches: u64,
    pub fault_fired: Option<FaultKind>,
    /// contracts whose execute entry point fails while present (persistent fault)
    pub dead_contracts: BTreeSet<String>,
    /// contracts whose execute entry point burns unlimited gas while present (persistent fault)
    pub gas_bombs: BTreeSet<String>,
    /// denoms whose sends fail while present (persistent fault)
    pub frozen_denoms: BTreeSet<String>,
    /// addresses that cannot receive coins (persistent fault)
    pub blocked_addrs: BTreeSet<String>,
    pub neutron_min_fee: u128,
    pub caught_panics: u64,
    pub calls: u64,
    /// optional log of bank movements of the current tx: (from, to, denom, amount); "" = mint/burn
    pub moves: Vec<(String, String, String, u128)>,
}

impl State {
    fn set_bal(&mut self, a: &str, d: &str, v: u128) {
        let m = self.bal.entry(a.to_string()).or_default();
        let old = if v == 0 {
            m.remove(d)
        } else {
            m.insert(d.to_string(), v)
        };
        self.journal.push(Undo::Bal(a.into(), d.into(), old));
    }
    pub fn balance(&self, a: &str, d: &str) -> u128 {
        self.bal.get(a).and_then(|m| m.get(d)).copied().unwrap_or(0)
    }
    fn set_supply(&mut self, d: &str, v: u128) {
        let old = self.supply.insert(d.into(), v);
        self.journal.push(Undo::Supply(d.into(), old));
    }
    pub fn total(&self, d: &str) -> u128 {
        self.supply.get(d).copied().unwrap_or(0)
    }
    fn rollback(&mut self, mark: usize) {
        while self.journal.len() > mark {
            match self.journal.pop().unwrap() {
                Undo::Store(a, k, old) => {
                    let s = self.store.entry(a).or_default();
                    match old {
                        Some(v) => s.insert(k, v),
                        None => s.remove(&k),
                    };
                }
                Undo::Bal(a, d, old) => {
                    let m = self.bal.entry(a).or_default();
                    match old {
                        Some(v) => m.insert(d, v),
                        None => m.remove(&d),
                    };
                }
                Undo::Supply(d, old) => {
                    match old {
                        Some(v) => self.supply.insert(d, v),
                        None => self.supply.remove(&d),
                    };
                }
                Undo::Contract(a, old) => {
                    match old {
                        Some(v) => self.contracts.insert(a, v),
                        None => self.contracts.remove(&a),
                    };
                }
                Undo::Denom(d, old) => {
                    match old {
                        Some(v) => self.denoms.insert(d, v),
                        None => self.denoms.remove(&d),
                    };
                }
                Undo::Packet(i, old) => match old {
                    Some(p) => self.packets[i] = p,
                    None => self.packets.truncate(i),
                },
                Undo::Grant(k, old) => {
                    match old {
                        Some(v) => self.grants.insert(k, v),
                        None => self.grants.remove(&k),
                    };
                }
                Undo::NextId(n) => self.next_id = n,
            }
        }
    }
}

/// Addresses as on a real chain: a denomination ("uxyz", "factory/.../share", "ibc/...") is not one.
struct SimApi(MockApi);
impl cosmwasm_std::Api for SimApi {
    fn addr_validate(&self, human: &str) -> cosmwasm_std::StdResult<cosmwasm_std::Addr> {
        if human.contains('/') || (human.starts_with('u') && !human.starts_with("user")) {
            return Err(cosmwasm_std::StdError::generic_err(format!("invalid address {human}")));
        }
        self.0.addr_validate(human)
    }
    fn addr_canonicalize(&self, human: &str) -> cosmwasm_std::StdResult<cosmwasm_std::CanonicalAddr> {
        self.0.addr_canonicalize(human)
    }
    fn addr_humanize(&self, c: &cosmwasm_std::CanonicalAddr) -> cosmwasm_std::StdResult<cosmwasm_std::Addr> {
        self.0.addr_humanize(c)
    }
    fn secp256k1_verify(&self, a: &[u8], b: &[u8], c: &[u8]) -> Result<bool, cosmwasm_std::VerificationError> {
        self.0.secp256k1_verify(a, b, c)
    }
    fn secp256k1_recover_pubkey(&self, a: &[u8], b: &[u8], c: u8) -> Result<Vec<u8>, cosmwasm_std::RecoverPubkeyError> {
        self.0.secp256k1_recover_pubkey(a, b, c)
    }
    fn ed25519_verify(&self, a: &[u8], b: &[u8], c: &[u8]) -> Result<bool, cosmwasm_std::VerificationError> {
        self.0.ed25519_verify(a, b, c)
    }
    fn ed25519_batch_verify(&self, a: &[&[u8]], b: &[&[u8]], c: &[&[u8]]) -> Result<bool, cosmwasm_std::VerificationError> {
        self.0.ed25519_batch_verify(a, b, c)
    }
    fn debug(&self, m: &str) {
        self.0.debug(m)
    }
}

#[derive(Clone)]
pub struct Chain(pub Rc<RefCell<State>>);

struct Store {
    st: Rc<RefCell<State>>,
    addr: String,
    ro: bool,
}

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.st.borrow().store.get(&self.addr)?.get(key).cloned()
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        assert!(!self.ro, "write in a read-only call");
        assert!(!value.is_empty(), "empty value");
        let mut s = self.st.borrow_mut();
        let old = s
            .store
            .entry(self.addr.clone())
            .or_default()
            .insert(key.to_vec(), value.to_vec());
        s.journal
            .push(Undo::Store(self.addr.clone(), key.to_vec(), old));
    }
    fn remove(&mut self, key: &[u8]) {
        assert!(!self.ro, "write in a read-only call");
        let mut s = self.st.borrow_mut();
        let old = s.store.entry(self.addr.clone()).or_default().remove(key);
        s.journal
            .push(Undo::Store(self.addr.clone(), key.to_vec(), old));
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let mut lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let mut hi = end.map_or(Bound::Unbounded, |s| Bound::Excluded(s.to_vec()));
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        Box::new(std::iter::from_fn(move || {
            let s = self.st.borrow();
            if let (Bound::Included(a) | Bound::Excluded(a), Bound::Excluded(b)) = (&lo, &hi) {
                if a >= b {
                    return None;
                }
            }
            let m = s.store.get(&self.addr)?;
            let mut r = m.range::<Vec<u8>, _>((lo.clone(), hi.clone()));
            let item = match order {
                Order::Ascending => r.next(),
                Order::Descending => r.next_back(),
            }?;
            let item = (item.0.clone(), item.1.clone());
            match order {
                Order::Ascending => lo = Bound::Excluded(item.0.clone()),
                Order::Descending => hi = Bound::Excluded(item.0.clone()),
            }
            Some(item)
        }))
    }
}

struct Q(Chain);

impl Querier for Q {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Value> = match cosmwasm_std::from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        let ok = |b: Binary| SystemResult::Ok(ContractResult::Ok(b));
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = self.0.bal(&address, &denom);
                ok(to_json_binary(&BalanceResponse {
                    amount: Coin::new(amount, denom),
                })
                .unwrap())
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let s = self.0 .0.borrow();
                let amount = s
                    .bal
                    .get(&address)
                    .map(|m| m.iter().map(|(d, a)| Coin::new(*a, d)).collect())
                    .unwrap_or_default();
                ok(to_json_binary(&AllBalanceResponse { amount }).unwrap())
            }
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                let mut r = SupplyResponse::default();
                r.amount = Coin::new(self.0 .0.borrow().total(&denom), denom);
                ok(to_json_binary(&r).unwrap())
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                match self.0.query_raw(&contract_addr, &msg) {
                    Ok(b) => ok(b),
                    Err(QErr::NoSuch) => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                    Err(QErr::Contract(e)) => SystemResult::Ok(ContractResult::Err(e)),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                let s = self.0 .0.borrow();
                if !s.contracts.contains_key(&contract_addr) {
                    return SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    });
                }
                let v = s
                    .store
                    .get(&contract_addr)
                    .and_then(|m| m.get(key.as_slice()))
                    .cloned()
                    .unwrap_or_default();
                ok(v.into())
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                let s = self.0 .0.borrow();
                match s.contracts.get(&contract_addr) {
                    Some(i) => {
                        let mut r = ContractInfoResponse::default();
                        r.code_id = i.code_id;
                        r.creator = i.creator.clone();
                        r.admin = i.admin.clone();
                        ok(to_json_binary(&r).unwrap())
                    }
                    None => SystemResult::Err(SystemError::NoSuchContract {
                        addr: contract_addr,
                    }),
                }
            }
            QueryRequest::Custom(v) if v.get("min_ibc_fee").is_some() => {
                let f = self.0 .0.borrow().neutron_min_fee;
                let half = |x: u128| {
                    if x == 0 {
                        serde_json::json!([])
                    } else {
                        serde_json::json!([{"denom":"untrn","amount":x.to_string()}])
                    }
                };
                let v = serde_json::json!({"min_fee":{"recv_fee":[],"ack_fee":half(f - f/2),"timeout_fee":half(f/2)}});
                ok(to_json_binary(&v).unwrap())
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest {
                kind: "query".into(),
            }),
        }
    }
}

pub enum QErr {
    NoSuch,
    Contract(String),
}

#[derive(Debug, Clone, Default)]
pub struct TxOk {
    pub data: Option<Binary>,
    /// (contract, key, value) of every wasm attribute emitted, in order
    pub attrs: Vec<(String, String, String)>,
}

pub type TxResult = Result<TxOk, String>;

#[derive(Clone, PartialEq, ::prost::Message)]
struct PInst {
    #[prost(string, tag = "1")]
    address: String,
    #[prost(bytes, tag = "2")]
    data: Vec<u8>,
}
#[derive(Clone, PartialEq, ::prost::Message)]
struct PExec {
    #[prost(bytes, tag = "1")]
    data: Vec<u8>,
}
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct PCoin {
    #[prost(string, tag = "1")]
    pub denom: String,
    #[prost(string, tag = "2")]
    pub amount: String,
}
#[derive(Clone, PartialEq, ::prost::Message)]
struct PTfAmt {
    #[prost(string, tag = "1")]
    sender: String,
    #[prost(message, optional, tag = "2")]
    amount: Option<PCoin>,
    #[prost(string, tag = "3")]
    target: String,
}
#[derive(Clone, PartialEq, ::prost::Message)]
struct PTfStr {
    #[prost(string, tag = "1")]
    sender: String,
    #[prost(string, tag = "2")]
    a: String,
    #[prost(string, tag = "3")]
    b: String,
}
#[derive(Clone, PartialEq, ::prost::Message)]
struct PStr1 {
    #[prost(string, tag = "1")]
    a: String,
}
#[derive(Clone, PartialEq, ::prost::Message)]
struct PAny {
    #[prost(string, tag = "1")]
    type_url: String,
    #[prost(bytes, tag = "2")]
    value: Vec<u8>,
}
#[derive(Clone, PartialEq, ::prost::Message)]
struct PGrant {
    #[prost(string, tag = "1")]
    granter: String,
    #[prost(string, tag = "2")]
    grantee: String,
    #[prost(message, optional, tag = "3")]
    allowance: Option<PAny>,
}
#[derive(Clone, PartialEq, ::prost::Message)]
pub struct PBasicAllowance {
    #[prost(message, repeated, tag = "1")]
    pub spend_limit: Vec<PCoin>,
    #[prost(bytes, tag = "2")]
    pub expiration: Vec<u8>,
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    format!("panic: {}", crate::runner::panic_text(&*e))
}

pub fn normalize_coins(funds: &[Coin]) -> Vec<Coin> {
    let mut m: BTreeMap<String, u128> = BTreeMap::new();
    for c in funds {
        *m.entry(c.denom.clone()).or_default() += c.amount.u128();
    }
    m.into_iter()
        .filter(|(_, a)| *a > 0)
        .map(|(d, a)| Coin::new(a, d))
        .collect()
}

impl Chain {
    pub fn new(time_s: u64, height: u64) -> Self {
        Chain(Rc::new(RefCell::new(State {
            time: time_s * 1_000_000_000,
            height,
            next_id: 1,
            ..Default::default()
        })))
    }

    /// An independent copy of the whole chain state, for asking what another history would do.
    pub fn fork(&self) -> Chain {
        let s = self.0.borrow();
        Chain(Rc::new(RefCell::new(State {
            time: s.time,
            height: s.height,
            tx_index: s.tx_index,
            bal: s.bal.clone(),
            supply: s.supply.clone(),
            contracts: s.contracts.clone(),
            store: s.store.clone(),
            denoms: s.denoms.clone(),
            packets: s.packets.clone(),
            grants: s.grants.clone(),
            codes: s.codes.clone(),
            next_id: s.next_id,
            dead_contracts: s.dead_contracts.clone(),
            gas_bombs: s.gas_bombs.clone(),
            frozen_denoms: s.frozen_denoms.clone(),
            blocked_addrs: s.blocked_addrs.clone(),
            neutron_min_fee: s.neutron_min_fee,
            ..Default::default()
        })))
    }

    // ---- plain accessors
    pub fn now(&self) -> u64 {
        self.0.borrow().time / 1_000_000_000
    }
    pub fn height(&self) -> u64 {
        self.0.borrow().height
    }
    pub fn advance(&self, secs: u64, blocks: u64) {
        let mut s = self.0.borrow_mut();
        s.time += secs * 1_000_000_000;
        s.height += blocks;
        s.tx_index = 0;
    }
    pub fn bal(&self, a: &str, d: &str) -> u128 {
        self.0.borrow().balance(a, d)
    }
    pub fn supply(&self, d: &str) -> u128 {
        self.0.borrow().total(d)
    }
    pub fn store_code(&self, c: Code) -> u64 {
        let mut s = self.0.borrow_mut();
        s.codes.push(Rc::new(c));
        s.codes.len() as u64
    }
    /// Genesis/faucet mint, outside any contract.
    pub fn faucet(&self, a: &str, d: &str, amt: u128) {
        let mut s = self.0.borrow_mut();
        let v = s.balance(a, d) + amt;
        s.set_bal(a, d, v);
        let t = s.total(d) + amt;
        s.set_supply(d, t);
        s.journal.clear();
    }
    pub fn raw_store_get(&self, addr: &str, key: &[u8]) -> Option<Vec<u8>> {
        self.0.borrow().store.get(addr).and_then(|m| m.get(key)).cloned()
    }
    pub fn raw_store_set(&self, addr: &str, key: &[u8], val: &[u8]) {
        self.0
            .borrow_mut()
            .store
            .entry(addr.into())
            .or_default()
            .insert(key.to_vec(), val.to_vec());
    }
    /// Digest of the whole consensus state.
    pub fn digest(&self) -> u64 {
        use std::hash::Hasher;
        // fixed-key SipHash
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        let s = self.0.borrow();
        h.write_u64(s.time);
        h.write_u64(s.height);
        for (a, m) in &s.bal {
            for (d, v) in m {
                h.write(a.as_bytes());
                h.write(d.as_bytes());
                h.write_u128(*v);
            }
        }
        for (a, m) in &s.store {
            h.write(a.as_bytes());
            for (k, v) in m {
                h.write(k);
                h.write(v);
            }
        }
        h.write_usize(s.packets.len());
        h.finish()
    }
    /// Digest of everything a contract execution may change.
    pub fn state_digest_of(&self, addr: &str) -> u64 {
        use std::hash::Hasher;
        #[allow(deprecated)]
        let mut h = std::hash::SipHasher::new();
        let s = self.0.borrow();
        if let Some(m) = s.store.get(addr) {
            for (k, v) in m {
                h.write(k);
                h.write(v);
            }
        }
        h.finish()
    }

    fn env(&self, addr: &str) -> Env {
        let s = self.0.borrow();
        Env {
            block: BlockInfo {
                height: s.height,
                time: Timestamp::from_nanos(s.time),
                chain_id: "sim-1".into(),
            },
            transaction: Some(TransactionInfo { index: s.tx_index }),
            contract: ContractInfo {
                address: Addr::unchecked(addr),
            },
        }
    }

    // ---- queries
    pub fn query_raw(&self, addr: &str, msg: &[u8]) -> Result<Binary, QErr> {
        let code = match self.code_of(addr) {
            Some(c) => c,
            None => return Err(QErr::NoSuch),
        };
        let st = Store {
            st: self.0.clone(),
            addr: addr.into(),
            ro: true,
        };
        let env = self.env(addr);
        let q = Q(self.clone());
        let api = SimApi(MockApi::default());
        match catch_unwind(AssertUnwindSafe(|| {
            (code.query)(
                Deps {
                    storage: &st,
                    api: &api,
                    querier: QuerierWrapper::new(&q),
                },
                env,
                msg,
            )
        })) {
            Ok(Ok(b)) => Ok(b),
            Ok(Err(e)) => Err(QErr::Contract(e)),
            Err(p) => {
                self.0.borrow_mut().caught_panics += 1;
                Err(QErr::Contract(panic_text(p)))
            }
        }
    }
    pub fn query<T: serde::de::DeserializeOwned>(
        &self,
        addr: &str,
        msg: &impl Serialize,
    ) -> Result<T, String> {
        let m = to_json_binary(msg).map_err(|e| e.to_string())?;
        match self.query_raw(addr, &m) {
            Ok(b) => cosmwasm_std::from_json(b).map_err(|e| e.to_string()),
            Err(QErr::NoSuch) => Err(format!("no such contract {addr}")),
            Err(QErr::Contract(e)) => Err(e),
        }
    }
    fn code_of(&self, addr: &str) -> Option<Rc<Code>> {
        let s = self.0.borrow();
        let i = s.contracts.get(addr)?;
        s.codes.get(i.code_id as usize - 1).cloned()
    }

    // ---- transactions
    fn tx(&self, f: impl FnOnce(&mut TxOk) -> Result<Option<Binary>, String>) -> TxResult {
        {
            let mut s = self.0.borrow_mut();
            s.journal.clear();
            s.dispatches = 0;
            s.fault_fired = None;
            s.moves.clear();
            s.tx_index += 1;
        }
        let mut out = TxOk::default();
        let r = f(&mut out);
        let mut s = self.0.borrow_mut();
        s.fault = None;
        match r {
            Ok(d) => {
                s.journal.clear();
                out.data = d;
                Ok(out)
            }
            Err(e) => {
                s.rollback(0);
                s.moves.clear();
                Err(e)
            }
        }
    }
    pub fn instantiate(
        &self,
        code_id: u64,
        sender: &str,
        msg: &impl Serialize,
        funds: &[Coin],
        label: &str,
        admin: Option<&str>,
    ) -> Result<String, String> {
        let m = WasmMsg::Instantiate {
            admin: admin.map(|a| a.into()),
            code_id,
            msg: to_json_binary(msg).map_err(|e| e.to_string())?,
            funds: funds.to_vec(),
            label: label.into(),
        };
        let mut addr = String::new();
        self.tx(|o| {
            let d = self.wasm(sender, m, o, 0)?;
            addr = PInst::decode(d.unwrap().as_slice()).unwrap().address;
            Ok(None)
        })?;
        Ok(addr)
    }
    pub fn execute(
        &self,
        sender: &str,
        addr: &str,
        msg: &impl Serialize,
        funds: &[Coin],
    ) -> TxResult {
        let m = WasmMsg::Execute {
            contract_addr: addr.into(),
            msg: to_json_binary(msg).map_err(|e| e.to_string())?,
            funds: funds.to_vec(),
        };
        self.send_msg(sender, CosmosMsg::Wasm(m))
    }
    pub fn migrate(&self, sender: &str, addr: &str, code_id: u64, msg: &impl Serialize) -> TxResult {
        let m = WasmMsg::Migrate {
            contract_addr: addr.into(),
            new_code_id: code_id,
            msg: to_json_binary(msg).map_err(|e| e.to_string())?,
        };
        self.send_msg(sender, CosmosMsg::Wasm(m))
    }
    pub fn send(&self, from: &str, to: &str, coins: &[Coin]) -> TxResult {
        self.send_msg(
            from,
            CosmosMsg::Bank(BankMsg::Send {
                to_address: to.into(),
                amount: coins.to_vec(),
            }),
        )
    }
    pub fn send_msg(&self, sender: &str, m: CosmosMsg<Empty>) -> TxResult {
        self.tx(|o| match m {
            CosmosMsg::Wasm(WasmMsg::Execute { .. }) => {
                let d = self.dispatch(sender, SimMsg::Std(m), o, 0)?;
                Ok(d.map(|d| PExec::decode(d.as_slice()).unwrap().data.into()))
            }
            m => self.dispatch(sender, SimMsg::Std(m), o, 0),
        })
    }
    /// Several messages in one transaction: all or nothing.
    pub fn multi(&self, sender: &str, ms: Vec<CosmosMsg<Empty>>) -> TxResult {
        self.tx(|o| {
            for m in ms {
                self.dispatch(sender, SimMsg::Std(m), o, 0)?;
            }
            Ok(None)
        })
    }
    pub fn sudo(&self, addr: &str, msg: &impl Serialize) -> TxResult {
        let m = to_json_binary(msg).map_err(|e| e.to_string())?;
        self.tx(|o| self.call_sudo(addr, &m, o, 0))
    }

    fn mark(&self) -> usize {
        self.0.borrow().journal.len()
    }
    fn rollback(&self, mark: usize, moves: usize) {
        let mut s = self.0.borrow_mut();
        s.rollback(mark);
        s.moves.truncate(moves);
    }

    // ---- message routing
    fn dispatch(
        &self,
        sender: &str,
        m: SimMsg,
        o: &mut TxOk,
        depth: u32,
    ) -> Result<Option<Binary>, String> {
        if depth > MAX_DEPTH {
            return Err("max call depth".into());
        }
        match m {
            SimMsg::Std(CosmosMsg::Bank(BankMsg::Send { to_address, amount })) => {
                if to_address.is_empty() || to_address.contains('/') {
                    return Err("empty address string is not allowed".into());
                }
                let coins = normalize_coins(&amount);
                if coins.is_empty() {
                    return Err("invalid coins: empty send".into());
                }
                self.transfer(sender, &to_address, &coins, o, depth)?;
                Ok(None)
            }
            SimMsg::Std(CosmosMsg::Bank(BankMsg::Burn { amount })) => {
                for c in normalize_coins(&amount) {
                    let mut s = self.0.borrow_mut();
                    let b = s.balance(sender, &c.denom);
                    let v = b
                        .checked_sub(c.amount.u128())
                        .ok_or_else(|| format!("insufficient funds {}", c.denom))?;
                    s.set_bal(sender, &c.denom, v);
                    let t = s.total(&c.denom) - c.amount.u128();
                    s.set_supply(&c.denom, t);
                    s.moves
                        .push((sender.into(), "".into(), c.denom.clone(), c.amount.u128()));
                }
                Ok(None)
            }
            SimMsg::Std(CosmosMsg::Wasm(w)) => self.wasm(sender, w, o, depth),
            SimMsg::Std(CosmosMsg::Stargate { type_url, value }) => {
                self.stargate(sender, &type_url, value.as_slice(), o, depth)
            }
            SimMsg::Std(CosmosMsg::Ibc(IbcMsg::Transfer {
                channel_id,
                to_address,
                amount,
                timeout,
            })) => {
                let ts = timeout.timestamp().map(|t| t.nanos()).unwrap_or(u64::MAX);
                self.ibc_transfer(
                    sender,
                    &channel_id,
                    &to_address,
                    &amount.denom,
                    amount.amount.u128(),
                    ts,
                    "",
                    0,
                    o,
                    depth,
                )?;
                Ok(None)
            }
            SimMsg::Custom(v) => self.custom(sender, v, o, depth),
            _ => Err("unsupported message".into()),
        }
    }

    fn custom(
        &self,
        sender: &str,
        v: Value,
        o: &mut TxOk,
        depth: u32,
    ) -> Result<Option<Binary>, String> {
        if let Some(t) = v.get("ibc_transfer") {
            let st = |x: &Value| x.as_str().unwrap_or("").to_string();
            let amount: u128 = st(&t["token"]["amount"]).parse().unwrap_or(0);
            let denom = st(&t["token"]["denom"]);
            if st(&t["sender"]) != sender {
                return Err("ibc_transfer: wrong sender".into());
            }
            if st(&t["source_port"]) != "transfer" {
                return Err("ibc_transfer: wrong port".into());
            }
            let mut fee = 0u128;
            let mut coins = vec![];
            for k in ["recv_fee", "ack_fee", "timeout_fee"] {
                for c in t["fee"][k].as_array().cloned().unwrap_or_default() {
                    let a: u128 = st(&c["amount"]).parse().unwrap_or(0);
                    fee += a;
                    coins.push(Coin::new(a, st(&c["denom"])));
                }
            }
            let need = self.0.borrow().neutron_min_fee;
            if fee < need {
                return Err("insufficient ibc fee".into());
            }
            let coins = normalize_coins(&coins);
            if !coins.is_empty() {
                self.transfer(sender, "feerefunder", &coins, o, depth)?;
            }
            let ts = t["timeout_timestamp"].as_u64().unwrap_or(0);
            let memo = st(&t["memo"]);
            self.ibc_transfer(
                sender,
                &st(&t["source_channel"]),
                &st(&t["receiver"]),
                &denom,
                amount,
                if ts == 0 { u64::MAX } else { ts },
                &memo,
                fee,
                o,
                depth,
            )?;
            return Ok(None);
        }
        Err("unsupported custom message".into())
    }

    #[allow(clippy::too_many_arguments)]
    fn ibc_transfer(
        &self,
        sender: &str,
        channel: &str,
        receiver: &str,
        denom: &str,
        amount: u128,
        timeout_ns: u64,
        memo: &str,
        fee: u128,
        o: &mut TxOk,
        depth: u32,
    ) -> Result<(), String> {
        if amount == 0 {
            return Err("ibc: zero amount".into());
        }
        let now = self.0.borrow().time;
        if timeout_ns <= now {
            return Err("ibc: packet already timed out".into());
        }
        self.transfer(sender, IBC_ESCROW, &[Coin::new(amount, denom)], o, depth)?;
        let mut s = self.0.borrow_mut();
        let i = s.packets.len();
        s.packets.push(Packet {
            sender: sender.into(),
            receiver: receiver.into(),
            channel: channel.into(),
            denom: denom.into(),
            amount,
            timeout_ns,
            sent_ns: now,
            memo: memo.into(),
            fee,
            state: PacketState::InFlight,
        });
        s.journal.push(Undo::Packet(i, None));
        Ok(())
    }

    /// Relayer: acknowledge (coins stay escrowed on this side) or time out (coins go back to the sender).
    pub fn ibc_settle(&self, i: usize, ack: bool) -> bool {
        let p = {
            let s = self.0.borrow();
            match s.packets.get(i) {
                Some(p) if p.state == PacketState::InFlight => p.clone(),
                _ => return false,
            }
        };
        if !ack && self.0.borrow().time < p.timeout_ns {
            return false;
        }
        if ack && self.0.borrow().time >= p.timeout_ns {
            return false;
        }
        let mut s = self.0.borrow_mut();
        s.packets[i].state = if ack {
            PacketState::Acked
        } else {
            let e = s.balance(IBC_ESCROW, &p.denom) - p.amount;
            s.set_bal(IBC_ESCROW, &p.denom, e);
            let b = s.balance(&p.sender, &p.denom) + p.amount;
            s.set_bal(&p.sender, &p.denom, b);
            PacketState::TimedOut
        };
        s.journal.clear();
        true
    }

    fn transfer(
        &self,
        from: &str,
        to: &str,
        coins: &[Coin],
        o: &mut TxOk,
        depth: u32,
    ) -> Result<(), String> {
        for c in coins {
            let hook = {
                let s = self.0.borrow();
                if s.frozen_denoms.contains(&c.denom) {
                    return Err(format!("{} transfers are disabled", c.denom));
                }
                if s.blocked_addrs.contains(to) {
                    return Err(format!("{to} is not allowed to receive funds"));
                }
                if s.balance(from, &c.denom) < c.amount.u128() {
                    return Err(format!(
                        "insufficient funds: {} has {} {} needs {}",
                        from,
                        s.balance(from, &c.denom),
                        c.denom,
                        c.amount
                    ));
                }
                s.denoms.get(&c.denom).and_then(|d| d.hook.clone())
            };
            if let Some(h) = hook {
                let body = serde_json::json!({"from":from,"to":to,"amount":{"denom":c.denom,"amount":c.amount.to_string()}});
                let m = serde_json::to_vec(&serde_json::json!({"block_before_send":body})).unwrap();
                self.call_sudo(&h, &m, o, depth + 1)?;
                let m = serde_json::to_vec(&serde_json::json!({"track_before_send":body})).unwrap();
                let (mk, mv) = (self.mark(), self.0.borrow().moves.len());
                if self.call_sudo(&h, &m, o, depth + 1).is_err() {
                    self.rollback(mk, mv);
                }
            }
            let mut s = self.0.borrow_mut();
            let f = s
                .balance(from, &c.denom)
                .checked_sub(c.amount.u128())
                .ok_or("insufficient funds")?;
            s.set_bal(from, &c.denom, f);
            let t = s.balance(to, &c.denom) + c.amount.u128();
            s.set_bal(to, &c.denom, t);
            s.moves
                .push((from.into(), to.into(), c.denom.clone(), c.amount.u128()));
        }
        Ok(())
    }

    fn call_sudo(
        &self,
        addr: &str,
        m: &[u8],
        o: &mut TxOk,
        depth: u32,
    ) -> Result<Option<Binary>, String> {
        if depth > MAX_DEPTH {
            return Err("max call depth".into());
        }
        if self.0.borrow().dead_contracts.contains(addr) {
            return Err("contract call failed".into());
        }
        let code = self.code_of(addr).ok_or("no such contract")?;
        let f = code.sudo.ok_or("no sudo entry point")?;
        let r = self.guarded(addr, |d, e| f(d, e, m))?;
        self.finish(addr, r, o, depth)
    }

    fn guarded(&self, addr: &str, f: impl FnOnce(DepsMut, Env) -> R) -> R {
        self.0.borrow_mut().calls += 1;
        let mut st = Store {
            st: self.0.clone(),
            addr: addr.into(),
            ro: false,
        };
        let env = self.env(addr);
        let q = Q(self.clone());
        let api = SimApi(MockApi::default());
        match catch_unwind(AssertUnwindSafe(|| {
            f(
                DepsMut {
                    storage: &mut st,
                    api: &api,
                    querier: QuerierWrapper::new(&q),
                },
                env,
            )
        })) {
            Ok(r) => r,
            Err(p) => {
                self.0.borrow_mut().caught_panics += 1;
                Err(panic_text(p))
            }
        }
    }

    fn finish(
        &self,
        addr: &str,
        r: SimResp,
        o: &mut TxOk,
        depth: u32,
    ) -> Result<Option<Binary>, String> {
        for (k, v) in r.attributes {
            o.attrs.push((addr.into(), k, v));
        }
        let mut data = r.data;
        for sm in r.messages {
            if let Some(d) = self.submsg(addr, sm, o, depth)? {
                data = Some(d);
            }
        }
        Ok(data)
    }

    fn submsg(
        &self,
        addr: &str,
        sm: SimSub,
        o: &mut TxOk,
        depth: u32,
    ) -> Result<Option<Binary>, String> {
        let (mk, mv) = (self.mark(), self.0.borrow().moves.len());
        let na = o.attrs.len();
        let inj = {
            let mut s = self.0.borrow_mut();
            s.dispatches += 1;
            match s.fault.clone() {
                Some(f) if f.at == s.dispatches => {
                    s.fault_fired = Some(f.kind.clone());
                    Some(f.kind)
                }
                _ => None,
            }
        };
        let res = match inj {
            Some(FaultKind::Fail) => Err("injected: message failed".into()),
            Some(FaultKind::OutOfGas) => Err(format!("{OOG} (injected)")),
            Some(FaultKind::FailAfter) => self
                .dispatch(addr, sm.msg, o, depth + 1)
                .and_then(|_| Err("injected: failed after execution".into())),
            None => self.dispatch(addr, sm.msg, o, depth + 1),
        };
        let want = |on_err: bool| match sm.reply_on {
            ReplyOn::Always => true,
            ReplyOn::Error => on_err,
            ReplyOn::Success => !on_err,
            ReplyOn::Never => false,
        };
        match res {
            Ok(d) => {
                if !want(false) {
                    return Ok(None);
                }
                self.reply(
                    addr,
                    Reply {
                        id: sm.id,
                        result: SubMsgResult::Ok(SubMsgResponse {
                            events: o.attrs[na..]
                                .iter()
                                .map(|(c, k, v)| {
                                    Event::new("wasm")
                                        .add_attribute("_contract_address", c)
                                        .add_attribute(k, v)
                                })
                                .collect(),
                            data: d,
                        }),
                    },
                    o,
                    depth,
                )
            }
            Err(e) => {
                self.rollback(mk, mv);
                o.attrs.truncate(na);
                // out of gas is catchable only when this very sub-message carries its own gas limit
                if e.starts_with(OOG) && sm.gas_limit.is_none() {
                    return Err(e);
                }
                if !want(true) {
                    return Err(e);
                }
                self.reply(
                    addr,
                    Reply {
                        id: sm.id,
                        result: SubMsgResult::Err(e),
                    },
                    o,
                    depth,
                )
            }
        }
    }

    fn reply(
        &self,
        addr: &str,
        r: Reply,
        o: &mut TxOk,
        depth: u32,
    ) -> Result<Option<Binary>, String> {
        let code = self.code_of(addr).ok_or("no such contract")?;
        let f = code.reply.ok_or("no reply entry point")?;
        let resp = self.guarded(addr, |d, e| f(d, e, r))?;
        self.finish(addr, resp, o, depth)
    }

    fn wasm(
        &self,
        sender: &str,
        m: WasmMsg,
        o: &mut TxOk,
        depth: u32,
    ) -> Result<Option<Binary>, String> {
        match m {
            WasmMsg::Execute {
                contract_addr,
                msg,
                funds,
            } => {
                let code = self
                    .code_of(&contract_addr)
                    .ok_or_else(|| format!("no such contract {contract_addr}"))?;
                {
                    let s = self.0.borrow();
                    if s.gas_bombs.contains(&contract_addr) {
                        return Err(OOG.into());
                    }
                    if s.dead_contracts.contains(&contract_addr) {
                        return Err(format!("{contract_addr} is paused"));
                    }
                }
                let funds = normalize_coins(&funds);
                self.transfer(sender, &contract_addr, &funds, o, depth)?;
                let info = MessageInfo {
                    sender: Addr::unchecked(sender),
                    funds,
                };
                let r = self.guarded(&contract_addr, |d, e| (code.exec)(d, e, info, &msg))?;
                let d = self.finish(&contract_addr, r, o, depth)?;
                Ok(Some(
                    PExec {
                        data: d.map(|d| d.to_vec()).unwrap_or_default(),
                    }
                    .encode_to_vec()
                    .into(),
                ))
            }
            WasmMsg::Instantiate {
                admin,
                code_id,
                msg,
                funds,
                label,
            } => {
                let (addr, code) = {
                    let mut s = self.0.borrow_mut();
                    let code = s
                        .codes
                        .get((code_id as usize).wrapping_sub(1))
                        .cloned()
                        .ok_or("no such code")?;
                    let n = s.next_id;
                    s.next_id += 1;
                    s.journal.push(Undo::NextId(n));
                    let addr = format!("contract{n}");
                    let old = s.contracts.insert(
                        addr.clone(),
                        Inst {
                            code_id,
                            admin,
                            creator: sender.into(),
                            label,
                        },
                    );
                    s.journal.push(Undo::Contract(addr.clone(), old));
                    (addr, code)
                };
                let funds = normalize_coins(&funds);
                self.transfer(sender, &addr, &funds, o, depth)?;
                let info = MessageInfo {
                    sender: Addr::unchecked(sender),
                    funds,
                };
                let r = self.guarded(&addr, |d, e| (code.inst)(d, e, info, &msg))?;
                let d = self.finish(&addr, r, o, depth)?;
                Ok(Some(
                    PInst {
                        address: addr,
                        data: d.map(|d| d.to_vec()).unwrap_or_default(),
                    }
                    .encode_to_vec()
                    .into(),
                ))
            }
            WasmMsg::Migrate {
                contract_addr,
                new_code_id,
                msg,
            } => {
                let code = {
                    let mut s = self.0.borrow_mut();
                    let mut i = s
                        .contracts
                        .get(&contract_addr)
                        .cloned()
                        .ok_or("no such contract")?;
                    if i.admin.as_deref() != Some(sender) {
                        return Err("migrate: not the contract admin".into());
                    }
                    let code = s
                        .codes
                        .get((new_code_id as usize).wrapping_sub(1))
                        .cloned()
                        .ok_or("no such code")?;
                    i.code_id = new_code_id;
                    let old = s.contracts.insert(contract_addr.clone(), i);
                    s.journal.push(Undo::Contract(contract_addr.clone(), old));
                    code
                };
                let f = code.migrate.ok_or("no migrate entry point")?;
                let r = self.guarded(&contract_addr, |d, e| f(d, e, &msg))?;
                self.finish(&contract_addr, r, o, depth)
            }
            WasmMsg::UpdateAdmin {
                contract_addr,
                admin,
            } => self.set_admin(sender, &contract_addr, Some(admin)),
            WasmMsg::ClearAdmin { contract_addr } => self.set_admin(sender, &contract_addr, None),
            _ => Err("unsupported wasm message".into()),
        }
    }

    fn set_admin(
        &self,
        sender: &str,
        addr: &str,
        admin: Option<String>,
    ) -> Result<Option<Binary>, String> {
        let mut s = self.0.borrow_mut();
        let mut i = s.contracts.get(addr).cloned().ok_or("no such contract")?;
        if i.admin.as_deref() != Some(sender) {
            return Err("not the contract admin".into());
        }
        i.admin = admin;
        let old = s.contracts.insert(addr.into(), i);
        s.journal.push(Undo::Contract(addr.into(), old));
        Ok(None)
    }

    fn stargate(
        &self,
        sender: &str,
        url: &str,
        v: &[u8],
        o: &mut TxOk,
        depth: u32,
    ) -> Result<Option<Binary>, String> {
        let bad = |e: prost::DecodeError| e.to_string();
        let tf = "/osmosis.tokenfactory.v1beta1.";
        if let Some(kind) = url.strip_prefix(tf) {
            match kind {
                "MsgCreateDenom" => {
                    let m = PTfStr::decode(v).map_err(bad)?;
                    if m.sender != sender {
                        return Err("tokenfactory: wrong signer".into());
                    }
                    let denom = format!("factory/{}/{}", sender, m.a);
                    let mut s = self.0.borrow_mut();
                    if s.denoms.contains_key(&denom) {
                        return Err("tokenfactory: denom exists".into());
                    }
                    s.denoms.insert(
                        denom.clone(),
                        TfDenom {
                            admin: sender.into(),
                            hook: None,
                        },
                    );
                    s.journal.push(Undo::Denom(denom.clone(), None));
                    return Ok(Some(PStr1 { a: denom }.encode_to_vec().into()));
                }
                "MsgMint" | "MsgBurn" => {
                    let m = PTfAmt::decode(v).map_err(bad)?;
                    let c = m.amount.unwrap_or_default();
                    let amt: u128 = c.amount.parse().map_err(|_| "bad amount")?;
                    if m.sender != sender {
                        return Err("tokenfactory: wrong signer".into());
                    }
                    if amt == 0 {
                        return Err("tokenfactory: zero amount".into());
                    }
                    let target = if m.target.is_empty() {
                        sender.to_string()
                    } else {
                        m.target
                    };
                    {
                        let s = self.0.borrow();
                        match s.denoms.get(&c.denom) {
                            Some(d) if d.admin == sender => {}
                            _ => return Err("tokenfactory: unauthorized".into()),
                        }
                    }
                    if kind == "MsgMint" {
                        {
                            let mut s = self.0.borrow_mut();
                            let t = s
                                .total(&c.denom)
                                .checked_add(amt)
                                .ok_or("supply overflow")?;
                            s.set_supply(&c.denom, t);
                            let b = s.balance(TF_MODULE, &c.denom) + amt;
                            s.set_bal(TF_MODULE, &c.denom, b);
                        }
                        self.transfer(TF_MODULE, &target, &[Coin::new(amt, c.denom)], o, depth)?;
                    } else {
                        self.transfer(
                            &target,
                            TF_MODULE,
                            &[Coin::new(amt, c.denom.clone())],
                            o,
                            depth,
                        )?;
                        let mut s = self.0.borrow_mut();
                        let t = s.total(&c.denom) - amt;
                        s.set_supply(&c.denom, t);
                        let b = s.balance(TF_MODULE, &c.denom) - amt;
                        s.set_bal(TF_MODULE, &c.denom, b);
                    }
                    return Ok(Some(Binary::default()));
                }
                "MsgSetBeforeSendHook" => {
                    let m = PTfStr::decode(v).map_err(bad)?;
                    let mut s = self.0.borrow_mut();
                    let d = s.denoms.get(&m.a).cloned().ok_or("no such denom")?;
                    if m.sender != sender || d.admin != sender {
                        return Err("tokenfactory: unauthorized".into());
                    }
                    let mut n = d.clone();
                    n.hook = if m.b.is_empty() { None } else { Some(m.b) };
                    s.denoms.insert(m.a.clone(), n);
                    s.journal.push(Undo::Denom(m.a, Some(d)));
                    return Ok(Some(Binary::default()));
                }
                "MsgSetDenomMetadata" => return Ok(Some(Binary::default())),
                _ => return Err(format!("unsupported stargate {url}")),
            }
        }
        match url {
            "/cosmos.feegrant.v1beta1.MsgGrantAllowance" => {
                let m = PGrant::decode(v).map_err(bad)?;
                if m.granter != sender {
                    return Err("feegrant: wrong signer".into());
                }
                // as the SDK validates the message
                let allowance = m.allowance.clone().unwrap_or_default();
                if m.granter == m.grantee {
                    return Err("feegrant: cannot self-grant fee authorization".into());
                }
                if allowance.type_url != "/cosmos.feegrant.v1beta1.BasicAllowance" {
                    return Err("feegrant: unknown allowance".into());
                }
                let b = PBasicAllowance::decode(allowance.value.as_slice()).map_err(bad)?;
                if b.spend_limit.iter().any(|c| c.amount.parse::<u128>().unwrap_or(0) == 0) {
                    return Err("feegrant: spend limit must be positive".into());
                }
                let k = (m.granter, m.grantee);
                let mut s = self.0.borrow_mut();
                if s.grants.contains_key(&k) {
                    return Err("feegrant: fee allowance already exists".into());
                }
                s.grants
                    .insert(k.clone(), m.allowance.unwrap_or_default().value);
                s.journal.push(Undo::Grant(k, None));
                Ok(None)
            }
            "/cosmos.feegrant.v1beta1.MsgRevokeAllowance" => {
                let m = PTfStr::decode(v).map_err(bad)?;
                if m.sender != sender {
                    return Err("feegrant: wrong signer".into());
                }
                let k = (m.sender, m.a);
                let mut s = self.0.borrow_mut();
                let old = s.grants.remove(&k).ok_or("feegrant: not found")?;
                s.journal.push(Undo::Grant(k, Some(old)));
                Ok(None)
            }
            _ => Err(format!("unsupported stargate {url}")),
        }
    }
}

impl Chain {
    /// What is left of an allowance (None: no allowance; any amount: unlimited).
    pub fn allowance(&self, granter: &str, grantee: &str, denom: &str) -> Option<u128> {
        let s = self.0.borrow();
        let v = s.grants.get(&(granter.to_string(), grantee.to_string()))?;
        let b = PBasicAllowance::decode(v.as_slice()).ok()?;
        if b.spend_limit.is_empty() {
            return Some(u128::MAX);
        }
        Some(b.spend_limit.iter().filter(|c| c.denom == denom).map(|c| c.amount.parse::<u128>().unwrap_or(0)).sum())
    }
    /// A transaction of the grantee whose fee the granter pays. As in the SDK, an allowance used up is removed.
    pub fn use_allowance(&self, granter: &str, grantee: &str, denom: &str, fee: u128) -> bool {
        let Some(left) = self.allowance(granter, grantee, denom) else { return false };
        let mut s = self.0.borrow_mut();
        let b = s.balance(granter, denom);
        if fee == 0 || left < fee || b < fee {
            return false;
        }
        s.set_bal(granter, denom, b - fee);
        let f = s.balance("feecollector", denom);
        s.set_bal("feecollector", denom, f + fee);
        let k = (granter.to_string(), grantee.to_string());
        if left == fee {
            s.grants.remove(&k);
        } else {
            let v = PBasicAllowance { spend_limit: vec![PCoin { denom: denom.into(), amount: (left - fee).to_string() }], expiration: vec![] };
            s.grants.insert(k, v.encode_to_vec());
        }
        s.journal.clear();
        true
    }
}

pub fn coins(list: &[(&str, u128)]) -> Vec<Coin> {
    list.iter()
        .filter(|(_, a)| *a > 0)
        .map(|(d, a)| Coin::new(*a, *d))
        .collect()
}

pub fn cw20_bal(c: &Chain, token: &str, a: &str) -> u128 {
    let r: Result<cw20::BalanceResponse, _> = c.query(
        token,
        &cw20::Cw20QueryMsg::Balance { address: a.into() },
    );
    r.map(|b| b.balance.u128()).unwrap_or(0)
}
pub fn cw20_supply(c: &Chain, token: &str) -> u128 {
    let r: Result<cw20::TokenInfoResponse, _> =
        c.query(token, &cw20::Cw20QueryMsg::TokenInfo {});
    r.map(|b| b.total_supply.u128()).unwrap_or(0)
}
#[allow(dead_code)]
pub fn u(x: u128) -> Uint128 {
    Uint128::new(x)
}
