//! The closed system around the real contract: chain-side semantics of a transaction.
//!
//! A transaction moves the attached funds to the contract, runs the real entry point on a copy of the
//! storage, then executes every emitted sub-message in order with the CosmWasm reply rules. Anything
//! that fails without being absorbed by the contract's `reply` reverts the whole transaction.
use crate::store::Store;
use cosmwasm_std::{
    from_json, to_json_binary, Addr, Api, BankMsg, Binary, BlockInfo, CanonicalAddr, Coin,
    ContractInfo, ContractResult, CosmosMsg, Deps, DepsMut, Env, Event, MessageInfo, Querier,
    QuerierResult, QuerierWrapper, QueryRequest, RecoverPubkeyError, Reply, ReplyOn, Response,
    StdError, StdResult, SubMsgResponse, SubMsgResult, SystemError, SystemResult, Timestamp,
    TransactionInfo, Uint128, Uint256, VerificationError,
};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

/// Names of the base, the quote and a foreign token. Which one a world uses is decided by its profile (`use_names`).
const PAIRS: [(&str, &str, &str); 5] = [
    ("ubase", "uquote", "uother"),
    ("uosmo", "factory/osmo1z6r6qdknhgsc0zeracktgpcxf43j6sekq07nw8sxduc9lg0qjjlqfu25e3/alloyed/allUSDC", "uOSMO"),
    ("ibc/0Ab1", "ibc/0AB1", "ibc/0ab1"),
    ("atoken2", "atoken", "atoken22"),
    ("aaa", "aaaa", "aaaaa"),
];
static NAMES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// A profile called `... names=k` trades the k-th pair.
pub fn use_names(profile: &str) {
    let arg = |key: &str| profile.rsplit_once(key).and_then(|x| x.1.split(' ').next()?.parse().ok());
    let k = arg(" names=").filter(|k| *k < PAIRS.len()).unwrap_or(0);
    NAMES.store(k, std::sync::atomic::Ordering::SeqCst);
    CLOCK.store(arg(" clock=").unwrap_or(0), std::sync::atomic::Ordering::SeqCst);
}
static CLOCK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub const N_CLOCKS: usize = 4;
/// Block time in nanoseconds after `n` placements. A profile called `... clock=k` lives by the k-th clock:
/// seconds apart, all in one block, years apart, or nanoseconds apart from the beginning of time.
pub fn time_at(n: u64) -> u64 {
    let n = n & 0xff_ffff;
    match CLOCK.load(std::sync::atomic::Ordering::Relaxed) {
        1 => 1_700_000_000_123_456_789,
        2 => 1_700_000_000_123_456_789 + 100_000_000_000_000_007 * n.min(150),
        3 => n,
        _ => 1_700_000_000_123_456_789 + 7_000_000_321 * n,
    }
}
pub const N_PAIRS: usize = PAIRS.len();
pub fn other_denom() -> &'static str {
    PAIRS[NAMES.load(std::sync::atomic::Ordering::Relaxed)].2
}
pub fn base_denom() -> &'static str {
    PAIRS[NAMES.load(std::sync::atomic::Ordering::Relaxed)].0
}
pub fn quote_denom() -> &'static str {
    PAIRS[NAMES.load(std::sync::atomic::Ordering::Relaxed)].1
}
pub const CONTRACT: &str = "osmo1orderbookcontract";
pub const GOV: &str = "osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp";
pub const SUBDAO: &str = "osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl";
pub const FEEADDR: &str = "osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6";

/// Actors. Index 0..=4 ordinary users, 5 default fee recipient, 6 admin, 7 moderator, 8 an address
/// that does not validate, 9 the contract's own address.
pub const ADDRS: [&str; 10] = [
    "alice", "alicea", "carol", "dave", "treasury", FEEADDR, GOV, SUBDAO, "X", CONTRACT,
];
pub const A_FEE: u8 = 5;
pub const A_GOV: u8 = 6;
pub const A_MOD: u8 = 7;
pub const A_BAD: u8 = 8;
pub const A_SELF: u8 = 9;

pub fn denom(base: bool) -> &'static str {
    if base {
        base_denom()
    } else {
        quote_denom()
    }
}

#[derive(Clone, Copy, Default)]
pub struct OwnApi;
fn valid_addr(s: &str) -> bool {
    (3..=90).contains(&s.len())
        && s.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit() || b == b'_')
}
impl Api for OwnApi {
    fn addr_validate(&self, s: &str) -> StdResult<Addr> {
        if valid_addr(s) {
            Ok(Addr::unchecked(s))
        } else {
            Err(StdError::generic_err("Invalid input"))
        }
    }
    fn addr_canonicalize(&self, s: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(s)?;
        Ok(CanonicalAddr::from(s.as_bytes()))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(c.as_slice()).to_string()))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}

/// Bank queries: supplies as configured, contract balances as they are.
pub struct OwnQuerier {
    pub supply: Vec<(String, u128)>,
    pub fail: Vec<String>,
    pub bal: [Uint256; 2],
}
impl Querier for OwnQuerier {
    fn raw_query(&self, req: &[u8]) -> QuerierResult {
        let req: QueryRequest<cosmwasm_std::Empty> = match from_json(req) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: req.into(),
                })
            }
        };
        let sup = |d: &str| self.supply.iter().find(|x| x.0 == d).map_or(0, |x| x.1);
        let ok = |v: serde_json::Value| {
            SystemResult::Ok(ContractResult::Ok(Binary::from(v.to_string().into_bytes())))
        };
        match req {
            QueryRequest::Bank(cosmwasm_std::BankQuery::Supply { denom }) => {
                if self.fail.contains(&denom) {
                    return SystemResult::Ok(ContractResult::Err("no such denom".into()));
                }
                ok(serde_json::json!({"amount": {"denom": denom, "amount": sup(&denom).to_string()}}))
            }
            QueryRequest::Bank(cosmwasm_std::BankQuery::Balance { address, denom }) => {
                let a = if address != CONTRACT {
                    Uint256::zero()
                } else if denom == base_denom() {
                    self.bal[0]
                } else if denom == quote_denom() {
                    self.bal[1]
                } else {
                    Uint256::zero()
                };
                ok(serde_json::json!({"amount": {"denom": denom, "amount": a.to_string()}}))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "unmodelled query".into() }),
        }
    }
}

/// One successful payment made by the contract.
#[derive(Clone, Debug, PartialEq)]
pub struct Pay {
    pub to: String,
    pub denom: String,
    pub amount: Uint256,
}

#[derive(Clone, Debug, Default)]
pub struct Effects {
    pub pays: Vec<Pay>,
    pub attrs: Vec<(String, String)>,
    pub events: Vec<(String, Vec<(String, String)>)>,
    pub data: Option<Vec<u8>>,
    /// number of sub-messages / messages dispatched
    pub nmsgs: usize,
    /// sub-messages that failed and were absorbed by `reply`
    pub absorbed: usize,
    /// messages that are not simple payments
    pub unknown: Vec<String>,
}
impl Effects {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    /// Payments summed per (recipient, denom).
    pub fn sums(&self) -> BTreeMap<(String, String), Uint256> {
        let mut m = BTreeMap::new();
        for p in &self.pays {
            let e = m.entry((p.to.clone(), p.denom.clone())).or_insert(Uint256::zero());
            *e += p.amount;
        }
        m
    }
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Ok(Effects),
    Err(String),
    Panic(String),
}
impl Outcome {
    pub fn ok(&self) -> Option<&Effects> {
        if let Outcome::Ok(e) = self {
            Some(e)
        } else {
            None
        }
    }
    pub fn short(&self) -> String {
        match self {
            Outcome::Ok(e) => format!(
                "ok pays={:?}",
                e.pays.iter().map(|p| format!("{}{}->{}", p.amount, p.denom, p.to)).collect::<Vec<_>>()
            ),
            Outcome::Err(e) => format!("error({e})"),
            Outcome::Panic(e) => format!("panic({e})"),
        }
    }
}

#[derive(Clone)]
pub struct World {
    pub store: Store,
    /// Contract balances: base, quote.
    pub bal: [Uint256; 2],
    /// Block time in nanoseconds.
    pub time: u64,
}

/// What enters the contract's `entry` with a transaction.
pub enum Entry<'a> {
    Execute { sender: &'a str, funds: Vec<Coin>, msg: String },
    /// Sudo call; `paid_in` is what the pool manager moved to the contract beforehand.
    Sudo { paid_in: Vec<Coin>, msg: String },
    Migrate { msg: String },
}

thread_local! {
    static IN_CONTRACT: Cell<bool> = const { Cell::new(false) };
}
/// Contract panics are outcomes, not output; everything else still prints.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !IN_CONTRACT.with(|c| c.get()) {
            old(i)
        }
    }));
}
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_CONTRACT.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CONTRACT.with(|c| c.set(false));
    r.map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

fn idx(d: &str) -> Option<usize> {
    match d {
        d if d == base_denom() => Some(0),
        d if d == quote_denom() => Some(1),
        _ => None,
    }
}

impl World {
    pub fn env(&self) -> Env {
        Env {
            block: BlockInfo {
                height: self.time / 5_000_000_000,
                time: Timestamp::from_nanos(self.time),
                chain_id: "osmosis-1".into(),
            },
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo { address: Addr::unchecked(CONTRACT) },
        }
    }

    fn querier(&self) -> OwnQuerier {
        OwnQuerier {
            supply: vec![(base_denom().into(), u128::MAX), (quote_denom().into(), u128::MAX)],
            fail: vec![],
            bal: self.bal,
        }
    }

    /// A freshly instantiated orderbook.
    pub fn genesis() -> Result<World, String> {
        Self::instantiate_with(base_denom(), quote_denom(), vec![(base_denom().into(), u128::MAX), (quote_denom().into(), u128::MAX)], vec![])
            .map(|x| x.0)
    }

    pub fn instantiate_with(
        base: &str,
        quote: &str,
        supply: Vec<(String, u128)>,
        fail: Vec<String>,
    ) -> Result<(World, Effects), String> {
        let mut w = World { store: Store::default(), bal: [Uint256::zero(); 2], time: 1_700_000_000_000_000_000 };
        let env = w.env();
        let q = OwnQuerier { supply, fail, bal: w.bal };
        let msg = serde_json::json!({"base_denom": base, "quote_denom": quote}).to_string();
        let mut store = w.store.clone();
        let r = guarded(|| {
            let msg = from_json(msg.as_bytes()).map_err(|e| format!("msg: {e}"))?;
            let deps = DepsMut { storage: &mut store, api: &OwnApi, querier: QuerierWrapper::new(&q) };
            let info = MessageInfo { sender: Addr::unchecked("deployer"), funds: vec![] };
            sumtree_orderbook::contract::instantiate(deps, env, info, msg).map_err(|e| e.to_string())
        })
        .map_err(|p| format!("panic: {p}"))??;
        w.store = store;
        let mut e = Effects { nmsgs: r.messages.len(), ..Default::default() };
        e.attrs = r.attributes.into_iter().map(|a| (a.key, a.value)).collect();
        Ok((w, e))
    }

    pub fn query(&self, msg: &str) -> Result<serde_json::Value, String> {
        let q = self.querier();
        let b = guarded(|| {
            let m = from_json(msg.as_bytes()).map_err(|e| format!("msg: {e}"))?;
            let deps = Deps { storage: &self.store, api: &OwnApi, querier: QuerierWrapper::new(&q) };
            sumtree_orderbook::contract::query(deps, self.env(), m).map_err(|e| e.to_string())
        })
        .map_err(|p| format!("panic: {p}"))??;
        serde_json::from_slice(b.as_slice()).map_err(|e| e.to_string())
    }

    /// Runs one transaction. `fault = Some(i)`: the bank refuses the i-th payment of the transaction.
    /// On anything but `Ok` the world is as before.
    pub fn tx(&mut self, entry: Entry, fault: Option<usize>) -> Outcome {
        let env = self.env();
        let mut bal = self.bal;
        let mut store = self.store.clone();
        let q = self.querier();
        let credit = |bal: &mut [Uint256; 2], funds: &[Coin]| {
            for c in funds {
                if let Some(i) = idx(&c.denom) {
                    bal[i] += Uint256::from(c.amount);
                }
            }
        };
        let res = guarded(|| -> Result<Response, String> {
            let deps = DepsMut { storage: &mut store, api: &OwnApi, querier: QuerierWrapper::new(&q) };
            match entry {
                Entry::Execute { sender, funds, msg } => {
                    credit(&mut bal, &funds);
                    let m = from_json(msg.as_bytes()).map_err(|e| format!("msg: {e}"))?;
                    let info = MessageInfo { sender: Addr::unchecked(sender), funds };
                    sumtree_orderbook::contract::execute(deps, env.clone(), info, m).map_err(|e| e.to_string())
                }
                Entry::Sudo { paid_in, msg } => {
                    credit(&mut bal, &paid_in);
                    let m = from_json(msg.as_bytes()).map_err(|e| format!("msg: {e}"))?;
                    sumtree_orderbook::sudo::sudo(deps, env.clone(), m).map_err(|e| e.to_string())
                }
                Entry::Migrate { msg } => {
                    let m = from_json(msg.as_bytes()).map_err(|e| format!("msg: {e}"))?;
                    sumtree_orderbook::contract::migrate(deps, env.clone(), m).map_err(|e| e.to_string())
                }
            }
        });
        let res = match res {
            Err(p) => return Outcome::Panic(p),
            Ok(Err(e)) => return Outcome::Err(e),
            Ok(Ok(r)) => r,
        };
        let mut eff = Effects {
            attrs: res.attributes.into_iter().map(|a| (a.key, a.value)).collect(),
            events: res
                .events
                .into_iter()
                .map(|e: Event| (e.ty, e.attributes.into_iter().map(|a| (a.key, a.value)).collect()))
                .collect(),
            data: res.data.map(|d| d.to_vec()),
            ..Default::default()
        };
        let mut sends = 0usize;
        for sm in res.messages {
            eff.nmsgs += 1;
            let r: Result<Vec<Pay>, String> = match decode(&sm.msg) {
                Decoded::Send { from, to, coins } => {
                    let me = sends;
                    sends += 1;
                    send(&mut bal, from, to, coins, fault == Some(me))
                }
                Decoded::Other(s) => {
                    eff.unknown.push(s);
                    Ok(vec![])
                }
            };
            let rep = |result: SubMsgResult, store: &mut Store| -> Result<(), String> {
                let deps = DepsMut { storage: store, api: &OwnApi, querier: QuerierWrapper::new(&q) };
                let r = guarded(|| {
                    sumtree_orderbook::contract::reply(deps, env.clone(), Reply { id: sm.id, result })
                        .map_err(|e| e.to_string())
                })
                .map_err(|p| format!("panic: {p}"))??;
                if !r.messages.is_empty() {
                    return Err("reply emitted messages (unmodelled)".into());
                }
                Ok(())
            };
            match r {
                Ok(p) => {
                    eff.pays.extend(p);
                    if matches!(sm.reply_on, ReplyOn::Success | ReplyOn::Always) {
                        let ok = SubMsgResult::Ok(SubMsgResponse { events: vec![], data: None });
                        if let Err(e) = rep(ok, &mut store) {
                            return Outcome::Err(e);
                        }
                    }
                }
                Err(e) => {
                    if matches!(sm.reply_on, ReplyOn::Error | ReplyOn::Always) {
                        if let Err(e) = rep(SubMsgResult::Err(e), &mut store) {
                            return Outcome::Err(e);
                        }
                        eff.absorbed += 1;
                    } else {
                        return Outcome::Err(e);
                    }
                }
            }
        }
        self.bal = bal;
        self.store = store;
        Outcome::Ok(eff)
    }
}

fn send(
    bal: &mut [Uint256; 2],
    from: Option<String>,
    to: String,
    coins: Vec<(String, Uint256)>,
    fault: bool,
) -> Result<Vec<Pay>, String> {
    if fault {
        return Err("bank: injected failure".into());
    }
    if let Some(f) = from {
        if f != CONTRACT {
            return Err(format!("unauthorized: {f} is not the contract"));
        }
    }
    if !valid_addr(&to) {
        return Err("invalid recipient".into());
    }
    if coins.is_empty() || coins.iter().any(|c| c.1.is_zero()) {
        return Err("invalid coins".into());
    }
    let mut b = *bal;
    let mut out = vec![];
    for (d, a) in coins {
        let i = idx(&d).ok_or_else(|| format!("insufficient funds: {d}"))?;
        if b[i] < a {
            return Err(format!("insufficient funds: {}{d} < {a}{d}", b[i]));
        }
        b[i] -= a;
        if to == CONTRACT {
            b[i] += a;
        }
        out.push(Pay { to: to.clone(), denom: d, amount: a });
    }
    *bal = b;
    Ok(out)
}

enum Decoded {
    Send { from: Option<String>, to: String, coins: Vec<(String, Uint256)> },
    Other(String),
}

fn decode(m: &CosmosMsg) -> Decoded {
    match m {
        CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => Decoded::Send {
            from: None,
            to: to_address.clone(),
            coins: amount.iter().map(|c| (c.denom.clone(), Uint256::from(c.amount))).collect(),
        },
        CosmosMsg::Stargate { type_url, value } if type_url == "/cosmos.bank.v1beta1.MsgSend" => {
            decode_msg_send(value.as_slice()).unwrap_or_else(|| Decoded::Other("undecodable MsgSend".into()))
        }
        o => Decoded::Other(format!("{o:?}")),
    }
}

fn fields(mut b: &[u8]) -> Option<Vec<(u64, &[u8])>> {
    fn varint(b: &mut &[u8]) -> Option<u64> {
        let mut v = 0u64;
        let mut s = 0;
        loop {
            let (&x, rest) = b.split_first()?;
            *b = rest;
            v |= ((x & 0x7f) as u64) << s;
            if x & 0x80 == 0 {
                return Some(v);
            }
            s += 7;
            if s > 63 {
                return None;
            }
        }
    }
    let mut out = vec![];
    while !b.is_empty() {
        let tag = varint(&mut b)?;
        if tag & 7 != 2 {
            return None;
        }
        let n = varint(&mut b)? as usize;
        if n > b.len() {
            return None;
        }
        out.push((tag >> 3, &b[..n]));
        b = &b[n..];
    }
    Some(out)
}
fn decode_msg_send(b: &[u8]) -> Option<Decoded> {
    let s = |b: &[u8]| String::from_utf8(b.to_vec()).ok();
    let (mut from, mut to, mut coins) = (String::new(), String::new(), vec![]);
    for (n, v) in fields(b)? {
        match n {
            1 => from = s(v)?,
            2 => to = s(v)?,
            3 => {
                let (mut d, mut a) = (String::new(), Uint256::zero());
                for (m, w) in fields(v)? {
                    match m {
                        1 => d = s(w)?,
                        2 => a = Uint256::from_str(&s(w)?).ok()?,
                        _ => return None,
                    }
                }
                coins.push((d, a));
            }
            _ => return None,
        }
    }
    Some(Decoded::Send { from: Some(from), to, coins })
}

pub fn coin(d: &str, a: u128) -> Coin {
    Coin { denom: d.into(), amount: Uint128::new(a) }
}
#[allow(dead_code)]
pub fn bin<T: serde::Serialize>(t: &T) -> Binary {
    to_json_binary(t).unwrap()
}
