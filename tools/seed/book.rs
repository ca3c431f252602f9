//! A small stand-in for the chain: runs the contract's entry points, reverts refused calls.
#![allow(dead_code)]
use cosmwasm_std::testing::{mock_env, mock_info, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::*;
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sumtree_orderbook::contract;
use sumtree_orderbook::msg::{ExecuteMsg, InstantiateMsg, QueryMsg, SudoMsg};

pub const GOV: &str = "osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp";
pub const SUBDAO: &str = "osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl";

pub struct Book {
    pub deps: OwnedDeps<MockStorage, MockApi, MockQuerier>,
}
fn copy(s: &dyn Storage) -> MockStorage {
    let mut n = MockStorage::new();
    for (k, v) in s.range(None, None, Order::Ascending) {
        n.set(&k, &v);
    }
    n
}
impl Book {
    pub fn new() -> Book {
        let q = MockQuerier::new(&[("bank", &[coin(1000, "base"), coin(1000, "quote")])]);
        let mut b = Book {
            deps: OwnedDeps { storage: MockStorage::new(), api: MockApi::default(), querier: q, custom_query_type: Default::default() },
        };
        let m: InstantiateMsg = serde_json::from_str(r#"{"base_denom":"base","quote_denom":"quote"}"#).unwrap();
        contract::instantiate(b.deps.as_mut(), mock_env(), mock_info("creator", &[]), m).expect("instantiate");
        b
    }
    fn guard<T>(&mut self, f: impl FnOnce(DepsMut) -> Result<T, String>) -> Result<T, String> {
        let before = copy(&self.deps.storage);
        std::panic::set_hook(Box::new(|_| {}));
        let r = catch_unwind(AssertUnwindSafe(|| f(self.deps.as_mut())));
        let _ = std::panic::take_hook();
        let r = r.unwrap_or_else(|_| Err("panicked".into()));
        if r.is_err() {
            self.deps.storage = before;
        }
        r
    }
    pub fn exec(&mut self, who: &str, funds: &[Coin], msg: &str) -> Result<Response, String> {
        let m: ExecuteMsg = serde_json::from_str(msg).expect("message");
        let info = mock_info(who, funds);
        self.guard(|d| contract::execute(d, mock_env(), info, m).map_err(|e| e.to_string()))
    }
    pub fn sudo(&mut self, msg: &str) -> Result<Response, String> {
        let m: SudoMsg = serde_json::from_str(msg).expect("message");
        self.guard(|d| sumtree_orderbook::sudo::sudo(d, mock_env(), m).map_err(|e| e.to_string()))
    }
    pub fn query(&self, msg: &str) -> Result<Value, String> {
        let m: QueryMsg = serde_json::from_str(msg).expect("query");
        let r = catch_unwind(AssertUnwindSafe(|| contract::query(self.deps.as_ref(), mock_env(), m)));
        match r {
            Ok(Ok(b)) => Ok(serde_json::from_slice(&b).unwrap()),
            Ok(Err(e)) => Err(e.to_string()),
            Err(_) => Err("panicked".into()),
        }
    }
    /// dir is "bid" or "ask"
    pub fn place(&mut self, who: &str, tick: i64, dir: &str, qty: u128) -> Result<Response, String> {
        self.place_b(who, tick, dir, qty, "null")
    }
    pub fn place_b(&mut self, who: &str, tick: i64, dir: &str, qty: u128, bounty: &str) -> Result<Response, String> {
        let denom = if dir == "bid" { "quote" } else { "base" };
        let b = if bounty == "null" { "null".to_string() } else { format!("\"{bounty}\"") };
        self.exec(
            who,
            &[coin(qty, denom)],
            &format!(r#"{{"place_limit":{{"tick_id":{tick},"order_direction":"{dir}","quantity":"{qty}","claim_bounty":{b}}}}}"#),
        )
    }
    pub fn cancel(&mut self, who: &str, tick: i64, id: u64) -> Result<Response, String> {
        self.exec(who, &[], &format!(r#"{{"cancel_limit":{{"tick_id":{tick},"order_id":{id}}}}}"#))
    }
    pub fn claim(&mut self, who: &str, tick: i64, id: u64) -> Result<Response, String> {
        self.exec(who, &[], &format!(r#"{{"claim_limit":{{"tick_id":{tick},"order_id":{id}}}}}"#))
    }
    pub fn batch(&mut self, who: &str, ids: &[(i64, u64)]) -> Result<Response, String> {
        let l: Vec<String> = ids.iter().map(|(t, i)| format!("[{t},{i}]")).collect();
        self.exec(who, &[], &format!(r#"{{"batch_claim":{{"orders":[{}]}}}}"#, l.join(",")))
    }
    pub fn auth(&mut self, who: &str, msg: &str) -> Result<Response, String> {
        self.exec(who, &[], &format!(r#"{{"auth":{msg}}}"#))
    }
    /// buys with quote ("bid") or sells base ("ask")
    pub fn swap(&mut self, dir: &str, qty: u128) -> Result<Response, String> {
        self.swap_min(dir, qty, 0)
    }
    pub fn swap_min(&mut self, dir: &str, qty: u128, min: u128) -> Result<Response, String> {
        let (i, o) = if dir == "bid" { ("quote", "base") } else { ("base", "quote") };
        self.sudo(&format!(
            r#"{{"swap_exact_amount_in":{{"sender":"taker","token_in":{{"denom":"{i}","amount":"{qty}"}},"token_out_denom":"{o}","token_out_min_amount":"{min}","swap_fee":"0"}}}}"#
        ))
    }
    pub fn swap_to(&mut self, dir: &str, qty: u128, target: i64) -> Result<Response, String> {
        let (i, o) = if dir == "bid" { ("quote", "base") } else { ("base", "quote") };
        self.sudo(&format!(
            r#"{{"swap_to_tick":{{"sender":"taker","token_in":{{"denom":"{i}","amount":"{qty}"}},"token_out_denom":"{o}","token_out_min_amount":"0","swap_fee":"0","target_tick":{target}}}}}"#
        ))
    }
    /// unclaimed filled part of an order, from the queries alone
    pub fn order(&self, tick: i64, id: u64) -> Option<Value> {
        let v = self.query(&format!(r#"{{"orders_by_tick":{{"tick_id":{tick}}}}}"#)).ok()?;
        v["orders"].as_array()?.iter().find(|o| o["order_id"].as_u64() == Some(id)).cloned()
    }
}
/// Payments in a response: (to, amount, denom), in order.
pub fn pays(r: &Response) -> Vec<(String, u128, String)> {
    let mut v = vec![];
    for m in &r.messages {
        match &m.msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                for c in amount {
                    v.push((to_address.clone(), c.amount.u128(), c.denom.clone()));
                }
            }
            CosmosMsg::Stargate { value, .. } => v.extend(proto_send(value.as_slice())),
            x => panic!("unexpected message {x:?}"),
        }
    }
    v
}
pub fn paid(r: &Response, to: &str, denom: &str) -> u128 {
    pays(r).iter().filter(|p| p.0 == to && p.2 == denom).map(|p| p.1).sum()
}
/// MsgSend { from = 1, to = 2, coins = 3 { denom = 1, amount = 2 } }
fn proto_send(b: &[u8]) -> Vec<(String, u128, String)> {
    let mut to = String::new();
    let mut coins = vec![];
    for (f, d) in fields(b) {
        match f {
            2 => to = String::from_utf8(d).unwrap(),
            3 => {
                let (mut denom, mut amount) = (String::new(), 0u128);
                for (f, d) in fields(&d) {
                    let s = String::from_utf8(d).unwrap();
                    match f {
                        1 => denom = s,
                        2 => amount = s.parse().unwrap(),
                        _ => {}
                    }
                }
                coins.push((denom, amount));
            }
            _ => {}
        }
    }
    coins.into_iter().map(|(d, a)| (to.clone(), a, d)).collect()
}
fn fields(mut b: &[u8]) -> Vec<(u64, Vec<u8>)> {
    fn varint(b: &mut &[u8]) -> u64 {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let x = b[0];
            *b = &b[1..];
            v |= ((x & 127) as u64) << s;
            s += 7;
            if x < 128 {
                return v;
            }
        }
    }
    let mut r = vec![];
    while !b.is_empty() {
        let key = varint(&mut b);
        assert_eq!(key & 7, 2, "only length-delimited fields");
        let n = varint(&mut b) as usize;
        r.push((key >> 3, b[..n].to_vec()));
        b = &b[n..];
    }
    r
}
/// The promise under test.
pub fn must(ok: bool, what: impl std::fmt::Display) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
/// One level at price one (tick 0), worked on by placements, cancellations, swaps and claims, beside a
/// plain first-in-first-out queue.
pub struct Fifo {
    pub book: Book,
    pub dir: &'static str,
    /// quantity left, filled and unclaimed; None when closed
    pub orders: Vec<Option<(u128, u128)>>,
}
impl Fifo {
    pub fn new(dir: &'static str) -> Fifo {
        Fifo { book: Book::new(), dir, orders: vec![] }
    }
    fn give(&self) -> &'static str {
        if self.dir == "bid" { "quote" } else { "base" }
    }
    fn get(&self) -> &'static str {
        if self.dir == "bid" { "base" } else { "quote" }
    }
    pub fn place(&mut self, qty: u128) {
        let r = self.book.place("maker", 0, self.dir, qty);
        must(r.is_ok(), format!("placing {qty}: {r:?}"));
        self.orders.push(Some((qty, 0)));
    }
    pub fn cancel(&mut self, id: usize) {
        let (qty, filled) = self.orders[id].expect("open");
        assert_eq!(filled, 0, "bad history");
        let r = self.book.cancel("maker", 0, id as u64);
        must(r.is_ok(), format!("cancelling unfilled order {id}: {r:?}"));
        let got = paid(&r.unwrap(), "maker", self.give());
        must(got == qty, format!("cancelling order {id} refunds {got} of {qty}"));
        self.orders[id] = None;
    }
    pub fn swap(&mut self, mut qty: u128) {
        let other = if self.dir == "bid" { "ask" } else { "bid" };
        let r = self.book.swap(other, qty);
        must(r.is_ok(), format!("swapping {qty}: {r:?}"));
        let got = paid(&r.unwrap(), "taker", self.give());
        must(got == qty, format!("swapping {qty} delivers {got}"));
        for o in self.orders.iter_mut().flatten() {
            let f = qty.min(o.0 - o.1);
            o.1 += f;
            qty -= f;
        }
        assert_eq!(qty, 0, "bad history");
    }
    pub fn claim(&mut self, id: usize) {
        let (qty, filled) = self.orders[id].expect("open");
        let r = self.book.claim("maker", 0, id as u64);
        must(r.is_ok() == (filled > 0), format!("claiming order {id} with {filled} filled: {r:?}"));
        if let Ok(r) = r {
            let got = paid(&r, "maker", self.get());
            must(got == filled, format!("order {id} has {filled} filled but claims {got}"));
            self.orders[id] = if filled == qty { None } else { Some((qty - filled, 0)) };
        }
    }
    /// Everyone takes everything out.
    pub fn drain(&mut self) {
        for id in 0..self.orders.len() {
            if self.orders[id].is_some() {
                self.claim(id);
            }
            if self.orders[id].is_some() {
                self.cancel(id);
            }
        }
    }
    /// "P3 P2 C0 S1 X1": place, cancel, swap, claim
    pub fn run(&mut self, script: &str) {
        for w in script.split_whitespace() {
            let n: u128 = w[1..].parse().unwrap();
            match &w[..1] {
                "P" => self.place(n),
                "C" => self.cancel(n as usize),
                "S" => self.swap(n),
                "X" => self.claim(n as usize),
                _ => panic!("{w}"),
            }
        }
    }
}
