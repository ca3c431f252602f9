//! The reference model: an order book kept as plain lists, with exact integer arithmetic.
//! It knows nothing of ticks states, effective totals or trees.
use crate::price::{self, frac, to_u128, value, MAX_TICK, MIN_TICK, ONE};
use crate::world::*;
use cosmwasm_std::{Coin, Uint256};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Funds {
    /// Exactly what the operation asks for.
    Right,
    None,
    Short,
    Over,
    WrongDenom,
    TwoCoins,
    /// right amount, unrelated denom
    Foreign,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Pair {
    Normal,
    Same,
    ForeignOut,
    ForeignIn,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum AuthAct {
    TransferAdmin(u8),
    CancelAdminTransfer,
    RejectAdminTransfer,
    ClaimAdmin,
    RenounceAdminship,
    OfferModerator(u8),
    RejectModeratorOffer,
    ClaimModerator,
    SetActive(bool),
    SetMakerFee(u128),
    SetMakerFeeRecipient(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum GovAct {
    TransferAdmin(u8),
    RemoveAdmin,
    SetActive(bool),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Place { who: u8, tick: i64, bid: bool, qty: u128, bounty: Option<u128>, funds: Funds },
    Cancel { who: u8, tick: i64, id: u64, funds: bool },
    Claim { who: u8, tick: i64, id: u64, funds: bool },
    Batch { who: u8, ids: Vec<(i64, u64)>, funds: bool },
    /// `bid`: the taker gives quote and receives base.
    Swap { who: u8, bid: bool, qty: u128, min: u128, target: Option<i64>, fee: u128, pair: Pair },
    SwapOut { who: u8, bid: bool, qty: u128 },
    Auth { who: u8, act: AuthAct },
    Gov(GovAct),
    Migrate,
    /// Storage as an older version left it: this item was never written.
    Unset(String),
    /// Orders as an older version stored them: no placement time.
    StripPlacedAt,
    /// As if this many orders had been placed (and closed) before: the next one gets this id.
    SkipIds(u64),
    /// The n-th payment of the wrapped operation is refused by the bank.
    Fault { at: u8, op: Box<Op> },
}

pub fn place(who: u8, tick: i64, bid: bool, qty: u128) -> Op {
    Op::Place { who, tick, bid, qty, bounty: None, funds: Funds::Right }
}
pub fn place_b(who: u8, tick: i64, bid: bool, qty: u128, bounty: u128) -> Op {
    Op::Place { who, tick, bid, qty, bounty: Some(bounty), funds: Funds::Right }
}
pub fn swap(bid: bool, qty: u128) -> Op {
    Op::Swap { who: 3, bid, qty, min: 0, target: None, fee: 0, pair: Pair::Normal }
}
pub fn swap_to(bid: bool, qty: u128, target: i64) -> Op {
    Op::Swap { who: 3, bid, qty, min: 0, target: Some(target), fee: 0, pair: Pair::Normal }
}
pub fn auth(who: u8, act: AuthAct) -> Op {
    Op::Auth { who, act }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MOrder {
    pub id: u64,
    pub tick: i64,
    pub bid: bool,
    pub who: u8,
    pub placed: u128,
    /// resting quantity
    pub unfilled: u128,
    /// filled but not yet claimed
    pub filled: u128,
    pub bounty: Option<u128>,
    pub at: u64,
    /// gross output paid so far and number of paying claims; maintained only in `ghost` mode
    pub paid: Uint256,
    pub nclaims: u32,
}

/// Entry of the time-priority queue of one (tick, direction).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ent {
    Live(u64),
    Gone(u128),
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Side {
    pub queue: Vec<Ent>,
    pub placed: Uint256,
    pub filled: Uint256,
    pub cancelled: Uint256,
    /// cancelled quantity with no resting quantity ahead of it any more
    pub passed: Uint256,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Model {
    pub orders: BTreeMap<u64, MOrder>,
    pub sides: BTreeMap<(i64, bool), Side>,
    pub next_id: u64,
    pub bal: [Uint256; 2],
    pub active: bool,
    pub fee: u128,
    pub recipient: Option<u8>,
    pub admin: Option<u8>,
    pub admin_offer: Option<u8>,
    pub moderator: Option<u8>,
    pub moderator_offer: Option<u8>,
    pub ghost: bool,
}

// `Uint256` has no `Hash`.
fn hu<H: Hasher>(v: &Uint256, h: &mut H) {
    v.to_be_bytes().hash(h)
}
impl Hash for MOrder {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.id, self.tick, self.bid, self.who, self.placed, self.unfilled, self.filled).hash(h);
        (self.bounty, self.at, self.nclaims).hash(h);
        hu(&self.paid, h);
    }
}
impl Hash for Side {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.queue.hash(h);
        for v in [&self.placed, &self.filled, &self.cancelled, &self.passed] {
            hu(v, h);
        }
    }
}
impl Hash for Model {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (&self.orders, &self.sides, self.next_id, self.active, self.fee, self.recipient).hash(h);
        (self.admin, self.admin_offer, self.moderator, self.moderator_offer, self.ghost).hash(h);
        hu(&self.bal[0], h);
        hu(&self.bal[1], h);
    }
}

#[derive(Clone, Debug, Default)]
pub struct ClaimX {
    pub id: u64,
    pub tick: i64,
    pub bid: bool,
    pub who: u8,
    pub filled: u128,
    pub gross: Uint256,
    pub bounty: Uint256,
    pub fee: Uint256,
    pub net: Uint256,
    pub remaining: u128,
    pub placed: u128,
    pub had_cancels: bool,
}

#[derive(Clone, Debug, Default)]
pub struct SwapX {
    pub out: Uint256,
    pub steps: Vec<(i64, u128, u128)>,
    pub refund: u128,
    pub dust: u128,
    pub left_has_value: bool,
}

/// What the model expects of an operation.
#[derive(Clone, Debug, Default)]
pub struct Expect {
    pub ok: bool,
    /// why it must fail (empty if ok)
    pub why: &'static str,
    pub pays: BTreeMap<(String, String), Uint256>,
    pub claims: Vec<ClaimX>,
    pub swap: Option<SwapX>,
    pub new_id: Option<u64>,
    pub cancelled: Option<MOrder>,
}

fn add(p: &mut BTreeMap<(String, String), Uint256>, who: u8, base: bool, a: Uint256) {
    if !a.is_zero() {
        *p.entry((ADDRS[who as usize].into(), denom(base).into())).or_insert(Uint256::zero()) += a;
    }
}

pub const BOUNTY_MAX: u128 = ONE / 100;
pub const FEE_MAX: u128 = ONE / 20;

impl Model {
    pub fn genesis() -> Model {
        Model {
            orders: BTreeMap::new(),
            sides: BTreeMap::new(),
            next_id: 0,
            bal: [Uint256::zero(); 2],
            active: true,
            fee: 0,
            recipient: Some(A_FEE),
            admin: Some(A_GOV),
            admin_offer: None,
            moderator: Some(A_MOD),
            moderator_offer: None,
            ghost: false,
        }
    }

    pub fn side(&self, tick: i64, bid: bool) -> Option<&Side> {
        self.sides.get(&(tick, bid))
    }

    /// Resting quantity of a side.
    pub fn resting(&self, tick: i64, bid: bool) -> Uint256 {
        self.orders
            .values()
            .filter(|o| o.tick == tick && o.bid == bid)
            .fold(Uint256::zero(), |a, o| a + Uint256::from(o.unfilled))
    }
    pub fn dir_total(&self, bid: bool) -> Uint256 {
        self.orders
            .values()
            .filter(|o| o.bid == bid)
            .fold(Uint256::zero(), |a, o| a + Uint256::from(o.unfilled))
    }
    pub fn best(&self, bid: bool) -> Option<i64> {
        let it = self.orders.values().filter(|o| o.bid == bid && o.unfilled > 0).map(|o| o.tick);
        if bid {
            it.max()
        } else {
            it.min()
        }
    }

    /// What the contract owes: refunds of resting quantity and claims of filled quantity.
    pub fn owed(&self) -> [Uint256; 2] {
        let mut r = [Uint256::zero(); 2];
        for o in self.orders.values() {
            // a bid gives quote (index 1) and receives base (index 0)
            let (give, get) = if o.bid { (1, 0) } else { (0, 1) };
            r[give] += Uint256::from(o.unfilled);
            r[get] += value(o.bid, o.filled, o.tick, false);
        }
        r
    }

    fn settle(&mut self, tick: i64, bid: bool) {
        let Some(s) = self.sides.get_mut(&(tick, bid)) else { return };
        let orders = &self.orders;
        let mut passed = s.passed;
        let mut n = 0;
        for e in &s.queue {
            match e {
                Ent::Gone(q) => passed += Uint256::from(*q),
                Ent::Live(id) => {
                    if orders.get(id).map_or(false, |o| o.unfilled > 0) {
                        break;
                    }
                }
            }
            n += 1;
        }
        s.queue.drain(..n);
        s.passed = passed;
    }

    /// Fills `amt` of the side in time priority.
    fn fill(&mut self, tick: i64, bid: bool, mut amt: u128) {
        let s = self.sides.get_mut(&(tick, bid)).unwrap();
        s.filled += Uint256::from(amt);
        for e in &s.queue {
            if let Ent::Live(id) = e {
                let o = self.orders.get_mut(id).unwrap();
                let f = amt.min(o.unfilled);
                o.unfilled -= f;
                o.filled += f;
                amt -= f;
                if amt == 0 {
                    break;
                }
            }
        }
        assert_eq!(amt, 0);
        self.settle(tick, bid);
    }

    /// The sweep a swap performs, without changing anything.
    pub fn sweep(&self, bid: bool, qty: u128, target: Option<i64>) -> SwapX {
        // a taker bid buys from asks, cheapest first; a taker ask sells to bids, dearest first
        let mut ticks: Vec<i64> = self
            .sides
            .keys()
            .filter(|k| k.1 != bid && !self.resting(k.0, k.1).is_zero())
            .map(|k| k.0)
            .filter(|t| target.map_or(true, |x| if bid { *t <= x } else { *t >= x }))
            .collect();
        if !bid {
            ticks.reverse();
        }
        let mut x = SwapX::default();
        let mut q = qty;
        let mut last = None;
        for t in ticks {
            last = Some(t);
            let buys = value(bid, q, t, false);
            if buys.is_zero() {
                x.dust = q;
                q = 0;
                break;
            }
            let rest = self.resting(t, !bid);
            let f = to_u128(buys.min(rest)).expect("supply bound");
            let cost = to_u128(value(!bid, f, t, true)).expect("cost bounded by input");
            assert!(cost > 0 && cost <= q);
            q -= cost;
            x.out += Uint256::from(f);
            x.steps.push((t, f, cost));
        }
        x.refund = q;
        x.left_has_value = match last {
            Some(t) => q > 0 && !value(bid, q, t, false).is_zero(),
            None => q > 0,
        };
        x
    }

    /// The inputs a taker needs to fill the queue up to the end of each resting order, in the order in which
    /// they are reached.
    pub fn edges(&self, bid: bool) -> Vec<u128> {
        let mut ticks: Vec<i64> = self.sides.keys().filter(|k| k.1 != bid && !self.resting(k.0, k.1).is_zero()).map(|k| k.0).collect();
        if !bid {
            ticks.reverse();
        }
        let mut v = vec![];
        let mut before = Uint256::zero();
        for t in ticks {
            let (mut f, mut cost) = (0u128, Uint256::zero());
            for o in self.orders.values().filter(|o| o.tick == t && o.bid != bid && o.unfilled > 0) {
                let Some(x) = f.checked_add(o.unfilled) else { return v };
                f = x;
                cost = value(!bid, f, t, true);
                v.extend(to_u128(before + cost));
            }
            before += cost;
        }
        v.dedup();
        v
    }

    fn do_claim(&mut self, who: u8, tick: i64, id: u64, pays: &mut BTreeMap<(String, String), Uint256>) -> Result<ClaimX, &'static str> {
        let o = self.orders.get(&id).filter(|o| o.tick == tick).ok_or("no such order")?;
        if o.filled == 0 {
            return Err("nothing filled");
        }
        let gross = value(o.bid, o.filled, tick, false);
        let bounty = frac(gross, o.bounty.unwrap_or(0));
        let fee = frac(gross, self.fee);
        if !fee.is_zero() && self.recipient.is_none() {
            return Err("no fee recipient");
        }
        let net = gross - bounty - fee;
        let base_out = o.bid;
        let c = ClaimX {
            id,
            tick,
            bid: o.bid,
            who: o.who,
            filled: o.filled,
            gross,
            bounty,
            fee,
            net,
            remaining: o.unfilled,
            placed: o.placed,
            had_cancels: self.side(tick, o.bid).map_or(false, |s| !s.cancelled.is_zero()),
        };
        add(pays, c.who, base_out, net);
        add(pays, who, base_out, bounty);
        if let Some(r) = self.recipient {
            add(pays, r, base_out, fee);
        }
        let bal = &mut self.bal[if base_out { 0 } else { 1 }];
        *bal -= gross;
        if self.recipient == Some(A_SELF) {
            *bal += fee;
        }
        let ghost = self.ghost;
        let o = self.orders.get_mut(&id).unwrap();
        o.filled = 0;
        if ghost {
            o.paid += gross;
            o.nclaims += 1;
        }
        if o.unfilled == 0 {
            self.orders.remove(&id);
        }
        Ok(c)
    }

    pub fn apply(&mut self, op: &Op) -> Expect {
        let fail = |why: &'static str| Expect { why, ..Default::default() };
        let mut x = Expect { ok: true, ..Default::default() };
        match op {
            Op::Place { who, tick, bid, qty, bounty, funds } => {
                if !self.active {
                    return fail("halted");
                }
                if !(MIN_TICK..=MAX_TICK).contains(tick) {
                    return fail("tick out of range");
                }
                if *qty == 0 {
                    return fail("zero quantity");
                }
                if bounty.map_or(false, |b| b > BOUNTY_MAX) {
                    return fail("bounty above 1%");
                }
                if *funds != Funds::Right {
                    return fail("funds differ from the order");
                }
                let id = self.next_id;
                self.next_id += 1;
                self.orders.insert(
                    id,
                    MOrder {
                        id,
                        tick: *tick,
                        bid: *bid,
                        who: *who,
                        placed: *qty,
                        unfilled: *qty,
                        filled: 0,
                        bounty: *bounty,
                        at: time_at(id),
                        paid: Uint256::zero(),
                        nclaims: 0,
                    },
                );
                let s = self.sides.entry((*tick, *bid)).or_default();
                s.queue.push(Ent::Live(id));
                s.placed += Uint256::from(*qty);
                self.bal[if *bid { 1 } else { 0 }] += Uint256::from(*qty);
                x.new_id = Some(id);
            }
            Op::Cancel { who, tick, id, funds } => {
                if !self.active {
                    return fail("halted");
                }
                if *funds {
                    return fail("funds attached");
                }
                let Some(o) = self.orders.get(id).filter(|o| o.tick == *tick).cloned() else {
                    return fail("no such order");
                };
                if o.who != *who {
                    return fail("not the owner");
                }
                if o.filled > 0 {
                    return fail("has unclaimed fill");
                }
                self.orders.remove(id);
                let s = self.sides.get_mut(&(*tick, o.bid)).unwrap();
                for e in s.queue.iter_mut() {
                    if *e == Ent::Live(*id) {
                        *e = Ent::Gone(o.unfilled);
                    }
                }
                s.cancelled += Uint256::from(o.unfilled);
                self.settle(*tick, o.bid);
                let q = Uint256::from(o.unfilled);
                add(&mut x.pays, o.who, !o.bid, q);
                self.bal[if o.bid { 1 } else { 0 }] -= q;
                x.cancelled = Some(o);
            }
            Op::Claim { who, tick, id, funds } => {
                if !self.active {
                    return fail("halted");
                }
                if *funds {
                    return fail("funds attached");
                }
                match self.do_claim(*who, *tick, *id, &mut x.pays) {
                    Ok(c) => x.claims.push(c),
                    Err(e) => return fail(e),
                }
            }
            Op::Batch { who, ids, funds } => {
                if !self.active {
                    return fail("halted");
                }
                if *funds {
                    return fail("funds attached");
                }
                if ids.len() > 100 {
                    return fail("more than 100 claims");
                }
                for (t, i) in ids {
                    if let Ok(c) = self.do_claim(*who, *t, *i, &mut x.pays) {
                        x.claims.push(c);
                    }
                }
            }
            Op::Swap { who, bid, qty, min, target, fee, pair } => {
                if !self.active {
                    return fail("halted");
                }
                if *fee != 0 {
                    return fail("swap fee not zero");
                }
                if *pair != Pair::Normal {
                    return fail("denoms are not the pair");
                }
                if *qty == 0 {
                    return fail("zero input");
                }
                if *who == A_BAD {
                    return fail("invalid sender");
                }
                if target.map_or(false, |t| !(MIN_TICK..=MAX_TICK).contains(&t)) {
                    return fail("target out of range");
                }
                let full = match target {
                    None => true,
                    Some(t) => *t == if *bid { MAX_TICK } else { MIN_TICK },
                };
                let s = self.sweep(*bid, *qty, *target);
                if s.left_has_value && full {
                    return fail("insufficient liquidity");
                }
                if s.out.is_zero() {
                    return fail("no output");
                }
                if s.out < Uint256::from(*min) {
                    return fail("below minimum output");
                }
                for (t, f, _) in s.steps.clone() {
                    self.fill(t, !*bid, f);
                }
                let (i, o) = if *bid { (1, 0) } else { (0, 1) };
                self.bal[i] += Uint256::from(*qty);
                self.bal[i] -= Uint256::from(s.refund);
                self.bal[o] -= s.out;
                add(&mut x.pays, *who, *bid, s.out);
                add(&mut x.pays, *who, !*bid, Uint256::from(s.refund));
                x.swap = Some(s);
            }
            Op::SwapOut { .. } => return fail("not offered"),
            Op::Auth { who, act } => return self.do_auth(*who, act),
            Op::Gov(g) => match g {
                GovAct::TransferAdmin(a) => {
                    if *a == A_BAD {
                        return fail("invalid address");
                    }
                    self.admin = Some(*a);
                    self.admin_offer = None;
                }
                GovAct::RemoveAdmin => {
                    self.admin = None;
                    self.admin_offer = None;
                }
                GovAct::SetActive(b) => self.active = *b,
            },
            Op::Migrate => {}
            Op::Unset(k) => match k.as_str() {
                "maker_fee" => self.fee = 0,
                "maker_fee_recipient" => self.recipient = None,
                "is_active" => self.active = true,
                _ => unreachable!(),
            },
            Op::StripPlacedAt => {
                for o in self.orders.values_mut() {
                    o.at = 0;
                }
            }
            Op::SkipIds(n) => self.next_id = *n,
            // the caller decides from the number of payments actually made (oracle::step)
            Op::Fault { .. } => unreachable!(),
        }
        x
    }

    fn do_auth(&mut self, who: u8, act: &AuthAct) -> Expect {
        let fail = |why: &'static str| Expect { why, ..Default::default() };
        let is_admin = self.admin == Some(who);
        let need_admin = match act {
            AuthAct::TransferAdmin(_)
            | AuthAct::CancelAdminTransfer
            | AuthAct::RenounceAdminship
            | AuthAct::OfferModerator(_)
            | AuthAct::SetMakerFee(_)
            | AuthAct::SetMakerFeeRecipient(_) => true,
            _ => false,
        };
        if need_admin && !is_admin {
            return fail("not the admin");
        }
        match act {
            AuthAct::TransferAdmin(a) => {
                if *a == A_BAD {
                    return fail("invalid address");
                }
                self.admin_offer = Some(*a)
            }
            AuthAct::CancelAdminTransfer => self.admin_offer = None,
            AuthAct::RejectAdminTransfer => {
                if self.admin_offer != Some(who) {
                    return fail("not the nominee");
                }
                self.admin_offer = None
            }
            AuthAct::ClaimAdmin => {
                if self.admin_offer != Some(who) {
                    return fail("not the nominee");
                }
                self.admin_offer = None;
                self.admin = Some(who)
            }
            AuthAct::RenounceAdminship => {
                self.admin = None;
                self.admin_offer = None
            }
            AuthAct::OfferModerator(a) => {
                if *a == A_BAD {
                    return fail("invalid address");
                }
                self.moderator_offer = Some(*a)
            }
            AuthAct::RejectModeratorOffer => {
                if self.moderator_offer != Some(who) {
                    return fail("not the nominee");
                }
                self.moderator_offer = None
            }
            AuthAct::ClaimModerator => {
                if self.moderator_offer != Some(who) {
                    return fail("not the nominee");
                }
                self.moderator_offer = None;
                self.moderator = Some(who)
            }
            AuthAct::SetActive(b) => {
                if !is_admin && self.moderator != Some(who) {
                    return fail("neither admin nor moderator");
                }
                self.active = *b
            }
            AuthAct::SetMakerFee(f) => {
                if *f > FEE_MAX {
                    return fail("fee above 5%");
                }
                self.fee = *f
            }
            AuthAct::SetMakerFeeRecipient(a) => {
                if *a == A_BAD {
                    return fail("invalid address");
                }
                self.recipient = Some(*a)
            }
        }
        Expect { ok: true, ..Default::default() }
    }
}

/// Block time is a function of the number of orders placed, so that equal books have equal storage.

pub fn dec(atomics: u128) -> String {
    format!("{}.{:018}", atomics / ONE, atomics % ONE)
}

/// Runs an operation on the real contract.
pub fn run(w: &mut World, op: &Op, next_id: u64) -> Outcome {
    run_fault(w, op, next_id, None)
}

fn run_fault(w: &mut World, op: &Op, next_id: u64, fault: Option<usize>) -> Outcome {
    w.time = time_at(next_id);
    let dir = |b: bool| if b { "bid" } else { "ask" };
    match op {
        Op::Place { who, tick, bid, qty, bounty, funds } => {
            let d = denom(!bid);
            let od = denom(*bid);
            let nz = |v: Vec<Coin>| v.into_iter().filter(|c| !c.amount.is_zero()).collect::<Vec<_>>();
            let f = nz(match funds {
                Funds::Right => vec![coin(d, *qty)],
                Funds::None => vec![],
                Funds::Short => vec![coin(d, qty.saturating_sub(1))],
                Funds::Over => vec![coin(d, qty.saturating_add(1))],
                Funds::WrongDenom => vec![coin(od, *qty)],
                Funds::TwoCoins => vec![coin(d, *qty), coin(od, *qty)],
                Funds::Foreign => vec![coin(other_denom(), *qty)],
            });
            let b = match bounty {
                Some(b) => format!("\"{}\"", dec(*b)),
                None => "null".into(),
            };
            let msg = format!(
                r#"{{"place_limit":{{"tick_id":{tick},"order_direction":"{}","quantity":"{qty}","claim_bounty":{b}}}}}"#,
                dir(*bid)
            );
            w.tx(Entry::Execute { sender: ADDRS[*who as usize], funds: f, msg }, fault)
        }
        Op::Cancel { who, tick, id, funds } => {
            let msg = format!(r#"{{"cancel_limit":{{"tick_id":{tick},"order_id":{id}}}}}"#);
            let f = if *funds { vec![coin(base_denom(), 1)] } else { vec![] };
            w.tx(Entry::Execute { sender: ADDRS[*who as usize], funds: f, msg }, fault)
        }
        Op::Claim { who, tick, id, funds } => {
            let msg = format!(r#"{{"claim_limit":{{"tick_id":{tick},"order_id":{id}}}}}"#);
            let f = if *funds { vec![coin(quote_denom(), 1)] } else { vec![] };
            w.tx(Entry::Execute { sender: ADDRS[*who as usize], funds: f, msg }, fault)
        }
        Op::Batch { who, ids, funds } => {
            let l: Vec<String> = ids.iter().map(|(t, i)| format!("[{t},{i}]")).collect();
            let msg = format!(r#"{{"batch_claim":{{"orders":[{}]}}}}"#, l.join(","));
            let f = if *funds { vec![coin(quote_denom(), 1)] } else { vec![] };
            w.tx(Entry::Execute { sender: ADDRS[*who as usize], funds: f, msg }, fault)
        }
        Op::Swap { who, bid, qty, min, target, fee, pair } => {
            let (mut din, mut dout) = (denom(!bid), denom(*bid));
            match pair {
                Pair::Normal => {}
                Pair::Same => dout = din,
                Pair::ForeignOut => dout = other_denom(),
                Pair::ForeignIn => din = other_denom(),
            }
            let common = format!(
                r#""sender":"{}","token_in":{{"denom":"{din}","amount":"{qty}"}},"token_out_denom":"{dout}","token_out_min_amount":"{min}","swap_fee":"{}""#,
                ADDRS[*who as usize],
                dec(*fee)
            );
            let msg = match target {
                None => format!(r#"{{"swap_exact_amount_in":{{{common}}}}}"#),
                Some(t) => format!(r#"{{"swap_to_tick":{{{common},"target_tick":{t}}}}}"#),
            };
            let paid_in = if *qty > 0 { vec![coin(din, *qty)] } else { vec![] };
            w.tx(Entry::Sudo { paid_in, msg }, fault)
        }
        Op::SwapOut { who, bid, qty } => {
            let (din, dout) = (denom(!bid), denom(*bid));
            let msg = format!(
                r#"{{"swap_exact_amount_out":{{"sender":"{}","token_in_denom":"{din}","token_in_max_amount":"{qty}","token_out":{{"denom":"{dout}","amount":"1"}},"swap_fee":"0"}}}}"#,
                ADDRS[*who as usize]
            );
            w.tx(Entry::Sudo { paid_in: vec![coin(din, *qty)], msg }, fault)
        }
        Op::Auth { who, act } => {
            let a = |i: &u8| ADDRS[*i as usize];
            let m = match act {
                AuthAct::TransferAdmin(x) => format!(r#"{{"transfer_admin":{{"new_admin":"{}"}}}}"#, a(x)),
                AuthAct::CancelAdminTransfer => r#"{"cancel_admin_transfer":{}}"#.into(),
                AuthAct::RejectAdminTransfer => r#"{"reject_admin_transfer":{}}"#.into(),
                AuthAct::ClaimAdmin => r#"{"claim_admin":{}}"#.into(),
                AuthAct::RenounceAdminship => r#"{"renounce_adminship":{}}"#.into(),
                AuthAct::OfferModerator(x) => format!(r#"{{"offer_moderator":{{"new_moderator":"{}"}}}}"#, a(x)),
                AuthAct::RejectModeratorOffer => r#"{"reject_moderator_offer":{}}"#.into(),
                AuthAct::ClaimModerator => r#"{"claim_moderator":{}}"#.into(),
                AuthAct::SetActive(b) => format!(r#"{{"set_active":{{"active":{b}}}}}"#),
                AuthAct::SetMakerFee(f) => format!(r#"{{"set_maker_fee":{{"fee":"{}"}}}}"#, dec(*f)),
                AuthAct::SetMakerFeeRecipient(x) => {
                    format!(r#"{{"set_maker_fee_recipient":{{"recipient":"{}"}}}}"#, a(x))
                }
            };
            let msg = format!(r#"{{"auth":{m}}}"#);
            w.tx(Entry::Execute { sender: ADDRS[*who as usize], funds: vec![], msg }, fault)
        }
        Op::Gov(g) => {
            let msg = match g {
                GovAct::TransferAdmin(x) => {
                    format!(r#"{{"transfer_admin":{{"new_admin":"{}"}}}}"#, ADDRS[*x as usize])
                }
                GovAct::RemoveAdmin => r#"{"remove_admin":{}}"#.into(),
                GovAct::SetActive(b) => format!(r#"{{"set_active":{{"active":{b}}}}}"#),
            };
            w.tx(Entry::Sudo { paid_in: vec![], msg }, fault)
        }
        Op::Migrate => w.tx(Entry::Migrate { msg: "{}".into() }, fault),
        Op::Unset(k) => {
            use cosmwasm_std::Storage;
            w.store.remove(k.as_bytes());
            Outcome::Ok(Effects::default())
        }
        Op::StripPlacedAt => {
            strip_placed_at(w);
            Outcome::Ok(Effects::default())
        }
        Op::SkipIds(n) => {
            use cosmwasm_std::Storage;
            if w.store.get(ID_KEY).is_some() {
                w.store.set(ID_KEY, n.to_string().as_bytes());
            }
            Outcome::Ok(Effects::default())
        }
        Op::Fault { at, op } => run_fault(w, op, next_id, Some(*at as usize)),
    }
}

const ID_KEY: &[u8] = b"order_id";

/// Whether the number of orders placed is kept where `SkipIds` expects it.
pub fn can_skip_ids() -> bool {
    use cosmwasm_std::Storage;
    let Ok(mut w) = World::genesis() else { return false };
    (0..2).all(|i| {
        run(&mut w, &place(0, 0, true, 1), i);
        w.store.get(ID_KEY).as_deref() == Some((i + 1).to_string().as_bytes())
    })
}

/// Rewrites every stored record that carries `placed_at` without it.
pub fn strip_placed_at(w: &mut World) {
    use cosmwasm_std::Storage;
    let mut ch = vec![];
    for (k, v) in w.store.map.iter() {
        if let Ok(serde_json::Value::Object(mut o)) = serde_json::from_slice(v) {
            if o.remove("placed_at").is_some() {
                ch.push((k.to_vec(), serde_json::to_vec(&o).unwrap()));
            }
        }
    }
    for (k, v) in ch {
        w.store.set(&k, &v);
    }
}

#[allow(dead_code)]
pub fn price_dec(t: i64) -> String {
    dec(price::price(t))
}
