//! Which profiles and oracles decide which property, and which disagreements break it.
use crate::explore::*;
use crate::model::*;
use crate::oracle::*;
use crate::price::{MAX_TICK, MIN_TICK, ONE};
use crate::world::*;
use std::sync::Arc;

/// Operations offered in every state.
#[derive(Clone, Default)]
pub struct Menu {
    pub places: Vec<Op>,
    pub max_orders: u64,
    pub swaps: Vec<Op>,
    pub cancel: bool,
    /// who claims; 255 stands for the order's owner
    pub claim: Vec<u8>,
    /// 0 none, 1 everything at once, 2 also every ordered pair and a batch with dead entries
    pub batch: u8,
    pub fixed: Vec<Op>,
    /// also offer operations that must be refused
    pub invalid: bool,
    /// also offer every swap with the exact minimum and with one more
    pub mins: bool,
    /// also offer swaps that end exactly at, just before and just behind the end of each resting order, without
    /// and with each live level as the target
    pub edges: bool,
}

pub const OWNER: u8 = 255;

pub fn gen(menu: Menu) -> Gen {
    Arc::new(move |m: &Model| {
        let mut v = vec![];
        if m.next_id < menu.max_orders {
            v.extend(menu.places.iter().cloned());
        }
        v.extend(menu.swaps.iter().cloned());
        if menu.mins {
            for s in &menu.swaps {
                if let Op::Swap { who, bid, qty, target, fee, pair, .. } = s {
                    if let Some(out) = crate::price::to_u128(m.sweep(*bid, *qty, *target).out) {
                        for min in [out, out.saturating_add(1)] {
                            v.push(Op::Swap { who: *who, bid: *bid, qty: *qty, min, target: *target, fee: *fee, pair: pair.clone() });
                        }
                    }
                }
            }
        }
        if menu.edges {
            for bid in [true, false] {
                let e = m.edges(bid);
                let mut q: Vec<u128> = e.iter().flat_map(|x| [x - 1, *x, x.saturating_add(1)]).filter(|x| *x > 0).collect();
                q.sort_unstable();
                q.dedup();
                v.extend(q.iter().map(|q| swap(bid, *q)));
                if let Some(l) = e.last() {
                    let mut ticks: Vec<i64> = m.orders.values().filter(|o| o.bid != bid).map(|o| o.tick).collect();
                    ticks.sort_unstable();
                    ticks.dedup();
                    v.extend(ticks.into_iter().map(|t| swap_to(bid, *l, t)));
                }
            }
        }
        for o in m.orders.values() {
            if menu.cancel {
                v.push(Op::Cancel { who: o.who, tick: o.tick, id: o.id, funds: false });
            }
            for c in &menu.claim {
                let who = if *c == OWNER { o.who } else { *c };
                v.push(Op::Claim { who, tick: o.tick, id: o.id, funds: false });
            }
        }
        let all: Vec<(i64, u64)> = m.orders.values().map(|o| (o.tick, o.id)).collect();
        if menu.batch > 0 && !all.is_empty() {
            v.push(Op::Batch { who: 3, ids: all.clone(), funds: false });
        }
        if menu.batch > 1 {
            for a in &all {
                for b in &all {
                    v.push(Op::Batch { who: 3, ids: vec![*a, *b], funds: false });
                }
            }
            let mut rev = all.clone();
            rev.reverse();
            let mut dead = vec![(77, 0), (0, 9_999)];
            dead.extend(rev);
            dead.push((5_000_000, 1));
            v.push(Op::Batch { who: 0, ids: dead, funds: false });
        }
        v.extend(menu.fixed.iter().cloned());
        if menu.invalid {
            invalid(&menu, m, &mut v);
        }
        v
    })
}

fn invalid(menu: &Menu, m: &Model, v: &mut Vec<Op>) {
    for p in &menu.places {
        if let Op::Place { who, tick, bid, qty, bounty, .. } = p {
            for funds in [Funds::None, Funds::Short, Funds::Over, Funds::WrongDenom, Funds::TwoCoins, Funds::Foreign] {
                v.push(Op::Place { who: *who, tick: *tick, bid: *bid, qty: *qty, bounty: *bounty, funds });
            }
            v.push(Op::Place { who: *who, tick: *tick, bid: *bid, qty: 0, bounty: *bounty, funds: Funds::Right });
        }
    }
    for t in [MIN_TICK - 1, MAX_TICK + 1, i64::MIN, i64::MAX] {
        v.push(place(0, t, true, 5));
        v.push(place(0, t, false, 5));
    }
    for b in [BOUNTY_MAX + 1, ONE / 50, ONE, ONE + 1] {
        v.push(place_b(0, 0, true, 5, b));
        v.push(place_b(0, 0, false, 5, b));
    }
    let ticks: Vec<i64> = {
        let mut t: Vec<i64> = m.sides.keys().map(|k| k.0).collect();
        t.dedup();
        t
    };
    for id in 0..=m.next_id {
        for t in &ticks {
            match m.orders.get(&id) {
                Some(o) if o.tick == *t => {
                    for who in [0u8, 1, 2, A_GOV, A_MOD] {
                        if who != o.who {
                            v.push(Op::Cancel { who, tick: *t, id, funds: false });
                        }
                    }
                    v.push(Op::Cancel { who: o.who, tick: *t, id, funds: true });
                    v.push(Op::Claim { who: o.who, tick: *t, id, funds: true });
                    v.push(Op::Batch { who: o.who, ids: vec![(*t, id)], funds: true });
                }
                _ => {
                    for who in [0u8, 1] {
                        v.push(Op::Cancel { who, tick: *t, id, funds: false });
                        v.push(Op::Claim { who, tick: *t, id, funds: false });
                    }
                }
            }
        }
    }
    v.push(Op::Claim { who: 0, tick: 123, id: 0, funds: false });
    v.push(Op::Cancel { who: 0, tick: 123, id: 0, funds: false });
    for bid in [true, false] {
        let s = |qty: u128, min: u128, target: Option<i64>, fee: u128, pair: Pair| Op::Swap { who: 3, bid, qty, min, target, fee, pair };
        for pair in [Pair::Same, Pair::ForeignOut, Pair::ForeignIn] {
            v.push(s(2, 0, None, 0, pair.clone()));
            v.push(s(2, 0, Some(0), 0, pair));
        }
        v.push(s(0, 0, None, 0, Pair::Normal));
        v.push(s(0, 0, Some(0), 0, Pair::Normal));
        for fee in [1, ONE / 1000, ONE] {
            v.push(s(2, 0, None, fee, Pair::Normal));
            v.push(s(2, 0, Some(0), fee, Pair::Normal));
        }
        for t in [MIN_TICK - 1, MAX_TICK + 1, i64::MIN, i64::MAX] {
            v.push(s(2, 0, Some(t), 0, Pair::Normal));
        }
        v.push(Op::SwapOut { who: 3, bid, qty: 2 });
        // the tightest and the first impossible minimum
        for (q, target) in [(2u128, None), (3, Some(0)), (4, None)] {
            let sw = m.sweep(bid, q, target);
            if let Some(out) = crate::price::to_u128(sw.out) {
                v.push(s(q, out, target, 0, Pair::Normal));
                v.push(s(q, out.saturating_add(1), target, 0, Pair::Normal));
                v.push(s(q, u128::MAX, target, 0, Pair::Normal));
            }
        }
        v.push(Op::Swap { who: A_BAD, bid, qty: 2, min: 0, target: None, fee: 0, pair: Pair::Normal });
    }
    let too_many: Vec<(i64, u64)> = (0..101).map(|i| (ticks.first().cloned().unwrap_or(0), i % 3)).collect();
    v.push(Op::Batch { who: 0, ids: too_many, funds: false });
    if let Some(o) = m.orders.values().next() {
        for n in [100, 101] {
            v.push(Op::Batch { who: 0, ids: vec![(o.tick, o.id); n], funds: false });
        }
    }
    v.push(Op::Batch { who: 0, ids: vec![], funds: false });
    // the ends of what is accepted
    if m.next_id < menu.max_orders {
        for (t, bid) in [(MIN_TICK, true), (MIN_TICK, false), (MAX_TICK, true), (MAX_TICK, false)] {
            v.push(place(1, t, bid, 2));
        }
        for b in [0, 1, BOUNTY_MAX - 1, BOUNTY_MAX] {
            v.push(place_b(0, T1, true, 1, b));
        }
    }
}

// ticks with simple prices
pub const T1: i64 = 0; // 1
pub const T1_5: i64 = 500_000; // 1.5
pub const T2_5: i64 = 1_500_000; // 2.5
pub const T0_5: i64 = -5_000_000; // 0.5
pub const T0_3: i64 = -7_000_000; // 0.3
pub const T0_7: i64 = -3_000_000; // 0.7

fn pr(name: &str, setup: Vec<Op>, menu: Menu, depth: usize, cap: usize) -> Profile {
    Profile { name: name.into(), setup, ghost: false, ops: gen(menu), base: vec![], depth, cap }
}
fn ghost(mut p: Profile) -> Profile {
    p.ghost = true;
    p
}
fn d(thorough: bool, q: usize, t: usize) -> usize {
    if thorough {
        t
    } else {
        q
    }
}
const CAP: usize = 1_500_000;

fn swaps(bid: bool, qs: &[u128]) -> Vec<Op> {
    qs.iter().map(|q| swap(bid, *q)).collect()
}

/// Swaps that take exactly these amounts from a level.
fn takes(tick: i64, bid: bool, fs: &[u128]) -> Vec<Op> {
    let mut v: Vec<u128> = fs.iter().filter_map(|f| crate::price::to_u128(crate::price::value(bid, *f, tick, true))).collect();
    v.dedup();
    v.into_iter().map(|q| swap(!bid, q)).collect()
}

/// One price level, orders come and go.
pub fn core1(tick: i64, bid: bool, depth: usize) -> Profile {
    pr(
        &format!("one-level tick={tick} {}", if bid { "bids" } else { "asks" }),
        vec![],
        Menu {
            places: vec![place(0, tick, bid, 3), place(1, tick, bid, 2)],
            max_orders: 4,
            swaps: takes(tick, bid, &[1, 2, 4]),
            cancel: true,
            claim: vec![OWNER],
            batch: 1,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Several price levels on both sides, including a crossed book.
pub fn core2(depth: usize) -> Profile {
    let mut sw = swaps(true, &[1, 4, 9]);
    sw.extend(swaps(false, &[1, 4, 9]));
    sw.push(swap_to(true, 7, T1));
    sw.push(swap_to(false, 7, T1));
    pr(
        "two-sided three-levels",
        vec![],
        Menu {
            places: vec![
                place(0, T1, false, 3),
                place(1, T1_5, false, 4),
                place(0, T1, true, 3),
                place(1, T0_5, true, 4),
                place(2, T1_5, true, 5),
            ],
            max_orders: 4,
            swaps: sw,
            cancel: true,
            claim: vec![OWNER],
            batch: 0,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Three odd-priced levels a side; every swap ends at, before or behind the end of some order.
pub fn edgy(t: [i64; 3], k: u128, depth: usize) -> Profile {
    pr(
        &format!("order edges ticks={t:?} unit={k}"),
        vec![],
        Menu {
            places: vec![
                place(0, t[1], false, 3 * k),
                place(1, t[2], false, 4 * k + 1),
                place(2, t[1], true, 2 * k + 1),
                place(0, t[0], true, 5 * k),
            ],
            max_orders: 4,
            edges: true,
            cancel: true,
            claim: vec![OWNER],
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Makers who trade against themselves, and administrators and fee recipients who trade, by different clocks.
pub fn insiders(clock: usize, depth: usize) -> Profile {
    let by = |who: u8, s: Op| match s {
        Op::Swap { bid, qty, min, target, fee, pair, .. } => Op::Swap { who, bid, qty, min, target, fee, pair },
        o => o,
    };
    pr(
        &format!("insiders clock={clock}"),
        vec![auth(A_GOV, AuthAct::SetMakerFee(FEE_MAX))],
        Menu {
            places: vec![
                place_b(A_GOV, T1, false, 301, BOUNTY_MAX),
                place(A_FEE, T1, true, 200),
                place_b(A_MOD, T1_5, true, 250, ONE / 321),
                place(0, T1, false, 77),
            ],
            max_orders: 4,
            swaps: vec![
                by(A_GOV, swap(true, 301)),
                by(0, swap(true, 350)),
                by(A_FEE, swap(false, 120)),
                by(A_MOD, swap_to(false, 400, T1)),
                by(1, swap(false, 33)),
            ],
            cancel: true,
            claim: vec![OWNER, A_GOV, A_MOD, 1],
            batch: 1,
            ..Default::default()
        },
        depth,
        CAP,
    )
}
fn insides(depth: usize) -> Vec<Profile> {
    (0..N_CLOCKS).map(|k| insiders(k, depth)).collect()
}

/// A queue of n orders already resting on one level, then everything that can happen to it.
pub fn queue(tick: i64, bid: bool, sizes: &[u128], sw: &[u128], depth: usize) -> Profile {
    pr(
        &format!("queue of {} on tick={tick} {}", sizes.len(), if bid { "bids" } else { "asks" }),
        sizes.iter().enumerate().map(|(i, q)| place((i % 3) as u8, tick, bid, *q)).collect(),
        Menu {
            places: vec![place(0, tick, bid, 2)],
            max_orders: sizes.len() as u64 + 1,
            swaps: takes(tick, bid, sw),
            cancel: true,
            claim: vec![OWNER],
            batch: 0,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Cancels in every order, with a few fills in between.
pub fn tree(tick: i64, bid: bool, sizes: &[u128], sw: &[u128], depth: usize) -> Profile {
    let mut p = queue(tick, bid, sizes, sw, depth);
    p.name = format!("cancel-orders n={} tick={tick} {}", sizes.len(), if bid { "bids" } else { "asks" });
    p.ops = gen(Menu { swaps: takes(tick, bid, sw), cancel: true, batch: 0, ..Default::default() });
    p
}

/// Fees and bounties that leave remainders.
pub fn fees(bid: bool, tick: i64, fee: u128, depth: usize) -> Profile {
    pr(
        &format!("fees tick={tick} {} fee={}", if bid { "bids" } else { "asks" }, dec(fee)),
        vec![auth(A_GOV, AuthAct::SetMakerFee(fee)), auth(A_GOV, AuthAct::SetMakerFeeRecipient(4))],
        Menu {
            places: vec![
                place_b(0, tick, bid, 333, BOUNTY_MAX),
                place_b(1, tick, bid, 1001, ONE / 333),
                place(2, tick, bid, 97),
            ],
            max_orders: 3,
            swaps: takes(tick, bid, &[1, 150, 777]),
            cancel: true,
            claim: vec![OWNER, 3, 4],
            batch: 1,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Small amounts at prices that do not divide them.
pub fn dust(depth: usize) -> Profile {
    let mut sw = swaps(true, &[1, 2, 3, 5, 8]);
    sw.extend(swaps(false, &[1, 2, 3, 5, 8]));
    pr(
        "indivisible prices",
        vec![],
        Menu {
            places: vec![
                place(0, T0_3, false, 5),
                place(1, T0_7, false, 4),
                place(0, T2_5, false, 3),
                place(1, T0_7, true, 5),
                place(2, T0_3, true, 2),
            ],
            max_orders: 4,
            swaps: sw,
            cancel: false,
            claim: vec![OWNER],
            batch: 0,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// One order nibbled at: many partial claims.
pub fn nibble(bid: bool, tick: i64, depth: usize) -> Profile {
    pr(
        &format!("partial claims tick={tick} {}", if bid { "bids" } else { "asks" }),
        vec![place(0, tick, bid, 9), place(1, tick, bid, 7)],
        Menu { swaps: takes(tick, bid, &[1, 2, 4]), cancel: true, claim: vec![OWNER, 3], batch: 1, ..Default::default() },
        depth,
        CAP,
    )
}

/// Refused operations offered in every state.
pub fn invalids(depth: usize) -> Profile {
    pr(
        "refusals",
        vec![],
        Menu {
            places: vec![place(0, T1, true, 3), place(1, T1_5, false, 4)],
            max_orders: 2,
            swaps: vec![swap(true, 2), swap(true, 3), swap(false, 2), swap(false, 3)],
            cancel: true,
            claim: vec![OWNER],
            batch: 1,
            invalid: true,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// The ends of the tick range and of the number range.
pub fn extremes(thorough: bool) -> Vec<Profile> {
    let mut v = vec![];
    let amounts: [u128; 6] = [1, 1_000_003, 1 << 64, 10u128.pow(30) + 7, 1 << 127, u128::MAX];
    let ticks = [MIN_TICK, MIN_TICK + 1, -9_000_001, T1, 8_999_999, 162_000_000, 162_000_001, 171_000_123, MAX_TICK - 1, MAX_TICK];
    for bid in [true, false] {
        for t in ticks {
            for a in amounts {
                // one large order, a unit order behind or before it
                for flip in [false, true] {
                    let rest = if a == u128::MAX { vec![place(0, t, bid, a)] } else if flip {
                        vec![place(1, t, bid, 1), place(0, t, bid, a)]
                    } else {
                        vec![place(0, t, bid, a), place(1, t, bid, 1)]
                    };
                    if a == u128::MAX && flip {
                        continue;
                    }
                    let full = crate::price::value(bid, a, t, true);
                    let mut qs: Vec<u128> = vec![1, 1_000_003, 1 << 100, u128::MAX];
                    if let Some(f) = crate::price::to_u128(full) {
                        qs.extend([f.saturating_sub(1), f, f.saturating_add(1), f / 2, f / 3]);
                    }
                    qs.retain(|q| *q > 0);
                    qs.sort();
                    qs.dedup();
                    v.push(pr(
                        &format!("extreme tick={t} {} amount={a} flip={flip}", if bid { "bid" } else { "ask" }),
                        rest,
                        Menu { swaps: swaps(!bid, &qs), cancel: true, claim: vec![3], batch: 0, ..Default::default() },
                        d(thorough, 3, 4),
                        CAP,
                    ));
                }
            }
        }
    }
    v
}

/// All role and switch operations by everyone who could try; explored to the end.
pub fn roles_fsm(with_bad: bool) -> Profile {
    let mut ops = vec![];
    let who = [A_GOV, A_MOD, 0u8, 1u8];
    let nominees: Vec<u8> = if with_bad { vec![0, 1, A_BAD] } else { vec![0, 1] };
    for w in who {
        for n in &nominees {
            ops.push(auth(w, AuthAct::TransferAdmin(*n)));
            ops.push(auth(w, AuthAct::OfferModerator(*n)));
        }
        for a in [
            AuthAct::CancelAdminTransfer,
            AuthAct::RejectAdminTransfer,
            AuthAct::ClaimAdmin,
            AuthAct::RenounceAdminship,
            AuthAct::RejectModeratorOffer,
            AuthAct::ClaimModerator,
            AuthAct::SetActive(true),
            AuthAct::SetActive(false),
            AuthAct::SetMakerFee(0),
            AuthAct::SetMakerFee(FEE_MAX),
        ] {
            ops.push(auth(w, a));
        }
    }
    ops.extend([
        Op::Gov(GovAct::SetActive(true)),
        Op::Gov(GovAct::SetActive(false)),
        Op::Gov(GovAct::RemoveAdmin),
        Op::Gov(GovAct::TransferAdmin(0)),
        Op::Gov(GovAct::TransferAdmin(A_GOV)),
        Op::Gov(GovAct::TransferAdmin(A_BAD)),
    ]);
    pr("roles, to closure", vec![], Menu { fixed: ops, ..Default::default() }, 40, CAP)
}

pub fn fee_gov(depth: usize) -> Profile {
    let mut ops = vec![];
    for w in [A_GOV, A_MOD, 0u8] {
        for f in [0, 1, ONE / 1000, FEE_MAX - 1, FEE_MAX, FEE_MAX + 1, ONE / 10, ONE, u128::MAX] {
            ops.push(auth(w, AuthAct::SetMakerFee(f)));
        }
        for r in [4u8, 2, A_BAD] {
            ops.push(auth(w, AuthAct::SetMakerFeeRecipient(r)));
        }
    }
    pr(
        "fee changes between claims",
        vec![place(0, T1_5, false, 1000), place_b(1, T1_5, false, 1000, BOUNTY_MAX), swap(true, 700)],
        Menu { fixed: ops, swaps: swaps(true, &[900]), claim: vec![3], batch: 1, ..Default::default() },
        depth,
        CAP,
    )
}

/// Trading with the switch being flipped.
pub fn switching(depth: usize) -> Profile {
    pr(
        "trading while switching",
        vec![place(0, T1, false, 5), place(1, T1, true, 5)],
        Menu {
            places: vec![place(0, T1, true, 2), place(1, T1_5, false, 3)],
            max_orders: 3,
            swaps: vec![swap(true, 2), swap(false, 2), swap_to(true, 3, T1_5)],
            cancel: true,
            claim: vec![OWNER],
            batch: 1,
            fixed: vec![
                Op::Gov(GovAct::SetActive(true)),
                Op::Gov(GovAct::SetActive(false)),
                auth(A_GOV, AuthAct::SetActive(true)),
                auth(A_GOV, AuthAct::SetActive(false)),
                auth(A_MOD, AuthAct::SetActive(true)),
                auth(A_MOD, AuthAct::SetActive(false)),
                auth(0, AuthAct::SetActive(true)),
                auth(0, AuthAct::SetActive(false)),
            ],
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// A book an older version left behind: optional items never written.
pub fn upgraded(depth: usize) -> Profile {
    pr(
        "upgraded storage",
        vec![place(0, T1, false, 500), place_b(1, T1, false, 300, BOUNTY_MAX), place(2, T0_5, true, 400), swap(true, 250)],
        Menu {
            places: vec![place(0, T1, false, 70)],
            max_orders: 4,
            swaps: vec![swap(true, 300), swap(false, 99)],
            cancel: true,
            claim: vec![OWNER],
            batch: 1,
            fixed: vec![
                Op::Unset("maker_fee".into()),
                Op::Unset("maker_fee_recipient".into()),
                Op::Unset("is_active".into()),
                Op::StripPlacedAt,
                Op::Migrate,
                auth(A_GOV, AuthAct::SetMakerFee(FEE_MAX)),
                auth(A_GOV, AuthAct::SetMakerFeeRecipient(4)),
                auth(A_MOD, AuthAct::SetActive(false)),
                Op::Gov(GovAct::SetActive(true)),
            ],
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Interleaved batches, pairs and dead entries.
pub fn batches(depth: usize) -> Profile {
    pr(
        "batches",
        vec![
            auth(A_GOV, AuthAct::SetMakerFee(ONE / 100)),
            place(0, T1_5, false, 200),
            place_b(1, T1_5, false, 101, BOUNTY_MAX),
            place(0, T0_5, true, 300),
        ],
        Menu {
            places: vec![place(2, T1_5, false, 50)],
            max_orders: 4,
            swaps: vec![swap(true, 90), swap(true, 360), swap(false, 70)],
            cancel: true,
            claim: vec![3],
            batch: 2,
            fixed: vec![Op::Unset("maker_fee_recipient".into()), auth(A_GOV, AuthAct::SetMakerFeeRecipient(4))],
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// More than a hundred orders.
pub fn crowd(n: u64, depth: usize) -> Profile {
    let mut setup = vec![];
    for i in 0..n {
        let t = if i % 2 == 0 { T1 } else { T1_5 };
        setup.push(place((i % 2) as u8, t, false, 2));
    }
    setup.push(swap(true, n as u128 * 2));
    let ids: Vec<(i64, u64)> = (0..n).map(|i| (if i % 2 == 0 { T1 } else { T1_5 }, i)).collect();
    let cut = |k: usize| Op::Batch { who: 3, ids: ids[..k.min(ids.len())].to_vec(), funds: false };
    // long lists in which most entries cannot be claimed, for one reason or for all of them in turn
    let (first, second) = (ids[0], ids[1]);
    let void = [(T1, 9_999), (123, 0), (MAX_TICK + 1, 1), (T1_5, ids[0].1)];
    let mut fixed = vec![cut(1), cut(99), cut(100), cut(101), cut(n as usize), swap(true, 5)];
    let mut mixed = |f: &dyn Fn(usize) -> (i64, u64)| fixed.push(Op::Batch { who: 3, ids: (0..100).map(f).collect(), funds: false });
    for v in void {
        mixed(&|k| if k == 99 { first } else { v });
    }
    mixed(&|k| if k == 99 { second } else { first });
    mixed(&|k| if k % 10 == 9 { ids[k.min(ids.len() - 1)] } else { void[k % 4] });
    mixed(&|k| if k % 2 == 1 { ids[k.min(ids.len() - 1)] } else { void[k / 2 % 4] });
    pr(
        &format!("crowd of {n}"),
        setup,
        Menu { fixed, ..Default::default() },
        depth,
        CAP,
    )
}

/// A level where orders rest that were placed before and after very many others.
pub fn late(last: u64, tick: i64, bid: bool, depth: usize) -> Profile {
    pr(
        &format!("after {last} orders tick={tick} {}", if bid { "bids" } else { "asks" }),
        vec![place(0, tick, bid, 2), place(1, tick, bid, 3), Op::SkipIds(last)],
        Menu {
            places: vec![place(0, tick, bid, 3), place(2, tick, !bid, 2)],
            max_orders: last + 4,
            swaps: takes(tick, bid, &[1, 3, 6]),
            cancel: true,
            claim: vec![OWNER],
            batch: 1,
            ..Default::default()
        },
        depth,
        CAP,
    )
}
fn lates(depth: usize) -> Vec<Profile> {
    if !can_skip_ids() {
        return vec![];
    }
    vec![
        late((1 << 8) - 2, T1_5, true, depth),
        late((1 << 16) - 2, T0_7, false, depth),
        late((1 << 31) - 2, T1, false, depth),
        late((1 << 32) - 2, T1_5, true, depth),
        late((1 << 53) - 2, T0_7, false, depth),
        late((1 << 63) - 2, T1, true, depth),
    ]
}

/// As `core1`, with amounts in units of k (and off by one from them).
pub fn core1k(tick: i64, bid: bool, k: u128, depth: usize) -> Profile {
    let sw = takes(tick, bid, &[k, k + 1, 2 * k, 3 * k - 1, 4 * k]);
    pr(
        &format!("one-level tick={tick} {} unit={k}", if bid { "bids" } else { "asks" }),
        vec![],
        Menu {
            places: vec![place(0, tick, bid, 3 * k), place(1, tick, bid, 2 * k + 1)],
            max_orders: 4,
            swaps: sw,
            cancel: true,
            claim: vec![OWNER],
            batch: 1,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Two levels far from one, amounts chosen so that the value of both tokens matters.
pub fn far(lo: i64, hi: i64, ask_q: u128, bid_q: u128, depth: usize) -> Profile {
    let vb = |q: u128, t: i64| crate::price::to_u128(crate::price::value(false, q, t, true)).unwrap_or(1).max(1);
    let va = |q: u128, t: i64| crate::price::to_u128(crate::price::value(true, q, t, true)).unwrap_or(1).max(1);
    let mut sw = vec![];
    for q in [vb(ask_q, hi) / 3 + 1, vb(ask_q, hi), vb(ask_q, hi) * 2 + 1] {
        sw.push(swap(true, q));
    }
    for q in [va(bid_q, lo) / 3 + 1, va(bid_q, lo), va(bid_q, lo) * 2 + 1] {
        sw.push(swap(false, q));
    }
    pr(
        &format!("far levels {lo} {hi}"),
        vec![],
        Menu {
            places: vec![
                place(0, hi, false, ask_q),
                place(1, hi + 1, false, ask_q / 2 + 1),
                place(0, lo, true, bid_q),
                place(1, lo - 1, true, bid_q / 2 + 1),
            ],
            max_orders: 4,
            swaps: sw,
            cancel: true,
            claim: vec![OWNER],
            batch: 0,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Bids and asks resting on one and the same level.
pub fn shared(tick: i64, depth: usize) -> Profile {
    let mut sw = takes(tick, false, &[1, 2, 5]);
    sw.extend(takes(tick, true, &[1, 2, 5]));
    pr(
        &format!("both directions on tick={tick}"),
        vec![],
        Menu {
            places: vec![place(0, tick, true, 3), place(1, tick, false, 2), place(0, tick, false, 3), place(2, tick, true, 2)],
            max_orders: 4,
            swaps: sw,
            cancel: true,
            claim: vec![OWNER],
            batch: 1,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Which level is best changes all the time.
pub fn pointer(depth: usize) -> Profile {
    pr(
        "best level moving",
        vec![],
        Menu {
            places: vec![
                place(0, T0_5, true, 2),
                place(1, T1, true, 2),
                place(0, T1_5, false, 2),
                place(1, T2_5, false, 2),
                place(1, T0_7, false, 2),
            ],
            max_orders: 5,
            swaps: vec![swap(true, 2), swap(false, 2), swap(true, 6), swap(false, 6)],
            cancel: true,
            claim: vec![],
            batch: 0,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Swaps to every level at and around the resting ones, with tight minimums.
pub fn targets(depth: usize) -> Profile {
    let levels = [T2_5, T1_5, T1, T0_7, T0_5, T0_3];
    let mut sw = vec![];
    for bid in [true, false] {
        for q in [2u128, 9, 40] {
            sw.push(swap(bid, q));
            for t in levels {
                for t in [t - 1, t, t + 1] {
                    sw.push(swap_to(bid, q, t));
                }
            }
            for t in [MIN_TICK, MIN_TICK + 1, MAX_TICK - 1, MAX_TICK] {
                sw.push(swap_to(bid, q, t));
            }
        }
    }
    pr(
        "targets",
        vec![
            place(0, T1, false, 4),
            place(1, T1_5, false, 5),
            place(2, T2_5, false, 3),
            place(0, T0_7, true, 4),
            place(1, T0_5, true, 5),
            place(2, T0_3, true, 3),
        ],
        Menu {
            places: vec![place(0, T0_7, false, 3), place(1, T1, true, 3)],
            max_orders: 7,
            swaps: sw,
            cancel: true,
            claim: vec![],
            batch: 0,
            mins: true,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Owner, claimer and fee recipient are the same or different people.
pub fn coincide(bid: bool, tick: i64, k: u128, depth: usize) -> Profile {
    let rec = |w: u8| auth(A_GOV, AuthAct::SetMakerFeeRecipient(w));
    pr(
        &format!("coinciding parties tick={tick} {} unit={k}", if bid { "bids" } else { "asks" }),
        vec![auth(A_GOV, AuthAct::SetMakerFee(FEE_MAX)), rec(0)],
        Menu {
            places: vec![place_b(0, tick, bid, 211 * k, BOUNTY_MAX), place_b(1, tick, bid, 307 * k + 1, BOUNTY_MAX), place(0, tick, bid, 103 * k)],
            max_orders: 3,
            swaps: takes(tick, bid, &[100 * k, 400 * k]),
            cancel: true,
            claim: vec![0, 1, 3],
            batch: 1,
            fixed: vec![rec(0), rec(1), rec(3), rec(A_SELF), auth(A_GOV, AuthAct::SetMakerFee(ONE / 777)), auth(A_GOV, AuthAct::SetMakerFee(0))],
            ..Default::default()
        },
        depth,
        CAP,
    )
}

/// Fees and bounties on amounts of a few units.
pub fn fees_small(bid: bool, tick: i64, depth: usize) -> Profile {
    pr(
        &format!("small fees tick={tick} {}", if bid { "bids" } else { "asks" }),
        vec![auth(A_GOV, AuthAct::SetMakerFee(FEE_MAX))],
        Menu {
            places: vec![place_b(0, tick, bid, 21, BOUNTY_MAX), place_b(1, tick, bid, 101, BOUNTY_MAX), place_b(1, tick, bid, 1, BOUNTY_MAX)],
            max_orders: 3,
            swaps: takes(tick, bid, &[1, 20, 99]),
            cancel: true,
            claim: vec![3],
            batch: 1,
            ..Default::default()
        },
        depth,
        CAP,
    )
}

fn guided(name: &str, setup: Vec<Op>, base: Vec<Op>, menu: Menu, dev: usize) -> Profile {
    let mut p = pr(name, setup, menu, dev, CAP);
    p.base = base;
    p
}
fn cl(who: u8, tick: i64, id: u64) -> Op {
    Op::Claim { who, tick, id, funds: false }
}
fn ca(who: u8, tick: i64, id: u64) -> Op {
    Op::Cancel { who, tick, id, funds: false }
}

/// A long life of one level, with up to `dev` extra operations anywhere in it.
pub fn life(tick: i64, bid: bool, dev: usize) -> Profile {
    let t = tick;
    let b = |f: u128| takes(tick, bid, &[f]).remove(0);
    guided(
        &format!("life of level {tick} {}", if bid { "bids" } else { "asks" }),
        vec![],
        vec![
            place(0, t, bid, 5),
            place(1, t, bid, 3),
            place(2, t, bid, 4),
            b(4),
            ca(1, t, 1),
            cl(3, t, 0),
            place(0, t, bid, 6),
            b(5),
            cl(0, t, 0),
            ca(0, t, 3),
            place(1, t, bid, 2),
            cl(2, t, 2),
            ca(2, t, 2),
            b(2),
            cl(1, t, 4),
            place(2, t, bid, 3),
            b(2),
        ],
        Menu {
            places: vec![place(1, t, bid, 2)],
            max_orders: 9,
            swaps: takes(tick, bid, &[1, 3, 7]),
            cancel: true,
            claim: vec![OWNER],
            batch: 1,
            ..Default::default()
        },
        dev,
    )
}

/// A long life of a two-sided book.
pub fn life2(dev: usize) -> Profile {
    guided(
        "life of a two-sided book",
        vec![],
        vec![
            place(0, T1_5, false, 6),
            place(1, T1, false, 4),
            place(2, T0_7, true, 5),
            place(0, T0_5, true, 8),
            swap(true, 7),
            swap(false, 5),
            place(1, T1, true, 5),
            ca(0, T1_5, 0),
            cl(3, T1_5, 0),
            ca(0, T1_5, 0),
            swap(false, 9),
            place(2, T0_7, false, 3),
            cl(0, T1, 1),
            swap_to(true, 6, T0_7),
            cl(0, T0_7, 2),
            ca(2, T0_7, 5),
            place(1, T2_5, false, 7),
            swap(true, 5),
        ],
        Menu {
            places: vec![place(0, T1, false, 3), place(1, T0_7, true, 3)],
            max_orders: 9,
            swaps: vec![swap(true, 3), swap(false, 3), swap(true, 11), swap_to(false, 8, T1)],
            cancel: true,
            claim: vec![OWNER],
            batch: 1,
            ..Default::default()
        },
        dev,
    )
}

/// Bids and asks of one level, filled and cancelled alternately.
pub fn life_shared(tick: i64, dev: usize) -> Profile {
    let t = tick;
    // a taker bid takes asks
    let f = |bid: bool, n: u128| takes(tick, !bid, &[n]).remove(0);
    guided(
        &format!("life of both directions of level {tick}"),
        vec![],
        vec![
            place(0, t, true, 4),
            place(1, t, false, 3),
            place(2, t, true, 3),
            place(0, t, false, 5),
            f(false, 2),
            ca(2, t, 2),
            ca(1, t, 1),
            f(true, 2),
            cl(3, t, 0),
            cl(3, t, 3),
            place(1, t, true, 2),
            place(1, t, false, 2),
            ca(0, t, 0),
            f(false, 1),
            ca(0, t, 3),
            f(true, 1),
            cl(1, t, 4),
            cl(1, t, 5),
        ],
        Menu {
            places: vec![place(0, t, true, 2), place(2, t, false, 2)],
            max_orders: 9,
            swaps: vec![f(true, 1), f(false, 1), f(true, 6), f(false, 6)],
            cancel: true,
            claim: vec![OWNER],
            batch: 1,
            ..Default::default()
        },
        dev,
    )
}

/// Many orders of one owner on one level.
pub fn pile(n: u64, tick: i64, bid: bool) -> Profile {
    pr(
        &format!("pile of {n} on tick={tick}"),
        (0..n).map(|i| place(u8::from(i % 10 == 9), tick, bid, 2)).collect(),
        Menu { swaps: swaps(!bid, &[7]), cancel: false, claim: vec![], fixed: vec![ca(0, tick, n / 2), ca(0, tick, 0)], ..Default::default() },
        2,
        CAP,
    )
}

/// Many levels with one order each.
pub fn many_levels(n: u64) -> Profile {
    pr(
        &format!("{n} levels"),
        (0..n).map(|i| place((i % 2) as u8, (i as i64 - n as i64 / 2) * 37_001, i < n / 2, 2)).collect(),
        Menu { fixed: vec![swap(true, 9), swap(false, 9)], ..Default::default() },
        1,
        CAP,
    )
}

/// A book of many levels on one side (`bid`) and a few on the other, touched at its ends and in the middle.
pub fn wide(n: u64, bid: bool, depth: usize) -> Profile {
    // a level per order
    let few = 4;
    let (bids, side) = if bid { (n - few, n - few) } else { (few, n - few) };
    let tick = |i: u64| (i as i64 - bids as i64) * 37_001 + 5;
    let mut setup: Vec<Op> = (0..n).map(|i| place((i % 3) as u8, tick(i), i < bids, 20 + (i as u128 * 7) % 11)).collect();
    let at = |k: u64| if bid { bids - 1 - k } else { bids + k };
    for k in [1, side / 2, side - 2] {
        setup.push(ca((at(k) % 3) as u8, tick(at(k)), at(k)));
    }
    let mut m = Model::genesis();
    for o in &setup {
        m.apply(o);
    }
    let e = m.edges(!bid);
    let all = *e.last().unwrap();
    let some = [e[0], e[e.len() / 2], all - 1, all, all + 1];
    let mut fixed: Vec<Op> = some.iter().map(|q| swap(!bid, *q)).collect();
    fixed.push(swap_to(!bid, all, tick(at(side / 2 + 1))));
    fixed.push(swap_to(!bid, all, tick(at(side - 1))));
    for k in [0, 2, side / 2 + 1, side - 1] {
        fixed.push(ca((at(k) % 3) as u8, tick(at(k)), at(k)));
        fixed.push(cl(3, tick(at(k)), at(k)));
    }
    fixed.push(place(4, tick(at(0)), bid, 7));
    fixed.push(place(4, tick(at(0)), !bid, 7));
    fixed.push(place(4, tick(at(side - 1)), bid, 7));
    fixed.push(Op::Batch { who: 3, ids: (0..100.min(side)).map(|k| (tick(at(k)), at(k))).collect(), funds: false });
    pr(&format!("{side} levels from the middle {}", if bid { "down" } else { "up" }), setup, Menu { fixed, ..Default::default() }, depth, CAP)
}

/// Many levels of one side emptied by cancellation, live ones before and behind them.
pub fn hollow(n: u64, bid: bool, depth: usize) -> Profile {
    let tick = |i: u64| (if bid { -1 } else { 1 }) * (i as i64 * 29_003 + 7);
    let live = [0, n - 2, n - 1];
    let mut setup: Vec<Op> = (0..n).map(|i| place((i % 3) as u8, tick(i), bid, 20 + (i as u128 * 7) % 11)).collect();
    for i in (0..n).filter(|i| !live.contains(i)) {
        setup.push(ca((i % 3) as u8, tick(i), i));
    }
    let mut m = Model::genesis();
    for o in &setup {
        m.apply(o);
    }
    let e = m.edges(!bid);
    let mut fixed: Vec<Op> = [e[0] - 1, e[0], e[0] + 2, e[1], e[2] - 1, e[2]].iter().map(|q| swap(!bid, *q)).collect();
    fixed.push(swap_to(!bid, e[1] + 1, tick(n - 2)));
    fixed.push(swap_to(!bid, e[2], tick(n / 2)));
    for i in live {
        fixed.push(ca((i % 3) as u8, tick(i), i));
        fixed.push(cl(3, tick(i), i));
    }
    fixed.push(place(4, tick(n / 2), bid, 7));
    fixed.push(place(4, tick(n / 2), !bid, 7));
    fixed.push(place(4, tick(0), !bid, 7));
    pr(&format!("{n} emptied levels {}", if bid { "below" } else { "above" }), setup, Menu { fixed, ..Default::default() }, depth, CAP)
}

/// A level whose lifetime totals exceed what a single amount can be.
pub fn turnover(tick: i64, bid: bool, depth: usize) -> Profile {
    let side = if bid { "bids" } else { "asks" };
    let mut m = Model::genesis();
    let mut setup = vec![];
    let all = crate::price::to_u128(crate::price::value(bid, u128::MAX, tick, true)).unwrap();
    for id in 0..3u64 {
        let mut ops = vec![place((id % 2) as u8, tick, bid, u128::MAX)];
        if id == 1 {
            ops.push(ca(1, tick, 1));
        } else {
            ops.extend([swap(!bid, all / 3), cl(3, tick, id)]);
        }
        for op in &ops {
            m.apply(op);
        }
        setup.extend(ops);
        if let Some(rest) = m.edges(!bid).last() {
            let op = swap(!bid, *rest);
            m.apply(&op);
            setup.push(op);
        }
    }
    // the first stays unclaimed
    m.apply(&cl(0, tick, 2));
    setup.push(cl(0, tick, 2));
    let ops: Gen = Arc::new(move |m: &Model| {
        let mut v = vec![];
        let rest = m.resting(tick, bid);
        if m.next_id < 7 {
            // what rests in all is an amount of one token
            if crate::price::to_u128(rest).map_or(false, |x| x < u128::MAX - 100) {
                v.push(place(0, tick, bid, 100));
                v.push(place(1, tick, bid, 71));
            }
            if rest.is_zero() {
                v.push(place(2, tick, bid, u128::MAX));
            } else if rest < cosmwasm_std::Uint256::from(1000u128) {
                v.push(place(2, tick, bid, 1 << 127));
            }
        }
        let e = m.edges(!bid);
        let mut q: Vec<u128> = e.iter().flat_map(|x| [x / 2, *x]).filter(|x| *x > 0).collect();
        q.sort_unstable();
        q.dedup();
        v.extend(q.into_iter().map(|q| swap(!bid, q)));
        for o in m.orders.values() {
            v.push(ca(o.who, tick, o.id));
            v.push(cl(3, tick, o.id));
        }
        v
    });
    Profile { name: format!("turnover tick={tick} {side}"), setup, ghost: false, ops, base: vec![], depth, cap: CAP }
}
fn turnovers(depth: usize) -> Vec<Profile> {
    vec![turnover(T1, true, depth), turnover(T1_5, true, depth), turnover(T0_7, false, depth), turnover(MIN_TICK, false, 2)]
}

/// A level with a long queue, touched at its ends and in the middle.
pub fn deep(n: u64, tick: i64, bid: bool, depth: usize) -> Profile {
    let size = |i: u64| 20 + (i as u128 * 7) % 11;
    let mut setup: Vec<Op> = (0..n).map(|i| place((i % 3) as u8, tick, bid, size(i))).collect();
    for k in [1, n / 3, n / 3 + 1, n - 2] {
        setup.push(ca((k % 3) as u8, tick, k));
    }
    let mut m = Model::genesis();
    for o in &setup {
        m.apply(o);
    }
    let e = m.edges(!bid);
    let all = *e.last().unwrap();
    let some = [e[0] / 2, e[0], e[e.len() / 3], e[e.len() / 2] + 3, all - 1, all, all + 1];
    let mut fixed: Vec<Op> = some.iter().map(|q| swap(!bid, *q)).collect();
    for k in [0, 2, n / 3 - 1, n / 2, n - 1] {
        fixed.push(ca((k % 3) as u8, tick, k));
        fixed.push(cl(3, tick, k));
    }
    fixed.push(place(4, tick, bid, 7));
    fixed.push(place(4, tick, !bid, 7));
    fixed.push(Op::Batch { who: 3, ids: (0..100.min(n)).map(|k| (tick, k)).collect(), funds: false });
    pr(&format!("queue of {n} on tick={tick}"), setup, Menu { fixed, ..Default::default() }, depth, CAP)
}

/// Fees change, fills are claimed in between, the recipient disappears and comes back.
pub fn fee_life(dev: usize) -> Profile {
    let fee = |f| auth(A_GOV, AuthAct::SetMakerFee(f));
    guided(
        "fees over a life",
        vec![],
        vec![
            place_b(0, T1_5, false, 1000, BOUNTY_MAX),
            place(1, T0_7, true, 900),
            fee(ONE / 100),
            swap(true, 400),
            swap(false, 300),
            cl(3, T1_5, 0),
            fee(FEE_MAX),
            auth(A_GOV, AuthAct::SetMakerFeeRecipient(4)),
            cl(3, T0_7, 1),
            swap(true, 300),
            cl(3, T1_5, 0),
            fee(0),
            swap(true, 300),
            cl(0, T1_5, 0),
            fee(1),
            swap(false, 200),
            cl(1, T0_7, 1),
        ],
        Menu {
            swaps: vec![swap(true, 101), swap(false, 101)],
            claim: vec![3],
            batch: 1,
            fixed: vec![
                fee(0),
                fee(ONE / 333),
                fee(FEE_MAX),
                fee(FEE_MAX + 1),
                auth(A_GOV, AuthAct::SetMakerFeeRecipient(2)),
                auth(A_GOV, AuthAct::SetMakerFeeRecipient(A_BAD)),
                auth(A_MOD, AuthAct::SetMakerFee(ONE / 50)),
                auth(A_MOD, AuthAct::SetMakerFeeRecipient(2)),
                Op::Unset("maker_fee_recipient".into()),
            ],
            ..Default::default()
        },
        dev,
    )
}

/// The same profile with further operations offered everywhere.
fn plus(mut p: Profile, tag: &str, extra: Vec<Op>) -> Profile {
    p.name = format!("{} {tag}", p.name);
    let ops = p.ops.clone();
    p.ops = std::sync::Arc::new(move |m| {
        let mut v = ops(m);
        v.extend(extra.iter().cloned());
        v
    });
    p
}
/// Batches of all pairs as well.
fn pairs(mut p: Profile) -> Profile {
    p.name = format!("{} with batches", p.name);
    let ops = p.ops.clone();
    p.ops = std::sync::Arc::new(move |m| {
        let mut v = ops(m);
        let open: Vec<(i64, u64)> = m.orders.values().map(|o| (o.tick, o.id)).collect();
        for a in &open {
            for b in &open {
                v.push(Op::Batch { who: 3, ids: vec![*a, *b], funds: false });
            }
        }
        if open.len() > 2 {
            let mut r = open.clone();
            r.reverse();
            r.insert(1, (T1, 9_999));
            v.push(Op::Batch { who: 0, ids: r, funds: false });
        }
        v
    });
    p
}
fn age() -> Vec<Op> {
    vec![
        Op::Unset("maker_fee".into()),
        Op::Unset("maker_fee_recipient".into()),
        Op::Unset("is_active".into()),
        Op::StripPlacedAt,
        Op::Migrate,
    ]
}

/// Fees and bounties of any size on amounts of any size.
pub fn fees_unit(bid: bool, tick: i64, fee: u128, bounty: u128, k: u128, depth: usize) -> Profile {
    pr(
        &format!("fee {} bounty {} unit={k} tick={tick} {}", dec(fee), dec(bounty), if bid { "bids" } else { "asks" }),
        vec![auth(A_GOV, AuthAct::SetMakerFee(fee)), auth(A_GOV, AuthAct::SetMakerFeeRecipient(4))],
        Menu {
            places: vec![place_b(0, tick, bid, 3 * k, bounty), place_b(1, tick, bid, 2 * k + 1, bounty)],
            max_orders: 3,
            swaps: takes(tick, bid, &[k, 2 * k - 1, 4 * k]),
            cancel: true,
            claim: vec![OWNER, 3],
            batch: 1,
            ..Default::default()
        },
        depth,
        CAP,
    )
}
fn fee_units(depth: usize) -> Vec<Profile> {
    let mut v = vec![];
    for (i, (fee, bounty, k)) in [
        (1, 1, K18),
        (ONE / 3000, ONE / 101, K64),
        (FEE_MAX, BOUNTY_MAX, K120),
        (FEE_MAX - 1, BOUNTY_MAX - 1, 1_000_000),
        (1, BOUNTY_MAX, K120),
        (ONE / 7777, 1, 33),
    ]
    .into_iter()
    .enumerate()
    {
        let t = [T1_5, T0_7, -9_000_001, T1, 9_000_007, T0_3][i];
        v.push(fees_unit(i % 2 == 0, t, fee, bounty, k, depth));
    }
    v
}

/// The same with other names of the two tokens.
fn named(depth: usize) -> Vec<Profile> {
    let mut v = vec![];
    for k in 1..N_PAIRS {
        let mut p = invalids(depth);
        p.name = format!("refusals names={k}");
        v.push(p);
        let mut p = batches(depth);
        p.name = format!("batches names={k}");
        v.push(p);
    }
    v
}

fn has(k: &str, l: &[&str]) -> bool {
    l.contains(&k)
}

pub fn prop(id: &str) -> Option<Prop> {
    let o = Oracles::default;
    let p = |id: &'static str, oracles: Oracles, accepts: fn(&Dev) -> bool| Some(Prop { id, oracles, accepts });
    match id {
        "C01" => p("C01", Oracles { drain: false, ..o() }, |d| {
            d.kind.ends_with(".pays") || has(d.kind, &["balance", "solvency", "view.lost", "view.qty", "genesis", "claim.refused", "cancel.refused"])
                || (d.kind == "view.orders" && d.what.contains("closed"))
                || (d.kind.ends_with(".accepted") && has(d.op, &["place", "cancel", "claim", "batch", "swap"]))
        }),
        "C02" => p("C02", Oracles { drain: true, ..o() }, |d| {
            has(d.kind, &["drain", "cancel.refused", "claim.refused", "batch.refused", "view.lost", "view.err", "genesis"])
        }),
        "C03" => p("C03", Oracles { probe: true, ..o() }, |d| {
            has(d.kind, &["view.orderfill", "view.qty", "view.lost", "view.fills", "view.unreal", "claim.pays", "claim.refused", "claim.accepted", "batch.pays", "cancel.accepted", "cancel.refused"])
                && d.why != "not the owner" && d.why != "halted" && d.why != "funds attached"
        }),
        "C04" => p("C04", o(), |d| {
            has(d.kind, &["swap.pays", "swap.refused", "swap.accepted"])
                || (d.op == "swap" && has(d.kind, &["view.tal", "view.fills", "view.liq", "balance"]))
        }),
        "C05" => p("C05", o(), |d| {
            has(d.kind, &["swap.pays", "swap.refused", "swap.accepted", "swap.events", "swapout.accepted"])
                || (d.op == "swap" && has(d.kind, &["view.tal", "balance"]))
        }),
        "C06" => p("C06", Oracles { probe: true, ..o() }, |d| {
            (d.op == "cancel" && d.kind != "cancel.events") || (d.kind.starts_with("view.") && d.what.contains("after claiming everything"))
                || (d.op == "batch" && d.what.contains("after claiming everything"))
        }),
        "C07" => p("C07", o(), |d| {
            has(d.kind, &["claim.pays", "batch.pays", "claim.refused", "batch.refused"]) || (has(d.op, &["claim", "batch"]) && d.kind == "balance")
                || (d.kind == "claim.accepted" && has(d.why, &["nothing filled", "no fee recipient"]))
        }),
        "C08" => p("C08", Oracles { probe: true, bound: true, ..o() }, |d| {
            has(d.kind, &["payout", "claim.accepted", "claim.pays", "batch.pays", "claim.refused"])
                || (has(d.op, &["claim", "batch", "cancel"]) && has(d.kind, &["view.qty", "view.orderfill", "view.orders", "view.lost", "balance", "cancel.accepted", "cancel.pays"]))
        }),
        "C09" => p("C09", o(), |d| d.op == "batch" || has(d.kind, &["claim.pays", "claim.refused", "claim.accepted"])),
        "C10" => p("C10", Oracles { queued: true, ..o() }, |d| d.op == "place"),
        "C11" => p("C11", Oracles { fault: true, ..o() }, |d| {
            d.kind.ends_with(".fault") || d.kind.ends_with(".pays") || (d.op == "batch" && d.kind != "batch.events")
        }),
        "C12" => p("C12", Oracles { lists: true, ..o() }, |d| has(d.kind, &["lists", "view.tal", "view.ctt", "view.liq", "view.err", "view.fills"])),
        "C13" => p("C13", Oracles { pages: 2, lists: true, ..o() }, |d| {
            has(d.kind, &["pages", "lists", "view.orders", "view.lost", "view.qty", "view.err"])
        }),
        "C14" => p("C14", Oracles { quotes: vec![0, 1, 2, 3, 4, 5, 7, 9, 12, 20, 1000], ..o() }, |d| d.kind == "quote"),
        "C15" => p("C15", Oracles { spot: true, ..o() }, |d| d.kind == "spot"),
        "C16" => p("C16", Oracles { halt: true, roles: true, ..o() }, |d| {
            has(d.kind, &["halt", "isactive"]) || has(d.why, &["halted", "while halted"]) || d.op == "active"
        }),
        "C17" => p("C17", Oracles { roles: true, ..o() }, |d| {
            has(d.kind, &["roles", "role.accepted", "role.refused", "active.accepted", "active.refused", "fee.accepted", "fee.refused", "isactive", "feeq", "role.pays"])
        }),
        "C18" => p("C18", Oracles { roles: true, ..o() }, |d| {
            d.op == "fee" || d.kind == "feeq" || has(d.kind, &["claim.pays", "batch.pays", "claim.refused"])
                || (d.kind == "claim.accepted" && d.why == "no fee recipient")
        }),
        "C21" => p("C21", Oracles { probe: true, lists: true, ..o() }, |d| {
            has(d.kind, &["lists", "view.unreal", "view.fills", "view.orderfill", "view.tal", "view.qty", "view.lost", "claim.pays", "claim.refused", "claim.accepted", "cancel.refused", "cancel.accepted", "batch.pays", "swap.refused", "swap.pays", "view.err"])
        }),
        "C23" => p("C23", Oracles { iso: true, ..o() }, |d| d.kind == "iso"),
        "C24" => p("C24", o(), |d| d.kind.ends_with(".events")),
        "C25" => p("C25", Oracles { migrate: true, roles: true, ..o() }, |d| {
            d.kind == "migrate" || has(d.op, &["migrate", "upgrade"]) || has(d.kind, &["feeq", "isactive", "view.err", "view.lost", "view.orders", "view.qty", "roles", "cancel.pays", "cancel.accepted", "place.refused", "swap.pays", "batch.refused", "claim.refused", "cancel.refused", "swap.refused", "batch.pays", "claim.pays", "claim.accepted"])
        }),
        "C26" => p("C26", Oracles { drain: true, ..o() }, |d| !d.kind.ends_with(".events")),
        _ => None,
    }
}

pub const K18: u128 = 1_000_000_000_000_000_000;
const K64: u128 = u64::MAX as u128;
const K120: u128 = 1 << 120;

/// Long lives of a book with a few operations inserted anywhere.
fn lives(dev: usize) -> Vec<Profile> {
    vec![life(T1_5, true, dev), life(T0_7, false, dev), life(T1, false, dev), life2(dev), life_shared(T1, dev), life_shared(T0_5, dev)]
}
/// Amounts from ordinary token decimals to the largest.
fn units(depth: usize) -> Vec<Profile> {
    vec![
        core1k(T1_5, true, K18, depth),
        core1k(T0_7, false, K64, depth),
        core1k(T1, true, K120, depth),
        core1k(-9_000_001, false, K18, depth),
        core1k(27_123_456, true, K64, depth),
    ]
}
fn edges(depth: usize) -> Vec<Profile> {
    vec![
        edgy([-4_000_001, 3, 7_654_321], 1, depth),
        edgy([3_999_999, 4_000_000, 4_000_001], 1_000, depth),
        edgy([-1, 0, 1], K18, depth),
        edgy([-9_000_001, -9_000_000, -8_999_999], K64, depth),
    ]
}
fn fars(depth: usize) -> Vec<Profile> {
    vec![
        far(-9_000_001, -8_999_999, 1_000, 1_000, depth),
        far(89_999_999, 90_000_000, 50, 1 << 70, depth),
        far(MIN_TICK + 1, -99_000_000, 1 << 80, 1_000, depth),
        far(171_000_123, MAX_TICK - 1, 77, u64::MAX as u128, depth),
        far(MIN_TICK + 1, MAX_TICK - 1, 1 << 90, 1 << 90, depth),
    ]
}

pub fn profiles(id: &str, th: bool) -> Vec<Profile> {
    let mut v = match id {
        "C01" => vec![
            core1(T1_5, true, d(th, 7, 8)),
            core1(T0_7, false, d(th, 7, 8)),
            core2(d(th, 5, 6)),
            shared(T1, d(th, 5, 6)),
            dust(d(th, 5, 6)),
            fees(false, T1_5, FEE_MAX, d(th, 5, 6)),
            fees(true, T0_7, ONE / 321, d(th, 5, 6)),
            coincide(true, T0_7, 1, d(th, 5, 6)),
            batches(d(th, 4, 5)),
            fee_life(d(th, 2, 3)),
        ],
        "C02" => vec![
            core1(T1_5, true, d(th, 6, 7)),
            core1(T0_7, false, d(th, 6, 7)),
            core2(d(th, 4, 5)),
            shared(T1, d(th, 4, 5)),
            queue(T1, false, &[3, 1, 4, 2], &[1, 3, 6], d(th, 5, 6)),
            upgraded(d(th, 4, 5)),
            fees(false, T1_5, FEE_MAX, d(th, 4, 5)),
        ],
        "C03" => vec![
            core1(T1, true, d(th, 7, 8)),
            core1(T1_5, false, d(th, 7, 8)),
            queue(T1, true, &[3, 1, 4, 2, 5], &[1, 3, 6], d(th, 6, 7)),
            queue(T0_5, false, &[2, 2, 2, 2, 2, 2], &[1, 2, 4], d(th, 5, 6)),
            shared(T1, d(th, 5, 6)),
        ],
        "C04" => vec![
            core2(d(th, 5, 6)),
            dust(d(th, 6, 7)),
            core1(T1_5, true, d(th, 6, 7)),
            pointer(d(th, 6, 7)),
            targets(d(th, 3, 4)),
            shared(T1_5, d(th, 5, 6)),
        ],
        "C05" => vec![invalids(d(th, 5, 6)), core2(d(th, 5, 6)), targets(d(th, 3, 4)), pointer(d(th, 6, 7))],
        "C06" => vec![
            core1(T1, true, d(th, 6, 7)),
            invalids(d(th, 5, 6)),
            queue(T1, true, &[3, 1, 4, 2, 5], &[1, 3, 6], d(th, 6, 7)),
            queue(T1_5, false, &[3, 1, 4, 2], &[2, 5], d(th, 6, 7)),
            core2(d(th, 5, 6)),
            shared(T1, d(th, 5, 6)),
        ],
        "C07" => vec![
            fees(false, T1_5, FEE_MAX, d(th, 6, 7)),
            fees(true, T0_7, FEE_MAX, d(th, 6, 7)),
            fees(true, T1, 0, d(th, 6, 7)),
            fees_small(false, T1, d(th, 6, 7)),
            fees_small(true, T0_3, d(th, 6, 7)),
            coincide(true, T0_7, 1, d(th, 5, 6)),
            coincide(false, T1_5, K18, d(th, 5, 6)),
            coincide(false, T2_5, 1 << 100, d(th, 4, 5)),
            fee_gov(d(th, 4, 5)),
            fee_life(d(th, 3, 4)),
            upgraded(d(th, 4, 5)),
        ],
        "C08" => vec![
            ghost(nibble(true, T0_3, d(th, 7, 8))),
            ghost(nibble(false, T0_7, d(th, 7, 8))),
            ghost(nibble(false, T2_5, d(th, 7, 8))),
            invalids(d(th, 5, 6)),
            core1(T1_5, true, d(th, 6, 7)),
            ghost(coincide(true, T0_7, 1, d(th, 5, 6))),
        ],
        "C09" => vec![
            batches(d(th, 5, 6)),
            crowd(103, 2),
            core1(T1_5, false, d(th, 6, 7)),
            invalids(d(th, 4, 5)),
            coincide(true, T0_7, 1, d(th, 5, 6)),
            fee_life(d(th, 3, 4)),
            pairs(shared(T1, d(th, 4, 5))),
            pairs(core2(d(th, 4, 5))),
            pairs(life2(d(th, 2, 3))),
            pairs(life(T1_5, true, d(th, 2, 3))),
        ],
        "C10" => vec![
            invalids(d(th, 5, 6)),
            core2(d(th, 5, 6)),
            core1(T1, false, d(th, 6, 7)),
            core1(T0_3, true, d(th, 6, 7)),
            shared(T1, d(th, 5, 6)),
            pointer(d(th, 5, 6)),
            pile(300, T1, true),
            many_levels(300),
            dust(d(th, 5, 6)),
        ],
        "C11" => vec![
            fees(false, T1_5, FEE_MAX, d(th, 5, 6)),
            coincide(true, T0_7, 1, d(th, 4, 5)),
            batches(d(th, 4, 5)),
            core2(d(th, 5, 6)),
            invalids(d(th, 4, 5)),
            shared(T1, d(th, 4, 5)),
            upgraded(d(th, 4, 5)),
            fee_life(d(th, 2, 3)),
        ],
        "C12" => vec![
            core2(d(th, 5, 6)),
            core1(T1_5, true, d(th, 7, 8)),
            dust(d(th, 5, 6)),
            queue(T1, false, &[3, 1, 4, 2], &[1, 3, 6], d(th, 6, 7)),
            shared(T1, d(th, 6, 7)),
            pointer(d(th, 6, 7)),
        ],
        "C13" => vec![
            core2(d(th, 4, 5)),
            core1(T1, true, d(th, 5, 6)),
            shared(T0_5, d(th, 4, 5)),
            crowd(103, 1),
            pile(130, T0_5, true),
            pile(300, T1_5, false),
            many_levels(130),
            many_levels(600),
        ],
        "C14" => vec![
            core2(d(th, 5, 6)),
            dust(d(th, 5, 6)),
            core1(T1_5, false, d(th, 6, 7)),
            pointer(d(th, 5, 6)),
            shared(T1, d(th, 5, 6)),
        ],
        "C15" => vec![
            core2(d(th, 6, 7)),
            core1(T1_5, true, d(th, 7, 8)),
            dust(d(th, 5, 6)),
            pointer(d(th, 7, 8)),
            shared(T0_7, d(th, 5, 6)),
            targets(d(th, 3, 4)),
        ],
        "C16" => vec![
            switching(d(th, 5, 6)),
            core2(d(th, 4, 5)),
            invalids(d(th, 4, 5)),
            shared(T1, d(th, 4, 5)),
            upgraded(d(th, 4, 5)),
            life2(1),
            roles_fsm(false),
        ],
        "C17" => vec![roles_fsm(true)],
        "C18" => vec![
            fee_gov(d(th, 4, 5)),
            fees(false, T1_5, FEE_MAX, d(th, 5, 6)),
            coincide(true, T0_7, 1, d(th, 5, 6)),
            fee_life(d(th, 3, 4)),
            upgraded(d(th, 4, 5)),
            roles_fsm(false),
        ],
        "C21" => vec![
            tree(T1, true, &[2, 3, 1, 4, 2, 3], &[1, 2, 5], d(th, 7, 8)),
            tree(T1, false, &[1, 1, 1, 1, 1, 1, 1], &[1, 2], d(th, 8, 9)),
            core1(T1, false, d(th, 7, 8)),
            shared(T1, d(th, 5, 6)),
        ],
        "C23" => vec![
            core2(d(th, 5, 6)),
            core1(T1, true, d(th, 5, 6)),
            batches(d(th, 4, 5)),
            shared(T1, d(th, 5, 6)),
            targets(1),
            pointer(d(th, 5, 6)),
        ],
        "C24" => vec![
            core2(d(th, 5, 6)),
            fees(false, T1_5, FEE_MAX, d(th, 5, 6)),
            fees(true, T0_7, ONE / 321, d(th, 5, 6)),
            fees_small(false, T1, d(th, 5, 6)),
            coincide(false, T1_5, K18, d(th, 4, 5)),
            batches(d(th, 4, 5)),
            fee_gov(2),
            targets(1),
            roles_fsm(false),
        ],
        "C25" => vec![
            upgraded(d(th, 5, 6)),
            plus(roles_fsm(false), "upgraded", age()),
            plus(core1(T1_5, true, d(th, 5, 6)), "upgraded", age()),
            plus(shared(T0_7, d(th, 3, 4)), "upgraded", age()),
            plus(core2(d(th, 3, 4)), "upgraded", age()),
            plus(life2(d(th, 2, 3)), "upgraded", age()),
            plus(life(T0_7, false, d(th, 2, 3)), "upgraded", age()),
            plus(fee_life(d(th, 2, 3)), "upgraded", age()),
        ],
        "C26" => extremes(th),
        _ => vec![],
    };
    if matches!(id, "C01" | "C02" | "C03" | "C06" | "C07" | "C08" | "C10" | "C12" | "C21" | "C26") {
        v.extend(turnovers(d(th, 5, 6)).into_iter().map(|p| if id == "C08" { ghost(p) } else { p }));
    }
    if matches!(id, "C04" | "C05" | "C12" | "C14" | "C15" | "C23") {
        for n in if th { vec![70, 300, 1100] } else { vec![300] } {
            v.push(hollow(n, true, if n > 1000 { 1 } else { 2 }));
            v.push(hollow(n, false, if n > 1000 { 1 } else { 2 }));
        }
    }
    if matches!(id, "C01" | "C02" | "C03" | "C06" | "C08" | "C12" | "C21" | "C23") {
        v.extend(lives(d(th, 2, 3)).into_iter().map(|p| if id == "C08" { ghost(p) } else { p }));
    }
    if matches!(id, "C07" | "C18" | "C24" | "C01" | "C11") {
        v.extend(fee_units(d(th, 5, 6)));
    }
    if matches!(id, "C04" | "C05" | "C14" | "C15" | "C10" | "C11" | "C13" | "C24") {
        let dev = if id == "C13" { d(th, 1, 2) } else { d(th, 2, 3) };
        v.push(life2(dev));
        v.push(life_shared(T1, dev));
    }
    if matches!(id, "C01" | "C02" | "C03" | "C04" | "C06" | "C08" | "C12" | "C21" | "C24") {
        v.extend(units(d(th, 5, 6)));
    }
    if matches!(id, "C01" | "C02" | "C04" | "C05" | "C06" | "C07" | "C09" | "C10" | "C11" | "C12" | "C14" | "C15" | "C16" | "C23" | "C24") {
        v.extend(named(d(th, 3, 4)));
    }
    if !matches!(id, "C13" | "C17" | "C26") && !v.is_empty() {
        v.extend(insides(if matches!(id, "C16" | "C25") { d(th, 4, 5) } else { d(th, 5, 6) }).into_iter().map(|p| if id == "C08" { ghost(p) } else { p }));
    }
    if matches!(id, "C01" | "C02" | "C03" | "C06" | "C07" | "C08" | "C09" | "C10" | "C12" | "C13" | "C21" | "C23" | "C24") {
        v.extend(lates(d(th, 4, 5)).into_iter().map(|p| if id == "C08" { ghost(p) } else { p }));
    }
    if matches!(id, "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C08" | "C12" | "C14" | "C15" | "C21" | "C23") {
        v.extend(fars(d(th, 4, 5)));
    } else if !matches!(id, "C17" | "C19" | "C20" | "C22" | "C26" | "C27") {
        v.extend(fars(d(th, 3, 4)));
    }
    if matches!(id, "C01" | "C03" | "C04" | "C05" | "C08" | "C12" | "C14" | "C15" | "C21" | "C23" | "C24") {
        v.extend(edges(if matches!(id, "C01" | "C14" | "C24") { d(th, 4, 5) } else { d(th, 5, 6) }).into_iter().map(|p| if id == "C08" { ghost(p) } else { p }));
    }
    if !matches!(id, "C10" | "C13" | "C17" | "C18" | "C26") && !v.is_empty() {
        let n = d(th, 2, 3);
        let big = vec![wide(560, true, n), wide(560, false, n), deep(270, T1_5, false, n), deep(270, T0_7, true, n)];
        v.extend(big.into_iter().map(|p| if id == "C08" { ghost(p) } else { p }));
    }
    // where a step costs little, one or two more of them
    let more = match id {
        "C07" | "C09" | "C18" | "C25" => 2,
        "C01" | "C10" | "C11" | "C16" | "C24" => 1,
        _ => 0,
    } + if th && !matches!(id, "C13" | "C14" | "C15" | "C26") { 1 } else { 0 };
    for p in v.iter_mut().filter(|p| p.base.is_empty() && p.setup.len() < 100 && p.depth > 2 && p.depth < 20) {
        p.depth += more;
    }
    v
}
