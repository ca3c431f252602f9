//! C19 and C20: finite input spaces enumerated through the entry points, and, where the arithmetic is
//! public, directly.
use crate::model::*;
use crate::oracle::*;
use crate::price::*;
use crate::world::*;

/// Ticks worth a look of their own: around every decade and around the simple fractions of it.
pub fn grid_ticks(wide: i64) -> Vec<i64> {
    let mut v = vec![];
    let mut around = |t: i64, w: i64| {
        for x in -w..=w {
            v.push(t + x);
        }
    };
    let mut dec = MIN_TICK;
    while dec <= MAX_TICK {
        around(dec, wide);
        for f in [1, 2, 3, 7, 123_456, 500_000, 1_000_000, 2_333_333, 4_500_000, 6_000_001, 8_999_999] {
            around(dec + f, 0);
        }
        dec += DECADE;
    }
    around(MAX_TICK, wide);
    around(MIN_TICK, wide);
    around(0, 2 * wide);
    v.retain(|t| (MIN_TICK..=MAX_TICK).contains(t));
    v.sort();
    v.dedup();
    v
}

pub fn grid_amounts(dense: u128, spread: bool) -> Vec<u128> {
    let mut v: Vec<u128> = (1..=dense).collect();
    for k in 0..128u32 {
        let p = 1u128 << k;
        v.extend([p - 1, p, p + 1]);
    }
    let mut p = 10u128;
    for _ in 0..38 {
        v.extend([p - 1, p, p + 1]);
        if spread {
            for m in [2, 3, 7, 9] {
                v.extend(p.checked_mul(m).into_iter().flat_map(|x| [x - 1, x, x + 1]));
            }
        }
        match p.checked_mul(10) {
            Some(x) => p = x,
            None => break,
        }
    }
    v.extend([u128::MAX - 1, u128::MAX, u128::MAX / 2, u128::MAX / 3]);
    v.retain(|a| *a > 0);
    v.sort();
    v.dedup();
    v
}

/// Amounts whose value at this price is a whole number or just misses one: at, before and behind the smallest
/// amounts worth 1, 2, 3 … and so on up to the largest.
pub fn edge_amounts(bid: bool, tick: i64, wide: bool) -> Vec<u128> {
    const FEW: [u128; 6] = [1, 3, 1_000_003, ONE, u64::MAX as u128, 10u128.pow(30) + 7];
    let mut ks = FEW.to_vec();
    if wide {
        ks.extend([2, 5, 7, 10, 99, 101, 9_999_999, 10u128.pow(12), ONE - 1, ONE + 1, 1 << 64, 1 << 96, 10u128.pow(24), 10u128.pow(36), u128::MAX]);
    }
    let mut v = vec![];
    for k in ks {
        // the least amount worth at least k is what k costs, rounded up
        if let Some(a) = to_u128(value(!bid, k, tick, true)) {
            v.extend([a.saturating_sub(1), a, a.saturating_add(1)]);
        }
    }
    v.retain(|a| *a > 0);
    v.sort_unstable();
    v.dedup();
    v
}

/// What the contract itself says a tick costs: place one order there and ask for the price.
pub fn bad_tick_blackbox(t: i64) -> Option<String> {
    let Ok(g) = World::genesis() else { return Some("instantiate failed".into()) };
    for bid in [true, false] {
        let m = Model::genesis();
        let s = step(&g, &m, &place(0, t, bid, 1_000));
        if let Some(d) = s.devs.iter().find(|d| !d.kind.ends_with(".events")) {
            return Some(format!("placing at tick {t}: {}", d.what));
        }
        if s.expect.ok {
            if let Some(d) = spot(&s.world, &s.model).first() {
                return Some(d.what.clone());
            }
        }
    }
    None
}

/// One maker, one taker, one claim: the taker pays in `amount` against a maker who can always serve it,
/// or takes exactly `amount` from a maker who gives exactly that much.
pub fn bad_value_blackbox(bid: bool, amount: u128, tick: i64) -> Option<String> {
    let Ok(g) = World::genesis() else { return Some("instantiate failed".into()) };
    let m = Model::genesis();
    // the maker's order is `amount`; the taker pays its full price and one more
    let mut hist = vec![place(0, tick, bid, amount)];
    let full = value(bid, amount, tick, true);
    if let Some(f) = to_u128(full) {
        for q in [f, f.saturating_add(1), f.saturating_sub(1), f / 2 + 1, f / 3 + 1] {
            if q == 0 {
                continue;
            }
            let mut h = hist.clone();
            h.push(swap(!bid, q));
            h.push(Op::Claim { who: 3, tick, id: 0, funds: false });
            h.push(Op::Claim { who: 3, tick, id: 0, funds: false });
            if let Some(x) = run_devs(&g, &m, &h) {
                return Some(x);
            }
        }
    } else {
        hist.push(swap(!bid, u128::MAX));
        hist.push(Op::Claim { who: 3, tick, id: 0, funds: false });
        return run_devs(&g, &m, &hist);
    }
    None
}

fn run_devs(w: &World, m: &Model, h: &[Op]) -> Option<String> {
    let (mut w, mut m) = (w.clone(), m.clone());
    for op in h {
        let s = step(&w, &m, op);
        if let Some(d) = s.devs.iter().find(|d| d.kind.ends_with(".pays") || d.kind.ends_with(".refused") || d.kind.ends_with(".accepted") || d.kind == "balance") {
            return Some(format!("{} {op:?} after {h:?}: {}", d.kind, d.what));
        }
        if s.outcome.ok().is_some() {
            w = s.world;
            m = s.model;
        }
    }
    None
}
