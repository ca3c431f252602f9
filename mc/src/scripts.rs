//! Long structured histories: a finite family, enumerated completely, every step in lockstep.
use crate::cost::{pattern, PATTERNS};
use crate::model::*;
use crate::props::*;

fn size(i: u64) -> u128 {
    [3u128, 1, 4, 2, 5, 2, 7][(i % 7) as usize]
}

/// n orders on one level, cancelled in a pattern (some stay), with fills in between, then claimed,
/// refilled and drained.
pub fn cancel_story(tick: i64, bid: bool, n: u64, kind: u8, keep: u64, every: u64, amount: u128) -> Vec<Op> {
    let mut h: Vec<Op> = (0..n).map(|i| place((i % 3) as u8, tick, bid, size(i))).collect();
    for (k, i) in pattern(kind, n).into_iter().enumerate() {
        if keep > 0 && i % keep == 0 {
            continue;
        }
        h.push(Op::Cancel { who: (i % 3) as u8, tick, id: i, funds: false });
        if every > 0 && (k as u64 + 1) % every == 0 {
            h.push(swap(!bid, amount));
        }
    }
    h.push(place(0, tick, bid, 6));
    h.push(swap(!bid, amount + 1));
    for i in 0..=n {
        h.push(Op::Claim { who: 3, tick, id: i, funds: false });
    }
    h.push(place(1, tick, bid, 5));
    h.push(Op::Cancel { who: 0, tick, id: n, funds: false });
    h.push(swap(!bid, 4));
    h.push(Op::Batch { who: 2, ids: (0..n + 2).map(|i| (tick, i)).collect(), funds: false });
    h
}

/// Both directions of one level are filled, cancelled and claimed alternately.
pub fn shared_level(tick: i64, n: u64, kind: u8, every: u64) -> Vec<Op> {
    let mut h: Vec<Op> = (0..2 * n).map(|i| place((i % 3) as u8, tick, i % 2 == 0, size(i))).collect();
    for (k, i) in pattern(kind, 2 * n).into_iter().enumerate() {
        if i % 5 == 0 {
            continue;
        }
        h.push(Op::Cancel { who: (i % 3) as u8, tick, id: i, funds: false });
        if every > 0 && (k as u64 + 1) % every == 0 {
            h.push(swap(k % 2 == 0, 3));
            h.push(place(0, tick, k % 2 == 0, 2));
        }
    }
    h.push(swap(true, 9));
    h.push(swap(false, 9));
    for i in 0..3 * n {
        h.push(Op::Claim { who: 1, tick, id: i, funds: false });
    }
    h
}

/// A ladder of levels, swept up and down, refilled, cancelled and claimed.
pub fn ladder(ticks: &[i64], rounds: u64) -> Vec<Op> {
    let mut h = vec![];
    let mut id = 0u64;
    let mut open: Vec<(i64, u64, u8)> = vec![];
    for r in 0..rounds {
        for (k, t) in ticks.iter().enumerate() {
            // the upper half asks, the lower half bids
            let bid = k < ticks.len() / 2;
            let who = ((id + r) % 3) as u8;
            h.push(place(who, *t, bid, 1_000 + 37 * id as u128));
            open.push((*t, id, who));
            id += 1;
        }
        h.push(swap(true, 1_700 + 911 * r as u128));
        h.push(swap(false, 1_300 + 577 * r as u128));
        h.push(swap_to(true, 5_000, ticks[ticks.len() / 2]));
        h.push(swap_to(false, 5_000, ticks[ticks.len() / 2 - 1]));
        for (k, (t, i, who)) in open.iter().enumerate() {
            match (k as u64 + r) % 3 {
                0 => h.push(Op::Claim { who: 3, tick: *t, id: *i, funds: false }),
                1 => h.push(Op::Cancel { who: *who, tick: *t, id: *i, funds: false }),
                _ => {}
            }
        }
    }
    h.push(swap(true, 1 << 70));
    h.push(swap(false, 1 << 70));
    let ids: Vec<(i64, u64)> = open.iter().map(|o| (o.0, o.1)).collect();
    for c in ids.chunks(100) {
        h.push(Op::Batch { who: 3, ids: c.to_vec(), funds: false });
    }
    h
}

/// `n` levels with one or two orders each, some cancelled, swept in strides by ever larger swaps.
pub fn sweep_story(n: u64, lo: i64, step: i64, bid: bool, hole: u64, unit: u128) -> Vec<Op> {
    let tick = |i: u64| lo + i as i64 * step;
    let mut h = vec![];
    let mut open = vec![];
    for i in 0..n {
        // built from both ends
        let k = if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 };
        let who = (i % 3) as u8;
        open.push((tick(k), h.len() as u64, who));
        h.push(place(who, tick(k), bid, unit * (1 + (i as u128 * 7) % 5) + i as u128 % 2));
        if i % 4 == 1 {
            open.push((tick(k), h.len() as u64, 2));
            h.push(place(2, tick(k), bid, unit));
        }
    }
    if hole > 0 {
        for o in open.iter().filter(|o| o.1 % hole == 1) {
            h.push(Op::Cancel { who: o.2, tick: o.0, id: o.1, funds: false });
        }
    }
    let value = |f: u128, k: u64| crate::price::to_u128(crate::price::value(bid, f * unit, tick(k), true)).unwrap_or(1).max(1);
    // the best level for the taker is the highest bid, the lowest ask
    let best = |j: u64| if bid { n - 1 - j } else { j };
    h.push(swap(!bid, value(1, best(0))));
    h.push(swap_to(!bid, value(20, best(0)), tick(best(n / 6))));
    h.push(swap(!bid, value(n as u128 / 2, best(n / 5))));
    for (k, o) in open.iter().enumerate().filter(|x| x.0 % 3 == 0) {
        h.push(if k % 2 == 0 {
            Op::Claim { who: 3, tick: o.0, id: o.1, funds: false }
        } else {
            Op::Cancel { who: o.2, tick: o.0, id: o.1, funds: false }
        });
    }
    // better levels again
    let m = open.len() as u64;
    h.push(place(0, tick(best(0)), bid, unit));
    h.push(place(1, tick(best(1)), bid, unit * 2));
    h.push(swap(!bid, value(n as u128, best(n / 3))));
    h.push(Op::Cancel { who: 0, tick: tick(best(0)), id: m, funds: false });
    h.push(swap_to(!bid, value(3 * n as u128, best(0)), tick(best(2 * n / 3))));
    h.push(swap(!bid, value(9 * n as u128, best(0))));
    h.push(swap(!bid, value(1, best(n - 1))));
    let mut ids: Vec<(i64, u64)> = open.iter().map(|o| (o.0, o.1)).collect();
    ids.reverse();
    for c in ids.chunks(40) {
        h.push(Op::Batch { who: 3, ids: c.to_vec(), funds: false });
    }
    h
}

pub fn stories(id: &str, th: bool) -> Vec<(String, Vec<Op>)> {
    let mut v = vec![];
    let ns: Vec<u64> = if !th && id == "C02" { vec![6, 11] } else if th { vec![5, 6, 8, 9, 12, 13, 16, 17, 20, 24, 31, 32, 33, 40] } else { vec![5, 8, 12, 17, 33] };
    if matches!(id, "C01" | "C02" | "C03" | "C06" | "C08" | "C12" | "C21") {
        for bid in [true, false] {
            for tick in [T1, T1_5] {
                for &n in &ns {
                    for kind in 0..PATTERNS {
                        for keep in [0u64, 2, 3, 4] {
                            for (every, amount) in [(0u64, 5u128), (2, 3), (3, 7)] {
                                if !th && (keep == 4 || (tick != T1 && every == 2)) {
                                    continue;
                                }
                                v.push((
                                    format!("cancels n={n} order={kind} keep={keep} fill {amount} every {every} tick={tick} bid={bid}"),
                                    cancel_story(tick, bid, n, kind, keep, every, amount),
                                ));
                            }
                        }
                    }
                }
            }
        }
    }
    if matches!(id, "C03" | "C06" | "C12" | "C21") {
        for bid in [true, false] {
            for n in if th { vec![70u64, 100, 140, 200] } else { vec![100] } {
                for kind in 0..PATTERNS {
                    for keep in [0u64, 3] {
                        for (every, amount) in [(0u64, 9u128), (4, 11)] {
                            v.push((
                                format!("cancels n={n} order={kind} keep={keep} fill {amount} every {every} tick={T1_5} bid={bid}"),
                                cancel_story(T1_5, bid, n, kind, keep, every, amount),
                            ));
                        }
                    }
                }
            }
        }
    }
    if matches!(id, "C01" | "C02" | "C21" | "C23" | "C12" | "C06") {
        for tick in [T1, T0_5] {
            for n in if th { vec![3u64, 4, 5, 6, 8, 11, 16] } else { vec![4, 6] } {
                for kind in 0..PATTERNS {
                    for every in [0, 2, 3] {
                        v.push((format!("both directions of tick {tick} n={n} order={kind} every={every}"), shared_level(tick, n, kind, every)));
                    }
                }
            }
        }
    }
    if matches!(id, "C01" | "C02" | "C04" | "C05" | "C12" | "C14" | "C15" | "C23") {
        let ladders: [&[i64]; 7] = [
            &[-2, -1, 0, 1],
            &[-9_000_001, -9_000_000, -8_999_999, 9_000_000, 9_000_001, 18_000_000],
            &[-5_000_000, -4_999_999, -256, -1, 0, 255, 256, 65_536, 65_537],
            &[-108_000_000, -107_999_999, -18_000_000, 27_000_000, 45_000_000],
            &[0, 1_000_000, 2_000_000, 3_000_000, 4_000_000, 5_000_000, 6_000_000, 7_000_000],
            &[5, 4, 3, 2, 1, 0],
            &[-300, -200, -100, 0, 100, 200, 300, 400],
        ];
        for l in ladders {
            for r in 1..=(if th { 6 } else { 3 }) {
                v.push((format!("ladder {l:?} rounds={r}"), ladder(l, r)));
            }
        }
    }
    if matches!(id, "C01" | "C02" | "C04" | "C05" | "C12" | "C14" | "C15" | "C23" | "C24") {
        for bid in [true, false] {
            for n in if th { vec![6u64, 13, 30, 48, 64, 100, 130] } else { vec![6, 30, 64] } {
                for (lo, step) in [(-40_000i64, 1_000i64), (-9_000_030, 1), (100_000, 37_003), (17_000_000, 300_001), (-30_000_000, 250_007)] {
                    for hole in [0u64, 2, 3] {
                        for unit in [3u128, 1_000_000, K18] {
                            if !th && (id == "C02" && n > 30 || hole == 3 && unit != 3 || n == 64 && unit == K18) {
                                continue;
                            }
                            v.push((format!("sweep of {n} levels from {lo} by {step} bid={bid} hole={hole} unit={unit}"), sweep_story(n, lo, step, bid, hole, unit)));
                        }
                    }
                }
            }
        }
    }
    v
}
