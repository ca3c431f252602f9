//! C22: how much storage an operation touches, measured over growing books.
use crate::model::*;
use crate::oracle::step;
use crate::price::ONE;
use crate::store::{counters, reset_counters};
use crate::world::*;

/// Growth allowed: constant, or a bounded step per doubling.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Growth {
    Constant,
    Log,
}

pub struct Scenario {
    pub name: String,
    pub growth: Growth,
    /// setup and the measured operation for size n
    pub make: Box<dyn Fn(u64) -> (Vec<Op>, Op) + Send + Sync>,
}

const QTY: u128 = 10;

/// Order in which n orders are cancelled.
pub fn pattern(kind: u8, n: u64) -> Vec<u64> {
    let a: Vec<u64> = (0..n).collect();
    match kind {
        0 => a,
        1 => a.into_iter().rev().collect(),
        2 => a.iter().filter(|i| *i % 2 == 0).chain(a.iter().filter(|i| *i % 2 == 1)).cloned().collect(),
        3 => {
            // from both ends inwards
            let mut v = vec![];
            let (mut l, mut r) = (0i64, n as i64 - 1);
            while l <= r {
                v.push(l as u64);
                if l != r {
                    v.push(r as u64);
                }
                l += 1;
                r -= 1;
            }
            v
        }
        4 => {
            let mut v = pattern(3, n);
            v.reverse();
            v
        }
        5 => {
            // midpoints first
            let mut v = vec![];
            fn rec(lo: u64, hi: u64, v: &mut Vec<u64>) {
                if lo < hi {
                    let m = (lo + hi) / 2;
                    v.push(m);
                    rec(lo, m, v);
                    rec(m + 1, hi, v);
                }
            }
            rec(0, n, &mut v);
            v
        }
        k => {
            // stride walk; strides are odd primes, n is a power of two or handled by skipping repeats
            let s = [3u64, 7, 13, 29, 61, 97][(k as usize - 6) % 6];
            let mut v = vec![];
            let mut seen = vec![false; n as usize];
            let mut i = 0;
            for _ in 0..n {
                while seen[(i % n) as usize] {
                    i += 1;
                }
                seen[(i % n) as usize] = true;
                v.push(i % n);
                i += s;
            }
            v
        }
    }
}
pub const PATTERNS: u8 = 12;

pub fn scenarios() -> Vec<Scenario> {
    let mut v: Vec<Scenario> = vec![];
    let mut add = |name: String, growth: Growth, make: Box<dyn Fn(u64) -> (Vec<Op>, Op) + Send + Sync>| {
        v.push(Scenario { name, growth, make })
    };
    for bid in [true, false] {
        let t = 0i64;
        let d = if bid { "bids" } else { "asks" };
        let fillq = move |n: u64| place((n % 3) as u8, t, bid, QTY);
        let book = move |n: u64| (0..n).map(fillq).collect::<Vec<_>>();
        let step_tick = move |i: u64| if bid { -(i as i64) * 100_000 } else { i as i64 * 100_000 };
        add(format!("place behind n {d} on the level"), Growth::Constant, Box::new(move |n| (book(n), fillq(n))));
        add(
            format!("place on a new level beside n levels of {d}"),
            Growth::Constant,
            Box::new(move |n| {
                ((0..n).map(|i| place(0, step_tick(i), bid, QTY)).collect(), place(1, step_tick(n) + 50, bid, QTY))
            }),
        );
        for (nm, num, den) in [("a tenth", 1u128, 10u128), ("half", 1, 2), ("all", 1, 1)] {
            add(
                format!("swap filling {nm} of n {d} on one level"),
                Growth::Constant,
                Box::new(move |n| (book(n), swap(!bid, (QTY * n as u128 * num / den).max(1)))),
            );
        }
        add(
            format!("swap taking the best of n levels of {d}"),
            Growth::Constant,
            Box::new(move |n| ((0..n).map(|i| place(0, step_tick(i), bid, QTY)).collect(), swap(!bid, 5))),
        );
        add(
            format!("claim one of n filled {d}"),
            Growth::Constant,
            Box::new(move |n| {
                let mut s = book(n);
                s.push(swap(!bid, QTY * n as u128));
                (s, Op::Claim { who: 3, tick: t, id: n / 2, funds: false })
            }),
        );
        add(
            format!("claim after n separate swaps ({d})"),
            Growth::Constant,
            Box::new(move |n| {
                let mut s = vec![place(0, t, bid, 10 * n as u128)];
                s.extend((0..n).map(|_| swap(!bid, 3)));
                (s, Op::Claim { who: 0, tick: t, id: 0, funds: false })
            }),
        );
        add(
            format!("cancel the last of n resting {d}"),
            Growth::Constant,
            Box::new(move |n| (book(n), Op::Cancel { who: ((n - 1) % 3) as u8, tick: t, id: n - 1, funds: false })),
        );
        for k in 0..PATTERNS {
            // ids 0..n are cancelled in the pattern, n stays in front of nothing, n+1 is measured
            let cancels = move |n: u64| {
                let mut s = vec![place(0, t, bid, QTY)];
                s.extend((1..=n + 2).map(fillq));
                s.extend(pattern(k, n).into_iter().map(move |i| {
                    let id = i + 1;
                    Op::Cancel { who: (id % 3) as u8, tick: t, id, funds: false }
                }));
                s
            };
            add(
                format!("cancel after n cancels in order {k} ({d})"),
                Growth::Log,
                Box::new(move |n| (cancels(n), Op::Cancel { who: ((n + 1) % 3) as u8, tick: t, id: n + 1, funds: false })),
            );
            add(
                format!("claim past n cancels in order {k} ({d})"),
                Growth::Log,
                Box::new(move |n| {
                    let mut s = cancels(n);
                    s.push(swap(!bid, QTY + 3));
                    (s, Op::Claim { who: 3, tick: t, id: n + 1, funds: false })
                }),
            );
            add(
                format!("cancel past n cancels in order {k} ({d})"),
                Growth::Log,
                Box::new(move |n| {
                    let mut s = cancels(n);
                    s.push(swap(!bid, QTY + 3));
                    (s, Op::Cancel { who: ((n + 2) % 3) as u8, tick: t, id: n + 2, funds: false })
                }),
            );
            add(
                format!("swap past n cancels in order {k} ({d})"),
                Growth::Constant,
                Box::new(move |n| (cancels(n), swap(!bid, QTY + 3))),
            );
        }
    }
    v.extend(beside());
    v
}

const A: i64 = 0;
const FAR: i64 = 20_000_000;

/// What grows beside the measured operation: (name, growth allowed, first operations of size n).
/// The anchor orders (A0 of alice, A1 of bob, ids 0 and 1) rest on tick 0 before any of it.
type Noise = (&'static str, Growth, fn(bool, u64) -> Vec<Op>);

fn worse(bid: bool, i: u64) -> i64 {
    let d = (i as i64 + 1) * 10_000;
    if bid { -d } else { d }
}
fn better(bid: bool, i: u64) -> i64 {
    -worse(bid, i)
}
fn can(who: u8, tick: i64, id: u64) -> Op {
    Op::Cancel { who, tick, id, funds: false }
}
fn cl(who: u8, tick: i64, id: u64) -> Op {
    Op::Claim { who, tick, id, funds: false }
}

fn noises() -> Vec<Noise> {
    use Growth::*;
    vec![
        ("n orders behind on the level", Constant, |b, n| (0..n).map(|i| place((i % 3) as u8, A, b, QTY)).collect()),
        ("n orders of one owner on the other side", Constant, |b, n| (0..n).map(|_| place(0, -worse(b, 0), !b, QTY)).collect()),
        ("n worse levels", Constant, |b, n| (0..n).map(|i| place(1, worse(b, i), b, QTY)).collect()),
        ("n levels on the other side", Constant, |b, n| (0..n).map(|i| place(1, better(b, i), !b, QTY)).collect()),
        ("n better levels, each taken by its own swap", Constant, |b, n| {
            (0..n).rev().flat_map(|i| vec![place(2, better(b, i), b, QTY), swap(!b, QTY)]).collect()
        }),
        ("n better levels, taken by one swap", Constant, |b, n| {
            let mut v: Vec<Op> = (0..n).map(|i| place(2, better(b, i), b, QTY)).collect();
            v.push(swap(!b, 11 * n as u128));
            v
        }),
        ("n better levels, taken by one swap and claimed", Constant, |b, n| {
            let mut v: Vec<Op> = (0..n).map(|i| place(2, better(b, i), b, QTY)).collect();
            v.push(swap(!b, 11 * n as u128));
            v.extend((0..n).map(|i| cl(3, better(b, i), i + 2)));
            v
        }),
        ("n worse levels placed and cancelled", Constant, |b, n| {
            (0..n).flat_map(|i| vec![place(2, worse(b, i), b, QTY), can(2, worse(b, i), i + 2)]).collect()
        }),
        ("n better levels placed and cancelled, then passed by a swap", Constant, |b, n| {
            let mut v: Vec<Op> =
                (0..n).flat_map(|i| vec![place(2, better(b, i), b, QTY), can(2, better(b, i), i + 2)]).collect();
            v.push(swap(!b, 1));
            v
        }),
        ("n orders placed and cancelled far away", Constant, |b, n| {
            let t = if b { -FAR } else { FAR };
            (0..n).flat_map(|i| vec![place(0, t, b, QTY), can(0, t, i + 2)]).collect()
        }),
        ("n orders of the other side placed and cancelled on the level", Constant, |b, n| {
            (0..n).flat_map(|i| vec![place(0, A, !b, QTY), can(0, A, i + 2)]).collect()
        }),
        ("n orders placed and cancelled behind on the level", Log, |b, n| {
            (0..n).flat_map(|i| vec![place(0, A, b, QTY), can(0, A, i + 2)]).collect()
        }),
        ("n orders placed, filled and claimed far away", Constant, |b, n| {
            let t = if b { FAR } else { -FAR };
            (0..n).flat_map(|i| vec![place(1, t, b, 1000), swap(!b, 10), cl(3, t, i + 2)]).collect()
        }),
        ("n swaps on the other side", Constant, |b, n| {
            let mut v = vec![place(1, -worse(b, 0), !b, 10 * n as u128)];
            v.extend((0..n).map(|_| swap(b, 5)));
            v
        }),
        ("n swaps and claims on the other side", Constant, |b, n| {
            let mut v = vec![place(1, -worse(b, 0), !b, 10 * n as u128)];
            v.extend((0..n).flat_map(|_| vec![swap(b, 5), cl(1, -worse(b, 0), 2)]));
            v
        }),
        ("n small swaps on the level", Constant, |b, n| (0..n).map(|_| swap(!b, 1)).collect()),
        ("n small swaps on the level, each claimed", Constant, |b, n| (0..n).flat_map(|_| vec![swap(!b, 1), cl(3, A, 0)]).collect()),
    ]
}

/// What happens after the noise and is measured last: (name, operations; the last one is measured).
/// `f` is the id the next order gets.
type Measured = (&'static str, fn(bool, u64) -> Vec<Op>);
fn measured() -> Vec<Measured> {
    vec![
        ("place on the level", |b, _| vec![place(2, A, b, QTY)]),
        ("place on the other side", |b, _| vec![place(2, -worse(b, 5000), !b, QTY)]),
        ("place on a new best level", |b, _| vec![place(2, better(b, 5000), b, QTY)]),
        ("place with bounty on a new worst level", |b, _| vec![place_b(2, worse(b, 5000), b, QTY, BOUNTY)]),
        ("swap a little", |b, _| vec![swap(!b, 5)]),
        ("swap past the first order", |b, _| vec![swap(!b, ANCHOR + 5)]),
        ("swap within a target", |b, _| vec![swap_to(!b, 5, A)]),
        ("claim a full order", |b, _| vec![swap(!b, ANCHOR + 5), cl(0, A, 0)]),
        ("claim another's order with a bounty", |b, _| vec![swap(!b, ANCHOR + 5), cl(3, A, 0)]),
        ("claim a partial order", |b, _| vec![swap(!b, ANCHOR + 5), cl(1, A, 1)]),
        ("claim a second time", |b, _| vec![swap(!b, 5), cl(0, A, 0), swap(!b, ANCHOR), cl(0, A, 0)]),
        ("claim two orders in a batch", |b, _| {
            vec![swap(!b, ANCHOR + 5), Op::Batch { who: 3, ids: vec![(A, 0), (A, 1)], funds: false }]
        }),
        ("cancel an anchor order", |_, _| vec![can(1, A, 1)]),
        ("claim with a maker fee", |b, _| {
            vec![auth(A_GOV, AuthAct::SetMakerFeeRecipient(4)), auth(A_GOV, AuthAct::SetMakerFee(FEE)), swap(!b, ANCHOR + 5), cl(3, A, 0)]
        }),
        ("halt", |_, _| vec![auth(A_MOD, AuthAct::SetActive(false))]),
    ]
}
const ANCHOR: u128 = 100_000;
const BOUNTY: u128 = ONE / 200;
const FEE: u128 = ONE / 100;

fn beside() -> Vec<Scenario> {
    let mut v = vec![];
    for (nn, growth, noise) in noises() {
        for (mn, meas) in measured() {
            for bid in [true, false] {
                let d = if bid { "bids" } else { "asks" };
                // only claims and cancels look at cancellations
                let growth = if mn.starts_with("claim") || mn.starts_with("cancel") { growth } else { Growth::Constant };
                v.push(Scenario {
                    name: format!("{mn} beside {nn} ({d})"),
                    growth,
                    make: Box::new(move |n| {
                        let mut s = vec![place_b(0, A, bid, ANCHOR, BOUNTY), place_b(1, A, bid, ANCHOR, BOUNTY)];
                        s.extend(noise(bid, n));
                        s.extend(meas(bid, n));
                        let op = s.pop().unwrap();
                        (s, op)
                    }),
                });
            }
        }
    }
    v
}

pub enum Run {
    Cost(u64, u64, u64),
    Broken(String),
}

/// Storage accesses of the measured operation at size n, with the history run in lockstep.
pub fn measure(s: &Scenario, n: u64) -> Run {
    let (setup, op) = (s.make)(n);
    let mut w = match World::genesis() {
        Ok(w) => w,
        Err(e) => return Run::Broken(e),
    };
    let mut m = Model::genesis();
    let mut k = 1;
    for o in &setup {
        let r = step(&w, &m, o);
        if r.outcome.ok().is_none() || !r.expect.ok {
            return Run::Broken(format!("{}: n={n}: setup operation {k} {o:?}: {}", s.name, r.outcome.short()));
        }
        w = r.world;
        m = r.model;
        k += 1;
    }
    reset_counters();
    let mut x = w.clone();
    let r = run(&mut x, &op, m.next_id);
    let (rd, wr) = counters();
    if r.ok().is_none() {
        return Run::Broken(format!("{}: n={n}: {op:?}: {}", s.name, r.short()));
    }
    Run::Cost(rd, wr, k)
}

pub fn sizes(thorough: bool) -> Vec<u64> {
    let mut v = vec![4, 8, 16, 32, 64, 128, 256];
    if thorough {
        v.extend([48, 96, 100, 192, 333, 512, 1000]);
        v.sort();
    }
    v
}

/// Costs over the sizes, or what is wrong with them.
pub fn judge(s: &Scenario, sizes: &[u64]) -> (Vec<(u64, u64)>, u64, Option<String>) {
    let mut c = vec![];
    let mut steps = 0;
    for n in sizes {
        match measure(s, *n) {
            Run::Cost(r, w, k) => {
                c.push((*n, r + w));
                steps += k;
            }
            Run::Broken(e) => return (c, steps, Some(e)),
        }
    }
    let at = |n: u64| c.iter().find(|x| x.0 == n).unwrap().1;
    let (c4, c8) = (at(4), at(8));
    for (n, x) in c.iter().filter(|x| x.0 > 8) {
        let limit = match s.growth {
            // room for a constant detour, none for a term in n
            Growth::Constant => c8.max(c4) + 8,
            // an AVL path is at most 1.44 log2(n) long; the per-level cost is taken from the small sizes
            Growth::Log => {
                let per_level = c8.saturating_sub(c4).max(9) + 4;
                c8.max(c4) + (3.0 * per_level as f64 * ((*n as f64) / 8.0).log2()).ceil() as u64
            }
        };
        if *x > limit {
            return (
                c.clone(),
                steps,
                Some(format!("{}: {x} storage accesses at n={n}, at most {limit} if the cost is {:?} in n (costs {c:?})", s.name, s.growth)),
            );
        }
    }
    (c, steps, None)
}
