//! Runs a check, confirms what it finds, writes the evidence and the replay file.
use crate::explore::*;
use crate::model::*;
use crate::oracle::Dev;
use crate::par;
use crate::price::{MAX_TICK, MIN_TICK};
use crate::{cost, grids, init, props, scripts, world};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

pub const IDS: [&str; 27] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// A transaction history; the last operation breaks the property.
    History { profile: String, ghost: bool, ops: Vec<Op> },
    Tick { tick: i64, direct: bool },
    Value { bid: bool, amount: u128, tick: i64, up: bool, direct: bool },
    Cost { scenario: String, thorough: bool },
    Init { case: init::Case },
    Genesis,
}

#[derive(Serialize, Deserialize)]
struct Recorded {
    property: String,
    tier: String,
    what: String,
    case: Case,
}

struct Bad {
    case: Case,
    what: String,
}

struct Report {
    coverage: Value,
    level: &'static str,
    assumptions: Vec<String>,
    bad: Vec<Bad>,
    summary: String,
}

fn verif() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()).into()
}

pub fn check(id: &str, th: bool) -> i32 {
    let t0 = Instant::now();
    if !IDS.contains(&id) {
        eprintln!("unknown property {id}");
        return 2;
    }
    let deadline = t0 + Duration::from_secs(if th { 6 * 3600 } else { 560 });
    let g = world::World::genesis();
    let mut r = match (id, &g) {
        (_, Err(e)) => Report {
            coverage: json!({"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": ["instantiate"],
                "evaluations": 1, "distinct_nontrivial": 0, "rule": "an orderbook cannot even be created"}),
            level: "model_checking",
            assumptions: vec![],
            bad: vec![Bad { case: Case::Genesis, what: format!("an orderbook cannot be created: {e}") }],
            summary: String::new(),
        },
        ("C19", _) => ticks(th, deadline),
        ("C20", _) => values(th, deadline),
        ("C22", _) => costs(th),
        ("C27", _) => inits(),
        _ => histories(id, th, deadline),
    };
    world::use_names("");
    // a finding counts only if it happens again, twice, from nothing
    let mut confirmed = None;
    let mut lost = vec![];
    for b in &r.bad {
        let again = (0..2).all(|_| recheck(id, &b.case).map_or(false, |x| !x.is_empty()));
        if again {
            confirmed = Some(b);
            break;
        }
        lost.push(format!("{:?}: {}", b.case, b.what));
        if lost.len() > 5 {
            break;
        }
    }
    let violations = usize::from(confirmed.is_some());
    let tier = if th { "thorough" } else { "quick" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    r.assumptions.push("the chain moves attached funds before the call, executes emitted messages in order and reverts everything on a failure that the contract does not handle".into());
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": r.level, "coverage": r.coverage,
        "assumptions": r.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write the evidence file: {e}");
        return 2;
    }
    if let Some(b) = confirmed {
        let dir = verif().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{id}.json"));
        let body = Recorded { property: id.into(), tier: tier.into(), what: b.what.clone(), case: b.case.clone() };
        let _ = std::fs::write(&f, serde_json::to_string_pretty(&body).unwrap() + "\n");
        println!("{id}: {}", b.what);
        if let Case::History { ops, .. } = &b.case {
            for o in ops {
                println!("  {}", serde_json::to_string(o).unwrap());
            }
        }
        println!("VIOLATION property={id} replay={}", f.display());
        return 1;
    }
    if !lost.is_empty() {
        eprintln!("{id}: seen once but not reproducible: {lost:?}");
        return 3;
    }
    println!("{id} held: {} in {:.1}s", r.summary, t0.elapsed().as_secs_f64());
    0
}

fn menu_of(id: &str, profile: &str) -> Gen {
    for th in [false, true] {
        if let Some(p) = props::profiles(id, th).into_iter().find(|p| p.name == profile) {
            return p.ops;
        }
    }
    std::sync::Arc::new(|_| vec![])
}

/// What is wrong with the case, on this build.
fn recheck(id: &str, c: &Case) -> Result<Vec<String>, String> {
    let some = |o: Option<String>| Ok(o.into_iter().collect());
    match c {
        Case::History { profile, ghost, ops } => {
            let p = props::prop(id).ok_or("unknown property")?;
            world::use_names(profile);
            let d: Vec<Dev> = replay(&p, &menu_of(id, profile), *ghost, ops)?;
            Ok(d.into_iter().map(|d| format!("[{}] {}", d.kind, d.what)).collect())
        }
        Case::Tick { tick, direct } => some(if *direct { direct_tick(*tick) } else { grids::bad_tick_blackbox(*tick) }),
        Case::Value { bid, amount, tick, up, direct } => some(if *direct {
            direct_value(*bid, *amount, *tick, *up)
        } else {
            grids::bad_value_blackbox(*bid, *amount, *tick)
        }),
        Case::Cost { scenario, thorough } => {
            let s = cost::scenarios().into_iter().find(|s| s.name == *scenario).ok_or("unknown scenario")?;
            some(cost::judge(&s, &cost::sizes(*thorough)).2)
        }
        Case::Init { case } => some(init::bad(case)),
        Case::Genesis => some(world::World::genesis().err()),
    }
}

pub fn replay_file(f: &str) -> i32 {
    let Recorded { property: id, case, .. } = match std::fs::read_to_string(f).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{f}: {e}");
            return 2;
        }
    };
    if let Case::History { profile, ops, ghost } = &case {
        world::use_names(profile);
        let mut m = Model::genesis();
        m.ghost = *ghost;
        if let Ok(mut w) = world::World::genesis() {
            for op in ops {
                let s = crate::oracle::step(&w, &m, op);
                println!("  {}\n    -> {}", serde_json::to_string(op).unwrap(), s.outcome.short());
                w = s.world;
                m = s.model;
            }
        }
    }
    match recheck(&id, &case) {
        Err(e) => {
            eprintln!("{e}");
            2
        }
        Ok(d) if d.is_empty() => {
            println!("{id}: the recorded case does not break the property on this build");
            0
        }
        Ok(d) => {
            for x in d {
                println!("{x}");
            }
            println!("VIOLATION property={id} replay={f}");
            1
        }
    }
}

fn histories(id: &str, th: bool, deadline: Instant) -> Report {
    let p = props::prop(id).unwrap();
    let mut st = Stats::default();
    let mut bad = vec![];
    let only = std::env::var("MC_PROFILE").ok();
    let verbose = std::env::var("MC_V").is_ok();
    let add = |bad: &mut Vec<Bad>, v: Vec<Violation>| {
        for v in v.into_iter().take(20) {
            bad.push(Bad {
                what: format!("[{}] after a {}: {}", v.dev.kind, v.dev.op, v.dev.what),
                case: Case::History { profile: v.profile, ghost: v.ghost, ops: v.ops },
            });
        }
    };
    let mut nprof = 0;
    for pr in props::profiles(id, th) {
        if only.as_ref().map_or(false, |o| !pr.name.contains(o.as_str())) {
            continue;
        }
        nprof += 1;
        let (s, v) = explore(&p, &pr, deadline, nthreads());
        if verbose {
            eprintln!("{}", s.per_profile.last().cloned().unwrap_or_default());
        }
        st.merge(&s);
        if !v.is_empty() {
            add(&mut bad, v);
            break;
        }
    }
    // long histories, one thread each
    let t1 = Instant::now();
    let stories = if only.as_deref().unwrap_or("stories") == "stories" { scripts::stories(id, th) } else { vec![] };
    let mut story_steps = 0;
    if bad.is_empty() && !stories.is_empty() {
        let (accs, done) = par::each(stories.len() as u64, 1, deadline, |i, a: &mut (Stats, Vec<Violation>)| {
            if !a.1.is_empty() {
                return;
            }
            let (name, ops) = &stories[i as usize];
            let pr = Profile {
                name: format!("story {name}"),
                setup: vec![],
                ghost: true,
                ops: std::sync::Arc::new(|_| vec![]),
                base: ops.clone(),
                depth: 0,
                cap: usize::MAX,
            };
            let (mut s, v) = explore(&p, &pr, deadline, 1);
            s.per_profile.clear();
            s.samples.clear();
            a.0.merge(&s);
            a.1.extend(v);
        });
        let mut v = vec![];
        for (s, x) in accs {
            story_steps += s.transitions;
            st.merge(&s);
            v.extend(x);
        }
        v.sort_by_key(|v| v.ops.len());
        add(&mut bad, v);
        st.truncated |= !done;
        st.per_profile.push(json!({"profile": "structured histories", "histories": stories.len(), "transitions": story_steps, "seconds": t1.elapsed().as_secs_f64()}));
        if verbose {
            eprintln!("{}", st.per_profile.last().unwrap());
        }
        if let Some((n, ops)) = stories.last() {
            st.samples.push(format!("{n}: {}", serde_json::to_string(&ops[..ops.len().min(12)]).unwrap()));
        }
    }
    let samples: Vec<String> = st.samples.iter().take(12).cloned().collect();
    let summary = format!(
        "{} states, {} transitions over {} profiles{}, {} distinct outcomes{}",
        st.states,
        st.transitions,
        nprof,
        if stories.is_empty() { String::new() } else { format!(" and {} long histories", stories.len()) },
        st.outcomes.len(),
        if st.truncated { " (TRUNCATED by a bound; see evidence)" } else { "" }
    );
    Report {
        coverage: json!({
            "states": st.states, "transitions": st.transitions,
            "traces_validated_against_impl": st.validated,
            "trace_validation": "every transition above is an execution of the real entry points compared with the model; the counted traces were in addition re-executed from genesis and ended in the same state",
            "samples": samples,
            "oracle_evaluations": st.evals,
            "outcomes": st.outcomes, "disagreements_of_other_properties": st.foreign,
            "profiles": st.per_profile,
            "exhaustive": !st.truncated,
        }),
        level: "model_checking",
        assumptions: vec![
            "values, actors, ticks and depth are bounded as listed per profile; within them every sequence of operations is executed".into(),
            "two states are the same when the contract's storage, its balances and the model state are equal (128-bit hash)".into(),
        ],
        bad,
        summary,
    }
}

#[cfg(feature = "direct")]
fn direct_tick(t: i64) -> Option<String> {
    crate::direct::bad_tick(t)
}
#[cfg(not(feature = "direct"))]
fn direct_tick(_: i64) -> Option<String> {
    None
}
#[cfg(feature = "direct")]
fn direct_value(bid: bool, amount: u128, tick: i64, up: bool) -> Option<String> {
    crate::direct::bad_value(bid, amount, tick, up)
}
#[cfg(not(feature = "direct"))]
fn direct_value(_: bool, _: u128, _: i64, _: bool) -> Option<String> {
    None
}
const DIRECT: bool = cfg!(feature = "direct");

type Acc = (u64, Vec<Bad>);
fn fold(accs: Vec<Acc>) -> (u64, Vec<Bad>) {
    let mut n = 0;
    let mut bad = vec![];
    for (k, b) in accs {
        n += k;
        bad.extend(b);
    }
    (n, bad)
}

fn ticks(th: bool, deadline: Instant) -> Report {
    let mut bad = vec![];
    let mut n_direct = 0;
    let mut done = true;
    if DIRECT {
        let span = (MAX_TICK - MIN_TICK + 1 + 4000) as u64;
        let (a, d) = par::each(span, 65_536, deadline, |i, a: &mut Acc| {
            a.0 += 1;
            if a.1.len() < 5 {
                let t = MIN_TICK - 2000 + i as i64;
                if let Some(what) = direct_tick(t) {
                    a.1.push(Bad { case: Case::Tick { tick: t, direct: true }, what });
                }
            }
        });
        done &= d;
        let (n, b) = fold(a);
        n_direct = n;
        bad.extend(b);
        for t in [i64::MIN, i64::MIN + 1, -1 << 40, i32::MIN as i64, i32::MAX as i64, 1 << 40, i64::MAX] {
            n_direct += 1;
            if let Some(what) = direct_tick(t) {
                bad.push(Bad { case: Case::Tick { tick: t, direct: true }, what });
            }
        }
    }
    // through the entry points: place at the tick, ask for the spot price
    let mut list = grids::grid_ticks(if th { 3000 } else { 300 });
    let stride = match (th, DIRECT) {
        (true, _) => 997,
        (false, true) => 99_991,
        (false, false) => 4_999,
    };
    let mut t = MIN_TICK + 1;
    while t <= MAX_TICK {
        list.push(t);
        t += stride;
    }
    for k in 1..50 {
        list.extend([MIN_TICK - k, MAX_TICK + k]);
    }
    list.extend([i64::MIN, i64::MAX, 1 << 40, -(1 << 40)]);
    list.sort();
    list.dedup();
    let (a, d) = par::each(list.len() as u64, 64, deadline, |i, a: &mut Acc| {
        a.0 += 1;
        if a.1.len() < 5 {
            let t = list[i as usize];
            if let Some(what) = grids::bad_tick_blackbox(t) {
                a.1.push(Bad { case: Case::Tick { tick: t, direct: false }, what });
            }
        }
    });
    done &= d;
    let (n_bb, b) = fold(a);
    bad.extend(b);
    Report {
        coverage: json!({
            "evaluations": n_direct + n_bb,
            "distinct_nontrivial": if DIRECT { n_direct } else { n_bb },
            "rule": "every tick of the supported range and 2000 beyond each end, each once, against the documented price rule computed on integers (which is strictly increasing by construction, checked alongside); the listed number of ticks also by placing an order there and asking for both spot prices",
            "through_entry_points": n_bb,
            "price_function_reachable_directly": DIRECT,
            "samples": [format!("tick {} -> {}", MIN_TICK, crate::model::price_dec(MIN_TICK)), format!("tick {} -> {}", MAX_TICK, crate::model::price_dec(MAX_TICK)), format!("tick -1 -> {}", crate::model::price_dec(-1))],
            "exhaustive": done && DIRECT,
        }),
        level: "exploration",
        assumptions: vec![],
        bad,
        summary: format!("{n_direct} ticks directly, {n_bb} through the entry points"),
    }
}

fn values(th: bool, deadline: Instant) -> Report {
    let mut bad = vec![];
    let mut n_direct = 0u64;
    let mut done = true;
    let mut dims = vec![];
    if DIRECT {
        let ticks = grids::grid_ticks(if th { 40 } else { 3 });
        let amounts = grids::grid_amounts(if th { 6000 } else { 1200 }, true);
        dims.push(json!({"ticks": ticks.len(), "amounts": amounts.len(), "directions": 2, "roundings": 2}));
        let (a, d) = par::each(ticks.len() as u64, 1, deadline, |i, a: &mut Acc| {
            for &amt in &amounts {
                for bid in [true, false] {
                    for up in [true, false] {
                        a.0 += 1;
                        if a.1.len() < 5 {
                            let t = ticks[i as usize];
                            if let Some(what) = direct_value(bid, amt, t, up) {
                                a.1.push(Bad { case: Case::Value { bid, amount: amt, tick: t, up, direct: true }, what });
                            }
                        }
                    }
                }
            }
        });
        done &= d;
        let (n, b) = fold(a);
        n_direct = n;
        bad.extend(b);
        // the stride is prime, so the ticks visited fall differently in every power of ten
        let stride = if th { 1 } else { 61 };
        let n_ticks = ((MAX_TICK - MIN_TICK) / stride + 1) as u64;
        dims.push(json!({"ticks": n_ticks, "every": stride, "amounts": "the least worth 1, 3, 1000003, 10^18, 2^64-1, 10^30+7, and their neighbours", "directions": 2, "roundings": 2}));
        let (a, d) = par::each(n_ticks, 1000, deadline, |i, a: &mut Acc| {
            let t = MIN_TICK + i as i64 * stride;
            for bid in [true, false] {
                for amt in grids::edge_amounts(bid, t, false) {
                    for up in [true, false] {
                        a.0 += 1;
                        if a.1.len() < 5 {
                            if let Some(what) = direct_value(bid, amt, t, up) {
                                a.1.push(Bad { case: Case::Value { bid, amount: amt, tick: t, up, direct: true }, what });
                            }
                        }
                    }
                }
            }
        });
        done &= d;
        let (n, b) = fold(a);
        n_direct += n;
        bad.extend(b);
    }
    let ticks = grids::grid_ticks(if th { 20 } else { 3 });
    let amounts = grids::grid_amounts(if th { 60 } else { 12 }, th);
    dims.push(json!({"ticks": ticks.len(), "maker_amounts": amounts.len(), "and": "per tick the least amounts worth 21 whole numbers, and their neighbours", "directions": 2, "taker_amounts": "price of all, one more, one less, a half, a third"}));
    let (a, d) = par::each(ticks.len() as u64, 1, deadline, |i, a: &mut Acc| {
        let t = ticks[i as usize];
        for bid in [true, false] {
            for amt in amounts.iter().cloned().chain(grids::edge_amounts(bid, t, true)) {
                a.0 += 1;
                if a.1.len() < 5 {
                    if let Some(what) = grids::bad_value_blackbox(bid, amt, t) {
                        a.1.push(Bad { case: Case::Value { bid, amount: amt, tick: t, up: false, direct: false }, what });
                    }
                }
            }
        }
    });
    done &= d;
    let (n_bb, b) = fold(a);
    bad.extend(b);
    Report {
        coverage: json!({
            "evaluations": n_direct + n_bb,
            "distinct_nontrivial": n_direct + n_bb,
            "rule": "the full product of the listed ticks (decade boundaries, their neighbours, simple and awkward fractions) and amounts (1.., powers of two and ten and their neighbours, the largest), both directions and roundings, each once, against exact integer arithmetic; then, for every tick of a finer grid, the amounts whose value is a whole number or just misses one; the last grid trades through the entry points: place, swap, claim twice. Every case has a non-zero amount.",
            "grids": dims, "direct": n_direct, "trades": n_bb,
            "samples": [json!({"tick": 162_000_001, "bid": true, "amount": 1, "up": crate::price::value(true, 1, 162_000_001, true).to_string()})],
            "exhaustive": done,
        }),
        level: "exploration",
        assumptions: vec!["amounts and ticks between grid points are not enumerated".into()],
        bad,
        summary: format!("{n_direct} conversions directly, {n_bb} trades"),
    }
}

fn costs(th: bool) -> Report {
    let sc = cost::scenarios();
    let sizes = cost::sizes(th);
    let (accs, _) = par::each(sc.len() as u64, 1, Instant::now() + Duration::from_secs(6 * 3600), |i, a: &mut (u64, BTreeMap<String, Vec<(u64, u64)>>, Vec<Bad>)| {
        let s = &sc[i as usize];
        let (c, n, e) = cost::judge(s, &sizes);
        a.0 += n;
        a.1.insert(format!("{} [{:?}]", s.name, s.growth), c);
        if let Some(what) = e {
            a.2.push(Bad { case: Case::Cost { scenario: s.name.clone(), thorough: th }, what });
        }
    });
    let mut steps = 0;
    let mut all = BTreeMap::new();
    let mut bad = vec![];
    for (n, m, b) in accs {
        steps += n;
        all.extend(m);
        bad.extend(b);
    }
    bad.sort_by(|a, b| a.what.cmp(&b.what));
    let measured = all.values().map(|v| v.len() as u64).sum::<u64>();
    Report {
        coverage: json!({
            "states": steps, "transitions": steps, "traces_validated_against_impl": measured,
            "samples": all.iter().take(6).map(|(k, v)| format!("{k}: (size, accesses) {v:?}")).collect::<Vec<_>>(),
            "sizes": sizes, "histories": sc.len(), "costs": all.iter().map(|(k, v)| (k.clone(), json!(v))).collect::<BTreeMap<_, _>>(),
            "exhaustive": true,
        }),
        level: "model_checking",
        assumptions: vec!["storage accesses (reads, writes, iterated entries) stand for gas; the measured books have the listed sizes and build-up orders".into()],
        bad,
        summary: format!("{} growth curves, {steps} transactions", all.len()),
    }
}

fn inits() -> Report {
    let cs = init::cases();
    let mut bad = vec![];
    for c in &cs {
        if let Some(what) = init::bad(c) {
            bad.push(Bad { case: Case::Init { case: c.clone() }, what });
        }
    }
    Report {
        coverage: json!({
            "evaluations": cs.len(), "distinct_nontrivial": cs.len(),
            "rule": "every ordered pair of the listed names with every combination of supplies (query fails, 0, 1, some, largest), each once; all are distinct by construction",
            "samples": cs.iter().take(5).map(|c| serde_json::to_string(c).unwrap()).collect::<Vec<_>>(),
            "exhaustive": true,
        }),
        level: "exploration",
        assumptions: vec!["the bank answers supply queries with an error or an amount".into()],
        bad,
        summary: format!("{} configurations", cs.len()),
    }
}
