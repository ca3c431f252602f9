//! Level-synchronous, exhaustive breadth-first search over the real contract in lockstep with the model.
use crate::model::*;
use crate::oracle::*;
use crate::store::h128;
use crate::world::World;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub struct PathN {
    pub op: Op,
    pub prev: Option<Arc<PathN>>,
}
pub fn path_ops(p: &Option<Arc<PathN>>) -> Vec<Op> {
    let mut v = vec![];
    let mut c = p.clone();
    while let Some(n) = c {
        v.push(n.op.clone());
        c = n.prev.clone();
    }
    v.reverse();
    v
}

pub type Gen = Arc<dyn Fn(&Model) -> Vec<Op> + Send + Sync>;

#[derive(Clone)]
pub struct Profile {
    pub name: String,
    pub setup: Vec<Op>,
    pub ghost: bool,
    pub ops: Gen,
    /// A history followed step by step, with up to `depth` operations of the menu inserted anywhere in
    /// it. Empty: every sequence of up to `depth` operations of the menu.
    pub base: Vec<Op>,
    pub depth: usize,
    /// stop adding states beyond this many; reported when hit
    pub cap: usize,
}

/// Which state oracles a check evaluates on every state (the query view is always compared).
#[derive(Clone, Default)]
pub struct Oracles {
    pub drain: bool,
    pub probe: bool,
    pub quotes: Vec<u128>,
    pub spot: bool,
    pub roles: bool,
    pub bound: bool,
    pub halt: bool,
    pub fault: bool,
    pub migrate: bool,
    pub pages: u8,
    /// the queries that take lists of levels
    pub lists: bool,
    pub iso: bool,
    /// swaps right after a placement
    pub queued: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub oracles: Oracles,
    pub accepts: fn(&Dev) -> bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub profile: String,
    pub ghost: bool,
    pub ops: Vec<Op>,
    pub dev: Dev,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub evals: BTreeMap<&'static str, u64>,
    /// distinct (operation class, outcome) seen, with counts
    pub outcomes: BTreeMap<String, u64>,
    pub foreign: BTreeMap<String, u64>,
    pub depth: usize,
    pub truncated: bool,
    pub validated: u64,
    pub samples: Vec<String>,
    pub per_profile: Vec<serde_json::Value>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        for (k, v) in &o.evals {
            *self.evals.entry(k).or_default() += v;
        }
        for (k, v) in &o.outcomes {
            *self.outcomes.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.foreign {
            *self.foreign.entry(k.clone()).or_default() += v;
        }
        self.truncated |= o.truncated;
        self.validated += o.validated;
        self.samples.extend(o.samples.iter().cloned());
        self.per_profile.extend(o.per_profile.iter().cloned());
    }
}

struct Node {
    w: World,
    m: Model,
    path: Option<Arc<PathN>>,
    view: Option<Arc<View>>,
    /// position in the base history, operations inserted so far
    pos: u16,
    used: u8,
}

pub fn state_key(w: &World, m: &Model) -> u128 {
    let mh = |seed: u64| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        seed.hash(&mut h);
        m.hash(&mut h);
        h.finish()
    };
    let b0 = w.bal[0].to_be_bytes();
    let b1 = w.bal[1].to_be_bytes();
    h128(&[&w.store.hash.to_be_bytes(), &b0, &b1, &mh(1).to_be_bytes(), &mh(2).to_be_bytes()])
}

struct Seen(Vec<Mutex<HashSet<u128>>>);
impl Seen {
    fn new() -> Seen {
        Seen((0..256).map(|_| Mutex::new(HashSet::new())).collect())
    }
    fn insert(&self, k: u128) -> bool {
        self.0[(k & 255) as usize].lock().unwrap().insert(k)
    }
}

pub fn nthreads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
        .clamp(1, 16)
}

fn class_of(s: &Step, op: &Op) -> String {
    match &s.outcome {
        crate::world::Outcome::Ok(_) => {
            let extra = match op {
                Op::Batch { .. } => format!(" x{}", s.expect.claims.len()),
                Op::Swap { .. } => format!(" steps{}", s.expect.swap.as_ref().map_or(0, |x| x.steps.len())),
                Op::Claim { .. } => {
                    if s.expect.claims.first().map_or(0, |c| c.remaining) > 0 {
                        " partial".into()
                    } else {
                        " full".into()
                    }
                }
                _ => String::new(),
            };
            format!("{}:ok{extra}", op_class(op))
        }
        _ => format!("{}:refused({})", op_class(op), s.expect.why),
    }
}

/// All state oracles of a check, on one state. Also used by replays.
pub fn state_devs(p: &Prop, w: &World, m: &Model, op: &'static str, menu: &[Op], v: &Result<View, String>, st: &mut Stats) -> Vec<Dev> {
    let mut d = vec![];
    match v {
        Ok(v) => {
            d.extend(cmp_view(v, m, op));
            d.extend(solvent(w, v, op));
        }
        Err(e) => d.push(Dev { kind: "view.err", op, why: "", what: format!("a query failed: {e}") }),
    }
    let o = &p.oracles;
    let mut ev = |k: &'static str, n: u64| *st.evals.entry(k).or_default() += n;
    ev("whole-book query comparisons", 1);
    if o.spot {
        ev("spot price evaluations", 1);
        d.extend(spot(w, m));
    }
    if o.roles {
        ev("role query comparisons", 1);
        d.extend(roles(w, m));
    }
    if o.bound {
        ev("lifetime payout bounds", m.orders.len() as u64);
        d.extend(payout_bound(m));
    }
    if o.drain {
        ev("drain runs", 3);
        d.extend(drain(w, m, op));
    }
    if !o.quotes.is_empty() {
        let (x, n) = quotes(w, m, &o.quotes);
        ev("quotes compared", n);
        d.extend(x);
    }
    if o.probe && m.active && !m.orders.is_empty() {
        ev("claim-everything probes", 1);
        let ids: Vec<(i64, u64)> = m.orders.values().map(|o| (o.tick, o.id)).take(100).collect();
        let s = step(w, m, &Op::Batch { who: 4, ids, funds: false });
        let mut x = s.devs;
        match view(&s.world) {
            Ok(v) => x.extend(cmp_view(&v, &s.model, "batch")),
            Err(e) => x.push(Dev { kind: "view.err", op: "batch", why: "", what: e }),
        }
        for mut e in x {
            e.what = format!("after claiming everything claimable: {}", e.what);
            d.push(e);
        }
    }
    if o.halt && m.active {
        let (x, n) = halt(w, m, menu);
        ev("operations tried around a halt", n);
        d.extend(x);
    }
    if o.migrate {
        ev("migrations", 1);
        d.extend(migrate(w, m));
    }
    if o.pages > 0 {
        let (x, n) = pages(w, m, o.pages > 1 && m.orders.len() <= 12);
        ev("listing windows", n);
        d.extend(x);
    }
    if o.lists {
        let (x, n) = lists(w);
        ev("lists of levels asked", n);
        d.extend(x);
    }
    d
}

/// Explores one profile. Returns the violations of the first level that has any.
pub fn explore(p: &Prop, pr: &Profile, deadline: Instant, threads: usize) -> (Stats, Vec<Violation>) {
    let mut st = Stats::default();
    let mut viol: Vec<Violation> = vec![];
    let t0 = Instant::now();
    crate::world::use_names(&pr.name);
    // reach the initial state, in lockstep
    let mut m = Model::genesis();
    m.ghost = pr.ghost;
    let mut w = match World::genesis() {
        Ok(w) => w,
        Err(e) => {
            viol.push(Violation {
                profile: pr.name.clone(),
                ghost: pr.ghost,
                ops: vec![],
                dev: Dev { kind: "genesis", op: "instantiate", why: "", what: e },
            });
            return (st, viol);
        }
    };
    let mut path: Option<Arc<PathN>> = None;
    for op in &pr.setup {
        let s = step(&w, &m, op);
        st.transitions += 1;
        assert!(s.expect.ok, "profile {}: setup op {op:?} is refused by the model: {}", pr.name, s.expect.why);
        path = Some(Arc::new(PathN { op: op.clone(), prev: path }));
        for d in s.devs {
            if (p.accepts)(&d) {
                viol.push(Violation { profile: pr.name.clone(), ghost: pr.ghost, ops: path_ops(&path), dev: d });
            } else {
                *st.foreign.entry(d.kind.to_string()).or_default() += 1;
            }
        }
        w = s.world;
        m = s.model;
    }
    if !viol.is_empty() {
        return (st, viol);
    }
    let seen = Seen::new();
    let nodes = Seen::new();
    seen.insert(state_key(&w, &m));
    let v0 = view(&w);
    let menu0 = (pr.ops)(&m);
    for d in state_devs(p, &w, &m, "init", &menu0, &v0, &mut st) {
        if (p.accepts)(&d) {
            viol.push(Violation { profile: pr.name.clone(), ghost: pr.ghost, ops: path_ops(&path), dev: d });
        } else {
            *st.foreign.entry(d.kind.to_string()).or_default() += 1;
        }
    }
    st.states = 1;
    let mut frontier = vec![Node { w, m, path, view: v0.ok().map(Arc::new), pos: 0, used: 0 }];
    let levels = pr.base.len() + pr.depth;
    let total = AtomicUsize::new(1);
    let mut widths = vec![1usize];
    let mut ends: Vec<(Vec<Op>, u128)> = vec![];
    for level in 1..=levels {
        if frontier.is_empty() || !viol.is_empty() {
            break;
        }
        let last = level == levels;
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let trunc = AtomicBool::new(false);
        let fr = &frontier;
        type Out = (Stats, Vec<Node>, Vec<Violation>, Vec<(Vec<Op>, u128)>);
        let work = || -> Out {
            let mut st = Stats::default();
            let mut out = vec![];
            let mut viol = vec![];
            let mut ends = vec![];
            loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= fr.len() || stop.load(Ordering::Relaxed) {
                    break;
                }
                if Instant::now() > deadline {
                    trunc.store(true, Ordering::Relaxed);
                    break;
                }
                expand(p, pr, &fr[i], last, &seen, &nodes, &total, &trunc, &mut st, &mut out, &mut viol, &mut ends);
                if viol.len() > 50 {
                    stop.store(true, Ordering::Relaxed);
                }
            }
            (st, out, viol, ends)
        };
        let outs: Vec<Out> = if threads < 2 || fr.len() < 2 {
            vec![work()]
        } else {
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..threads).map(|_| sc.spawn(work)).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        };
        let mut nf = vec![];
        let mut level_ends = vec![];
        for (s, n, v, e) in outs {
            st.merge(&s);
            nf.extend(n);
            viol.extend(v);
            level_ends.extend(e);
        }
        if trunc.load(Ordering::Relaxed) {
            st.truncated = true;
        } else if viol.is_empty() {
            st.depth = level;
        }
        level_ends.sort_by(|a, b| a.1.cmp(&b.1));
        level_ends.truncate(40);
        ends.extend(level_ends);
        widths.push(total.load(Ordering::Relaxed) - widths.iter().sum::<usize>());
        frontier = nf;
    }
    viol.sort_by_cached_key(|v| (v.ops.len(), serde_json::to_string(&v.ops).unwrap()));
    // bind: re-execute explored histories from genesis and compare the final state with the explored one
    let n = ends.len();
    for (i, (ops, key)) in ends.iter().enumerate() {
        if n > 60 && i % (n / 60) != 0 {
            continue;
        }
        let (w, m) = rerun(ops, pr.ghost);
        assert_eq!(state_key(&w, &m), *key, "profile {}: replay from genesis diverged: {ops:?}", pr.name);
        st.validated += 1;
    }
    if let Some((ops, _)) = ends.last() {
        st.samples.push(format!("{}: {}", pr.name, serde_json::to_string(&ops).unwrap()));
    }
    st.per_profile.push(serde_json::json!({
        "profile": pr.name, "states": st.states, "transitions": st.transitions, "depth_bound": pr.depth,
        "history_length": pr.base.len(), "levels_completed": st.depth, "new_states_per_level": widths, "truncated": st.truncated,
        "closed": frontier.is_empty() && !st.truncated && st.depth < levels, "seconds": t0.elapsed().as_secs_f64(),
    }));
    (st, viol)
}

pub fn rerun(ops: &[Op], ghost: bool) -> (World, Model) {
    let mut m = Model::genesis();
    m.ghost = ghost;
    let mut w = World::genesis().unwrap();
    for op in ops {
        let s = step(&w, &m, op);
        w = s.world;
        m = s.model;
    }
    (w, m)
}

/// What one operation does, with every oracle of the check applied to it and to the state it leads to.
pub struct Eval {
    pub step: Step,
    pub devs: Vec<Dev>,
    /// disagreements under an injected payment refusal, with the refused payment
    pub faults: Vec<(u8, Dev)>,
    pub fresh: bool,
    pub key: u128,
    pub view: Option<View>,
}

/// `seen` tells whether the reached state is new; states seen before are not judged again unless
/// something else is already wrong.
pub fn evaluate(
    p: &Prop,
    ops: &Gen,
    w: &World,
    m: &Model,
    before: Option<&View>,
    op: &Op,
    st: &mut Stats,
    seen: &dyn Fn(u128) -> bool,
) -> Eval {
    let s = step(w, m, op);
    let mut devs = s.devs.clone();
    let mut faults = vec![];
    if p.oracles.fault && !matches!(op, Op::Fault { .. }) {
        if let Some(e) = s.outcome.ok() {
            for at in 0..e.nmsgs {
                let f = step(w, m, &Op::Fault { at: at as u8, op: Box::new(op.clone()) });
                *st.evals.entry("payment refusals injected").or_default() += 1;
                faults.extend(f.devs.into_iter().map(|d| (at as u8, d)));
            }
        }
    }
    if p.oracles.queued && s.outcome.ok().is_some() && s.expect.ok && devs.is_empty() && s.model.active {
        let (x, n) = queued(w, m, &s, op);
        *st.evals.entry("swaps right behind a placement").or_default() += n;
        devs.extend(x);
    }
    let key = state_key(&s.world, &s.model);
    let mut fresh = false;
    let mut v = None;
    if s.outcome.ok().is_some() {
        fresh = seen(key);
        if fresh || !devs.is_empty() || p.oracles.iso {
            let vv = view(&s.world);
            if p.oracles.iso {
                if let (Some(b), Ok(a)) = (before, &vv) {
                    *st.evals.entry("before/after comparisons").or_default() += 1;
                    devs.extend(isolation(b, a, &s, op));
                }
            }
            if fresh || !devs.is_empty() {
                let m2 = if p.oracles.halt { ops(&s.model) } else { vec![] };
                devs.extend(state_devs(p, &s.world, &s.model, op_class(op), &m2, &vv, st));
            }
            v = vv.ok();
        }
    } else if s.world.store.hash != w.store.hash || s.world.bal != w.bal {
        panic!("harness: a failed transaction left a trace");
    }
    Eval { step: s, devs, faults, fresh, key, view: v }
}

/// Replays a history and returns the disagreements of its last operation that break the property.
pub fn replay(p: &Prop, ops: &Gen, ghost: bool, hist: &[Op]) -> Result<Vec<Dev>, String> {
    let mut m = Model::genesis();
    m.ghost = ghost;
    let mut w = World::genesis()?;
    let mut st = Stats::default();
    let Some((last, init)) = hist.split_last() else {
        let v = view(&w);
        let menu = ops(&m);
        return Ok(state_devs(p, &w, &m, "init", &menu, &v, &mut st).into_iter().filter(|d| (p.accepts)(d)).collect());
    };
    for op in init {
        let s = step(&w, &m, op);
        w = s.world;
        m = s.model;
    }
    let before = view(&w).ok();
    let e = evaluate(p, ops, &w, &m, before.as_ref(), last, &mut st, &|_| true);
    Ok(e.devs.into_iter().chain(e.faults.into_iter().map(|f| f.1)).filter(|d| (p.accepts)(d)).collect())
}

#[allow(clippy::too_many_arguments)]
fn expand(
    p: &Prop,
    pr: &Profile,
    n: &Node,
    last: bool,
    seen: &Seen,
    nodes: &Seen,
    total: &AtomicUsize,
    trunc: &AtomicBool,
    st: &mut Stats,
    out: &mut Vec<Node>,
    viol: &mut Vec<Violation>,
    ends: &mut Vec<(Vec<Op>, u128)>,
) {
    let guided = !pr.base.is_empty();
    let mut menu = vec![];
    if !guided || (n.used as usize) < pr.depth {
        menu = (pr.ops)(&n.m);
    }
    let next = pr.base.get(n.pos as usize);
    if let Some(op) = next {
        menu.insert(0, op.clone());
    }
    for (i, op) in menu.iter().enumerate() {
        let follows = next.is_some() && i == 0;
        let e = evaluate(p, &pr.ops, &n.w, &n.m, n.view.as_deref(), op, st, &|k| seen.insert(k));
        st.transitions += 1;
        *st.outcomes.entry(class_of(&e.step, op)).or_default() += 1;
        let hist = |op: Op| {
            let mut ops = path_ops(&n.path);
            ops.push(op);
            ops
        };
        for (at, d) in e.faults {
            if (p.accepts)(&d) {
                let ops = hist(Op::Fault { at, op: Box::new(op.clone()) });
                viol.push(Violation { profile: pr.name.clone(), ghost: pr.ghost, ops, dev: d });
            }
        }
        let mut mine = false;
        for d in e.devs {
            if (p.accepts)(&d) {
                if !mine {
                    mine = true;
                    viol.push(Violation { profile: pr.name.clone(), ghost: pr.ghost, ops: hist(op.clone()), dev: d });
                }
            } else {
                *st.foreign.entry(d.kind.to_string()).or_default() += 1;
            }
        }
        if e.fresh {
            st.states += 1;
            total.fetch_add(1, Ordering::Relaxed);
        }
        let (pos, used) = match (guided, follows) {
            (false, _) => (0, 0),
            (_, true) => (n.pos + 1, n.used),
            (_, false) => (n.pos, n.used + 1),
        };
        // a refused step of the base history is passed over
        let refused = e.step.outcome.ok().is_none();
        let new = if guided {
            (follows || !refused) && nodes.insert(e.key ^ ((pos as u128) << 64 | used as u128 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835))
        } else {
            e.fresh
        };
        // never go on from where the two sides already part
        if !new || mine || refused == e.step.expect.ok {
            continue;
        }
        if total.load(Ordering::Relaxed) > pr.cap {
            trunc.store(true, Ordering::Relaxed);
            continue;
        }
        let path = Some(Arc::new(PathN { op: op.clone(), prev: n.path.clone() }));
        if ((e.key >> 64) % 97 == 0 || (last && ends.is_empty())) && ends.len() < 400 {
            ends.push((path_ops(&path), e.key));
        }
        if !last {
            let view = match (p.oracles.iso, e.view) {
                (false, _) => None,
                (true, Some(v)) => Some(Arc::new(v)),
                (true, None) => n.view.clone(),
            };
            out.push(Node { w: e.step.world, m: e.step.model, path, view, pos, used });
        }
    }
}
