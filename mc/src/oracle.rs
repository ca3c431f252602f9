//! Comparison of the real contract with the model: per transaction, and per state through the queries.
use crate::model::*;
use crate::price::{self, value, ONE};
use crate::world::*;
use cosmwasm_std::Uint256;
use serde_json::Value;
use std::collections::BTreeMap;
use std::str::FromStr;

/// One disagreement between the contract and what must hold.
#[derive(Clone, Debug)]
pub struct Dev {
    /// what kind of disagreement, e.g. "claim.pays"
    pub kind: &'static str,
    /// operation class that led here
    pub op: &'static str,
    /// why the operation had to fail, when it did not
    pub why: &'static str,
    pub what: String,
}

pub fn op_class(op: &Op) -> &'static str {
    match op {
        Op::Place { .. } => "place",
        Op::Cancel { .. } => "cancel",
        Op::Claim { .. } => "claim",
        Op::Batch { .. } => "batch",
        Op::Swap { .. } => "swap",
        Op::SwapOut { .. } => "swapout",
        Op::Auth { act, .. } => match act {
            AuthAct::SetActive(_) => "active",
            AuthAct::SetMakerFee(_) | AuthAct::SetMakerFeeRecipient(_) => "fee",
            _ => "role",
        },
        Op::Gov(GovAct::SetActive(_)) => "active",
        Op::Gov(_) => "role",
        Op::Migrate => "migrate",
        Op::Unset(_) | Op::StripPlacedAt | Op::SkipIds(_) => "upgrade",
        Op::Fault { op, .. } => op_class(op),
    }
}

pub struct Step {
    pub world: World,
    pub model: Model,
    pub outcome: Outcome,
    pub expect: Expect,
    pub devs: Vec<Dev>,
}

fn kind_of(cls: &'static str, what: &'static str) -> &'static str {
    macro_rules! t { ($($c:literal),*) => { match (cls, what) {
        $( ($c, "refused") => concat!($c, ".refused"),
           ($c, "accepted") => concat!($c, ".accepted"),
           ($c, "pays") => concat!($c, ".pays"),
           ($c, "events") => concat!($c, ".events"),
           ($c, "fault") => concat!($c, ".fault"), )*
        _ => "other" } } }
    t!("place", "cancel", "claim", "batch", "swap", "swapout", "active", "fee", "role", "migrate", "upgrade")
}

/// Runs `op` on both sides. The returned world/model are the successors on each side.
pub fn step(w: &World, m: &Model, op: &Op) -> Step {
    let cls = op_class(op);
    let mut devs = vec![];
    let mut world = w.clone();
    if let Op::Fault { at, op: inner } = op {
        // how many payments does the undisturbed operation make?
        let s = step(w, m, inner);
        let n = s.outcome.ok().map_or(0, |e| e.nmsgs);
        let outcome = run(&mut world, op, m.next_id);
        if (*at as usize) < n {
            if outcome.ok().is_some() {
                devs.push(Dev {
                    kind: kind_of(cls, "fault"),
                    op: cls,
                    why: "a payment was refused",
                    what: format!("payment {at} was refused by the bank, yet the transaction went through: {}", outcome.short()),
                });
            }
            let expect = Expect { why: "a payment was refused", ..Default::default() };
            return Step { world, model: m.clone(), outcome, expect, devs };
        }
        return s;
    }
    let mut model = m.clone();
    let expect = model.apply(op);
    let outcome = run(&mut world, op, m.next_id);
    match (&outcome, expect.ok) {
        (Outcome::Ok(e), true) => {
            let got = e.sums();
            if got != expect.pays || !e.unknown.is_empty() || e.absorbed > 0 {
                devs.push(Dev {
                    kind: kind_of(cls, "pays"),
                    op: cls,
                    why: "",
                    what: format!("payments {got:?} unknown {:?} absorbed {} expected {:?}", e.unknown, e.absorbed, expect.pays),
                });
            }
            for what in check_events(op, m, &expect, e) {
                devs.push(Dev { kind: kind_of(cls, "events"), op: cls, why: "", what });
            }
        }
        (Outcome::Ok(_), false) => devs.push(Dev {
            kind: kind_of(cls, "accepted"),
            op: cls,
            why: expect.why,
            what: format!("must be refused ({}), but: {}", expect.why, outcome.short()),
        }),
        (_, true) => devs.push(Dev {
            kind: kind_of(cls, "refused"),
            op: cls,
            // only administration is expected to succeed then
            why: if m.active { "" } else { "while halted" },
            what: format!("must succeed with payments {:?}, but: {}", expect.pays, outcome.short()),
        }),
        _ => {}
    }
    if outcome.ok().is_some() && world.bal != model.bal {
        devs.push(Dev {
            kind: "balance",
            op: cls,
            why: "",
            what: format!("contract holds {:?} (base, quote), model {:?}", show2(world.bal), show2(model.bal)),
        });
    }
    Step { world, model, outcome, expect, devs }
}

pub fn show2(b: [Uint256; 2]) -> String {
    format!("[{}, {}]", b[0], b[1])
}

fn dir(bid: bool) -> &'static str {
    if bid {
        "bid"
    } else {
        "ask"
    }
}

fn check_events(op: &Op, m: &Model, x: &Expect, e: &Effects) -> Vec<String> {
    let mut bad = vec![];
    let mut need = |got: &[(String, String)], want: &[(&str, String)], at: &str| {
        for (k, v) in want {
            let g: Vec<&String> = got.iter().filter(|a| a.0 == *k).map(|a| &a.1).collect();
            if g.len() != 1 || g[0] != v {
                bad.push(format!("{at}: attribute {k} is {g:?}, expected {v}"));
            }
        }
    };
    let claim_attrs = |c: &ClaimX, who: u8| {
        vec![
            ("sender", ADDRS[who as usize].to_string()),
            ("tick_id", c.tick.to_string()),
            ("order_id", c.id.to_string()),
            ("quantity_remaining", c.remaining.to_string()),
            ("owner", ADDRS[c.who as usize].to_string()),
            ("order_direction", dir(c.bid).to_string()),
            ("amount_claimed", c.net.to_string()),
            ("placed_quantity", c.placed.to_string()),
            ("fully_claimed", (c.remaining == 0).to_string()),
            ("order_denom", denom(!c.bid).to_string()),
            ("output_denom", denom(c.bid).to_string()),
        ]
    };
    let claimed: Vec<_> = e.events.iter().filter(|v| v.0 == "limitClaimed").collect();
    match op {
        Op::Place { who, tick, bid, qty, .. } => need(
            &e.attrs,
            &[
                ("method", "placeLimit".into()),
                ("owner", ADDRS[*who as usize].into()),
                ("tick_id", tick.to_string()),
                ("order_id", x.new_id.unwrap().to_string()),
                ("order_direction", dir(*bid).into()),
                ("quantity", qty.to_string()),
                ("order_denom", denom(!bid).into()),
                ("output_denom", denom(*bid).into()),
            ],
            "place",
        ),
        Op::Cancel { who, tick, id, .. } => {
            let o = x.cancelled.as_ref().unwrap();
            need(
                &e.attrs,
                &[
                    ("method", "cancelLimit".into()),
                    ("owner", ADDRS[*who as usize].into()),
                    ("tick_id", tick.to_string()),
                    ("order_id", id.to_string()),
                    ("order_direction", dir(o.bid).into()),
                    ("quantity", o.unfilled.to_string()),
                    ("initial_quantity", o.placed.to_string()),
                    ("order_denom", denom(!o.bid).into()),
                    ("output_denom", denom(o.bid).into()),
                ],
                "cancel",
            )
        }
        Op::Claim { who, .. } | Op::Batch { who, .. } => {
            let method = if matches!(op, Op::Claim { .. }) { "claimLimit" } else { "batchClaimLimit" };
            need(&e.attrs, &[("method", method.into())], "claim");
            if matches!(op, Op::Batch { .. }) {
                need(&e.attrs, &[("sender", ADDRS[*who as usize].into())], "batch");
            }
            for (i, c) in x.claims.iter().enumerate() {
                if let Some(ev) = claimed.get(i) {
                    need(&ev.1, &claim_attrs(c, *who), "limitClaimed");
                }
            }
            if claimed.len() != x.claims.len() {
                bad.push(format!("{} limitClaimed events for {} claims", claimed.len(), x.claims.len()));
            }
            return bad;
        }
        Op::Swap { who, bid, qty, min, .. } => {
            let out = x.swap.as_ref().unwrap().out.to_string();
            need(
                &e.attrs,
                &[
                    ("method", "swapExactAmountIn".into()),
                    ("sender", ADDRS[*who as usize].into()),
                    ("token_in", format!("{qty}{}", denom(!bid))),
                    ("token_out_denom", denom(*bid).into()),
                    ("token_out_min_amount", min.to_string()),
                    ("output_quantity", out.clone()),
                ],
                "swap",
            );
            let d: Option<String> = e
                .data
                .as_ref()
                .and_then(|d| serde_json::from_slice::<Value>(d).ok())
                .and_then(|v| v["token_out_amount"].as_str().map(|s| s.to_string()));
            if d.as_deref() != Some(&out) {
                bad.push(format!("swap: response data reports {d:?}, delivered {out}"));
            }
        }
        Op::Auth { act, .. } => {
            let a = |i: &u8| ADDRS[*i as usize].to_string();
            let w: Vec<(&str, String)> = match act {
                AuthAct::TransferAdmin(x) => vec![("method", "transfer_admin".into()), ("new_admin", a(x))],
                AuthAct::OfferModerator(x) => vec![("method", "offer_moderator".into()), ("new_moderator", a(x))],
                AuthAct::SetActive(b) => vec![("method", "set_active".into()), ("active", b.to_string())],
                AuthAct::SetMakerFeeRecipient(x) => {
                    vec![("method", "set_maker_fee_recipient".into()), ("maker_fee_recipient", a(x))]
                }
                AuthAct::SetMakerFee(f) => {
                    let got = e.attr("maker_fee").and_then(atomics);
                    if got != Some(Uint256::from(*f)) {
                        bad.push(format!("set_maker_fee: reports {got:?}, set {f}"));
                    }
                    return bad;
                }
                AuthAct::CancelAdminTransfer => vec![("method", "cancel_transfer_admin".into())],
                AuthAct::RejectAdminTransfer => vec![("method", "reject_admin_transfer".into())],
                AuthAct::ClaimAdmin => vec![("method", "claim_admin".into())],
                AuthAct::RenounceAdminship => vec![("method", "renounce_adminship".into())],
                AuthAct::ClaimModerator => vec![("method", "claim_moderator".into())],
                AuthAct::RejectModeratorOffer => vec![("method", "reject_moderator_offer".into())],
            };
            need(&e.attrs, &w, "auth")
        }
        Op::Gov(act) => {
            let w: Vec<(&str, String)> = match act {
                GovAct::TransferAdmin(x) => vec![("method", "sudo_transfer_admin".into()), ("new_admin", ADDRS[*x as usize].into())],
                GovAct::RemoveAdmin => vec![("method", "sudo_remove_admin".into())],
                GovAct::SetActive(b) => vec![("method", "set_active".into()), ("active", b.to_string())],
            };
            need(&e.attrs, &w, "sudo")
        }
        _ => {}
    }
    let _ = m;
    if !claimed.is_empty() {
        bad.push("limitClaimed event without a claim".into());
    }
    bad
}

/// Decimal string to units of 1e-18.
pub fn atomics(s: &str) -> Option<Uint256> {
    let (i, f) = s.split_once('.').unwrap_or((s, ""));
    if f.len() > 18 {
        return None;
    }
    let t = format!("{i}{f:0<18}");
    Uint256::from_str(t.trim_start_matches('0')).ok().or_else(|| {
        if t.bytes().all(|c| c == b'0') {
            Some(Uint256::zero())
        } else {
            None
        }
    })
}
/// Decimal string that must be an integer.
fn int(v: &Value) -> Option<Uint256> {
    let s = v.as_str()?;
    let (i, f) = s.split_once('.').unwrap_or((s, ""));
    if f.bytes().any(|c| c != b'0') {
        return None;
    }
    Uint256::from_str(i).ok()
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct SideV {
    pub tal: Uint256,
    pub ctt: Uint256,
    pub etas: Uint256,
    pub realized: Uint256,
    pub unrealized: Uint256,
}
#[derive(Clone, Debug, PartialEq)]
pub struct OrderV {
    pub id: u64,
    pub tick: i64,
    pub bid: bool,
    pub owner: String,
    pub qty: Uint256,
    pub placed: Uint256,
    pub etas: Uint256,
    pub bounty: Option<Uint256>,
    pub at: u64,
}
/// The book as the queries show it.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct View {
    pub sides: BTreeMap<(i64, bool), SideV>,
    pub orders: Vec<OrderV>,
    pub liq: BTreeMap<String, Uint256>,
}

pub fn parse_order(v: &Value) -> Option<OrderV> {
    Some(OrderV {
        id: v["order_id"].as_u64()?,
        tick: v["tick_id"].as_i64()?,
        bid: match v["order_direction"].as_str()? {
            "bid" => true,
            "ask" => false,
            _ => return None,
        },
        owner: v["owner"].as_str()?.to_string(),
        qty: int(&v["quantity"])?,
        placed: int(&v["placed_quantity"])?,
        etas: int(&v["etas"])?,
        bounty: match &v["claim_bounty"] {
            Value::Null => None,
            Value::String(s) => Some(atomics(s)?),
            _ => return None,
        },
        at: v["placed_at"].as_str()?.parse().ok()?,
    })
}

pub fn view(w: &World) -> Result<View, String> {
    let mut v = View::default();
    let at = w.query(r#"{"all_ticks":{}}"#)?;
    let ticks = at["ticks"].as_array().ok_or("all_ticks: no list")?;
    let mut ids = vec![];
    let bad = |s: &str| format!("unreadable {s}");
    for t in ticks {
        let id = t["tick_id"].as_i64().ok_or_else(|| bad("tick id"))?;
        ids.push(id);
        for (bid, k) in [(true, "bid_values"), (false, "ask_values")] {
            let s = &t["tick_state"][k];
            let g = |f: &str| int(&s[f]).ok_or_else(|| format!("tick {id} {k}.{f} = {}", s[f]));
            v.sides.insert(
                (id, bid),
                SideV {
                    tal: g("total_amount_of_liquidity")?,
                    ctt: g("cumulative_total_value")?,
                    etas: g("effective_total_amount_swapped")?,
                    realized: g("cumulative_realized_cancels")?,
                    unrealized: Uint256::zero(),
                },
            );
        }
    }
    let list: Vec<String> = ids.iter().map(|i| i.to_string()).collect();
    let un = w.query(&format!(r#"{{"get_unrealized_cancels":{{"tick_ids":[{}]}}}}"#, list.join(",")))?;
    let un = un["ticks"].as_array().ok_or("unrealized: no list")?;
    if un.len() != ids.len() {
        return Err(format!("unrealized cancels for {} of {} ticks", un.len(), ids.len()));
    }
    for (t, id) in un.iter().zip(&ids) {
        if t["tick_id"].as_i64() != Some(*id) {
            return Err("unrealized: wrong tick".into());
        }
        for (bid, k) in [(true, "bid_unrealized_cancels"), (false, "ask_unrealized_cancels")] {
            v.sides.get_mut(&(*id, bid)).unwrap().unrealized =
                int(&t["unrealized_cancels"][k]).ok_or_else(|| bad(k))?;
        }
    }
    for id in &ids {
        let os = w.query(&format!(r#"{{"orders_by_tick":{{"tick_id":{id}}}}}"#))?;
        let l = os["orders"].as_array().ok_or("orders_by_tick: no list")?;
        if os["count"].as_u64() != Some(l.len() as u64) {
            return Err(format!("orders_by_tick({id}) counts {} returns {}", os["count"], l.len()));
        }
        for o in l {
            v.orders.push(parse_order(o).ok_or_else(|| format!("unreadable order {o}"))?);
        }
    }
    let l = w.query(r#"{"get_total_pool_liquidity":{}}"#)?;
    for c in l["total_pool_liquidity"].as_array().ok_or("liquidity: no list")? {
        let d = c["denom"].as_str().ok_or("liquidity denom")?.to_string();
        v.liq.insert(d, int(&c["amount"]).ok_or("liquidity amount")?);
    }
    Ok(v)
}

impl View {
    /// Filled-but-unclaimed part of an order, as an indexer derives it from the queries.
    pub fn filled(&self, o: &OrderV) -> Uint256 {
        let Some(s) = self.sides.get(&(o.tick, o.bid)) else { return Uint256::zero() };
        let e = s.etas + s.unrealized;
        if e <= o.etas {
            Uint256::zero()
        } else {
            (e - o.etas).min(o.qty)
        }
    }
    /// What the contract owes, by its own account.
    pub fn owed(&self) -> Option<[Uint256; 2]> {
        let mut r = [Uint256::zero(); 2];
        for o in &self.orders {
            let f = self.filled(o);
            let (give, get) = if o.bid { (1, 0) } else { (0, 1) };
            r[give] += o.qty - f;
            r[get] += value(o.bid, price::to_u128(f)?, o.tick, false);
        }
        Some(r)
    }
}

/// Model-free: the contract can cover its obligations by its own account.
pub fn solvent(w: &World, v: &View, op: &'static str) -> Vec<Dev> {
    match v.owed() {
        Some(o) if o[0] <= w.bal[0] && o[1] <= w.bal[1] => vec![],
        Some(o) => vec![Dev {
            kind: "solvency",
            op,
            why: "",
            what: format!("owes {} by its own account but holds {}", show2(o), show2(w.bal)),
        }],
        None => vec![],
    }
}

pub fn cmp_view(v: &View, m: &Model, op: &'static str) -> Vec<Dev> {
    let mut d = vec![];
    let mut push = |kind: &'static str, what: String| d.push(Dev { kind, op, why: "", what });
    let zero = Side::default();
    let zv = SideV::default();
    let mut keys: Vec<(i64, bool)> = v.sides.keys().chain(m.sides.keys()).cloned().collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let s = m.sides.get(&k).unwrap_or(&zero);
        let g = v.sides.get(&k).unwrap_or(&zv);
        let at = format!("tick {} {}", k.0, dir(k.1));
        let rest = m.resting(k.0, k.1);
        if g.tal != rest {
            push("view.tal", format!("{at}: reports liquidity {}, resting is {rest}", g.tal));
        }
        if g.ctt != s.placed {
            push("view.ctt", format!("{at}: cumulative placed {} expected {}", g.ctt, s.placed));
        }
        if g.etas < g.realized || g.etas - g.realized != s.filled {
            push("view.fills", format!("{at}: swapped {} net of realized cancels {} expected {}", g.etas, g.realized, s.filled));
        }
        if g.realized + g.unrealized != s.passed {
            push(
                "view.unreal",
                format!("{at}: realized {} + realizable {} cancels, expected {} in total", g.realized, g.unrealized, s.passed),
            );
        }
    }
    let mut byid: BTreeMap<u64, &OrderV> = BTreeMap::new();
    for o in &v.orders {
        if byid.insert(o.id, o).is_some() {
            push("view.orders", format!("order {} listed twice", o.id));
        }
        if !m.orders.contains_key(&o.id) {
            push("view.orders", format!("order {} listed but closed", o.id));
        }
    }
    for o in m.orders.values() {
        let Some(g) = byid.get(&o.id) else {
            push("view.lost", format!("order {} (owner {}, {} resting, {} filled) is gone", o.id, ADDRS[o.who as usize], o.unfilled, o.filled));
            continue;
        };
        if g.qty != Uint256::from(o.unfilled) + Uint256::from(o.filled) {
            push("view.qty", format!("order {}: quantity {} expected {}+{}", o.id, g.qty, o.unfilled, o.filled));
        } else if v.filled(g) != Uint256::from(o.filled) {
            push("view.orderfill", format!("order {}: filled {} expected {}", o.id, v.filled(g), o.filled));
        }
        if g.tick != o.tick
            || g.bid != o.bid
            || g.owner != ADDRS[o.who as usize]
            || g.placed != Uint256::from(o.placed)
            || g.bounty != o.bounty.map(Uint256::from)
            || g.at != o.at
        {
            push("view.orders", format!("order {} recorded as {g:?}, placed as {o:?}", o.id));
        }
    }
    for bid in [true, false] {
        let t = m.dir_total(bid);
        let g = v.liq.get(denom(!bid)).cloned().unwrap_or_default();
        if g != t {
            push("view.liq", format!("pool liquidity of {} reported {g}, resting {t}", denom(!bid)));
        }
    }
    d
}

/// Spot prices against the best resting orders.
pub fn spot(w: &World, m: &Model) -> Vec<Dev> {
    let mut d = vec![];
    for (bid, q, b) in [(true, quote_denom(), base_denom()), (false, base_denom(), quote_denom())] {
        let Some(t) = m.best(bid) else { continue };
        let p = Uint256::from(price::price(t));
        let want = if bid { p } else { Uint256::from(ONE) * Uint256::from(ONE) / p };
        let r = w.query(&format!(r#"{{"spot_price":{{"quote_asset_denom":"{q}","base_asset_denom":"{b}"}}}}"#));
        let got = r.as_ref().ok().and_then(|v| v["spot_price"].as_str()).and_then(atomics);
        if got != Some(want) {
            d.push(Dev {
                kind: "spot",
                op: "query",
                why: "",
                what: format!("spot price of {b} in {q}: {r:?}, best resting {} is tick {t} (price {})", dir(bid), dec_u(want)),
            });
        }
    }
    d
}
pub fn dec_u(v: Uint256) -> String {
    let o = Uint256::from(ONE);
    let f = v % o;
    format!("{}.{:0>18}", v / o, f.to_string())
}

/// Quote against the sweep, and against the swap executed right away.
pub fn quotes(w: &World, m: &Model, amounts: &[u128]) -> (Vec<Dev>, u64) {
    let mut d = vec![];
    let mut n = 1;
    // the fee routers are told to pass is the one accepted
    let r = w.query(r#"{"get_swap_fee":{}}"#);
    let told = r.as_ref().ok().and_then(|v| v.as_str().or(v["swap_fee"].as_str())).and_then(atomics);
    if told != Some(Uint256::zero()) {
        d.push(Dev { kind: "quote", op: "query", why: "", what: format!("get_swap_fee answers {r:?}, but only zero is accepted") });
    }
    for bid in [true, false] {
        let mut all = amounts.to_vec();
        let mut e = m.edges(bid);
        if e.len() > 6 {
            // of a long queue the first and last ends
            let n = e.len();
            e.drain(2..n - 2);
        }
        all.extend(e.into_iter().flat_map(|x| [x - 1, x, x.saturating_add(1)]));
        all.push(u128::MAX);
        all.sort_unstable();
        all.dedup();
        for &q in &all {
            let body = format!(
                r#"{{"token_in":{{"denom":"{}","amount":"{q}"}},"token_out_denom":"{}","swap_fee":"0"}}"#,
                denom(!bid),
                denom(bid)
            );
            let s = m.sweep(bid, q, None);
            let want = if q == 0 || s.left_has_value { None } else { Some(s.out) };
            let mut sw = w.clone();
            let out = run(&mut sw, &swap(bid, q), m.next_id);
            let delivered = out.ok().and_then(|e| e.pays.iter().find(|p| p.denom == denom(bid)).map(|p| p.amount));
            for name in ["calc_out_amount_given_in", "calc_out_amt_given_in"] {
                n += 1;
                let r = w.query(&format!(r#"{{"{name}":{body}}}"#));
                let got = match &r {
                    Ok(v) => {
                        let a = v["token_out"]["amount"].as_str().and_then(|s| Uint256::from_str(s).ok());
                        if v["token_out"]["denom"].as_str() != Some(denom(bid)) || a.is_none() {
                            d.push(Dev { kind: "quote", op: "query", why: "", what: format!("{name} {body}: unreadable {v}") });
                            continue;
                        }
                        a
                    }
                    Err(_) => None,
                };
                if got != want {
                    d.push(Dev {
                        kind: "quote",
                        op: "query",
                        why: "",
                        what: format!("{name} {body} = {r:?}, the book gives {want:?}"),
                    });
                }
                if got.filter(|g| !g.is_zero()) != delivered {
                    d.push(Dev {
                        kind: "quote",
                        op: "query",
                        why: "",
                        what: format!("{name} {body} = {r:?}, but the swap gives {}", out.short()),
                    });
                }
            }
        }
    }
    for (din, dout, q, fee) in [
        (base_denom(), base_denom(), 2u128, "0"),
        (quote_denom(), quote_denom(), 2, "0"),
        (other_denom(), base_denom(), 2, "0"),
        (base_denom(), other_denom(), 2, "0"),
        (other_denom(), quote_denom(), 2, "0"),
        (quote_denom(), other_denom(), 2, "0"),
        (base_denom(), quote_denom(), 2, "0.000000000000000001"),
        (quote_denom(), base_denom(), 2, "0.000000000000000001"),
        (base_denom(), quote_denom(), 2, "0.01"),
        (quote_denom(), base_denom(), 2, "1"),
        (base_denom(), quote_denom(), 0, "0"),
        (quote_denom(), base_denom(), 0, "0"),
    ] {
        let body = format!(r#"{{"token_in":{{"denom":"{din}","amount":"{q}"}},"token_out_denom":"{dout}","swap_fee":"{fee}"}}"#);
        for name in ["calc_out_amount_given_in", "calc_out_amt_given_in"] {
            n += 1;
            if let Ok(v) = w.query(&format!(r#"{{"{name}":{body}}}"#)) {
                d.push(Dev { kind: "quote", op: "query", why: "", what: format!("{name} {body} must be refused, but answers {v}") });
            }
        }
    }
    (d, n)
}

pub fn roles(w: &World, m: &Model) -> Vec<Dev> {
    let mut d = vec![];
    let name = |o: Option<u8>| o.map_or(Value::Null, |i| Value::String(ADDRS[i as usize].into()));
    for (q, want) in [
        ("admin", name(m.admin)),
        ("admin_offer", name(m.admin_offer)),
        ("moderator", name(m.moderator)),
        ("moderator_offer", name(m.moderator_offer)),
    ] {
        let r = w.query(&format!(r#"{{"auth":{{"{q}":{{}}}}}}"#));
        if r.as_ref().ok() != Some(&want) {
            d.push(Dev { kind: "roles", op: "query", why: "", what: format!("{q} is {r:?}, expected {want}") });
        }
    }
    let r = w.query(r#"{"is_active":{}}"#);
    if r.as_ref().ok() != Some(&Value::Bool(m.active)) {
        d.push(Dev { kind: "isactive", op: "query", why: "", what: format!("is_active {r:?}, expected {}", m.active) });
    }
    let r = w.query(r#"{"get_maker_fee":{}}"#);
    let got = r.as_ref().ok().and_then(|v| v.as_str().or(v["maker_fee"].as_str())).and_then(atomics);
    if got != Some(Uint256::from(m.fee)) {
        d.push(Dev { kind: "feeq", op: "query", why: "", what: format!("maker fee {r:?}, expected {}", dec(m.fee)) });
    }
    d
}

/// C10: a fresh order rests behind everything that rested there: volume up to each of the last ends of its level is taken
/// with and without the order. What is wrong already without it is not the placement's fault.
pub fn queued(w: &World, m: &Model, s: &Step, op: &Op) -> (Vec<Dev>, u64) {
    let mut d = vec![];
    let mut n = 0;
    let Op::Place { tick, bid, .. } = op else { return (d, n) };
    let take = |w: &World, m: &Model, q: u128| {
        let t = step(w, m, &swap_to(!*bid, q, *tick));
        let mut d = t.devs;
        if t.outcome.ok().is_some() {
            match view(&t.world) {
                Ok(v) => d.extend(cmp_view(&v, &t.model, "place")),
                Err(e) => d.push(Dev { kind: "view.err", op: "place", why: "", what: e }),
            }
        }
        d
    };
    let mut e = s.model.edges(!*bid);
    e.retain(|q| s.model.sweep(!*bid, *q, Some(*tick)).refund == 0);
    let mut e = e.split_off(e.len().saturating_sub(3));
    if let Some(x) = e.last().filter(|x| **x > 1) {
        e.push(x - 1);
    }
    for q in e {
        n += 1;
        if let Some(x) = take(&s.world, &s.model, q).first() {
            if take(w, m, q).is_empty() {
                let what = format!("after the placement {q} are swapped through its level: {}", x.what);
                d.push(Dev { kind: "place.queue", op: "place", why: "", what });
            }
        }
    }
    (d, n)
}

/// Every query answer that describes the market, as one comparable text.
pub fn digest(w: &World) -> String {
    let mut s = String::new();
    let mut q = |m: String| s.push_str(&format!("{m} => {:?}\n", w.query(&m)));
    q(r#"{"all_ticks":{}}"#.into());
    q(r#"{"ticks_by_id":{"tick_ids":[0,-5000000,500000,1000000]}}"#.into());
    q(r#"{"get_unrealized_cancels":{"tick_ids":[0,-5000000,500000,1000000]}}"#.into());
    q(r#"{"orders_by_tick":{"tick_id":0}}"#.into());
    q(r#"{"order":{"tick_id":0,"order_id":0}}"#.into());
    q(r#"{"orderbook_state":{}}"#.into());
    q(r#"{"denoms":{}}"#.into());
    q(r#"{"get_total_pool_liquidity":{}}"#.into());
    q(r#"{"get_maker_fee":{}}"#.into());
    q(r#"{"get_swap_fee":{}}"#.into());
    for a in ["admin", "admin_offer", "moderator", "moderator_offer"] {
        q(format!(r#"{{"auth":{{"{a}":{{}}}}}}"#));
    }
    for a in ADDRS {
        q(format!(r#"{{"orders_by_owner":{{"owner":"{a}"}}}}"#));
    }
    for (x, y) in [(base_denom(), quote_denom()), (quote_denom(), base_denom())] {
        q(format!(r#"{{"spot_price":{{"quote_asset_denom":"{x}","base_asset_denom":"{y}"}}}}"#));
        for n in [1u128, 7, 100] {
            q(format!(
                r#"{{"calc_out_amt_given_in":{{"token_in":{{"denom":"{x}","amount":"{n}"}},"token_out_denom":"{y}","swap_fee":"0"}}}}"#
            ));
        }
    }
    s
}

/// C02: from here every order can be brought home, in several orders of withdrawal.
pub fn drain(w: &World, m: &Model, op: &'static str) -> Vec<Dev> {
    let mut d = vec![];
    let dev = |what: String| Dev { kind: "drain", op, why: "", what };
    let v = match view(w) {
        Ok(v) => v,
        Err(e) => return vec![dev(format!("book unreadable: {e}"))],
    };
    let who = |o: &OrderV| ADDRS.iter().position(|a| *a == o.owner).map(|x| x as u8);
    for variant in 0..3 {
        let mut x = w.clone();
        if !m.active {
            // governance can always reopen; trading being halted is not a loss of funds
            if run(&mut x, &Op::Gov(GovAct::SetActive(true)), m.next_id).ok().is_none() {
                return vec![dev("governance cannot reopen the book".into())];
            }
        }
        if m.recipient.is_none() && m.fee > 0 {
            // a fee nobody is named to receive holds claims up until the admin names someone
            let who = m.admin.unwrap_or_else(|| {
                // governance can always appoint an admin
                run(&mut x, &Op::Gov(GovAct::TransferAdmin(A_GOV)), m.next_id);
                A_GOV
            });
            if run(&mut x, &auth(who, AuthAct::SetMakerFeeRecipient(A_FEE)), m.next_id).ok().is_none() {
                return vec![dev("the admin cannot name a fee recipient".into())];
            }
        }
        let mut os = v.orders.clone();
        if variant > 0 {
            os.reverse();
        }
        let mut fail = vec![];
        let claim = |x: &mut World, o: &OrderV| {
            run(x, &Op::Claim { who: who(o).unwrap_or(4), tick: o.tick, id: o.id, funds: false }, m.next_id)
        };
        let cancel = |x: &mut World, o: &OrderV| {
            run(x, &Op::Cancel { who: who(o).unwrap_or(4), tick: o.tick, id: o.id, funds: false }, m.next_id)
        };
        if variant < 2 {
            for o in &os {
                let r = claim(&mut x, o);
                if r.ok().is_none() && !v.filled(o).is_zero() {
                    fail.push(format!("claim of order {} ({} filled): {}", o.id, v.filled(o), r.short()));
                }
                if v.filled(o) < o.qty {
                    let r = cancel(&mut x, o);
                    if r.ok().is_none() {
                        fail.push(format!("cancel of order {}: {}", o.id, r.short()));
                    }
                }
            }
        } else {
            // untouched orders leave first, then claims, then the remainders
            for o in os.iter().filter(|o| v.filled(o).is_zero()) {
                let r = cancel(&mut x, o);
                if r.ok().is_none() {
                    fail.push(format!("cancel of order {}: {}", o.id, r.short()));
                }
            }
            for o in os.iter().filter(|o| !v.filled(o).is_zero()) {
                let r = claim(&mut x, o);
                if r.ok().is_none() {
                    fail.push(format!("claim of order {}: {}", o.id, r.short()));
                }
            }
            for o in os.iter().filter(|o| !v.filled(o).is_zero() && v.filled(o) < o.qty) {
                let r = cancel(&mut x, o);
                if r.ok().is_none() {
                    fail.push(format!("cancel of order {}: {}", o.id, r.short()));
                }
            }
        }
        if let Some(f) = fail.first() {
            d.push(dev(format!("withdrawal order {variant}: {f}")));
            continue;
        }
        let end = match view(&x) {
            Ok(e) => e,
            Err(e) => {
                d.push(dev(format!("withdrawal order {variant}: book unreadable: {e}")));
                continue;
            }
        };
        if !end.orders.is_empty() || end.liq.values().any(|a| !a.is_zero()) || end.sides.values().any(|s| !s.tal.is_zero()) {
            d.push(dev(format!("withdrawal order {variant}: after everyone left: {end:?}")));
        }
        let owed = m.owed();
        let want = [m.bal[0].checked_sub(owed[0]), m.bal[1].checked_sub(owed[1])];
        if want[0].as_ref().ok() != Some(&x.bal[0]) || want[1].as_ref().ok() != Some(&x.bal[1]) {
            d.push(dev(format!(
                "withdrawal order {variant}: {} left in the contract, expected {want:?}",
                show2(x.bal)
            )));
        }
    }
    d
}

/// C16: halting stops trading and nothing else.
pub fn halt(w: &World, m: &Model, ops: &[Op]) -> (Vec<Dev>, u64) {
    let mut d = vec![];
    let mut n = 0;
    let dev = |what: String| Dev { kind: "halt", op: "active", why: "halted", what };
    let before = digest(w);
    let mut halts: Vec<Op> = vec![Op::Gov(GovAct::SetActive(false))];
    if let Some(a) = m.moderator {
        halts.push(auth(a, AuthAct::SetActive(false)));
    }
    if let Some(a) = m.admin {
        halts.push(auth(a, AuthAct::SetActive(false)));
    }
    for (i, h) in halts.iter().enumerate() {
        let mut x = w.clone();
        let mut hm = m.clone();
        hm.apply(h);
        if run(&mut x, h, m.next_id).ok().is_none() {
            d.push(dev(format!("{h:?} refused")));
            continue;
        }
        d.extend(roles(&x, &hm));
        if i == 0 {
            for op in ops {
                if matches!(op_class(op), "place" | "cancel" | "claim" | "batch" | "swap" | "swapout") {
                    n += 1;
                    let mut y = x.clone();
                    let r = run(&mut y, op, m.next_id);
                    if r.ok().is_some() {
                        d.push(dev(format!("while halted {op:?}: {}", r.short())));
                    }
                }
            }
        }
        if digest(&x) != before {
            d.push(dev(format!("{h:?} changed what the queries report")));
        }
        let reopen = match i {
            0 => Op::Gov(GovAct::SetActive(true)),
            1 if m.moderator.is_some() => auth(m.moderator.unwrap(), AuthAct::SetActive(true)),
            _ => auth(m.admin.unwrap_or(A_GOV), AuthAct::SetActive(true)),
        };
        let r = run(&mut x, &reopen, m.next_id);
        if r.ok().is_none() {
            d.push(dev(format!("reopening by {reopen:?}: {}", r.short())));
            continue;
        }
        n += 2;
        if digest(&x) != before {
            d.push(dev("halting and reopening changed the book".into()));
        }
        let mut om = m.clone();
        om.active = true;
        d.extend(roles(&x, &om));
        // and trading goes on exactly as before
        for op in ops.iter().filter(|o| matches!(op_class(o), "place" | "cancel" | "claim" | "batch" | "swap")) {
            n += 1;
            let s = step(&x, &om, op);
            for mut e in s.devs {
                e.what = format!("after halt and reopen, {op:?}: {}", e.what);
                e.kind = "halt";
                d.push(e);
            }
            if i > 0 {
                break;
            }
        }
    }
    (d, n)
}

/// C25: the upgrade entry point and records of older versions.
pub fn migrate(w: &World, m: &Model) -> Vec<Dev> {
    let mut d = vec![];
    let dev = |what: String| Dev { kind: "migrate", op: "migrate", why: "", what };
    let mut x = w.clone();
    let before = digest(w);
    let r = run(&mut x, &Op::Migrate, m.next_id);
    match r.ok() {
        None => d.push(dev(format!("migrate: {}", r.short()))),
        Some(e) => {
            if !e.pays.is_empty() || !e.unknown.is_empty() {
                d.push(dev(format!("migrate: {}", r.short())));
            }
            if digest(&x) != before {
                d.push(dev("migrate changed the book".into()));
            }
        }
    }
    for mut e in drain(&x, m, "migrate") {
        e.what = format!("after migrate: {}", e.what);
        e.kind = "migrate";
        d.push(e);
    }
    d
}

/// C13: every window of every listing.
pub fn pages(w: &World, m: &Model, full: bool) -> (Vec<Dev>, u64) {
    let mut d = vec![];
    let mut n = 0u64;
    let mut fail = |what: String| d.push(Dev { kind: "pages", op: "query", why: "", what });
    let ids = |v: &Value| -> Option<Vec<(i64, u64)>> {
        v["orders"].as_array()?.iter().map(|o| Some((o["tick_id"].as_i64()?, o["order_id"].as_u64()?))).collect()
    };
    let opt = |o: &Option<String>| o.clone().unwrap_or("null".into());
    // by owner
    for who in 0..4u8 {
        let mut mine: Vec<(i64, u64)> = m.orders.values().filter(|o| o.who == who).map(|o| (o.tick, o.id)).collect();
        mine.sort();
        let mut marks: Vec<Option<(i64, u64)>> = vec![None];
        if full {
            marks.extend(mine.iter().cloned().map(Some));
            for (t, i) in mine.clone() {
                marks.push(Some((t, i + 1)));
                marks.push(Some((t - 1, i)));
            }
            marks.sort();
            marks.dedup();
        } else if let (Some(a), Some(b)) = (mine.first(), mine.last()) {
            let c = mine[mine.len() / 2];
            marks.extend([Some(*a), Some(c), Some((c.0, c.1 + 1)), Some((c.0 + 1, 0)), Some((c.0, 0)), Some(*b), Some((b.0, b.1 + 1))]);
        }
        let len = mine.len() as u64;
        let mut limits: Vec<Option<u64>> = vec![None, Some(0), Some(1), Some(2), Some(len.max(1) - 1), Some(len), Some(len + 1), Some(1000)];
        if len > 50 {
            limits.extend([Some(99), Some(100), Some(101), Some(256), Some(1 << 16), Some(u32::MAX as u64)]);
        }
        limits.sort();
        limits.dedup();
        // following pages meet every order once
        for k in [1u64, 2, 7, 100] {
            if mine.is_empty() || (k < 7 && len > 50) {
                continue;
            }
            let mut all = vec![];
            let mut from: Option<(i64, u64)> = None;
            loop {
                n += 1;
                let msg = format!(
                    r#"{{"orders_by_owner":{{"owner":"{}","start_from":{},"end_at":null,"limit":{k}}}}}"#,
                    ADDRS[who as usize],
                    from.map_or("null".to_string(), |x| format!("[{},{}]", x.0, x.1 + 1)),
                );
                match w.query(&msg).ok().as_ref().and_then(ids) {
                    Some(p) if !p.is_empty() && all.len() <= mine.len() => {
                        from = p.last().cloned();
                        all.extend(p);
                    }
                    _ => break,
                }
            }
            if all != mine {
                fail(format!("pages of {k} orders of {} give {all:?} expected {mine:?}", ADDRS[who as usize]));
            }
        }
        for s in &marks {
            for e in &marks {
                for l in &limits {
                    n += 1;
                    let p = |o: &Option<(i64, u64)>| o.map(|x| format!("[{},{}]", x.0, x.1));
                    let msg = format!(
                        r#"{{"orders_by_owner":{{"owner":"{}","start_from":{},"end_at":{},"limit":{}}}}}"#,
                        ADDRS[who as usize],
                        opt(&p(s)),
                        opt(&p(e)),
                        opt(&l.map(|x| x.to_string()))
                    );
                    let want: Vec<(i64, u64)> = mine
                        .iter()
                        .filter(|x| s.map_or(true, |s| **x >= s) && e.map_or(true, |e| **x <= e))
                        .take(l.unwrap_or(100) as usize)
                        .cloned()
                        .collect();
                    match w.query(&msg) {
                        Ok(v) => {
                            if ids(&v).as_ref() != Some(&want) {
                                fail(format!("{msg} returns {:?} expected {want:?}", ids(&v)));
                            }
                            if v["count"].as_u64() != Some(len) {
                                fail(format!("{msg} counts {} expected {len}", v["count"]));
                            }
                        }
                        Err(e) => fail(format!("{msg}: {e}")),
                    }
                }
            }
        }
    }
    // by tick
    let mut ticks: Vec<i64> = m.sides.keys().map(|k| k.0).collect();
    ticks.dedup();
    for t in &ticks {
        let here: Vec<u64> = m.orders.values().filter(|o| o.tick == *t).map(|o| o.id).collect();
        let mut marks: Vec<Option<u64>> = vec![None];
        if full {
            if m.next_id < 64 {
                marks.extend((0..=m.next_id).map(Some));
            } else {
                marks.extend(here.iter().flat_map(|i| [i.saturating_sub(1), *i, i + 1]).map(Some));
                marks.sort();
                marks.dedup();
            }
        } else if let (Some(a), Some(b)) = (here.first(), here.last()) {
            marks.extend([Some(*a), Some(*b), Some((*a + *b) / 2), Some(*a + 1), Some(*b + 1)]);
        }
        for s in &marks {
            for e in &marks {
                let win: Vec<u64> =
                    here.iter().filter(|x| s.map_or(true, |s| **x >= s) && e.map_or(true, |e| **x <= e)).cloned().collect();
                let mut ls = vec![None, Some(0u64), Some(1), Some(2), Some(win.len() as u64), Some(10_000)];
                if win.len() > 50 {
                    ls.extend([Some(99), Some(100), Some(101), Some(255), Some(256)]);
                }
                for l in ls {
                    n += 1;
                    let msg = format!(
                        r#"{{"orders_by_tick":{{"tick_id":{t},"start_from":{},"end_at":{},"limit":{}}}}}"#,
                        opt(&s.map(|x| x.to_string())),
                        opt(&e.map(|x| x.to_string())),
                        opt(&l.map(|x| x.to_string()))
                    );
                    let want: Vec<(i64, u64)> =
                        win.iter().take(l.unwrap_or(u64::MAX) as usize).map(|i| (*t, *i)).collect();
                    match w.query(&msg) {
                        Ok(v) => {
                            if ids(&v).as_ref() != Some(&want) {
                                fail(format!("{msg} returns {:?} expected {want:?}", ids(&v)));
                            }
                            if v["count"].as_u64() != Some(win.len() as u64) {
                                fail(format!("{msg} counts {} expected {}", v["count"], win.len()));
                            }
                        }
                        Err(e) => fail(format!("{msg}: {e}")),
                    }
                }
            }
        }
    }
    // ticks
    let mut tm: Vec<Option<i64>> = vec![None];
    for t in &ticks {
        tm.extend([Some(*t), Some(*t + 1), Some(*t - 1)]);
    }
    if !full {
        tm.truncate(7);
    }
    let mut tl = vec![None, Some(0usize), Some(1), Some(2), Some(99), Some(100), Some(101), Some(ticks.len()), Some(1000)];
    if ticks.len() > 200 {
        tl.extend([Some(255), Some(256), Some(257), Some(ticks.len() - 1), Some(1 << 16), Some(u32::MAX as usize)]);
    }
    for s in &tm {
        for e in &tm {
            for l in &tl {
                n += 1;
                let msg = format!(
                    r#"{{"all_ticks":{{"start_from":{},"end_at":{},"limit":{}}}}}"#,
                    opt(&s.map(|x| x.to_string())),
                    opt(&e.map(|x| x.to_string())),
                    opt(&l.map(|x| x.to_string()))
                );
                let want: Vec<i64> = ticks
                    .iter()
                    .filter(|x| s.map_or(true, |s| **x >= s) && e.map_or(true, |e| **x <= e))
                    .take(l.unwrap_or(usize::MAX))
                    .cloned()
                    .collect();
                let got: Option<Vec<i64>> = w
                    .query(&msg)
                    .ok()
                    .and_then(|v| v["ticks"].as_array().map(|a| a.iter().filter_map(|t| t["tick_id"].as_i64()).collect()));
                if got.as_ref() != Some(&want) {
                    fail(format!("{msg} returns {got:?} expected {want:?}"));
                }
            }
        }
    }
    (d, n)
}

/// The queries that take a list of levels answer for each of them, in the order asked, as they do for one alone, and
/// not at all if one is unknown.
pub fn lists(w: &World) -> (Vec<Dev>, u64) {
    let mut d = vec![];
    let mut n = 0u64;
    let mut fail = |what: String| d.push(Dev { kind: "lists", op: "query", why: "", what });
    let Ok(all) = w.query(r#"{"all_ticks":{}}"#) else { return (d, n) };
    let all: Vec<Value> = all["ticks"].as_array().cloned().unwrap_or_default();
    let id = |t: &Value| t["tick_id"].as_i64().unwrap_or(i64::MAX);
    let ids: Vec<i64> = all.iter().map(id).collect();
    let mut some: Vec<usize> = (0..ids.len()).collect();
    if some.len() > 8 {
        some = vec![0, 1, ids.len() / 2, ids.len() - 1];
    }
    let un = |w: &World, l: &[i64]| {
        let l: Vec<String> = l.iter().map(|i| i.to_string()).collect();
        w.query(&format!(r#"{{"get_unrealized_cancels":{{"tick_ids":[{}]}}}}"#, l.join(",")))
    };
    let by = |w: &World, l: &[i64]| {
        let l: Vec<String> = l.iter().map(|i| i.to_string()).collect();
        w.query(&format!(r#"{{"ticks_by_id":{{"tick_ids":[{}]}}}}"#, l.join(",")))
    };
    let single: Vec<Value> = some.iter().map(|i| un(w, &[ids[*i]]).map(|v| v["ticks"][0].clone()).unwrap_or(Value::Null)).collect();
    n += single.len() as u64;
    let k = some.len();
    let mut asked: Vec<Vec<usize>> = vec![vec![], (0..k).collect(), (0..k).rev().collect()];
    for i in 0..k {
        asked.push(vec![i]);
        asked.push(vec![i, i]);
        asked.push(vec![i, (i + 1) % k, i]);
    }
    for l in &asked {
        n += 2;
        let t: Vec<i64> = l.iter().map(|i| ids[some[*i]]).collect();
        let want: Vec<Value> = l.iter().map(|i| all[some[*i]].clone()).collect();
        let got = by(w, &t);
        if got.as_ref().ok().and_then(|v| v["ticks"].as_array()) != Some(&want) {
            fail(format!("ticks_by_id({t:?}) = {got:?} but all_ticks lists {want:?}"));
        }
        let want: Vec<Value> = l.iter().map(|i| single[*i].clone()).collect();
        let got = un(w, &t);
        if got.as_ref().ok().and_then(|v| v["ticks"].as_array()) != Some(&want) {
            fail(format!("get_unrealized_cancels({t:?}) = {got:?} but one by one {want:?}"));
        }
    }
    // all the levels of a large book, several times over
    if ids.len() > 64 {
        for (times, back) in [(1, false), (1, true), (2, false)] {
            n += 2;
            let mut l: Vec<usize> = (0..ids.len() * times).map(|i| i % ids.len()).collect();
            if back {
                l.reverse();
            }
            let t: Vec<i64> = l.iter().map(|i| ids[*i]).collect();
            let got = by(w, &t);
            let same = got.as_ref().ok().and_then(|v| v["ticks"].as_array()).is_some_and(|v| v.len() == l.len() && v.iter().zip(&l).all(|(x, i)| *x == all[*i]));
            if !same {
                fail(format!("ticks_by_id of all {} levels{} differs from all_ticks: {}", t.len(), if back { ", last first," } else { "" }, got.err().unwrap_or_default()));
            }
            let got = un(w, &t);
            let known = |i: usize, x: &Value| some.iter().position(|s| *s == i).map_or(id(x) == ids[i], |k| *x == single[k]);
            let same = got.as_ref().ok().and_then(|v| v["ticks"].as_array()).is_some_and(|v| v.len() == l.len() && v.iter().zip(&l).all(|(x, i)| known(*i, x)));
            if !same {
                fail(format!("get_unrealized_cancels of all {} levels{} differs from one by one: {}", t.len(), if back { ", last first," } else { "" }, got.err().unwrap_or_default()));
            }
        }
    }
    if let Some(a) = ids.first() {
        let unknown = (1..).map(|i| a + i * 12_345).find(|u| !ids.contains(u)).unwrap();
        let b = *ids.last().unwrap();
        for l in [vec![unknown], vec![*a, unknown], vec![unknown, *a], vec![*a, unknown, b]] {
            n += 2;
            if let Ok(v) = by(w, &l) {
                fail(format!("ticks_by_id({l:?}) with the unknown level {unknown} answers {v}"));
            }
            if let Ok(v) = un(w, &l) {
                fail(format!("get_unrealized_cancels({l:?}) with the unknown level {unknown} answers {v}"));
            }
        }
    }
    (d, n)
}

/// C23: what lies outside the touched (tick, direction) stays as it was.
pub fn isolation(before: &View, after: &View, s: &Step, op: &Op) -> Vec<Dev> {
    let mut touched: Vec<(i64, bool)> = vec![];
    let mut orders: Vec<u64> = vec![];
    match op {
        Op::Place { tick, bid, .. } => touched.push((*tick, *bid)),
        Op::Cancel { tick, id, .. } => {
            touched.extend([(*tick, true), (*tick, false)]);
            orders.push(*id);
        }
        Op::Claim { tick, id, .. } => {
            touched.extend([(*tick, true), (*tick, false)]);
            orders.push(*id);
        }
        Op::Batch { ids, .. } => {
            for (t, i) in ids {
                touched.extend([(*t, true), (*t, false)]);
                orders.push(*i);
            }
        }
        Op::Swap { bid, target, .. } => {
            // only the opposite side, and never past the target
            for k in before.sides.keys() {
                if k.1 != *bid && target.map_or(true, |t| if *bid { k.0 <= t } else { k.0 >= t }) {
                    touched.push(*k);
                }
            }
        }
        _ => {}
    }
    let mut d = vec![];
    let mut push = |what: String| d.push(Dev { kind: "iso", op: op_class(op), why: "", what });
    let econ = |v: &View, k: &(i64, bool)| v.sides.get(k).map(|s| (s.tal, s.ctt, s.etas - s.realized.min(s.etas), s.realized + s.unrealized));
    for k in before.sides.keys().chain(after.sides.keys()) {
        let zero = Some((Uint256::zero(), Uint256::zero(), Uint256::zero(), Uint256::zero()));
        let (b, a) = (econ(before, k).or(zero), econ(after, k).or(zero));
        if !touched.contains(k) && b != a {
            push(format!("{op:?} changed tick {} {}: {b:?} -> {a:?}", k.0, dir(k.1)));
        }
        // a claim or cancel concerns one direction of the tick; the other keeps its fills
        let own = match op {
            Op::Cancel { id, .. } | Op::Claim { id, .. } => before.orders.iter().find(|o| o.id == *id).map(|o| o.bid),
            _ => None,
        };
        if let Some(own) = own {
            if k.1 != own && b != a {
                push(format!("{op:?} changed the other direction of tick {}: {b:?} -> {a:?}", k.0));
            }
        }
        if matches!(op, Op::Claim { .. } | Op::Batch { .. }) {
            // claims move no liquidity at all
            if b != a {
                push(format!("{op:?} changed liquidity of tick {} {}: {b:?} -> {a:?}", k.0, dir(k.1)));
            }
        }
    }
    for o in &before.orders {
        if orders.contains(&o.id) {
            continue;
        }
        let now = after.orders.iter().find(|x| x.id == o.id);
        if now != Some(o) {
            push(format!("{op:?} changed order {}: {o:?} -> {now:?}", o.id));
            continue;
        }
        if !matches!(op, Op::Swap { .. }) || !touched.contains(&(o.tick, o.bid)) {
            if before.filled(o) != after.filled(o) {
                push(format!("{op:?} moved the fill of order {}: {} -> {}", o.id, before.filled(o), after.filled(o)));
            }
        }
    }
    for o in &after.orders {
        if !before.orders.iter().any(|x| x.id == o.id) && !matches!(op, Op::Place { .. }) {
            push(format!("{op:?} created order {}", o.id));
        }
    }
    let _ = s;
    d
}

/// C08: however the claims of an order were timed, what it was paid in total is what one claim would
/// have paid, less at most one unit per extra claim and never more. (The model carries the payments the
/// contract actually made; `step` has compared them.)
pub fn payout_bound(m: &Model) -> Vec<Dev> {
    let mut d = vec![];
    for o in m.orders.values().filter(|_| m.ghost) {
        let claimed = o.placed - o.unfilled - o.filled;
        let at_once = value(o.bid, claimed, o.tick, false);
        if o.paid > at_once || o.paid + Uint256::from(o.nclaims.max(1) as u128 - 1) < at_once {
            d.push(Dev {
                kind: "payout",
                op: "claim",
                why: "",
                what: format!("order {}: {} claims paid {} in total for {claimed} filled, worth {at_once}", o.id, o.nclaims, o.paid),
            });
        }
    }
    d
}
