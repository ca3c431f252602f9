//! C27: what an orderbook may be created from, and what it is then.
use crate::model::Model;
use crate::oracle::{cmp_view, roles, view};
use crate::world::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub base: String,
    pub quote: String,
    /// supply of "ubase", "uquote", "factory/osmo1abc/tok" (None: the supply query fails)
    pub supply: Vec<(String, Option<u128>)>,
}

pub fn cases() -> Vec<Case> {
    let names = ["ubase", "uquote", "factory/osmo1abc/tok", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", ""];
    let sup = [None, Some(0u128), Some(1), Some(1_000_000), Some(u128::MAX)];
    // names that differ only in case, in one letter, in length
    let near = ["ubase", "UBASE", "Ubase", "ubas", "ubase1", "xubase"];
    let mut v = vec![];
    let all = names.iter().flat_map(|b| names.iter().map(move |q| (*b, *q)));
    for (b, q) in all.chain(near.iter().flat_map(|b| near.iter().map(move |q| (*b, *q)))) {
        {
            for sb in sup {
                for sq in sup {
                    let mut supply = vec![(b.to_string(), sb)];
                    if q != b {
                        supply.push((q.to_string(), sq));
                    } else if sb != sq {
                        continue;
                    }
                    // the empty name has no supply on any chain
                    for s in supply.iter_mut() {
                        if s.0.is_empty() {
                            s.1 = None;
                        }
                    }
                    let c = Case { base: b.into(), quote: q.into(), supply };
                    if !v.contains(&c) {
                        v.push(c);
                    }
                }
            }
        }
    }
    v
}

/// None if the contract does what it must.
pub fn bad(c: &Case) -> Option<String> {
    let get = |d: &str| c.supply.iter().find(|s| s.0 == d).and_then(|s| s.1);
    let must = c.base != c.quote && get(&c.base).unwrap_or(0) > 0 && get(&c.quote).unwrap_or(0) > 0;
    let supply = c.supply.iter().filter_map(|s| s.1.map(|x| (s.0.clone(), x))).collect();
    let fail = c.supply.iter().filter(|s| s.1.is_none()).map(|s| s.0.clone()).collect();
    let (w, e) = match World::instantiate_with(&c.base, &c.quote, supply, fail) {
        Err(e) => return must.then(|| format!("{c:?} must be accepted: {e}")),
        Ok(_) if !must => return Some(format!("{c:?} must be refused")),
        Ok(x) => x,
    };
    if e.nmsgs != 0 {
        return Some(format!("{c:?}: creation dispatches {} messages", e.nmsgs));
    }
    for (k, want) in [("base_denom", &c.base), ("quote_denom", &c.quote)] {
        if e.attr(k) != Some(want.as_str()) {
            return Some(format!("{c:?}: creation reports {k} = {:?}", e.attr(k)));
        }
    }
    // the contract's name and version, as migrations of it will look for them
    match cosmwasm_std::Storage::get(&w.store, b"contract_info").and_then(|v| serde_json::from_slice::<serde_json::Value>(&v).ok()) {
        Some(v) if v["contract"].as_str().map_or(false, |x| x.contains("orderbook")) && v["version"].as_str().map_or(false, |x| !x.is_empty()) => {}
        v => return Some(format!("{c:?}: the contract's recorded name and version are {v:?}")),
    }
    let d = w.query(r#"{"denoms":{}}"#);
    let ok = d.as_ref().map_or(false, |v| {
        v["base_denom"].as_str() == Some(&c.base) && v["quote_denom"].as_str() == Some(&c.quote)
    });
    if !ok {
        return Some(format!("{c:?}: denoms are {d:?}"));
    }
    let m = Model::genesis();
    if let Some(x) = roles(&w, &m).first() {
        return Some(format!("{c:?}: {}", x.what));
    }
    match view(&w) {
        Ok(v) if v.orders.is_empty() && v.sides.is_empty() => {}
        v => return Some(format!("{c:?}: not an empty book: {v:?}")),
    }
    if c.base == base_denom() && c.quote == quote_denom() {
        if let Some(x) = view(&w).ok().and_then(|v| cmp_view(&v, &m, "init").into_iter().next()) {
            return Some(format!("{c:?}: {}", x.what));
        }
    }
    // the pair decides the sides, and nothing else trades
    for (give, get, ok) in [
        (c.base.as_str(), c.quote.as_str(), true),
        (c.quote.as_str(), c.base.as_str(), true),
        (c.base.as_str(), c.base.as_str(), false),
        ("uother", c.base.as_str(), false),
        (c.base.as_str(), "uother", false),
    ] {
        let r = w.query(&format!(r#"{{"spot_price":{{"quote_asset_denom":"{give}","base_asset_denom":"{get}"}}}}"#));
        if r.is_ok() != ok {
            return Some(format!("{c:?}: spot price of {get} in {give}: {r:?}"));
        }
    }
    // each side takes its own token and no other
    for (bid, token, ok) in [
        (false, c.base.as_str(), true),
        (true, c.quote.as_str(), true),
        (false, c.quote.as_str(), false),
        (true, c.base.as_str(), false),
        (true, "uother", false),
        (false, "uother", false),
    ] {
        let side = if bid { "bid" } else { "ask" };
        let msg = format!(r#"{{"place_limit":{{"tick_id":{},"order_direction":"{side}","quantity":"7"}}}}"#, if bid { -1 } else { 1 });
        let funds = vec![cosmwasm_std::coin(7, token)];
        let r = w.clone().tx(Entry::Execute { sender: "alice".into(), funds, msg }, None);
        if matches!(r, Outcome::Ok(_)) != ok {
            return Some(format!("{c:?}: a new {side} paid in {token}: accepted = {}", !ok));
        }
    }
    None
}
