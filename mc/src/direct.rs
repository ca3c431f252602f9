//! Checks that enumerate inputs of the public price arithmetic of the contract crate.
//! (Compiled only with the feature `direct`, which check.sh drops when this module does not build.)
use crate::price::*;
use cosmwasm_std::{Decimal256, Uint128, Uint256};
use sumtree_orderbook::tick_math::{amount_to_value, tick_to_price, RoundingDirection};
use sumtree_orderbook::types::OrderDirection;

pub fn impl_price(t: i64) -> Result<Uint256, String> {
    tick_to_price(t).map(|d| d.atomics()).map_err(|e| e.to_string())
}

pub fn impl_value(bid: bool, amount: u128, price_atomics: u128, up: bool) -> Result<Uint256, String> {
    let d = if bid { OrderDirection::Bid } else { OrderDirection::Ask };
    let r = if up { RoundingDirection::Up } else { RoundingDirection::Down };
    let p = Decimal256::new(Uint256::from(price_atomics));
    amount_to_value(d, Uint128::new(amount), p, r).map_err(|e| e.to_string())
}

/// The disagreement of one tick with the documented price rule, if any.
pub fn bad_tick(t: i64) -> Option<String> {
    // the rule itself is strictly increasing
    if t > MIN_TICK && t <= MAX_TICK {
        assert!(price(t) > price(t - 1));
    }
    let got = impl_price(t);
    if (MIN_TICK..=MAX_TICK).contains(&t) {
        let want = Uint256::from(price(t));
        if got.as_ref().ok() != Some(&want) {
            return Some(format!("price of tick {t} is {got:?}, expected {want} (in 1e-18)"));
        }
    } else if got.is_ok() {
        return Some(format!("tick {t} is out of range but has price {got:?}"));
    }
    None
}

pub fn bad_value(bid: bool, amount: u128, tick: i64, up: bool) -> Option<String> {
    let want = value(bid, amount, tick, up);
    let got = std::panic::catch_unwind(|| impl_value(bid, amount, price(tick), up)).unwrap_or_else(|_| Err("panic".into()));
    if got.as_ref().ok() != Some(&want) {
        return Some(format!(
            "converting {amount} at tick {tick} ({} direction, rounding {}) gives {got:?}, exact is {want}",
            if bid { "bid" } else { "ask" },
            if up { "up" } else { "down" }
        ));
    }
    None
}
