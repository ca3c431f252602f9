//! Independent exact arithmetic for the oracle: tick -> price and amount conversions, from the
//! documented rule (9,000,000 ticks per decade, six significant digits), on integers only.
use cosmwasm_std::Uint256;

pub const MIN_TICK: i64 = -108_000_000;
pub const MAX_TICK: i64 = 182_402_823;
pub const DECADE: i64 = 9_000_000;
pub const ONE: u128 = 1_000_000_000_000_000_000;

/// Price of a tick in units of 1e-18.
pub fn price(tick: i64) -> u128 {
    debug_assert!((MIN_TICK..=MAX_TICK).contains(&tick));
    let d = tick.div_euclid(DECADE);
    let r = tick.rem_euclid(DECADE) as u128;
    10u128.pow((18 + d) as u32) + r * 10u128.pow((12 + d) as u32)
}

fn muldiv(a: u128, n: u128, d: u128, up: bool) -> Uint256 {
    let p = Uint256::from(a) * Uint256::from(n);
    let d = Uint256::from(d);
    let q = p / d;
    if up && q * d != p {
        q + Uint256::one()
    } else {
        q
    }
}

/// Value of `amount` of the token given by an order in direction `bid`, in the other token.
/// A bid gives quote and is worth amount / price of base; an ask gives base: amount * price of quote.
pub fn value(bid: bool, amount: u128, tick: i64, up: bool) -> Uint256 {
    let p = price(tick);
    if bid {
        muldiv(amount, ONE, p, up)
    } else {
        muldiv(amount, p, ONE, up)
    }
}

pub fn to_u128(v: Uint256) -> Option<u128> {
    cosmwasm_std::Uint128::try_from(v).ok().map(|x| x.u128())
}

/// floor(amount * ratio), ratio in 1e-18 units.
pub fn frac(amount: Uint256, ratio: u128) -> Uint256 {
    amount
        .checked_multiply_ratio(Uint256::from(ratio), Uint256::from(ONE))
        .unwrap()
}
