//! P14: the market's fee arithmetic, over the whole range of amounts and rates.
use crate::core::zero_market;
use crate::sym::*;
use openbook_v2::state::Market;

const S: i128 = 1_000_000;

fn market() -> (Market, i128, i128) {
    let m = zero_market();
    let t = i64r("taker_fee", 0, 1_000_000);
    let k = i64r("maker_fee", -1_000_000, 1_000_000);
    // a market cannot be created otherwise (P24)
    assume(k + t >= 0);
    m.taker_fee = t;
    m.maker_fee = k;
    (*m, t as i128, k as i128)
}
const TOP: u64 = i64::MAX as u64;

/// each amount is within one native unit of the exact rate, on the market's side of it
#[no_mangle]
pub extern "C" fn p14_round() {
    let (m, t, k) = market();
    let a = u64r("amount", 0, TOP / 2);
    let x = a as i128;
    no_panic(true);
    match choice(5) {
        0 => {
            let f: u64 = m.taker_fees_ceil(a);
            check((f as i128) * S >= x * t, "taker fee covers the rate");
            check((f as i128 - 1) * S < x * t, "taker fee is less than one unit above");
            cover(true, "taker");
        }
        1 => {
            let f: i64 = m.taker_fees_ceil(a as i64);
            check((f as i128) * S >= x * t, "taker fee covers the rate");
            check((f as i128 - 1) * S < x * t, "taker fee is less than one unit above");
        }
        2 => {
            let f = m.maker_fees_floor(a) as i128;
            let r = if k > 0 { k } else { 0 };
            check(f * S <= x * r, "maker fee released is at most the rate");
            check((f + 1) * S > x * r, "maker fee released is less than one unit below");
            cover(k > 0, "maker pays");
        }
        3 => {
            let f = m.maker_rebate_floor(a) as i128;
            let r = if k < 0 { -k } else { 0 };
            check(f * S <= x * r, "rebate is at most the rate");
            check((f + 1) * S > x * r, "rebate is less than one unit below");
            cover(k < 0, "maker is paid");
        }
        _ => {
            let f: u64 = m.maker_fees_ceil(a);
            let r = if k > 0 { k } else { 0 };
            check((f as i128) * S >= x * r, "maker fee locked covers the rate");
            check((f as i128 - 1) * S < x * r, "maker fee locked is less than one unit above");
        }
    }
    cover(true, "end");
}
/// rebates paid over a taker's fills never exceed its fee
#[no_mangle]
pub extern "C" fn p14_rebates() {
    let (m, _, _) = market();
    let top = TOP / 8;
    let (a, b, c) = (u64r("a", 0, top), u64r("b", 0, top), u64r("c", 0, top));
    no_panic(true);
    let paid = m.maker_rebate_floor(a) + m.maker_rebate_floor(b) + m.maker_rebate_floor(c);
    let fee: u64 = m.taker_fees_ceil(a + b + c);
    check(paid <= fee, "rebates are covered by the taker fee");
    cover(paid > 0, "paid");
}
/// fees released by partial fills and by cancelling the rest are covered by the fee locked
#[no_mangle]
pub extern "C" fn p14_release() {
    let (m, _, _) = market();
    let top = TOP / 8;
    let (a, b, c) = (u64r("a", 0, top), u64r("b", 0, top), u64r("c", 0, top));
    no_panic(true);
    let locked: u64 = m.maker_fees_ceil(a + b + c);
    let rest: u64 = m.maker_fees_ceil(c);
    check(m.maker_fees_floor(a) + m.maker_fees_floor(b) + rest <= locked, "released fees were locked");
    // a pegged bid filled below its limit price gives the difference back
    check(m.maker_fees_floor(a) <= m.maker_fees_floor(a + b), "fee grows with the amount");
    cover(locked > 0, "locked");
}
/// the part of a budget offered for taking leaves room for its fee, and no more than that
#[no_mangle]
pub extern "C" fn p14_budget() {
    let (m, t, _) = market();
    let q = i64r("quote", 0, (TOP / 2) as i64);
    no_panic(true);
    let s = m.subtract_taker_fees(q);
    let fee: i64 = m.taker_fees_ceil(s);
    check((s >= 0) & (s <= q), "within the budget");
    check(s as i128 + fee as i128 <= q as i128, "taking plus fee stays within the budget");
    check((s as i128 + 1) * (S + t) > (q as i128) * S, "as much as the budget allows");
    cover(s > 0, "some");
}
