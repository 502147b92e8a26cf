//! When an oracle price may be used, and which price that is (P22).
use crate::book::*;
use crate::env::*;
use crate::funds::some;
use crate::place::Po;
use crate::roles::any_key;
use crate::sym::*;
use anchor_lang::prelude::Pubkey;
use anchor_lang::Discriminator;
use openbook_v2::state::*;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Stub,
    PythTrading,
    PythOther,
    SwitchboardV2,
    SwitchboardV1,
    Raydium,
}
use Kind::*;
const KINDS: [Kind; 6] = [Stub, PythTrading, PythOther, SwitchboardV2, SwitchboardV1, Raydium];
const SB2: [u8; 8] = [217, 230, 65, 101, 201, 162, 27, 125];
/// the concentrated liquidity program, and its pool account as published
const RAYDIUM: Pubkey = anchor_lang::solana_program::pubkey!("CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK");
const MAGIC: u32 = 0xa1b2c3d4;

/// thousandths
fn milli(n: i64) -> f64 {
    n as f64 / 1000.0
}
/// an oracle account reporting `price` +- `dev` (thousandths) as of `slot`; other slots and prices
/// the account holds are not to matter
fn oracle(mk: &mut Mk, key: Pubkey, k: Kind, price: i64, dev: i64, slot: u64, other: u64) -> usize {
    match k {
        Stub => {
            let i = mk.w.zero_copy::<StubOracle>(key);
            let o = mk.w.get::<StubOracle>(i);
            o.price = milli(price);
            o.deviation = milli(dev);
            o.last_update_slot = slot;
            o.last_update_ts = 1;
            i
        }
        PythTrading | PythOther => {
            let i = mk.w.add(key, K_STRANGER, 3312);
            let d = mk.w.bytes(i);
            d[0..4].copy_from_slice(&MAGIC.to_le_bytes());
            d[4] = 2;
            d[8] = 3;
            d[20..24].copy_from_slice(&(-3i32).to_le_bytes());
            let (prev, agg) = (176, 208);
            let put = |d: &mut [u8], at: usize, v: u64| d[at..at + 8].copy_from_slice(&v.to_le_bytes());
            let (good, bad) = if k == PythTrading { (agg, prev + 8) } else { (prev + 8, agg) };
            put(d, good, price as u64);
            put(d, good + 8, dev as u64);
            put(d, bad, 7_000);
            put(d, bad + 8, 0);
            d[agg + 16] = if k == PythTrading { 1 } else { [0, 2, 3, 4][choice(4) as usize] };
            put(d, if k == PythTrading { agg + 24 } else { prev }, slot);
            put(d, if k == PythTrading { prev } else { agg + 24 }, other);
            put(d, 32, other);
            put(d, 40, other);
            i
        }
        SwitchboardV2 => {
            let i = mk.w.add(key, K_STRANGER, 40);
            let d = mk.w.bytes(i);
            d[0..8].copy_from_slice(&SB2);
            d[8] = 3;
            d[12] = 3;
            d[16..24].copy_from_slice(&slot.to_le_bytes());
            d[24..32].copy_from_slice(&milli(price).to_le_bytes());
            d[32..40].copy_from_slice(&milli(dev).to_le_bytes());
            i
        }
        SwitchboardV1 => {
            let owner = if flip() { switchboard_v1_devnet_oracle::ID } else { switchboard_v2_mainnet_oracle::ID };
            let i = mk.w.add(key, owner, 40);
            let d = mk.w.bytes(i);
            d[8..16].copy_from_slice(&slot.to_le_bytes());
            d[16..24].copy_from_slice(&milli(price).to_le_bytes());
            d[24..32].copy_from_slice(&milli(price - dev).to_le_bytes());
            d[32..40].copy_from_slice(&milli(price).to_le_bytes());
            i
        }
        Raydium => {
            let i = mk.w.add(key, RAYDIUM, 1544);
            let d = mk.w.bytes(i);
            // sqrt(price) for the squares used here
            let s: u128 = match price {
                100_000 => 10,
                4_000 => 2,
                _ => 1,
            };
            // of smallest units of one token for another's
            let (s, d0, d1) = match choice(3) {
                0 => (s, 6, 6),
                1 => (s * 10, 4, 6),
                _ => (s * 100, 5, 9),
            };
            let (s, d0, d1) = if s % 1000 == 0 { (s / 1000, 9, 7) } else { (s, d0, d1) };
            d[233] = d0;
            d[234] = d1;
            d[253..269].copy_from_slice(&(s << 64).to_le_bytes());
            i
        }
    }
}
fn supply(mk: &mut Mk, a: usize, b: Option<usize>) {
    let m = mk.mkt();
    m.oracle_a = some(K_ORACLE_A);
    mk.oracle_a = Some(a);
    if b.is_some() {
        m.oracle_b = some(K_ORACLE_B);
        mk.oracle_b = b;
    }
}
/// Trade against a pegged and a fixed bid, or place a pegged order. `used` says whether the oracle
/// price may be used, `lots` what it then is.
fn trade(mk: &mut Mk, op: u64, used: bool, lots: i64) {
    unsafe { NOW = T0 as i64 };
    let f = Fees { taker: 1_000, maker: -500, bl: mk.mkt().base_lot_size, ql: mk.mkt().quote_lot_size };
    mk.mkt().taker_fee = f.taker;
    mk.mkt().maker_fee = f.maker;
    let m1 = mk.add_maker(K_MAKER1);
    let m2 = mk.add_maker(K_MAKER2);
    let o = |peg: bool, price: i64, lim: i64, owner: Pubkey, seq: u64, off: i64| R {
        side: Side::Bid,
        peg,
        price,
        peg_limit: lim,
        qty: 10,
        owner,
        slot: 0,
        cid: seq,
        ts: 1,
        tif: 0,
        seq,
        key: mk_key(Side::Bid, if peg { peg_data(off) } else { fixed_data(price) }, seq),
        valid: true,
    };
    let pegged = o(true, lots - 3, lots + 50, K_MAKER1, 10, -3);
    let fixed = o(false, 2, -1, K_MAKER2, 11, 0);
    for (a, r) in [(m1, pegged), (m2, fixed)] {
        own(mk, a, &r, &f);
        mk.side(r.side).insert_leaf(r.tree(), &r.leaf()).unwrap();
    }
    mk.mkt().quote_deposit_total = 1 << 40;
    mk.mkt().base_deposit_total = 1 << 40;
    for a in [mk.base_vault, mk.quote_vault, mk.user_base, mk.user_quote] {
        mk.w.set_amount(a, 1 << 40);
    }
    let po = Po { side: 1, price: 1, max_base: 15, max_quote: 1 << 30, cid: 5, ty: 1, expiry: 0, stb: 0, limit: 9, peg: None };
    let (ix, metas) = match op {
        0 => (po.ix(), mk.m_place_order(Side::Ask, None)),
        1 => (Ix::new(sel::PLACE_TAKE_ORDER).u8(1).i64(1).i64(15).i64(1 << 30).u8(1).u8(9), mk.m_take()),
        2 => (Ix::new(sel::PLACE_ORDERS).u8(1).u32(0).u32(1).i64(1).i64(1 << 30).u64(0).u8(9), mk.m_multi()),
        // an ask far above every bid: it rests
        _ => (Po { peg: Some((4, 1)), ty: 0, max_base: 6, ..po }.ix(), mk.m_place_order(Side::Ask, None)),
    };
    let ok = mk.w.run(&ix.0, &metas).is_ok();
    if op == 3 {
        check(ok == used, "a pegged order is placed exactly when the price may be used");
        if ok {
            let l = all_leaves(mk.asks());
            check(l.len() == 1 && l[0].0 == BookSideOrderTree::OraclePegged, "it rests as a pegged order");
            check(l.len() == 1 && l[0].1.price_data() == peg_data(4), "at its offset");
        }
        return;
    }
    check(ok, "trading goes on");
    if !ok {
        return;
    }
    let v = fills(mk.heap());
    if used {
        check(v.len() >= 1 && v[0].maker == K_MAKER1 && v[0].quantity == 10, "the pegged order trades first");
        check(v.len() >= 1 && v[0].price == lots - 3, "at the oracle's price and its offset");
    } else {
        check(v.iter().all(|e| e.maker != K_MAKER1), "no pegged order trades");
        check(v.len() >= 1 && v[0].maker == K_MAKER2 && v[0].price == 2, "fixed orders do");
        let l = all_leaves(mk.bids());
        check(l.iter().any(|x| x.0 == BookSideOrderTree::OraclePegged && same_leaf(&x.1, &pegged.leaf())), "the pegged order stays");
    }
}
fn fresh(k: Kind, last: u64, now: u64, max: i64) -> bool {
    if k == Raydium {
        return true;
    }
    if k == Stub && last == 0 {
        return true;
    }
    max < 0 || last as u128 + max as u128 >= now as u128
}
/// scale: price in thousandths, quote and base decimals, lots, resulting price in lots
const SCALES: [(i64, u8, u8, i64, i64, i64); 5] =
    [(100_000, 6, 6, 100, 10, 1000), (40_005, 6, 9, 1_000_000, 100, 400), (2_500, 9, 6, 10, 100, 250), (100_000, 6, 6, 7, 3, 233), (100_000, 5, 6, 1_000, 9, 1_111)];
fn scaled(mk: &Mk, s: usize) -> (i64, i64) {
    let (p, qd, bd, bl, ql, lots) = SCALES[s];
    let m = mk.mkt();
    m.quote_decimals = qd;
    m.base_decimals = bd;
    m.base_lot_size = bl;
    m.quote_lot_size = ql;
    (p, lots)
}
fn one() {
    let mut mk = Mk::new();
    let k = KINDS[choice(6) as usize];
    let s = if k == Raydium { [0, 3, 4][choice(3) as usize] } else { choice(5) as usize };
    let (p, lots) = scaled(&mk, s);
    let (last, other, now, max) = (u64s("update_slot"), u64s("other_slot"), u64s("slot"), i64s("max_staleness"));
    // deviation against a filter of one eighth, or of nothing
    let (c, dev, good) = match if k == Raydium { 0 } else { choice(6) } {
        0 => (0.125, 0, true),
        1 => (0.125, p / 8, true),
        2 => (0.125, p / 8 + 2, false),
        3 => (0.0, 0, true),
        4 => (0.0, 1, false),
        _ => (2.0, 2 * p - 1, true),
    };
    let a = oracle(&mut mk, K_ORACLE_A, k, p, dev, last, other);
    supply(&mut mk, a, None);
    let m = mk.mkt();
    m.oracle_config.conf_filter = c;
    m.oracle_config.max_staleness_slots = max;
    unsafe { SLOT = now };
    let used = fresh(k, last, now, max) && good;
    cover(used, "used");
    cover(!used && good, "stale");
    trade(&mut mk, choice(4), used, lots);
    cover(true, "end");
}
fn two() {
    let mut mk = Mk::new();
    let k = KINDS[choice(5) as usize];
    let s = choice(5) as usize;
    let (p, lots) = scaled(&mk, s);
    let (la, lb, other, now, max) = (u64s("update_slot_a"), u64s("update_slot_b"), u64s("other_slot"), u64s("slot"), i64s("max_staleness"));
    // in eighths of a percent of the price of each leg, against a filter of 12.5 %
    let (da, db, good) = match choice(6) {
        0 => (0, 0, true),
        1 => (1240, 0, true),
        2 => (1260, 0, false),
        3 => (0, 1260, false),
        4 => (740, 1000, true),
        _ => (760, 1000, false),
    };
    let (pa, pb) = (p * 4, 4_000);
    let a = oracle(&mut mk, K_ORACLE_A, k, pa, pa * da / 10_000, la, other);
    let b = oracle(&mut mk, K_ORACLE_B, k, pb, pb * db / 10_000, lb, other);
    supply(&mut mk, a, Some(b));
    let m = mk.mkt();
    m.oracle_config.conf_filter = 0.125;
    m.oracle_config.max_staleness_slots = max;
    unsafe { SLOT = now };
    let used = fresh(k, la, now, max) && fresh(k, lb, now, max) && good;
    cover(used, "used");
    cover(!used && good, "stale");
    trade(&mut mk, choice(4), used, lots);
    cover(true, "end");
}
/// what is not a known kind of oracle is refused
fn unknown() {
    let mut mk = Mk::new();
    let (p, _) = scaled(&mk, 0);
    let a = oracle(&mut mk, K_ORACLE_A, Stub, p, 0, 0, 0);
    supply(&mut mk, a, None);
    let m = mk.mkt();
    m.oracle_config.conf_filter = 0.125;
    m.oracle_config.max_staleness_slots = -1;
    let tag = u64s("tag").to_le_bytes();
    let owner = any_key(["owner0", "owner1", "owner2", "owner3"]);
    mk.w.bytes(a)[..8].copy_from_slice(&tag);
    mk.w.accs[a].owner = owner;
    let stub = tag == StubOracle::DISCRIMINATOR;
    let known = (tag[..4] == MAGIC.to_le_bytes()) | (tag == SB2) | (owner == switchboard_v1_devnet_oracle::ID) | (owner == switchboard_v2_mainnet_oracle::ID) | (owner == RAYDIUM);
    assume(!known);
    unsafe { NOW = T0 as i64 };
    mk.w.set_amount(mk.user_base, 1 << 40);
    mk.w.set_amount(mk.user_quote, 1 << 40);
    let po = Po { side: 1, price: 1, max_base: 15, max_quote: 1 << 30, cid: 5, ty: 0, expiry: 0, stb: 0, limit: 9, peg: None };
    let (ix, metas) = match choice(4) {
        0 => (po.ix(), mk.m_place_order(Side::Ask, None)),
        1 => (Ix::new(sel::PLACE_TAKE_ORDER).u8(1).i64(1).i64(15).i64(1 << 30).u8(1).u8(9), mk.m_take()),
        2 => (Ix::new(sel::PLACE_ORDERS).u8(1).u32(0).u32(1).i64(1).i64(1 << 30).u64(0).u8(9), mk.m_multi()),
        _ => (Po { peg: Some((4, 1)), ..po }.ix(), mk.m_place_order(Side::Ask, None)),
    };
    let ok = mk.w.run(&ix.0, &metas).is_ok();
    check(!ok | (stub & (owner == openbook_v2::ID)), "an unknown kind of oracle is refused");
    check(ok | !stub | (owner != openbook_v2::ID), "a known one is not");
    cover(ok, "known");
    cover(!ok, "refused");
    cover(true, "end");
}
crate::harness! {
    p22_one { one() }
    p22_two { two() }
    p22_unknown { unknown() }
}
