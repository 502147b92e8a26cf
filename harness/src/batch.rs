//! Several orders at once, and edited orders (P28).
use crate::book::*;
use crate::env::*;
use crate::place::*;
use crate::sym::*;
use anchor_lang::prelude::Pubkey;
use openbook_v2::state::*;

fn resting(side: Side, price: i64, owner: Pubkey, slot: u8, cid: u64, qty: i64) -> R {
    R { side, peg: false, price, peg_limit: -1, qty, owner, slot, cid, ts: 1, tif: 0, seq: cid, key: mk_key(side, fixed_data(price), cid), valid: true }
}
fn put(mk: &Mk, acc: usize, r: &R, f: &Fees) {
    own(mk, acc, r, f);
    mk.side(r.side).insert_leaf(r.tree(), &r.leaf()).unwrap();
}
fn base_world(rates: Rates) -> (Mk, usize, Fees) {
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    let m1 = mk.add_maker(K_MAKER1);
    let f = fees(&mk, rates);
    let m = mk.mkt();
    m.seq_num = 500;
    m.quote_deposit_total = 1 << 50;
    m.base_deposit_total = 1 << 50;
    mk.w.set_amount(mk.base_vault, 1 << 50);
    mk.w.set_amount(mk.quote_vault, 1 << 50);
    (mk, m1, f)
}
struct Was {
    me: OpenOrdersAccount,
    m1: OpenOrdersAccount,
    mkt: Market,
    uq: u64,
    ub: u64,
}
fn was(mk: &Mk, m1: usize) -> Was {
    Was { me: *mk.me(), m1: *mk.oo(m1), mkt: *mk.mkt(), uq: mk.w.amount(mk.user_quote), ub: mk.w.amount(mk.user_base) }
}
/// nothing appears or disappears, and only the wallet pays in
fn conserved(mk: &Mk, m1: usize, b: &Was, f: &Fees) {
    let d = |a: u64, b: u64| a as i128 - b as i128;
    let m = mk.mkt();
    let (mut ob, mut oq) = (0i128, d(m.fees_available, b.mkt.fees_available));
    for (x, y) in [(mk.me(), &b.me), (mk.oo(m1), &b.m1)] {
        oq += owed_quote(&x.position, f) - owed_quote(&y.position, f);
        ob += owed_base(&x.position, f) - owed_base(&y.position, f);
    }
    for e in fills(mk.heap()) {
        let (x, y) = pending(&e, f);
        ob += x;
        oq += y;
    }
    let (uq, ub) = (mk.w.amount(mk.user_quote), mk.w.amount(mk.user_base));
    check(d(b.uq, uq) == oq, "quote owed grows by what the wallet paid");
    check(d(b.ub, ub) == ob, "base owed grows by what the wallet paid");
    check(d(m.quote_deposit_total, b.mkt.quote_deposit_total) == d(b.uq, uq), "quote deposits are recorded");
    check(d(m.base_deposit_total, b.mkt.base_deposit_total) == d(b.ub, ub), "base deposits are recorded");
    check(d(mk.w.amount(mk.quote_vault), 1 << 50) == d(b.uq, uq) && d(mk.w.amount(mk.base_vault), 1 << 50) == d(b.ub, ub), "the vaults hold the deposits");
}
const MQ: [&str; 3] = ["max_quote0", "max_quote1", "max_quote2"];
/// `nb` bids and `na` asks; `cancel`: with earlier orders of the account taken back first
fn many(nb: usize, na: usize, cancel: bool, book: bool, ended: bool, rates: Rates) {
    let (mut mk, m1, f) = base_world(rates);
    let mut v: Vec<R> = vec![];
    if book {
        v.push(resting(Side::Ask, 13, K_MAKER1, 0, 100, i64r("ask_size", 1, QMAX)));
        v.push(resting(Side::Bid, 11, K_MAKER1, 1, 101, i64r("bid_size", 1, QMAX)));
    }
    for r in &v {
        put(&mk, m1, r, &f);
    }
    let mut old: Vec<R> = vec![];
    if cancel || flip() {
        old.push(resting(Side::Bid, 5, K_OOA, 0, 200, i64r("own_bid", 1, QMAX)));
        old.push(resting(Side::Ask, 40, K_OOA, 3, 201, i64r("own_ask", 1, QMAX)));
    }
    if cancel && flip() {
        // every slot but two is in use
        for i in 0..20u8 {
            let side = if i % 2 == 0 { Side::Bid } else { Side::Ask };
            old.push(resting(side, if i % 2 == 0 { 6 } else { 41 }, K_OOA, 4 + i, 210 + i as u64, 1 + i as i64));
        }
    }
    for r in &old {
        put(&mk, mk.ooa, r, &f);
    }
    let p = &mut mk.me().position;
    p.base_free_native = u64r("free_base", 0, 1 << 30);
    p.quote_free_native = u64r("free_quote", 0, 1 << 30);
    mk.w.set_amount(mk.user_base, u64r("wallet_base", 0, 1 << 30));
    mk.w.set_amount(mk.user_quote, u64r("wallet_quote", 0, 1 << 30));
    let b = was(&mk, m1);
    let mut ix = Ix::new(if cancel { sel::CANCEL_ALL_AND_PLACE_ORDERS } else { sel::PLACE_ORDERS }).u8(LIMIT);
    let mut e: Vec<(Side, i64, i64, bool)> = vec![];
    for i in 0..nb + na {
        if i == 0 {
            ix = ix.u32(nb as u32);
        }
        if i == nb {
            ix = ix.u32(na as u32);
        }
        let side = if i < nb { Side::Bid } else { Side::Ask };
        let price = if side == Side::Bid { [10, 13][choice(2) as usize] } else { [11, 20][choice(2) as usize] };
        // own bids and asks do not meet here
        if e.iter().any(|x| x.0 != side && x.1 >= price) {
            stop();
        }
        let mq = i64r(MQ[i], 0, 1 << 24);
        let gone = ended && flip();
        ix = ix.i64(price).i64(mq).u64(if gone { T0 - 1 } else { 0 });
        e.push((side, price, mq, gone));
    }
    if na == 0 {
        ix = ix.u32(0);
    }
    let ix = ix.u8(9);
    let metas = mk.m_multi();
    let ok = mk.w.run(&ix.0, &metas).is_ok();
    check(ok, "orders are cut down to what is available");
    if !ok {
        return;
    }
    conserved(&mk, m1, &b, &f);
    let (bids, asks) = (all_leaves(mk.bids()), all_leaves(mk.asks()));
    let fl = fills(mk.heap());
    if cancel {
        for r in &old {
            check(by_cid(&bids, r.cid).is_none() && by_cid(&asks, r.cid).is_none(), "earlier orders are taken back");
        }
        check(mk.me().open_orders.iter().all(|o| o.is_free() || o.client_id < 8), "their slots are free");
    } else {
        for r in &old {
            check(by_cid(if r.side == Side::Bid { &bids } else { &asks }, r.cid).map_or(false, |(t, l)| t == r.tree() && same_leaf(&l, &r.leaf())), "earlier orders stay");
        }
    }
    let rt = unsafe { RETURN.clone() };
    let kept = e.iter().filter(|x| !x.3).count();
    let mut at = 4;
    check(rt.len() >= 4 && u32::from_le_bytes(rt[..4].try_into().unwrap()) as usize == kept, "one result for each order not ended");
    let (mut used_q, mut used_b, mut bought, mut sold) = (0u64, 0u64, 0i64, 0u64);
    for (i, (side, price, mq, gone)) in e.iter().enumerate() {
        let mine = if *side == Side::Bid { by_cid(&bids, i as u64) } else { by_cid(&asks, i as u64) };
        let (mut tb, mut tq) = (0i64, 0i64);
        for x in fl.iter().filter(|x| x.taker_client_order_id == i as u64) {
            check(x.taker_side == *side as u8 && within(*side, x.price, *price), "each order keeps its limit price");
            tb += x.quantity;
            tq += x.quantity * x.price;
        }
        if *gone {
            check(mine.is_none() && tb == 0, "ended orders are passed over");
            cover(true, "passed over");
            continue;
        }
        let rest = mine.map_or(0, |(_, l)| l.quantity);
        if let Some((_, l)) = mine {
            check(l.price_data() == fixed_data(*price) && l.owner == K_OOA, "it rests at its price");
        }
        if *side == Side::Bid {
            let q = f.quote(rest, *price);
            let cost = f.quote(1, tq) + f.taker_ceil(f.quote(1, tq)) + q + f.lock(q);
            check(cost <= f.quote(1, *mq), "a bid spends no more than asked for, fees included");
            used_q += cost;
            bought += tb;
        } else {
            check(tq + rest * *price <= *mq, "an ask sells for no more than asked for");
            used_b += f.base(tb + rest);
            sold += f.quote(1, tq) - f.taker_ceil(f.quote(1, tq));
        }
        // its result
        match mine {
            Some((_, l)) => {
                check(rt.len() >= at + 17 && rt[at] == 1, "a resting order's id is returned");
                check(rt.len() >= at + 17 && u128::from_le_bytes(rt[at + 1..at + 17].try_into().unwrap()) == l.key, "in its place");
                at += 17;
                cover(true, "rests");
            }
            None => {
                check(rt.len() > at && rt[at] == 0, "no id for an order that does not rest");
                at += 1;
            }
        }
    }
    check(rt.len() == at, "nothing else is returned");
    cover(!fl.is_empty(), "traded");
    // what there was: wallet, free balance, and what the cancelled orders had locked
    let (mut have_q, mut have_b) = (b.uq + b.me.position.quote_free_native, b.ub + b.me.position.base_free_native);
    if cancel {
        for r in &old {
            let q = f.quote(r.qty, r.price);
            if r.side == Side::Bid {
                have_q += q + f.lock(q);
            } else {
                have_b += f.base(r.qty);
            }
        }
    }
    check(used_q <= have_q, "no more quote is committed than there is");
    check(used_b <= have_b + f.base(bought), "no more base is committed than there is");
    let me = &mk.me().position;
    check(mk.w.amount(mk.user_quote) + me.quote_free_native == have_q - used_q + sold, "what is not committed is left");
    check(mk.w.amount(mk.user_base) + me.base_free_native == have_b + f.base(bought) - used_b, "what is not committed is left");
    cover(true, "end");
}
/// cut down to wallet plus free balance, but no further
fn capped(side: Side) {
    let (mut mk, m1, f) = base_world(Rates::Few);
    let p = &mut mk.me().position;
    let (free, wallet) = (u64r("free", 0, 1 << 30), u64r("wallet", 0, 1 << 30));
    if side == Side::Bid {
        p.quote_free_native = free;
        mk.w.set_amount(mk.user_quote, wallet);
    } else {
        p.base_free_native = free;
        mk.w.set_amount(mk.user_base, wallet);
    }
    let b = was(&mk, m1);
    let (price, mq) = (7, i64r("max_quote", 0, 1 << 40));
    let ix = Ix::new(sel::PLACE_ORDERS).u8(POST);
    let ix = if side == Side::Bid { ix.u32(1).i64(price).i64(mq).u64(0).u32(0) } else { ix.u32(0).u32(1).i64(price).i64(mq).u64(0) }.u8(9);
    let metas = mk.m_multi();
    let ok = mk.w.run(&ix.0, &metas).is_ok();
    check(ok, "orders are cut down to what is available");
    if ok {
        conserved(&mk, m1, &b, &f);
        let l = all_leaves(mk.side(side));
        let got = l.first().map_or(0, |x| x.1.quantity);
        let want = if side == Side::Bid {
            let lots = ((free + wallet) as i64 / f.ql).min(mq);
            (lots - f.lock(lots as u64) as i64) / price
        } else {
            ((free + wallet) as i64 / f.bl).min((mq - f.lock(mq as u64) as i64) / price)
        };
        check(got == want, "the order takes all it may");
        cover(got > 0, "rests");
    }
    cover(true, "end");
}
/// an edited order: the old one goes, the new one is no larger than what is left of the new size
fn edit(pegged: bool, twins: bool, rates: Rates) {
    let (mut mk, m1, f) = base_world(rates);
    if pegged {
        mk.with_oracle(100.0);
    }
    let side = if flip() { Side::Bid } else { Side::Ask };
    let mid = if pegged { ORACLE } else { 100 };
    let (lo, hi) = (mid - 20, mid + 20);
    let opp = if side == Side::Bid { hi } else { lo };
    let r = resting(side.invert_side(), opp, K_MAKER1, 0, 100, i64r("other_size", 1, QMAX));
    put(&mk, m1, &r, &f);
    let mut old: Vec<R> = vec![];
    let base = if side == Side::Bid { lo } else { hi };
    let old_side = if flip() { side } else { side.invert_side() };
    let bp = if old_side == side { base } else if old_side == Side::Bid { lo - 5 } else { hi + 5 };
    old.push(resting(old_side, bp, K_OOA, 0, 200, i64r("old_size", 1, QMAX)));
    if twins {
        old.push(resting(old_side, if old_side == Side::Bid { bp - 1 } else { bp + 1 }, K_OOA, 1, 201, i64r("twin_size", 1, QMAX)));
    }
    let mut old_sum = 0;
    for r in old.iter_mut() {
        r.cid = 77;
        old_sum += r.qty;
        put(&mk, mk.ooa, r, &f);
    }
    // another own order that stays
    let stay = resting(side, if side == Side::Bid { lo - 9 } else { hi + 9 }, K_OOA, 2, 78, 3);
    put(&mk, mk.ooa, &stay, &f);
    mk.me().position.base_free_native = u64r("free_base", 0, 1 << 40);
    mk.me().position.quote_free_native = u64r("free_quote", 0, 1 << 40);
    mk.w.set_amount(mk.user_base, 1 << 55);
    mk.w.set_amount(mk.user_quote, 1 << 55);
    let b = was(&mk, m1);
    let found = flip();
    let expected = i64s("expected_size");
    let new = i64r("new_size", 0, 1 << 20);
    let crossing = flip();
    let price = if crossing { opp } else { base };
    let ty = [LIMIT, IOC, POST][choice(if pegged { 1 } else { 3 }) as usize];
    let po = Po {
        side: side as u8,
        price,
        max_base: new,
        max_quote: 1 << 32,
        cid: 5,
        ty,
        expiry: 0,
        stb: 0,
        limit: 9,
        peg: if pegged { Some((price - ORACLE, if side == Side::Bid { price + 2 } else { price - 2 })) } else { None },
    };
    let ix = po.args(Ix::new(if pegged { sel::EDIT_ORDER_PEGGED } else { sel::EDIT_ORDER }).u64(if found { 77 } else { 79 }).i64(expected));
    let metas = mk.m_place_order(side, None);
    let ok = mk.w.run(&ix.0, &metas).is_ok();
    let left = if found { old_sum } else { 0 };
    check(ok == (expected >= 0), "an edit is refused only for a negative size");
    if ok {
        conserved(&mk, m1, &b, &f);
        let (bids, asks) = (all_leaves(mk.bids()), all_leaves(mk.asks()));
        let (mine, oth) = if side == Side::Bid { (&bids, &asks) } else { (&asks, &bids) };
        let same = if old_side == side { mine } else { oth };
        for r in &old {
            let n = same.iter().filter(|x| x.1.client_order_id == 77).count();
            check(n == if found { 0 } else { old.len() }, "the old order goes");
            check(mk.me().open_orders[r.slot as usize].is_free() | (mk.me().open_orders[r.slot as usize].client_id != 77) == found, "and its slot");
        }
        check(by_cid(mine, 78).map_or(false, |x| same_leaf(&x.1, &stay.leaf())), "other orders stay");
        let filled = expected - left;
        let mut total = 0;
        for x in fills(mk.heap()) {
            check(x.taker_client_order_id == 5, "only the new order trades");
            total += x.quantity;
        }
        let rest = by_cid(mine, 5).map_or(0, |x| x.1.quantity);
        total += rest;
        let cap = if filled > 0 { new - filled } else { 0 };
        check(total <= if cap > 0 { cap } else { 0 }, "old fill and new order do not exceed the new size");
        if cap > 0 && ty == LIMIT && f.maker < 500_000 {
            check(total == cap, "the new order is placed for the rest");
            cover(true, "placed");
        }
        let rt = unsafe { RETURN.clone() };
        match by_cid(mine, 5) {
            Some((_, l)) => check(rt.len() == 17 && rt[0] == 1 && u128::from_le_bytes(rt[1..17].try_into().unwrap()) == l.key, "the new id is returned"),
            None => check(rt.len() == 1 && rt[0] == 0, "no id when nothing rests"),
        }
        cover(crossing && !fills(mk.heap()).is_empty(), "traded");
        cover(!found, "not found");
    }
    cover(!ok, "refused");
    cover(true, "end");
}
crate::harness! {
    p28_bids { many(2, 0, false, true, true, Rates::Few) }
    p28_asks { many(0, 2, false, true, true, Rates::Few) }
    p28_both { many(1, 1, false, true, true, Rates::Few) }
    p28_cancel { many(1, 1, true, true, false, Rates::Few) }
    p28_cancel_bids { many(2, 0, true, false, false, Rates::Few) }
    p28_cancel_asks { many(0, 2, true, false, false, Rates::Few) }
    p28_three { many(2, 1, false, true, false, Rates::Few) }
    p28_wide { many(1, 1, true, true, false, Rates::Many) }
    p28_capped { capped(if flip() { Side::Bid } else { Side::Ask }) }
    p28_edit { edit(false, false, Rates::Few) }
    p28_edit_twins { edit(false, true, Rates::Few) }
    p28_edit_pegged { edit(true, false, Rates::Oracle) }
    p28_edit_wide { edit(false, true, Rates::Many) }
}
