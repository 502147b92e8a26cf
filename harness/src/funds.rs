//! Cancelling (P12), deposits, settlement and sweeping (P13), and the logs they emit (P29).
use crate::book::*;
use crate::env::*;
use crate::events::*;
use crate::sym::*;
use anchor_lang::prelude::Pubkey;
use openbook_v2::pubkey_option::NonZeroPubkeyOption;
use openbook_v2::state::*;

pub fn some(k: Pubkey) -> NonZeroPubkeyOption {
    NonZeroPubkeyOption::from(Some(k))
}
pub fn any_position(p: &mut Position) {
    p.base_free_native = u64r("base_free", 0, 1 << 50);
    p.quote_free_native = u64r("quote_free", 0, 1 << 50);
    p.referrer_rebates_available = u64r("rebates", 0, 1 << 50);
    p.maker_volume = u64r("maker_volume", 0, 1 << 50) as u128;
    p.taker_volume = u64r("taker_volume", 0, 1 << 50) as u128;
    p.penalty_heap_count = u64r("penalties", 0, 1 << 20);
}

// ---- P12
const SLOTS: [u8; 4] = [0, 5, 6, 23];
const CIDS: [u64; 4] = [70, 71, 71, 0];
/// the i-th order of the account: side, tree and whether it is still on the book
fn mine(i: usize, gone_too: bool) -> (R, bool) {
    let k = choice(if gone_too { 6 } else { 4 });
    let side = if k % 2 == 0 { Side::Bid } else { Side::Ask };
    let peg = (k / 2) % 2 == 1;
    let gone = k >= 4;
    let price = [13, 29, 13, 11][i];
    let seq = 10 + i as u64;
    let data = if peg { peg_data(price - ORACLE) } else { fixed_data(price) };
    let r = R {
        side,
        peg,
        price,
        peg_limit: if !peg {
            -1
        } else if side == Side::Bid {
            price + 4
        } else {
            price - 4
        },
        qty: i64r(QN[i], 1, QMAX),
        owner: K_OOA,
        slot: SLOTS[i],
        cid: CIDS[i],
        ts: u64r(TN[i], 1, T0),
        tif: 0,
        seq,
        key: mk_key(side, data, seq),
        valid: true,
    };
    (r, gone)
}
fn bystander(side: Side, peg: bool) -> R {
    let data = if peg { peg_data(13 - ORACLE) } else { fixed_data(13) };
    R { side, peg, price: 13, peg_limit: if peg { 13 } else { -1 }, qty: 500, owner: K_MAKER1, slot: 0, cid: 70, ts: 5, tif: 0, seq: 40, key: mk_key(side, data, 40), valid: true }
}
#[derive(Clone, Copy, PartialEq)]
enum How {
    Id,
    Client,
    All,
    Prune,
}
fn put(mk: &Mk, r: &R) {
    mk.side(r.side).insert_leaf(r.tree(), &r.leaf()).unwrap();
}
/// the i-th order of an account that uses every slot
fn every(i: usize, turn: usize, odd: usize) -> (R, bool) {
    let k = (i + turn) % 4;
    let side = if k % 2 == 0 { Side::Bid } else { Side::Ask };
    let peg = k / 2 == 1;
    let price = 11 + (i as i64 * 7) % 19;
    let seq = 10 + i as u64;
    let data = if peg { peg_data(price - ORACLE) } else { fixed_data(price) };
    let r = R {
        side,
        peg,
        price,
        peg_limit: if peg { price } else { -1 },
        qty: if i == odd { i64r(QN[0], 1, QMAX) } else { 1 + i as i64 },
        owner: K_OOA,
        slot: i as u8,
        cid: if i % 5 == 1 { 71 } else { 70 },
        ts: 5,
        tif: 0,
        seq,
        key: mk_key(side, data, seq),
        valid: true,
    };
    (r, i % 7 == 5)
}
fn cancel(n: usize, how: How, gone_too: bool, rates: Rates) {
    arm(12);
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    let f = fees(&mk, rates);
    any_position(&mut mk.me().position);
    let mut v: Vec<(R, bool)> = Vec::with_capacity(24);
    let (turn, odd) = if n == 24 { (choice(2) as usize, choice(24) as usize) } else { (0, 0) };
    for i in 0..n {
        let x = if n == 24 { every(i, turn, odd) } else { mine(i, gone_too) };
        own(&mk, mk.ooa, &x.0, &f);
        if !x.1 {
            put(&mk, &x.0);
        }
        v.push(x);
    }
    // rounding leftovers of earlier bids
    mk.me().position.locked_maker_fees += u64r("leftover_fees", 0, 1 << 20);
    let mut by: Vec<R> = Vec::with_capacity(4);
    for side in [Side::Bid, Side::Ask] {
        for peg in [false, true] {
            let r = bystander(side, peg);
            put(&mk, &r);
            by.push(r);
        }
    }
    let mut side_filter: Option<Side> = None;
    let mut cid: Option<u64> = None;
    let mut limit: u8 = 255;
    let mut id: Option<u128> = None;
    let ix = match how {
        How::Id => {
            let k = choice(n as u64 + 2) as usize;
            let x = if k < n { v[k].0.key } else if k == n { by[choice(4) as usize].key } else { 0 };
            id = Some(x);
            Ix::new(sel::CANCEL_ORDER).u128(x)
        }
        How::Client => {
            let c = [70, 71, 0, 99][choice(4) as usize];
            cid = Some(c);
            Ix::new(sel::CANCEL_ORDER_BY_CLIENT_ORDER_ID).u64(c)
        }
        How::All => {
            limit = u8s("limit");
            let k = choice(3);
            let ix = Ix::new(sel::CANCEL_ALL_ORDERS);
            let ix = match k {
                0 => ix.u8(0),
                1 => ix.u8(1).u8(0),
                _ => ix.u8(1).u8(1),
            };
            side_filter = [None, Some(Side::Bid), Some(Side::Ask)][k as usize];
            ix.u8(limit)
        }
        How::Prune => {
            limit = u8s("limit");
            mk.mkt().time_expiry = -1;
            mk.mkt().close_market_admin = some(K_STRANGER);
            Ix::new(sel::PRUNE_ORDERS).u8(limit)
        }
    };
    let mut metas = mk.m_cancel();
    if how == How::Prune {
        let admin = mk.w.plain(K_STRANGER);
        metas = vec![sg(admin), rw(mk.ooa), ro(mk.market), rw(mk.bids), rw(mk.asks)];
    }
    let (b, bm) = (*mk.me(), *mk.mkt());
    no_panic(true);
    let ok = mk.w.run(&ix.0, &metas).is_ok();
    no_panic(false);
    // which orders are to go
    let mut go = [false; 24];
    let mut left = limit;
    let mut valid = true;
    if let Some(id) = id {
        let k = v.iter().position(|x| x.0.key == id);
        match k {
            Some(k) if !v[k].1 => go[k] = true,
            _ => valid = false,
        }
    } else {
        for (i, (r, gone)) in v.iter().enumerate() {
            if side_filter.map_or(false, |s| s != r.side) || cid.map_or(false, |c| c != r.cid) {
                continue;
            }
            if left == 0 {
                break;
            }
            left -= 1;
            go[i] = !gone;
        }
    }
    cover(!valid, "refused");
    check(ok == valid, "cancelling succeeds exactly when the orders named are the account's and on the book");
    if !ok || !valid {
        return;
    }
    let a = *mk.me();
    let (x, y) = (&a.position, &b.position);
    let (mut q, mut fee, mut base, mut bb, mut bq, mut ab, mut total) = (0u64, 0u64, 0u64, 0i64, 0i64, 0i64, 0i64);
    for (i, (r, _)) in v.iter().enumerate() {
        if !go[i] {
            continue;
        }
        total += r.qty;
        if r.side == Side::Bid {
            let n = f.quote(r.qty, r.lock_price());
            q += n;
            fee += f.lock(n);
            bb += r.qty;
            bq += r.qty * r.lock_price();
        } else {
            base += f.base(r.qty);
            ab += r.qty;
        }
    }
    check(x.quote_free_native == y.quote_free_native + q + fee, "quote and locked fees of the cancelled bids are returned");
    check(x.base_free_native == y.base_free_native + base, "base of the cancelled asks is returned");
    check(x.locked_maker_fees == y.locked_maker_fees - fee, "their fees are no longer locked");
    check((x.bids_base_lots == y.bids_base_lots - bb) & (x.bids_quote_lots == y.bids_quote_lots - bq) & (x.asks_base_lots == y.asks_base_lots - ab), "their lots are unlocked");
    check(
        (x.referrer_rebates_available == y.referrer_rebates_available)
            & (x.maker_volume == y.maker_volume)
            & (x.taker_volume == y.taker_volume)
            & (x.penalty_heap_count == y.penalty_heap_count),
        "nothing else of the position moves",
    );
    check((a.owner == b.owner) & (a.market == b.market) & (a.delegate == b.delegate) & (a.account_num == b.account_num), "the account stays whose it is");
    // slots
    for s in 0..24 {
        let (o, p) = (&a.open_orders[s], &b.open_orders[s]);
        let gone = v.iter().enumerate().any(|(i, (r, _))| r.slot as usize == s && go[i]);
        if gone {
            check(o.is_free(), "a cancelled order's slot is free");
        } else {
            check(
                (o.is_free == p.is_free) & (o.id == p.id) & (o.client_id == p.client_id) & (o.locked_price == p.locked_price) & (o.side_and_tree == p.side_and_tree),
                "other slots stay",
            );
        }
    }
    // book
    let (lb, la) = (all_leaves(mk.bids()), all_leaves(mk.asks()));
    let mut count = 0;
    let mut stay = |r: &R, there: bool| {
        let l = if r.side == Side::Bid { &lb } else { &la };
        let hit = l.iter().find(|x| x.0 == r.tree() && x.1.key == r.key);
        match hit {
            Some(h) => {
                check(there, "a cancelled order is off the book");
                check(same_leaf(&h.1, &r.leaf()), "other orders stay as they are");
                count += 1;
            }
            None => check(!there, "other orders stay on the book"),
        }
    };
    for (i, (r, gone)) in v.iter().enumerate() {
        stay(r, !gone && !go[i]);
    }
    for r in &by {
        stay(r, true);
    }
    check(lb.len() + la.len() == count, "nothing appears on the book");
    let m = mk.mkt();
    check(
        (m.base_deposit_total == bm.base_deposit_total) & (m.quote_deposit_total == bm.quote_deposit_total) & (m.fees_available == bm.fees_available) & (m.seq_num == bm.seq_num),
        "the market's books stay",
    );
    check(mk.heap().len() == 0, "cancelling queues nothing");
    if how == How::Client {
        let r = unsafe { &*std::ptr::addr_of!(RETURN) };
        check(r.len() == 8 && i64::from_le_bytes(r[..8].try_into().unwrap()) == total, "the total size cancelled is reported");
    }
    cover(total > 0, "cancelled");
    cover(true, "end");
}
crate::harness! {
    p12_id { cancel(2, How::Id, true, Rates::Few) }
    p12_client { cancel(3, How::Client, true, Rates::Few) }
    p12_all { cancel(3, How::All, true, Rates::Few) }
    p12_prune { cancel(3, How::Prune, true, Rates::Few) }
    p12_id_wide { cancel(3, How::Id, true, Rates::Many) }
    p12_client_wide { cancel(3, How::Client, true, Rates::Many) }
    p12_all_wide { cancel(3, How::All, true, Rates::Many) }
    p12_client_four { cancel(4, How::Client, true, Rates::Few) }
    p12_client_every { cancel(24, How::Client, true, Rates::Few) }
    p12_all_every { cancel(24, How::All, true, Rates::Few) }
    p12_all_four { cancel(4, How::All, true, Rates::Few) }
}

// ---- P13
pub const BIG: u64 = 1 << 61;
/// books of the market: at least what this account is owed, vaults at least what was deposited
fn any_books(mk: &Mk) {
    let m = mk.mkt();
    m.base_deposit_total = u64r("base_total", 0, BIG);
    m.quote_deposit_total = u64r("quote_total", 0, BIG);
    m.fees_available = u64r("fees_available", 0, BIG);
    m.referrer_rebates_accrued = u64r("accrued", 0, BIG);
    m.fees_accrued = u64r("fees_accrued", 0, BIG) as u128;
    m.fees_to_referrers = u64r("to_referrers", 0, BIG) as u128;
    let (vb, vq) = (u64r("base_vault", 0, BIG), u64r("quote_vault", 0, BIG));
    assume((vb >= m.base_deposit_total) & (vq >= m.quote_deposit_total));
    mk.w.set_amount(mk.base_vault, vb);
    mk.w.set_amount(mk.quote_vault, vq);
}
struct Books {
    m: Market,
    a: OpenOrdersAccount,
    vb: u64,
    vq: u64,
    ub: u64,
    uq: u64,
}
fn books(mk: &Mk) -> Books {
    Books {
        m: *mk.mkt(),
        a: *mk.me(),
        vb: mk.w.amount(mk.base_vault),
        vq: mk.w.amount(mk.quote_vault),
        ub: mk.w.amount(mk.user_base),
        uq: mk.w.amount(mk.user_quote),
    }
}
fn any_account(mk: &Mk) {
    let p = &mut mk.me().position;
    p.base_free_native = u64r("base_free", 0, BIG);
    p.quote_free_native = u64r("quote_free", 0, BIG);
    p.referrer_rebates_available = u64r("rebates", 0, BIG);
    p.locked_maker_fees = u64r("locked_fees", 0, BIG);
    p.bids_base_lots = i64r("bid_lots", 0, 1 << 50);
    p.bids_quote_lots = i64r("bid_quote_lots", 0, 1 << 50);
    p.asks_base_lots = i64r("ask_lots", 0, 1 << 50);
    p.maker_volume = u64s("mv") as u128;
    p.taker_volume = u64s("tv") as u128;
}
/// everything of the account but free balances, rebates, locked fees and penalties
fn rest_stays(x: &Books, y: &Books) {
    let (p, q) = (&x.a.position, &y.a.position);
    check(
        (p.bids_base_lots == q.bids_base_lots)
            & (p.bids_quote_lots == q.bids_quote_lots)
            & (p.asks_base_lots == q.asks_base_lots)
            & (p.maker_volume == q.maker_volume)
            & (p.taker_volume == q.taker_volume),
        "orders and volumes stay",
    );
    check((x.a.owner == y.a.owner) & (x.a.market == y.a.market) & (x.a.delegate == y.a.delegate), "the account stays whose it is");
    check((x.m.fees_accrued == y.m.fees_accrued) & (x.m.seq_num == y.m.seq_num) & (x.m.time_expiry == y.m.time_expiry) & (x.m.maker_volume == y.m.maker_volume), "other books stay");
}
fn deposit(p: u32, refill: bool) {
    arm(p);
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    any_account(&mk);
    mk.me().position.penalty_heap_count = u64s("penalties");
    any_books(&mk);
    let (ub, uq) = (u64s("user_base"), u64s("user_quote"));
    mk.w.set_amount(mk.user_base, ub);
    mk.w.set_amount(mk.user_quote, uq);
    let (base, quote) = (u64s("base_amount"), u64s("quote_amount"));
    let b = books(&mk);
    let (fb, fq) = (b.a.position.base_free_native, b.a.position.quote_free_native);
    let want = |ask: u64, free: u64| if !refill { ask } else if ask > free { ask - free } else { 0 };
    let (wb, wq) = (want(base, fb), want(quote, fq));
    // what the token program and 64-bit balances can take
    let possible = (wb <= ub) & (wq <= uq) & (wb <= BIG) & (wq <= BIG);
    if p == 29 {
        unsafe { KEEP_LOGS = true };
    }
    let ok = mk.w.run(&Ix::new(if refill { sel::REFILL } else { sel::DEPOSIT }).u64(base).u64(quote).0, &mk.m_deposit()).is_ok();
    cover(!ok, "refused");
    if !ok {
        chk(13, !possible, "a deposit the wallet can pay is accepted");
        return;
    }
    let a = books(&mk);
    if p == 29 {
        let l = unsafe { &*std::ptr::addr_of!(LOGS) };
        let (db, dq) = (b.ub - a.ub, b.uq - a.uq);
        if (db > 0) | (dq > 0) {
            check(l.len() == 1, "a deposit emits one log");
            if l.len() == 1 {
                let mut d = D::new(&l[0], "DepositLog");
                check(d.key() == K_OOA, "deposit log: account");
                check(d.key() == K_OWNER, "deposit log: signer");
                check((d.u64() == db) & (d.u64() == dq), "deposit log: amounts are those that left the wallet");
                check(d.done(), "deposit log: length");
            }
        }
        cover(true, "end");
        return;
    }
    check((a.ub == ub - wb) & (a.uq == uq - wq), "the wallet pays exactly the amounts");
    check((a.vb == b.vb + wb) & (a.vq == b.vq + wq), "the vaults receive them");
    check((a.m.base_deposit_total == b.m.base_deposit_total + wb) & (a.m.quote_deposit_total == b.m.quote_deposit_total + wq), "they are recorded");
    let (x, y) = (&a.a.position, &b.a.position);
    check((x.base_free_native == y.base_free_native + wb) & (x.quote_free_native == y.quote_free_native + wq), "they are credited");
    check((x.referrer_rebates_available == y.referrer_rebates_available) & (x.locked_maker_fees == y.locked_maker_fees) & (x.penalty_heap_count == y.penalty_heap_count), "rest of the position");
    check((a.m.fees_available == b.m.fees_available) & (a.m.referrer_rebates_accrued == b.m.referrer_rebates_accrued) & (a.m.fees_to_referrers == b.m.fees_to_referrers), "fee books stay");
    rest_stays(&a, &b);
    cover(true, "end");
}
/// referrer: none, someone's account, the user's own quote account
fn settle(p: u32, expired: bool) {
    arm(p);
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    any_account(&mk);
    any_books(&mk);
    let pen = u64r("penalties", 0, 1 << 30);
    mk.me().position.penalty_heap_count = pen;
    let (ub, uq) = (u64r("user_base", 0, BIG), u64r("user_quote", 0, BIG));
    mk.w.set_amount(mk.user_base, ub);
    mk.w.set_amount(mk.user_quote, uq);
    let m = mk.mkt();
    m.maker_fee = i64r("maker_fee", -1_000_000, 1_000_000);
    let who = choice(3);
    let rf = u64r("referrer_quote", 0, BIG);
    let third = mk.w.token(K_REFERRER, K_QUOTE_MINT, K_STRANGER, rf);
    mk.referrer = [None, Some(third), Some(mk.user_quote)][who as usize];
    let b = books(&mk);
    let y = b.a.position;
    let left = if m.maker_fee > 0 && y.bids_base_lots == 0 { y.locked_maker_fees } else { 0 };
    let reb = y.referrer_rebates_available + left;
    // the account is one of those the market's books cover
    assume((y.base_free_native <= m.base_deposit_total) & (y.quote_free_native + reb <= m.quote_deposit_total));
    assume(y.referrer_rebates_available <= m.referrer_rebates_accrued);
    let lam = u64r("payer_lamports", 0, 1 << 50);
    mk.w.accs[mk.payer].lamports = lam;
    let ml = mk.w.accs[mk.market].lamports;
    let mut metas = mk.m_settle();
    if expired {
        m.time_expiry = -1;
        m.close_market_admin = some(K_STRANGER);
        let admin = mk.w.plain(K_STRANGER);
        metas.insert(0, sg(admin));
        metas[1] = sgw(mk.owner);
    }
    let b = Books { m: *m, ..b };
    if p == 29 {
        unsafe { KEEP_LOGS = true };
    }
    no_panic(true);
    let ok = mk.w.run(&Ix::new(if expired { sel::SETTLE_FUNDS_EXPIRED } else { sel::SETTLE_FUNDS }).0, &metas).is_ok();
    no_panic(false);
    let due = pen * PENALTY_EVENT_HEAP;
    chk(13, ok | (due > lam), "settling succeeds whenever the penalty can be paid");
    cover(!ok, "refused");
    if !ok {
        return;
    }
    let a = books(&mk);
    let x = a.a.position;
    let got = mk.w.amount(third) - rf;
    if p == 29 {
        let l = unsafe { &*std::ptr::addr_of!(LOGS) };
        check(l.len() == 1, "a settlement emits one log");
        if l.len() == 1 {
            let mut d = D::new(&l[0], "SettleFundsLog");
            check(d.key() == K_OOA, "settle log: account");
            check(d.u64() == a.ub - ub, "settle log: base paid out");
            let q = d.u64();
            let r = d.u64();
            let paid = a.uq - uq;
            match who {
                0 => check((q == paid) & (r == a.m.fees_available - b.m.fees_available), "settle log: quote and rebate paid out"),
                1 => check((q == paid) & (r == got), "settle log: quote and rebate paid out"),
                _ => check(q + r == paid, "settle log: quote and rebate paid out"),
            }
            check(d.u8() == (who != 0) as u8, "settle log: referrer");
            if who != 0 {
                check(d.key() == if who == 1 { K_REFERRER } else { K_USER_QUOTE }, "settle log: referrer");
            }
            check(d.done(), "settle log: length");
        }
        cover(true, "end");
        return;
    }
    let to_user = if who == 2 { reb } else { 0 };
    check(a.ub == ub + y.base_free_native, "the user gets exactly the free base");
    check(a.uq == uq + y.quote_free_native + to_user, "the user gets exactly the free quote");
    check(got == if who == 1 { reb } else { 0 }, "the referrer gets exactly the rebate");
    check((x.base_free_native == 0) & (x.quote_free_native == 0) & (x.referrer_rebates_available == 0), "what was paid is reset");
    check(x.locked_maker_fees == y.locked_maker_fees - left, "rounding leftovers are released only without open bids");
    check(x.penalty_heap_count == 0, "penalties are reset");
    let out = y.quote_free_native + if who == 0 { 0 } else { reb };
    check((a.vb == b.vb - y.base_free_native) & (a.vq == b.vq - out), "vaults pay it");
    check((a.m.base_deposit_total == b.m.base_deposit_total - y.base_free_native) & (a.m.quote_deposit_total == b.m.quote_deposit_total - out), "recorded deposits follow");
    check(a.m.fees_available == b.m.fees_available + if who == 0 { reb } else { 0 }, "without referrer the rebate can be swept");
    check(a.m.referrer_rebates_accrued == b.m.referrer_rebates_accrued - y.referrer_rebates_available, "accrued rebates");
    check(a.m.fees_to_referrers == b.m.fees_to_referrers + if who == 0 { 0 } else { reb as u128 }, "paid rebates");
    check((mk.w.accs[mk.payer].lamports == lam - due) & (mk.w.accs[mk.market].lamports == ml + due), "the penalty goes to the market");
    rest_stays(&a, &b);
    cover(left > 0, "leftover");
    cover(due > 0, "penalty");
    cover(true, "end");
}
fn sweep(p: u32) {
    arm(p);
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    any_account(&mk);
    any_books(&mk);
    let m = mk.mkt();
    assume(m.fees_available <= m.quote_deposit_total);
    m.time_expiry = i64s("expiry");
    let r0 = u64r("receiver_quote", 0, BIG);
    let recv = mk.w.token(K_REFERRER, K_QUOTE_MINT, K_STRANGER, r0);
    let collector = mk.w.plain(K_COLLECT);
    let b = books(&mk);
    if p == 29 {
        unsafe { KEEP_LOGS = true };
    }
    no_panic(true);
    let ok = mk.w.run(&Ix::new(sel::SWEEP_FEES).0, &[sg(collector), rw(mk.market), ro(mk.authority), rw(mk.quote_vault), rw(recv), ro(mk.token_program)]).is_ok();
    no_panic(false);
    check(ok, "fees can be swept");
    if !ok {
        return;
    }
    let a = books(&mk);
    let n = b.m.fees_available;
    if p == 29 {
        let l = unsafe { &*std::ptr::addr_of!(LOGS) };
        check(l.len() == 1, "a sweep emits one log");
        if l.len() == 1 {
            let mut d = D::new(&l[0], "SweepFeesLog");
            check(d.key() == K_MARKET, "sweep log: market");
            check(d.u64() == mk.w.amount(recv) - r0, "sweep log: amount");
            check(d.key() == K_REFERRER, "sweep log: receiver");
            check(d.done(), "sweep log: length");
        }
        cover(true, "end");
        return;
    }
    check(mk.w.amount(recv) == r0 + n, "exactly the sweepable fees are paid");
    check(a.m.fees_available == 0, "nothing is left to sweep");
    check((a.vq == b.vq - n) & (a.vb == b.vb), "the quote vault pays them");
    check((a.m.quote_deposit_total == b.m.quote_deposit_total - n) & (a.m.base_deposit_total == b.m.base_deposit_total), "recorded deposits follow");
    check((a.m.referrer_rebates_accrued == b.m.referrer_rebates_accrued) & (a.m.fees_to_referrers == b.m.fees_to_referrers), "other fee books stay");
    let (x, y) = (&a.a.position, &b.a.position);
    check((x.base_free_native == y.base_free_native) & (x.quote_free_native == y.quote_free_native), "no user balance moves");
    rest_stays(&a, &b);
    cover(n > 0, "fees");
    cover(true, "end");
}
crate::harness! {
    p13_deposit { deposit(13, false) }
    p13_refill { deposit(13, true) }
    p13_settle { settle(13, false) }
    p13_settle_expired { settle(13, true) }
    p13_sweep { sweep(13) }
    p29_deposit { deposit(29, flip()) }
    p29_settle { settle(29, flip()) }
    p29_sweep { sweep(29) }
}
