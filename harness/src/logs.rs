//! What is logged when orders trade and delegates change (P29).
use crate::book::*;
use crate::env::*;
use crate::events::{is_log, D};
use crate::place::*;
use crate::roles::any_key;
use crate::sym::*;
use anchor_lang::prelude::Pubkey;
use openbook_v2::state::*;

fn of(name: &'static str) -> Vec<&'static Vec<u8>> {
    unsafe { &*std::ptr::addr_of!(LOGS) }.iter().filter(|l| is_log(l, name)).collect()
}
/// `account`: with an open-orders account, or taking without one
fn trade(o: O, account: bool, supplied: bool) {
    let side = if flip() { Side::Bid } else { Side::Ask };
    unsafe { TAKER_SIDE = [Some(side)] };
    let mut s = scene(side, o);
    let mut po = order(side, IOC, 0, false);
    if !account {
        po.cid = 0;
    }
    let b = snap(&s);
    s.mk.me().account_num = 41;
    let (ix, mut metas) = if account {
        (po.ix(), s.mk.m_place_order(side, None))
    } else {
        (Ix::new(sel::PLACE_TAKE_ORDER).u8(po.side).i64(po.price).i64(po.max_base).i64(po.max_quote).u8(IOC).u8(po.limit), s.mk.m_take())
    };
    if supplied {
        metas.push(rw(s.m1));
        metas.push(rw(s.m2));
    }
    unsafe { KEEP_LOGS = true };
    let ok = s.mk.w.run(&ix.0, &metas).is_ok();
    if !ok {
        cover(true, "refused");
        return;
    }
    let mk = &s.mk;
    let taker = if account { K_OOA } else { K_OWNER };
    let w = want(&po, &s.v, Some(taker), &s.f);
    let n = w.fills.len();
    let sig = of("TakerSignatureLog");
    check(sig.len() == n, "each fill is logged with the taker's");
    for l in sig {
        let mut d = D::new(l, "TakerSignatureLog");
        check(d.key() == K_MARKET && d.u64() == b.mkt.seq_num + 1 && d.done(), "with market and sequence number");
    }
    let tot = of("TotalOrderFillEvent");
    check(tot.len() == if n > 0 { 1 } else { 0 }, "the total is logged once if anything traded");
    let p = &mk.me().position;
    let bp = &b.me.position;
    // what really left and reached the taker
    let (uq, ub) = (mk.w.amount(mk.user_quote) as i128 - b.uq as i128, mk.w.amount(mk.user_base) as i128 - b.ub as i128);
    let (fq, fb) = (p.quote_free_native as i128 - bp.quote_free_native as i128, p.base_free_native as i128 - bp.base_free_native as i128);
    let (dq, db) = (uq + fq, ub + fb);
    if n > 0 {
        let mut d = D::new(tot[0], "TotalOrderFillEvent");
        check(d.u8() == po.side && d.key() == taker, "total log: side and taker");
        let (paid, got, fee) = (d.u64() as i128, d.u64() as i128, d.u64() as i128);
        check(d.done(), "total log: length");
        let quote = s.f.quote(1, w.quote) as i128;
        if side == Side::Bid {
            check(paid == -dq, "total log: what the taker paid");
            check(got == db, "total log: what the taker received");
            check(fee == paid - quote, "total log: the fee paid");
        } else {
            check(paid == -db, "total log: what the taker paid");
            check(got == dq, "total log: what the taker received");
            check(fee == quote - got, "total log: the fee paid");
        }
        cover(true, "traded");
        cover(fee > 0, "fee");
    }
    // positions
    let fl = of("FillLog");
    check(fl.len() == if supplied { n } else { 0 }, "fills applied at once are logged at once");
    for (l, x) in fl.iter().zip(w.fills.iter()) {
        let r = &s.v[x.0];
        let mut d = D::new(l, "FillLog");
        check(d.key() == K_MARKET && d.u8() == po.side && d.u8() == r.slot, "fill log: market, side and slot");
        check((d.u8() == 1) == (x.1 == r.qty), "fill log: whether the order is gone");
        check(d.u64() == T0 && d.u64() == b.mkt.seq_num + 1, "fill log: time and number");
        check(d.key() == r.owner && d.u64() == r.cid, "fill log: maker");
        let q = s.f.quote(x.1, r.price);
        check(d.u64() == s.f.maker_fee(q), "fill log: maker fee");
        check(d.u64() == r.ts && d.key() == taker && d.u64() == po.cid, "fill log: maker time and taker");
        d.u64();
        check((d.u64() as i64 == r.price) & (d.u64() as i64 == x.1) & d.done(), "fill log: price and size");
    }
    let pl = of("OpenOrdersPositionLog");
    check(pl.len() == fl.len() + if account && n > 0 { 1 } else { 0 }, "each trading account's position is logged");
    if account && n > 0 && !pl.is_empty() {
        // the taker's comes last: proceeds and fees, before the cost is taken
        let mut d = D::new(pl[pl.len() - 1], "OpenOrdersPositionLog");
        check(d.key() == K_OWNER && d.u32() == 41 && d.key() == K_MARKET, "taker position log: whose");
        check((d.u64() as i64 == p.bids_base_lots) & (d.u64() as i64 == p.bids_quote_lots) & (d.u64() as i64 == p.asks_base_lots), "taker position log: lots");
        let (lb, lq) = (d.u64(), d.u64());
        if side == Side::Bid {
            check((lb == p.base_free_native) & (lq == bp.quote_free_native), "taker position log: free balances");
        } else {
            check((lq == p.quote_free_native) & (lb == bp.base_free_native), "taker position log: free balances");
        }
        check((d.u64() == p.locked_maker_fees) & (d.u64() == p.referrer_rebates_available), "taker position log: fees");
        check((d.u128() == p.maker_volume) & (d.u128() == p.taker_volume) & d.done(), "taker position log: volumes");
        check(p.taker_volume == bp.taker_volume + s.f.quote(1, w.quote) as u128, "taker volume counts the quote traded");
    }
    cover(true, "end");
}
fn delegate() {
    let mut mk = Mk::new();
    let to = any_key(["d0", "d1", "d2", "d3"]);
    let none = flip();
    let a = mk.w.plain(to);
    unsafe { KEEP_LOGS = true };
    let metas = vec![sgw(mk.owner), rw(mk.ooa), ro(if none { mk.none } else { a })];
    let ok = mk.w.run(&Ix::new(sel::SET_DELEGATE).0, &metas).is_ok();
    check(ok, "the owner can change the delegate");
    if ok {
        let v = unsafe { &*std::ptr::addr_of!(LOGS) };
        check(v.len() == 1, "a change of delegate is logged once");
        if v.len() == 1 {
            let mut d = D::new(&v[0], "SetDelegateLog");
            check(d.key() == K_OOA, "delegate log: account");
            let named = !none & (to != openbook_v2::ID) & (to != Pubkey::default());
            let tag = d.u8();
            check((tag == 1) == named, "delegate log: whether there is one");
            if tag == 1 {
                check(d.key() == to, "delegate log: who");
                cover(true, "named");
            }
            check(d.done(), "delegate log: length");
        }
    }
    cover(true, "end");
}
const BOOKS: [O; 5] = [O::One, O::Two(8), O::Tie, O::Peg, O::Exp(true)];
crate::harness! {
    p29_place { trade(pick(&BOOKS), true, flip()) }
    p29_take { trade(pick(&BOOKS), false, flip()) }
    p29_self { trade(pick(&[O::MineOnly, O::MineTwo, O::Mine(true), O::MineMid]), true, false) }
    p29_wide { unsafe { RATE = Rates::Many }; trade(pick(&[O::One, O::Two(8)]), flip(), flip()) }
    p29_delegate { delegate() }
}
