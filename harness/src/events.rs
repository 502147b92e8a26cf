//! Applying events to maker accounts (P11, P15, P26) and taking without an account (P10).
use crate::book::*;
use crate::env::*;
use crate::place::*;
use crate::sym::*;
use anchor_lang::prelude::Pubkey;
use openbook_v2::state::*;

/// a maker account with one order of `side` and possibly others
fn maker_with(mk: &Mk, acc: usize, r: &R, f: &Fees) {
    let p = &mut mk.oo(acc).position;
    p.bids_base_lots = i64r("other_bid_lots", 0, 1 << 40);
    p.bids_quote_lots = i64r("other_bid_quote", 0, 1 << 40);
    p.asks_base_lots = i64r("other_ask_lots", 0, 1 << 40);
    p.locked_maker_fees = u64r("other_locked_fees", 0, 1 << 40);
    p.base_free_native = u64r("maker_base_free", 0, 1 << 50);
    p.quote_free_native = u64r("maker_quote_free", 0, 1 << 50);
    p.referrer_rebates_available = u64r("maker_rebates", 0, 1 << 50);
    p.maker_volume = u64r("maker_volume", 0, 1 << 50) as u128;
    own(mk, acc, r, f);
}
fn a_rest(side: Side, peg: bool, owner: Pubkey, slot: u8, price: i64, peg_limit: i64, qty: i64) -> R {
    let data = if peg { peg_data(price - ORACLE) } else { fixed_data(price) };
    R { side, peg, price, peg_limit, qty, owner, slot, cid: 77, ts: 5, tif: 0, seq: 10, key: mk_key(side, data, 10), valid: true }
}
fn small_price(n: &str) -> i64 {
    if unsafe { GRID } {
        [1, 13, 29][choice(3) as usize]
    } else {
        i64r(n, 1, PMAX - 1)
    }
}

/// A fill for the maker: any fees, sizes; partial or complete; fixed or pegged; own or foreign taker
fn fill_event(p: u32, rates: Rates) {
    arm(p);
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    let f = fees(&mk, rates);
    let m1 = mk.add_maker(K_MAKER1);
    let side = if flip() { Side::Bid } else { Side::Ask };
    let peg = flip();
    let price = small_price("price");
    let lim = if peg {
        let l = if unsafe { GRID } { price + i64r("limit_above", 0, 0) + [0, 16][choice(2) as usize] } else { i64r("peg_limit", 1, PMAX - 1) };
        if side == Side::Bid {
            assume(price <= l);
        }
        l
    } else {
        -1
    };
    let n = i64r("fill_qty", 1, QMAX);
    let out = flip();
    let rest = if out { 0 } else { i64r("rest_qty", 1, QMAX) };
    let own_trade = flip();
    let slot = choice(2) as u8 * 23;
    let r = a_rest(side, peg, K_MAKER1, slot, price, lim, n + rest);
    maker_with(&mk, m1, &r, &f);
    let taker = if own_trade { K_MAKER1 } else { K_OOA };
    let (mts, tcid) = (u64r("maker_ts", 0, 1 << 40), u64s("taker_cid"));
    let e = FillEvent::new(side.invert_side(), out, slot, 9, u64s("order_seq"), K_MAKER1, 77, mts, taker, tcid, price, lim, n);
    mk.heap().push_back(bytemuck::cast(e));
    let m = mk.mkt();
    m.referrer_rebates_accrued = u64r("accrued", 0, 1 << 50);
    m.fees_accrued = u64r("fees_accrued", 0, 1 << 50) as u128;
    m.maker_volume = u64r("volume", 0, 1 << 50) as u128;
    m.quote_deposit_total = u64s("qt");
    m.base_deposit_total = u64s("bt");
    m.fees_available = u64s("fa");
    let (b, bm) = (*mk.oo(m1), *m);
    let mut metas = mk.m_consume();
    metas.push(rw(m1));
    if p == 29 {
        unsafe { KEEP_LOGS = true };
    }
    no_panic(true);
    let ok = mk.w.run(&Ix::new(sel::CONSUME_EVENTS).u64(1).0, &metas).is_ok();
    no_panic(false);
    let c = |c: bool, id: &'static str| check(c, id);
    c(ok, "an event with its account supplied is applied");
    if !ok {
        return;
    }
    c(mk.heap().len() == 0, "an applied event leaves the queue");
    let a = *mk.oo(m1);
    let (x, y) = (&a.position, &b.position);
    let q = f.quote(n, price);
    let lp = r.lock_price();
    let ql = f.quote(n, lp);
    let fee = if own_trade { 0 } else { f.maker_fee(q) };
    let reb = if own_trade { 0 } else { f.rebate(q) };
    if p == 29 {
        logs_of_fill(&a, &e, fee, if own_trade { 0 } else { f.taker_ceil(q) });
        cover(true, "end");
        return;
    }
    cover(own_trade, "self-trade");
    cover(fee > 0, "fee");
    cover(reb > 0, "rebate");
    let base = f.base(n);
    if side == Side::Bid {
        let fl = f.maker_fee(ql);
        c(x.base_free_native == y.base_free_native + base, "a buyer gets the base");
        c(x.quote_free_native == y.quote_free_native + reb + (ql - q) + (fl - fee), "a buyer gets rebate and what was locked above the fill price");
        c(x.locked_maker_fees == y.locked_maker_fees - fl, "locked fees of the filled part are released");
        c((x.bids_base_lots == y.bids_base_lots - n) & (x.bids_quote_lots == y.bids_quote_lots - n * lp), "locked bid lots are released");
        c(x.asks_base_lots == y.asks_base_lots, "asks stay");
    } else {
        c(x.quote_free_native == y.quote_free_native + q + reb - fee, "a seller gets the proceeds");
        c(x.base_free_native == y.base_free_native, "no base for a seller");
        c(x.locked_maker_fees == y.locked_maker_fees, "no fees were locked for an ask");
        c(x.asks_base_lots == y.asks_base_lots - n, "locked ask lots are released");
        c((x.bids_base_lots == y.bids_base_lots) & (x.bids_quote_lots == y.bids_quote_lots), "bids stay");
    }
    c(x.referrer_rebates_available == y.referrer_rebates_available + fee, "the maker fee goes to the referrer");
    let m = mk.mkt();
    c(m.referrer_rebates_accrued == bm.referrer_rebates_accrued + fee, "the market accrues the referral");
    c(m.fees_accrued == bm.fees_accrued + fee as u128, "the market accrues the fee");
    c((m.maker_volume == bm.maker_volume + q as u128) & (x.maker_volume == y.maker_volume + q as u128), "volumes");
    c((m.quote_deposit_total == bm.quote_deposit_total) & (m.base_deposit_total == bm.base_deposit_total) & (m.fees_available == bm.fees_available), "no deposit moves");
    c((x.penalty_heap_count == y.penalty_heap_count) & (x.taker_volume == y.taker_volume), "nothing else moves");
    // slot
    let s = &a.open_orders[slot as usize];
    c(s.is_free() == out, "a finished order frees its slot, another keeps it");
    if !out {
        let t = &b.open_orders[slot as usize];
        c((s.id == t.id) & (s.client_id == t.client_id) & (s.locked_price == t.locked_price) & (s.side_and_tree == t.side_and_tree), "a kept slot is unchanged");
    }
    others(&a, &b, slot as usize);
    // conservation
    let (pb, pq) = pending(&e, &f);
    c(owed_quote(x, &f) - owed_quote(y, &f) == pq, "quote owed is conserved");
    c(owed_base(x, &f) - owed_base(y, &f) == pb, "base owed is conserved");
    cover(true, "end");
}
fn others(a: &OpenOrdersAccount, b: &OpenOrdersAccount, slot: usize) {
    let mut same = true;
    for n in 0..24 {
        if n != slot {
            let (s, t) = (&a.open_orders[n], &b.open_orders[n]);
            same &= (s.is_free == t.is_free) & (s.id == t.id) & (s.client_id == t.client_id) & (s.locked_price == t.locked_price);
        }
    }
    check(same, "other slots are unchanged");
    check((a.owner == b.owner) & (a.market == b.market) & (a.account_num == b.account_num) & (a.delegate == b.delegate), "the account stays whose it is");
}
fn logs_of_fill(a: &OpenOrdersAccount, e: &FillEvent, fee: u64, tfee: u64) {
    let l = unsafe { &*std::ptr::addr_of!(LOGS) };
    check(l.len() == 2, "a fill emits a fill and a position log");
    if l.len() != 2 {
        return;
    }
    let mut d = D::new(&l[0], "FillLog");
    check(d.key() == K_MARKET, "fill log: market");
    check((d.u8() == e.taker_side) & (d.u8() == e.maker_slot) & (d.u8() == e.maker_out), "fill log: side, slot, out");
    check(d.u64() == e.timestamp, "fill log: time");
    check(d.u64() == e.market_seq_num, "fill log: sequence number");
    check(d.key() == e.maker, "fill log: maker");
    check(d.u64() == e.maker_client_order_id, "fill log: maker's id");
    check(d.u64() == fee, "fill log: maker fee");
    check(d.u64() == e.maker_timestamp, "fill log: maker time");
    check(d.key() == e.taker, "fill log: taker");
    check(d.u64() == e.taker_client_order_id, "fill log: taker's id");
    check(d.u64() == tfee, "fill log: taker fee");
    check((d.u64() as i64 == e.price) & (d.u64() as i64 == e.quantity), "fill log: price and size");
    check(d.done(), "fill log: length");
    position_log(&l[1], a);
}
pub fn position_log(l: &[u8], a: &OpenOrdersAccount) {
    let p = &a.position;
    let mut d = D::new(l, "OpenOrdersPositionLog");
    check(d.key() == a.owner, "position log: owner");
    check(d.u32() == a.account_num, "position log: account number");
    check(d.key() == a.market, "position log: market");
    check((d.u64() as i64 == p.bids_base_lots) & (d.u64() as i64 == p.bids_quote_lots) & (d.u64() as i64 == p.asks_base_lots), "position log: lots");
    check((d.u64() == p.base_free_native) & (d.u64() == p.quote_free_native), "position log: free balances");
    check((d.u64() == p.locked_maker_fees) & (d.u64() == p.referrer_rebates_available), "position log: fees");
    check((d.u128() == p.maker_volume) & (d.u128() == p.taker_volume), "position log: volumes");
    check(d.done(), "position log: length");
}

/// reads an emitted log
pub struct D<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> D<'a> {
    pub fn new(b: &'a [u8], name: &'static str) -> D<'a> {
        check(is_log(b, name), "the expected kind of log");
        D { b, at: 8 }
    }
    pub fn u8(&mut self) -> u8 {
        self.at += 1;
        self.b[self.at - 1]
    }
    pub fn u32(&mut self) -> u32 {
        self.at += 4;
        u32::from_le_bytes(self.b[self.at - 4..self.at].try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        self.at += 8;
        u64::from_le_bytes(self.b[self.at - 8..self.at].try_into().unwrap())
    }
    pub fn u128(&mut self) -> u128 {
        self.at += 16;
        u128::from_le_bytes(self.b[self.at - 16..self.at].try_into().unwrap())
    }
    pub fn key(&mut self) -> Pubkey {
        self.at += 32;
        Pubkey::new_from_array(self.b[self.at - 32..self.at].try_into().unwrap())
    }
    pub fn done(&self) -> bool {
        self.at == self.b.len()
    }
}
pub fn is_log(b: &[u8], name: &'static str) -> bool {
    use anchor_lang::Discriminator;
    use openbook_v2::logs::*;
    let d = match name {
        "FillLog" => FillLog::DISCRIMINATOR,
        "OpenOrdersPositionLog" => OpenOrdersPositionLog::DISCRIMINATOR,
        "DepositLog" => DepositLog::DISCRIMINATOR,
        "SettleFundsLog" => SettleFundsLog::DISCRIMINATOR,
        "SweepFeesLog" => SweepFeesLog::DISCRIMINATOR,
        "SetDelegateLog" => SetDelegateLog::DISCRIMINATOR,
        "TotalOrderFillEvent" => TotalOrderFillEvent::DISCRIMINATOR,
        "TakerSignatureLog" => TakerSignatureLog::DISCRIMINATOR,
        _ => MarketMetaDataLog::DISCRIMINATOR,
    };
    b.len() >= 8 && b[..8] == d
}

/// An out event returns what the removed order locked
fn out_event(p: u32) {
    arm(p);
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    let f = fees(&mk, unsafe { RATE });
    let m1 = mk.add_maker(K_MAKER1);
    let side = if flip() { Side::Bid } else { Side::Ask };
    let peg = flip();
    let price = small_price("price");
    let lim = if peg { small_price("peg_limit") } else { -1 };
    let n = i64r("qty", 1, QMAX);
    let slot = choice(2) as u8 * 23;
    let r = a_rest(side, peg, K_MAKER1, slot, price, lim, n);
    maker_with(&mk, m1, &r, &f);
    let e = OutEvent::new(side, slot, 9, u64s("seq"), K_MAKER1, n);
    mk.heap().push_back(bytemuck::cast(e));
    let (b, bm) = (*mk.oo(m1), *mk.mkt());
    let mut metas = mk.m_consume();
    metas.push(rw(m1));
    no_panic(true);
    let ok = mk.w.run(&Ix::new(sel::CONSUME_EVENTS).u64(1).0, &metas).is_ok();
    no_panic(false);
    check(ok, "an event with its account supplied is applied");
    if !ok {
        return;
    }
    check(mk.heap().len() == 0, "an applied event leaves the queue");
    let a = *mk.oo(m1);
    returned(&a, &b, &r, &f);
    others(&a, &b, slot as usize);
    let m = mk.mkt();
    check(
        (m.referrer_rebates_accrued == bm.referrer_rebates_accrued) & (m.fees_accrued == bm.fees_accrued) & (m.fees_available == bm.fees_available) & (m.quote_deposit_total == bm.quote_deposit_total) & (m.base_deposit_total == bm.base_deposit_total) & (m.maker_volume == bm.maker_volume),
        "the market's books stay",
    );
    cover(true, "end");
}
/// `a` is `b` with the order `r` gone and exactly what it locked returned
pub fn returned(a: &OpenOrdersAccount, b: &OpenOrdersAccount, r: &R, f: &Fees) {
    let (x, y) = (&a.position, &b.position);
    let lp = r.lock_price();
    let q = f.quote(r.qty, lp);
    if r.side == Side::Bid {
        check(x.quote_free_native == y.quote_free_native + q + f.lock(q), "quote and locked fee are returned");
        check(x.base_free_native == y.base_free_native, "no base for a bid");
        check(x.locked_maker_fees == y.locked_maker_fees - f.lock(q), "the fee is no longer locked");
        check((x.bids_base_lots == y.bids_base_lots - r.qty) & (x.bids_quote_lots == y.bids_quote_lots - r.qty * lp) & (x.asks_base_lots == y.asks_base_lots), "lots are unlocked");
    } else {
        check(x.base_free_native == y.base_free_native + f.base(r.qty), "base is returned");
        check((x.quote_free_native == y.quote_free_native) & (x.locked_maker_fees == y.locked_maker_fees), "no quote for an ask");
        check((x.asks_base_lots == y.asks_base_lots - r.qty) & (x.bids_base_lots == y.bids_base_lots) & (x.bids_quote_lots == y.bids_quote_lots), "lots are unlocked");
    }
    check((x.referrer_rebates_available == y.referrer_rebates_available) & (x.maker_volume == y.maker_volume) & (x.taker_volume == y.taker_volume) & (x.penalty_heap_count == y.penalty_heap_count), "nothing else moves");
    check(a.open_orders[r.slot as usize].is_free(), "its slot is free");
}

fn any_rates(g: bool) {
    unsafe {
        GRID = g;
        RATE = Rates::Any;
    }
}
#[no_mangle]
pub extern "C" fn p11_fill() {
    fill_event(11, Rates::Few);
}
#[no_mangle]
pub extern "C" fn p11_fill_any() {
    any_rates(true);
    fill_event(11, Rates::Any);
}
#[no_mangle]
pub extern "C" fn p11_out() {
    out_event(11);
}
#[no_mangle]
pub extern "C" fn p11_out_any() {
    any_rates(false);
    out_event(11);
}
#[no_mangle]
pub extern "C" fn p29_fill() {
    fill_event(29, Rates::Few);
}

// ---- P26: which events a crank applies
#[derive(Clone, Copy)]
struct Ev {
    fill: bool,
    maker: usize,
    qty: i64,
}
/// `n` events for two makers, some accounts missing, any limit or list of slots
fn crank(n: usize, given: bool) {
    arm(26);
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    let f = Fees { taker: 0, maker: 0, bl: 3, ql: 7 };
    let m = mk.mkt();
    m.base_lot_size = 3;
    m.quote_lot_size = 7;
    let accs = [mk.add_maker(K_MAKER1), mk.add_maker(K_MAKER2)];
    let keys = [K_MAKER1, K_MAKER2];
    let mut ev: Vec<Ev> = Vec::with_capacity(8);
    for i in 0..n {
        let fill = flip();
        let mk_i = choice(2) as usize;
        let qty = i64r(QN[i], 1, 1 << 20);
        ev.push(Ev { fill, maker: mk_i, qty });
        let mut r = a_rest(Side::Ask, false, keys[mk_i], i as u8, 13, -1, qty);
        r.key += i as u128;
        own(&mk, accs[mk_i], &r, &f);
        if fill {
            let e = FillEvent::new(Side::Bid, true, i as u8, 9, 4, keys[mk_i], 77, 3, K_OOA, 5, 13, -1, qty);
            mk.heap().push_back(bytemuck::cast(e));
        } else {
            let e = OutEvent::new(Side::Ask, i as u8, 9, 4, keys[mk_i], qty);
            mk.heap().push_back(bytemuck::cast(e));
        }
    }
    let b = [*mk.oo(accs[0]), *mk.oo(accs[1])];
    let have = [flip(), flip()];
    let mut metas = mk.m_consume();
    // supplied in either order
    let order = if flip() { [0, 1] } else { [1, 0] };
    for i in order {
        if have[i] {
            metas.push(rw(accs[i]));
        }
    }
    // the queue order, given slots first
    let mut plan: Vec<usize> = Vec::with_capacity(16);
    let ix = if given {
        let k = 1 + choice(2) as usize;
        let mut ix = Ix::new(sel::CONSUME_GIVEN_EVENTS).u32(k as u32);
        for _ in 0..k {
            // one of the slots in use, or a free one
            let s = choice(n as u64 + 1);
            ix = ix.u64(s);
            if (s as usize) < n && !plan.contains(&(s as usize)) {
                plan.push(s as usize);
            }
        }
        for i in 0..n {
            if !plan.contains(&i) {
                plan.push(i);
            }
        }
        plan.truncate(k);
        ix
    } else {
        let l = choice(n as u64 + 2);
        for i in 0..n {
            plan.push(i);
        }
        plan.truncate(l as usize);
        Ix::new(sel::CONSUME_EVENTS).u64(l)
    };
    no_panic(true);
    let ok = mk.w.run(&ix.0, &metas).is_ok();
    no_panic(false);
    check(ok, "consuming succeeds");
    if !ok {
        return;
    }
    let mut left: Vec<usize> = Vec::with_capacity(8);
    let (mut q, mut base, mut lots) = ([0u64; 2], [0u64; 2], [0i64; 2]);
    for i in 0..n {
        let e = ev[i];
        let applied = plan.contains(&i) && have[e.maker];
        if applied {
            lots[e.maker] += e.qty;
            if e.fill {
                q[e.maker] += f.quote(e.qty, 13);
            } else {
                base[e.maker] += f.base(e.qty);
            }
        } else {
            left.push(i);
        }
        let slot = &mk.oo(accs[e.maker]).open_orders[i];
        check(slot.is_free() == applied, "an event frees its own order's slot, once applied");
    }
    for k in 0..2 {
        let (x, y) = (&mk.oo(accs[k]).position, &b[k].position);
        check((x.quote_free_native == y.quote_free_native + q[k]) & (x.base_free_native == y.base_free_native + base[k]), "each event is applied once to its account");
        check(x.asks_base_lots == y.asks_base_lots - lots[k], "each event unlocks its lots once");
    }
    // what stays, oldest first
    check(mk.heap().len() == left.len(), "exactly the applied events are removed");
    let mut k = 0;
    for (e, _) in mk.heap().iter() {
        if k < left.len() {
            let w = ev[left[k]];
            let ok = if w.fill {
                let x: &FillEvent = bytemuck::cast_ref(e);
                (e.event_type == 0) & (x.maker == keys[w.maker]) & (x.quantity == w.qty) & (x.maker_slot as usize == left[k])
            } else {
                let x: &OutEvent = bytemuck::cast_ref(e);
                (e.event_type == 1) & (x.owner == keys[w.maker]) & (x.quantity == w.qty) & (x.owner_slot as usize == left[k])
            };
            check(ok, "remaining events keep their contents and order");
        }
        k += 1;
    }
    cover(!left.is_empty() && left.len() < n, "some applied");
    cover(true, "end");
}
#[no_mangle]
pub extern "C" fn p26_crank() {
    crank(3, false);
}
#[no_mangle]
pub extern "C" fn p26_given() {
    crank(3, true);
}
#[no_mangle]
pub extern "C" fn p26_crank_deep() {
    crank(5, false);
}
#[no_mangle]
pub extern "C" fn p26_given_deep() {
    crank(4, true);
}
/// no more than eight events per call
#[no_mangle]
pub extern "C" fn p26_many() {
    arm(26);
    let mut mk = Mk::new();
    let f = Fees { taker: 0, maker: 0, bl: 1, ql: 1 };
    let a = mk.add_maker(K_MAKER1);
    for i in 0..11u8 {
        let mut r = a_rest(Side::Ask, false, K_MAKER1, i, 13, -1, 1 + i as i64);
        r.key += i as u128;
        own(&mk, a, &r, &f);
        mk.heap().push_back(bytemuck::cast(OutEvent::new(Side::Ask, i, 9, 4, K_MAKER1, 1 + i as i64)));
    }
    let mut metas = mk.m_consume();
    metas.push(rw(a));
    let l = u64r("limit", 0, 1 << 40);
    no_panic(true);
    let ok = mk.w.run(&Ix::new(sel::CONSUME_EVENTS).u64(l).0, &metas).is_ok();
    no_panic(false);
    check(ok, "consuming succeeds");
    let n = if l < 8 { l } else { 8 };
    check(mk.heap().len() as u64 == 11 - n, "at most eight events are applied");
    check(mk.oo(a).position.base_free_native == n * (n + 1) / 2, "the oldest ones are applied");
    cover(l > 8, "end");
}

// ---- supplying makers at once or consuming later
fn bytes_of(mk: &Mk, i: usize) -> Vec<u8> {
    mk.w.bytes(i).to_vec()
}
/// consume all there is
fn drain(mk: &mut Mk, m1: usize, m2: usize) {
    let mut metas = mk.m_consume();
    metas.push(rw(m1));
    metas.push(rw(m2));
    for _ in 0..3 {
        if mk.heap().len() == 0 {
            break;
        }
        let ok = mk.w.run(&Ix::new(sel::CONSUME_EVENTS).u64(8).0, &metas).is_ok();
        check(ok, "consuming succeeds");
    }
    check(mk.heap().len() == 0, "all queued events can be consumed");
}
/// place with the makers supplied, against place and consume: same accounts, same book
fn same_either_way(side: Side, o: O, ty: u8, stb: u8, peg: bool) {
    arm(26);
    let mut s = scene(side, o);
    let po = order(side, ty, stb, peg);
    let mk = &mut s.mk;
    let all = [mk.market, mk.bids, mk.asks, mk.heap, mk.ooa, s.m1, s.m2, mk.user_base, mk.user_quote, mk.base_vault, mk.quote_vault];
    let start: Vec<Vec<u8>> = all.iter().map(|i| bytes_of(mk, *i)).collect();
    let mut metas = mk.m_place_order(side, None);
    metas.push(rw(s.m1));
    let both = flip();
    if both {
        metas.push(rw(s.m2));
    }
    let pen0 = mk.me().position.penalty_heap_count;
    let r1 = mk.w.run(&po.ix().0, &metas).is_ok();
    let left = mk.heap().len();
    // makers left out, or more fills than are served at once: the rest is served later
    if r1 {
        cover(left > 0, "left over");
        drain(mk, s.m1, s.m2);
    }
    let got = [*mk.me(), *mk.oo(s.m1), *mk.oo(s.m2)];
    let m1 = *mk.mkt();
    let (b1, a1) = (all_leaves(mk.bids()), all_leaves(mk.asks()));
    let am1: Vec<u64> = [mk.user_base, mk.user_quote, mk.base_vault, mk.quote_vault].iter().map(|i| mk.w.amount(*i)).collect();
    for (i, d) in all.iter().zip(start.iter()) {
        mk.w.bytes(*i).copy_from_slice(d);
    }
    let metas = mk.m_place_order(side, None);
    let r2 = mk.w.run(&po.ix().0, &metas).is_ok();
    check(r1 == r2, "supplying makers does not change whether an order is accepted");
    if !(r1 & r2) {
        return;
    }
    check(left == 0 || !both || o == O::Long, "a supplied maker's event is not queued");
    let queued = mk.heap().len();
    cover(queued > 0, "queued");
    drain(mk, s.m1, s.m2);
    let now = [*mk.me(), *mk.oo(s.m1), *mk.oo(s.m2)];
    for k in 0..3 {
        let (a, b) = (&got[k], &now[k]);
        check(same_position(&a.position, &b.position), "balances are the same either way");
        let mut same = true;
        for n in 0..24 {
            let (s, t) = (&a.open_orders[n], &b.open_orders[n]);
            same &= (s.is_free == t.is_free) & (s.id == t.id) & (s.client_id == t.client_id) & (s.locked_price == t.locked_price) & (s.side_and_tree == t.side_and_tree);
        }
        check(same, "slots are the same either way");
    }
    for (oo, n) in [(&got[0], left), (&now[0], queued)] {
        check(oo.position.penalty_heap_count - pen0 == (n > 0) as u64, "queueing costs one penalty");
    }
    let m2 = mk.mkt();
    check(
        (m1.fees_accrued == m2.fees_accrued) & (m1.referrer_rebates_accrued == m2.referrer_rebates_accrued) & (m1.maker_volume == m2.maker_volume) & (m1.quote_deposit_total == m2.quote_deposit_total) & (m1.base_deposit_total == m2.base_deposit_total) & (m1.fees_available == m2.fees_available) & (m1.seq_num == m2.seq_num),
        "the market is the same either way",
    );
    let (b2, a2) = (all_leaves(mk.bids()), all_leaves(mk.asks()));
    for (x, y) in [(&b1, &b2), (&a1, &a2)] {
        check(x.len() == y.len(), "the book is the same either way");
        for (l, r) in x.iter().zip(y.iter()) {
            check(same_leaf(&l.1, &r.1), "orders are the same either way");
        }
    }
    let am2: Vec<u64> = [mk.user_base, mk.user_quote, mk.base_vault, mk.quote_vault].iter().map(|i| mk.w.amount(*i)).collect();
    for k in 0..4 {
        check(am1[k] == am2[k], "token balances are the same either way");
    }
    cover(true, "end");
}
/// everything but the penalty count
pub fn same_position(a: &Position, b: &Position) -> bool {
    (a.bids_base_lots == b.bids_base_lots)
        & (a.asks_base_lots == b.asks_base_lots)
        & (a.bids_quote_lots == b.bids_quote_lots)
        & (a.base_free_native == b.base_free_native)
        & (a.quote_free_native == b.quote_free_native)
        & (a.locked_maker_fees == b.locked_maker_fees)
        & (a.referrer_rebates_available == b.referrer_rebates_available)
        & (a.maker_volume == b.maker_volume)
        & (a.taker_volume == b.taker_volume)
}
#[no_mangle]
pub extern "C" fn p26_direct() {
    let s = if flip() { Side::Bid } else { Side::Ask };
    let o = pick(&[O::One, O::Two(8), O::Tie, O::Exp(true), O::Peg]);
    same_either_way(s, o, pick(&[LIMIT, IOC]), 1, false);
}

#[no_mangle]
pub extern "C" fn p26_long() {
    let s = if flip() { Side::Bid } else { Side::Ask };
    same_either_way(s, O::Long, pick(&[LIMIT, IOC]), 1, false);
}
#[no_mangle]
pub extern "C" fn p10_long() {
    let s = if flip() { Side::Bid } else { Side::Ask };
    take(10, s, O::Long, pick(&[IOC, MARKET]), flip());
}

// ---- P10
fn take(p: u32, side: Side, o: O, ty: u8, supplied: bool) {
    arm(p);
    let mut s = scene(side, o);
    let po = order(side, ty, 0, false);
    // place_take_order has neither client id, expiry nor self-trade behaviour
    let ix = Ix::new(sel::PLACE_TAKE_ORDER).u8(po.side).i64(po.price).i64(po.max_base).i64(po.max_quote).u8(po.ty).u8(po.limit);
    let b = snap(&s);
    let lam = (s.mk.w.accs[s.mk.payer].lamports, s.mk.w.accs[s.mk.market].lamports);
    let mut metas = s.mk.m_take();
    if supplied {
        metas.push(rw(s.m1));
        metas.push(rw(s.m2));
    }
    let want_v: Vec<R> = s.v.clone();
    let w = want(&po, &want_v, None, &s.f);
    if p == 29 {
        unsafe { KEEP_LOGS = true };
    }
    no_panic(p == 10);
    let ok = s.mk.w.run(&ix.0, &metas).is_ok();
    no_panic(false);
    let f = &s.f;
    let mk = &s.mk;
    if !ok {
        cover(true, "refused");
        if p == 10 {
            check(w.fails || po.rests(), "a valid taking order is not refused");
        }
        return;
    }
    check(!w.fails, "fill-or-kill that does not fill fails");
    let fl = fills(mk.heap());
    let (uq, ub, vq, vb) = (mk.w.amount(mk.user_quote), mk.w.amount(mk.user_base), mk.w.amount(mk.quote_vault), mk.w.amount(mk.base_vault));
    let m = mk.mkt();
    let (q, base) = (f.quote(1, w.quote), f.base(w.base));
    let d = |a: u64, b: u64| a as i128 - b as i128;
    cover(w.base > 0, "traded");
    if p == 29 {
        let l = unsafe { &*std::ptr::addr_of!(LOGS) };
        let tot = l.iter().filter(|x| is_log(x, "TotalOrderFillEvent")).count();
        check(tot == (w.base > 0) as usize, "a trade emits one total");
        return;
    }
    if p == 6 {
        for e in &fl {
            check(within(side, e.price, po.price) | (po.ty == MARKET), "no fill beyond the limit price");
        }
        if !supplied {
            check(fl.len() <= po.limit as usize, "match limit");
        }
        let got_b = if side == Side::Bid { d(ub, b.ub) } else { d(b.ub, ub) };
        check(got_b <= po.max_base as i128 * f.bl as i128, "base limit");
        if side == Side::Bid {
            check(d(b.uq, uq) <= po.max_quote as i128 * f.ql as i128, "quote limit, fees included");
        }
        check(all_leaves(mk.side(side)).is_empty(), "a taking order never rests");
        cover(true, "end");
        return;
    }
    if !supplied {
        check(fl.len() == w.fills.len(), "every fill is queued");
        for (e, x) in fl.iter().zip(w.fills.iter()) {
            let r = &want_v[x.0];
            check((e.maker == r.owner) & (e.price == r.price) & (e.quantity == x.1) & (e.maker_slot == r.slot), "the queued fill is right");
            check((e.taker == K_OWNER) & (e.taker_side == po.side), "the queued fill names the taker");
        }
    }
    if side == Side::Bid {
        check(d(b.uq, uq) == (q + w.rebates) as i128, "a buyer pays the trade plus maker rebates");
        check(d(ub, b.ub) == base as i128, "a buyer receives the base");
    } else {
        check(d(b.ub, ub) == base as i128, "a seller pays the base");
        check(d(uq, b.uq) == q as i128 - w.rebates as i128, "a seller receives the trade less maker rebates");
    }
    check((d(vq, b.vq) == d(b.uq, uq)) & (d(vb, b.vb) == d(b.ub, ub)), "the vaults take the other side");
    check((d(m.quote_deposit_total, b.mkt.quote_deposit_total) == d(vq, b.vq)) & (d(m.base_deposit_total, b.mkt.base_deposit_total) == d(vb, b.vb)), "recorded deposits follow the vaults");
    let (mut pb, mut pq) = (0, 0);
    for e in &fl {
        let (x, y) = pending(e, f);
        pb += x;
        pq += y;
    }
    let mut oq = d(m.fees_available, b.mkt.fees_available);
    let mut ob = 0;
    for (a, was) in [(s.m1, &b.m1), (s.m2, &b.m2), (mk.ooa, &b.me)] {
        oq += owed_quote(&mk.oo(a).position, f) - owed_quote(&was.position, f);
        ob += owed_base(&mk.oo(a).position, f) - owed_base(&was.position, f);
    }
    check(d(vq, b.vq) == oq + pq, "quote owed equals quote held");
    check(d(vb, b.vb) == ob + pb, "base owed equals base held");
    let n = mk.heap().len();
    let pen = if n > 0 { PENALTY_EVENT_HEAP } else { 0 };
    check(mk.w.accs[mk.payer].lamports == lam.0 - pen, "the penalty is charged exactly when work is queued");
    check(mk.w.accs[mk.market].lamports == lam.1 + pen, "the penalty goes to the market");
    check(all_leaves(mk.side(side)).is_empty(), "a taking order never rests");
    check((m.fees_accrued == b.mkt.fees_accrued + (f.taker_ceil(q) - w.rebates) as u128) | supplied, "the fee statistic grows by the fee net of rebates");
    check(m.taker_volume_wo_oo == b.mkt.taker_volume_wo_oo + q as u128, "volume statistic");
    check(unsafe { (*std::ptr::addr_of!(TRANSFERS)).iter().all(|t| if t.by_seeds { t.authority == K_AUTHORITY } else { t.authority == K_OWNER }) }, "transfers are authorised by their owner");
    cover(n > 0, "penalty");
    cover(n == 0, "no penalty");
    cover(true, "end");
}
#[no_mangle]
pub extern "C" fn p10_take() {
    let s = if flip() { Side::Bid } else { Side::Ask };
    let o = pick(&[O::Empty, O::One, O::Two(8), O::Tie, O::Exp(true), O::Peg]);
    take(10, s, o, pick(&[IOC, MARKET, FOK]), flip());
}
#[no_mangle]
pub extern "C" fn p06_take() {
    let s = if flip() { Side::Bid } else { Side::Ask };
    let o = pick(&[O::One, O::Two(8), O::Peg]);
    take(6, s, o, pick(&[IOC, MARKET]), false);
}

#[no_mangle]
pub extern "C" fn p10_wide() {
    unsafe { RATE = Rates::Many };
    let s = if flip() { Side::Bid } else { Side::Ask };
    let o = pick(&[O::One, O::Two(8), O::Three, O::Exp(true)]);
    take(10, s, o, pick(&[IOC, MARKET, FOK]), flip());
}
#[no_mangle]
pub extern "C" fn p26_direct_wide() {
    unsafe { RATE = Rates::Many };
    let s = if flip() { Side::Bid } else { Side::Ask };
    same_either_way(s, pick(&[O::One, O::Two(8), O::Three, O::Exp(true), O::Exp(false)]), pick(&[LIMIT, IOC, MARKET]), 1, false);
}
