//! place_order on a book with up to three opposing orders: limits, matching, order types, funds,
//! self-trades, slots (P06-P09, P15, P16, P21, P23).
use crate::book::*;
use crate::env::*;
use crate::sym::*;
use anchor_lang::prelude::Pubkey;
use openbook_v2::state::*;

pub const LIMIT: u8 = 0;
pub const IOC: u8 = 1;
pub const POST: u8 = 2;
pub const MARKET: u8 = 3;
pub const SLIDE: u8 = 4;
pub const FOK: u8 = 5;

/// arguments of place_order
#[derive(Clone, Copy)]
pub struct Po {
    pub side: u8,
    pub price: i64,
    pub max_base: i64,
    pub max_quote: i64,
    pub cid: u64,
    pub ty: u8,
    pub expiry: u64,
    pub stb: u8,
    pub limit: u8,
    /// pegged: (offset, limit)
    pub peg: Option<(i64, i64)>,
}
impl Po {
    pub fn args(&self, ix: Ix) -> Ix {
        let ix = ix.u8(self.side);
        let ix = match self.peg {
            None => ix.i64(self.price),
            Some((o, l)) => ix.i64(o).i64(l),
        };
        ix.i64(self.max_base).i64(self.max_quote).u64(self.cid).u8(self.ty).u64(self.expiry).u8(self.stb).u8(self.limit)
    }
    pub fn ix(&self) -> Ix {
        self.args(Ix::new(if self.peg.is_some() { sel::PLACE_ORDER_PEGGED } else { sel::PLACE_ORDER }))
    }
    pub fn side(&self) -> Side {
        if self.side == 0 {
            Side::Bid
        } else {
            Side::Ask
        }
    }
    pub fn post_only(&self) -> bool {
        self.ty == POST || self.ty == SLIDE
    }
    pub fn rests(&self) -> bool {
        self.ty == LIMIT || self.post_only()
    }
}

/// is `p` no worse than `limit` for a taker on `side`?
pub fn within(side: Side, p: i64, limit: i64) -> bool {
    match side {
        Side::Bid => p <= limit,
        Side::Ask => p >= limit,
    }
}

/// What should happen to an order
pub struct Want {
    /// (index of resting order, size)
    pub fills: Vec<(usize, i64)>,
    pub dropped: Vec<usize>,
    pub cancelled: Vec<usize>,
    pub fails: bool,
    /// effective limit price
    pub price: i64,
    pub base: i64,
    pub quote: i64,
    pub self_quote: i64,
    /// stopped in front of an order it could trade with
    pub blocked: bool,
    pub rebates: u64,
}

/// priority: better price, then earlier
fn before(a: &R, b: &R) -> bool {
    match a.side {
        Side::Ask => (a.price < b.price) | ((a.price == b.price) & (a.seq < b.seq)),
        Side::Bid => (a.price > b.price) | ((a.price == b.price) & (a.seq < b.seq)),
    }
}
pub fn ranked(v: &[R]) -> Vec<usize> {
    let mut o: Vec<usize> = Vec::with_capacity(8);
    for i in 0..v.len() {
        let mut at = o.len();
        while at > 0 && before(&v[i], &v[o[at - 1]]) {
            at -= 1;
        }
        o.insert(at, i);
    }
    o
}

/// The outcome the properties demand for `po` meeting the resting orders `v`
pub fn want(po: &Po, v: &[R], me: Option<Pubkey>, f: &Fees) -> Want {
    let side = po.side();
    let rank = ranked(v);
    let cannot = po.peg.is_some() && !po.rests();
    let mut price = match (po.ty, side) {
        (MARKET, Side::Bid) => i64::MAX,
        (MARKET, Side::Ask) => 1,
        _ => po.price,
    };
    let mut w = Want {
        fills: Vec::with_capacity(8),
        dropped: Vec::with_capacity(8),
        cancelled: Vec::with_capacity(8),
        fails: cannot,
        price,
        base: 0,
        quote: 0,
        self_quote: 0,
        blocked: false,
        rebates: 0,
    };
    if cannot {
        return w;
    }
    if po.ty == SLIDE {
        if let Some(b) = rank.iter().map(|i| &v[*i]).find(|r| r.valid) {
            price = match side {
                Side::Bid if price >= b.price => b.price - 1,
                Side::Ask if price <= b.price => b.price + 1,
                _ => price,
            };
            if price < 1 {
                w.fails = true;
                return w;
            }
        }
    }
    w.price = price;
    let budget = if side == Side::Bid && !po.post_only() { (po.max_quote as i128 * 1_000_000 / (1_000_000 + f.taker as i128)) as i64 } else { po.max_quote };
    let (mut b, mut q) = (po.max_base, budget);
    let mut n = po.limit;
    for i in rank {
        let r = &v[i];
        if b == 0 {
            break;
        }
        if !r.valid {
            if w.dropped.len() < 5 {
                w.dropped.push(i);
            }
            continue;
        }
        if !within(side, r.price, price) {
            break;
        }
        if po.post_only() || n == 0 {
            w.blocked = true;
            break;
        }
        let by_quote = q / r.price;
        if by_quote == 0 {
            w.blocked = true;
            break;
        }
        let m = b.min(r.qty).min(by_quote);
        let mine = me == Some(r.owner);
        if mine && po.stb == 1 {
            w.cancelled.push(i);
            continue;
        }
        if mine && po.stb == 2 {
            w.fails = true;
            return w;
        }
        if mine {
            w.self_quote += m * r.price;
        } else {
            w.rebates += f.rebate(f.quote(m, r.price));
        }
        b -= m;
        q -= m * r.price;
        w.fills.push((i, m));
        n -= 1;
    }
    w.base = po.max_base - b;
    w.quote = budget - q;
    if po.ty == FOK && b > 0 {
        w.fails = true;
    }
    w
}

/// shape of the opposing side
#[derive(Clone, Copy, PartialEq)]
pub enum O {
    Empty,
    /// one order of another account
    One,
    /// two of other accounts, prices differing first in the given bit
    Two(u32),
    Tie,
    Three,
    /// an expired order before or behind a live one
    Exp(bool),
    /// an own order before or behind another account's
    Mine(bool),
    MineOnly,
    /// own expired order before another account's
    MineExp,
    /// a fixed and a pegged order, any relative order
    Peg,
    /// a pegged order beyond its limit and a fixed one
    PegBeyond,
    /// own pegged order and another's fixed
    MinePeg,
    /// nothing, but an oracle
    Oracle,
    /// six ended orders before a live one
    ManyExp,
    /// an own order between those of two others
    MineMid,
    /// two own orders
    MineTwo,
    /// an own order on either side of another's
    MineAround,
    /// eighteen orders, more than one order's makers can be paid at once
    Long,
}

pub struct S {
    pub mk: Mk,
    pub v: Vec<R>,
    pub f: Fees,
    pub m1: usize,
    pub m2: usize,
}
pub static mut RATE: Rates = Rates::Few;
/// world with the given opposing side for a taker on `side`
pub fn scene(side: Side, o: O) -> S {
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    let oracle = matches!(o, O::Peg | O::PegBeyond | O::MinePeg | O::Oracle);
    let f = fees(&mk, if oracle { Rates::Oracle } else { unsafe { RATE } });
    mk.mkt().seq_num = 100;
    let (m1, m2) = (mk.add_maker(K_MAKER1), mk.add_maker(K_MAKER2));
    if oracle {
        // ORACLE lots at lot sizes 100 and 10
        mk.with_oracle(100.0);
    }
    let os = side.invert_side();
    let a = (K_MAKER1, 3u8, K::Live);
    let b = (K_MAKER2, 1u8, K::Live);
    let me = (K_OOA, 2u8, K::Live);
    // first in priority is last in price for bids
    let two = |x: (Pubkey, u8, K), y: (Pubkey, u8, K)| if os == Side::Ask { [x, y] } else { [y, x] };
    let (v, rep) = match o {
        O::Empty | O::Oracle => (vec![], [0; 8]),
        O::MineTwo => fixed_orders(os, &two(me, (K_OOA, 6, K::Live)), false, 8, 0),
        O::MineAround => fixed_orders(os, &[me, a, (K_OOA, 6, K::Live)], false, 0, 0),
        O::Long => (long(os), [0; 8]),
        O::MineMid => fixed_orders(os, &[a, me, b], false, 0, 0),
        O::ManyExp => {
            let x = |i| (if i % 2 == 0 { K_MAKER1 } else { K_MAKER2 }, 5 + i as u8, K::Expired);
            let mut w = [x(0), x(1), x(2), x(3), x(4), x(5), b];
            if os == Side::Bid {
                w.reverse();
            }
            fixed_orders(os, &w, false, 0, 0)
        }
        O::One => fixed_orders(os, &[a], false, 0, 0),
        O::Two(bit) => fixed_orders(os, &two(a, b), false, bit, 0),
        O::Tie => fixed_orders(os, &[a, b], true, 0, 0),
        O::Three => fixed_orders(os, &[a, b, (K_MAKER1, 4, K::Live)], false, 0, 0),
        O::Exp(first) => {
            let x = (K_MAKER1, 3, K::Expired);
            fixed_orders(os, &if first { two(x, b) } else { two(b, x) }, false, 8, 0)
        }
        O::Mine(first) => fixed_orders(os, &if first { two(me, a) } else { two(a, me) }, false, 8, 0),
        O::MineOnly => fixed_orders(os, &[me], false, 8, 0),
        O::MineExp => fixed_orders(os, &two((K_OOA, 2, K::Expired), a), false, 8, 0),
        O::Peg | O::PegBeyond | O::MinePeg => {
            let (mut v, rep) = fixed_orders(os, &[a], false, 0, 0);
            let (w, s) = if o == O::MinePeg { (K_OOA, 2) } else { (K_MAKER2, 1) };
            // earlier or later than the fixed one
            let seq = if flip() { 5 } else { 15 };
            v.push(peg_order(os, w, s, seq, 1, o == O::PegBeyond));
            (v, rep)
        }
    };
    if o == O::Long {
        for r in &v {
            mk.side(os).insert_leaf(r.tree(), &r.leaf()).unwrap();
        }
    } else {
        seat(&mk, &v, &rep);
    }
    for r in &v {
        let acc = if r.owner == K_OOA {
            mk.ooa
        } else if r.owner == K_MAKER1 {
            m1
        } else {
            m2
        };
        own(&mk, acc, r, &f);
    }
    let p = &mut mk.me().position;
    p.quote_free_native = u64r("quote_free", 0, 1 << 50);
    p.base_free_native = u64r("base_free", 0, 1 << 50);
    p.referrer_rebates_available = u64r("rebates", 0, 1 << 40);
    mk.w.set_amount(mk.user_quote, 1 << 60);
    mk.w.set_amount(mk.user_base, 1 << 60);
    mk.w.set_amount(mk.quote_vault, u64r("quote_vault", 1 << 60, 1 << 61));
    mk.w.set_amount(mk.base_vault, u64r("base_vault", 1 << 60, 1 << 61));
    let m = mk.mkt();
    m.quote_deposit_total = u64r("quote_total", 1 << 60, 1 << 61);
    m.base_deposit_total = u64r("base_total", 1 << 60, 1 << 61);
    m.fees_available = u64r("fees_available", 0, 1 << 40);
    S { mk, v, f, m1, m2 }
}
/// eighteen orders at prices of their own, all of one maker, of two in turn, or the last three of another
fn long(side: Side) -> Vec<R> {
    unsafe { LONG = true };
    let who = choice(3);
    let mut v = Vec::with_capacity(LONG_N as usize);
    for i in 0..LONG_N {
        let second = match who {
            0 => false,
            1 => i % 2 == 1,
            _ => i >= 15,
        };
        let price = if side == Side::Ask { 13 + i } else { 30 - i };
        let (ts, seq) = (T0 - 5, 10 + i as u64);
        v.push(R {
            side,
            peg: false,
            price,
            peg_limit: -1,
            qty: if i == LONG_N - 1 { i64r("last_qty", 1, QMAX) } else { 1 + i % 3 },
            owner: if second { K_MAKER2 } else { K_MAKER1 },
            slot: i as u8,
            cid: 70 + i as u64,
            ts,
            tif: 0,
            seq,
            key: mk_key(side, fixed_data(price), seq),
            valid: true,
        });
    }
    v
}
const LONG_N: i64 = 18;
static mut LONG: bool = false;
pub fn order(side: Side, ty: u8, stb: u8, peg: bool) -> Po {
    if unsafe { LONG } {
        return Po {
            side: side as u8,
            price: if side == Side::Bid { 31 } else { 12 },
            max_base: i64r("max_base", 24, QMAX),
            max_quote: 1 << 40,
            cid: 1000,
            ty,
            expiry: 0,
            stb,
            limit: pick(&[14, 15, 16, 17, 255]),
            peg: None,
        };
    }
    let po = Po {
        side: side as u8,
        price: order_price(),
        max_base: i64r("max_base", 0, QMAX),
        max_quote: i64r("max_quote", 0, 1 << 30),
        cid: u64r("client_id", 1000, 2000),
        ty,
        expiry: 0,
        stb,
        limit: u8r("match_limit", 0, 4),
        peg: None,
    };
    if peg {
        let lim = if unsafe { GRID } { po.price + [-1, 0, 1, 6][choice(4) as usize] } else { i64r("peg_limit", 1, PMAX - 1) };
        Po { peg: Some((po.price - ORACLE, lim)), ..po }
    } else {
        po
    }
}

pub struct Before {
    pub me: OpenOrdersAccount,
    pub m1: OpenOrdersAccount,
    pub m2: OpenOrdersAccount,
    pub mkt: Market,
    pub uq: u64,
    pub ub: u64,
    pub vq: u64,
    pub vb: u64,
}
pub fn snap(s: &S) -> Before {
    Before {
        me: *s.mk.me(),
        m1: *s.mk.oo(s.m1),
        m2: *s.mk.oo(s.m2),
        mkt: *s.mk.mkt(),
        uq: s.mk.w.amount(s.mk.user_quote),
        ub: s.mk.w.amount(s.mk.user_base),
        vq: s.mk.w.amount(s.mk.quote_vault),
        vb: s.mk.w.amount(s.mk.base_vault),
    }
}

pub fn place(p: u32, side: Side, o: O, ty: u8, stb: u8, peg: bool) {
    arm(p);
    let mut s = scene(side, o);
    if peg && s.mk.oracle_a.is_none() {
        // a pegged order needs an oracle, which fixes the lot sizes
        return;
    }
    let po = order(side, ty, stb, peg);
    let b = snap(&s);
    let metas = s.mk.m_place_order(side, None);
    if p == 7 || p == 8 || p == 15 {
        no_panic(true);
    }
    let r = s.mk.w.run(&po.ix().0, &metas);
    no_panic(false);
    judge(&s, &po, &b, r.is_ok());
}

pub fn judge(s: &S, po: &Po, b: &Before, ok: bool) {
    let side = po.side();
    let (v, f) = (&s.v, &s.f);
    let w = want(po, v, Some(K_OOA), f);
    if !ok {
        cover(true, "refused");
        chk(7, w.fails, "an order that may trade is not refused");
        chk(8, w.fails, "an order is refused only for its own conditions");
        chk(15, w.fails, "only an aborting self-trade is refused");
        return;
    }
    cover(true, "placed");
    chk(8, !(w.fails & (po.ty == FOK)), "fill-or-kill that does not fill fails");
    chk(15, !w.fails, "aborting self-trade fails");
    if w.fails {
        return;
    }
    let mk = &s.mk;
    let me = *mk.me();
    let fl = fills(mk.heap());
    let ou = outs(mk.heap());
    let mine_side = all_leaves(mk.side(side));
    let opp = all_leaves(mk.side(side.invert_side()));
    // ---- what traded
    let mut base = 0;
    let mut quote = 0;
    for e in &fl {
        base += e.quantity;
        quote += e.quantity * e.price;
        chk(6, within(side, e.price, po.price) | (po.ty == MARKET), "no fill beyond the limit price");
        chk(6, e.quantity > 0, "fills have a size");
    }
    let posted = mine_side.first().map(|x| x.1);
    if on(6) {
        cover(fl.len() >= 1, "traded");
        check(mine_side.len() <= 1, "at most one order rests");
        check(fl.len() <= po.limit as usize, "match limit");
        let rest = posted.map(|l| l.quantity).unwrap_or(0);
        check(base + rest <= po.max_base, "base limit");
        let p = &me.position;
        let paid_q = (b.uq - mk.w.amount(mk.user_quote)) as i128 + b.me.position.quote_free_native as i128 - p.quote_free_native as i128;
        let paid_b = (b.ub - mk.w.amount(mk.user_base)) as i128 + b.me.position.base_free_native as i128 - p.base_free_native as i128;
        if side == Side::Bid {
            check(paid_q <= po.max_quote as i128 * f.ql as i128, "quote limit, fees included");
        } else {
            let lp = if po.peg.is_some() { w.price } else { po.price };
            let lp = if lp < w.price { w.price } else { lp };
            check(quote + rest * lp <= po.max_quote, "quote limit");
            // base of own dropped or cancelled bids is quote, so nothing offsets this
            check(paid_b <= po.max_base as i128 * f.bl as i128, "base limit in tokens");
        }
    }
    if on(7) || on(15) || on(21) || on(23) {
        let p = unsafe { ACTIVE };
        let c = |c: bool, id: &'static str| chk(p, c, id);
        cover(fl.len() >= 1, "traded");
        cover(!w.dropped.is_empty(), "dropped");
        c(fl.len() == w.fills.len(), "exactly the orders within reach are matched");
        for (e, x) in fl.iter().zip(w.fills.iter()) {
            let r = &v[x.0];
            c(e.maker == r.owner, "priority: maker");
            c((e.maker_client_order_id == r.cid) & (e.maker_slot == r.slot), "priority: order");
            c(e.price == r.price, "maker's price");
            c(e.quantity == x.1, "fill size");
            c((e.taker_side == po.side) & (e.taker == K_OOA) & (e.taker_client_order_id == po.cid), "fill names the taker");
            c((e.maker_timestamp == r.ts) & (e.peg_limit == r.peg_limit) & (e.timestamp == T0), "fill names the order's terms");
            c((e.maker_out == 1) == (x.1 == r.qty), "fill says whether the order is gone");
            c(e.market_seq_num == b.mkt.seq_num + 1, "fill carries the order's sequence number");
        }
        let mut left = 0;
        for (i, r) in v.iter().enumerate() {
            let got = by_cid(&opp, r.cid);
            let mut taken = 0;
            let mut gone = w.dropped.contains(&i) || w.cancelled.contains(&i);
            for x in &w.fills {
                if x.0 == i {
                    taken = x.1;
                    gone = taken == r.qty;
                }
            }
            match got {
                None => c(gone, "an order leaves the book only when filled, expired or cancelled"),
                Some((t, l)) => {
                    left += 1;
                    c(!gone, "a finished order leaves the book");
                    let mut l0 = r.leaf();
                    l0.quantity = r.qty - taken;
                    c(same_leaf(&l, &l0) & (t == r.tree()), "a remaining order keeps everything but the size traded");
                }
            }
        }
        c(opp.len() == left, "no other order appears");
        // removed orders of others are reported once
        let mut n = 0;
        for i in &w.dropped {
            let r = &v[*i];
            if r.owner != K_OOA {
                let e = ou.get(n);
                n += 1;
                match e {
                    Some(e) => c((e.owner == r.owner) & (e.owner_slot == r.slot) & (e.quantity == r.qty) & (e.side == r.side as u8) & (e.timestamp == T0), "a removed order is reported to its owner"),
                    None => c(false, "a removed order is reported"),
                }
            }
        }
        c(ou.len() == n, "nothing else is reported removed");
    }
    if on(21) {
        for r in v.iter() {
            if !r.valid {
                for e in &fl {
                    check(e.maker_client_order_id != r.cid, "an ended order never trades");
                }
            }
        }
        if let Some(l) = posted {
            check(l.timestamp == T0, "a new order starts now");
            check(l.time_in_force == 0, "an order without expiry never expires");
        }
    }
    // ---- the remainder
    let rem_b = po.max_base - w.base;
    let fee_quote = f.quote(1, w.quote - w.self_quote);
    let tfee = f.taker_ceil(fee_quote);
    let lock_price = if po.peg.is_some() && side == Side::Bid { po.peg.unwrap().1 } else { w.price };
    if on(8) || on(23) || on(16) {
        let p = unsafe { ACTIVE };
        let c = |c: bool, id: &'static str| chk(p, c, id);
        cover(posted.is_some(), "rests");
        c(mine_side.len() <= 1, "at most one order rests");
        if po.post_only() {
            c(fl.is_empty(), "post-only never trades");
        }
        match posted {
            Some(l) => {
                c(po.rests(), "a taking order never rests");
                c(!w.blocked, "an order that would trade is not left on the book");
                let t = mine_side[0].0;
                let (tree, data, pl) = match po.peg {
                    None => (BookSideOrderTree::Fixed, fixed_data(w.price), -1),
                    Some((_, pl)) => (BookSideOrderTree::OraclePegged, peg_data(w.price - ORACLE), pl),
                };
                c((t == tree) & (l.key == mk_key(side, data, b.mkt.seq_num + 1)), "rests at its price");
                c((l.peg_limit == pl) & (l.client_order_id == po.cid) & (l.owner == K_OOA), "rests with its terms");
                c(l.quantity > 0, "rests with a size");
                // every opposing valid order left must be out of reach
                for r in v.iter() {
                    if r.valid && by_cid(&opp, r.cid).is_some() {
                        chk(8, !within(side, r.price, w.price), "never left crossing a valid order");
                    }
                }
                if po.peg.is_some() {
                    let pl = po.peg.unwrap().1;
                    c(if side == Side::Bid { w.price <= pl } else { w.price >= pl }, "never placed beyond its peg limit");
                }
            }
            None => {}
        }
        // how much: what base and quote limits leave, fees included
        if po.rests() && !w.blocked {
            let used = w.quote + ((tfee as i64 + f.ql - 1) / f.ql);
            let rem_q = po.max_quote - used;
            let beyond = match po.peg {
                Some((_, pl)) => !(if side == Side::Bid { w.price <= pl } else { w.price >= pl }),
                None => false,
            };
            if rem_q > 0 && !beyond {
                let net = rem_q - f.lock(rem_q as u64) as i64;
                let q = rem_b.min(net / lock_price);
                let got = posted.map(|l| l.quantity).unwrap_or(0);
                if on(8) {
                    // an order of which nothing is left to trade for quote may be held back when
                    // it would cross
                    if q > 0 && posted.is_none() {
                        let mut crosses = false;
                        for r in v.iter() {
                            if r.valid && by_cid(&opp, r.cid).is_some() {
                                crosses |= within(side, r.price, w.price);
                            }
                        }
                        check(crosses, "a limit order rests with what is left");
                    } else {
                        check(got == if q > 0 { q } else { 0 }, "rests with whatever its limits allow");
                    }
                }
            } else {
                c(posted.is_none(), "nothing rests when nothing is left");
            }
        }
        if on(8) {
            // the id handed back is the resting order's
            unsafe {
                let rt = &*std::ptr::addr_of!(RETURN);
                match posted {
                    Some(l) => {
                        check(rt.len() == 17 && rt[0] == 1, "the resting order's id is returned");
                        if rt.len() == 17 {
                            check(u128::from_le_bytes(rt[1..17].try_into().unwrap()) == l.key, "the returned id is right");
                        }
                    }
                    None => check(rt.len() == 1 && rt[0] == 0, "no id when nothing rests"),
                }
            }
        }
    }
    if on(16) {
        slots(s, &w, b, &me, &mine_side);
    }
    if on(9) {
        conserve(s, po, b, &me, &fl, &ou, &w, tfee, posted, lock_price);
    }
    if on(15) {
        let p = &me.position;
        let bp = &b.me.position;
        cover(w.self_quote > 0, "self-trade");
        cover(!w.cancelled.is_empty(), "self-cancel");
        // taker fee only on trades with others
        if side == Side::Ask {
            let mut ret = 0;
            for i in w.cancelled.iter().chain(w.dropped.iter()) {
                let r = &v[*i];
                if r.owner == K_OOA {
                    let q = f.quote(r.qty, r.lock_price());
                    ret += q + f.lock(q);
                }
            }
            check(p.quote_free_native == bp.quote_free_native + f.quote(1, w.quote) - tfee + ret, "no taker fee on self-trades");
        } else {
            let mut ret = 0;
            for i in w.cancelled.iter().chain(w.dropped.iter()) {
                let r = &v[*i];
                if r.owner == K_OOA {
                    ret += f.base(r.qty);
                }
            }
            check(p.base_free_native == bp.base_free_native + f.base(w.base) + ret, "self-cancelled orders return what they locked");
            if posted.is_none() {
                let paid = b.uq - mk.w.amount(mk.user_quote) + bp.quote_free_native - p.quote_free_native;
                check(paid == f.quote(1, w.quote) + tfee, "no taker fee on self-trades");
            }
        }
        for i in &w.cancelled {
            let r = &v[*i];
            check(me.open_orders[r.slot as usize].is_free(), "a self-cancelled order frees its slot");
        }
        check(p.referrer_rebates_available == bp.referrer_rebates_available + tfee - w.rebates, "no rebate on self-trades");
    }
    cover(true, "end");
}

fn slots(s: &S, w: &Want, b: &Before, me: &OpenOrdersAccount, mine: &[(BookSideOrderTree, LeafNode)]) {
    let f = &s.f;
    // own orders that left the book at once
    let mut bb = b.me.position.bids_base_lots;
    let mut bq = b.me.position.bids_quote_lots;
    let mut ab = b.me.position.asks_base_lots;
    let mut freed = [false; 24];
    for i in w.dropped.iter().chain(w.cancelled.iter()) {
        let r = &s.v[*i];
        if r.owner == K_OOA {
            freed[r.slot as usize] = true;
            if r.side == Side::Bid {
                bb -= r.qty;
                bq -= r.qty * r.lock_price();
            } else {
                ab -= r.qty;
            }
        }
    }
    let new = mine.first();
    if let Some((t, l)) = new {
        let n = l.owner_slot as usize;
        check(n < 24, "slot in range");
        let was_free = b.me.open_orders[n].is_free() || freed[n];
        check(was_free, "a new order takes a free slot");
        let o = &me.open_orders[n];
        check(!o.is_free(), "a resting order occupies its slot");
        check((o.id == l.key) & (o.client_id == l.client_order_id), "the slot records the order");
        check(o.side_and_tree == u8::from(SideAndOrderTree::new(if (l.key & 1) == 1 && false { Side::Bid } else { side_of(s) }, *t)), "the slot records side and kind");
        let lp = if *t == BookSideOrderTree::OraclePegged && side_of(s) == Side::Bid { l.peg_limit } else { w.price };
        check(o.locked_price == lp, "the slot records the locked price");
        if side_of(s) == Side::Bid {
            bb += l.quantity;
            bq += l.quantity * lp;
        } else {
            ab += l.quantity;
        }
    }
    check(me.position.bids_base_lots == bb, "bid lots follow the orders");
    check(me.position.bids_quote_lots == bq, "bid quote lots follow the orders");
    check(me.position.asks_base_lots == ab, "ask lots follow the orders");
    for n in 0..24 {
        if let Some((_, l)) = new {
            if l.owner_slot as usize == n {
                continue;
            }
        }
        let (o, p) = (&me.open_orders[n], &b.me.open_orders[n]);
        if freed[n] {
            check(o.is_free(), "a gone order frees its slot");
        } else {
            check(o.is_free() == p.is_free(), "other slots stay");
            check((o.id == p.id) & (o.client_id == p.client_id) & (o.locked_price == p.locked_price) & (o.side_and_tree == p.side_and_tree), "other slots keep their orders");
        }
    }
    let _ = f;
}
fn side_of(s: &S) -> Side {
    unsafe { TAKER_SIDE[0] }.unwrap_or(if s.v.is_empty() { Side::Bid } else { s.v[0].side.invert_side() })
}
pub static mut TAKER_SIDE: [Option<Side>; 1] = [None];

#[allow(clippy::too_many_arguments)]
fn conserve(s: &S, po: &Po, b: &Before, me: &OpenOrdersAccount, fl: &[FillEvent], ou: &[OutEvent], w: &Want, tfee: u64, posted: Option<LeafNode>, lock_price: i64) {
    let mk = &s.mk;
    let f = &s.f;
    let m = mk.mkt();
    let (uq, ub, vq, vb) = (mk.w.amount(mk.user_quote), mk.w.amount(mk.user_base), mk.w.amount(mk.quote_vault), mk.w.amount(mk.base_vault));
    let d = |a: u64, b: u64| a as i128 - b as i128;
    check(d(vq, b.vq) == d(m.quote_deposit_total, b.mkt.quote_deposit_total), "quote vault and recorded deposits move together");
    check(d(vb, b.vb) == d(m.base_deposit_total, b.mkt.base_deposit_total), "base vault and recorded deposits move together");
    check(d(vq, b.vq) == d(b.uq, uq), "quote comes from the user's wallet");
    check(d(vb, b.vb) == d(b.ub, ub), "base comes from the user's wallet");
    let (mut pb, mut pq) = (0i128, 0i128);
    for e in fl {
        let (x, y) = pending(e, f);
        pb += x;
        pq += y;
    }
    let _ = ou; // out events move funds between locked and free only
    let mut oq = owed_quote(&me.position, f) - owed_quote(&b.me.position, f) + d(m.fees_available, b.mkt.fees_available);
    let mut ob = owed_base(&me.position, f) - owed_base(&b.me.position, f);
    for (a, was) in [(s.m1, &b.m1), (s.m2, &b.m2)] {
        oq += owed_quote(&mk.oo(a).position, f) - owed_quote(&was.position, f);
        ob += owed_base(&mk.oo(a).position, f) - owed_base(&was.position, f);
    }
    check(d(vq, b.vq) == oq + pq, "quote owed equals quote held");
    check(d(vb, b.vb) == ob + pb, "base owed equals base held");
    // exactly the cost not covered by the free balance
    let bp = &b.me.position;
    let mut got = 0u64;
    for i in w.cancelled.iter().chain(w.dropped.iter()) {
        let r = &s.v[*i];
        if r.owner == K_OOA {
            let q = f.quote(r.qty, r.lock_price());
            got += if r.side == Side::Bid { q + f.lock(q) } else { f.base(r.qty) };
        }
    }
    let rest = posted.map(|l| l.quantity).unwrap_or(0);
    if po.side() == Side::Bid {
        let pq = f.quote(rest, lock_price);
        let cost = f.quote(1, w.quote) + tfee + pq + f.lock(pq);
        let free = bp.quote_free_native;
        let dep = if cost > free { cost - free } else { 0 };
        check(d(b.uq, uq) == dep as i128, "the wallet pays the cost not covered by the free balance");
        check(ub == b.ub, "no base leaves a buyer's wallet");
        check(me.position.quote_free_native == free + dep - cost, "the free balance pays the rest");
        check(me.position.base_free_native == bp.base_free_native + f.base(w.base) + got, "a buyer gets the base bought");
    } else {
        let cost = f.base(w.base + rest);
        let free = bp.base_free_native;
        let dep = if cost > free { cost - free } else { 0 };
        check(d(b.ub, ub) == dep as i128, "the wallet pays the base not covered by the free balance");
        check(uq == b.uq, "no quote leaves a seller's wallet");
        check(me.position.base_free_native == free + dep - cost, "the free base pays the rest");
        check(me.position.quote_free_native == bp.quote_free_native + f.quote(1, w.quote) - tfee + got, "a seller gets the proceeds less the fee");
    }
    cover(true, "funds");
}

fn side() -> Side {
    let s = if flip() { Side::Bid } else { Side::Ask };
    unsafe { TAKER_SIDE = [Some(s)] };
    s
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choice(v.len() as u64) as usize]
}

const ALL: [u8; 6] = [LIMIT, IOC, POST, MARKET, SLIDE, FOK];
const STAY: [u8; 3] = [LIMIT, POST, SLIDE];
fn go(p: u32, o: &[O], ty: &[u8], stb: u8) {
    let s = side();
    let o = pick(o);
    let ty = pick(ty);
    place(p, s, o, ty, stb, false);
}
/// an order pegged to the oracle
fn pegged(p: u32, o: &[O], ty: &[u8], stb: u8) {
    let s = side();
    let o = pick(o);
    let ty = pick(ty);
    place(p, s, o, ty, stb, true);
}
const OTHERS: [O; 5] = [O::Empty, O::One, O::Two(8), O::Tie, O::Exp(true)];
const PEGS: [O; 4] = [O::Oracle, O::Peg, O::PegBeyond, O::MinePeg];
crate::harness! {
    p06_limits { go(6, &OTHERS, &ALL, 0) }
    p06_pegged { pegged(6, &PEGS, &ALL, 0) }
    p06_three { go(6, &[O::Three, O::Peg, O::PegBeyond], &[LIMIT, IOC, MARKET], 0) }
    p07_match { go(7, &[O::Empty, O::One, O::Two(8), O::Tie, O::Exp(true), O::Exp(false)], &[LIMIT, IOC, MARKET], 0) }
    p07_three { go(7, &[O::Three, O::Peg, O::PegBeyond], &[LIMIT, MARKET], 0) }
    p07_ended { go(7, &[O::ManyExp], &[LIMIT], 0) }
    p08_types { go(8, &[O::Empty, O::One, O::Two(8), O::Exp(true), O::Exp(false)], &ALL, 0) }
    p08_pegged { pegged(8, &PEGS, &ALL, 0) }
    p08_mixed { go(8, &[O::Three, O::Peg, O::PegBeyond], &[LIMIT, POST, SLIDE, FOK], 0) }
    p09_place { go(9, &[O::Empty, O::One, O::Two(8), O::Exp(true)], &ALL, 0) }
    p09_pegged { pegged(9, &PEGS, &STAY, 0) }
    p09_mixed { go(9, &[O::Three, O::Peg, O::PegBeyond, O::MineMid, O::MineTwo, O::MineExp], &[LIMIT, IOC], choice(2) as u8) }
    p15_self { go(15, &[O::MineOnly, O::MineTwo, O::Mine(true), O::Mine(false), O::MineExp], &[LIMIT, IOC, FOK], choice(3) as u8) }
    p15_mixed { go(15, &[O::MineMid, O::MineAround, O::MinePeg], &[LIMIT, IOC], choice(3) as u8) }
    p07_long { go(7, &[O::Long], &[LIMIT, IOC], 0) }
    p09_long { go(9, &[O::Long], &[LIMIT, IOC], 0) }
    p16_slots { go(16, &[O::Empty, O::One, O::MineExp, O::MineOnly, O::Mine(true)], &[LIMIT, IOC, SLIDE], choice(2) as u8) }
    p16_pegged { pegged(16, &PEGS, &STAY, choice(2) as u8) }
    p21_walk { unsafe { LIFETIMES = true }; go(21, &[O::One, O::Exp(true), O::Exp(false), O::MineExp], &[LIMIT, MARKET], 0) }
    p21_many { go(21, &[O::ManyExp], &[LIMIT, MARKET], 0) }
    p23_match { go(23, &[O::Peg, O::PegBeyond, O::MinePeg], &[LIMIT, IOC, MARKET], 0) }
    p23_place { pegged(23, &PEGS, &ALL, 0) }
}

/// an account with one free slot, wherever it is, or none
fn crowded(pegged: bool) {
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    let f = fees(&mk, if pegged { Rates::Oracle } else { Rates::Few });
    if pegged {
        mk.with_oracle(100.0);
    }
    mk.mkt().seq_num = 100;
    mk.w.set_amount(mk.user_quote, 1 << 60);
    mk.w.set_amount(mk.user_base, 1 << 60);
    let free = choice(25) as usize;
    for i in 0..24usize {
        if i != free {
            let side = if i % 3 == 0 { Side::Ask } else { Side::Bid };
            // traded away on the book, the fills still to be processed
            let seq = 10 + i as u64;
            own(&mk, mk.ooa, &R { side, peg: false, price: 7, peg_limit: -1, qty: 2, owner: K_OOA, slot: i as u8, cid: 500 + i as u64, ts: 5, tif: 0, seq, key: mk_key(side, fixed_data(7), seq), valid: true }, &f);
        }
    }
    let s = side();
    let ty = [LIMIT, POST, SLIDE, IOC][choice(if pegged { 3 } else { 4 }) as usize];
    let price = if pegged { ORACLE } else { 50 };
    let po = Po {
        side: s as u8,
        price,
        max_base: i64r("max_base", 1, QMAX),
        max_quote: 1 << 40,
        cid: 5,
        ty,
        expiry: 0,
        stb: 0,
        limit: 9,
        peg: if pegged { Some((0, price)) } else { None },
    };
    let b = *mk.me();
    let metas = mk.m_place_order(s, None);
    let ok = mk.w.run(&po.ix().0, &metas).is_ok();
    check(ok == (free < 24 || ty == IOC), "an order rests while the account has a free slot, and not otherwise");
    cover(!ok, "no slot left");
    if !ok {
        return;
    }
    let a = *mk.me();
    let l = all_leaves(mk.side(s));
    check(l.len() == (ty != IOC) as usize, "it rests");
    for i in 0..24 {
        let (o, p) = (&a.open_orders[i], &b.open_orders[i]);
        if i == free && ty != IOC {
            check(!o.is_free() && o.client_id == 5 && l[0].1.owner_slot as usize == i && o.id == l[0].1.key, "a free slot is taken, wherever it is");
        } else {
            check((o.is_free == p.is_free) & (o.id == p.id) & (o.client_id == p.client_id) & (o.locked_price == p.locked_price) & (o.side_and_tree == p.side_and_tree), "other slots keep their orders");
        }
    }
    cover(true, "end");
}
crate::harness! {
    p16_crowded { arm(16); crowded(false) }
    p16_crowded_peg { arm(16); crowded(true) }
}

/// any expiry time, for placing, placing pegged and editing
#[no_mangle]
pub extern "C" fn p21_expiry() {
    arm(21);
    let s = side();
    let peg = flip();
    let mut w = scene(s, if peg { O::Oracle } else { pick(&[O::Empty, O::One]) });
    let mut po = order(s, pick(&[LIMIT, IOC]), 0, peg);
    if po.ty == IOC && peg {
        return;
    }
    po.expiry = u64s("expiry");
    unsafe { NOW = i64r("now", 0, 1 << 40) };
    let now = unsafe { NOW } as u64;
    let b = snap(&w);
    let heap0 = w.mk.heap().len();
    let metas = w.mk.m_place_order(s, None);
    no_panic(true);
    let ok = w.mk.w.run(&po.ix().0, &metas).is_ok();
    no_panic(false);
    check(ok, "a valid order is not refused");
    if !ok {
        return;
    }
    let mk = &w.mk;
    let mine = all_leaves(mk.side(s));
    if (po.expiry != 0) & (po.expiry <= now) {
        cover(true, "ended");
        let opp = all_leaves(mk.side(s.invert_side()));
        check(mine.is_empty() & (mk.heap().len() == heap0), "an ended order does nothing on the book");
        check(opp.len() == w.v.len() && (opp.is_empty() || same_leaf(&opp[0].1, &w.v[0].leaf())), "an ended order trades with nothing");
        let (x, y) = (&mk.me().position, &b.me.position);
        check((x.quote_free_native == y.quote_free_native) & (x.base_free_native == y.base_free_native), "an ended order moves no funds");
        check((mk.w.amount(mk.user_quote) == b.uq) & (mk.w.amount(mk.user_base) == b.ub), "an ended order takes no deposit");
        check(mk.mkt().seq_num == b.mkt.seq_num, "an ended order takes no number");
        unsafe { check((*std::ptr::addr_of!(RETURN)).len() == 1 && (*std::ptr::addr_of!(RETURN))[0] == 0, "an ended order has no id") };
        return;
    }
    if let Some((_, l)) = mine.first() {
        let left = po.expiry.wrapping_sub(now);
        let want = if po.expiry == 0 {
            0
        } else if left > u16::MAX as u64 {
            u16::MAX
        } else {
            left as u16
        };
        check(l.time_in_force == want, "an order lives until its expiry, at most 65535 seconds");
        check(l.timestamp == now, "an order's life starts now");
        // and the book reads it back
        let t = u64r("later", 0, 1 << 41);
        check(l.is_expired(t) == ((want != 0) & (now + want as u64 <= t)), "an order ends exactly then");
        cover(want > 0, "lives");
        cover(want == u16::MAX, "capped");
    }
    cover(true, "end");
}
fn many() {
    unsafe { RATE = Rates::Many }
}
crate::harness! {
    p06_wide { many(); go(6, &OTHERS, &ALL, 0) }
    p07_wide { many(); go(7, &[O::One, O::Two(8), O::Tie, O::Three, O::Exp(true), O::Exp(false)], &[LIMIT, IOC, MARKET], 0) }
    p08_wide { many(); go(8, &[O::Empty, O::One, O::Two(8), O::Exp(true), O::Three], &ALL, 0) }
    p09_rates { many(); go(9, &[O::One, O::Two(3)], &[LIMIT, IOC], 0) }
    p09_wide { many(); go(9, &[O::Empty, O::One, O::Two(8), O::Exp(true), O::MineMid], &ALL, choice(2) as u8) }
    p15_wide { many(); go(15, &[O::MineOnly, O::MineTwo, O::Mine(true), O::Mine(false), O::MineMid], &[LIMIT, IOC, FOK], choice(3) as u8) }
    p16_wide { many(); go(16, &[O::Empty, O::One, O::MineExp, O::MineOnly, O::Mine(true), O::MineMid], &ALL, choice(2) as u8) }
}
