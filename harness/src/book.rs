//! Building blocks of the transaction harnesses: a book side holding given orders with symbolic
//! prices, and readers for what a transaction left behind.
use crate::env::*;
use crate::sym::*;
use anchor_lang::prelude::Pubkey;
use openbook_v2::state::*;

/// the property whose assertions are armed
pub static mut ACTIVE: u32 = 0;
pub fn on(p: u32) -> bool {
    unsafe { ACTIVE == p }
}
pub fn arm(p: u32) {
    unsafe { ACTIVE = p }
}
/// assert `c` when property `p` is the one being decided
pub fn chk(p: u32, c: bool, id: &'static str) {
    if on(p) {
        check(c, id)
    }
}

pub const PMAX: i64 = 1 << 11;
pub const QMAX: i64 = 1 << 16;
pub const ORACLE: i64 = 1000;
pub const T0: u64 = 1_000_000;

pub const QN: [&str; 8] = ["qty0", "qty1", "qty2", "qty3", "qty4", "qty5", "qty6", "qty7"];
pub const PN: [&str; 8] = ["price0", "price1", "price2", "price3", "price4", "price5", "price6", "price7"];
pub const TN: [&str; 8] = ["ts0", "ts1", "ts2", "ts3", "ts4", "ts5", "ts6", "ts7"];
pub const FN: [&str; 8] = ["tif0", "tif1", "tif2", "tif3", "tif4", "tif5", "tif6", "tif7"];
pub const LN: [&str; 8] = ["limit0", "limit1", "limit2", "limit3", "limit4", "limit5", "limit6", "limit7"];

/// A resting order
#[derive(Clone, Copy)]
pub struct R {
    pub side: Side,
    pub peg: bool,
    /// current effective price
    pub price: i64,
    pub peg_limit: i64,
    pub qty: i64,
    pub owner: Pubkey,
    pub slot: u8,
    pub cid: u64,
    pub ts: u64,
    pub tif: u16,
    pub seq: u64,
    pub key: u128,
    /// neither expired nor beyond its peg limit
    pub valid: bool,
}
impl R {
    pub fn lock_price(&self) -> i64 {
        if self.peg && self.side == Side::Bid {
            self.peg_limit
        } else {
            self.price
        }
    }
    pub fn tree(&self) -> BookSideOrderTree {
        if self.peg {
            BookSideOrderTree::OraclePegged
        } else {
            BookSideOrderTree::Fixed
        }
    }
    pub fn leaf(&self) -> LeafNode {
        let mut l = LeafNode::new(self.slot, self.key, self.owner, self.qty, self.ts, self.tif, self.peg_limit, self.cid);
        l.key = self.key;
        l
    }
}
pub fn fixed_data(p: i64) -> u64 {
    p as u64
}
pub fn peg_data(offset: i64) -> u64 {
    (offset as u64).wrapping_add(1 << 63)
}
pub fn mk_key(side: Side, data: u64, seq: u64) -> u128 {
    let low = if side == Side::Bid { !seq } else { seq };
    ((data as u128) << 64) | low as u128
}

#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Live,
    Expired,
}

/// use concrete prices, so that everything else stays linear
pub static mut GRID: bool = true;
pub const GRID_P: [i64; 3] = [11, 13, 29];
/// an order's own price: below, at, between and above those on the book
pub fn order_price() -> i64 {
    if unsafe { GRID } {
        [12, 13, 17, 29, 31][choice(5) as usize]
    } else {
        i64r("price", 1, PMAX - 1)
    }
}
/// prices in ascending order, such that a tree of these keys has a known shape
pub fn prices(n: usize, tie: bool, bit: u32) -> ([i64; 8], [i64; 8]) {
    if unsafe { GRID } {
        let p = match n {
            2 if tie => [GRID_P[1], GRID_P[1], 0, 0, 0, 0, 0, 0],
            1 => [GRID_P[1], 0, 0, 0, 0, 0, 0, 0],
            2 => [GRID_P[1], GRID_P[2], 0, 0, 0, 0, 0, 0],
            3 => [GRID_P[0], GRID_P[1], GRID_P[2], 0, 0, 0, 0, 0],
            _ => [13, 15, 16, 18, 20, 24, 28, 29],
        };
        return (p, p);
    }
    match n {
        1 => {
            let p = i64r("price0", 1, PMAX - 1);
            (pad([p, 0, 0]), pad([1, 0, 0]))
        }
        2 if tie => {
            let p = i64r("price0", 1, PMAX - 1);
            (pad([p, p, 0]), pad([1, 1, 0]))
        }
        2 => {
            // all pairs that first differ in bit `bit`
            let h = i64r("price_hi", 1, (PMAX >> (bit + 1)) - 1);
            let (a, b) = if bit == 0 { (0, 0) } else { (i64r("price_lo0", 0, (1 << bit) - 1), i64r("price_lo1", 0, (1 << bit) - 1)) };
            let s = 1i64 << (bit + 1);
            let u = 1i64 << bit;
            (pad([h * s + a, h * s + u + b, 0]), pad([s, s + u, 0]))
        }
        _ => (
            pad([i64r("price0", 1, 255), i64r("price1", 256, 511), i64r("price2", 512, 1023)]),
            pad([1, 256, 512]),
        ),
    }
}

fn pad(p: [i64; 3]) -> [i64; 8] {
    [p[0], p[1], p[2], 0, 0, 0, 0, 0]
}

/// The fixed-price orders of one side, `who[i]` owning the i-th in ascending price
pub fn fixed_orders(side: Side, who: &[(Pubkey, u8, K)], tie: bool, bit: u32, base: usize) -> (Vec<R>, [i64; 8]) {
    let n = who.len();
    let (p, rep) = if n == 0 { ([0; 8], [0; 8]) } else { prices(n, tie, bit) };
    let mut v = Vec::with_capacity(8);
    for i in 0..n {
        let seq = 10 + i as u64;
        let (ts, tif) = lifetime(who[i].2, base + i);
        v.push(R {
            side,
            peg: false,
            price: p[i],
            peg_limit: -1,
            qty: i64r(QN[base + i], 1, QMAX),
            owner: who[i].0,
            slot: who[i].1,
            cid: 70 + (base + i) as u64,
            ts,
            tif,
            seq,
            key: mk_key(side, fixed_data(p[i]), seq),
            valid: who[i].2 == K::Live,
        });
    }
    (v, rep)
}
/// give live orders any lifetime that has not ended
pub static mut LIFETIMES: bool = false;
fn lifetime(k: K, i: usize) -> (u64, u16) {
    let ts = u64r(TN[i], 1, T0);
    match k {
        K::Expired => {
            let tif = u16r(FN[i], 1, u16::MAX);
            assume(ts + tif as u64 <= T0);
            (ts, tif)
        }
        K::Live => {
            if unsafe { LIFETIMES } {
                let tif = u16r(FN[i], 0, u16::MAX);
                assume((tif == 0) | (ts + tif as u64 > T0));
                (ts, tif)
            } else {
                (ts, 0)
            }
        }
    }
}
/// One order pegged to the oracle at any offset; `valid` follows from its peg limit
pub fn peg_order(side: Side, owner: Pubkey, slot: u8, seq: u64, base: usize, beyond: bool) -> R {
    let up = if side == Side::Bid { 1 } else { -1 };
    let (price, lim) = if unsafe { GRID } {
        let p = [12, 13, 29][choice(3) as usize];
        (p, p + up * if beyond { -1 } else { 4 * choice(2) as i64 })
    } else {
        (i64r(PN[base], 1, PMAX - 1), i64r(LN[base], 1, PMAX - 1))
    };
    let ok = if side == Side::Bid { price <= lim } else { price >= lim };
    assume(ok != beyond);
    R {
        side,
        peg: true,
        price,
        peg_limit: lim,
        qty: i64r(QN[base], 1, QMAX),
        owner,
        slot,
        cid: 70 + base as u64,
        ts: u64r(TN[base], 1, T0),
        tif: 0,
        seq,
        key: mk_key(side, peg_data(price - ORACLE), seq),
        valid: !beyond,
    }
}

fn node_leaf(b: &mut BookSide, h: u32) -> Option<&mut LeafNode> {
    b.nodes.node_mut(h).and_then(|n| n.as_leaf_mut())
}
/// Put orders into their trees. The trees are built by the real insertion on representative keys of
/// the same relative order, then the symbolic orders are written over them.
pub fn seat(mk: &Mk, v: &[R], rep: &[i64; 8]) {
    let mut f = 0;
    let mut hs: [u32; 8] = [0; 8];
    for (i, r) in v.iter().enumerate() {
        let b = mk.side(r.side);
        let mut l = r.leaf();
        if !r.peg {
            l.key = mk_key(r.side, fixed_data(rep[f]), r.seq);
            f += 1;
        }
        // expiry hints in the inner nodes come with the insertion
        let (h, _) = b.insert_leaf(r.tree(), &l).unwrap();
        hs[i] = h;
    }
    for (i, r) in v.iter().enumerate() {
        let b = mk.side(r.side);
        // handles may have moved: the leaf is found by its client id
        let h = find_leaf(b, r.cid).unwrap_or(hs[i]);
        *node_leaf(b, h).unwrap() = r.leaf();
    }
    for r in v {
        if !r.peg {
            let b = mk.side(r.side);
            let root = *b.root(r.tree());
            fix_inner(b, root.maybe_node);
        }
    }
}
fn find_leaf(b: &BookSide, cid: u64) -> Option<u32> {
    for h in 0..16 {
        if let Some(l) = b.nodes.node(h).and_then(|n| n.as_leaf()) {
            if l.client_order_id == cid {
                return Some(h);
            }
        }
    }
    None
}
/// inner nodes carry the key of some leaf below
fn fix_inner(b: &mut BookSide, h: u32) -> u128 {
    let kids = match b.nodes.node(h) {
        Some(n) => match (n.as_inner(), n.as_leaf()) {
            (Some(i), _) => i.children,
            (_, Some(l)) => return l.key,
            _ => return 0,
        },
        None => return 0,
    };
    let k = fix_inner(b, kids[0]);
    fix_inner(b, kids[1]);
    if let Some(i) = b.nodes.node_mut(h).and_then(|n| n.as_inner_mut()) {
        i.key = k;
    }
    k
}

/// the orders of one tree, best or worst first as stored
pub fn leaves(b: &BookSide, t: BookSideOrderTree) -> Vec<LeafNode> {
    let mut out = Vec::with_capacity(8);
    let r = b.root(t);
    if r.leaf_count > 0 {
        walk(b, r.maybe_node, &mut out);
    }
    out
}
fn walk(b: &BookSide, h: u32, out: &mut Vec<LeafNode>) {
    if let Some(n) = b.nodes.node(h) {
        if let Some(i) = n.as_inner() {
            walk(b, i.children[0], out);
            walk(b, i.children[1], out);
        } else if let Some(l) = n.as_leaf() {
            out.push(*l)
        }
    }
}
/// all orders of a side
pub fn all_leaves(b: &BookSide) -> Vec<(BookSideOrderTree, LeafNode)> {
    let mut v = Vec::with_capacity(8);
    for t in [BookSideOrderTree::Fixed, BookSideOrderTree::OraclePegged] {
        for l in leaves(b, t) {
            v.push((t, l));
        }
    }
    v
}
pub fn by_cid(v: &[(BookSideOrderTree, LeafNode)], cid: u64) -> Option<(BookSideOrderTree, LeafNode)> {
    v.iter().find(|x| x.1.client_order_id == cid).copied()
}
pub fn same_leaf(a: &LeafNode, b: &LeafNode) -> bool {
    (a.key == b.key)
        & (a.owner == b.owner)
        & (a.quantity == b.quantity)
        & (a.owner_slot == b.owner_slot)
        & (a.time_in_force == b.time_in_force)
        & (a.timestamp == b.timestamp)
        & (a.peg_limit == b.peg_limit)
        & (a.client_order_id == b.client_order_id)
}

pub fn fills(h: &EventHeap) -> Vec<FillEvent> {
    let mut v = Vec::with_capacity(8);
    for (e, _) in h.iter() {
        if e.event_type == 0 {
            v.push(*bytemuck::cast_ref::<AnyEvent, FillEvent>(e));
        }
    }
    v
}
pub fn outs(h: &EventHeap) -> Vec<OutEvent> {
    let mut v = Vec::with_capacity(8);
    for (e, _) in h.iter() {
        if e.event_type == 1 {
            v.push(*bytemuck::cast_ref::<AnyEvent, OutEvent>(e));
        }
    }
    v
}

// ---- fee specification (10^-6 units)
pub fn ceil_fee(amount: u64, fee: i64) -> u64 {
    ((amount as i128 * fee as i128 + 999_999) / 1_000_000) as u64
}
pub fn floor_fee(amount: u64, fee: i64) -> u64 {
    (amount as i128 * fee as i128 / 1_000_000) as u64
}
#[derive(Clone, Copy)]
pub struct Fees {
    pub taker: i64,
    pub maker: i64,
    pub bl: i64,
    pub ql: i64,
}
impl Fees {
    pub fn taker_ceil(&self, a: u64) -> u64 {
        ceil_fee(a, self.taker)
    }
    pub fn maker_pos(&self) -> bool {
        self.maker > 0
    }
    /// what a resting bid locks on top of its price
    pub fn lock(&self, a: u64) -> u64 {
        if self.maker > 0 {
            ceil_fee(a, self.maker)
        } else {
            0
        }
    }
    /// what a maker pays on a fill
    pub fn maker_fee(&self, a: u64) -> u64 {
        if self.maker > 0 {
            floor_fee(a, self.maker)
        } else {
            0
        }
    }
    /// what a maker gets on a fill
    pub fn rebate(&self, a: u64) -> u64 {
        if self.maker > 0 {
            0
        } else {
            floor_fee(a, -self.maker)
        }
    }
    pub fn quote(&self, qty: i64, price: i64) -> u64 {
        (qty * price * self.ql) as u64
    }
    pub fn base(&self, qty: i64) -> u64 {
        (qty * self.bl) as u64
    }
}
/// how fees and lot sizes are chosen
#[derive(Clone, Copy, PartialEq)]
pub enum Rates {
    /// any rates, any lot sizes
    Any,
    /// one of a few concrete rates and lot sizes
    Few,
    /// as `Few`, with the lot sizes the oracle price is set up for
    Oracle,
    /// one of more concrete rates and lot sizes, extremes included
    Many,
}
pub const RATES: [(i64, i64, i64, i64); 3] = [(1_000, -500, 100, 10), (400_000, 250_001, 3, 7), (0, 0, 1, 1)];
pub const MORE_RATES: [(i64, i64, i64, i64); 9] = [
    (1_000_000, 1_000_000, 1, 1),
    (1_000_000, -1_000_000, 9, 1_000),
    (1, -1, 1_000_000, 1),
    (1, 1, 1, 1_000_000),
    (999_999, 3, 1_000, 999),
    (400, -200, 100, 10),
    (0, 1_000_000, 7, 3),
    (333_333, 333_333, 2, 5),
    (250_001, -250_000, 6, 11),
];
pub fn fees(mk: &Mk, r: Rates) -> Fees {
    let m = mk.mkt();
    let f = if r == Rates::Any {
        let taker = i64r("taker_fee", 0, 1_000_000);
        let maker = if flip() {
            i64r("maker_fee", 1, 1_000_000)
        } else {
            let f = i64r("maker_fee", -1_000_000, 0);
            assume(-f <= taker);
            f
        };
        Fees { taker, maker, bl: i64r("base_lot_size", 1, 10_000), ql: i64r("quote_lot_size", 1, 10_000) }
    } else {
        let k = if r == Rates::Many { MORE_RATES[choice(9) as usize] } else { RATES[choice(if r == Rates::Oracle { 2 } else { 3 }) as usize] };
        let (bl, ql) = if r == Rates::Oracle { (100, 10) } else { (k.2, k.3) };
        Fees { taker: k.0, maker: k.1, bl, ql }
    };
    m.taker_fee = f.taker;
    m.maker_fee = f.maker;
    m.base_lot_size = f.bl;
    m.quote_lot_size = f.ql;
    f
}

/// record an order in its owner's account
pub fn own(mk: &Mk, acc: usize, r: &R, f: &Fees) {
    let a = mk.oo(acc);
    let o = &mut a.open_orders[r.slot as usize];
    o.id = r.key;
    o.client_id = r.cid;
    o.locked_price = r.lock_price();
    o.is_free = 0;
    o.side_and_tree = SideAndOrderTree::new(r.side, r.tree()).into();
    let p = &mut a.position;
    if r.side == Side::Bid {
        p.bids_base_lots += r.qty;
        p.bids_quote_lots += r.qty * r.lock_price();
        p.locked_maker_fees += f.lock(f.quote(r.qty, r.lock_price()));
    } else {
        p.asks_base_lots += r.qty;
    }
}

/// what an account is owed
pub fn owed_quote(p: &Position, f: &Fees) -> i128 {
    p.quote_free_native as i128 + p.bids_quote_lots as i128 * f.ql as i128 + p.locked_maker_fees as i128 + p.referrer_rebates_available as i128
}
pub fn owed_base(p: &Position, f: &Fees) -> i128 {
    p.base_free_native as i128 + p.asks_base_lots as i128 * f.bl as i128
}
/// what a queued event will add to what accounts are owed
pub fn pending(e: &FillEvent, f: &Fees) -> (i128, i128) {
    let q = f.quote(e.quantity, e.price);
    let reb = if e.maker == e.taker { 0 } else { f.rebate(q) as i128 };
    let b = f.base(e.quantity) as i128;
    if e.taker_side == 0 {
        (-b, q as i128 + reb)
    } else {
        (b, reb - q as i128)
    }
}
