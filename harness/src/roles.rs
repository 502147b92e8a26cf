//! Who may do what, to which accounts, and when (P17-P20): every instruction that moves funds or
//! orders, with the recorded keys, the accounts' kinds and the times symbolic.
use crate::book::*;
use crate::env::*;
use crate::funds::some;
use crate::place::Po;
use crate::sym::*;
use anchor_lang::prelude::Pubkey;
use anchor_lang::Discriminator;
use openbook_v2::pubkey_option::NonZeroPubkeyOption;
use openbook_v2::state::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Place,
    PlacePegged,
    PlaceMany,
    CancelAllPlace,
    Edit,
    EditPegged,
    Cancel,
    CancelClient,
    CancelAll,
    Settle,
    SetDelegate,
    CloseAccount,
    Deposit,
    Refill,
    Take,
    Consume,
    ConsumeGiven,
    Expire,
    Prune,
    SettleExpired,
    Sweep,
    CloseMarket,
}
use Op::*;
/// placing, editing, cancelling, settling
const ACTS: [Op; 10] = [Place, PlacePegged, PlaceMany, CancelAllPlace, Edit, EditPegged, Cancel, CancelClient, CancelAll, Settle];
const OWNERS: [Op; 2] = [SetDelegate, CloseAccount];
const PLACES: [Op; 7] = [Place, PlacePegged, PlaceMany, CancelAllPlace, Edit, EditPegged, Take];
const CLOSING: [Op; 4] = [Expire, Prune, SettleExpired, CloseMarket];

pub fn any_key(n: [&'static str; 4]) -> Pubkey {
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[i * 8..i * 8 + 8].copy_from_slice(&u64s(n[i]).to_le_bytes());
    }
    Pubkey::new_from_array(b)
}
macro_rules! key {
    ($n:literal) => {
        any_key([concat!($n, "0"), concat!($n, "1"), concat!($n, "2"), concat!($n, "3")])
    };
}
const ZERO: Pubkey = Pubkey::new_from_array([0; 32]);
pub const K_ADMIN: Pubkey = pk(40);

pub struct Call {
    pub mk: Mk,
    pub op: Op,
    pub ix: Ix,
    pub metas: Vec<Meta>,
    /// the admin account, where the instruction takes one
    pub admin: Option<usize>,
    pub extra: usize,
}
fn batch(ix: Ix) -> Ix {
    // order type, bids, asks, limit
    ix.u8(0).u32(1).i64(12).i64(40).u64(0).u32(1).i64(31).i64(70).u64(0).u8(5)
}
/// A state in which `op`, called by `who`, is to succeed
/// whether single orders may also be asks
static mut SELLS: bool = false;
pub fn call(op: Op, who: Pubkey) -> Call {
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    mk.with_oracle(100.0);
    let m = mk.mkt();
    let f = Fees { taker: 1_000, maker: 500, bl: 100, ql: 10 };
    m.taker_fee = f.taker;
    m.maker_fee = f.maker;
    m.base_lot_size = f.bl;
    m.quote_lot_size = f.ql;
    m.base_deposit_total = 1 << 40;
    m.quote_deposit_total = 1 << 40;
    for (a, n) in [(mk.base_vault, 1 << 40), (mk.quote_vault, 1 << 40), (mk.user_base, 1 << 30), (mk.user_quote, 1 << 30)] {
        mk.w.set_amount(a, n);
    }
    mk.w.accs[mk.owner].key = who;
    for a in [mk.user_base, mk.user_quote] {
        mk.w.bytes(a)[32..64].copy_from_slice(who.as_ref());
    }
    let me = mk.me();
    me.owner = who;
    me.account_num = 1;
    let m1 = mk.add_maker(K_MAKER1);
    let o = |side: Side, price: i64, qty: i64, owner: Pubkey, cid: u64, seq: u64| R {
        side,
        peg: false,
        price,
        peg_limit: -1,
        qty,
        owner,
        slot: 0,
        cid,
        ts: 1,
        tif: 0,
        seq,
        key: mk_key(side, fixed_data(price), seq),
        valid: true,
    };
    let mine = o(Side::Bid, 13, 5, K_OOA, 70, 10);
    let theirs = o(Side::Ask, 29, 4, K_MAKER1, 71, 11);
    if op != CloseMarket && op != CloseAccount {
        for (a, r) in [(mk.ooa, mine), (m1, theirs)] {
            own(&mk, a, &r, &f);
            mk.side(r.side).insert_leaf(r.tree(), &r.leaf()).unwrap();
        }
        let p = &mut mk.me().position;
        p.base_free_native = 10_000;
        p.quote_free_native = 20_000;
        p.referrer_rebates_available = 30;
        mk.mkt().referrer_rebates_accrued = 30;
        mk.mkt().fees_available = 40;
    } else {
        let m = mk.mkt();
        m.base_deposit_total = 0;
        m.quote_deposit_total = 0;
    }
    let place = Po { side: 0, price: 29, max_base: 6, max_quote: 100_000, cid: 5, ty: 0, expiry: 0, stb: 0, limit: 5, peg: None };
    let peg = Po { price: 0, peg: Some((12 - ORACLE, 20)), ..place };
    let sell = unsafe { SELLS } && [Place, PlacePegged, Edit, EditPegged].contains(&op) && flip();
    let (place, peg) = if sell { (Po { side: 1, price: 20, ..place }, Po { side: 1, peg: Some((20 - ORACLE, 15)), ..peg }) } else { (place, peg) };
    let mut admin = None;
    let mut extra = 0;
    let pm = mk.m_place_order(if sell { Side::Ask } else { Side::Bid }, None);
    let (ix, metas) = match op {
        Place => (place.ix(), pm),
        PlacePegged => (peg.ix(), pm),
        PlaceMany => (batch(Ix::new(sel::PLACE_ORDERS)), mk.m_multi()),
        CancelAllPlace => (batch(Ix::new(sel::CANCEL_ALL_AND_PLACE_ORDERS)), mk.m_multi()),
        Edit => (place.args(Ix::new(sel::EDIT_ORDER).u64(70).i64(8)), pm),
        EditPegged => (peg.args(Ix::new(sel::EDIT_ORDER_PEGGED).u64(70).i64(8)), pm),
        Cancel => (Ix::new(sel::CANCEL_ORDER).u128(mine.key), mk.m_cancel()),
        CancelClient => (Ix::new(sel::CANCEL_ORDER_BY_CLIENT_ORDER_ID).u64(70), mk.m_cancel()),
        CancelAll => (Ix::new(sel::CANCEL_ALL_ORDERS).u8(0).u8(9), mk.m_cancel()),
        Settle | SettleExpired => {
            extra = mk.w.token(K_REFERRER, K_QUOTE_MINT, K_STRANGER, 0);
            mk.referrer = Some(extra);
            let mut metas = mk.m_settle();
            if op == SettleExpired {
                let a = mk.w.plain(K_ADMIN);
                admin = Some(a);
                metas.insert(0, sg(a));
                metas[1] = sgw(mk.owner);
            }
            (Ix::new(if op == Settle { sel::SETTLE_FUNDS } else { sel::SETTLE_FUNDS_EXPIRED }), metas)
        }
        SetDelegate => {
            extra = mk.w.plain(K_STRANGER);
            (Ix::new(sel::SET_DELEGATE), vec![sgw(mk.owner), rw(mk.ooa), ro(extra)])
        }
        CloseAccount => {
            let (k, bump) = Pubkey::find_program_address(&[b"OpenOrdersIndexer", who.as_ref()], &openbook_v2::ID);
            extra = indexer(&mut mk, k, bump, 1, &[K_OOA]);
            (Ix::new(sel::CLOSE_OPEN_ORDERS_ACCOUNT), vec![sg(mk.owner), rw(extra), rw(mk.ooa), sgw(mk.payer), ro(mk.system_program)])
        }
        Deposit => (Ix::new(sel::DEPOSIT).u64(5).u64(6), mk.m_deposit()),
        Refill => (Ix::new(sel::REFILL).u64(10_005).u64(20_006), mk.m_deposit()),
        Take => (Ix::new(sel::PLACE_TAKE_ORDER).u8(0).i64(29).i64(6).i64(100_000).u8(1).u8(5), mk.m_take()),
        Consume | ConsumeGiven => {
            let e = OutEvent::new(Side::Ask, 0, 9, 9, K_MAKER1, 4);
            mk.heap().push_back(bytemuck::cast(e));
            let mut metas = mk.m_consume();
            metas.push(rw(m1));
            extra = m1;
            (if op == Consume { Ix::new(sel::CONSUME_EVENTS).u64(1) } else { Ix::new(sel::CONSUME_GIVEN_EVENTS).u32(1).u64(0) }, metas)
        }
        Expire | Prune | CloseMarket | Sweep => {
            let a = mk.w.plain(K_ADMIN);
            admin = Some(a);
            match op {
                Expire => (Ix::new(sel::SET_MARKET_EXPIRED), vec![sg(a), rw(mk.market)]),
                Prune => (Ix::new(sel::PRUNE_ORDERS).u8(9), vec![sg(a), rw(mk.ooa), ro(mk.market), rw(mk.bids), rw(mk.asks)]),
                CloseMarket => (
                    Ix::new(sel::CLOSE_MARKET),
                    vec![sg(a), rw(mk.market), rw(mk.bids), rw(mk.asks), rw(mk.heap), rw(mk.payer), ro(mk.token_program)],
                ),
                _ => {
                    extra = mk.w.token(K_REFERRER, K_QUOTE_MINT, K_STRANGER, 0);
                    (Ix::new(sel::SWEEP_FEES), vec![sg(a), rw(mk.market), ro(mk.authority), rw(mk.quote_vault), rw(extra), ro(mk.token_program)])
                }
            }
        }
    };
    let m = mk.mkt();
    if CLOSING.contains(&op) {
        m.close_market_admin = some(K_ADMIN);
        if op != Expire {
            m.time_expiry = -1;
        }
    }
    if op == Sweep {
        m.collect_fee_admin = K_ADMIN;
    }
    Call { mk, op, ix, metas, admin, extra }
}
/// an account index with the given addresses and room for two more
pub fn indexer(mk: &mut Mk, key: Pubkey, bump: u8, counter: u32, list: &[Pubkey]) -> usize {
    let len = OpenOrdersIndexer::space(list.len());
    let i = mk.w.add_room(key, openbook_v2::ID, len, len + 64);
    let d = mk.w.bytes(i);
    d[..8].copy_from_slice(&OpenOrdersIndexer::DISCRIMINATOR);
    d[8] = bump;
    d[9..13].copy_from_slice(&counter.to_le_bytes());
    d[13..17].copy_from_slice(&(list.len() as u32).to_le_bytes());
    for (n, k) in list.iter().enumerate() {
        d[17 + n * 32..49 + n * 32].copy_from_slice(k.as_ref());
    }
    i
}
impl Call {
    fn run(&mut self) -> bool {
        let (d, m) = (self.ix.0.clone(), self.metas.clone());
        self.mk.w.run(&d, &m).is_ok()
    }
    /// drop the signature of an account
    fn unsign(&mut self, acc: usize) {
        for m in self.metas.iter_mut() {
            if m.acc == acc {
                m.signer = false;
            }
        }
    }
    fn uses(&self, acc: usize) -> bool {
        self.metas.iter().any(|m| m.acc == acc)
    }
}
fn op_of(v: &[Op]) -> Op {
    v[choice(v.len() as u64) as usize]
}

// ---- P17
fn acting() {
    let op = op_of(&ACTS);
    let who = if flip() { K_OWNER } else { ZERO };
    let mut c = call(op, who);
    let (owner, delegate) = (key!("owner"), key!("delegate"));
    let me = c.mk.me();
    me.owner = owner;
    me.delegate = some(delegate);
    let signed = flip();
    if !signed {
        let o = c.mk.owner;
        c.unsign(o);
    }
    let (d1, d2) = if op == Settle { (key!("base_dest"), key!("quote_dest")) } else { (who, who) };
    c.mk.w.bytes(c.mk.user_base)[32..64].copy_from_slice(d1.as_ref());
    c.mk.w.bytes(c.mk.user_quote)[32..64].copy_from_slice(d2.as_ref());
    let ok = c.run();
    let is_owner = owner == who;
    let is_delegate = (delegate != ZERO) & (delegate == who);
    check(!ok | signed, "nothing is done without a signature");
    check(!ok | is_owner | is_delegate, "only the owner or the delegate can act");
    if op == Settle {
        let to_owner = (d1 == owner) & (d2 == owner);
        check(!ok | is_owner | to_owner, "a delegate settles only to the owner's accounts");
        check(ok | !signed | !is_owner | is_delegate, "the owner may settle anywhere");
        check(ok | !signed | !is_delegate | !to_owner, "a delegate may settle to the owner");
    } else {
        check(ok | !signed | !(is_owner | is_delegate), "owner and delegate can act");
    }
    if ok {
        let me = c.mk.me();
        check((me.owner == owner) & (me.delegate == some(delegate)), "owner and delegate stay");
        cover(is_owner, "owner");
        cover(is_delegate, "delegate");
    }
    cover(!ok, "refused");
    cover(true, "end");
}
fn owning() {
    let op = op_of(&OWNERS);
    let mut c = call(op, K_OWNER);
    let (owner, delegate) = (key!("owner"), key!("delegate"));
    let me = c.mk.me();
    me.owner = owner;
    me.delegate = some(delegate);
    let signed = flip();
    if !signed {
        let o = c.mk.owner;
        c.unsign(o);
    }
    let none = op == SetDelegate && flip();
    if none {
        c.metas[2] = ro(c.mk.none);
    }
    let ok = c.run();
    check(ok == (signed & (owner == K_OWNER)), "only the owner can change the delegate or close the account");
    if ok && op == SetDelegate {
        let me = c.mk.me();
        check(me.delegate == NonZeroPubkeyOption::from(if none { None } else { Some(K_STRANGER) }), "the delegate is the one given");
        check(me.owner == owner, "the owner stays");
    }
    cover(ok, "done");
    cover(!ok, "refused");
    cover(true, "end");
}

// ---- P18
fn roles() {
    let op = op_of(&[Place, PlacePegged, PlaceMany, CancelAllPlace, Edit, EditPegged, Take, Consume, ConsumeGiven]);
    let mut c = call(op, K_OWNER);
    let named = key!("named");
    let events = op == Consume || op == ConsumeGiven;
    let m = c.mk.mkt();
    // whoever holds the other roles, the same party or nobody, has no say
    let other = some(if flip() { K_ADMIN } else { ZERO });
    if events {
        m.consume_events_admin = some(named);
        m.open_orders_admin = other;
    } else {
        m.open_orders_admin = some(named);
        m.consume_events_admin = other;
    }
    m.close_market_admin = other;
    m.collect_fee_admin = K_ADMIN;
    let at = match op {
        Consume | ConsumeGiven => 0,
        Take => c.metas.len() - 1,
        _ => 2,
    };
    // none, signed, not signed
    let given = choice(3);
    if given > 0 {
        let a = c.mk.w.plain(K_ADMIN);
        c.metas[at] = Meta { acc: a, signer: given == 1, writable: false };
    }
    let ok = c.run();
    check(!ok | (named == ZERO) | ((given == 1) & (named == K_ADMIN)), "a named admin has to sign");
    check(ok | (named != ZERO) | (given != 0), "no admin is needed where none is named");
    check(ok | (named != K_ADMIN) | (given != 1), "the named admin can act");
    cover(ok & (named == ZERO), "none named");
    cover(ok & (named == K_ADMIN), "named");
    cover(!ok, "refused");
    cover(true, "end");
}
fn closing_roles() {
    let op = op_of(&[Expire, Prune, SettleExpired, CloseMarket, Sweep]);
    let mut c = call(op, K_OWNER);
    let named = key!("named");
    let a = c.admin.unwrap();
    let who = if flip() { K_ADMIN } else { ZERO };
    c.mk.w.accs[a].key = who;
    let m = c.mk.mkt();
    let other = some(if flip() { K_ADMIN } else { ZERO });
    m.open_orders_admin = other;
    m.consume_events_admin = other;
    if op == Sweep {
        m.collect_fee_admin = named;
        m.close_market_admin = other;
    } else {
        m.close_market_admin = some(named);
        m.collect_fee_admin = K_ADMIN;
    }
    let signed = flip();
    if !signed {
        c.unsign(a);
    }
    let ok = c.run();
    let right = signed & (named == who) & ((who != ZERO) | (op == Sweep));
    check(!ok | right, "only the named party can");
    check(ok | !right, "the named party can");
    cover(ok, "done");
    cover(!ok, "refused");
    cover(true, "end");
}

// ---- P19
fn account_discs(op_mk: &Mk, ooa: usize) -> [(usize, [u8; 8]); 5] {
    [
        (op_mk.market, Market::DISCRIMINATOR),
        (op_mk.bids, BookSide::DISCRIMINATOR),
        (op_mk.asks, BookSide::DISCRIMINATOR),
        (op_mk.heap, EventHeap::DISCRIMINATOR),
        (ooa, OpenOrdersAccount::DISCRIMINATOR),
    ]
}
const MOVES: [Op; 20] = [
    Place, PlacePegged, PlaceMany, CancelAllPlace, Edit, EditPegged, Cancel, CancelClient, CancelAll, Settle, Deposit, Refill, Take, Consume, ConsumeGiven, Prune, SettleExpired, Sweep, CloseMarket,
    CloseAccount,
];
/// the keys the market records, against the accounts supplied
fn recorded(ops: &[Op]) {
    let op = op_of(ops);
    let mut c = call(op, K_OWNER);
    let m = c.mk.mkt();
    let k = [key!("bids"), key!("asks"), key!("heap"), key!("base_vault"), key!("quote_vault"), key!("authority"), key!("oracle_a"), key!("oracle_b"), key!("ooa_market")];
    m.bids = k[0];
    m.asks = k[1];
    m.event_heap = k[2];
    m.market_base_vault = k[3];
    m.market_quote_vault = k[4];
    m.market_authority = k[5];
    m.oracle_a = some(k[6]);
    m.oracle_b = some(k[7]);
    c.mk.me().market = k[8];
    // which oracles are supplied
    let oracles = [Place, PlacePegged, PlaceMany, CancelAllPlace, Edit, EditPegged, Take].contains(&op);
    let (mut ga, mut gb) = (K_ORACLE_A, ZERO);
    if oracles && choice(2) == 1 {
        let i = c.mk.w.zero_copy::<StubOracle>(K_ORACLE_B);
        c.mk.w.get::<StubOracle>(i).price = 1.0;
        let at = match op {
            Take => 12,
            PlaceMany | CancelAllPlace => 12,
            _ => 10,
        };
        c.metas[at] = ro(i);
        gb = K_ORACLE_B;
    }
    if op != PlacePegged && op != EditPegged && oracles && gb == ZERO && choice(2) == 1 {
        let a = c.mk.oracle_a.unwrap();
        for x in c.metas.iter_mut() {
            if x.acc == a {
                x.acc = c.mk.none;
            }
        }
        ga = ZERO;
    }
    let ok = c.run();
    let mk = &c.mk;
    let mut right = true;
    let mut is = |used: bool, good: bool, id: &'static str| {
        if used {
            check(!ok | good, id);
            right &= good;
        }
    };
    let closing = op == CloseAccount;
    is(c.uses(mk.bids), k[0] == K_BIDS, "bids are the market's");
    is(c.uses(mk.asks), k[1] == K_ASKS, "asks are the market's");
    is(c.uses(mk.heap), k[2] == K_HEAP, "the queue is the market's");
    is(c.uses(mk.base_vault), k[3] == K_BASE_VAULT, "the base vault is the market's");
    is(c.uses(mk.quote_vault), k[4] == K_QUOTE_VAULT, "the quote vault is the market's");
    is(c.uses(mk.authority), k[5] == K_AUTHORITY, "the authority is the market's");
    is(oracles, k[6] == ga, "the first oracle is the market's");
    is(oracles, k[7] == gb, "the second oracle is the market's");
    is(c.uses(mk.ooa) && !closing, k[8] == K_MARKET, "the account is one of this market");
    let two = gb != ZERO;
    if !two {
        check(ok | !right, "the market's own accounts are accepted");
    }
    if ok {
        for t in unsafe { (*std::ptr::addr_of!(TRANSFERS)).iter() } {
            if t.from == K_BASE_VAULT || t.from == K_QUOTE_VAULT {
                check(t.by_seeds & (t.authority == K_AUTHORITY), "withdrawals are signed by the market's authority");
            }
        }
    }
    cover(ok, "accepted");
    cover(!ok, "refused");
    cover(true, "end");
}
/// what kind of accounts are supplied
fn kinds(ops: &[Op]) {
    let op = op_of(ops);
    let mut c = call(op, K_OWNER);
    let mk = &mut c.mk;
    let states = account_discs(mk, if op == Consume || op == ConsumeGiven { c.extra } else { mk.ooa });
    const O: [[&str; 4]; 5] = [["mo0", "mo1", "mo2", "mo3"], ["bo0", "bo1", "bo2", "bo3"], ["ao0", "ao1", "ao2", "ao3"], ["ho0", "ho1", "ho2", "ho3"], ["oo0", "oo1", "oo2", "oo3"]];
    const D: [&str; 5] = ["market_kind", "bids_kind", "asks_kind", "heap_kind", "account_kind"];
    let mut want = [false; 5];
    let part = choice(2);
    for (i, (a, d)) in states.iter().enumerate() {
        if !c.metas.iter().any(|m| m.acc == *a) {
            want[i] = true;
            continue;
        }
        if part == 0 {
            let o = any_key(O[i]);
            mk.w.accs[*a].owner = o;
            want[i] = o == openbook_v2::ID;
        } else {
            let k = u64s(D[i]).to_le_bytes();
            mk.w.bytes(*a)[..8].copy_from_slice(&k);
            want[i] = k == *d;
        }
    }
    // token accounts: mint and owning program
    let toks = [(mk.user_base, K_BASE_MINT), (mk.user_quote, K_QUOTE_MINT), (c.extra, K_QUOTE_MINT)];
    const T: [[&str; 4]; 3] = [["um0", "um1", "um2", "um3"], ["qm0", "qm1", "qm2", "qm3"], ["em0", "em1", "em2", "em3"]];
    let mut good = [true; 3];
    for (i, (a, m)) in toks.iter().enumerate() {
        let is_token = i < 2 || op == Settle || op == SettleExpired || op == Sweep;
        if !is_token || !c.metas.iter().any(|x| x.acc == *a) {
            continue;
        }
        let k = any_key(T[i]);
        if part == 0 {
            mk.w.accs[*a].owner = k;
            good[i] = k == anchor_spl::token::ID;
        } else {
            mk.w.bytes(*a)[..32].copy_from_slice(k.as_ref());
            good[i] = k == *m;
        }
    }
    let ok = c.run();
    const IDS: [&str; 5] = ["the market is one of the program's", "bids are a book side", "asks are a book side", "the queue is an event queue", "the account is an open orders account"];
    const TIDS: [&str; 3] = ["the user's base account is of the base mint", "the user's quote account is of the quote mint", "the receiver is of the quote mint"];
    let mut all = true;
    for i in 0..5 {
        check(!ok | want[i], IDS[i]);
        all &= want[i];
    }
    for i in 0..3 {
        check(!ok | good[i], TIDS[i]);
        all &= good[i];
    }
    check(ok | !all, "accounts of the right kind are accepted");
    cover(ok, "accepted");
    cover(!ok, "refused");
    cover(true, "end");
}
/// a program that is not the token or system program is refused
fn programs() {
    let op = op_of(&[Place, PlaceMany, Settle, Deposit, Take, SettleExpired, Sweep]);
    let mut c = call(op, K_OWNER);
    let (t, s) = (key!("token"), key!("system"));
    c.mk.w.accs[c.mk.token_program].key = t;
    let sys = c.uses(c.mk.system_program);
    if sys {
        c.mk.w.accs[c.mk.system_program].key = s;
    }
    let ok = c.run();
    check(!ok | (t == anchor_spl::token::ID), "transfers go through the token program");
    check(!ok | !sys | (s == ZERO), "lamports move through the system program");
    cover(ok, "accepted");
    cover(true, "end");
}

// ---- P20
const ALL: [Op; 21] = [
    Place, PlacePegged, PlaceMany, CancelAllPlace, Edit, EditPegged, Take, Deposit, Refill, Cancel, CancelClient, CancelAll, Settle, Consume, ConsumeGiven, Sweep, SetDelegate, Prune, SettleExpired,
    CloseMarket, Expire,
];
fn gates() {
    let i = choice(21) as usize;
    let op = ALL[i];
    let mut c = call(op, K_OWNER);
    let (te, now) = (i64s("time_expiry"), i64r("now", 1, 1 << 60));
    unsafe { NOW = now };
    let m = c.mk.mkt();
    m.time_expiry = te;
    let passed = (te != 0) & (te < now);
    let open = (te == 0) | (te > now);
    let ok = c.run();
    if i < 9 {
        check(!(ok & passed), "no order or deposit after expiry");
        check(ok | !open, "orders and deposits before expiry");
    } else if i < 17 {
        check(ok, "cancelling, settling and the like work at any time");
    } else if i < 20 {
        check(!(ok & open), "no pruning or closing before expiry");
        check(ok | !passed, "pruning and closing after expiry");
    } else {
        check(!(ok & passed), "an expired market cannot be expired again");
        check(ok | !open, "a market can be expired by hand");
    }
    if ok && op != CloseMarket {
        let t = c.mk.mkt().time_expiry;
        if op == Expire {
            check((t != 0) & (t < now), "expiring takes effect at once");
            // and for good
            let later = i64r("later", 1, i64::MAX);
            assume(later >= now);
            check(t < later, "expiring is final");
        } else {
            check(t == te, "no other instruction changes the expiry");
        }
    }
    cover(ok & passed, "after");
    cover(ok & open, "before");
    cover(!ok, "refused");
    cover(true, "end");
}
/// expire by hand, then try everything
fn by_hand() {
    let i = choice(20) as usize;
    let op = ALL[i];
    let mut c = call(op, K_OWNER);
    let (te, now) = (i64s("time_expiry"), i64r("now", 1, 1 << 60));
    assume((te == 0) | (te > now));
    let m = c.mk.mkt();
    m.time_expiry = te;
    m.close_market_admin = some(K_ADMIN);
    let a = match c.admin {
        Some(a) => a,
        None => c.mk.w.plain(K_ADMIN),
    };
    unsafe { NOW = now };
    let mkt = c.mk.market;
    let ok = c.mk.w.run(&Ix::new(sel::SET_MARKET_EXPIRED).0, &[sg(a), rw(mkt)]).is_ok();
    check(ok, "a market can be expired by hand");
    let wait = i64r("wait", 0, 1 << 60);
    unsafe { NOW = now + wait };
    if flip() {
        let again = c.mk.w.run(&Ix::new(sel::SET_MARKET_EXPIRED).0, &[sg(a), rw(mkt)]).is_ok();
        check(!again, "an expired market cannot be expired again");
        return;
    }
    let ok = c.run();
    check(ok == (i >= 9), "after expiring, orders and deposits are refused, everything else works");
    cover(ok, "works");
    cover(!ok, "refused");
    cover(true, "end");
}
fn sells() {
    unsafe { SELLS = true }
}
crate::harness! {
    p17_acting { sells(); acting() }
    p17_owning { owning() }
    p18_orders { sells(); roles() }
    p18_closing { closing_roles() }
    p19_recorded { sells(); recorded(&MOVES) }
    p19_kinds { sells(); kinds(&MOVES[..19]) }
    p19_programs { programs() }
    p20_gates { sells(); gates() }
    p20_by_hand { by_hand() }
}
