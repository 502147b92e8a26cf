//! Creating and closing markets, accounts and their index (P24, P25), and the logs of it (P29).
use crate::book::*;
use crate::env::*;
use crate::events::{is_log, D};
use crate::funds::{any_position, some};
use crate::roles::indexer;
use crate::sym::*;
use anchor_lang::prelude::Pubkey;
use anchor_lang::solana_program::system_program;
use anchor_lang::Discriminator;
use openbook_v2::state::*;
use openbook_v2::pubkey_option::NonZeroPubkeyOption;

const NAME: &[u8] = b"SOL-USDC 20 charact";
fn string(ix: Ix, s: &[u8]) -> Ix {
    let mut ix = ix.u32(s.len() as u32);
    ix.0.extend_from_slice(s);
    ix
}
fn unused(w: &mut World, key: Pubkey, room: usize) -> usize {
    let i = w.add_room(key, system_program::ID, 0, room);
    w.accs[i].lamports = 0;
    i
}
/// an account as a client sets it up for the program to initialise
fn blank<T>(w: &mut World, key: Pubkey) -> usize {
    w.add(key, openbook_v2::ID, 8 + std::mem::size_of::<T>())
}
fn tagged(w: &mut World, key: Pubkey, kind: u64) -> usize {
    let i = w.add(key, if kind == 5 { openbook_v2::ID } else { K_STRANGER }, 64);
    let d = w.bytes(i);
    match kind {
        0 => d[..4].copy_from_slice(&0xa1b2c3d4u32.to_le_bytes()),
        1 => d[..8].copy_from_slice(&[217, 230, 65, 101, 201, 162, 27, 125]),
        5 => d[..8].copy_from_slice(&StubOracle::DISCRIMINATOR),
        _ => d[..8].copy_from_slice(&[7; 8]),
    }
    i
}
struct New {
    mk: Mk,
    market: usize,
    metas: Vec<Meta>,
    a: Option<Pubkey>,
    b: Option<Pubkey>,
    admins: [Option<Pubkey>; 3],
    good: bool,
    vaults: [Pubkey; 2],
    authority: (Pubkey, u8),
}
const K_NEW: Pubkey = pk(90);
/// everything create_market needs; `good` unless one of the accounts is not as it must be
fn new_market(case: u64) -> New {
    let mut mk = Mk::new();
    let mut good = true;
    let w = &mut mk.w;
    let market = unused(w, K_NEW, 8 + std::mem::size_of::<Market>());
    let authority = Pubkey::find_program_address(&[b"Market", K_NEW.as_ref()], &openbook_v2::ID);
    let auth = w.plain(authority.0);
    let (bids, asks, heap) = (blank::<BookSide>(w, pk(91)), blank::<BookSide>(w, pk(92)), blank::<EventHeap>(w, pk(93)));
    let base = w.mint(K_BASE_MINT, 9);
    let quote = if case == 1 { base } else { w.mint(K_QUOTE_MINT, 6) };
    let qm = w.accs[quote].key;
    let vaults = [K_BASE_MINT, qm].map(|m| anchor_spl::associated_token::get_associated_token_address(&authority.0, &m));
    let bv = unused(w, vaults[0], TOKEN_LEN);
    let qv = if case == 1 { bv } else { unused(w, vaults[1], TOKEN_LEN) };
    let ata = w.program(anchor_spl::associated_token::ID);
    let ea = w.plain(Pubkey::find_program_address(&[b"__event_authority"], &openbook_v2::ID).0);
    let collect = w.plain(K_COLLECT);
    let adm = [w.plain(pk(94)), w.plain(pk(95)), w.plain(pk(96))];
    let none = mk.none;
    let (mut a, mut b) = (None, None);
    match case {
        1 => good = false,
        2 => {
            // a book or a queue in use
            good = false;
            let (acc, d) = [(bids, BookSide::DISCRIMINATOR), (asks, BookSide::DISCRIMINATOR), (heap, EventHeap::DISCRIMINATOR)][choice(3) as usize];
            mk.w.bytes(acc)[..8].copy_from_slice(&d);
        }
        3 => {
            let k = choice(4);
            let k = if k == 3 { 5 } else { k };
            good = k != 2;
            a = Some(tagged(&mut mk.w, K_ORACLE_A, k));
        }
        4 => {
            // second without first
            good = false;
            b = Some(tagged(&mut mk.w, K_ORACLE_B, choice(3)));
        }
        5 => {
            let (i, j) = (choice(3), choice(3));
            good = i == j && i != 2;
            a = Some(tagged(&mut mk.w, K_ORACLE_A, i));
            b = Some(tagged(&mut mk.w, K_ORACLE_B, j));
        }
        6 => {
            good = false;
            a = Some(tagged(&mut mk.w, K_ORACLE_A, choice(2)));
            b = a;
        }
        _ => {}
    }
    let which = if case == 0 { choice(8) } else { 7 };
    let given = |n: u64| if which & (1 << n) != 0 { Some(adm[n as usize]) } else { None };
    let keys = |i: Option<usize>, mk: &Mk| i.map(|i| mk.w.accs[i].key);
    let metas = vec![
        sgw(market),
        ro(auth),
        rw(bids),
        rw(asks),
        rw(heap),
        sgw(mk.payer),
        rw(bv),
        rw(qv),
        ro(base),
        ro(quote),
        ro(mk.system_program),
        ro(mk.token_program),
        ro(ata),
        ro(a.unwrap_or(none)),
        ro(b.unwrap_or(none)),
        ro(collect),
        ro(given(0).unwrap_or(none)),
        ro(given(1).unwrap_or(none)),
        ro(given(2).unwrap_or(none)),
        ro(ea),
        ro(none),
    ];
    let admins = [keys(given(0), &mk), keys(given(1), &mk), keys(given(2), &mk)];
    let (a, b) = (keys(a, &mk), keys(b, &mk));
    mk.bids = bids;
    mk.asks = asks;
    mk.heap = heap;
    New { mk, market, metas, a, b, admins, good, vaults, authority }
}
fn create_market(p: u32, case: u64) {
    arm(p);
    let mut n = new_market(case);
    unsafe { KEEP_LOGS = on(29) };
    // the numbers matter on their own, and once with each set of accounts
    let free = case == 0;
    let num = |name: &'static str, v: i64| if free { i64s(name) } else { v };
    let (ql, bl) = (num("quote_lot", 10), num("base_lot", 100));
    let (maker, taker) = (num("maker_fee", -200), num("taker_fee", 400));
    let (expiry, now) = (num("expiry", 0), i64s("now"));
    unsafe { NOW = now };
    let len = if on(29) { 8 } else { [8, 0, 16, 17][choice(4) as usize] };
    let name = &NAME[..len];
    let stale = if flip() { Some(u32s("max_staleness")) } else { None };
    let conf = [0.1f32, 0.0, 1.5][choice(3) as usize];
    let mut ix = string(Ix::new(sel::CREATE_MARKET), name);
    ix.0.extend_from_slice(&conf.to_le_bytes());
    let ix = match stale {
        Some(v) => ix.u8(1).u32(v),
        None => ix.u8(0),
    };
    let ix = ix.i64(ql).i64(bl).i64(maker).i64(taker).i64(expiry);
    let metas = n.metas.clone();
    let ok = n.mk.w.run(&ix.0, &metas).is_ok();
    let fees = (taker >= 0) & (taker <= 1_000_000) & (maker <= 1_000_000) & (maker as i128 + taker as i128 >= 0);
    let sound = fees & (ql > 0) & (bl > 0) & ((expiry == 0) | (expiry > now));
    let fits = len <= 16;
    chk(24, !ok | (n.good && fits), "accounts that must be refused are");
    chk(24, !ok | sound, "a market has sound parameters");
    chk(24, ok | !(n.good && fits) | !sound, "a sound market can be created");
    cover(ok, "created");
    cover(!ok, "refused");
    if ok {
        n.mk.market = n.market;
        let m = n.mk.mkt();
        chk(24, (m.quote_lot_size == ql) & (m.base_lot_size == bl), "lot sizes are those given");
        chk(24, (m.maker_fee == maker) & (m.taker_fee == taker), "fees are those given");
        chk(24, (m.time_expiry == expiry) & (m.registration_time == now), "times are those given");
        chk(24, &m.name[..len] == name && m.name[len..].iter().all(|c| *c == 0), "the name is that given");
        chk(24, m.oracle_config.conf_filter == conf as f64, "the confidence filter is that given");
        chk(24, m.oracle_config.max_staleness_slots == stale.map_or(-1, |v| v as i64), "the staleness limit is that given");
        chk(24, m.oracle_a == NonZeroPubkeyOption::from(n.a) && m.oracle_b == NonZeroPubkeyOption::from(n.b), "the oracles are those given");
        chk(24, m.base_mint == K_BASE_MINT && m.quote_mint == K_QUOTE_MINT, "the mints are those given");
        chk(24, m.base_decimals == 9 && m.quote_decimals == 6, "the decimals are the mints'");
        chk(24, m.market_base_vault == n.vaults[0] && m.market_quote_vault == n.vaults[1], "the vaults are those made");
        chk(24, m.bids == pk(91) && m.asks == pk(92) && m.event_heap == pk(93), "book and queue are those given");
        chk(24, m.market_authority == n.authority.0 && m.bump == n.authority.1, "the authority is the market's own");
        chk(24, m.collect_fee_admin == K_COLLECT, "the fee collector is the one given");
        chk(24, m.open_orders_admin == NonZeroPubkeyOption::from(n.admins[0]), "the order admin is the one given");
        chk(24, m.consume_events_admin == NonZeroPubkeyOption::from(n.admins[1]), "the event admin is the one given");
        chk(24, m.close_market_admin == NonZeroPubkeyOption::from(n.admins[2]), "the closing admin is the one given");
        let zero = m.seq_num | m.base_deposit_total | m.quote_deposit_total | m.fees_available | m.referrer_rebates_accrued;
        chk(24, zero == 0 && m.fees_to_referrers == 0 && m.fees_accrued == 0 && m.maker_volume == 0 && m.taker_volume_wo_oo == 0, "nothing is owed");
        chk(24, n.mk.w.bytes(n.market)[..8] == Market::DISCRIMINATOR, "it is a market");
        for (i, d) in [(n.mk.bids, BookSide::DISCRIMINATOR), (n.mk.asks, BookSide::DISCRIMINATOR), (n.mk.heap, EventHeap::DISCRIMINATOR)] {
            chk(24, n.mk.w.bytes(i)[..8] == d, "book and queue are in use");
        }
        let (bd, ak) = (n.mk.bids(), n.mk.asks());
        chk(24, all_leaves(bd).is_empty() && all_leaves(ak).is_empty() && bd.is_empty() && ak.is_empty(), "the book is empty");
        chk(24, bd.nodes.order_tree_type() == OrderTreeType::Bids && ak.nodes.order_tree_type() == OrderTreeType::Asks, "bids are bids and asks are asks");
        let hp = n.mk.heap();
        chk(24, hp.is_empty() && hp.len() == 0 && hp.iter().next().is_none(), "the queue is empty");
        // and what is put in works
        let (k1, k2) = (mk_key(Side::Bid, 5, 1), mk_key(Side::Bid, 6, 2));
        for k in [k1, k2] {
            let l = LeafNode::new(0, k, K_MAKER1, 1, 1, 0, -1, 7);
            chk(24, bd.insert_leaf(BookSideOrderTree::Fixed, &l).is_ok() && ak.insert_leaf(BookSideOrderTree::OraclePegged, &l).is_ok(), "the book can be used");
        }
        chk(24, all_leaves(bd).len() == 2 && all_leaves(ak).len() == 2, "the book holds what it is given");
        for s in 0..3u64 {
            hp.push_back(bytemuck::cast(OutEvent::new(Side::Ask, 0, 9, s, K_MAKER1, 4)));
        }
        let o = outs(hp);
        chk(24, o.len() == 3 && (0..3).all(|s| o[s].seq_num == s as u64), "the queue can be used");
        if on(29) {
            let l = unsafe { &LOGS };
            check(l.len() == 1 && is_log(&l[0], "MarketMetaDataLog"), "creating a market is logged");
            if l.len() == 1 {
                let mut d = D::new(&l[0], "MarketMetaDataLog");
                let k = d.key();
                let n = d.u32();
                let mut s = true;
                for i in 0..8 {
                    s &= d.u8() == name[i];
                }
                check(k == K_NEW && n == 8 && s, "the log names the market");
                check(d.key() == K_BASE_MINT && d.key() == K_QUOTE_MINT, "the log names the mints");
                check(d.u8() == 9 && d.u8() == 6, "the log gives the decimals");
                check((d.u64() as i64 == bl) & (d.u64() as i64 == ql), "the log gives the lot sizes");
                check(d.done(), "the log is complete");
            }
        }
    }
    cover(true, "end");
}

// ---- closing
fn closed(w: &World, i: usize) -> bool {
    w.accs[i].lamports == 0 && w.accs[i].owner == system_program::ID && w.accs[i].len == 0
}
fn close_market() {
    let mut mk = Mk::new();
    let (expiry, now) = (i64s("expiry"), i64s("now"));
    unsafe { NOW = now };
    let m = mk.mkt();
    m.time_expiry = expiry;
    m.base_deposit_total = u64s("base_total");
    m.quote_deposit_total = u64s("quote_total");
    m.fees_available = u64s("fees");
    m.referrer_rebates_accrued = u64s("rebates");
    m.close_market_admin = some(pk(94));
    let owed = (m.base_deposit_total != 0) | (m.quote_deposit_total != 0) | (m.fees_available != 0) | (m.referrer_rebates_accrued != 0);
    // statistics do not matter
    m.fees_accrued = u64s("stat0") as u128;
    m.fees_to_referrers = u64s("stat1") as u128;
    m.taker_volume_wo_oo = u64s("stat2") as u128;
    m.maker_volume = u64s("stat3") as u128;
    m.seq_num = u64s("seq_num");
    let what = choice(6);
    let side = if what & 1 == 0 { Side::Bid } else { Side::Ask };
    let t = if what < 2 { BookSideOrderTree::Fixed } else { BookSideOrderTree::OraclePegged };
    if what < 4 {
        let l = LeafNode::new(0, mk_key(side, 5, 1), K_MAKER1, 1, 1, u16s("tif"), -1, 7);
        mk.side(side).insert_leaf(t, &l).unwrap();
    } else if what == 4 {
        mk.heap().push_back(bytemuck::cast(OutEvent::new(Side::Ask, 0, 9, 0, K_MAKER1, 4)));
    }
    let a = mk.w.plain(pk(94));
    let dest = mk.payer;
    let before = mk.w.accs[dest].lamports;
    let four = [mk.market, mk.bids, mk.asks, mk.heap];
    let held: u64 = four.iter().map(|i| mk.w.accs[*i].lamports).sum();
    let metas = vec![sg(a), rw(mk.market), rw(mk.bids), rw(mk.asks), rw(mk.heap), rw(dest), ro(mk.token_program)];
    let ok = mk.w.run(&Ix::new(sel::CLOSE_MARKET).0, &metas).is_ok();
    let expired = (expiry != 0) & (expiry < now);
    check(!ok | expired, "only an expired market is closed");
    check(!ok | !owed, "only a market that owes nothing is closed");
    check(!ok | (what == 5), "only a market with empty book and queue is closed");
    check(ok | !expired | owed | (what != 5), "an empty expired market can be closed");
    if ok {
        check(four.iter().all(|i| closed(&mk.w, *i)), "market, book and queue are gone");
        check(mk.w.accs[dest].lamports == before + held, "their deposit is returned");
    }
    cover(ok, "closed");
    cover(!ok, "refused");
    cover(true, "end");
}
fn owner_index() -> (Pubkey, u8) {
    Pubkey::find_program_address(&[b"OpenOrdersIndexer", K_OWNER.as_ref()], &openbook_v2::ID)
}
fn listed(w: &World, i: usize) -> (u32, Vec<Pubkey>) {
    let d = w.bytes(i);
    let n = u32::from_le_bytes(d[13..17].try_into().unwrap()) as usize;
    check(d.len() >= 17 + n * 32, "the index has room for its list");
    (u32::from_le_bytes(d[9..13].try_into().unwrap()), (0..n).map(|k| Pubkey::new_from_array(d[17 + k * 32..49 + k * 32].try_into().unwrap())).collect())
}
fn close_account() {
    let mut mk = Mk::new();
    let me = mk.me();
    any_position(&mut me.position);
    me.version = if flip() { 1 } else { 0 };
    let used = flip();
    let p = &me.position;
    // version 0 did not keep the count of quote locked in bids
    let holds = (p.bids_base_lots != 0)
        | (p.asks_base_lots != 0)
        | ((p.bids_quote_lots != 0) & (me.version != 0))
        | (p.base_free_native != 0)
        | (p.quote_free_native != 0)
        | (p.locked_maker_fees != 0)
        | (p.referrer_rebates_available != 0)
        | (p.penalty_heap_count != 0);
    if used {
        // an order in a slot has something locked for it
        let s = choice(MAX_OPEN_ORDERS as u64) as usize;
        let bid = flip();
        me.open_orders[s].is_free = 0;
        me.open_orders[s].id = 9;
        me.open_orders[s].side_and_tree = if bid { SideAndOrderTree::BidFixed } else { SideAndOrderTree::AskFixed }.into();
        assume(if bid { p.bids_base_lots > 0 } else { p.asks_base_lots > 0 });
    }
    let (k, bump) = owner_index();
    let n = 1 + choice(3) as usize;
    let at = choice(4) as usize;
    let mut list = vec![K_MAKER1, K_MAKER2, K_MAKER3];
    list.truncate(n);
    if at < n {
        list[at] = K_OOA;
    }
    let c = u32s("counter");
    let ix = indexer(&mut mk, k, bump, c, &list);
    mk.w.accs[mk.ooa].lamports = 5_000_000;
    let before = mk.w.accs[mk.payer].lamports;
    let ilam = mk.w.accs[ix].lamports;
    let metas = vec![sg(mk.owner), rw(ix), rw(mk.ooa), sgw(mk.payer), ro(mk.system_program)];
    let ok = mk.w.run(&Ix::new(sel::CLOSE_OPEN_ORDERS_ACCOUNT).0, &metas).is_ok();
    check(!ok | !holds, "an account that holds something stays open");
    check(!ok | !used, "an account with orders stays open");
    check(!ok | (at < n), "only a listed account is closed");
    check(ok | holds | (at >= n), "an empty account can be closed");
    if ok {
        let (c2, l2) = listed(&mk.w, ix);
        check(c2 == c, "account numbers go on");
        list.remove(at);
        check(l2 == list, "the account leaves the index, the others stay");
        check(closed(&mk.w, mk.ooa), "the account is gone");
        check(mk.w.accs[mk.payer].lamports + mk.w.accs[ix].lamports == before + ilam + 5_000_000, "its deposit is returned");
    }
    cover(ok, "closed");
    cover(!ok, "refused");
    cover(true, "end");
}
fn close_index() {
    let mut mk = Mk::new();
    let (k, bump) = owner_index();
    let n = [0, 1, 2, 255, 256][choice(5) as usize];
    let ix = indexer(&mut mk, k, bump, u32s("counter"), &vec![K_OOA; n]);
    let metas = vec![sg(mk.owner), rw(ix), rw(mk.payer), ro(mk.token_program)];
    let ok = mk.w.run(&Ix::new(sel::CLOSE_OPEN_ORDERS_INDEXER).0, &metas).is_ok();
    check(ok == (n == 0), "an index is closed exactly when it lists nothing");
    if ok {
        check(closed(&mk.w, ix), "the index is gone");
    }
    cover(ok, "closed");
    cover(!ok, "refused");
    cover(true, "end");
}
fn account_key(n: u32) -> Pubkey {
    Pubkey::find_program_address(&[b"OpenOrders", K_OWNER.as_ref(), &n.to_le_bytes()], &openbook_v2::ID).0
}
fn m_create(mk: &Mk, ix: usize, acc: usize, delegate: Option<usize>) -> Vec<Meta> {
    vec![sgw(mk.payer), sg(mk.owner), ro(delegate.unwrap_or(mk.none)), rw(ix), rw(acc), ro(mk.market), ro(mk.system_program)]
}
/// a new account, at any point of an index's life
fn create_account() {
    let mut mk = Mk::new();
    let (k, bump) = owner_index();
    let n = [0usize, 1, 3, 254, 255, 256][choice(6) as usize];
    let c = [0u32, 1, 255, 256, 65_535, 1 << 31, u32::MAX - 1, u32::MAX][choice(8) as usize];
    let mut list = vec![K_MAKER1; n];
    let ix = indexer(&mut mk, k, bump, c, &list);
    let num = match choice(3) {
        0 => c.wrapping_add(1),
        1 => c,
        _ => c.wrapping_add(2),
    };
    let key = account_key(num);
    let acc = unused(&mut mk.w, key, OpenOrdersAccount::space());
    let len = [5, 0, 32][choice(3) as usize];
    let name: Vec<u8> = (0..len).map(|i| b'a' + (i % 26) as u8).collect();
    let del = if flip() { Some(mk.w.plain(K_STRANGER)) } else { None };
    let data = string(Ix::new(sel::CREATE_OPEN_ORDERS_ACCOUNT), &name);
    let metas = m_create(&mk, ix, acc, del);
    let ok = mk.w.run(&data.0, &metas).is_ok();
    let can = n < 256 && c != u32::MAX && num == c.wrapping_add(1);
    check(ok == can, "an account is created exactly with the next number while there is room");
    if ok {
        let (c2, l2) = listed(&mk.w, ix);
        list.push(key);
        check(c2 == c + 1 && l2 == list, "the index lists the new account after the others");
        let a = mk.oo(acc);
        check(a.account_num == c + 1, "the account has the next number");
        check(a.owner == K_OWNER && a.market == K_MARKET, "the account is the owner's on this market");
        check(a.delegate == NonZeroPubkeyOption::from(del.map(|_| K_STRANGER)), "its delegate is the one given");
        check(&a.name[..len] == &name[..] && a.name[len..].iter().all(|x| *x == 0), "its name is the one given");
        check(a.open_orders.iter().all(|o| o.is_free == 1), "it has no orders");
        check(a.version == 1 && a.position.is_empty(1), "it holds nothing");
        let p = &a.position;
        check(
            p.bids_base_lots == 0 && p.bids_quote_lots == 0 && p.asks_base_lots == 0 && p.base_free_native == 0 && p.quote_free_native == 0 && p.locked_maker_fees == 0 && p.referrer_rebates_available == 0 && p.penalty_heap_count == 0,
            "it holds nothing",
        );
    }
    cover(ok, "created");
    cover(!ok, "refused");
    cover(true, "end");
}
/// every history of creating and closing: the index lists the open accounts, numbers are not reused
fn index_history(steps: usize, n: u32) {
    let mut mk = Mk::new();
    let (k, _) = owner_index();
    let ix = unused(&mut mk.w, k, 17 + 32 * 8);
    let acc: Vec<usize> = (1..=n).map(|i| unused(&mut mk.w, account_key(i), OpenOrdersAccount::space())).collect();
    let metas = vec![sgw(mk.payer), sg(mk.owner), rw(ix), ro(mk.system_program)];
    check(mk.w.run(&Ix::new(sel::CREATE_OPEN_ORDERS_INDEXER).0, &metas).is_ok(), "an index can be created");
    let (c, l) = listed(&mk.w, ix);
    check(c == 0 && l.is_empty(), "a new index lists nothing");
    let mut open: Vec<u32> = vec![];
    let mut made: Vec<u32> = vec![];
    for _ in 0..steps {
        let who = choice(n as u64) as u32 + 1;
        let a = acc[who as usize - 1];
        if flip() {
            let data = string(Ix::new(sel::CREATE_OPEN_ORDERS_ACCOUNT), b"x");
            let metas = m_create(&mk, ix, a, None);
            let saved: Vec<Acc> = mk.w.accs.clone();
            let ok = mk.w.run(&data.0, &metas).is_ok();
            if !ok {
                mk.w.accs = saved;
            }
            check(!ok || !made.contains(&who), "numbers are not reused");
            check(ok == (who as usize == made.len() + 1), "the next account can be created");
            if ok {
                made.push(who);
                open.push(who);
                check(mk.oo(a).account_num == who, "numbers go up by one");
            }
        } else if open.contains(&who) {
            let metas = vec![sg(mk.owner), rw(ix), rw(a), sgw(mk.payer), ro(mk.system_program)];
            check(mk.w.run(&Ix::new(sel::CLOSE_OPEN_ORDERS_ACCOUNT).0, &metas).is_ok(), "an empty account can be closed");
            open.retain(|x| *x != who);
            cover(true, "closed one");
        } else {
            stop();
        }
        let (c, l) = listed(&mk.w, ix);
        check(c as usize == made.len(), "the counter counts the accounts made");
        check(l.len() == open.len() && open.iter().zip(&l).all(|(n, k)| account_key(*n) == *k), "the index lists the open accounts");
    }
    cover(true, "end");
}
crate::harness! {
    p24_numbers { create_market(24, 0) }
    p24_accounts { create_market(24, 1 + choice(6)) }
    p29_market { create_market(29, 0) }
    p25_market { close_market() }
    p25_account { close_account() }
    p25_index { close_index() }
    p25_create { create_account() }
    p25_history { index_history(4, 3) }
    p25_history_deep { index_history(6, 4) }
}
