//! Resting an order on a side whose storage is full (P27).
use crate::book::*;
use crate::env::*;
use crate::events::returned;
use crate::place::{Po, LIMIT, POST};
use crate::sym::*;
use anchor_lang::prelude::Pubkey;
use openbook_v2::state::*;

/// how good a price is: larger is better
fn price_of(side: Side, x: i64) -> i64 {
    match side {
        Side::Bid => x,
        Side::Ask => 4000 - x,
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Fixed,
    Pegged,
}
use Kind::*;
const TSN: [&str; 3] = ["posted0", "posted1", "posted2"];
const TIFN: [&str; 3] = ["lifetime0", "lifetime1", "lifetime2"];
/// `kinds`: the orders at the bottom of the side; above them as many as fit, `short` fewer
fn full(kinds: &[Kind], lifetimes: bool, short: usize, oracle: bool) {
    let side = if flip() { Side::Bid } else { Side::Ask };
    let mut mk = Mk::new();
    unsafe { NOW = T0 as i64 };
    if oracle {
        mk.with_oracle(100.0);
    }
    let m1 = mk.add_maker(K_MAKER1);
    let pegs = kinds.iter().filter(|k| **k == Pegged).count();
    // a tree of n orders takes 2n - 1 of the 1024 cells, and an order needs up to two
    let fixed = if pegs > 1 { 513 - pegs } else { 512 } - short;
    let fill = fixed - (kinds.len() - pegs);
    for i in 0..fill {
        let p = price_of(side, 100 + (i as i64 * 7) % 1500);
        let l = LeafNode::new(0, mk_key(side, fixed_data(p), 1000 + i as u64), K_MAKER2, 1, 1, 0, -1, 1000 + i as u64);
        mk.side(side).insert_leaf(BookSideOrderTree::Fixed, &l).unwrap();
    }
    let f = fees(&mk, Rates::Oracle);
    let m = mk.mkt();
    m.seq_num = 10_000;
    m.quote_deposit_total = 1 << 50;
    m.base_deposit_total = 1 << 50;
    for a in [mk.base_vault, mk.quote_vault] {
        mk.w.set_amount(a, 1 << 50);
    }
    let mut v: Vec<R> = vec![];
    for (i, k) in kinds.iter().enumerate() {
        // prices, the first two possibly alike
        let x = match i {
            0 => 11,
            1 => [11, 13, 8][choice(3) as usize],
            _ => 20,
        };
        let price = price_of(side, x);
        let mine = i == 0 && flip();
        let (ts, tif) = if lifetimes { (u64r(TSN[i], 1, T0), u16s(TIFN[i])) } else { (1, 0) };
        // ending this very second is left open
        assume(ts + tif as u64 != T0 || tif == 0);
        let peg = *k == Pegged;
        let beyond = peg && !lifetimes && flip();
        let off = price - ORACLE;
        let lim = match (side, beyond) {
            (Side::Bid, false) => price + 6,
            (Side::Bid, true) => price - 3,
            (Side::Ask, false) => price - 6,
            (Side::Ask, true) => price + 3,
        };
        let seq = 100 + i as u64;
        let r = R {
            side,
            peg,
            price,
            peg_limit: if peg { lim } else { -1 },
            qty: i64r(QN[i], 1, QMAX),
            owner: if mine { K_OOA } else { K_MAKER1 },
            slot: i as u8,
            cid: seq,
            ts,
            tif,
            seq,
            key: mk_key(side, if peg { peg_data(off) } else { fixed_data(price) }, seq),
            valid: true,
        };
        own(&mk, if mine { mk.ooa } else { m1 }, &r, &f);
        mk.side(side).insert_leaf(r.tree(), &r.leaf()).unwrap();
        v.push(r);
    }
    let x = [5, 11, 12, 13, 20, 2000][choice(6) as usize];
    let price = price_of(side, x);
    let as_peg = oracle && flip();
    let qty = i64r("size", 1, QMAX);
    let peg = if as_peg { Some((price - ORACLE, if side == Side::Bid { price + 1 } else { price - 1 })) } else { None };
    let po = Po { side: side as u8, price, max_base: qty, max_quote: 1 << 40, cid: 5, ty: if flip() { LIMIT } else { POST }, expiry: 0, stb: 0, limit: 9, peg };
    mk.w.set_amount(mk.user_base, 1 << 50);
    mk.w.set_amount(mk.user_quote, 1 << 50);
    let supplied = flip();
    let mut metas = mk.m_place_order(side, None);
    if supplied {
        metas.push(rw(m1));
    }
    let (b_me, b_mk, b_mkt) = (*mk.me(), *mk.oo(m1), *mk.mkt());
    let ok = mk.w.run(&po.ix().0, &metas).is_ok();

    let ended = |r: &R| (r.tif != 0) & (r.ts + (r.tif as u64) < T0);
    let any_ended = v.iter().any(|r| ended(r));
    let room = short > 0;
    // the worst of those that have a price now: price, then the later one
    let mut worst: Option<usize> = None;
    for (i, r) in v.iter().enumerate() {
        if r.peg && !oracle {
            continue;
        }
        let k = |r: &R| (price_of(side, r.price), u64::MAX - r.seq);
        if worst.map_or(true, |w| k(r) < k(&v[w])) {
            worst = Some(i);
        }
    }
    let w = worst.unwrap();
    let better = price_of(side, price) > price_of(side, v[w].price);
    // the only order of its tree leaves one cell, others two; a new order may need two
    let sole = |r: &R| r.peg && pegs == 1;
    let sole_ended = v.iter().any(|r| sole(r) && ended(r));
    check(!ok | room | any_ended | better, "a full side admits only better orders");
    check(ok | !(room | (any_ended & !sole_ended) | (better & !any_ended & !sole(&v[w]))), "what there is room for is admitted");
    cover(!ok, "refused");
    if ok {
        let b = mk.side(side);
        let gone: Vec<usize> = (0..v.len()).filter(|i| by_cid(&leaves(b, v[*i].tree()).iter().map(|l| (v[*i].tree(), *l)).collect::<Vec<_>>(), v[*i].cid).is_none()).collect();
        let all = all_leaves(b);
        check(all.len() == fill + v.len() - gone.len() + 1, "no other order leaves");
        let new = by_cid(&all, 5);
        check(new.map_or(false, |(t, l)| (l.quantity == qty) & (l.owner == K_OOA) & ((t == BookSideOrderTree::OraclePegged) == as_peg)), "the new order rests");
        if any_ended {
            check(gone.iter().any(|i| ended(&v[*i])), "an ended order leaves");
            if gone.len() != 1 {
                // still full after that
                check(gone.len() == 2 && sole_ended && gone.iter().any(|i| sole(&v[*i])), "one ended order leaves");
                let other = gone.iter().position(|i| !sole(&v[*i]));
                check(other.map_or(false, |g| price_of(side, price) > price_of(side, v[gone[g]].price) && (0..v.len()).all(|i| gone.contains(&i) || v[i].peg || price_of(side, v[i].price) >= price_of(side, v[gone[g]].price))), "then the worst");
                cover(true, "ended and evicted");
            }
            cover(true, "ended one dropped");
        } else if room {
            check(gone.is_empty(), "no order leaves while there is room");
        } else {
            check(gone.len() == 1 && gone[0] == w, "the worst order leaves");
            cover(gone.len() == 1 && v[gone[0]].peg, "pegged evicted");
            cover(true, "evicted");
        }
        for (i, r) in v.iter().enumerate() {
            if !gone.contains(&i) {
                check(by_cid(&all, r.cid).map_or(false, |(t, l)| t == r.tree() && same_leaf(&l, &r.leaf())), "the others stay as they are");
            }
        }
        let (a_me, a_mk, a_mkt) = (*mk.me(), *mk.oo(m1), *mk.mkt());
        let o = outs(mk.heap());
        check(fills(mk.heap()).is_empty(), "nothing trades");
        let queued: Vec<usize> = gone.iter().copied().filter(|i| !supplied && v[*i].owner != K_OOA).collect();
        check(o.len() == queued.len(), "a removal is queued for each account not at hand");
        for i in gone.iter() {
            let r = &v[*i];
            if r.owner == K_OOA {
                // the own slot is free for the new order
                check(a_me.open_orders.iter().all(|s| s.is_free() | (s.client_id != r.cid)), "the own order leaves its slot");
                cover(true, "own");
            } else if supplied {
                if gone.len() == 1 {
                    returned(&a_mk, &b_mk, r, &f);
                }
                check(a_mk.open_orders[r.slot as usize].is_free(), "the order leaves its slot");
            } else {
                let hit = o.iter().any(|e| (e.owner == r.owner) & (e.owner_slot == r.slot) & (e.quantity == r.qty) & (e.side == r.side as u8));
                check(hit, "the removal is that order's");
                check(crate::events::same_position(&a_mk.position, &b_mk.position), "and applied later");
                cover(true, "queued");
            }
        }
        let dq = owed_quote(&a_me.position, &f) + owed_quote(&a_mk.position, &f) - owed_quote(&b_me.position, &f) - owed_quote(&b_mk.position, &f);
        let db = owed_base(&a_me.position, &f) + owed_base(&a_mk.position, &f) - owed_base(&b_me.position, &f) - owed_base(&b_mk.position, &f);
        check(dq == a_mkt.quote_deposit_total as i128 - b_mkt.quote_deposit_total as i128, "quote is conserved");
        check(db == a_mkt.base_deposit_total as i128 - b_mkt.base_deposit_total as i128, "base is conserved");
    }
    cover(true, "end");
}
crate::harness! {
    p27_fixed { full(&[Fixed, Fixed], false, 0, false) }
    p27_mixed { full(&[Fixed, Pegged], false, 0, true) }
    p27_pegged { full(&[Pegged, Pegged], false, 0, true) }
    p27_no_price { full(&[Fixed, Pegged], false, 0, false) }
    p27_room { full(&[Fixed, Pegged], false, 1, true) }
    p27_ended { full(&[Fixed, Fixed], true, 0, false) }
    p27_ended_mixed { full(&[Fixed, Pegged], true, 0, true) }
    p27_three { full(&[Pegged, Fixed, Pegged], true, 0, true) }
}
