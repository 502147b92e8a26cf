//! Order tree, book iteration, event queue, order ids (P01-P05).
use crate::env::pk;
use crate::place::pick;
use crate::sym::*;
use openbook_v2::state::*;

pub fn new_side(t: OrderTreeType) -> &'static mut BookSide {
    let l = std::alloc::Layout::from_size_align(std::mem::size_of::<BookSide>(), 16).unwrap();
    let b = unsafe { &mut *(std::alloc::alloc_zeroed(l) as *mut BookSide) };
    b.nodes.order_tree_type = t.into();
    b
}
fn a_side() -> (OrderTreeType, Side) {
    if flip() {
        (OrderTreeType::Bids, Side::Bid)
    } else {
        (OrderTreeType::Asks, Side::Ask)
    }
}
fn key(n: &str, m: &str) -> u128 {
    ((u64s(n) as u128) << 64) | u64s(m) as u128
}
const KN: [(&str, &str); 8] = [("k0h", "k0l"), ("k1h", "k1l"), ("k2h", "k2l"), ("k3h", "k3l"), ("k4h", "k4l"), ("k5h", "k5l"), ("k6h", "k6l"), ("k7h", "k7l")];
const QN: [&str; 8] = ["q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7"];
const TN: [&str; 8] = ["ts0", "ts1", "ts2", "ts3", "ts4", "ts5", "ts6", "ts7"];
const FN: [&str; 8] = ["tif0", "tif1", "tif2", "tif3", "tif4", "tif5", "tif6", "tif7"];
const PN: [&str; 8] = ["peg0", "peg1", "peg2", "peg3", "peg4", "peg5", "peg6", "peg7"];

/// What a tree is expected to hold
#[derive(Clone, Copy)]
struct Ref {
    on: [bool; 8],
    leaf: [LeafNode; 8],
}
impl Ref {
    fn new() -> Ref {
        Ref { on: [false; 8], leaf: [bytemuck::Zeroable::zeroed(); 8] }
    }
    fn count(&self) -> usize {
        self.on.iter().filter(|x| **x).count()
    }
    fn add(&mut self, l: LeafNode) {
        let t = l.client_order_id as usize;
        self.on[t] = true;
        self.leaf[t] = l;
    }
    fn earliest(&self) -> u64 {
        let mut e = u64::MAX;
        for i in 0..8 {
            if self.on[i] {
                let x = exp(&self.leaf[i]);
                e = if x < e { x } else { e };
            }
        }
        e
    }
}
fn exp(l: &LeafNode) -> u64 {
    if l.time_in_force == 0 {
        u64::MAX
    } else {
        l.timestamp + l.time_in_force as u64
    }
}
fn same(a: &LeafNode, b: &LeafNode) -> bool {
    (a.key == b.key)
        & (a.owner == b.owner)
        & (a.quantity == b.quantity)
        & (a.owner_slot == b.owner_slot)
        & (a.time_in_force == b.time_in_force)
        & (a.timestamp == b.timestamp)
        & (a.peg_limit == b.peg_limit)
        & (a.client_order_id == b.client_order_id)
}
/// The tree holds exactly the expected orders, in key order, and counts them
fn check_tree(b: &mut BookSide, c: BookSideOrderTree, r: &Ref) {
    let was = b.nodes.order_tree_type;
    b.nodes.order_tree_type = OrderTreeType::Bids.into();
    check_walk(b, c, true, r, C1);
    b.nodes.order_tree_type = OrderTreeType::Asks.into();
    check_walk(b, c, false, r, C1);
    b.nodes.order_tree_type = was;
    check(b.root(c).leaf_count as usize == r.count(), "order count");
}
fn check_walk(b: &BookSide, c: BookSideOrderTree, desc: bool, r: &Ref, id: [&'static str; 4]) {
    let mut seen = [false; 8];
    let mut n = 0;
    let mut prev: Option<u128> = None;
    for (_h, l) in b.nodes.iter(b.root(c)) {
        let t = l.client_order_id as usize;
        check(t < 8 && r.on[t] && !seen[t], id[0]);
        seen[t] = true;
        n += 1;
        check(same(l, &r.leaf[t]), id[1]);
        if let Some(p) = prev {
            check(if desc { l.key < p } else { l.key > p }, id[2]);
        }
        prev = Some(l.key);
    }
    check(n == r.count(), id[3]);
}
const C1: [&str; 4] = ["holds only inserted orders, once", "contents unchanged", "key order", "no order lost"];

fn leaf(i: usize, k: u128, q: i64) -> LeafNode {
    LeafNode::new(i as u8 + 3, k, pk(i as u8 + 100), q, 10 + i as u64, 0, -1, i as u64)
}
fn distinct(r: &Ref, k: u128) -> bool {
    let mut d = true;
    for i in 0..8 {
        if r.on[i] {
            d &= r.leaf[i].key != k;
        }
    }
    d
}
fn ins(b: &mut BookSide, c: BookSideOrderTree, r: &mut Ref, l: LeafNode) {
    let res = b.insert_leaf(c, &l);
    match res {
        Ok((h, old)) => {
            check(old.is_none(), "insert replaces nothing");
            match b.nodes.node(h).and_then(|n| n.as_leaf()) {
                Some(x) => check(same(x, &l), "handle names the inserted order"),
                None => check(false, "handle names the inserted order"),
            }
        }
        Err(_) => check(false, "insert succeeds when there is room"),
    }
    r.add(l);
}
/// remove a key that may or may not be present; true when it was
fn rem(b: &mut BookSide, c: BookSideOrderTree, r: &mut Ref, k: u128) -> bool {
    let got = b.remove_by_key(c, k);
    match got {
        Some(l) => {
            let t = l.client_order_id as usize;
            check(t < 8 && r.on[t], "removal returns a stored order");
            check(l.key == k, "removal returns the order asked for");
            check(same(&l, &r.leaf[t]), "removed order is returned unchanged");
            r.on[t] = false;
            true
        }
        None => {
            check(distinct(r, k), "a present order is found and removed");
            false
        }
    }
}

fn ins_n(b: &mut BookSide, c: BookSideOrderTree, r: &mut Ref, from: usize, n: usize) {
    for i in from..from + n {
        let k = key(KN[i].0, KN[i].1);
        assume(distinct(r, k));
        ins(b, c, r, leaf(i, k, i64s(QN[i])));
    }
}


// ------------------------------------------------------------------ P02: the tree is a set
fn p02_body(n: usize, more: usize) {
    let b = new_side(OrderTreeType::Bids);
    let c = BookSideOrderTree::Fixed;
    let mut r = Ref::new();
    no_panic(true);
    ins_n(b, c, &mut r, 0, n);
    check_tree(b, c, &r);
    let hit = rem(b, c, &mut r, key("rkh", "rkl"));
    cover(hit, "removed");
    cover(!hit, "not found");
    check_tree(b, c, &r);
    for i in 0..more {
        ins_n(b, c, &mut r, n + i, 1);
    }
    check_tree(b, c, &r);
    check(b.is_empty() == (r.count() == 0), "emptiness");
    cover(true, "end");
}
/// any three orders, any removal, any further insert; keys unrestricted
#[no_mangle]
pub extern "C" fn p02_tree() {
    p02_body(3, 1)
}
#[no_mangle]
pub extern "C" fn p02_tree_deep() {
    p02_body(4, 1)
}
#[no_mangle]
pub extern "C" fn p02_tree_small() {
    p02_body(2, 1)
}

/// a few key patterns covering every shape of a four-leaf tree, at different bit positions
fn shape_keys(shape: u64) -> [u128; 4] {
    let k: [u128; 4] = match shape {
        0 => [0, 1, 2, 3],
        1 => [0, 1, 2, 4],
        2 => [0, 2, 3, 4],
        3 => [0, 4, 5, 6],
        _ => [0, 4, 6, 7],
    };
    [k[0] << 62, k[1] << 62, k[2] << 62, k[3] << 62]
}
/// the n-th order of the four
fn perm(n: u64) -> [usize; 4] {
    let mut left = [0usize, 1, 2, 3];
    let mut out = [0; 4];
    let mut n = n as usize;
    let mut len = 4;
    for i in 0..4 {
        let j = n % len;
        n /= len;
        out[i] = left[j];
        for m in j..3 {
            left[m] = left[m + 1];
        }
        len -= 1;
    }
    out
}

/// Both trees of a side share storage: interleaved inserts and removals never disturb each other.
fn p02_share_body(shapes: u64, perms: u64) {
    let b = new_side(OrderTreeType::Asks);
    let (f, o) = (BookSideOrderTree::Fixed, BookSideOrderTree::OraclePegged);
    let mut rf = Ref::new();
    let mut ro = Ref::new();
    no_panic(true);
    let ks = shape_keys(choice(shapes));
    let p = perm(choice(perms) * 5 % 24);
    // which of the four go to the pegged tree
    let mask = choice(3);
    let in_peg = |i: usize| match mask {
        0 => i == 1,
        1 => i == 0 || i == 3,
        _ => i == 1 || i == 2,
    };
    for (n, &i) in p.iter().enumerate() {
        let l = leaf(n, ks[i], i64s(QN[n]));
        if in_peg(n) {
            ins(b, o, &mut ro, l)
        } else {
            ins(b, f, &mut rf, l)
        }
    }
    let k = key("rkh", "rkl");
    if flip() {
        let h = rem(b, f, &mut rf, k);
        cover(h, "removed fixed");
    } else {
        let h = rem(b, o, &mut ro, k);
        cover(h, "removed pegged");
    }
    check_tree(b, f, &rf);
    check_tree(b, o, &ro);
    // refill from the freed cells, alternating trees
    ins(b, o, &mut ro, leaf(4, 9 << 64, 5));
    ins(b, f, &mut rf, leaf(5, 10 << 64, 6));
    check_tree(b, f, &rf);
    check_tree(b, o, &ro);
    let used = b.nodes.bump_index as usize - b.nodes.free_list_len as usize;
    let cells = |n: usize| if n == 0 { 0 } else { 2 * n - 1 };
    check(used == cells(rf.count()) + cells(ro.count()), "freed storage is reused");
    cover(true, "end");
}
#[no_mangle]
pub extern "C" fn p02_share() {
    p02_share_body(5, 2)
}
#[no_mangle]
pub extern "C" fn p02_share_deep() {
    p02_share_body(5, 24)
}

/// Storage almost exhausted: inserts succeed exactly while there is room, a failed one changes
/// nothing, and a removal makes room again.
fn p02_full_body(count: usize, least: u32, spread: u64) {
    let b = new_side(OrderTreeType::Bids);
    let c = BookSideOrderTree::Fixed;
    let mut r = Ref::new();
    no_panic(true);
    let n = 1024u32;
    // cells below belong to the side's other tree
    let start = n - least - choice(spread) as u32;
    b.nodes.bump_index = start;
    let mut room = (n - start) as usize;
    let mut fails = 0;
    for i in 0..count {
        let k = ((u64r(KN[i].0, 1, 1 << 40) as u128) << 64) | i as u128;
        let l = leaf(i, k, 1);
        let need = if r.count() == 0 { 1 } else { 2 };
        if !b.is_full() {
            check(room >= need, "not full means there is room");
        }
        match b.insert_leaf(c, &l) {
            Ok(_) => {
                check(room >= need, "an insert needs room");
                room -= need;
                r.add(l);
            }
            Err(_) => {
                check(room < need, "an insert fails only when storage is exhausted");
                fails += 1;
            }
        }
        check_tree(b, c, &r);
    }
    cover(fails > 0, "full");
    cover(fails == 0, "fits");
    // a refused insert takes nothing: the cells left still serve the other tree's first order
    let o = BookSideOrderTree::OraclePegged;
    let first = b.insert_leaf(o, &leaf(7, 99 << 64, 1)).is_ok();
    check(first == (room >= 1), "a refused insert keeps no storage");
    if first {
        check(b.remove_by_key(o, 99 << 64).is_some(), "removable from the other tree");
    }
    if r.count() >= 2 {
        let k = r.leaf[0].key;
        check(rem(b, c, &mut r, k), "removable when full");
        check(!b.is_full(), "removal makes room");
        ins(b, c, &mut r, leaf(6, 77 << 64, 3));
        check_tree(b, c, &r);
    }
    cover(true, "end");
}

#[no_mangle]
pub extern "C" fn p02_full() {
    p02_full_body(3, 0, 6)
}
#[no_mangle]
pub extern "C" fn p02_full_deep() {
    p02_full_body(4, 3, 5)
}

/// Every history of `n` steps over `k` ids, each step inserting the id or removing it if present
fn p02_hist_body(k: u64, n: usize) {
    let b = new_side(OrderTreeType::Asks);
    let c = BookSideOrderTree::Fixed;
    let mut r = Ref::new();
    no_panic(true);
    let ks = shape_keys(if k == 4 { 0 } else { 1 });
    let q = i64s("q0");
    for i in 0..n {
        let t = choice(k) as usize;
        if r.on[t] {
            check(rem(b, c, &mut r, ks[t]), "present");
            cover(r.count() == 0, "emptied");
        } else {
            check(!rem(b, c, &mut r, ks[t]), "absent");
            ins(b, c, &mut r, leaf(t, ks[t], q));
        }
        if i + 1 == n || i % 3 == 2 {
            check_tree(b, c, &r);
        }
        let used = b.nodes.bump_index as usize - b.nodes.free_list_len as usize;
        check(used == if r.count() == 0 { 0 } else { 2 * r.count() - 1 }, "freed storage is reused");
        check(b.nodes.bump_index <= 2 * k as u32 - 1, "freed storage is reused first");
    }
    cover(true, "end");
}
#[no_mangle]
pub extern "C" fn p02_hist3() {
    p02_hist_body(3, 8)
}
#[no_mangle]
pub extern "C" fn p02_hist4() {
    p02_hist_body(4, 8)
}
#[no_mangle]
pub extern "C" fn p02_hist4_deep() {
    p02_hist_body(4, 9)
}
/// Every history of `n` steps over two ids in each tree of a side
fn p02_both_body(n: usize) {
    let b = new_side(OrderTreeType::Bids);
    let cs = [BookSideOrderTree::Fixed, BookSideOrderTree::OraclePegged];
    let mut r = [Ref::new(), Ref::new()];
    no_panic(true);
    let q = i64s("q0");
    for _ in 0..n {
        let t = choice(4) as usize;
        let w = t / 2;
        let k = (t as u128 + 1) << 65;
        if r[w].on[t] {
            check(rem(b, cs[w], &mut r[w], k), "present");
        } else {
            ins(b, cs[w], &mut r[w], leaf(t, k, q));
        }
        check(b.nodes.bump_index <= 6, "freed storage is reused first");
    }
    check_tree(b, cs[0], &r[0]);
    check_tree(b, cs[1], &r[1]);
    cover(true, "end");
}
#[no_mangle]
pub extern "C" fn p02_both() {
    p02_both_body(8)
}
#[no_mangle]
pub extern "C" fn p02_both_deep() {
    p02_both_body(10)
}
/// four orders, removed in any order and put back in another
#[no_mangle]
pub extern "C" fn p02_refill() {
    let b = new_side(OrderTreeType::Bids);
    let c = BookSideOrderTree::Fixed;
    let mut r = Ref::new();
    no_panic(true);
    let ks = shape_keys(choice(5));
    let q = i64s("q0");
    for t in 0..4 {
        ins(b, c, &mut r, leaf(t, ks[t], q));
    }
    for t in perm(choice(24)) {
        check(rem(b, c, &mut r, ks[t]), "present");
    }
    check_tree(b, c, &r);
    for t in perm(choice(8) * 7 % 24) {
        ins(b, c, &mut r, leaf(t, ks[t], q));
    }
    check_tree(b, c, &r);
    check(b.nodes.bump_index == 7, "freed storage is reused");
    cover(true, "end");
}
fn scatter(i: u64) -> u128 {
    let x = (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let x = (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    ((x as u128) << 64) | (i as u128)
}
/// a tree filled to the storage's capacity (512 orders, scattered ids)
#[no_mangle]
pub extern "C" fn p02_big() {
    let b = new_side(OrderTreeType::Asks);
    let (f, o) = (BookSideOrderTree::Fixed, BookSideOrderTree::OraclePegged);
    no_panic(true);
    let mut n = 0u64;
    while n < 512 {
        check(!b.is_full(), "not full");
        check(b.insert_leaf(f, &leaf(0, scatter(n), n as i64)).is_ok(), "insert fails only when full");
        n += 1;
    }
    check(b.is_full(), "full");
    let k = key("kh", "kl");
    let q = i64s("q");
    // one cell is left: only enough for the other, empty tree
    match choice(3) {
        0 => {
            assume(k > scatter(0) && k < scatter(0) + 1000);
            check(b.insert_leaf(f, &leaf(0, k, q)).is_err(), "no room");
        }
        1 => {
            check(b.insert_leaf(o, &leaf(0, k, q)).is_ok(), "room for one");
            let mut c = 0;
            for (_, l) in b.nodes.iter(b.root(o)) {
                check((l.key == k) & (l.quantity == q), "contents unchanged");
                c += 1;
            }
            check(c == 1, "order count");
        }
        _ => {
            let i = choice(6) * 100 + 11;
            let l = b.remove_by_key(f, scatter(i));
            check(matches!(l, Some(l) if l.key == scatter(i) && l.quantity == i as i64), "removal returns the order");
            check(b.remove_by_key(f, scatter(i)).is_none(), "gone");
            check(!b.is_full(), "room again");
            check(b.insert_leaf(f, &leaf(0, scatter(i), i as i64)).is_ok(), "room again");
            cover(true, "churn");
        }
    }
    let mut sum = 0u64;
    let mut c = 0;
    let mut prev = 0u128;
    for (_, l) in b.nodes.iter(b.root(f)) {
        check(l.key > prev, "key order");
        check(l.key == scatter(l.quantity as u64), "contents unchanged");
        prev = l.key;
        sum += l.quantity as u64;
        c += 1;
    }
    check(c == 512 && b.root(f).leaf_count == 512 && sum == 511 * 256, "no order lost");
    cover(true, "end");
}
/// ids that make the tree as deep as its ids have bits
fn chain(i: u64, ones: bool) -> u128 {
    let k = if i < 128 { 1u128 << (127 - i) } else { 0 };
    if ones {
        !k
    } else {
        k
    }
}
/// the deepest tree there is: 129 orders, 128 levels; any id is removed from it
#[no_mangle]
pub extern "C" fn p02_chain() {
    let (t, s) = a_side();
    let b = new_side(t);
    no_panic(true);
    let (ones, up) = (flip(), flip());
    let c = if up { BookSideOrderTree::Fixed } else { BookSideOrderTree::OraclePegged };
    for i in 0..129 {
        let i = if up { i } else { 128 - i };
        check(b.insert_leaf(c, &leaf(0, chain(i, ones), i as i64)).is_ok(), "insert succeeds when there is room");
    }
    let k = key("kh", "kl");
    let mut gone = 129;
    match b.remove_by_key(c, k) {
        Some(l) => {
            gone = l.quantity as u64;
            check((l.key == k) & (chain(gone, ones) == k), "removal returns the order asked for");
            check(b.remove_by_key(c, k).is_none(), "gone");
            cover(true, "removed");
        }
        None => {
            let mut there = false;
            for i in 0..129 {
                there |= chain(i, ones) == k;
            }
            check(!there, "a present order is found and removed");
            cover(true, "not found");
        }
    }
    // best first
    let falling = (s == Side::Bid) != ones;
    let mut n = 0;
    for i in 0..129 {
        n += (i != gone) as u32;
    }
    check(b.root(c).leaf_count == n, "order count");
    let mut it = b.nodes.iter(b.root(c));
    for i in 0..129 {
        let i = if falling { i } else { 128 - i };
        if i == gone {
            continue;
        }
        match it.next() {
            Some((_, l)) => check((l.quantity == i as i64) & (l.key == chain(i, ones)), "key order"),
            None => check(false, "no order lost"),
        }
    }
    check(it.next().is_none(), "holds only inserted orders, once");
    cover(true, "end");
}
/// putting an id that is already there replaces that order only
#[no_mangle]
pub extern "C" fn p02_same() {
    let b = new_side(OrderTreeType::Bids);
    let c = BookSideOrderTree::Fixed;
    let mut r = Ref::new();
    no_panic(true);
    let ks = shape_keys(choice(5));
    for t in 0..4 {
        ins(b, c, &mut r, exp_leaf(t, ks[t]));
    }
    let t = choice(4) as usize;
    let mut l = exp_leaf(4, ks[t]);
    l.client_order_id = t as u64;
    match b.insert_leaf(c, &l) {
        Ok((_, Some(old))) => check(same(&old, &r.leaf[t]), "the replaced order is returned"),
        _ => check(false, "the replaced order is returned"),
    }
    r.add(l);
    check_tree(b, c, &r);
    check_earliest(b, c, &r);
    cover(true, "end");
}

/// Worst order of a tree, and inserting an id that is already there
#[no_mangle]
pub extern "C" fn p02_worst() {
    let (t, s) = a_side();
    let b = new_side(t);
    let c = BookSideOrderTree::Fixed;
    let mut r = Ref::new();
    no_panic(true);
    ins_n(b, c, &mut r, 0, 3);
    let mut root = *b.root(c);
    let got = b.nodes.remove_worst(&mut root);
    *b.root_mut(c) = root;
    match got {
        None => check(false, "a worst order exists"),
        Some(l) => {
            let t = l.client_order_id as usize;
            check(t < 3 && same(&l, &r.leaf[t]), "worst order is a stored one");
            for i in 0..3 {
                if i != t {
                    check(if s == Side::Bid { l.key < r.leaf[i].key } else { l.key > r.leaf[i].key }, "worst order is last in priority");
                }
            }
            r.on[t] = false;
        }
    }
    check_tree(b, c, &r);
    cover(true, "end");
}

// ------------------------------------------------------------------ P03: earliest expiry
fn exp_leaf(i: usize, k: u128) -> LeafNode {
    LeafNode::new(i as u8 + 3, k, pk(i as u8 + 100), 1, u64r(TN[i], 0, 1 << 62), u16s(FN[i]), -1, i as u64)
}
fn check_earliest(b: &BookSide, c: BookSideOrderTree, r: &Ref) {
    match b.nodes.find_earliest_expiry(b.root(c)) {
        None => check(r.count() == 0, "earliest expiry reported for a non-empty tree"),
        Some((h, e)) => {
            check(r.count() > 0, "earliest expiry only for a non-empty tree");
            check(e == r.earliest(), "earliest expiry is the minimum");
            match b.nodes.node(h).and_then(|n| n.as_leaf()) {
                Some(l) => check(exp(l) == e, "earliest handle is that order"),
                None => check(false, "earliest handle is that order"),
            }
        }
    }
}
fn p03_body(shapes: u64, perms: u64, step: u64, again: bool) {
    let b = new_side(OrderTreeType::Asks);
    let c = BookSideOrderTree::Fixed;
    let mut r = Ref::new();
    no_panic(true);
    let ks = shape_keys(choice(shapes));
    let p = perm(choice(perms) * step % 24);
    for (n, &i) in p.iter().enumerate() {
        ins(b, c, &mut r, exp_leaf(n, ks[i]));
    }
    check_earliest(b, c, &r);
    let v = choice(4) as usize;
    check(rem(b, c, &mut r, ks[v]), "present");
    check_earliest(b, c, &r);
    if again {
        let v2 = (v + 1 + choice(3) as usize) % 4;
        check(rem(b, c, &mut r, ks[v2]), "present");
        check_earliest(b, c, &r);
    } else {
        ins(b, c, &mut r, exp_leaf(4, ks[v]));
        check_earliest(b, c, &r);
    }
    cover(r.earliest() == u64::MAX, "none expires");
    cover(r.earliest() < u64::MAX, "one expires");
    cover(true, "end");
}
#[no_mangle]
pub extern "C" fn p03_expiry() {
    p03_body(5, 4, 7, false)
}
#[no_mangle]
pub extern "C" fn p03_expiry_rem() {
    p03_body(5, 2, 13, true)
}
#[no_mangle]
pub extern "C" fn p03_expiry_deep() {
    p03_body(5, 24, 1, false)
}
#[no_mangle]
pub extern "C" fn p03_expiry_rem_deep() {
    p03_body(5, 24, 1, true)
}

/// two orders that expire, at any depth of the deepest tree there is
#[no_mangle]
pub extern "C" fn p03_chain() {
    let b = new_side(OrderTreeType::Bids);
    let c = BookSideOrderTree::Fixed;
    no_panic(true);
    let ones = flip();
    let v = pick(&[0, 1, 7, 8, 31, 33, 63, 64, 65, 100, 127, 128]);
    let w = (v + pick(&[1, 2, 40])) % 129;
    let at = |i: u64, n: usize| LeafNode::new(0, chain(i, ones), pk(1), 1, u64r(TN[n], 0, 1 << 62), u16s(FN[n]), -1, i);
    let (lv, lw) = (at(v, 0), at(w, 1));
    let first = flip();
    if first {
        let _ = b.insert_leaf(c, &lv);
    }
    for i in 0..129 {
        if i != v && i != w {
            let _ = b.insert_leaf(c, &leaf(0, chain(i, ones), 1));
        }
    }
    if !first {
        let _ = b.insert_leaf(c, &lv);
    }
    let _ = b.insert_leaf(c, &lw);
    let (ev, ew) = (exp(&lv), exp(&lw));
    let mut earliest = |b: &BookSide, want: u64| match b.nodes.find_earliest_expiry(b.root(c)) {
        Some((h, e)) => {
            check(e == want, "earliest expiry is the minimum");
            match b.nodes.node(h).and_then(|n| n.as_leaf()) {
                Some(l) => check(exp(l) == e, "earliest handle is that order"),
                None => check(false, "earliest handle is that order"),
            }
        }
        None => check(false, "earliest expiry reported for a non-empty tree"),
    };
    earliest(b, if ev < ew { ev } else { ew });
    check(b.remove_by_key(c, lv.key).is_some(), "present");
    earliest(b, ew);
    check(b.remove_by_key(c, lw.key).is_some(), "present");
    earliest(b, u64::MAX);
    cover(true, "end");
}

/// two orders with the same expiry: removing one must not forget the other (keys symbolic)
#[no_mangle]
pub extern "C" fn p03_keys() {
    let b = new_side(OrderTreeType::Bids);
    let c = BookSideOrderTree::Fixed;
    let mut r = Ref::new();
    no_panic(true);
    for i in 0..3 {
        let k = key(KN[i].0, KN[i].1);
        assume(distinct(&r, k));
        if i > 0 {
            assume(k > r.leaf[i - 1].key);
        }
        ins(b, c, &mut r, exp_leaf(i, k));
        check_earliest(b, c, &r);
    }
    let v = choice(3) as usize;
    let k = r.leaf[v].key;
    check(rem(b, c, &mut r, k), "present");
    check_earliest(b, c, &r);
    cover(true, "end");
}

/// every history of `n` steps over `k` ids, with any expiries
fn p03_hist_body(k: u64, n: usize) {
    let b = new_side(OrderTreeType::Asks);
    let c = BookSideOrderTree::Fixed;
    let mut r = Ref::new();
    no_panic(true);
    let ks = shape_keys(0);
    for i in 0..n {
        // the first ids only up to symmetry
        let t = if i == 0 { 0 } else { choice(k) as usize };
        if r.on[t] {
            check(rem(b, c, &mut r, ks[t]), "present");
        } else {
            let mut l = exp_leaf(i, ks[t]);
            l.client_order_id = t as u64;
            ins(b, c, &mut r, l);
        }
    }
    check_earliest(b, c, &r);
    cover(r.count() == 0, "emptied");
    cover(true, "end");
}
#[no_mangle]
pub extern "C" fn p03_hist() {
    p03_hist_body(3, 5)
}
#[no_mangle]
pub extern "C" fn p03_hist_deep() {
    p03_hist_body(4, 7)
}

/// dropping one expired order from either tree
#[no_mangle]
pub extern "C" fn p03_drop() {
    let b = new_side(OrderTreeType::Asks);
    let (f, o) = (BookSideOrderTree::Fixed, BookSideOrderTree::OraclePegged);
    let mut rf = Ref::new();
    let mut ro = Ref::new();
    no_panic(true);
    let (nf, np) = match choice(4) {
        0 => (2, 1),
        1 => (0, 2),
        2 => (2, 0),
        _ => (1, 1),
    };
    for i in 0..nf {
        ins(b, f, &mut rf, exp_leaf(i, ((i as u128 + 1) << 64) + 1));
    }
    for i in 0..np {
        ins(b, o, &mut ro, exp_leaf(i + 3, ((i as u128 + 1) << 64) + 1));
    }
    let now = u64s("now");
    let first = flip();
    let (ef, eo) = (rf.earliest(), ro.earliest());
    let got = b.remove_one_expired(if first { f } else { o }, now);
    let any = (ef < now) | (eo < now);
    match got {
        Some(l) => {
            let t = l.client_order_id as usize;
            check(exp(&l) < now, "only an expired order is dropped");
            check((rf.on[t] && same(&l, &rf.leaf[t])) || (ro.on[t] && same(&l, &ro.leaf[t])), "a stored order is dropped");
            let from_f = rf.on[t];
            cover(from_f, "dropped fixed");
            cover(!from_f, "dropped pegged");
            check(if first { from_f || !(ef < now) } else { !from_f || !(eo < now) }, "asked-for tree first");
            rf.on[t] = false;
            ro.on[t] = false;
        }
        None => {
            check(!any, "an expired order is found");
            cover(true, "none dropped");
        }
    }
    check_tree(b, f, &rf);
    check_tree(b, o, &ro);
    cover(true, "end");
}

// ------------------------------------------------------------------ P01: walking the book
struct Exp {
    leaf: LeafNode,
    peg: bool,
    /// price exists
    shown: bool,
    price: i128,
    valid: bool,
    seq: u64,
}
/// up to `nf` fixed and `np` pegged orders with any prices, in any priority
fn book(nf: usize, np: usize, t: OrderTreeType, s: Side, oracle: Option<i64>, now: u64, wide: bool) -> (&'static mut BookSide, Vec<Exp>) {
    let b = new_side(t);
    let mut v: Vec<Exp> = Vec::with_capacity(8);
    let mut last: u128 = 0;
    for i in 0..nf + np {
        let peg = i >= nf;
        if i == nf {
            last = 0;
        }
        let seq = u64s(KN[i].1);
        for e in v.iter() {
            assume(e.seq != seq);
        }
        let tif = u16s(FN[i]);
        let ts = u64r(TN[i], 0, 1 << 62);
        let qty = i64r(QN[i], 1, 1 << 40);
        let expired = tif > 0 && now >= ts + tif as u64;
        let (k, l, shown, price, valid);
        if peg {
            let off = if wide { i64s(KN[i].0) } else { i64r(KN[i].0, -(1 << 40), 1 << 40) };
            let lim = i64s(PN[i]);
            assume(lim == -1 || lim >= 1);
            k = new_node_key(s, oracle_pegged_price_data(off), seq);
            l = LeafNode::new(1, k, pk(i as u8 + 100), qty, ts, tif, lim, i as u64);
            match oracle {
                Some(or) => {
                    price = or as i128 + off as i128;
                    shown = (price >= 1) & (price < i64::MAX as i128);
                    let beyond = lim != -1 && (if s == Side::Bid { price > lim as i128 } else { price < lim as i128 });
                    valid = !expired & !beyond;
                }
                None => {
                    price = 0;
                    shown = false;
                    valid = false;
                }
            }
        } else {
            let p = i64r(KN[i].0, 1, i64::MAX);
            k = new_node_key(s, p as u64, seq);
            l = LeafNode::new(1, k, pk(i as u8 + 100), qty, ts, tif, -1, i as u64);
            shown = true;
            price = p as i128;
            valid = !expired;
        }
        // which of two equal trees results does not depend on the order of insertion
        assume(k > last);
        last = k;
        if b.insert_leaf(if peg { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed }, &l).is_err() {
            check(false, "insert");
        }
        v.push(Exp { leaf: l, peg, shown, price, valid, seq });
    }
    (b, v)
}
fn better(s: Side, a: &Exp, b: &Exp) -> bool {
    (if s == Side::Bid { a.price > b.price } else { a.price < b.price }) | ((a.price == b.price) & (a.seq < b.seq))
}
fn p01_walk_body(nf: usize, np: usize, with_oracle: bool) {
    let (t, s) = a_side();
    let oracle = if with_oracle { Some(i64r("oracle", 1, i64::MAX)) } else { None };
    let now = u64s("now");
    no_panic(true);
    let (b, v) = book(nf, np, t, s, oracle, now, true);
    let mut seen = [false; 8];
    let mut prev: Option<usize> = None;
    for it in b.iter_all_including_invalid(now, oracle) {
        let t = it.node.client_order_id as usize;
        check(t < v.len() && !seen[t], "each order once");
        seen[t] = true;
        let e = &v[t];
        check(same(it.node, &e.leaf), "the order itself");
        check(e.shown, "unmatchable pegged orders are passed over");
        check(it.price_lots as i128 == e.price, "current price");
        check(it.is_valid() == e.valid, "valid unless expired or beyond peg limit");
        check((it.handle.order_tree == BookSideOrderTree::OraclePegged) == e.peg, "kind");
        if let Some(p) = prev {
            check(better(s, &v[p], e), "best first, then earliest");
        }
        cover(!it.is_valid(), "invalid");
        prev = Some(t);
    }
    for i in 0..v.len() {
        if !seen[i] {
            check(!v[i].shown, "no matchable order is hidden");
            cover(v[i].peg, "skipped");
        }
    }
    cover(true, "end");
}
#[no_mangle]
pub extern "C" fn p01_walk() {
    p01_walk_body(1, 2, true)
}
#[no_mangle]
pub extern "C" fn p01_walk_f() {
    p01_walk_body(2, 1, true)
}
#[no_mangle]
pub extern "C" fn p01_walk_none() {
    p01_walk_body(2, 1, false)
}
#[no_mangle]
pub extern "C" fn p01_walk_deep() {
    p01_walk_body(2, 2, true)
}
#[no_mangle]
pub extern "C" fn p01_walk_peg3() {
    p01_walk_body(1, 3, true)
}

/// best price, quantity at price, impact price and worst order agree with the walk
fn p01_query_body(nf: usize, np: usize) {
    let (t, s) = a_side();
    let or = i64r("oracle", 1, i64::MAX);
    let now = u64s("now");
    no_panic(true);
    let (b, v) = book(nf, np, t, s, Some(or), now, true);
    let live = |e: &Exp| e.shown & e.valid;
    match choice(4) {
        0 => match b.best_price(now, Some(or)) {
            Some(p) => {
                let mut any = false;
                for e in &v {
                    any |= live(e) & (e.price == p as i128);
                    check(!live(e) | (if s == Side::Bid { e.price <= p as i128 } else { e.price >= p as i128 }), "best price is not beaten");
                }
                check(any, "best price is some order's");
                cover(true, "best");
            }
            None => {
                for e in &v {
                    check(!live(e), "no best price only without orders");
                }
                cover(true, "no best");
            }
        },
        1 => {
            let lim = i64r("limit", 1, i64::MAX);
            let q = b.quantity_at_price(lim, now, or);
            let mut sum = 0i64;
            for e in &v {
                let reach = if s == Side::Bid { e.price >= lim as i128 } else { e.price <= lim as i128 };
                sum += if live(e) & reach { e.leaf.quantity } else { 0 };
            }
            check(q == sum, "quantity at price");
            cover(q > 0, "quantity");
        }
        2 => {
            let want = i64r("want", 1, 1 << 45);
            let mut total = 0i64;
            for e in &v {
                total += if live(e) { e.leaf.quantity } else { 0 };
            }
            match b.impact_price(want, now, or) {
                Some(p) => {
                    let (mut at, mut better_than) = (0i64, 0i64);
                    for e in &v {
                        let r = if s == Side::Bid { e.price >= p as i128 } else { e.price <= p as i128 };
                        let st = if s == Side::Bid { e.price > p as i128 } else { e.price < p as i128 };
                        at += if live(e) & r { e.leaf.quantity } else { 0 };
                        better_than += if live(e) & st { e.leaf.quantity } else { 0 };
                    }
                    check((at >= want) & (better_than < want), "impact price");
                    cover(true, "impact");
                }
                None => check(total < want, "impact price exists when there is enough"),
            }
        }
        _ => {
            // worst order: the last of the walk, when no order is passed over
            let mut all = true;
            for e in &v {
                all &= e.shown;
            }
            assume(all);
            match b.remove_worst(now, Some(or)) {
                Some((l, p)) => {
                    let t = l.client_order_id as usize;
                    check(t < v.len() && same(&l, &v[t].leaf), "worst is an order");
                    check(p as i128 == v[t].price, "worst order's price");
                    for (i, e) in v.iter().enumerate() {
                        if i != t {
                            check(better(s, e, &v[t]), "worst is last of the walk");
                        }
                    }
                    cover(true, "worst");
                    cover(v[t].peg, "worst pegged");
                }
                None => check(false, "a worst order exists"),
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn p01_query() {
    p01_query_body(1, 1)
}
#[no_mangle]
pub extern "C" fn p01_query_2() {
    p01_query_body(2, 0)
}
#[no_mangle]
pub extern "C" fn p01_query_deep() {
    p01_query_body(1, 2)
}
#[no_mangle]
pub extern "C" fn p01_query_deep2() {
    p01_query_body(2, 1)
}

/// 127 orders whose ids make either tree as deep as it gets; pegged ones run into skipped ones
#[no_mangle]
pub extern "C" fn p01_chain() {
    let (t, s) = a_side();
    let b = new_side(t);
    no_panic(true);
    let (ones, peg) = (flip(), flip());
    let c = if peg { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed };
    let oracle = i64r("oracle", 1, 1 << 61);
    let now = u64s("now");
    let id = |i: u64| {
        let k = if i < 62 {
            1u128 << (126 - i)
        } else if i < 126 {
            (1u128 << 64) | 1u128 << (125 - i)
        } else {
            1u128 << 64
        };
        match (peg, ones) {
            (false, false) => k,
            (false, true) => k ^ ((1 << 127) - 1),
            (true, false) => k | 1 << 127,
            (true, true) => k ^ ((1 << 127) - 1),
        }
    };
    let price = |i: u64| {
        let d = (id(i) >> 64) as u64;
        if peg {
            oracle as i128 + d as i128 - (1i128 << 63)
        } else {
            d as i128
        }
    };
    for i in 0..127 {
        let l = LeafNode::new(0, id(i), pk(1), i as i64, 5, 0, -1, i);
        check(b.insert_leaf(c, &l).is_ok(), "insert succeeds when there is room");
    }
    let falling = (s == Side::Bid) != ones;
    let mut it = b.iter_all_including_invalid(now, Some(oracle));
    let mut last = None;
    for i in 0..127 {
        let i = if falling { i } else { 126 - i };
        if price(i) < 1 {
            cover(true, "skipped");
            continue;
        }
        match it.next() {
            Some(x) => {
                check(x.node.client_order_id == i && x.node.quantity == i as i64, "best first, then earliest");
                check((x.price_lots as i128 == price(i)) & x.is_valid(), "current price");
                last = Some(i);
            }
            None => check(false, "no matchable order is hidden"),
        }
    }
    check(it.next().is_none(), "each order once");
    if let Some(i) = last {
        if !(peg && ones) {
            match b.remove_worst(now, Some(oracle)) {
                Some((l, p)) => check((l.client_order_id == i) & (p as i128 == price(i)), "worst is last of the walk"),
                None => check(false, "a worst order exists"),
            }
            cover(true, "worst");
        }
    }
    cover(true, "end");
}
/// 16 fixed and 16 pegged orders: any oracle price slides the pegged ones across the fixed ones
#[no_mangle]
pub extern "C" fn p01_slide() {
    let (t, s) = a_side();
    let b = new_side(t);
    no_panic(true);
    let (f, o) = (BookSideOrderTree::Fixed, BookSideOrderTree::OraclePegged);
    let oracle = i64r("oracle", 1, 1 << 40);
    let now = u64s("now");
    let (step, gap) = (pick(&[3, 5]), 10u64);
    let fixed = |i: u64| 1000 + i * gap;
    let off = |i: u64| i as i64 * step as i64 - 30;
    for n in 0..16 {
        // insertion order unlike priority
        let i = (n * 7 + 3) % 16;
        let l = LeafNode::new(0, (fixed(i) as u128) << 64 | (40 + i) as u128, pk(1), 1, 5, 0, -1, i);
        check(b.insert_leaf(f, &l).is_ok(), "insert succeeds when there is room");
        let l = LeafNode::new(0, ((off(i) as i128 + (1i128 << 63)) as u128) << 64 | (10 + i) as u128, pk(1), 1, 5, 0, -1, 16 + i);
        check(b.insert_leaf(o, &l).is_ok(), "insert succeeds when there is room");
    }
    let (mut nf, mut np) = (0, 0);
    let mut skipped = 0;
    if s == Side::Ask {
        while np < 16 && oracle + off(np) < 1 {
            np += 1;
        }
        skipped = np;
    }
    let mut prev: Option<i64> = None;
    for x in b.iter_all_including_invalid(now, Some(oracle)) {
        let id = x.node.client_order_id;
        let p = if id >= 16 {
            let i = if s == Side::Ask { np } else { 15 - np };
            check(i < 16 && id == 16 + i, "best first, then earliest");
            np += 1;
            oracle + off(id - 16)
        } else {
            let i = if s == Side::Ask { nf } else { 15 - nf };
            check(i < 16 && id == i, "best first, then earliest");
            nf += 1;
            fixed(id) as i64
        };
        check((x.price_lots == p) & (p >= 1), "current price");
        if let Some(q) = prev {
            check(if s == Side::Ask { p >= q } else { p <= q }, "best first, then earliest");
        }
        prev = Some(p);
    }
    check(nf == 16, "no matchable order is hidden");
    if s == Side::Bid {
        while np < 16 && oracle + off(15 - np) < 1 {
            np += 1;
            skipped += 1;
        }
    }
    check(np == 16, "no matchable order is hidden");
    cover(skipped > 1, "skipped");
    cover(true, "end");
}

// ------------------------------------------------------------------ P04: the event queue
fn new_heap() -> &'static mut EventHeap {
    let l = std::alloc::Layout::from_size_align(std::mem::size_of::<EventHeap>(), 16).unwrap();
    let h = unsafe { &mut *(std::alloc::alloc_zeroed(l) as *mut EventHeap) };
    h.init();
    h
}
fn event(tag: u8, body: u64) -> AnyEvent {
    let mut e = AnyEvent { event_type: tag, padding: [0; 143] };
    e.padding[7..15].copy_from_slice(&body.to_le_bytes());
    e.padding[135..143].copy_from_slice(&body.to_le_bytes());
    e
}
fn body(e: &AnyEvent) -> u64 {
    u64::from_le_bytes(e.padding[7..15].try_into().unwrap())
}
fn body2(e: &AnyEvent) -> u64 {
    u64::from_le_bytes(e.padding[135..143].try_into().unwrap())
}
/// the events expected, oldest first: (tag, body, slot)
struct Q {
    v: Vec<(u8, u64, usize)>,
}
fn same_event(e: &AnyEvent, x: (u8, u64, usize)) -> bool {
    (e.event_type == x.0) & (body(e) == x.1) & (body2(e) == x.1)
}
fn check_heap(h: &EventHeap, q: &Q) {
    check(h.len() == q.v.len(), "length");
    check(h.is_empty() == q.v.is_empty(), "emptiness");
    check(h.is_full() == (q.v.len() == 600), "fullness");
    let mut n = 0;
    for (e, slot) in h.iter() {
        if n >= q.v.len() {
            check(false, "nothing else queued");
            break;
        }
        check(same_event(e, q.v[n]), "oldest first, unchanged");
        check(slot == q.v[n].2, "stays in its slot");
        match h.at_slot(slot) {
            Some(x) => check(same_event(x, q.v[n]), "slot holds the event"),
            None => check(false, "slot holds the event"),
        }
        n += 1;
    }
    check(n == q.v.len(), "nothing lost");
    match h.front() {
        Some(e) => check(!q.v.is_empty() && same_event(e, q.v[0]), "front is the oldest"),
        None => check(q.v.is_empty(), "front of a non-empty queue"),
    }
}
fn push(h: &mut EventHeap, q: &mut Q, tag: u8, body: u64) {
    let before = h.header.seq_num;
    h.push_back(event(tag, body));
    check(h.header.seq_num == before + 1, "event number advances");
    // where did it go: a slot that was free before
    let mut last = None;
    for (_, s) in h.iter() {
        last = Some(s);
    }
    let slot = last.unwrap_or(9999);
    check(slot < 600 && q.v.iter().all(|x| x.2 != slot), "a new event gets a free slot");
    q.v.push((tag, body, slot));
}
fn take(h: &mut EventHeap, q: &mut Q, slot: usize) -> bool {
    let pos = q.v.iter().position(|x| x.2 == slot);
    match (h.delete_slot(slot), pos) {
        (Ok(e), Some(p)) => {
            check(same_event(&e, q.v[p]), "deletion returns the stored event");
            q.v.remove(p);
            check(h.at_slot(slot).is_none(), "slot is free afterwards");
            true
        }
        (Ok(_), None) => {
            check(false, "deleting a free slot fails");
            false
        }
        (Err(_), Some(_)) => {
            check(false, "deleting a used slot succeeds");
            false
        }
        (Err(_), None) => false,
    }
}
const BN: [&str; 8] = ["b0", "b1", "b2", "b3", "b4", "b5", "b6", "b7"];
fn a_slot(q: &Q) -> usize {
    // used slots, a free one, or one out of range
    let s = u64s("slot");
    let hi = q.v.iter().map(|x| x.2).max().unwrap_or(0) as u64 + 1;
    assume(s <= hi || s >= 600);
    if s >= 600 {
        s as usize
    } else {
        concrete(s) as usize
    }
}
fn p04_body(start: usize, ops: usize) {
    let h = new_heap();
    let mut q = Q { v: Vec::with_capacity(16) };
    no_panic(true);
    for i in 0..start {
        push(h, &mut q, i as u8, u64s(BN[i]));
    }
    for i in 0..ops {
        match choice(3) {
            0 => push(h, &mut q, (start + i) as u8, u64s(BN[start + i])),
            1 => {
                let had = !q.v.is_empty();
                match h.pop_front() {
                    Ok(e) => {
                        check(had && same_event(&e, q.v[0]), "pop returns the oldest");
                        q.v.remove(0);
                        cover(true, "popped");
                    }
                    Err(_) => {
                        check(!had, "pop fails only when empty");
                        cover(true, "pop of empty");
                    }
                }
            }
            _ => {
                let s = a_slot(&q);
                let ok = take(h, &mut q, s);
                cover(ok, "deleted");
                cover(!ok, "delete refused");
            }
        }
        check_heap(h, &q);
    }
    cover(true, "end");
}
#[no_mangle]
pub extern "C" fn p04_ops() {
    p04_body(3, 3)
}
#[no_mangle]
pub extern "C" fn p04_ops_empty() {
    p04_body(0, 5)
}
#[no_mangle]
pub extern "C" fn p04_ops_deep() {
    p04_body(2, 6)
}

/// the queue close to its capacity
#[no_mangle]
pub extern "C" fn p04_full() {
    let h = new_heap();
    let mut q = Q { v: Vec::with_capacity(600) };
    no_panic(true);
    let n = 598 + choice(3) as usize;
    for i in 0..n {
        h.push_back(event(i as u8, i as u64));
    }
    for (e, s) in h.iter() {
        q.v.push((e.event_type, body(e), s));
    }
    check(q.v.len() == n, "all queued");
    for i in 0..n {
        check(q.v[i].1 == i as u64, "oldest first");
    }
    check(h.is_full() == (n == 600), "fullness");
    // free some slot, then refill and drain around the end
    let s = u64s("slot");
    assume(s < 2 || s == 300 || (s >= 597 && s <= 601));
    let s = concrete(s) as usize;
    let ok = take(h, &mut q, s);
    cover(ok, "deleted");
    cover(!ok, "refused");
    let mut tag = 0u64;
    while q.v.len() < 600 {
        h.push_back(event(7, 1000 + tag));
        tag += 1;
        let mut last = 9999;
        for (_, s) in h.iter() {
            last = s;
        }
        q.v.push((7, 999 + tag, last));
    }
    check_heap(h, &q);
    check(h.is_full(), "full");
    for i in 0..3 {
        match h.pop_front() {
            Ok(e) => check(same_event(&e, q.v[i]), "pop returns the oldest"),
            Err(_) => check(false, "pop of a full queue"),
        }
    }
    check(h.len() == 597, "length");
    cover(true, "end");
}
/// a push into a full queue is refused (the program aborts, so nothing is written)
#[no_mangle]
pub extern "C" fn p04_refuse() {
    let h = new_heap();
    for i in 0..600 {
        h.push_back(event(i as u8, i as u64));
    }
    cover(true, "full");
    h.push_back(event(1, u64s("b")));
    check(false, "a push into a full queue is refused");
}

// ------------------------------------------------------------------ P05: order ids
pub fn zero_market() -> &'static mut Market {
    let l = std::alloc::Layout::from_size_align(std::mem::size_of::<Market>(), 16).unwrap();
    unsafe { &mut *(std::alloc::alloc_zeroed(l) as *mut Market) }
}
#[no_mangle]
pub extern "C" fn p05_keys() {
    let (_, s) = a_side();
    let m = zero_market();
    no_panic(true);
    m.seq_num = u64r("seq", 0, u64::MAX - 8);
    let peg = flip();
    let (a, b) = if peg { (i64s("price_a"), i64s("price_b")) } else { (i64r("price_a", 1, i64::MAX), i64r("price_b", 1, i64::MAX)) };
    let data = |p: i64| {
        if peg {
            oracle_pegged_price_data(p)
        } else {
            match fixed_price_data(p) {
                Ok(d) => d,
                Err(_) => {
                    check(false, "positive prices are accepted");
                    0
                }
            }
        }
    };
    let (da, db) = (data(a), data(b));
    let ka = m.gen_order_id(s, da);
    // other orders in between
    if flip() {
        m.gen_order_id(if flip() { Side::Bid } else { Side::Ask }, u64s("other"));
    }
    let kb = m.gen_order_id(s, db);
    check(ka != kb, "ids differ");
    let first = if s == Side::Bid { ka > kb } else { ka < kb };
    let want = if s == Side::Bid { a >= b } else { a <= b };
    check(first == want, "price first, then arrival");
    let l = LeafNode::new(0, ka, pk(1), 1, 0, 0, -1, 0);
    if peg {
        check(oracle_pegged_price_offset(l.price_data()) == a, "offset reads back");
    } else {
        check(fixed_price_lots(l.price_data()) == a, "price reads back");
    }
    cover(a == b, "equal prices");
    cover(peg, "pegged");
    cover(true, "end");
}
#[no_mangle]
pub extern "C" fn p05_nonpositive() {
    let p = i64s("price");
    no_panic(true);
    match fixed_price_data(p) {
        Ok(d) => {
            check(p >= 1, "non-positive prices are refused");
            check(fixed_price_lots(d) == p, "price reads back");
            cover(true, "ok");
        }
        Err(_) => {
            check(p < 1, "positive prices are accepted");
            cover(true, "refused");
        }
    }
}
/// the market's counter never repeats an id, whatever the side and kind
#[no_mangle]
pub extern "C" fn p05_unique() {
    let m = zero_market();
    no_panic(true);
    m.seq_num = u64r("seq", 0, u64::MAX - 8);
    let n0 = m.seq_num;
    let (_, s1) = a_side();
    let (_, s2) = a_side();
    let a = m.gen_order_id(s1, u64s("pa"));
    let n1 = m.seq_num;
    let b = m.gen_order_id(s2, u64s("pb"));
    let n2 = m.seq_num;
    check((n1 > n0) & (n2 > n1), "sequence numbers increase");
    if s1 == s2 {
        check(a != b, "ids differ");
        check(a as u64 != b as u64, "arrival part differs");
    }
    cover(true, "end");
}
