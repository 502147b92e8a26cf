"""Which harnesses decide which property, in what encoding, within what bounds."""

CRATES = {"full": {"dir": "harness", "package": "obv2-harness", "target": "sym"}}

ASSUMPTIONS = [
    "the LLVM IR rustc 1.70 emits for the host (x86-64, release, overflow checks on) behaves as the on-chain build does",
    "stand-ins for crates missing offline (fixed, pyth, switchboard, default-env, security-txt) behave as the originals where the program uses them",
    "a panic or an error return aborts the whole transaction and leaves no state change",
    "the runtime, token and system programs behave as modelled in harness/src/env.rs",
]

CHECKS = {}


def h(prop, name, mode="int", tier="quick", jobs=8, cost=10, covers=("end",), bounds="", **kw):
    CHECKS.setdefault(prop, []).append(
        dict(name=name, mode=mode, tier=tier, jobs=jobs, cost=cost, covers=list(covers), bounds=bounds, **{k.replace("_", "-"): v for k, v in kw.items()})
    )


# ---- P01
W = "any prices/offsets (64 bit), sequence numbers, expiries, peg limits, oracle price and time; "
h("P01", "p01_walk", "bv", cost=9, covers=["end", "invalid", "skipped"], bounds=W + "1 fixed + 2 pegged orders, both sides")
h("P01", "p01_walk_f", "bv", cost=3, covers=["end", "invalid", "skipped"], bounds=W + "2 fixed + 1 pegged, both sides")
h("P01", "p01_walk_none", "bv", cost=1, covers=["end", "invalid"], bounds=W + "2 fixed + 1 pegged, no oracle")
h("P01", "p01_query", "bv", cost=16, covers=["best", "no best", "quantity", "impact", "worst", "worst pegged"], bounds=W + "1 fixed + 1 pegged; sizes < 2^40")
h("P01", "p01_query_2", "bv", cost=2, covers=["best", "no best", "quantity", "impact", "worst"], bounds=W + "2 fixed; sizes < 2^40")
h("P01", "p01_chain", cost=10, covers=["end", "skipped", "worst"], bounds="127 orders, fixed or pegged, tree depth 126; oracle <= 2^61, any time")
h("P01", "p01_slide", cost=12, covers=["end", "skipped"], bounds="16 fixed + 16 pegged orders; oracle <= 2^40, any time")
h("P01", "p01_walk_deep", "bv", tier="thorough", cost=40, bounds=W + "2 fixed + 2 pegged")
h("P01", "p01_walk_peg3", "bv", tier="thorough", cost=100, bounds=W + "1 fixed + 3 pegged")
h("P01", "p01_query_deep", "bv", tier="thorough", cost=400, covers=["best", "impact", "worst"], bounds=W + "1 fixed + 2 pegged")
h("P01", "p01_query_deep2", "bv", tier="thorough", cost=400, covers=["best", "impact", "worst"], bounds=W + "2 fixed + 1 pegged")

# ---- P02
K = "keys any distinct 128-bit values; "
h("P02", "p02_tree", "bv", cost=40, covers=["end", "removed", "not found"], bounds=K + "3 inserts, a removal of any key, 1 insert; contents symbolic")
h("P02", "p02_share", "int", cost=1, covers=["end", "removed fixed", "removed pegged"], bounds="4 orders split over both trees (every 4-leaf shape, 2 insertion orders), removal of any key, 2 inserts")
h("P02", "p02_full", "bv", cost=5, covers=["end", "full", "fits"], bounds="storage with 0..5 cells left, 3 inserts at any prices < 2^40, removal, insert")
h("P02", "p02_worst", "bv", cost=7, bounds=K + "3 orders, removal of the worst, both sides")
h("P02", "p02_hist3", cost=1, covers=["end", "emptied"], bounds="every history of 8 inserts/removals over 3 ids")
h("P02", "p02_hist4", cost=3, covers=["end", "emptied"], bounds="every history of 8 inserts/removals over 4 ids")
h("P02", "p02_both", cost=3, bounds="every history of 8 inserts/removals over 2 ids in each of a side's trees")
h("P02", "p02_both_deep", tier="thorough", cost=40, replaces="p02_both", bounds="every history of 10 steps over 2 ids in each tree")
h("P02", "p02_refill", cost=1, bounds="4 orders in every tree shape, removed in any order, put back in 8 orders")
h("P02", "p02_chain", "bv", cost=30, covers=["end", "removed", "not found"], bounds="129 orders, depth 128 (the deepest tree), removal of any key")
h("P02", "p02_big", cost=1, covers=["end", "churn"], bounds="512 orders (capacity), any further key")
h("P02", "p02_same", cost=3, bounds="4 orders in every shape, one id inserted again, any expiries")
h("P02", "p02_hist4_deep", tier="thorough", cost=30, bounds="every history of 9 steps over 4 ids")
h("P02", "p02_tree_deep", "bv", tier="thorough", cost=900, replaces="p02_tree", covers=["end", "removed", "not found"], bounds=K + "4 inserts, a removal of any key, 1 insert")
h("P02", "p02_share_deep", "int", tier="thorough", cost=20, replaces="p02_share", bounds="as p02_share with all 24 insertion orders")
h("P02", "p02_full_deep", "bv", tier="thorough", cost=60, bounds="storage with 3..7 cells left, 4 inserts")

# ---- P03
E = "any timestamps < 2^62 and lifetimes (16 bit); "
h("P03", "p03_expiry", cost=20, covers=["end", "none expires", "one expires"], bounds=E + "4 leaves in every tree shape, 4 insertion orders, one removal, one insert")
h("P03", "p03_expiry_rem", cost=6, covers=["end", "none expires", "one expires"], bounds=E + "4 leaves in every tree shape, 2 insertion orders, two removals")
h("P03", "p03_keys", "bv", cost=4, bounds=E + "3 leaves with any keys, one removal")
h("P03", "p03_chain", cost=5, covers=["end"], bounds="129 orders, depth 128; two with any expiry, at 12 x 3 depths")
h("P03", "p03_drop", cost=1, covers=["dropped fixed", "dropped pegged", "none dropped"], bounds=E + "any time; up to 3 orders over both trees")
h("P03", "p02_same", cost=3, bounds=E + "4 orders in every shape, one id inserted again")
h("P03", "p03_hist", cost=1, bounds=E + "every history of 5 steps over 3 ids")
h("P03", "p03_hist_deep", tier="thorough", cost=90, bounds=E + "every history of 7 steps over 4 ids")
h("P03", "p03_expiry_deep", tier="thorough", cost=120, replaces="p03_expiry", bounds=E + "as p03_expiry with all 24 insertion orders")
h("P03", "p03_expiry_rem_deep", tier="thorough", cost=80, replaces="p03_expiry_rem", bounds=E + "as p03_expiry_rem with all 24 insertion orders")

# ---- P04
h("P04", "p04_ops", cost=1, covers=["end", "popped", "deleted", "delete refused"], bounds="3 events, then any 3 of push/pop/delete any slot; contents symbolic")
h("P04", "p04_ops_empty", cost=1, covers=["end", "popped", "pop of empty", "deleted"], bounds="empty queue, any 5 of push/pop/delete any slot")
h("P04", "p04_full", cost=1, covers=["end", "deleted", "refused"], bounds="598..600 events queued (capacity 600), delete one of 8 representative slots, refill, drain")
h("P04", "p04_refuse", cost=1, covers=["full"], bounds="600 events queued, one more push")
h("P04", "p04_ops_deep", tier="thorough", cost=30, bounds="2 events, then any 6 operations")

# ---- P05
h("P05", "p05_keys", "bv", cost=1, covers=["end", "equal prices", "pegged"], bounds="any two prices or offsets (64 bit), any counter < 2^64-8, both sides")
h("P05", "p05_nonpositive", "bv", cost=1, covers=["ok", "refused"], bounds="any 64-bit price")
h("P05", "p05_unique", "bv", cost=1, bounds="any counter, any price data, any sides")

# ---- P14
F = "taker fee 0..100%, maker fee -100%..100% (not below -taker fee); amounts < 2^62"
h("P14", "p14_round", cost=1, covers=["end", "taker", "maker pays", "maker is paid"], bounds=F)
h("P14", "p14_rebates", cost=1, covers=["paid"], bounds=F + " over 3 fills")
h("P14", "p14_release", cost=1, covers=["locked"], bounds=F + " over 2 fills and the rest")
h("P14", "p14_budget", cost=1, covers=["some"], bounds=F)

# ---- placing orders
PO = "order: price on a 5-point grid around the book, sizes/limits symbolic (base <= 2^16 lots, quote <= 2^30, match limit <= 4), free balances < 2^50; 3 fee/lot settings (12 in the wide variants); both sides; book: "
B1 = "0..2 opposing orders incl. ties and an ended one"
B2 = "3 fixed, or fixed + pegged (valid or beyond its limit)"
LONG = "18 orders of one or two makers at concrete prices, match limits 14..17 and none, size symbolic: more fills than makers are served at once"
BP = "none, or fixed + pegged; the order itself pegged, 4 peg limits"
h("P06", "p06_limits", cost=5, covers=["end", "traded", "refused"], bounds=PO + B1 + "; all six types")
h("P06", "p06_three", cost=8, covers=["end", "traded"], bounds=PO + B2)
h("P06", "p06_pegged", cost=16, covers=["end", "traded"], bounds=PO + BP)
h("P06", "p06_take", cost=3, covers=["end", "traded"], bounds=PO + "1..2 orders, fixed + pegged; place_take_order")
h("P06", "p06_wide", cost=40, covers=["end", "traded", "refused"], bounds=PO + B1)
h("P07", "p07_match", cost=3, covers=["end", "traded", "dropped"], bounds=PO + B1 + " on either end")
h("P07", "p07_three", cost=6, covers=["end", "traded", "dropped"], bounds=PO + B2)
h("P07", "p07_ended", cost=4, covers=["end", "traded", "dropped"], bounds=PO + "six ended orders before a live one")
h("P07", "p07_long", cost=3, covers=["end", "traded"], bounds=LONG)
h("P07", "p07_wide", cost=40, covers=["end", "traded", "dropped"], bounds=PO + B1 + ", 3 orders")
h("P08", "p08_types", cost=4, covers=["end", "rests", "refused"], bounds=PO + B1 + "; all six types")
h("P08", "p08_mixed", cost=6, covers=["end", "rests", "refused"], bounds=PO + B2)
h("P08", "p08_pegged", cost=14, covers=["end", "rests", "refused"], bounds=PO + BP)
h("P08", "p08_wide", cost=40, covers=["end", "rests", "refused"], bounds=PO + B1)
h("P09", "p09_place", cost=5, covers=["end", "funds"], bounds=PO + B1 + "; all six types")
h("P09", "p09_mixed", cost=20, covers=["end", "funds"], bounds=PO + B2 + ", own orders among others, own ended order")
h("P09", "p09_long", cost=6, covers=["end", "funds"], bounds=LONG)
h("P09", "p09_pegged", cost=23, covers=["end", "funds"], bounds=PO + BP)
h("P09", "p09_rates", cost=15, covers=["end", "funds"], bounds=PO + B1 + "; nine extreme rates")
h("P09", "p09_wide", tier="thorough", cost=60, covers=["end", "funds"], bounds=PO + B1)
h("P10", "p10_take", cost=8, covers=["end", "traded", "penalty", "no penalty", "refused"], bounds=PO + B1 + ", fixed + pegged; makers supplied or not; IOC, market, fill-or-kill")
h("P10", "p10_long", cost=4, covers=["end", "traded", "penalty", "no penalty"], bounds=LONG + "; makers supplied or not")
h("P10", "p10_wide", cost=40, covers=["end", "traded", "penalty", "no penalty", "refused"], bounds=PO + "1..3 orders")
EV = "balances < 2^50, other locked lots < 2^40, size <= 2^16 lots; fixed or pegged, both sides, own or foreign taker, first or last slot; "
h("P11", "p11_fill", cost=1, covers=["end", "fee", "rebate", "self-trade"], bounds=EV + "complete or partial fill; 3 prices, 3 fee settings")
h("P11", "p11_fill_any", cost=1, covers=["end", "fee", "rebate", "self-trade"], bounds=EV + "3 prices, any fee rates and lot sizes <= 10^4")
h("P11", "p11_out", cost=1, bounds=EV + "removal, 3 fee settings")
h("P11", "p11_out_any", cost=1, bounds=EV + "removal, any price < 2^11, any fees")
h("P15", "p15_self", cost=6, covers=["end", "self-trade", "self-cancel", "refused"], bounds=PO + "own order alone, two own ones, own before or behind another's, or ended")
h("P15", "p15_mixed", cost=9, covers=["end", "self-trade", "self-cancel"], bounds=PO + "own order between others, own ones around another's, own pegged order")
h("P15", "p11_fill", cost=1, covers=["self-trade"], bounds=EV + "maker side of a self-trade")
h("P15", "p15_wide", cost=60, covers=["end", "self-trade", "self-cancel"], bounds=PO + "own orders")
h("P16", "p16_slots", cost=4, covers=["end", "rests"], bounds=PO + "own and other orders, ended own order")
h("P16", "p16_pegged", cost=22, covers=["end", "rests"], bounds=PO + BP)
h("P16", "p16_wide", cost=60, covers=["end", "rests"], bounds=PO + "own and other orders")
h("P16", "p16_crowded", cost=3, covers=["end", "no slot left"], bounds="each of the 24 slots the only free one, or none; fixed orders")
h("P16", "p16_crowded_peg", cost=3, covers=["end", "no slot left"], bounds="each of the 24 slots the only free one, or none; pegged orders")
h("P16", "p11_fill", cost=1, bounds=EV + "slots after fills")
h("P16", "p11_out", cost=1, bounds=EV + "slots after removals")
h("P21", "p21_walk", cost=3, covers=["end", "traded", "dropped"], bounds=PO + "live and ended orders with any lifetime, any order")
h("P21", "p21_many", cost=6, covers=["end", "traded", "dropped"], bounds=PO + "six ended orders before a live one")
h("P21", "p21_expiry", cost=1, covers=["end", "ended", "lives", "capped"], bounds="any 64-bit expiry, any time < 2^40; fixed and pegged orders")
h("P23", "p23_match", cost=9, covers=["end", "traded", "dropped"], bounds=PO + "fixed + pegged")
h("P23", "p23_place", cost=14, covers=["end", "rests"], bounds=PO + BP)
h("P26", "p26_crank", cost=1, covers=["end", "some applied"], bounds="3 events of 2 makers, every mix, any accounts supplied, limit 0..4")
h("P26", "p26_given", cost=2, covers=["end", "some applied"], bounds="3 events of 2 makers, 1 or 2 given slots incl. repeated and free ones")
h("P26", "p26_many", cost=1, bounds="11 events, any limit")
h("P26", "p26_direct", cost=12, covers=["end", "queued", "left over"], bounds=PO + B1 + "; one or both makers supplied against consumed later")
h("P26", "p26_long", cost=8, covers=["end", "queued", "left over"], bounds=LONG + "; one or both makers supplied against consumed later")
h("P26", "p26_crank_deep", cost=20, covers=["end", "some applied"], bounds="5 events of 2 makers")
h("P26", "p26_given_deep", cost=20, covers=["end", "some applied"], bounds="4 events of 2 makers")
h("P26", "p26_direct_wide", cost=60, covers=["end", "queued"], bounds=PO + B1)

# ---- cancelling, funds
CN = "prices on a grid, sizes <= 2^16 lots, other balances and locked lots symbolic, 3 fee/lot settings (12 where wide); fixed and pegged, both sides; "
for v, b in (("", "2 own orders and others', any id or client id asked for, any limit and side filter, some already gone from the book"), ("_wide", "as above, 12 settings")):
    h("P12", "p12_id" + v, cost=1, covers=["end", "cancelled", "refused"], bounds=CN + b)
    h("P12", "p12_client" + v, cost=1, covers=["end", "cancelled"], bounds=CN + b)
    h("P12", "p12_all" + v, cost=2, covers=["end", "cancelled"], bounds=CN + b)
h("P12", "p12_prune", cost=1, covers=["end", "cancelled"], bounds=CN + "prune_orders on an expired market")
h("P12", "p12_client_four", cost=2, covers=["end", "cancelled"], bounds=CN + "4 own orders")
h("P12", "p12_client_every", cost=3, covers=["end", "cancelled"], bounds="24 own orders in every slot, one of any size; 4 fee/lot settings")
h("P12", "p12_all_every", cost=6, covers=["end", "cancelled"], bounds="24 own orders in every slot, one of any size; 4 fee/lot settings")
h("P12", "p12_all_four", cost=4, covers=["end", "cancelled"], bounds=CN + "4 own orders")
FU = "any balances and amounts (wallets, vaults, positions, totals) < 2^61; "
h("P13", "p13_deposit", cost=1, covers=["end", "refused"], bounds=FU)
h("P13", "p13_refill", cost=1, covers=["end", "refused"], bounds=FU)
h("P13", "p13_settle", cost=1, covers=["end", "leftover", "penalty", "refused"], bounds=FU + "with and without referrer")
h("P13", "p13_settle_expired", cost=1, covers=["end", "leftover", "penalty", "refused"], bounds=FU + "with and without referrer")
h("P13", "p13_sweep", cost=1, covers=["end", "fees"], bounds=FU)

# ---- who may do what
RO = "every instruction concerned on one representative state in which it succeeds; any 256-bit keys recorded, named or supplied; signed or not"
h("P17", "p17_acting", cost=1, covers=["owner", "delegate", "refused", "end"], bounds=RO)
h("P17", "p17_owning", cost=1, covers=["done", "refused", "end"], bounds=RO)
h("P18", "p18_orders", cost=1, covers=["named", "none named", "refused", "end"], bounds=RO)
h("P18", "p18_closing", cost=1, covers=["done", "refused", "end"], bounds=RO)
h("P19", "p19_recorded", cost=1, covers=["accepted", "refused", "end"], bounds=RO + "; each account in turn at any address")
h("P19", "p19_kinds", cost=1, covers=["accepted", "refused", "end"], bounds=RO + "; each account in turn with any discriminator, owner program, mint or token owner")
h("P19", "p19_programs", cost=1, covers=["accepted", "end"], bounds=RO)
h("P20", "p20_gates", cost=1, covers=["after", "before", "refused", "end"], bounds="every instruction; any expiry and any time (64 bit)")
h("P20", "p20_by_hand", cost=1, covers=["works", "refused", "end"], bounds="every instruction after set_market_expired; any expiry and any time")

# ---- oracles
OR = "any update slots, current slot and staleness limit (64 bit); stub, Pyth (trading or not), Switchboard v1/v2, Raydium; 5 price/decimals/lot settings, 6 deviation/filter settings; place, take, batch, pegged place"
h("P22", "p22_one", cost=1, covers=["used", "stale", "end"], bounds=OR)
h("P22", "p22_two", cost=2, covers=["used", "stale", "end"], bounds=OR + "; two oracles")
h("P22", "p22_unknown", cost=1, covers=["known", "refused", "end"], bounds="any 8-byte tag, any owner program")

# ---- creating and closing
MK = "every parameter over its full range (64-bit fees, lots, expiry, limits); "
h("P24", "p24_numbers", cost=4, covers=["created", "refused", "end"], bounds=MK + "one set of accounts; oracle none, one or two; staleness and filter settings")
h("P24", "p24_accounts", cost=12, covers=["created", "refused", "end"], bounds="mints equal or not, each oracle slot absent or of any kind incl. unknown; new accounts clean or carrying data; representative numbers")
h("P25", "p25_market", cost=2, covers=["closed", "refused", "end"], bounds="any deposits, fees, counters (64 bit), any number of orders, free cells, roots, queued events recorded; any expiry and time")
h("P25", "p25_account", cost=2, covers=["closed", "refused", "end"], bounds="any position (every field 64 bit), any slots in use among representative ones")
h("P25", "p25_index", cost=1, covers=["closed", "refused", "end"], bounds="lists of any length within the account")
h("P25", "p25_create", cost=2, covers=["created", "refused", "end"], bounds="any counter (32 bit), lists of 0..256 accounts")
h("P25", "p25_history", cost=4, covers=["closed one", "end"], bounds="every history of 4 creations/closings over 3 accounts")
h("P25", "p25_history_deep", tier="thorough", cost=60, covers=["closed one", "end"], bounds="every history of 6 creations/closings over 4 accounts")

# ---- full books
FB = "a side filled to its real capacity; the worst two orders with any size and lifetime, prices on a grid, own or another's, owner supplied or not; new order fixed or pegged; "
h("P27", "p27_fixed", cost=8, covers=["evicted", "own", "queued", "refused", "end"], bounds=FB + "fixed orders")
h("P27", "p27_mixed", cost=12, covers=["evicted", "own", "queued", "refused", "pegged evicted", "end"], bounds=FB + "fixed and pegged")
h("P27", "p27_pegged", cost=10, covers=["refused", "end"], bounds=FB + "pegged orders")
h("P27", "p27_no_price", cost=5, bounds=FB + "no usable oracle price")
h("P27", "p27_room", cost=5, bounds=FB + "one place left")
h("P27", "p27_ended", cost=10, covers=["ended one dropped", "evicted", "end"], bounds=FB + "an order past its time among them")
h("P27", "p27_ended_mixed", cost=15, covers=["ended one dropped", "ended and evicted", "end"], bounds=FB + "an order past its time among fixed and pegged")
h("P27", "p27_three", tier="thorough", cost=60, covers=["evicted", "end"], bounds=FB + "the worst three orders symbolic")

# ---- batches, edits
BA = "wallets and free balances < 2^50, sizes and quote limits symbolic, prices on a grid, expired or live entries; "
h("P28", "p28_bids", cost=9, covers=["end", "passed over", "rests", "traded"], bounds=BA + "2 bids")
h("P28", "p28_asks", cost=15, covers=["end", "passed over", "rests", "traded"], bounds=BA + "2 asks")
h("P28", "p28_both", cost=6, covers=["end", "passed over", "rests", "traded"], bounds=BA + "a bid and an ask")
h("P28", "p28_cancel", cost=2, covers=["end", "rests", "traded"], bounds=BA + "earlier orders cancelled first")
h("P28", "p28_cancel_bids", cost=2, covers=["end", "rests"], bounds=BA + "earlier bids cancelled first")
h("P28", "p28_cancel_asks", cost=2, covers=["end", "rests"], bounds=BA + "earlier asks cancelled first")
h("P28", "p28_capped", cost=3, covers=["end", "rests"], bounds=BA + "balances below what is asked for")
h("P28", "p28_wide", cost=4, covers=["end", "rests", "traded"], bounds=BA + "one entry, 12 fee/lot settings")
h("P28", "p28_three", tier="thorough", cost=60, covers=["end", "rests", "traded"], bounds=BA + "3 entries")
for v, b in (("", "one order"), ("_twins", "two orders sharing the client id"), ("_pegged", "pegged"), ("_wide", "12 fee/lot settings")):
    h("P28", "p28_edit" + v, cost=5, covers=["end", "not found", "placed", "refused", "traded"], bounds=BA + "edit_order, partly filled or not; " + b)

# ---- logs
LG = "every emitted log read back and compared field by field; "
h("P29", "p29_place", cost=7, covers=["end", "traded", "fee"], bounds=LG + PO + "1..2 orders incl. ties, pegged, ended; makers supplied or not")
h("P29", "p29_take", cost=5, covers=["end", "traded", "fee"], bounds=LG + PO + "as p29_place, place_take_order")
h("P29", "p29_self", cost=4, covers=["end", "traded", "fee"], bounds=LG + PO + "own orders among others")
h("P29", "p29_wide", cost=8, covers=["end", "traded", "fee"], bounds=LG + PO + "1..2 orders; 12 fee/lot settings")
h("P29", "p29_fill", cost=2, bounds=LG + EV + "fills consumed from the queue")
h("P29", "p29_deposit", cost=1, covers=["end", "refused"], bounds=LG + FU)
h("P29", "p29_settle", cost=1, covers=["end", "refused"], bounds=LG + FU)
h("P29", "p29_sweep", cost=1, bounds=LG + FU)
h("P29", "p29_delegate", cost=1, covers=["end", "named"], bounds=LG + "any 256-bit key")
h("P29", "p29_market", cost=5, covers=["created", "refused", "end"], bounds=LG + "market creation; " + MK)
