#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
S = "programs/openbook-v2/src/"
OB = S + "state/orderbook/"
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "The book is walked in price-time priority, fixed and pegged orders merged",
  "Walking one side of the book yields every order that is matchable at the current oracle price exactly once, from best to worst price and, at equal prices, from earliest to latest placed, regardless of whether an order has a fixed price or one pegged to the oracle. "
  "A pegged order counts at oracle price plus its offset; pegged orders whose price leaves the representable range (or all of them when there is no oracle price) are passed over without hiding any other order. "
  "Orders past their expiry, or beyond their own peg limit, are reported as invalid and all others as valid, and best price, quantity-at-price, impact-price and worst-order queries agree with that walk.",
  ["inputs", "histories"], "all sets of orders on a side (prices, offsets, ids, expiries, peg limits), all oracle prices including none, all times",
  "the unit tests draw random books with small offsets and one oracle price; combinations of unrepresentable pegged orders, ties and missing oracle are not enumerated",
  [OB+"bookside_iterator.rs", OB+"bookside.rs", OB+"ordertree_iterator.rs"],
  [("merging iterator and ranking of a fixed and a pegged candidate", OB+"bookside_iterator.rs"), ("in-order traversal", OB+"ordertree_iterator.rs")])

p("P02", "The order tree stores exactly the orders inserted and not yet removed",
  "After any sequence of inserts and removals, a side's order tree contains exactly the orders inserted and not removed, each with its contents unchanged, and iterates them in key order; its order count is the number of orders. "
  "Removing an id that is not present changes nothing and says so; removing a present one returns that very order. "
  "Storage freed by removals is reused, no storage cell is ever used by two orders at once, and an insert fails only when the storage is full.",
  ["inputs", "histories"], "all order ids and contents, all insert/remove sequences (bounded length), fixed and pegged trees sharing one storage",
  "tests insert random keys; crit-bit shapes depend on the exact bit at which ids differ, which sampling does not cover",
  [OB+"ordertree.rs", OB+"nodes.rs", OB+"ordertree_iterator.rs"],
  [("crit-bit tree insert/remove and free list", OB+"ordertree.rs")])

p("P03", "The earliest-expiring order of a tree is always found",
  "For every tree reachable by inserts and removals, the reported earliest expiry is the minimum over the orders it holds (never, if none expires). "
  "Asking to drop one expired order removes one whose expiry time is strictly before now whenever the asked-for tree or the side's other tree holds such an order, and never removes any other order.",
  ["inputs", "histories"], "all insert/remove sequences with arbitrary ids, timestamps and lifetimes",
  "two unit tests with hand-picked or random expiries; cached minima along a path go wrong only for particular shapes and orders of removal",
  [OB+"ordertree.rs", OB+"bookside.rs", OB+"nodes.rs"],
  [("child expiry minima maintained up the insertion/removal path", OB+"ordertree.rs")])

p("P04", "The event queue never loses, duplicates or reorders events",
  "After any sequence of pushes, pops and deletions of arbitrary slots, the event queue holds exactly the events pushed and not taken, oldest first, and its length is their number; each slot is either free or holds one of them. "
  "A pop or deletion returns the event that was stored, a deletion of a free or out-of-range slot fails and changes nothing, and a push into a full queue is refused.",
  ["inputs", "histories"], "all well-formed queue states, all operations on them, all slots",
  "tests run a few scripted sequences; linked-list corruption needs a particular position of the deleted slot",
  [OB+"heap.rs"], [("doubly linked used list and singly linked free list over one array", OB+"heap.rs")])

p("P05", "Order ids are unique and encode price and arrival order",
  "Every accepted order gets an id never given before on that market; ids of one side and one price kind sort by price first (better price first when walked from that side's best end) and, at equal prices, by arrival. "
  "Prices and oracle offsets read back from an id are exactly those encoded, over the whole representable range, and a non-positive fixed price is refused.",
  ["inputs"], "all prices, offsets, sequence numbers and both sides",
  "nodes tests try a handful of boundary values",
  [OB+"nodes.rs", S+"state/market.rs"], [("key construction", OB+"nodes.rs"), ("sequence number", S+"state/market.rs")])

p("P06", "A taker never trades beyond the limits of its order",
  "No order trades at a price worse than its limit, for more base than its base limit, for more quote (fees included, when buying) than its quote limit, or against more resting orders than its match limit. "
  "What it may additionally leave on the book stays within the same base and quote limits, fees included.",
  ["inputs", "histories"], "all orders (side, type, price, limits), all books, fees and lot sizes within the stated bounds",
  "integration tests cannot run here and sample a few sizes; the quote limit interacts with fee rounding and lot rounding",
  [OB+"book.rs", OB+"order.rs", S+"state/market.rs"], [("matching loop", OB+"book.rs"), ("budget net of taker fees", S+"state/market.rs")])

p("P07", "Fills take best orders first, at the maker's price, and update the book exactly",
  "Matching consumes opposing valid orders strictly in priority order, each at the resting order's current price and for as much as both sides allow, and stops only when the order's price, base, quote or match limit, or the book, is exhausted. "
  "Every fully filled order leaves the book, every partly filled one stays with its size reduced by exactly the fill and its priority kept, every fill is reported once with right parties, price and size, and no other resting order changes.",
  ["inputs", "histories"], "all taker orders and opposing books of bounded size, fixed and pegged",
  "tests check single scripted trades",
  [OB+"book.rs"], [("matching loop and deferred book updates", OB+"book.rs")])

p("P08", "Order types keep their promises",
  "Post-only orders never trade; a post-only order that would trade is not placed, and a sliding one is placed at the closest price that does not trade. Immediate-or-cancel, market and fill-or-kill orders never rest, and a fill-or-kill order trades its full base size or fails as a whole. "
  "A limit order rests with whatever its limits still allow, and an order is never left resting at a price at which it could trade right away against a valid opposing order.",
  ["inputs", "configurations"], "all order types, sides, prices, sizes and opposing books of bounded size",
  "tests cover each type once on a one-order book",
  [OB+"book.rs", OB+"order.rs", OB+"order_type.rs", S+"lib.rs"], [("post target, price adjustment and fill-or-kill check", OB+"order.rs")])

p("P09", "Placing an order conserves funds",
  "When a user places orders (single, pegged, edited or in batches), the change of the vaults' token balances equals the change of the market's recorded deposits, and equals the change of what the market owes: free balances, funds locked behind resting orders, locked maker fees, rebates, and amounts carried by queued events. "
  "The amount taken from the user's wallet is exactly the cost not covered by their free balance, and nobody else's wallet changes.",
  ["inputs", "histories", "configurations"], "all placements against bounded books, any fees and balances, with and without maker accounts supplied",
  "integration tests compare a few scripted balances",
  [S+"instructions/place_order.rs", S+"instructions/cancel_all_and_place_orders.rs", S+"instructions/edit_order.rs", OB+"book.rs", S+"state/open_orders_account.rs"],
  [("locking of free funds and deposit of the rest", S+"instructions/place_order.rs")],
  [("vault balances", "token amounts held by the market", "SPL token accounts"), ("deposit totals", "recorded deposits", S+"state/market.rs")])

p("P10", "Taking without an account conserves funds",
  "When a user trades directly from their wallet, they pay exactly the traded amount plus the maker rebates and receive exactly the traded amount (a seller's proceeds less the maker rebates), and vault balances, recorded deposits and what the market owes its makers move by exactly the same amounts. "
  "A trade that leaves work in the event queue charges the fixed penalty once, and one that does not charges none.",
  ["inputs", "histories", "configurations"], "all immediate orders against bounded books with any fees",
  "integration tests only", [S+"instructions/place_take_order.rs", OB+"book.rs"],
  [("deposit and withdrawal amounts by side", S+"instructions/place_take_order.rs")])

p("P11", "Processing a fill or out event conserves funds and credits the right maker",
  "Applying a fill or an out event moves exactly the traded or unlocked amounts between locked and free balances of the maker named by the event, with maker fees, rebates and unlocking at the price at which funds were locked; the market owes as much after as before. "
  "A fully filled or removed order frees its slot, a partly filled one keeps it.",
  ["inputs", "histories"], "all events consistent with a resting order, all fee settings including negative maker fees, fixed and pegged makers",
  "unit coverage of maker execution does not exist in the stable tests",
  [S+"state/open_orders_account.rs", S+"instructions/consume_events.rs"], [("maker execution and cancellation", S+"state/open_orders_account.rs")])

p("P12", "Cancelling returns exactly what was locked",
  "Cancelling an order, by whichever instruction, removes exactly that order from the book, frees its slot and returns to its owner's free balance exactly the base, or the quote plus maker fee, that its remaining size locks; no other order or account changes. "
  "Cancelling several orders cancels the owner's orders matching the side or client-id filter, in slot order, up to the limit, and reports the total size cancelled; an order already gone from the book is left for its pending event.",
  ["inputs", "histories"], "all accounts with bounded numbers of orders, all filters and limits",
  "integration tests only", [OB+"book.rs", S+"state/open_orders_account.rs", S+"instructions/cancel_order.rs", S+"instructions/cancel_all_orders.rs", S+"instructions/cancel_order_by_client_order_id.rs"],
  [("cancel paths", OB+"book.rs")])

p("P13", "Deposits, settlement and fee sweeping move exactly the recorded amounts",
  "A deposit credits the account exactly what leaves the wallet, and a refill tops free balances up to the requested level. Settlement pays out exactly the account's free balances to the user and its pending referral rebate to the referrer (or into the market's sweepable fees when there is none), and resets them; sweeping pays exactly the sweepable fees. "
  "Recorded deposits and vault balances change by the same amounts, and rounding leftovers of maker fees are released only when the account has no open bids.",
  ["inputs", "histories"], "all balances, fee settings, with and without referrer, any order of operations",
  "integration tests only", [S+"instructions/deposit.rs", S+"instructions/settle_funds.rs", S+"instructions/settle_funds_expired.rs", S+"instructions/sweep_fees.rs", S+"lib.rs", S+"token_utils.rs"],
  [("settlement accounting", S+"instructions/settle_funds.rs")])

p("P14", "Fee arithmetic rounds against the trader and never overdraws",
  "Taker fees round up and maker fees and rebates paid out round down, to within one native unit of the exact rate; the sum of maker rebates over a taker's fills never exceeds its taker fee, and the maker fee released for partial fills plus the one returned on cancelling the rest never exceeds the fee locked. "
  "The part of a quote budget offered for taking, plus its fee, never exceeds that budget.",
  ["inputs"], "all amounts up to the representable maximum and all fee rates a market can be created with",
  "needs quantification over 64-bit amounts and rates", [S+"state/market.rs"], [("fee functions", S+"state/market.rs")])

p("P15", "Self-trades follow the chosen behaviour and carry no fees",
  "When an order would trade against an order of the same account, it either aborts, or cancels the resting order (returning its locked funds) and goes on, or trades with it as with any other order but without taker fee, maker fee or rebate on that part, as chosen. "
  "Orders of other accounts are unaffected by the choice.",
  ["inputs", "configurations"], "all three behaviours, mixed books of own and foreign orders, both sides, any fees",
  "integration tests sample each behaviour once", [OB+"book.rs", S+"state/open_orders_account.rs"], [("self-trade branch of the matching loop", OB+"book.rs")])

p("P16", "An account's order slots and totals mirror its orders",
  "Each order resting on the book occupies exactly one in-use slot of its owner's account, which records its id, client id, side, kind and locked price; the account's lot totals change by exactly what its orders gain or lose. "
  "An account with all slots in use cannot place another resting order, and freeing a slot makes it reusable.",
  ["inputs", "histories"], "all accounts, slots and order kinds", "no stable test covers the account side",
  [S+"state/open_orders_account.rs", OB+"book.rs"], [("slot allocation and release", S+"state/open_orders_account.rs")])

p("P17", "Only the owner or their delegate can act for an account",
  "Placing, editing, cancelling and settling for an account succeeds only when signed by its owner or its current delegate; a delegate can settle only to token accounts of the owner; only the owner can change the delegate or close the account. "
  "A delegate of nobody grants nothing, and the owner is always allowed.",
  ["inputs"], "all signers, owners, delegates and destination owners", "tests try one wrong signer",
  [S+"state/open_orders_account.rs", S+"accounts_ix/", S+"pubkey_option.rs", S+"instructions/set_delegate.rs"], [("account constraints", S+"accounts_ix/")])

p("P18", "Market roles are enforced",
  "If a market names an order admin, an event admin, a closing admin or a fee collector, then placing orders, consuming events, expiring/pruning/settling-expired/closing, or sweeping fees, respectively, succeeds only with that party's signature; without a closing admin the market can never be expired by hand, pruned or closed. "
  "A market that names no order or event admin needs none.",
  ["inputs", "configurations"], "all combinations of configured and supplied parties", "tests try one combination each",
  [S+"accounts_ix/", S+"pubkey_option.rs"], [("role constraints", S+"accounts_ix/")])

p("P19", "An instruction only touches accounts that belong to its market",
  "Every instruction that moves funds or orders refuses a vault, order book side, event queue, market authority, oracle or user account that does not belong to the market named, a user token account of the wrong mint, and state accounts not created by the program or of the wrong kind. "
  "Vault withdrawals are always signed by that market's own authority.",
  ["inputs"], "all substitutions of one supplied account by another", "tests try few substitutions",
  [S+"accounts_ix/", S+"accounts_zerocopy.rs"], [("account constraints", S+"accounts_ix/")])

p("P20", "Market expiry gates trading and closing",
  "Once a market's expiry has passed, or it has been expired by its admin, no order can be placed and no deposit made, while cancelling and settling still work; before that, pruning, expired-settlement and closing are refused. "
  "Expiring by hand takes effect immediately and cannot be undone or repeated.",
  ["inputs", "histories"], "all expiry settings and times", "integration tests only",
  [S+"state/market.rs", S+"instructions/"], [("expiry test in each instruction", S+"state/market.rs")])

p("P21", "Expired orders never trade, and lifetimes are what was asked",
  "An order whose lifetime has ended is never matched; when met during matching it is removed and its funds are returned, at most five per order placed. "
  "An order asked to expire in the past is not placed, one without expiry never expires, and otherwise it lives until the requested time or the longest lifetime supported, whichever is earlier.",
  ["inputs", "schedules"], "all timestamps, expiries and books of bounded size", "tests use fixed clocks",
  [OB+"order.rs", OB+"nodes.rs", OB+"book.rs"], [("lifetime conversion and validity test", OB+"order.rs")])

p("P22", "Stale or uncertain oracle prices are never used",
  "A price is used only if the oracle was updated within the configured number of slots (no limit, if none is configured) and its reported deviation is within the configured fraction of the price, for both legs when two oracles are combined; otherwise pegged orders neither trade nor can be placed, while fixed-price trading goes on. "
  "The price used is the oracle's own, scaled by token decimals and lot sizes, and an account that is not a known kind of oracle is refused.",
  ["inputs", "configurations"], "all update slots, current slots, limits and prices", "one fixture test per oracle kind, which cannot run here",
  [S+"state/oracle.rs", S+"state/market.rs"], [("staleness and confidence tests", S+"state/oracle.rs")])

p("P23", "Pegged orders trade at oracle plus offset and never beyond their peg limit",
  "A pegged order trades only at the current oracle price plus its offset; it is never matched at, nor placed with, a price better for the counterparty than its peg limit, and a pegged bid locks funds for its peg limit and gets the difference back when filled below it. "
  "Pegged orders are placed only on markets with a usable oracle price.",
  ["inputs", "histories"], "all oracle moves between placing and filling, all offsets and limits", "tests use a few oracle moves",
  [OB+"book.rs", OB+"order.rs", OB+"bookside_iterator.rs", S+"state/open_orders_account.rs"], [("peg price and limit", OB+"bookside_iterator.rs")])

p("P24", "Markets are created only with sound parameters and start empty",
  "A market can be created only with a non-negative taker fee, fees of at most 100%, a maker rebate not above the taker fee, positive lot sizes, an expiry in the future or none, distinct mints, and oracles that are recognised, of one kind and not given second without first. "
  "A new market starts with no deposits, fees or orders, an empty event queue, and exactly the parameters given.",
  ["inputs", "configurations"], "all parameters", "tests create markets with a few settings", [S+"instructions/create_market.rs", S+"accounts_ix/create_market.rs"], [("parameter checks", S+"instructions/create_market.rs")])

p("P25", "Nothing that still holds value can be closed",
  "A market can be closed only when it is expired, owes nothing, has an empty book and an empty event queue; an open-orders account only when it holds no balances, locked funds, rebates, penalties or orders; an account index only when it lists no accounts. "
  "Creating and closing accounts keeps the index equal to the list of the owner's open accounts, with account numbers never reused.",
  ["inputs", "histories"], "all states of the accounts", "integration tests only", [S+"instructions/close_market.rs", S+"instructions/close_open_orders_account.rs", S+"instructions/create_open_orders_account.rs", S+"instructions/close_open_orders_indexer.rs", S+"state/open_orders_indexer.rs"], [("emptiness checks", S+"state/market.rs")])

p("P26", "Queued events are processed once, in order, for the right account",
  "Consuming events applies at most the allowed number of events, each at most once, oldest first (explicitly named slots before the rest), to the accounts they name, and removes exactly the applied ones; an event whose account was not supplied stays queued and does not block later ones. "
  "Supplying a maker's account when an order is placed leaves every account and the book in the same state as queueing the event and consuming it afterwards.",
  ["inputs", "histories", "schedules"], "all bounded queues, slot lists, limits and sets of supplied accounts", "integration tests only",
  [S+"instructions/consume_events.rs", OB+"book.rs"], [("event loop", S+"instructions/consume_events.rs")])

p("P27", "A full book admits only better orders and evicts the worst",
  "When a side's storage is full, a new resting order is accepted only if its price is strictly better than that of the worst resting order, which then leaves the book with its funds returned; otherwise the placement fails as a whole. "
  "An expired order, if there is one, is dropped first and its owner's funds returned.",
  ["inputs", "histories"], "all prices and kinds of the new and worst orders", "no test fills a book through order placement",
  [OB+"book.rs", OB+"bookside.rs"], [("eviction", OB+"book.rs")])

p("P28", "Batched and edited orders spend no more than is available and asked for",
  "Placing several orders at once never commits more than the user's wallet plus free balance of either token, skips entries already expired, and returns one result per entry in order; with cancel-all requested, all earlier orders of the account are cancelled first. "
  "Editing an order cancels the old one and never lets the old fill plus the new order exceed the new size asked for.",
  ["inputs", "histories"], "all batches of bounded length, all wallet and free balances", "integration tests only",
  [S+"instructions/cancel_all_and_place_orders.rs", S+"instructions/edit_order.rs", S+"lib.rs"], [("available-balance caps", S+"instructions/cancel_all_and_place_orders.rs")])

p("P29", "Emitted logs state what actually happened",
  "Every fill, deposit, settlement, fee sweep, delegate change and position change emits a log whose amounts, prices, parties, fees and sequence numbers equal the state change actually made. "
  "Total-fill logs state what the taker actually paid and received.",
  ["inputs"], "all trades and balances of bounded size", "no test reads logs", [S+"logs.rs", S+"state/open_orders_account.rs", OB+"book.rs", S+"instructions/"], [("log emission", S+"logs.rs")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
