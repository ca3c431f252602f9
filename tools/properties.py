#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os

D = "contracts/sumtree-orderbook/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": [D + f for f in files],
            "state": [{"name": n, "meaning": m, "where": D + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": D + w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": None}})

ST_TICK = ("tick values", "per tick and direction: resting liquidity, cumulative placed, cumulative swapped, realized cancels", "types/tick.rs")
ST_ORD = ("orders", "open orders keyed by tick and id, indexed by owner and tick", "state.rs")
TX = ["bank messages emitted by execute and sudo", "contract balances"]
Q = ["all_ticks, orders_by_tick, get_unrealized_cancels, get_total_pool_liquidity queries"]

p("C01", "The contract always holds what it owes; no transaction creates or loses value",
  "After every transaction the contract's balance of each token covers the refund of every unfilled order part plus the payout of every filled, unclaimed part. Every placement, cancellation, claim and swap moves exactly the amounts its rules prescribe between user, fee recipient and contract: nothing is paid twice, paid to the wrong party, or stranded beyond the rounding remainders that stay with the book.",
  ["histories", "inputs"], "every reachable book and every sequence of placements, swaps, cancellations and claims by any users at any price",
  "Solvency is an invariant over all histories; the tests assert balances after a few hand-written sequences and mostly call internals without moving money.",
  ["order.rs", "tick.rs", "sudo.rs"], [("payouts", "order.rs claim_order"), ("refund", "order.rs cancel_limit"), ("swap settlement", "order.rs run_market_order_internal")], [ST_TICK, ST_ORD], TX + Q)
p("C02", "From every reachable state every maker can get everything out",
  "Whatever has happened to the book, each open order can be brought home by claiming its filled part and cancelling the rest, in any order of withdrawal and without anyone else's cooperation while trading is active. After everyone has left no order and no resting liquidity remains and the contract keeps only rounding remainders.",
  ["histories"], "every reachable state, several withdrawal orders from each",
  "A stuck order needs a particular earlier history (fills and cancels in a certain arrangement); tests end after the operation under test and never drain the book.",
  ["order.rs", "tick.rs", "sumtree/node.rs"], [("cancel guard on unclaimed fills", "order.rs cancel_limit"), ("tick synchronisation", "tick.rs sync_tick")], [ST_TICK, ST_ORD], TX + Q)
p("C03", "Orders at one price are filled strictly in the order they were placed",
  "Within one price level and direction, taker volume fills the earliest resting order completely before the next one receives anything. What an order can claim equals exactly the volume that reached it in that queue, regardless of how many orders ahead of it or behind it were cancelled, when, or whether anyone claimed in between.",
  ["histories"], "every interleaving of placements, cancellations, fills and claims on a level",
  "The queue is implicit in cumulative sums; only particular orders of cancel, fill and claim expose an off-by-one, and the tests sample a few of them.",
  ["order.rs", "tick.rs", "sumtree/tree.rs"], [("start position of an order", "order.rs place_limit"), ("prefix sum of cancels", "sumtree/tree.rs get_prefix_sum"), ("sync", "tick.rs sync_tick")], [ST_TICK], Q)
p("C04", "A swap takes the best prices first and at the exact price of each level",
  "A swap consumes price levels strictly from best to worst for the taker, exhausting each before touching the next, and skips levels without liquidity. From each level it receives the largest whole amount its remaining input buys at that level's exact price, pays that price rounded up, and the delivered total is the sum over levels; input that is left over is returned.",
  ["histories", "inputs"], "every book, direction and input amount",
  "Which levels a sweep crosses, and the rounding at each, depends on the whole book; tests check a handful of books with convenient prices.",
  ["order.rs", "sudo.rs", "tick_math.rs"], [("sweep", "order.rs run_market_order_internal"), ("conversion", "tick_math.rs amount_to_value")], [ST_TICK], TX)
p("C05", "A swap is all-or-nothing within the bounds the taker set",
  "A swap never delivers less than the requested minimum, never trades beyond its target price level, and is refused when the book cannot use the whole input (unless a target level ends it, when the rest is returned), when there is no output, when the input is zero, when the two tokens are not the pair, or when a swap fee is asked for. A refused swap changes nothing; swaps for an exact output are always refused.",
  ["histories", "inputs"], "every book with every combination of input, minimum, target, fee and token pair",
  "The protections must hold at the boundary of each state-dependent amount; the tests use fixed amounts far from it.",
  ["order.rs", "sudo.rs", "types/orderbook.rs"], [("minimum and pair checks", "sudo.rs dispatch_swap_exact_amount_in, validate_output_amount"), ("target bound", "order.rs run_market_order_internal")], [ST_TICK], TX)
p("C06", "Cancelling returns exactly the unfilled quantity, to the owner, and only then",
  "Only the owner can cancel an order, only while it exists at the named price level and has no filled part waiting to be claimed, and without attaching funds. A cancellation pays the owner exactly the remaining quantity in the token that was placed, removes the order and its liquidity, and leaves every other order's place in the queue and claim unchanged.",
  ["histories", "inputs"], "every order in every reachable state, every caller",
  "Whether an order counts as untouched depends on all earlier fills and cancels on the level; tests cover few such histories.",
  ["order.rs", "tick.rs"], [("cancel", "order.rs cancel_limit"), ("cancel bookkeeping", "sumtree/node.rs insert")], [ST_ORD], TX + Q)
p("C07", "A claim is split exactly between owner, claimer and fee recipient",
  "A claim converts the filled quantity at the order's exact price, rounded down; from that the claimer gets the order's bounty share, the fee recipient the current maker fee share, each rounded down, and the owner everything else. The three parts always add up to the converted amount, are paid in the bought token, and go to the right addresses whoever of them coincide; nothing is paid when nothing is filled.",
  ["histories", "inputs"], "every filled amount, price, bounty, fee and combination of identical parties",
  "Rounding and coinciding parties multiply; the tests check a few sums, mostly with round numbers.",
  ["order.rs", "state.rs"], [("split", "order.rs claim_order"), ("fee", "state.rs get_maker_fee")], [ST_ORD], TX)
p("C08", "A fill is paid once: repeated and partial claims never pay more in total",
  "Whatever the pattern of partial fills and claims, by whomever, the total paid for an order never exceeds the value of what was filled and falls short of it by less than one unit per claim made. After a claim the same fill cannot be claimed or refunded again, the rest of the order keeps its place, and a fully claimed order is gone.",
  ["histories"], "every interleaving of partial fills, claims, batch claims and cancels of the same order",
  "Double payment needs a multi-step history with state left inconsistent by an earlier partial claim.",
  ["order.rs", "tick.rs"], [("moving the start position on partial claims", "order.rs claim_order")], [ST_ORD, ST_TICK], TX + Q)
p("C09", "A batch claim equals the individual claims, skipping those that cannot be made",
  "A batch claim pays and records exactly what claiming its entries one by one in the given order would, for up to 100 entries. Entries that cannot be claimed (unknown, unfilled, repeated, failing) are skipped without any effect on their order or on the other entries, and larger batches are refused whole.",
  ["histories", "inputs"], "every list of entries, in every reachable state, including repeats and dead entries",
  "Equivalence of two ways through the state space for all lists; tests use a few lists of live orders.",
  ["order.rs"], [("batch", "order.rs batch_claim_limits"), ("limit", "constants.rs MAX_BATCH_CLAIM")], [ST_ORD], TX + Q)
p("C10", "An order is accepted exactly when valid, and recorded exactly as placed",
  "A placement is accepted if and only if trading is active, the price level is within the supported range, the quantity is positive, exactly that quantity of exactly the right token is attached, and the bounty is at most one percent. It then gets a fresh id never used before, and is visible with its owner, level, side, quantity, bounty and time, behind everything already resting there; a refused placement changes nothing.",
  ["inputs", "histories"], "every combination of level, side, quantity, bounty and attached funds, in every reachable state",
  "Combinations of boundary values and states; tests take one invalid aspect at a time on a fresh book.",
  ["contract.rs", "order.rs", "state.rs"], [("validation", "contract.rs dispatch_place_limit, order.rs place_limit"), ("ids", "state.rs new_order_id")], [ST_ORD], TX + Q)
p("C11", "A failed payment or a refused call leaves no trace",
  "If any payment belonging to a placement, cancellation, claim or swap is refused by the bank, the whole transaction fails and books, orders and balances are as before. Every refused call likewise has no effect, and what a call does succeed in paying is exactly what was due.",
  ["fault_sequences", "histories"], "every transaction from every explored state with each of its payments refused in turn",
  "Payment failures are not simulated in the tests beyond constructing reply messages.",
  ["contract.rs", "order.rs", "types/reply_id.rs"], [("reply handling", "contract.rs reply"), ("sub-messages", "order.rs claim_order, cancel_limit, run_market_order; sudo.rs")], [], TX)
p("C12", "Reported liquidity is exactly what rests in the book",
  "For every price level and direction the reported resting liquidity equals the sum of the unfilled parts of its open orders, the cumulative placed total equals everything ever placed there, and the reported pool liquidity of each token is the sum over levels of that side. This holds after every transaction of any kind.",
  ["histories"], "every reachable state, every level and direction",
  "Accounting drift shows only after certain sequences of partial fills, cancels and claims.",
  ["order.rs", "tick.rs", "state.rs", "query.rs"], [("directional liquidity", "state.rs add_directional_liquidity, subtract_directional_liquidity"), ("tick totals", "order.rs")], [ST_TICK], Q)
p("C13", "Order and level listings are complete, correct and paginate without gaps",
  "Listings by owner, by price level and of all levels return exactly the open orders or known levels, once each, in ascending order, with their current remaining quantities. Start, end and limit select exactly the inclusive window asked for, so following pages see every entry exactly once, and the count covers all of the owner's orders, or all entries of the level's window, whatever the limit.",
  ["histories", "inputs"], "every book, owner, level and window",
  "Boundaries of every window over every book; tests fetch a few windows of one book.",
  ["query.rs", "state.rs"], [("listings", "query.rs orders_by_owner, orders_by_tick, all_ticks; state.rs get_orders_by_owner")], [ST_ORD], ["orders_by_owner, orders_by_tick, all_ticks, ticks_by_id queries"])
p("C14", "A quote is exactly what the swap would deliver",
  "At any moment the quoted output for an input equals what a swap of that input executed at that moment delivers. The quote is refused exactly when the book cannot use the whole input or the request is invalid, the swap fee the book reports is the one it accepts, and quoting never changes anything.",
  ["histories", "inputs"], "every book, direction and input amount",
  "An equality of two code paths over all books; the tests compare quotes with constants.",
  ["query.rs", "order.rs"], [("quote", "query.rs calc_out_amount_given_in"), ("shared sweep", "order.rs run_market_order_internal")], [ST_TICK], ["calc_out_amount_given_in query against the swap"])
p("C15", "The spot price is the price of the best resting order",
  "For either direction the spot price query reports the exact price of the best level that has resting liquidity on the side a taker would trade against (inverted for the inverse pair). It follows every placement, fill and cancellation that changes the best level.",
  ["histories"], "every reachable book with liquidity on the asked side",
  "Stale best-price pointers appear only after levels empty in particular ways.",
  ["query.rs", "order.rs", "types/orderbook.rs"], [("spot price", "query.rs spot_price"), ("best-level pointers", "order.rs place_limit, run_market_order_internal")], [("next bid / ask tick", "best-level pointers", "types/orderbook.rs")], ["spot_price query"])
p("C16", "The emergency switch stops all trading, nothing else, and can be undone",
  "While the book is halted every placement, cancellation, claim, batch claim and swap is refused; queries and administration keep working, and governance, admin and moderator can switch trading back on. Halting and reopening changes no order, balance or claim, and only those three authorities can operate the switch.",
  ["histories"], "every reachable state, every trading operation, every actor",
  "Needs every operation tried in every kind of halted state; tests try single calls on an empty book.",
  ["contract.rs", "sudo.rs", "auth.rs"], [("switch", "sudo.rs set_active, ensure_is_active; auth.rs dispatch_set_active")], [("active flag", "whether trading is on", "state.rs")], ["is_active query", "refusals"])
p("C17", "Authority passes only by the holder's nomination and the nominee's consent",
  "The admin changes only by governance, by renouncing, or when the nominee of the current admin accepts; the moderator only when the nominee of the admin accepts. A nomination can be replaced or rejected and is used at most once; one for admin can be withdrawn and does not survive a change of admin. Nobody else can nominate, accept, withdraw, operate the switch or set fees, and the queries always report the true holders.",
  ["histories"], "every reachable configuration of roles and offers, every actor, every administrative call",
  "The role machine's whole state space; tests step through a few handovers.",
  ["auth.rs", "sudo.rs"], [("handover", "auth.rs dispatch_*"), ("governance", "sudo.rs sudo")], [("admin, offers, moderator", "role holders and pending offers", "auth.rs")], ["auth queries", "refusals"])
p("C18", "The maker fee is capped, set only by the admin, and applies as of the claim",
  "Only the admin can set the maker fee and its recipient; the fee can never exceed five percent and an invalid recipient is refused. The fee in force at the moment of a claim is the one charged, it goes to the recipient of that moment, and the query reports it.",
  ["histories", "inputs"], "every sequence of fee and recipient changes interleaved with fills and claims, every fee at and around the cap",
  "Interleavings of governance and claims; tests set a fee once.",
  ["auth.rs", "orderbook.rs", "order.rs"], [("setting", "auth.rs dispatch_set_maker_fee*, orderbook.rs set_maker_fee"), ("charging", "order.rs claim_order")], [("maker fee", "fee and recipient", "state.rs")], ["get_maker_fee query"] + TX)
p("C19", "Every price level has exactly its documented, strictly increasing price",
  "Each of the 290,402,824 supported levels converts to the price given by the documented rule: level zero at price one, nine million levels per power of ten, in equal steps of a millionth of that power. Prices are positive and strictly increase with the level, and levels outside the range are refused everywhere.",
  ["inputs"], "all supported levels, and levels beyond both ends",
  "290 million inputs; the tests check a few dozen.",
  ["tick_math.rs", "constants.rs"], [("conversion", "tick_math.rs tick_to_price, pow_ten")], [], ["spot_price query", "prices of trades"])
p("C20", "Amount conversion is exact and rounds in the book's favour",
  "Converting an amount between the two tokens at any level's price gives the exact quotient or product, rounded down when the book pays and up when the book is paid, with no intermediate rounding error however large or small amount and price are. As a consequence a taker never pays less than the price of what it receives and a maker is never paid more than its fill is worth.",
  ["inputs"], "every amount at every supported price, both directions, both roundings (enumerated on a grid of levels and amounts)",
  "Precision loss needs an unlucky combination of amount and price; the tests use convenient ones.",
  ["tick_math.rs"], [("conversion", "tick_math.rs amount_to_value, multiply_by_price, divide_by_price")], [], TX)
p("C21", "Cancelled volume is skipped exactly when the queue reaches it",
  "Cancelled orders hold up nobody: as soon as everything ahead of a cancelled order is filled or cancelled, the queue continues behind it without consuming taker volume, and not before. This holds for any number of cancellations in any order, interleaved with fills and later placements, and the reported realizable cancellations agree with it.",
  ["histories"], "every order of cancellation of up to eight queued orders with fills in between, and structured histories of dozens",
  "The outcome rests on a self-balancing tree whose shape depends on the order of cancels; the tests check shapes for a few orders and random inserts without fills.",
  ["sumtree/node.rs", "sumtree/tree.rs", "tick.rs", "query.rs"], [("tree insertion and rebalancing", "sumtree/node.rs insert, rebalance, rotate_*"), ("prefix sums", "sumtree/tree.rs get_prefix_sum"), ("sync", "tick.rs sync_tick")], [ST_TICK], Q)
p("C22", "The cost of an operation does not grow with the number of orders",
  "Placing, filling, claiming and swapping touch an amount of storage that does not depend on how many orders rest on the level or were filled before; a swap's cost grows only with the levels (emptied ones included) it crosses until its input is used up. Cancelling, and claiming or cancelling behind cancelled orders, grows at most logarithmically with the number of cancellations on the level.",
  ["histories", "configurations"], "books of up to 256 orders (1000 in the thorough run), every listed way of building them up",
  "Complexity is a statement over growing inputs; no test measures it.",
  ["order.rs", "tick.rs", "sumtree/node.rs", "sumtree/tree.rs"], [("constant-time fills", "order.rs run_market_order_internal"), ("balanced tree", "sumtree/node.rs rebalance")], [], ["storage accesses"])
p("C23", "An operation touches only what it concerns",
  "Placing, cancelling or claiming at one price level and side changes nothing reported about any other level or the other side, and nothing about other orders. A swap changes only the opposite side and only levels at or better than its target, and a claim moves no liquidity at all.",
  ["histories"], "every operation from every explored state, every other order and level",
  "A non-interference statement over all pairs of things; tests look at the thing they change.",
  ["order.rs", "tick.rs", "sumtree/node.rs", "state.rs"], [("keys by level and direction", "state.rs, sumtree/node.rs, sumtree/tree.rs")], [ST_TICK, ST_ORD], Q)
p("C24", "Responses and events report exactly what happened",
  "Every successful call reports the parties, ids, levels, directions, tokens and amounts of what it did, truthfully: the swap response's amount is what was delivered, the claim event's claimed and remaining amounts are those paid and left. A batch reports one claim event per claim made and none for those skipped.",
  ["histories"], "every successful operation from every explored state",
  "Indexers depend on these for every history; tests compare a few attribute lists.",
  ["order.rs", "contract.rs", "sudo.rs", "auth.rs"], [("claim event", "order.rs generate_claimed_order_event"), ("attributes", "order.rs, sudo.rs, auth.rs")], [], ["response attributes, events and data"])
p("C25", "Books written by older versions keep working after an upgrade",
  "A book whose storage lacks the later-added fee, fee recipient, switch or placement times behaves as one with no fee, trading on and unknown times: nothing fails, no order or claim is lost. Running the upgrade entry point at any moment, any number of times, changes nothing.",
  ["histories", "configurations"], "every subset of missing items, at every point of explored histories",
  "Needs old-format storage combined with later histories; the tests always start from fresh storage.",
  ["contract.rs", "state.rs", "types/order.rs", "sudo.rs"], [("defaults", "state.rs get_maker_fee; sudo.rs ensure_is_active; types/order.rs"), ("migrate", "contract.rs migrate")], [], TX + Q)
p("C26", "Extreme amounts and prices are handled exactly or refused cleanly",
  "With amounts from one unit to the largest representable and prices at both ends of the range, every operation either does exactly what its rules prescribe or is refused without effect; it never wraps around, truncates, or leaves an order that can neither be claimed nor cancelled.",
  ["inputs", "histories"], "extreme ticks and amounts on both sides, every short history over them",
  "The corners of two huge ranges combined with trading histories; tests touch a few.",
  ["order.rs", "tick_math.rs", "tick.rs", "types/coin.rs"], [("wide arithmetic", "tick_math.rs; types/coin.rs"), ("accumulators", "types/tick.rs")], [ST_TICK], TX + Q)
p("C27", "Creation needs two different, existing tokens and gives an empty book",
  "Creation succeeds if and only if the two token names differ and both have a positive supply. The new book is active and empty, trades exactly that pair in exactly that orientation, charges no fee, has the documented initial admin and moderator and carries the contract name and version that upgrades look for; the response names the pair.",
  ["inputs", "configurations"], "every ordered pair of names with every combination of supply answers listed",
  "The tests create books from one valid and few invalid pairs.",
  ["contract.rs", "orderbook.rs", "types/orderbook.rs"], [("creation", "orderbook.rs create_orderbook; contract.rs instantiate")], [], ["denoms, auth, is_active, get_maker_fee queries"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
