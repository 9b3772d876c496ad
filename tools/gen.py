#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the output is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, M, F, C, I = "dex/src/state.rs", "dex/src/matching.rs", "dex/src/fees.rs", "dex/src/critbit.rs", "dex/src/instruction.rs"
TESTS = "The unit tests replay a few fixed order sequences and one random simulation of two-sided limit orders; "
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note, level="model_checking", bounds=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), _note=note))
HI = ["histories", "inputs"]

prop("D01", "Custody: the vaults always cover everything the market owes",
 "At every point of every history each vault holds at least the market's recorded deposits plus accrued fees, the recorded deposits equal exactly the sum of all users' balances (with undelivered events counted), and the pool of referrer rebates equals what the users' accounts record. Tokens move only between the accounts an instruction is entitled to move, in the exact amounts charged or paid, so no sequence of orders, fills, self-trades, cancellations, evictions, settlements, sweeps and takes creates or destroys value.",
 HI, "every sequence of market instructions by several traders, every crank schedule, every order size, price, fee tier and lot size in the bounds",
 TESTS + "none checks solvency after evictions, send-takes, self-trades, settles with referrers or full queues, nor for every interleaving with the crank.",
 [S, M, F], [("deposit and vault bookkeeping", S + " process_new_order_v3, process_send_take, process_settle_funds, process_sweep_fees"), ("balance updates of fills and cancels", M + " new_bid, new_ask, cancel_leaf_node"), ("event application", S + " process_consume_events")],
 ["market account deposit/fee/rebate counters", "vault token balances", "open orders accounts"], "")

prop("D02", "Each trader's ledger is exact: total, free and locked funds",
 "After any history each trader's account records exactly the funds the trader deposited plus proceeds minus costs and withdrawals, split into free and locked, where the locked part equals what the trader's resting orders and undelivered events still require. Free funds never exceed the total, no operation of another trader changes them except a fill of the trader's own resting order delivered as an event, and every fill, cancel, eviction and expiry releases or pays precisely the right amount.",
 HI, "every sequence of placing, matching, cancelling, self-trading, evicting, pruning, cranking and settling within the bounds, for several lot sizes, prices and fee tiers",
 TESTS + "per-account balances are asserted only at the end of single fixed flows.",
 [S, M], [("OpenOrders credit, lock and unlock", S + " impl OpenOrders"), ("maker and taker amounts", M + " new_bid, new_ask"), ("event application", S + " process_consume_events")],
 ["open orders account balances", "events"], "")

prop("D03", "Matching follows strict price-time priority and the book is never crossed",
 "An incoming order trades against the best opposite price first and, at equal prices, the earliest order first, always at the resting order's price, taking from each order all it can before the next, and stops only when its price, size, budget or match limit is exhausted or a self-trade rule applies. What rests afterwards is exactly the untraded remainder with its own price, owner and client id behind all earlier orders of that price; orders not traded are untouched, and no bid ever rests at or above an ask after an order completes within its match limit.",
 HI, "all order books and incoming orders reachable in the bounds: prices at power-of-two and extreme boundaries, sequence numbers at carries, partial fills, any interleaving with cancels and the crank",
 TESTS + "they cover a few books with small adjacent prices.",
 [M, C, S], [("best order selection", M + " find_bbo, new_bid, new_ask"), ("order id = price and sequence", S + " gen_order_id"), ("ordered tree", C + " Slab insert/remove/find_min/find_max")],
 ["fill events", "bids and asks accounts"], "")

prop("D04", "A taker never trades beyond its limit price, size or budget",
 "No order ever buys above or sells below its limit price, trades more than its stated maximum quantity, or spends (including fees) or locks more quote currency than its stated maximum, and the tokens taken from the payer are exactly those needed beyond the free balance. Within those limits the order obtains the maximum trade available, and an order that cannot be paid for is refused with no effect.",
 HI, "the grid of incoming orders (side, price, size, budget, type, self-trade mode, match limit) against every book in the bounds, at lot sizes and prices including overflow boundaries",
 TESTS + "budgets that cut a fill, overflow boundaries and fees eating into the budget are sampled by one property test of price arithmetic only.",
 [M, S, F], [("budget and size arithmetic", M + " new_bid, new_ask"), ("native amount computation", S + " process_new_order_v3"), ("fee removal from budget", F + " remove_taker_fee, taker_fee")],
 ["fill events", "payer token account", "open orders account"], "")

prop("D05", "Order types, match limits and expiry do what they promise",
 "Immediate-or-cancel orders never rest, post-only orders never trade, and an order that cannot be fully handled within its match limit stops there with its remainder rested or dropped as its type says and everything else unchanged. An order whose stated expiry has passed at submission is refused with no effect, and each accepted order reports its fate in the event queue.",
 HI, "every order type, match limit, expiry and clock value against every book in the bounds",
 TESTS + "post-only, match limits and expiry are each covered by at most one fixed case.",
 [M, S], [("type handling", M + " new_order, new_bid, new_ask"), ("expiry check", S + " process_new_order_v3")], ["event queue", "book", "open orders account"], "")

prop("D06", "Self-trade behaviour is exactly the one requested",
 "When an order would trade with an order of the same account, decrement-take trades it without taker fee or rebate and both sides' funds return to that account; cancel-provide cancels the resting order, releases its funds and goes on matching; abort-transaction refuses the whole instruction with no effect. In each mode other traders' orders are matched normally and the account's total balance changes only by genuine trades and fees.",
 HI, "every sequence of own and foreign resting orders hit by every order kind, self-trade mode and match limit in the bounds",
 TESTS + "one fixed case exists per mode at most, and none combines self-trades with fees, partial fills, budgets and several makers.",
 [M, S], [("self-trade branches", M + " new_bid, new_ask"), ("mode selection", I + " SelfTradeBehavior")], ["event queue", "open orders account", "book"], "")

prop("D07", "Fees, rebates and fee tiers are exact and attributed correctly",
 "Every taker is charged its tier's rate on the quote value of each trade rounded up, makers receive exactly their rebate rounded down, and the market accrues exactly the rest, with a fixed share recorded for the referrer; the tier follows from the SRM or MSRM account shown, which must belong to the trader, and stable-pair markets use the stable rate. Only accrued fees can be swept, only to the fee authority, once, and the referrer share is paid once on settlement to the given referrer or to the market when none is given.",
 HI, "all seven tiers around their thresholds, SRM and MSRM, stable and ordinary pairs, trade values from one unit to overflow boundaries, all orders of trade, settle, sweep and close",
 "The tests compare a few tier values and one fee amount; attribution of rebates and rounding over whole histories is untested.",
 [F, S, M], [("tier table and rounding", F + " FeeTier"), ("rebate and fee accrual", M + " new_bid, new_ask; " + S + " process_consume_events, process_settle_funds, process_sweep_fees"), ("tier account validation", S + " account_parser fee tier parsing")],
 ["fee and rebate counters", "referrer and sweep token accounts"], "")

prop("D08", "Events are delivered exactly once, in order, however the crank runs",
 "Every fill and removal of a resting order produces one event, and every event is applied exactly once to the account it names, in queue order, with the same final effect whatever batching, limits, account subsets and interleaving with other instructions the crank uses. A crank call applies the longest prefix whose accounts it was given, stops there without skipping or losing anything, and never credits another account.",
 ["histories", "schedules"], "all crank schedules (limits, account subsets and orders) interleaved with all trading sequences in the bounds, including full and wrapping queues",
 TESTS + "each consumes the whole queue at once with all accounts.",
 [S, M], [("queue", S + " Queue push_back/pop_front/revert_pushes"), ("event application", S + " process_consume_events"), ("event emission", M + " new_bid, new_ask, cancel_leaf_node")],
 ["event queue account", "open orders accounts"], "")

prop("D09", "Cancellation and order lifecycle: an order lives once and is cancellable",
 "Every resting order occupies exactly one slot of its owner's account and one entry in the book, keeps its identity until it is fully filled, cancelled or evicted, and its slot is reusable only after the event ending it is delivered. Its owner (and only its owner) can cancel it by order id or by client id exactly while it rests, singly or in batches, which removes that order alone and returns exactly the funds it still holds; cancelling anything else is refused or ignored with no effect.",
 HI, "all sequences of placing, cancelling by id, client id and batches, duplicate and zero client ids, wrong sides and foreign ids, filling and cranking, up to full accounts of 128 orders",
 TESTS + "cancel by id is covered for one order; client id batches, slot reuse and duplicates over histories are not.",
 [S, M], [("slots", S + " OpenOrders add_order, remove_order, orders_with_client_ids"), ("cancel instructions", S + " process_cancel_order_v2, process_cancel_order_by_client_id_v2, process_cancel_orders_by_client_ids"), ("book removal", M + " cancel_order_v2, cancel_leaf_node")],
 ["open orders slots", "book", "event queue"], "")

prop("D10", "Replacing orders is cancel-then-place, atomic and exact",
 "Replacing orders by client id first cancels the trader's resting orders bearing any client id of the batch, ignoring ids with nothing resting, and then places the new orders in turn, exactly as a batch cancellation followed by the individual placements would. If any placement is refused the whole instruction has no effect.",
 HI, "all replace batches in the bounds against all own-order situations: absent, partially filled, filled but not yet cranked, crossing, out of funds, self-trading, full queues",
 "No test issues a replace instruction.", [S, I], [("replace", S + " process_replace_order_by_client_id, process_replace_orders_by_client_ids")], ["open orders account", "book", "event queue", "payer"], "")

prop("D11", "Settlement pays out exactly the free balance, once, to the owner",
 "Settling transfers exactly the trader's free base and quote balances from this market's vaults to the named wallets of the trader's choice under the trader's signature, sets them to zero and leaves locked funds, orders and everybody else untouched. Settling again pays nothing, and the referrer share is paid exactly once.",
 HI, "all histories of trading and settling in the bounds, with and without referrer, disabled and permissioned markets, foreign accounts in every position",
 TESTS + "settle is executed once in a single flow.", [S], [("settlement", S + " process_settle_funds"), ("account checks", S + " account_parser::SettleFundsArgs")], ["wallets", "vaults", "open orders account"], "")

prop("D12", "An instant take exchanges exactly and respects the minimum asked",
 "A take without an open orders account executes against the book like an immediate order, pays out at once exactly what it bought or sold net of fees, takes from the wallet exactly what it spent, and never more than its stated maximum. It is refused with no effect whenever the result would be below the requested minimum amounts, and it leaves no order, balance or unclaimable credit behind.",
 HI, "the grid of takes (side, price, size, budget, minimum amounts, match limit, fee tier) against every book in the bounds including full queues",
 "No test covers the take instruction beyond one fixed case.", [S, M], [("take", S + " process_send_take"), ("matching", M + " process_orderbook_request")], ["wallets", "vaults", "market counters", "event queue"], "")

prop("D13", "Only the rightful accounts and signatures can act",
 "No instruction moves funds, orders or state of a trader or market unless the required owner or authority signed it and every account passed is the one that belongs to this market, owned by the right program. Replacing any account by another market's, another trader's, a forged, a repeated or a missing one, or withholding a signature, leads to refusal or harms only the submitter, and an accepted instruction changes only the accounts it is entitled to change.",
 ["inputs", "histories"], "every instruction kind with every single and every pair of account positions replaced by every account of a world with two markets, attackers and forged copies, every signature subset, dropped and extra accounts",
 "The tests pass only the right accounts with the right signatures.", [S], [("account parsing", S + " account_parser"), ("market and open orders loading", S + " Market::load, load_orders_mut, load_bids_mut"), ("owner checks", S + " check_unowned and signer newtypes")],
 ["result", "every account's bytes and balances"], "")

prop("D14", "A disabled market takes no new risk and releases everything",
 "Once the disabling authority disables a market no new orders, takes, accounts, sweeps or prunes are accepted, while cancelling, cranking, settling and closing keep working exactly as before. Only the authority can disable, nothing re-enables the market, and disabling moves no funds.",
 HI, "every history in the bounds with the disable instruction at every point, followed by every instruction", "One test disables an empty market.",
 [S], [("flag checks", S + " MarketState::check_flags, Market::load allow_disabled"), ("disable", S + " process_disable_market")], ["result", "market flags"], "")

prop("D15", "Traders can always leave with all their funds",
 "From every reachable state each trader can, with honest cranking and without the cooperation of anyone else, cancel all orders, have all events delivered, settle and close the account, receiving exactly the tokens the market owes them and the account's rent. At the end the vaults hold only fees, rebates and rounding remainders.",
 ["histories", "schedules"], "from every state reachable within the bounds, the complete exit procedure of every trader", TESTS + "no test checks that exit succeeds from arbitrary states.",
 [S, M], [("cancel, crank, settle, close", S + " process_cancel_order_v2, process_consume_events, process_settle_funds, process_close_open_orders")], ["wallets", "vaults", "open orders accounts"], "")

prop("D16", "Permissioned markets honour each appointed authority",
 "On a permissioned market an account for trading can be opened only with the signature of the appointed authority, pruning needs the prune authority, and where a crank authority is set only it can run the crank; each authority gets no other power. Markets without such authorities accept the plain forms and refuse the permissioned ones, and trading, cancelling and settling stay under the trader's own signature.",
 ["inputs", "histories", "configurations"], "markets with every combination of authorities, every signature subset and account substitution, histories to the stated depth", "The integration tests in TypeScript need a validator and cover one configuration.",
 [S], [("authorities", S + " Market::open_orders_authority, prune_authority, consume_events_authority"), ("init, prune, permissioned crank", S + " account_parser::InitOpenOrdersArgs, PruneArgs, ConsumeEventsArgs")], ["result", "open orders accounts"], "")

prop("D17", "A market is created only from fresh, exclusive, properly owned parts",
 "Initialization is accepted only if market, book and queue accounts are blank, large enough, rent exempt and owned by the program, and both vaults are token accounts of the right mints controlled solely by the market's own derived authority, without delegate or close authority. A created market records exactly the parameters given, starts with empty book, queues and counters, and can never be initialized again.",
 ["inputs", "configurations"], "initialization with every single and pair of deviations: sizes, owners, rent, mints, vault authority, delegate, close authority, nonces, duplicate accounts, authorities, used accounts", "The tests initialize one correct market.",
 [S], [("initialization", S + " process_initialize_market, account_parser::InitializeMarketArgs"), ("vault signer", S + " gen_vault_signer_key")], ["result", "all account bytes"], "")

prop("D18", "The order book store behaves as an ordered map with bounded capacity",
 "Under every sequence of insertions, replacements, removals and lookups the book's storage returns exactly what a sorted map would: exact lookup, smallest, largest, contents in order, replacement on equal keys. Capacity is fully usable and recycled, an insertion that does not fit is refused without any change, and a removed entry never reappears.",
 HI, "all operation sequences to the stated depth over key sets with shared prefixes of every length, from capacity zero up", "A randomised test inserts and removes random keys; it samples.",
 [C], [("crit-bit slab", C + " Slab insert_leaf, remove_by_key, remove_min, remove_max, find_by_key, traverse")], ["slab contents", "result"], "")

prop("D19", "Full book, queue or account never corrupts or loses anything",
 "When the book side is full, the least aggressive resting order is evicted with its funds released by an event; when the event queue or an account's order slots are full the instruction stops or is refused cleanly. In each case balances, slots, queue and book stay exact, nothing is overwritten and work resumes once there is room.",
 HI, "all short histories from books, queues and accounts filled to each of the last few free places", "No test fills a book or queue.",
 [S, M, C], [("eviction", M + " new_bid, new_ask insertion failure branch"), ("queue limits", S + " Queue::push_back, process_new_order_v3 limit"), ("slots", S + " OpenOrders::add_order")], ["book", "event queue", "open orders accounts"], "")

prop("D20", "Trading accounts open and close safely",
 "A trading account is bound for ever to one market and one owner when opened, only if blank, rent exempt and signed for by the owner, and starts empty. It can be closed only by its owner when it holds no orders, no funds and no unpaid rebate, which hands all its rent to the chosen account, and a closed account can never be used again in the market nor reopened in place.",
 HI, "all histories of opening, trading, settling, closing and reusing in the bounds, with substituted accounts and signatures", "One test closes one account.",
 [S], [("opening", S + " load_orders_mut, init_open_orders"), ("closing", S + " process_close_open_orders")], ["open orders accounts", "lamports", "result"], "")

prop("D21", "Pruning removes exactly one account's orders and nothing else",
 "The prune authority can remove resting orders of a given account up to the stated limit, each released with exactly its remaining funds to its owner as by cancellation, while all other orders, balances and priorities are untouched. Nobody else can prune, and pruning pays nothing to the pruner.",
 HI, "all books in the bounds with several owners, every limit, pruning interleaved with trading and cranking", "No unit test prunes.",
 [S, M], [("prune", S + " process_prune"), ("removal", M + " remove_all")], ["book", "event queue", "open orders accounts"], "")

exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None

NOTE = "Exhaustive within the alphabets and depths listed in DESIGN.md and in the evidence file's runs; every transition executes the real program code and is compared with an independent reference specification."
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "_note"}) + "\n")
m = dict(version=1, setup_cmd="bash /verif/setup.sh",
         hooks=dict(guard="none", enable="no hooks: the checks build the unmodified crates with feature no-entrypoint"),
         checks=[dict(property=p["id"], quick_cmd=f"bash /verif/check.sh {p['id']} quick", thorough_cmd=f"bash /verif/check.sh {p['id']} thorough",
                      technique=TECH.get(p["id"], "explicit-state model checking of the implementation: breadth-first enumeration of all operation sequences executing the real program, compared step by step with a reference specification") if "TECH" in globals() else "explicit-state model checking of the implementation: breadth-first enumeration of all operation sequences executing the real program, compared step by step with a reference specification",
                      level="model_checking", level_note=p["_note"] or NOTE) for p in P],
         not_applicable=globals().get("NA", []))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(P))
