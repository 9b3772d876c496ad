NOTE_W = "Exhaustive over the encodings listed in DESIGN.md; every case runs the real decoder, encoder and builders."
prop("D22", "Wire format: instructions decode exactly as documented and round-trip",
 "Every byte string is either decoded to exactly the instruction its documented layout says or refused, in particular when truncated, over-long or carrying an invalid enumeration value or zero where a non-zero number is required, and encoding followed by decoding gives the same instruction back. The client-side instruction builders name the documented accounts in the documented order with the documented signer and writable flags, and the instruction they build is accepted by the program with the effect of that instruction.",
 ["inputs"], "every instruction kind with every field at boundary values, every truncation and extension, every value of each enumeration word, every builder with and without its optional accounts",
 "The tests pack and unpack a few instructions; malformed bytes and the account lists of the builders are not tested.",
 [I], [("codec", I + " MarketInstruction::pack, versioned_pack, unpack, unpack_v1"), ("builders", I + " initialize_market, new_order, settle_funds, consume_events, ...")],
 ["decoded instruction", "account metas", "program result"], "")

PC, PP, PL = "pool/src/context.rs", "pool/src/pool.rs", "pool/src/lib.rs"
PS = "pool/schema/src/lib.rs"
EA, ES = "pool/examples/admin-controlled/src/lib.rs", "pool/examples/simple/src/lib.rs"
XL, XM, XP = "dex/permissioned/src/lib.rs", "dex/permissioned/src/middleware.rs", "dex/permissioned/src/proxy.rs"
NOPOOL = "The pool framework has no tests; "
NOPROXY = "The proxy is exercised only by TypeScript tests that need a validator; "

prop("L01", "Pool shares: every creation and redemption is exact and never dilutes holders",
 "Creating pool tokens takes from the creator exactly each asset's proportional share rounded up, redeeming pays exactly the proportional share rounded down, and exactly the requested number of tokens is minted or burnt, so the assets behind each outstanding pool token never decrease through anybody's creations and redemptions in any order. A request the user cannot pay for, or whose amounts do not fit the number range, is refused with no effect, and swaps are refused by pools that do not offer them.",
 HI, "every sequence of creations, redemptions and direct donations by several users to the stated depth, with one to three assets, skewed, tiny, empty and near-overflow balances, and the full grid of amounts around rounding boundaries",
 NOPOOL + "rounding direction and value per token must hold for every amount and history.",
 [PC, PP, PL], [("basket computation", PC + " get_simple_basket"), ("creation and redemption", PP + " Pool::process_creation, process_redemption; " + PC + " transfer_basket_from_user, transfer_basket_to_user, mint_tokens, burn_tokens_and_collect_fees"), ("dispatch", PL + " pool_entrypoint Execute")],
 ["user, vault and pool token balances", "pool token supply", "result"], "")
prop("L02", "Pool fees are exact, split as promised and never exceed the rate",
 "Each creation and redemption charges exactly the pool's fee rate on the requested pool tokens, rounded up, split so that the protocol's fee account gets two fifths (but at least one basis point), the referrer half of that share and the pool's initializer the rest, rounded and capped as the fee rules state. The fee is taken only out of the pool tokens being created or redeemed, fees plus the user's remainder add up exactly to the request, a user paying into the user's own fee account is not charged that part, and a rate outside the permitted range is never applied.",
 HI, "every fee rate and amount of a grid with all rounding boundaries, distinct and shared fee accounts, and all short sequences of operations",
 NOPOOL + "the split and its rounding matter for every amount.",
 [PC], [("fee computation", PC + " Fees, get_fees"), ("fee collection", PC + " mint_tokens, burn_tokens_and_collect_fees")], ["fee account balances", "pool token supply"], "")
prop("L03", "A pool acts only on its own vaults, mint and fee accounts, for the signing user",
 "An execute or quote request is accepted only with the pool's own state, mint, vaults, vault authority and fee accounts in their places and, for an execute request, the signature of whoever owns the tokens taken. Replacing any account by another pool's, another user's, a forged, a repeated or a missing one, or sending a malformed request, leads to refusal or harms only the submitter, and other accounts are untouched.",
 ["inputs"], "every request kind with every single and every pair of account positions replaced by every account of a world with two pools, attackers and forgeries, every signature withheld, dropped and extra accounts, truncated and extended request bytes",
 NOPOOL + "account substitution is never tried.",
 [PC, PL], [("account parsing", PC + " PoolContext::new, check_token_account, check_mint, check_account_params"), ("request decoding", PL + " pool_entrypoint; " + PS)], ["result", "every account's bytes and balances"], "")
prop("L04", "Admin-controlled pools: powers, pause and delegates stay within the rules",
 "Only the signing admin can pause or unpause the pool, approve a delegate for a vault, add or remove an asset, change the fee or hand over administration, each with exactly its stated effect. While paused no creation or redemption takes place, an unpaused pool never has a vault that a delegate can spend from, and the pool's list of assets always consists of distinct vaults held by the pool's own authority.",
 HI, "every sequence of admin and user requests to the stated depth with right and wrong signers and accounts",
 NOPOOL + "the rules relate several requests of a history.",
 [EA, PL, PC], [("admin requests", EA + " FakeAdmin and AdminControlledPool"), ("hooks of the framework", PL + ", " + PP)], ["pool state", "vault delegates", "result"], "")
prop("L05", "A pool is created once, from exclusive, properly held accounts",
 "Initialization is accepted only for a blank rent-exempt state account owned by the program, a pool token mint under the pool's own derived authority, distinct rent-exempt vaults held by that authority, fee accounts of the pool's token with the protocol's one held by the fixed fee owner free of any delegate, and a fee rate in range. An initialized pool records exactly the parameters given, moves no tokens and can never be initialized again.",
 ["inputs", "histories"], "initialization with every single and pair of deviations in accounts, owners, sizes, rent, mints, authorities, balances, fee rates and nonces, repeated initialization, followed by short histories",
 NOPOOL + "none of the deviations is tried.",
 [PL, PC, PS], [("initialization", PL + " Pool::initialize_pool"), ("fee range", PL + " MIN_FEE_RATE, MAX_FEE_RATE")], ["pool state account", "result"], "")
prop("L06", "A pool's quote is what execution then does, and quoting changes nothing",
 "Asking a pool for the basket of a creation or redemption returns exactly the amounts that executing a creation of that size, or a redemption that burns that many pool tokens net of fees, right afterwards would move, and is refused exactly when the amounts cannot be computed. A quote changes nothing except the buffer in which the answer is returned.",
 HI, "before every execution in every explored history the quote is asked and compared with what the execution moves",
 NOPOOL + "quote and execution are computed in different instructions and must agree in every state.",
 [PL, PP, PC], [("quote", PL + " GetBasket handling"), ("baskets", PP + " get_creation_basket, get_redemption_basket")], ["return buffer", "token balances"], "")

prop("X01", "Permissioned proxy: a user's orders and funds answer to that user alone",
 "Through the permissioned-market proxy an order can be placed, an account opened, settled or closed, and an order cancelled only with the signature of the user to whom the trading account belongs, the account being the one derived for that user and market, and token funds are taken only from the signing user's own wallet. Substituting another user's, market's or program's account in any position, or withholding a signature, gives nobody else's funds, orders or accounts away.",
 ["inputs", "histories"], "every relayed instruction with every single account position (and pairs for the smaller instructions) replaced by every account of a world with two markets, two users and forgeries, every signature withheld; all histories to the stated depth",
 NOPROXY + "they send only well-formed requests of honest users.",
 [XL, XM, XP], [("user and open orders derivation", XM + " OpenOrdersPda, and " + XL), ("signature forwarding", XP + " MarketProxy::run"), ("order book's authority checks", S)],
 ["result", "all token balances", "open orders accounts", "book"], "")
prop("X02", "Permissioned proxy relays faithfully and leaves no allowance behind",
 "A request accepted by the proxy has exactly the effect on the market that the same request sent directly by the trading account's owner would have, with the same result and the same payments, and a request the market refuses has no effect. After every request no spending allowance over any user's tokens remains, and a request that the proxy does not relay changes nothing.",
 ["inputs", "histories"], "all sequences of relayed instructions by several users and the crank to the stated depth, order parameters over a grid, malformed and truncated requests",
 NOPROXY + "they do not compare with direct use.",
 [XL, XM, XP], [("relaying", XP + " MarketProxy::run"), ("allowance grant and revocation", XM + " OpenOrdersPda new_order_v3, and post-call revocation"), ("fallback", XP)],
 ["result", "market, book, queue and open orders accounts", "token delegates"], "")
prop("X03", "Permissioned proxy pays referral fees only to the configured address",
 "Settling through the proxy succeeds only when it names the referral account configured for the market's operator, and the referrer share of fees then goes to exactly that account. No user or third party can redirect the share to another account or settle around it.",
 ["inputs", "histories"], "settlement with every account position replaced by every other account, missing referral, in all histories to the stated depth", NOPROXY + "one settlement is made.",
 [XM, XL], [("referral check", XM + " ReferralFees")], ["referral token account", "result"], "")

prop("A01", "The owner assertion succeeds exactly when the account has the stated owner",
 "The assertion program accepts a request exactly when the first account given is owned by the 32-byte program address in the request, whatever other accounts, flags, balances or data accompany it. Every other request, including one that is empty, short or too long or names no account, is refused, and nothing is ever changed.",
 ["inputs"], "all lengths of request data around 32 bytes, every single-bit difference of the address, prefixes and permutations, zero to several accounts in every order with varying flags",
 "The program has no tests.", ["assert-owner/src/lib.rs"], [("comparison", "assert-owner/src/lib.rs process_instruction")], ["result"], "")
prop("X04", "Middleware framework: order, adjustments, extra calls and failures are honoured",
 "A proxy built from several middlewares hands every request to each of them once, in the order in which they were added, after each has taken its own share of the request data in that order, so that each sees the adjustments of the ones before it. The order book is then called once, with exactly the adjusted request, accounts and signatures, between the extra instructions the middlewares asked to run before and those asked to run after it, followed by their callbacks, each in the order asked; and if any middleware, extra instruction, callback or the order book refuses, the whole request has no effect.",
 ["inputs"], "every request kind combined with every script of one middleware, every pair of scripts of two and selected scripts of three and four, where a script chooses edits, extra instructions before and after, callbacks, derived signatures and failure at each stage; missing accounts, wrong order book, requests that are not relayed",
 "No test drives the framework with anything but the shipped middlewares.",
 [XP, XM], [("dispatch", XP + " MarketProxy::run"), ("trait", XM + " MarketMiddleware, Context")], ["order of calls", "arguments seen", "state of the market", "result"], "")
prop("L07", "Pool framework: custom pools' hooks get the true context and decide the outcome",
 "A pool implementation built on the framework is given exactly the accounts, signatures, amounts and recorded state of the request in their documented roles, extra accounts included, and its baskets, swaps, recorded state and refusals are carried out exactly: tokens move by the basket it names, state it changes is recorded by an execution and never by a quote, and what it sets up at initialization is recorded and still subject to the framework's fee and authority rules. Requests outside the protocol reach its own handler unaltered, and a malformed request of the protocol never does.",
 ["inputs", "histories"], "every sequence to the stated depth of creations, redemptions, two-way swaps, negative, short and over-long baskets and quotes with zero to three required extra accounts; initialization with every deviation of the hook; every single-bit and truncation variant of request bytes",
 NOPOOL + "no test has a pool with hooks of its own.",
 [PL, PP, PC], [("dispatch and recording of state", PL + " pool_entrypoint, PoolProcessor"), ("hooks", PP), ("context", PC + " PoolContext::new, transfer_basket_from_user, transfer_basket_to_user")], ["accounts and arguments given to the hooks", "pool state", "token balances", "result"], "")
prop("L08", "Pool formats: requests and records are read, written and published alike",
 "Every byte string offered as a pool request, pool record, basket or part of one is read as exactly the value its documented layout says or refused, in particular when cut short, over-long, wrongly tagged or carrying an unknown variant or flag, and every value is written back as exactly those bytes. The published description of the formats, followed literally, yields the same fields and values, and the documented tags, fee constants and fee owner stay as they are, so that clients and pools built at different times understand each other.",
 ["inputs"], "every combination of the stated boundary values of all fields of requests and records with zero to three assets, extra accounts and swap amounts; for selected ones of each shape every truncation, extensions by up to eight bytes and every byte replaced; each read by the crate, by its published description and by the reference, and written back",
 NOPOOL + "a format can be changed consistently on both sides of the code without any test noticing, while every existing pool and client breaks.",
 ["pool/schema/src/schema.rs", PL], [("formats", "pool/schema/src/schema.rs PoolState, PoolRequest, PoolAction, Basket, Address, declare_tag"), ("published description", "pool/schema/src/print-schema.rs"), ("reading requests and records", PL + " pool_entrypoint, get_state, save_state")], ["values read", "bytes written", "published description", "result"], "")

CR, RP = "dex/crank/src/lib.rs", "common/src/client/rpc.rs"
NOCR = "The crank client has no tests (its demonstration needs a running validator); "
prop("C01", "Crank client: every event queue can be worked off by the instruction it builds",
 "For every non-empty event queue, whatever its length, its position in the ring and however many accounts own its events, the client's event-consuming instruction fits into a transaction, is accepted by the order book and consumes at least the first pending event, with exactly the effect of consuming those events in order. Repeating it empties the queue, and for an empty queue no instruction is produced.",
 ["inputs", "histories"], "every owner sequence of short queues at every position of the ring, fuller queues up to the last place, and 1 to 44 distinct owners in rotated and reversed order, each cranked until empty",
 NOCR + "stalling needs many owners in an unlucky order.",
 [CR], [("instruction", CR + " consume_events_instruction, consume_events_once"), ("reading the queue", CR + " parse_event_queue, remove_dex_account_padding")],
 ["size of the transaction", "number of events consumed", "all accounts"], "")
prop("C02", "Trading client: each call has exactly its effect or none, and says which",
 "Placing, cancelling (by one or by several client ids), settling, opening and closing through the client library and its commands, listing a market and consuming events report success exactly when the order book accepted the request, and then all accounts have changed exactly as that one request prescribes, with the given market, wallets, owner and payer. A refused request changes nothing, a lost, refused or dropped message never yields a false success nor an effect other than the complete one, and commands given an account that is no market do nothing.",
 ["histories", "fault_sequences"], "every sequence of client calls by two traders to the stated depth on open and permissioned markets, and from each state of the first levels every call with every single message of it lost, answered with an error, carried out but unanswered, or dropped after acceptance",
 NOCR + "none of the calls is tested, let alone with failing messages.",
 [CR, RP], [("calls", CR + " place_order, cancel_order_by_client_order_id, cancel_orders_by_client_order_ids, close_open_orders, init_open_orders, settle_funds, match_orders, list_market, gen_listing_params"), ("commands", CR + " start"), ("sending", RP + " send_txn, simulate_transaction"), ("market keys", CR + " get_keys_for_market")],
 ["result of the call", "all accounts of the ledger"], "")
prop("C03", "Token client: each call has exactly its effect or none, and says which",
 "Creating accounts, token accounts and mints, minting to a new or an existing account, transferring and reading tokens through the client library and its commands report success exactly when the ledger accepted all of it, and then exactly the promised accounts exist or changed, with the promised mint, owner, decimals, amount, size and rent-exempt balance, paid for by the given payer. A refused call changes nothing, and a lost, refused or dropped message never yields a false success nor a partial effect.",
 ["histories", "fault_sequences"], "every sequence of calls to the stated depth over right and wrong mints, owners, authorities, amounts and recipients, with every single message of a call failing in four ways",
 NOCR + "the helpers are not tested.",
 [RP, CR], [("helpers", RP + " create_account_rent_exempt, create_token_account, create_token_account_instructions, new_mint, create_and_init_mint, mint_to_new_account, transfer, send_txn, get_token_account"), ("commands", CR + " start, mint_to_existing_account, initialize_token_account")],
 ["result of the call", "all accounts of the ledger"], "")
prop("C04", "Crank daemon: cranks whenever due, never when not, and always makes progress",
 "Whatever the slots it sees, the events that arrive, the time that passes and the fate of its transactions, the daemon sends transactions exactly when events are pending at a slot newer than every slot it has already sent for and either the queue has reached the configured length or the configured time has passed since its last attempt, so it retries after failures and does not repeat itself after success. A round has at least one and at most the configured number of transactions, each of which fits, is accepted for the queue as read, names no more trading accounts than configured and consumes exactly as many of the first events as the configured numbers of events and accounts allow, and the daemon never stops while the node answers.",
 ["schedules", "fault_sequences"], "every schedule, to the stated length, of slot movement (forward, standing, backward), arriving events, waiting times and outcomes of each transaction (taken, refused, lost), for each of twelve configurations, with virtual time",
 NOCR + "its loop depends on time, slots and failures.",
 [CR], [("loop", CR + " consume_events_loop"), ("workers", CR + " consume_events_wrapper, consume_events_once")],
 ["transactions sent per reading of the queue", "their effect"], "")
prop("C05", "Queue monitor: the length served is the number of pending events",
 "The queue monitor answers every request for the length of a market's event queue with the number of events pending on the ledger at that time, for every fill of the queue and every position of its first event in the ring. It keeps answering as the queue changes.",
 ["inputs", "histories"], "every fill of a 128-event ring from several (thorough: all) positions, asked one after the other over HTTP",
 NOCR + "the monitor has never been run by a test.",
 [CR], [("monitor", CR + " read_queue_length_loop, start"), ("reading the queue", CR + " parse_event_queue")], ["HTTP answer"], "")
prop("C06", "Token helpers for programs: exactly the token program's own answer and effect",
 "The transfer, mint and burn helpers given to programs ask the token program for exactly the named operation on the given accounts in their stated roles, for the exact amount, with the rights the caller holds plus those of the seeds it supplies and no others. The helper succeeds exactly when the token program would, and then the accounts have changed exactly as it prescribes; otherwise nothing has.",
 ["inputs"], "every assignment of fifteen accounts (mints, token accounts of users and of a derived address, delegated and frozen ones, wallets, programs) to the four roles, with right, wrong, several and no seeds, signing and not, writable and not, over a grid of amounts",
 "The helpers have no tests and no caller in the repository.",
 ["common/src/program.rs"], [("helpers", "common/src/program.rs invoke_token_transfer, invoke_mint_tokens, invoke_burn_tokens")], ["result", "all accounts"], "")
prop("C07", "Command line: every option reaches its own parameter, and nothing is guessed",
 "A command given to the client with its options in any order and in long or short form is carried out with exactly the given value for each named parameter, omitted optional ones left open, on the named cluster, or the given node address as written, or the main network if none is named. A command line with a missing, repeated, malformed or unknown option or an unknown cluster name is refused before anything is sent.",
 ["inputs"], "every command with every subset of its optional parameters, every order of up to six options, every form of each pair of options, every pair of values including the extremes, each deviation; all letter cases of all cluster names and all single-letter slips",
 NOCR + "only the six full cluster names are tested.",
 [CR, "common/src/client/mod.rs"], [("options", CR + " Opts, Command"), ("clusters", "common/src/client/mod.rs Cluster")], ["parsed command", "address of the node"], "")
_t = "stateless model checking of the implementation: exhaustive enumeration of %s, each executing the real client against a stand-in node that runs the real programs, compared with a reference"
if "TECH" not in globals():
    TECH = {}
TECH.update(C01=_t % "event queues and crank histories", C02=_t % "call sequences and of message faults at every point", C03=_t % "call sequences and of message faults at every point", C04=_t % "schedules of slots, arrivals, waiting times and transaction outcomes under virtual time", C05=_t % "queue fills and positions")
TECH.update(C06="stateless model checking of the implementation: exhaustive enumeration of account assignments, rights, seeds and amounts, each executing the real helper and the token program itself from the same state", C07="explicit-state enumeration of all command lines and cluster names in the stated space, each through the real parser, compared with a reference")

TECH.update(L08="explicit-state enumeration of all encodings in the stated space, each read, written and interpreted by the real code, compared with a reference codec; and all pool requests of the account-substitution and initialization explorations executed")
