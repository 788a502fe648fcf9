#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements are edited in one place).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"observe_at":list(observe),"hook_needed":hook}})
F="src/state/markets/fifo.rs"; H="pass-through access to the crate-private market interface (cfg phoenix_verif)"
NO="src/program/processor/new_order.rs"
p("C01","Every market operation conserves base and quote lots exactly",
  "Whatever operation is performed on a market, the quote lots held for all traders plus the uncollected fees change by exactly the lots the operation reports as paid in minus those it reports as paid out, and likewise for base lots. Each individual trader's free and locked balances change by exactly what that trader's own fills, cancellations, evictions, placements, deposits and withdrawals account for.",
  ["inputs","histories"],"every order book, balance, market parameter and operation argument; by induction every history of operations",
  "Tests place a few fixed orders and check selected balances; a lot lost or created for one combination of partial fills, expiry, self-trade, eviction and free funds is not sampled.",
  [F,"src/state/trader_state.rs","src/state/matching_engine_response.rs","src/quantities.rs"],
  [("balance updates of maker and taker during matching",F+" match_order"),("locking and use of free funds when posting",F+" place_order_inner"),("unlocking on reduce, cancel, evict, expire",F+" reduce_order_inner, evict_least_aggressive_order"),("withdrawal of free funds",F+" claim_funds_inner")],
  [("free/locked lots","per trader balances","src/state/trader_state.rs"),("unclaimed fees","fees owed to the recipient",F)],["trader states, fee counters and the operation's response before and after"],H)
p("C02","Locked funds always equal exactly what the open orders require",
  "After every operation each trader's locked quote lots equal the sum over that trader's resting bids of price times remaining size, and locked base lots equal the sum of the remaining sizes of that trader's resting asks. No operation leaves an order without backing or a locked lot without an order.",
  ["inputs","histories"],"every book and operation; inductive over histories",
  "Tests never recompute the backing of the whole book after each kind of operation, and cannot cover every mixture of owners, partial fills, expiry and evictions.",
  [F,"src/state/trader_state.rs"],[("lock on post, unlock on fill/reduce/evict/expire",F)],[("locked lots","backing of resting orders","src/state/trader_state.rs")],["books and trader states after the operation"],H)
p("C03","Matching follows price-time priority at the resting order's price",
  "An incoming order trades only with the opposite side, best price first and oldest first within a price: no resting order is touched while a better-ranked live one by another trader keeps remaining size. Every fill happens at the resting order's own price, never worse than the incoming limit, credits the owner of that resting order, and leaves all other orders unchanged.",
  ["inputs","histories"],"every book ordering (ties included), owner assignment, limit price, size and budget",
  "Tests fill hand-written ladders; a wrong rank for one tie or one partial fill pattern is not sampled.",
  [F,"src/state/inflight_order.rs"],[("best-first loop with limit comparison",F+" match_order"),("order id ordering",F+" PartialOrd for FIFOOrderId")],[("books","resting orders sorted by priority",F)],["order book before/after and fill events"],H)
p("C04","Order identifiers are unique, encode side and time, and sort by priority",
  "Every posted order gets an identifier no other order of the market ever had, whose leading bit tells its side and whose sequence part tells its age. Comparing identifiers of one side is a strict total order that ranks better prices first and, at equal price, older orders first, and the books list orders in that order.",
  ["inputs","histories"],"all pairs and triples of identifiers over the full 64-bit ranges; every book insertion",
  "Tests compare a handful of identifiers; totality, transitivity and side encoding range over all 2^64 prices and sequence numbers.",
  [F,"src/state/enums.rs"],[("inverted sequence numbers for bids and comparison",F+" FIFOOrderId"),("sequence increment on placement",F+" place_order_inner"),("side from leading bit","src/state/enums.rs")],[("order sequence number","next order's age",F)],["identifier comparison, returned ids, book iteration order"],H)
p("C05","Taker sizes, budgets, minimum fills and match limits are honoured exactly",
  "An incoming order never trades more base lots than requested, a buy never pays more quote lots (fee included) than its quote budget and a sell bounded by a quote amount never receives more than that amount, and it touches at most its match limit of resting orders. It stops early only when the next live order does not cross, the remaining size or budget cannot buy another lot, the match limit is reached or self-trade handling ends it; an immediate-or-cancel order that misses either minimum fill is rejected without effect.",
  ["inputs"],"every size, quote budget, fee rate, minimum, match limit and book",
  "Rounding of fee-adjusted budgets and the interplay of limits depends on exact arithmetic over all values; tests use round numbers.",
  [F,"src/state/inflight_order.rs","src/state/order_schema/order_packet.rs"],[("fee-adjusted budgets",F+" adjusted_quote_lot_budget_post_fee_adjustment_*"),("progress condition","src/state/inflight_order.rs in_progress"),("minimum fill test",F+" place_order_inner")],[],["response, fill events, book"],H)
p("C06","Taker fee is charged exactly once, rounded up, to the taker only",
  "Each matched order pays a taker fee of the fee rate times the total matched quote value rounded up, added to what a buyer pays and deducted from what a seller receives; makers and posted orders pay nothing. The uncollected fee balance grows by exactly that fee and the fill summary reports it.",
  ["inputs"],"every fee rate, tick size, lot ratio, price and size",
  "Rounding errors of one lot appear only for particular remainders; tests use a few values.",
  [F],[("fee computation and rounding",F+" compute_fee, match_order, place_order_inner")],[("unclaimed fees","fees charged and not yet collected",F)],["response, fee counters, FillSummary event"],H)
p("C07","Self-trades never fill and follow the chosen self-trade behaviour",
  "No fill ever has the same trader on both sides. When an incoming order reaches a resting order of the same trader it is rejected without effect (abort), or that resting order is cancelled in full with its funds returned to the free balance (cancel-provide), or both orders shrink by the same amount up to the smaller of the two without any trade, fee or payment (decrement-take).",
  ["inputs"],"every book with own orders at any rank, every behaviour, size, budget and limit",
  "Tests cover each behaviour with one or two own orders; mixtures with partial budgets and other makers are not sampled.",
  [F,"src/state/enums.rs"],[("self trade branch of matching",F+" match_order")],[],["events, book, balances"],H)
p("C08","Expired orders never trade, never rest, and expiry returns funds to the owner",
  "A resting order whose last valid slot or timestamp lies before the current clock is never filled; when matching meets it, it is removed whole, its funds go to its owner's free balance, and the removal is reported as an expiry and counts towards the match limit. An incoming order that is already expired changes nothing and posts nothing, and an order still valid at the current clock is never treated as expired.",
  ["inputs"],"every combination of expiry fields (unset, past, equal, future) of resting and incoming orders and every clock",
  "Tests use a few expiry values; boundary equality, either-or fields and combinations with limits and self-trades are unsampled.",
  [F,"src/state/order_schema/order_packet.rs"],[("expiry test and removal in matching, crossing check and posting",F+" match_order, check_for_cross, place_order_inner"),("incoming expiry test","src/state/order_schema/order_packet.rs is_expired")],[],["events, book, balances"],H)
p("C09","Post-only orders never take, and placing never leaves the book crossed",
  "A post-only order never trades: if it would cross the best live opposite order it is rejected without effect, or, if amendable, posted exactly one tick behind that order. After any placement no live bid is priced at or above a live ask, and a limit order's unmatched remainder is posted at its limit price with its full remaining size unless that would cross.",
  ["inputs","histories"],"every uncrossed book with live and expired orders, every price, size and clock",
  "Whether some combination of expired orders, match limits and self-trades leaves a crossed book is a question about all books.",
  [F],[("crossing check and amendment",F+" check_for_cross, place_order_inner"),("crossing test before posting a remainder",F+" place_order_inner")],[],["book before/after, response"],H)
p("C10","Only the owner can reduce or cancel an order, by exactly the requested amount",
  "Reducing or cancelling affects an order only when the caller owns it; a stranger's attempt fails without effect and an order that does not exist yields no effect. The order shrinks by the smaller of the request and its remaining size, keeps its place in the queue if anything remains, disappears if nothing does, and exactly the released funds become free or are paid out if claiming was asked for.",
  ["inputs"],"every book, caller, order id, side and requested size",
  "Ownership and amounts are tested on one or two orders; wrong-side ids, missing ids and sizes beyond the remainder are barely sampled.",
  [F,"src/program/processor/reduce_order.rs"],[("ownership check and release",F+" reduce_order_inner")],[],["book, balances, response"],H)
p("C11","Bulk cancellations remove exactly the selected orders of the caller",
  "Cancel-all removes every order of the caller on both sides; cancel-up-to considers only the given side, best orders first within the search limit, at least as aggressive as the tick limit, up to the cancel limit; cancel-by-id removes exactly the listed orders that exist and belong to the caller. No order of another trader is ever affected, and released funds are accounted as for single cancellations.",
  ["inputs"],"every book, owner assignment, limits and id list (duplicates, missing and foreign ids)",
  "Limits interact with owners and ranks in many ways; tests check a few.",
  [F,"src/program/processor/cancel_multiple_orders.rs"],[("selection filters",F+" cancel_all_orders_inner, cancel_up_to_inner, cancel_multiple_orders_by_id_inner")],[],["book, balances, response, events"],H)
p("C12","Withdrawals never exceed free funds and seats are removed only when empty",
  "A withdrawal takes exactly the smaller of the requested and the free amount of each token, or all free funds when no amount is given, and touches nothing else. A trader is unregistered only when removal is requested and all of the trader's free and locked balances are zero.",
  ["inputs"],"every balance and request over the full 64-bit range",
  "Tests use fixed balances; over-requests of one token with partial balances of the other and seat removal with dust are unsampled.",
  [F],[("capped withdrawal",F+" claim_funds_inner"),("removal of empty trader",F+" claim_funds_inner, try_remove_trader_state")],[],["trader states, response"],H)
p("C13","Orders restricted to deposited funds never move tokens in or out",
  "An order placed with deposited funds only either is entirely covered by the trader's free balance and leaves whatever it obtains in the trader's free balance, or fails without effect; it never results in a token deposit or withdrawal. Other orders use the trader's free balance first and take from the trader only the remainder.",
  ["inputs"],"every balance, order kind, book and price",
  "The boundary between just enough and one lot short over posted and matched parts is not sampled by tests.",
  [F,NO],[("free funds use and verification",F+" place_order_inner; src/state/matching_engine_response.rs verify_no_deposit/verify_no_withdrawal")],[],["response, trader states"],H)
p("C14","The event stream reproduces every change to the book and balances",
  "Replaying the reported events of an operation over the previous book gives exactly the new book: every placed, filled, reduced, expired or evicted order is reported once with its correct identifier, owner, price, amount and remainder, and nothing else is reported. The fill summary equals the sum of the fills and the response.",
  ["inputs","histories"],"every operation on every book",
  "Tests look at a few events; completeness and exactness for every operation are universal claims.",
  [F,"src/state/markets/market_events.rs"],[("event recording at every mutation",F)],[],["event stream, book before/after"],H)
p("C15","Logged event batches carry every event once, in order, in bounded messages",
  "All events of an instruction are emitted through the program's log instruction in order, each exactly once and numbered consecutively, split into messages none of which exceeds the size limit. Each message carries a header with the instruction, market, signer, clock, market sequence number, batch number and the number of events it contains, and the market sequence number increases by one per instruction.",
  ["inputs","histories"],"every sequence of events of any kind and length",
  "Batch boundaries depend on the mixture of event sizes; tests produce few events per instruction.",
  ["src/program/event_recorder.rs","src/program/events.rs","src/lib.rs"],[("batching and header update","src/program/event_recorder.rs"),("sequence increment","src/program/accounts.rs increment_sequence_number")],[],["inner instruction data"],None)
p("C16","Every instruction demands the right signer, seat, authority and accounts",
  "No instruction that moves funds, changes the book on behalf of a trader, or changes the market's configuration succeeds unless the required party signed it: the trader (with an approved seat where the instruction requires one), the current market authority, or the pending successor. An instruction whose market, seat, vault, token or program account is not the genuine one of that market fails without effect.",
  ["inputs","fault_sequences"],"every instruction kind and every substitution of one of its accounts or signer flags",
  "Tests submit well-formed transactions and a few forged ones; the guarantee is about every account list.",
  ["src/program/loaders.rs","src/program/validation/checkers.rs","src/program/validation/loaders.rs","src/lib.rs"],[("account validation","src/program/loaders.rs and src/program/validation")],[],["result of the instruction, account data, token transfers"],None)
p("C17","Market status gates trading, posting and cancelling, and changes only legally",
  "Trades happen only on an active market, new orders are accepted only on an active or post-only market, and cancelling stays possible except on a tombstoned market. The status changes only along the permitted transitions and only by the market authority.",
  ["inputs","histories"],"every status value, requested status, order kind and book",
  "Six statuses times every instruction and every crossing situation; tests exercise a few pairs.",
  ["src/program/status.rs",NO,"src/program/processor/governance.rs","src/program/loaders.rs"],[("status predicates and transitions","src/program/status.rs"),("gating in contexts and after matching",NO)],[("market status","lifecycle","src/program/accounts.rs MarketHeader.status")],["result of the instruction, book, header"],None)
p("C18","Token transfers equal the lots moved times the lot size, in the right direction",
  "For every instruction the tokens transferred from the trader to the vaults and from the vaults to the trader are exactly the operation's deposited and withdrawn lots times the lot size of that token, between the trader's accounts and the market's own vaults, with the trader's authority for deposits and the vault's for withdrawals. Deposits credit exactly the transferred lots to the trader's free balance.",
  ["inputs"],"every amount, balance and order outcome",
  "Scaling, direction and account choice for each instruction and outcome are universal; tests check end balances of some flows.",
  ["src/program/token_utils.rs",NO,"src/program/processor/deposit.rs","src/program/processor/withdraw.rs","src/program/processor/cancel_multiple_orders.rs","src/program/processor/reduce_order.rs"],[("transfer calls","src/program/token_utils.rs"),("lot to atom conversion","src/program/processor/*")],[],["cross-program invocations recorded with accounts and amounts"],None)
p("C19","Order packets decode to exactly what was encoded, old formats included",
  "Decoding the encoding of any order packet gives back the same packet, encodings of earlier format versions that lack trailing fields decode with those fields unset, and any other byte string is rejected rather than misread. Decoding never panics.",
  ["inputs"],"every packet value and every byte string up to the maximal packet length",
  "Round trips are tested for a few packets.",
  ["src/state/order_schema/order_packet.rs"],[("decoding with padding","src/state/order_schema/order_packet.rs decode_order_packet")],[],["decode result"],None)
p("C20","Markets are initialised once, with validated parameters",
  "Market creation succeeds only on uninitialised accounts with the program's derived vault addresses, a fee of at most 100 percent, non-zero lot sizes that divide the base unit and tick size as required, and yields an empty post-only market with exactly the requested parameters and the creator as authority. A market, once created, can never be initialised again.",
  ["inputs","histories"],"every parameter combination and every existing market",
  "Divisibility and range conditions over all parameter values are not sampled.",
  ["src/program/processor/initialize.rs","src/program/loaders.rs",F],[("parameter validation","src/program/processor/initialize.rs"),("re-initialisation guard",F+" set_initial_params; src/program/validation")],[],["header and market after initialisation, result"],None)
p("C21","A full book evicts only the least aggressive order, and only for a better one",
  "When a side of the book is full, a new order is accepted only if its price is strictly better than that of the worst-ranked order on its side, which alone is removed with its funds returned to its owner's free balance and the eviction reported; otherwise the new order is rejected without effect. When there is room nothing is evicted.",
  ["inputs"],"every full book and new order price",
  "Full books are rare in tests; ties at the worst price and mixed owners are unsampled.",
  [F],[("eviction",F+" evict_least_aggressive_order, place_order_inner")],[],["book, balances, events"],H)
p("C22","Collected fees are exactly the accrued ones and go to the recipient only",
  "Collecting fees pays exactly the uncollected fees times the quote lot size to the quote account of the current fee recipient, moves that amount to the collected total and resets the uncollected amount, for any caller. The recipient changes only with the market authority's signature, and when uncollected fees exist also with the present recipient's.",
  ["inputs","histories"],"every fee amount, account and signer combination",
  "Tests collect once with the proper accounts.",
  ["src/program/processor/fees.rs",F,"src/program/loaders.rs"],[("collection",F+" collect_fees; src/program/processor/fees.rs"),("recipient change","src/program/processor/fees.rs process_change_fee_recipient")],[("uncollected/collected fees","fee accounting",F)],["transfers, header, fee counters"],None)
p("C23","Seats follow their lifecycle and only approved seats may make orders",
  "A seat is created unapproved at the address derived from market and trader, becomes approved, unapproved or retired only by the market authority along the permitted transitions (retired is final), and approving registers the trader exactly once. Eviction of a seat is possible only for unapproved or retired seats or when the rules for removal hold, returns all funds to the trader's own token accounts, and leaves no open orders.",
  ["inputs","histories"],"every seat status, requested status, balance and caller",
  "Tests follow the usual path.",
  ["src/program/processor/manage_seat.rs","src/program/processor/governance.rs","src/program/loaders.rs","src/program/accounts.rs"],[("status transitions","src/program/processor/manage_seat.rs"),("eviction","src/program/processor/governance.rs process_evict_seat")],[("seat status","trading permission","src/program/accounts.rs Seat")],["seat data, market trader registry, transfers"],None)
p("C24","Market authority passes only by nomination and acceptance",
  "The market authority changes only when the current authority has nominated a successor and that successor itself accepts; nobody else can nominate, accept or exercise authority. Nothing else about the market changes in either step.",
  ["inputs","histories"],"every signer and every pair of keys",
  "Tests follow the regular hand-over.",
  ["src/program/processor/governance.rs","src/program/loaders.rs"],[("nomination and claim","src/program/processor/governance.rs")],[("authority, successor","who governs","src/program/accounts.rs MarketHeader")],["header before/after, result"],None)
p("C25","The order book ladder aggregates exactly the live orders",
  "The ladder view of a book lists each price of a side once, best first, with the sum of the sizes of the orders that have not expired at the given clock, limited to the requested number of levels. It lists nothing else and reading it changes nothing.",
  ["inputs"],"every book, clock and level count",
  "Tests compare a few ladders.",
  ["src/state/markets/market_traits.rs"],[("ladder construction","src/state/markets/market_traits.rs get_typed_ladder_with_expiration")],[],["ladder result"],None)
p("C26","Batch orders post exactly the listed levels or follow the chosen failure rule",
  "A batch of bids and asks is rejected as a whole if its own bids and asks cross; otherwise every listed order is posted as a post-only order, levels with equal price and expiry merged, and the total deposit equals what those orders lock beyond the free funds. On insufficient funds or on crossing the book the batch fails without effect, amends or skips exactly as the chosen failure behaviour says, and later affordable orders are still placed when skipping is chosen.",
  ["inputs"],"every list of orders, failure behaviour, balance and book",
  "Merging, ordering, skipping and amending interact; tests use few lists.",
  [NO],[("batch processing",NO+" process_multiple_new_orders"),("funds check",NO+" order_packet_has_sufficient_funds")],[],["book, transfers, returned ids"],None)
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
