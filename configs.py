"""What each check runs: entries of the harness, their arguments (bounds) and the situations that must be reached."""
ASSUME = [
 "the code is the LLVM bitcode rustc 1.75 emits for /repo and its dependencies (release, overflow checks on, panics abort); the on-chain SBF build is another compilation of the same source",
 "the executor's semantics of LLVM instructions (cross-validated on sampled paths against the compiled library) and the answers of z3/cvc5",
 "a panicking instruction has no effect (the runtime discards the transaction); text of log messages is not modelled",
]
SIDES = {"P": 1, "L": 2, "I": 4, "Q": 8, "X": 16}
def A(*a): return ",".join(map(str, a))
def place(bids, asks, flags, kinds=31, op=0, fee=5, cap=2, pb=10, sb=10, fb=30, bunit=1, kb=2, side=2, covers=(), every=997, what=""):
    return dict(entry="e_place", args=A(bids, asks, flags, pb, sb, fb, bunit, kb, fee, side, kinds, op, cap, 0), covers=list(covers), every=every,
        bounds="place_order: book of %d bids and %d asks (%s), order kinds %s, option set %d; price<2^%d, size<2^%d, free funds<2^%d, base lots per unit %s, lots of a tick<2^%d, fee %s; market capacity class %s%s" % (
            bids, asks, flag_text(flags), kind_text(kinds), op, pb, sb, fb, bunit, kb, fee_text(fee), cap, "; " + what if what else ""))
def ops(bids, asks, flags, mask, nid=2, fee=5, cap=0, pb=10, sb=10, fb=30, bunit=1, kb=2, ptag=0, covers=(), every=997):
    return dict(entry="e_ops", args=A(bids, asks, flags, pb, sb, fb, bunit, kb, fee, mask, nid, 0, cap, ptag), covers=list(covers), every=every,
        bounds="market operations (set %d of reduce, cancel, cancel all, up to, by id, claim, register, remove, collect, ladder): book of %d bids and %d asks (%s), up to %d identifiers; price<2^%d, size<2^%d, free funds<2^%d" % (mask, bids, asks, flag_text(flags), nid, pb, sb, fb))
IXN = ["Swap", "SwapWithFreeFunds", "PlaceLimitOrder", "PlaceLimitOrderWithFreeFunds", "ReduceOrder", "ReduceOrderWithFreeFunds", "CancelAllOrders", "CancelAllOrdersWithFreeFunds", "CancelUpTo", "CancelUpToWithFreeFunds",
  "CancelMultipleOrdersById", "CancelMultipleOrdersByIdWithFreeFunds", "WithdrawFunds", "DepositFunds", "PlaceMultiplePostOnlyOrders", "PlaceMultiplePostOnlyOrdersWithFreeFunds", "EvictSeat", "ForceCancelOrders", "CollectFees", "Log"]
def ix(bids, asks, flags, names, kinds=31, op=0, opt=0, ptag=0, side=2, fee=5, pb=10, sb=10, fb=30, bunit=1, kb=2, covers=None, every=97):
    ns = [IXN.index(n) for n in names]
    return dict(entry="e_ix", args=A(bids, asks, flags, pb, sb, fb, bunit, kb, fee, sum(1 << n for n in ns), kinds, op, opt, ptag, side), covers=[130 + n for n in ns if n != 19] if covers is None else list(covers), every=every,
        bounds="instructions %s through process_instruction: book of %d bids and %d asks (%s), order kinds %s, option set %d, environment options %d; price<2^%d, size<2^%d, free funds<2^%d, fee %s" % (
            ", ".join(names), bids, asks, flag_text(flags), kind_text(kinds), op, opt, pb, sb, fb, fee_text(fee)))
def flag_text(f): return ", ".join(t for b, t in ((1, "owners symbolic incl. the caller"), (2, "some orders with symbolic expiry"), (8, "caller possibly unregistered"), (16, "orders inserted in any order"), (32, "every order with symbolic expiry")) if f & b) or "fixed owners"
def kind_text(k): return "+".join(n for b, n in ((1, "post-only"), (2, "limit"), (4, "IOC base"), (8, "IOC quote"), (16, "IOC open")) if k & b)
def fee_text(f): return {99999: "0..10000 bps symbolic", 88888: "0, 1, 5 or 10000 bps"}.get(f, "%d bps" % f)
OWN, EXP, UNREG, PERM, EXPALL = 1, 2, 8, 16, 32
TAKE4 = ["Swap", "SwapWithFreeFunds", "PlaceLimitOrder", "PlaceLimitOrderWithFreeFunds"]
CANC = ["CancelAllOrders", "CancelAllOrdersWithFreeFunds", "CancelUpTo", "CancelUpToWithFreeFunds", "CancelMultipleOrdersById", "CancelMultipleOrdersByIdWithFreeFunds"]
PM = IXN[14:16]
REDUCE, CANCEL, ALL, UPTO, BYID, CLAIM, REGISTER, REMOVE, COLLECT, LADDER = (1 << i for i in range(10))
BASE = place(1, 2, OWN | PERM, op=31, cap=0, covers=[2, 3, 4])
DEEP = place(1, 2, OWN | EXP | UNREG | PERM, op=36, covers=[2, 3, 4])
FEES = place(1, 1, OWN | PERM, op=0, fee=88888, covers=[2, 3, 4])
OPS = ops(2, 2, OWN | UNREG | PERM, 1023, cap=0, covers=list(range(40, 49)))
AXN = ["NameSuccessor", "ClaimAuthority", "ChangeMarketStatus", "RequestSeatAuthorized", "RequestSeat", "ChangeSeatStatus", "ChangeFeeRecipient"]
def admin(names, opt, bids=1, asks=1, flags=9, few=False, covers=None, every=97):
    ns = [AXN.index(n) for n in names]
    if few: bids, asks, flags = 0, 0, 64
    return dict(entry="e_admin", args=A(bids, asks, flags, 10, 10, 30, 1, 2, 5, sum(1 << n for n in ns), opt, 0), covers=[220 + n for n in ns] if covers is None else list(covers), every=every,
        bounds="instructions %s through process_instruction: %s; market authority, successor and fee recipient any 256-bit keys, every status byte, header sequence number <2^32; book of %d bids and %d asks (%s)%s" % (", ".join(names),
            ", ".join(t for b, t in ((1, "signer flags, keys and owners of the accounts and their type markers any value"), (2, "trader table full"), (4, "instruction data one byte short, exact or one byte long")) if opt & b) or "genuine accounts", bids, asks, flag_text(flags), ", at most one trader registered" if few else ""))
def init(opt, pb=8):
    return dict(entry="e_init", args=A(opt, pb, 0), covers=[251, 252], every=97, bounds="InitializeMarket through process_instruction: %s; fee any 16-bit number, fee recipient any key" % (", ".join(t for b, t in ((1, "signer flag, keys, owners, type markers and initialised marks of all accounts any value"),
        (2, "lot and tick parameters <2^%d, raw base units per base unit None, 0, 1, 1000 or 2^32-1, decimals (9,6), (0,0), (6,9), (20,6)" % pb), (4, "six combinations of market sizes, instruction data one byte short, exact or one byte long")) if opt & b) or "genuine accounts, fixed lot sizes"))
def codec(mode, lo=0, hi=0): return dict(entry="e_codec", args=A(mode, lo, hi, 1999), covers=[310, 311] if mode else [300, 301, 302, 304, 305, 306], every=97, panics_only=False,
    bounds="every byte string of %d to %d bytes" % (lo, hi) if mode else "every order packet (all 64-bit and 128-bit field values, every option), and every shortened encoding of it that older formats allow")
def log(sc, lo, hi, pats, covers): return dict(entry="e_log", args=A(sc, lo, hi, 1599, pats), covers=covers, every=97, bounds="an instruction with many events (%s): %d to %d orders on the book, %d patterns of fills, own and expired orders; clock, client identifier and one size symbolic" % ({1: "cancel all", 2: "taking", 4: "taking and posting"}[sc], lo, hi, pats))
def runs(p, tier):
    q = QUICK[p]
    return q if tier == "quick" else q + THOROUGH.get(p, [])
REST = [n for n in IXN if n not in TAKE4 and not n.startswith("PlaceM") and n != "Log"]
AUTH = ix(1, 1, OWN | UNREG, IXN, kinds=6, opt=32, covers=[130 + i for i in range(19)] + [119])
QUICK = {
 "C01": [BASE, OPS],
 "C02": [DEEP, OPS],
 "C03": [DEEP],
 "C04": [DEEP, OPS, dict(entry="e_ids", args="0", covers=[45], every=1, bounds="order identifiers: all 64-bit sequence numbers and prices")],
 "C05": [BASE],
 "C06": [FEES, DEEP],
 "C07": [DEEP],
 "C08": [dict(DEEP, covers=[2, 3, 4, 8])],
 "C09": [place(1, 2, OWN | PERM, op=63, cap=0, covers=[2, 4])],
 "C10": [ops(2, 2, OWN | UNREG | PERM, REDUCE | CANCEL, cap=0, covers=[40, 41]), ix(1, 1, OWN | PERM, ["ReduceOrder", "ReduceOrderWithFreeFunds"])],
 "C11": [ops(2, 2, OWN | UNREG | PERM, ALL | UPTO | BYID, cap=0, covers=[42, 43, 44]), ix(1, 1, OWN | PERM, CANC)],
 "C12": [OPS, ix(1, 1, OWN | PERM, ["WithdrawFunds"])],
 "C13": [DEEP, ix(1, 1, OWN | PERM, TAKE4, op=6)],
 "C14": [DEEP, OPS],
 "C15": [ix(1, 1, OWN | PERM, TAKE4, op=4), ix(1, 1, OWN | PERM, REST), ix(1, 1, OWN, PM, side=1), log(1, 0, 85, 1, [331, 332, 333]), log(2, 1, 60, 6, [331, 332, 333, 334]), log(4, 1, 60, 6, [331, 332, 333, 334])],
 "C16": [AUTH, admin(AXN, 5), init(1)],
 "C17": [admin(AXN[2:3], 5, covers=[202, 222]), admin(AXN[2:3], 4, few=True, covers=[202, 222, 230]), ix(1, 1, OWN, PM, side=1, opt=4), ix(1, 1, OWN | PERM, TAKE4[:2], op=0, opt=4), ix(1, 1, OWN | PERM, TAKE4[2:], op=7, opt=4, fee=88888), ix(1, 1, OWN | PERM, REST, opt=4)],
 "C18": [ix(1, 1, OWN | PERM, TAKE4, op=6, opt=16), ix(1, 1, OWN | PERM, TAKE4, op=0, opt=8), ix(1, 1, OWN | PERM, [n for n in IXN if n not in TAKE4 and not n.startswith("PlaceM") and n != "Log"], opt=24), ix(1, 1, OWN, PM, side=1)],
 "C19": [codec(0), codec(1, 0, 64), codec(1, 65, 130)],
 "C20": [init(0), init(1), init(4), init(2, 12)],
 "C21": [place(2, 2, PERM, pb=8, sb=8, op=0, covers=[2, 21])],
 "C22": [OPS, ix(1, 1, OWN | PERM, ["CollectFees"]), admin(AXN[6:], 5)],
 "C23": [admin(AXN[3:6], 5, covers=[223, 224, 225, 231, 232, 233, 234, 235]), admin(AXN[5:6], 6, covers=[225]), ix(1, 1, OWN | UNREG, IXN[16:18], opt=4), ix(0, 0, 64, IXN[16:17], opt=4, covers=[146, 61])],
 "C24": [admin(AXN[:2], 5), admin(AXN[2:], 1), ix(1, 1, OWN | PERM, REST)],
 "C25": [ops(2, 2, OWN | EXP | PERM, LADDER, cap=0, covers=[49])],
 "C26": [ix(1, 1, OWN | PERM, ["PlaceMultiplePostOnlyOrders", "PlaceMultiplePostOnlyOrdersWithFreeFunds"], side=1), ix(0, 1, OWN, PM, side=120), ix(1, 0, OWN, PM, side=102)],
}
THOROUGH = {}
NOT_APPLICABLE = {}
def assumptions(p): return EXTRA.get(p, [])
EXTRA = {}
def tag_text(t): return TAGS.get(t, "assertion %d of property C%02d" % (t, t // 100))
TAGS = {}
