//! Instructions through the real entry point, against the market operation they stand for.
use crate::model::*;
use crate::place::*;
use crate::px::*;
use crate::world::*;
use borsh::BorshSerialize;
use phoenix::program::instruction::PhoenixInstruction as PI;
use phoenix::program::new_order::{CondensedOrder, FailedMultipleLimitOrderBehavior as FB, MultipleOrderPacket};
use phoenix::program::cancel_multiple_orders::{CancelMultipleOrdersByIdParams, CancelUpToParams};
use phoenix::program::reduce_order::{CancelOrderParams, ReduceOrderParams};
use phoenix::program::{deposit::DepositParams, withdraw::WithdrawParams};
use phoenix::quantities::*;
use phoenix::state::markets::*;
use phoenix::state::*;
use phoenix::verif_hooks as hk;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;

pub const IX: [PI; 20] = [PI::Swap, PI::SwapWithFreeFunds, PI::PlaceLimitOrder, PI::PlaceLimitOrderWithFreeFunds, PI::ReduceOrder, PI::ReduceOrderWithFreeFunds, PI::CancelAllOrders,
    PI::CancelAllOrdersWithFreeFunds, PI::CancelUpTo, PI::CancelUpToWithFreeFunds, PI::CancelMultipleOrdersById, PI::CancelMultipleOrdersByIdWithFreeFunds, PI::WithdrawFunds, PI::DepositFunds,
    PI::PlaceMultiplePostOnlyOrders, PI::PlaceMultiplePostOnlyOrdersWithFreeFunds, PI::EvictSeat, PI::ForceCancelOrders, PI::CollectFees, PI::Log];

/// What the operation behind an instruction does to a copy of the market: lots in and out, or failure.
struct Moves { dq: u64, db: u64, wq: u64, wb: u64 }

pub fn same_market(tg: u32, x: &Post, y: &Post) {
    check(tg, x.o.len() == y.o.len());
    if x.o.len() == y.o.len() { for (p, q) in x.o.iter().zip(y.o.iter()) {
        check(tg + 1, (p.side == q.side) & (p.price == q.price) & (p.seq == q.seq) & (p.size == q.size) & (p.owner == q.owner) & (p.lvs == q.lvs) & (p.lvt == q.lvt));
    } }
    for t in 0..NT { let (p, q) = (&x.t[t], &y.t[t]); check(tg + 2, (x.reg[t] == y.reg[t]) & (p.ql == q.ql) & (p.qf == q.qf) & (p.bl == q.bl) & (p.bf == q.bf)); }
    check(tg + 3, (x.unclaimed == y.unclaimed) & (x.collected == y.collected) & (x.seq == y.seq));
    check(tg + 4, !x.foreign);
}
pub fn same_ev(x: &Ev, y: &Ev) -> bool {
    (x.k == y.k) & (x.maker == y.maker) & (x.seq == y.seq) & (x.price == y.price) & (x.lots == y.lots) & (x.rem == y.rem) & (x.cid == y.cid) & (x.q == y.q) & (x.fee == y.fee) & (x.lvs == y.lvs) & (x.lvt == y.lvt)
}
pub fn pick(set: u64, n: u64) -> u64 { let mut v = vec![]; for k in 0..n { if set >> k & 1 != 0 { v.push(k) } } v[choose(v.len() as u64) as usize] }

/// arguments: 0-8 market, 9 instruction set, 10 order kinds, 11 order flags, 12 options, 13 panic tag, 14 sides
pub const X_SILENT: u64 = 1; // fail silently flag and symbolic token balances
pub const X_WRONG: u64 = 2; // packets of the wrong type for the instruction
pub const X_GATE: u64 = 4; // symbolic market status and seat status
pub const X_LOTS: u64 = 8; // symbolic lot sizes
pub const X_AUTH: u64 = 32; // every attribute of every account symbolic
pub const X_POOR: u64 = 16; // token balances symbolic and possibly insufficient
#[no_mangle]
pub extern "C" fn e_ix() {
    let f = setup();
    let c = cfg();
    let opt = arg(12);
    let ixn = pick(arg(9), 20) as usize;
    let ix = IX[ixn];
    let mut w = W::new(400_000);
    // --- market
    let status = if opt & X_GATE != 0 { sym(1, 4) } else { 1 };
    let seat_status = if opt & X_GATE != 0 { sym(0, 2) } else { (ix != PI::EvictSeat && ix != PI::ForceCancelOrders) as u64 };
    let (bls, qls) = if opt & X_LOTS != 0 { (sym(1, 7), sym(1, 7)) } else { (3, 5) };
    let seqn = bits(32);
    let (prog, la) = (phoenix::id(), phoenix::phoenix_log_authority::id());
    let by_authority = ix == PI::EvictSeat || ix == PI::ForceCancelOrders;
    let signer = if by_authority { authority() } else if ix == PI::CollectFees { key(2) } else { key(A) };
    let au = opt & X_AUTH != 0;
    let mut need: Vec<(u32, bool)> = vec![];
    let mut sk = |n: u32, k: &Pubkey, need: &mut Vec<(u32, bool)>| if au { let x = crate::admin::symkey(); need.push((n, x == *k)); x } else { *k };
    if ix == PI::Log { // the program's own log call
        let (lk, ls) = (sk(1, &la, &mut need), if au { symbool() } else { true });
        need.push((0, ls));
        w.add(&lk, &system_program::id(), ls, false, 1, 0);
        let input = w.finish(&[15u8, 1, 2, 3]);
        let res = run(input);
        panic_mode(HARNESS);
        trace(res.is_ok() as u64); cover(119);
        let mut all = true; for (_, v) in need.iter() { all = all & *v; }
        if on(16) { check(1600, res.is_ok() == all); for (i, v) in need.iter() { check(1601 + *i, *v | res.is_err()); } check(1619, rec().xfers.is_empty() & rec().logs.is_empty()); }
        return;
    }
    let pk = sk(1, &prog, &mut need);
    w.add(&pk, &system_program::id(), false, false, 1, 0);
    let lk = sk(2, &la, &mut need);
    w.add(&lk, &system_program::id(), false, false, 1, 0);
    let mo = sk(3, &prog, &mut need);
    let ma = w.add(&market_key(), &mo, false, true, 5_000_000, HDR + std::mem::size_of::<BigMkt>());
    let signed = if au { symbool() } else { true };
    if ix != PI::CollectFees { need.push((0, signed)); }
    w.add(&signer, &system_program::id(), signed, true, 1_000_000_000, 0);
    let mp = unsafe { &mut *(w.buf.add(ma.data + HDR) as *mut BigMkt) };
    let pre = build_in(mp, &c);
    let mut h0 = header(&f, bls, qls, 10, status, seqn);
    if au { h0.discriminant = bits(64); need.push((4, h0.discriminant == f.disc_market)); }
    if au && by_authority { h0.authority = crate::admin::symkey(); need.push((5, h0.authority == signer)); }
    if au && ix == PI::CollectFees { h0.fee_recipient = crate::admin::symkey(); }
    let h0 = h0;
    w.slice(ma.data, HDR).copy_from_slice(bytemuck::bytes_of(&h0));
    rec().slot = pre.slot; rec().ts = pre.ts as i64;
    // --- other accounts
    let free = matches!(ix, PI::SwapWithFreeFunds | PI::PlaceLimitOrderWithFreeFunds | PI::ReduceOrderWithFreeFunds | PI::CancelAllOrdersWithFreeFunds | PI::CancelUpToWithFreeFunds | PI::CancelMultipleOrdersByIdWithFreeFunds | PI::PlaceMultiplePostOnlyOrdersWithFreeFunds);
    let seated = matches!(ix, PI::SwapWithFreeFunds | PI::PlaceLimitOrder | PI::PlaceLimitOrderWithFreeFunds | PI::DepositFunds | PI::PlaceMultiplePostOnlyOrders | PI::PlaceMultiplePostOnlyOrdersWithFreeFunds) || by_authority;
    let pay = |on: bool| if on { bits(24) } else { 1 << 40 };
    let (tb, tq) = (pay(opt & (X_POOR | X_SILENT) != 0), pay(opt & (X_POOR | X_SILENT) != 0));
    let (vb0, vq0) = (1u64 << 44, 1u64 << 44);
    if by_authority { w.add(&key(A), &system_program::id(), false, false, 1, 0); }
    let mut seat_acc = None;
    if seated {
        let (sk0, so) = (sk(6, &f.seats[A].0, &mut need), sk(7, &prog, &mut need));
        let a = w.add(&sk0, &so, false, true, 1, SEAT_LEN);
        let disc = if au { bits(64) } else { f.disc_seat };
        let (sm, st) = (sk(9, &market_key(), &mut need), sk(10, &key(A), &mut need));
        let ss = if au { sym(0, 2) } else { seat_status };
        if au { need.push((8, disc == f.disc_seat)); need.push((11, if by_authority { ss != 1 } else { ss == 1 })); }
        put_seat(&mut w, a, disc, &sm, &st, ss); seat_acc = Some(a);
    }
    let st = spl_token::id();
    let (mut ab, mut aq, mut vb, mut vq) = (None, None, None, None);
    let mut tok = |n: u32, k: Pubkey, vault: bool, mint: Pubkey, owner: Pubkey, amount: u64, w: &mut W, need: &mut Vec<(u32, bool)>| {
        let k = if vault { sk(n, &k, need) } else { k };
        let prog = sk(n + 1, &st, need);
        let len = if au { [165usize, 164][choose(2) as usize] } else { 165 };
        need.push((n + 2, len == 165));
        let (m, o) = (sk(n + 3, &mint, need), sk(n + 4, &owner, need));
        let a = w.add(&k, &prog, false, true, 1, len); put_token(w, a, &m, &o, amount); Some(a)
    };
    if ix == PI::CollectFees {
        aq = tok(25, acct(3, true), false, quote_mint(), h0.fee_recipient, tq, &mut w, &mut need);
        vq = tok(35, f.vq.0, true, quote_mint(), f.vq.0, vq0, &mut w, &mut need);
    } else if !free {
        ab = tok(20, acct(A, false), false, base_mint(), key(A), tb, &mut w, &mut need);
        aq = tok(25, acct(A, true), false, quote_mint(), key(A), tq, &mut w, &mut need);
        vb = tok(30, f.vb.0, true, base_mint(), f.vb.0, vb0, &mut w, &mut need);
        vq = tok(35, f.vq.0, true, quote_mint(), f.vq.0, vq0, &mut w, &mut need);
    }
    if !free { let tk = if au { crate::admin::symkey() } else { st }; if au { need.push((12, tk == st)); } w.add(&tk, &system_program::id(), false, false, 1, 0); }
    // --- the copy the reference operation works on
    let mut refm = zeroed::<BigMkt>();
    unsafe { std::ptr::copy_nonoverlapping(mp as *const BigMkt, &mut *refm as *mut BigMkt, 1); }
    let k = key(A);
    let mut evs: Vec<MarketEvent<Pubkey>> = Vec::with_capacity(16);
    let mut mv = Moves { dq: 0, db: 0, wq: 0, wb: 0 };
    let mut ok = true; // must the instruction succeed?
    let mut ids: Vec<FIFOOrderId> = vec![];
    let mut data: Vec<u8> = vec![ix as u8];
    let post_ok = (status == 1) | (status == 2);
    let cross_ok = status == 1;
    if seated { ok = ok & if by_authority { seat_status != 1 } else { seat_status == 1 }; }
    let mut prop = 18u32; // property the functional part belongs to
    let (slot, ts) = (pre.slot, pre.ts);
    let mut filled_off = false; // a fill although the market is not active
    panic_mode(arg(13) as u32);
    match ix {
        PI::Swap | PI::SwapWithFreeFunds | PI::PlaceLimitOrder | PI::PlaceLimitOrderWithFreeFunds => {
            let take = matches!(ix, PI::Swap | PI::SwapWithFreeFunds);
            let side = match arg(14) { 2 => choose(2) as usize, s => s as usize };
            let set = if opt & X_WRONG != 0 { arg(10) } else if take { arg(10) & 28 } else { arg(10) & 3 };
            if set == 0 { return; }
            let kind = pick(set, 5);
            let mut op = make_op(&c, side, kind, arg(11));
            if opt & X_WRONG == 0 { op.free = free; } else { op.free = flip(); }
            if kind < IOCB && opt & X_SILENT != 0 { op.silent = flip(); }
            data.extend_from_slice(&op.packet().try_to_vec().unwrap());
            ok = ok & (if take { cross_ok } else { post_ok }) & (op.free == free) & ((kind >= IOCB) == take);
            if ok {
                let mut skip = false;
                if op.silent {
                    if !pre.reg[A] { ok = false; skip = true } else {
                        let (avb, avq) = (pre.t[A].bf + if free { 0 } else { tb / bls }, pre.t[A].qf + if free { 0 } else { tq / qls });
                        skip = if side == BID { avq < pre.val(op.price, op.base) } else { avb < op.base };
                    }
                }
                if !skip {
                    let r = hk::place_order(&mut refm, &k, op.packet(), &mut |e| evs.push(e), &mut || (slot, ts));
                    match r { None => ok = false, Some((id, r)) => {
                        if let Some(i) = id { ids.push(i) }
                        mv.dq = r.num_quote_lots_in.as_u64() + r.num_quote_lots_posted.as_u64() - r.num_free_quote_lots_used.as_u64();
                        mv.db = r.num_base_lots_in.as_u64() + r.num_base_lots_posted.as_u64() - r.num_free_base_lots_used.as_u64();
                        mv.wq = r.num_quote_lots_out.as_u64(); mv.wb = r.num_base_lots_out.as_u64();
                        if free { ok = ok & (mv.dq == 0) & (mv.db == 0); }
                        let fills = evs.iter().any(|e| matches!(e, MarketEvent::Fill { .. }));
                        if fills && !cross_ok { ok = false; filled_off = true; }
                    } }
                } else { cover(60) }
            }
            prop = 13;
        }
        PI::ReduceOrder | PI::ReduceOrderWithFreeFunds => {
            let (side, price, seq) = any_id(&pre, &c);
            let sd = if flip() { side } else { 1 - side };
            let size = bits(c.sbits + 1);
            data.extend_from_slice(&ReduceOrderParams { base_params: CancelOrderParams { side: side_of(sd), price_in_ticks: price, order_sequence_number: seq }, size }.try_to_vec().unwrap());
            if ok { match hk::reduce_order(&mut refm, &k, &FIFOOrderId::new(Ticks::new(price), seq), side_of(sd), Some(BaseLots::new(size)), !free, &mut |e| evs.push(e)) {
                None => ok = false, Some(r) => { mv.wq = r.num_quote_lots_out.as_u64(); mv.wb = r.num_base_lots_out.as_u64(); } } }
            prop = 10;
        }
        PI::CancelAllOrders | PI::CancelAllOrdersWithFreeFunds => {
            let r = hk::cancel_all(&mut refm, &k, !free, &mut |e| evs.push(e)).unwrap_or_default();
            mv.wq = r.num_quote_lots_out.as_u64(); mv.wb = r.num_base_lots_out.as_u64();
            prop = 11;
        }
        PI::CancelUpTo | PI::CancelUpToWithFreeFunds | PI::ForceCancelOrders => {
            let side = choose(2) as usize;
            let tick = if flip() { Some(bits(c.pbits + 1)) } else { None };
            let search = if flip() { Some(bits(32) as u32) } else { None };
            let cancel = if flip() { Some(bits(32) as u32) } else { None };
            data.extend_from_slice(&CancelUpToParams { side: side_of(side), tick_limit: tick, num_orders_to_search: search, num_orders_to_cancel: cancel }.try_to_vec().unwrap());
            if ok {
                let r = hk::cancel_up_to(&mut refm, &k, side_of(side), search.map(|x| x as usize), cancel.map(|x| x as usize), tick.map(Ticks::new), !free, &mut |e| evs.push(e)).unwrap_or_default();
                mv.wq = r.num_quote_lots_out.as_u64(); mv.wb = r.num_base_lots_out.as_u64();
            }
            prop = 11;
        }
        PI::CancelMultipleOrdersById | PI::CancelMultipleOrdersByIdWithFreeFunds => {
            let n = choose(3);
            let mut orders = vec![]; let mut lst = vec![];
            for _ in 0..n {
                let (side, price, seq) = any_id(&pre, &c);
                let sd = if flip() { side } else { 1 - side };
                orders.push(CancelOrderParams { side: side_of(sd), price_in_ticks: price, order_sequence_number: seq });
                if (sd == BID) == (seq >> 63 == 1) { lst.push(FIFOOrderId::new(Ticks::new(price), seq)); }
            }
            data.extend_from_slice(&CancelMultipleOrdersByIdParams { orders }.try_to_vec().unwrap());
            let r = hk::cancel_by_id(&mut refm, &k, &lst, !free, &mut |e| evs.push(e)).unwrap_or_default();
            mv.wq = r.num_quote_lots_out.as_u64(); mv.wb = r.num_base_lots_out.as_u64();
            prop = 11;
        }
        PI::WithdrawFunds | PI::EvictSeat => {
            let (q, b) = if ix == PI::EvictSeat { (None, None) } else { (if flip() { Some(bits(64)) } else { None }, if flip() { Some(bits(64)) } else { None }) };
            if ix != PI::EvictSeat { data.extend_from_slice(&WithdrawParams { quote_lots_to_withdraw: q, base_lots_to_withdraw: b }.try_to_vec().unwrap()); }
            if ok { match hk::claim_funds(&mut refm, &k, q.map(QuoteLots::new), b.map(BaseLots::new), ix == PI::EvictSeat) {
                None => ok = false, Some(r) => { mv.wq = r.num_quote_lots_out.as_u64(); mv.wb = r.num_base_lots_out.as_u64(); } } }
            if ix == PI::EvictSeat {
                ok = ok & pre.reg[A] & (pre.t[A].ql == 0) & (pre.t[A].bl == 0);
                if ok { check(2370, (mv.wq == pre.t[A].qf) & (mv.wb == pre.t[A].bf)); cover(61) }
            }
            prop = if ix == PI::EvictSeat { 23 } else { 12 };
        }
        PI::DepositFunds => {
            let (q, b) = (bits(c.fbits), bits(c.fbits));
            data.extend_from_slice(&DepositParams { quote_lots_to_deposit: q, base_lots_to_deposit: b }.try_to_vec().unwrap());
            ok = ok & post_ok;
            if ok {
                hk::register_trader(&mut refm, &k);
                use sokoban::node_allocator::NodeAllocatorMap;
                let s = refm.traders.get_mut(&k).unwrap(); s.quote_lots_free += QuoteLots::new(q); s.base_lots_free += BaseLots::new(b);
                mv.dq = q; mv.db = b;
            }
            prop = 18;
        }
        PI::PlaceMultiplePostOnlyOrders | PI::PlaceMultiplePostOnlyOrdersWithFreeFunds => {
            let most = arg(14); // at most so many on each side; 100 + 10 * bids + asks: separate limits
            let nn = if most >= 100 { [(most - 100) / 10, most % 10] } else { [most, most] };
            let mk = |side: usize| -> Vec<CondensedOrder> {
                let n = choose(nn[side] + 1);
                (0..n).map(|_| { let (lvs, lvt) = if arg(11) & P_TIF != 0 { (if flip() { Some(bits(20)) } else { None }, if flip() { Some(bits(20)) } else { None }) } else { (None, None) };
                    CondensedOrder { price_in_ticks: sym(1, (1 << c.pbits) - 1), size_in_base_lots: sym(1, (1 << c.sbits) - 1), last_valid_slot: lvs, last_valid_unix_timestamp_in_seconds: lvt } }).collect()
            };
            let (bids, asks) = (mk(BID), mk(ASK));
            let behav = choose(4);
            let fb = || match behav { 0 => FB::FailOnInsufficientFundsAndAmendOnCross, 1 => FB::FailOnInsufficientFundsAndFailOnCross, 2 => FB::SkipOnInsufficientFundsAndAmendOnCross, _ => FB::SkipOnInsufficientFundsAndFailOnCross };
            let cid = if flip() { Some(bits(64) as u128) } else { None };
            data.extend_from_slice(&MultipleOrderPacket::new_with_failure_behavior(bids.clone(), asks.clone(), cid, fb()).try_to_vec().unwrap());
            ok = ok & post_ok;
            for b in bids.iter() { for a in asks.iter() { ok = ok & (b.price_in_ticks < a.price_in_ticks); } }
            ok = ok & pre.reg[A];
            if ok {
                let (mut avb, mut avq) = (pre.t[A].bf + if free { 0 } else { tb / bls }, pre.t[A].qf + if free { 0 } else { tq / qls });
                let (fail_cross, skips) = (behav & 1 == 1, behav >= 2);
                'all: for side in [BID, ASK] {
                    // levels: best price first, equal price and expiry merged when adjacent
                    let mut l: Vec<CondensedOrder> = vec![];
                    for o in (if side == BID { &bids } else { &asks }).iter() {
                        let mut p = l.len();
                        while p > 0 && (if side == BID { l[p - 1].price_in_ticks < o.price_in_ticks } else { l[p - 1].price_in_ticks > o.price_in_ticks }) { p -= 1 }
                        l.insert(p, o.clone());
                    }
                    let mut i = 1;
                    while i < l.len() {
                        if l[i - 1].price_in_ticks == l[i].price_in_ticks && l[i - 1].last_valid_slot == l[i].last_valid_slot && l[i - 1].last_valid_unix_timestamp_in_seconds == l[i].last_valid_unix_timestamp_in_seconds {
                            l[i - 1].size_in_base_lots += l[i].size_in_base_lots; l.remove(i); cover(62);
                        } else { i += 1 }
                    }
                    for o in l.iter() {
                        let need = if side == BID { pre.val(o.price_in_ticks, o.size_in_base_lots) } else { o.size_in_base_lots };
                        if skips && (if side == BID { avq < need } else { avb < need }) { cover(63); continue; }
                        let p = OrderPacket::PostOnly { side: side_of(side), price_in_ticks: Ticks::new(o.price_in_ticks), num_base_lots: BaseLots::new(o.size_in_base_lots), client_order_id: cid.unwrap_or(0),
                            reject_post_only: fail_cross, use_only_deposited_funds: free, last_valid_slot: o.last_valid_slot, last_valid_unix_timestamp_in_seconds: o.last_valid_unix_timestamp_in_seconds, fail_silently_on_insufficient_funds: skips };
                        match hk::place_order(&mut refm, &k, p, &mut |e| evs.push(e), &mut || (slot, ts)) {
                            None => { ok = false; break 'all; }
                            Some((id, r)) => {
                                if let Some(i) = id { ids.push(i) }
                                mv.dq += r.num_quote_lots_posted.as_u64() - r.num_free_quote_lots_used.as_u64();
                                mv.db += r.num_base_lots_posted.as_u64() - r.num_free_base_lots_used.as_u64();
                                if skips { avq -= r.num_quote_lots_posted.as_u64(); avb -= r.num_base_lots_posted.as_u64(); }
                            }
                        }
                    }
                }
                if free { ok = ok & (mv.dq == 0) & (mv.db == 0); }
            }
            prop = 26;
        }
        PI::CollectFees => {
            mv.wq = pre.unclaimed;
            hk::collect_fees(&mut refm, &mut |e| evs.push(e));
            prop = 22;
        }
        _ => {}
    }
    // the token program refuses deposits the trader cannot pay
    let poor = (mv.dq * qls > tq) | (mv.db * bls > tb);
    if !free && opt & (X_POOR | X_SILENT) != 0 { ok = ok & !poor; }
    let input = w.finish(&data);
    let res = run(input);
    panic_mode(HARNESS);
    trace(res.is_ok() as u64); trace(rec().xfers.len() as u64); trace(rec().logs.len() as u64);
    for x in rec().xfers.iter() { trace(x.amount) }
    cover(100 + ixn as u32);
    if au {
        if res.is_ok() { cover(130 + ixn as u32); if on(16) { for (i, v) in need.iter() { check(1600 + *i, *v); } } }
        return;
    }
    let ps: &[u32] = &[5, 13, 16, 17, 18, prop];
    if res.is_ok() {
        cover(130 + ixn as u32);
        for &p in ps { if on(p) { check(p * 100 + 70, ok); } }
    } else {
        for &p in ps { if on(p) { check(p * 100 + 71, !ok); } }
        cover(160 + ixn as u32);
        return;
    }
    if filled_off { if on(17) { check(1700, false); } return; }
    if !ok { return; }
    let post = view(mp);
    let refp = view(&refm);
    for &p in [prop, 1, 14, 13, 18].iter() { if on(p) { same_market(p * 100 + 72, &post, &refp); } }
    // ---- tokens
    let r = rec();
    if on(18) || on(prop) || on(22) {
        let t0 = if on(18) { 1800 } else { prop * 100 };
        check(t0 + 80, r.bad == 0); check(t0 + 81, r.made.is_empty() & r.inits.is_empty());
        let (mut sdq, mut sdb, mut swq, mut swb) = (0u64, 0u64, 0u64, 0u64);
        let (myb, myq) = (acct(A, false), if ix == PI::CollectFees { acct(3, true) } else { acct(A, true) });
        for x in r.xfers.iter() {
            check(t0 + 82, x.signed);
            let d = x.auth == k;
            if d { check(t0 + 83, ((x.from == myb) & (x.to == f.vb.0)) | ((x.from == myq) & (x.to == f.vq.0))); if x.from == myb { sdb += x.amount } else { sdq += x.amount } }
            else { check(t0 + 84, ((x.to == myb) & (x.from == f.vb.0) & (x.auth == f.vb.0)) | ((x.to == myq) & (x.from == f.vq.0) & (x.auth == f.vq.0))); if x.to == myb { swb += x.amount } else { swq += x.amount } }
        }
        check(t0 + 85, (sdq == mv.dq * qls) & (sdb == mv.db * bls)); check(t0 + 86, (swq == mv.wq * qls) & (swb == mv.wb * bls));
        // and they are what the market's own totals changed by
        let (q0, b0) = totals(&pre.t); let (q1, b1) = totals(&post.t);
        check(t0 + 87, (q1.wrapping_add(post.unclaimed).wrapping_mul(qls)).wrapping_sub(q0.wrapping_add(pre.unclaimed).wrapping_mul(qls)) == sdq.wrapping_sub(swq));
        check(t0 + 88, b1.wrapping_mul(bls).wrapping_sub(b0.wrapping_mul(bls)) == sdb.wrapping_sub(swb));
        if let (Some(ab), Some(vb)) = (ab, vb) { check(t0 + 89, (token_amount(&w, ab) == tb + swb - sdb) & (token_amount(&w, vb) == vb0 + sdb - swb)); }
        if let (Some(aq), Some(vq)) = (aq, vq) { check(t0 + 89, (token_amount(&w, aq) == tq + swq - sdq) & (token_amount(&w, vq) == vq0 + sdq - swq)); }
    }
    // ---- log
    if on(15) || on(14) {
        let got = check_logs(if on(15) { 1500 } else { 1520 }, ix as u8, seqn, &signer);
        let want: Vec<Ev> = evs.iter().map(ev).collect();
        let tg = if on(15) { 1540 } else { 1560 };
        check(tg, got.len() == want.len());
        if got.len() == want.len() { for (x, y) in got.iter().zip(want.iter()) { check(tg + 1, same_ev(x, y)); } }
        // returned order identifiers
        let mut ret: Vec<u8> = vec![]; if !ids.is_empty() { ret = ids.try_to_vec().unwrap(); }
        check(tg + 2, r.ret == ret);
    }
    // ---- everything else is unchanged
    for &p in [16u32, 17, 18, 22, 24, prop].iter() { if on(p) {
        let mut h1 = h0; h1.market_sequence_number = seqn + 1;
        let hb = w.slice(ma.data, HDR).to_vec();
        check(p * 100 + 92, hb.as_slice() == bytemuck::bytes_of(&h1));
        check(p * 100 + 93, w.lamports_of(ma) == 5_000_000 && w.owner_of(ma) == phoenix::id());
        if let Some(a) = seat_acc { check(p * 100 + 94, (w.r64(a.data + 72) == seat_status) & (w.r64(a.data) == f.disc_seat) & (w.rkey(a.data + 8) == market_key()) & (w.rkey(a.data + 40) == key(A))); }
    } }
    if on(15) { let mut h1 = h0; h1.market_sequence_number = seqn + 1; let hb = w.slice(ma.data, HDR).to_vec(); check(1592, hb.as_slice() == bytemuck::bytes_of(&h1)); }
}

/// an identifier of the book or any other
fn any_id(pre: &Pre, c: &Cfg) -> (usize, u64, u64) {
    let n = pre.o.len() as u64;
    let w = choose(n + 1);
    if w < n { let o = &pre.o[w as usize]; (o.side, o.price, o.seq) } else { 
        let side = choose(2) as usize; let (price, seq) = (bits(c.pbits), if side == BID { !bits(62) } else { bits(62) });
        for o in pre.o.iter() { assume((o.price != price) | (o.seq != seq)); } // the equal ones are the cases above
        (side, price, seq) }
}
