//! Every market operation other than placing, on an arbitrary valid market.
use crate::model::*;
use crate::place::{attribution, backing, conservation, derive, identity, order_events, sorted, D};
use crate::px::*;
use phoenix::quantities::*;
use phoenix::state::markets::*;
use phoenix::verif_hooks as hk;

pub const REDUCE: u64 = 0;
pub const CANCEL: u64 = 1;
pub const ALL: u64 = 2;
pub const UPTO: u64 = 3;
pub const BYID: u64 = 4;
pub const CLAIM: u64 = 5;
pub const REGISTER: u64 = 6;
pub const REMOVE: u64 = 7;
pub const COLLECT: u64 = 8;
pub const LADDER: u64 = 9;

#[no_mangle]
pub extern "C" fn e_ops() {
    let c = cfg();
    match arg(12) { 2 => ops::<2, 2, 4>(&c), 1 => ops::<1, 1, 4>(&c), 3 => ops::<3, 3, 4>(&c), _ => ops::<4, 4, 4>(&c) }
}
/// the identifier an operation is asked for: one of the book's, or any other
fn some_id(pre: &Pre, c: &Cfg) -> (usize, u64, u64) {
    let n = pre.o.len() as u64;
    let w = choose(n + 1);
    if w < n { let o = &pre.o[w as usize]; (o.side, o.price, o.seq) }
    else { let side = choose(2) as usize; let price = bits(c.pbits + 1); let seq = bits(64);
        for o in pre.o.iter() { assume(!((o.price == price) & (o.seq == seq))); }
        (side, price, seq) }
}
fn ops<const B: usize, const AA: usize, const S: usize>(c: &Cfg) {
    let mut set: Vec<u64> = vec![]; for k in 0..10 { if arg(9) >> k & 1 != 0 { set.push(k) } }
    let op = set[choose(set.len() as u64) as usize];
    let (mut m, pre) = build::<B, AA, S>(c);
    let mut raw: Vec<MarketEvent<solana_program::pubkey::Pubkey>> = Vec::with_capacity(16);
    let n = pre.o.len();
    // which orders have to shrink and by how much
    let mut want: Vec<u64> = vec![0; n];
    let mut fails = !pre.reg[A];
    let claim = op <= BYID && flip();
    let mut expect_reg = pre.reg;
    let mut out = (0u64, 0u64);
    let mut claimed = (0u64, 0u64);
    let mut unc = pre.unclaimed; let mut col = pre.collected;
    let mut expected: Vec<usize> = vec![]; // order of reduce events for by-id
    let k = key(A);
    let res: Option<Rsp>;
    if op == LADDER { return ladder(&mut m, &pre, c); }
    match op {
        REDUCE | CANCEL => {
            let (side, price, seq) = some_id(&pre, c);
            let wrong_side = choose(2) == 1;
            let sd = if wrong_side { 1 - side } else { side };
            let amount = if op == CANCEL || flip() { None } else { Some(bits(c.sbits + 1)) };
            for (i, o) in pre.o.iter().enumerate() { if o.seq == seq && o.price == price && o.side == sd {
                expected.push(i);
                if o.owner == A { want[i] = match amount { None => o.size, Some(a) => a.min(o.size) } } else { fails = true }
            } }
            let id = FIFOOrderId::new(Ticks::new(price), seq);
            panic_mode(arg(13) as u32);
            res = if op == CANCEL { hk::cancel_order(&mut m, &k, &id, side_of(sd), claim, &mut |e| raw.push(e)) }
                else { hk::reduce_order(&mut m, &k, &id, side_of(sd), amount.map(BaseLots::new), claim, &mut |e| raw.push(e)) };
        }
        ALL => {
            for (i, o) in pre.o.iter().enumerate() { if o.owner == A { want[i] = o.size; } }
            panic_mode(arg(13) as u32);
            res = hk::cancel_all(&mut m, &k, claim, &mut |e| raw.push(e));
        }
        UPTO => {
            let side = choose(2) as usize;
            let search = if flip() { Some(bits(64)) } else { None };
            let cancel = if flip() { Some(bits(64)) } else { None };
            let tick = if flip() { Some(bits(c.pbits + 1)) } else { None };
            let (mut looked, mut done) = (0u64, 0u64);
            for (i, o) in pre.o.iter().enumerate() { if o.side == side {
                let within = match search { None => true, Some(s) => looked < s };
                looked += 1;
                if o.owner != A { continue; }
                let aggressive = match tick { None => true, Some(t) => if side == BID { o.price >= t } else { o.price <= t } };
                let room = match cancel { None => true, Some(x) => done < x };
                if within & aggressive & room { want[i] = o.size; done += 1; }
            } }
            panic_mode(arg(13) as u32);
            res = hk::cancel_up_to(&mut m, &k, side_of(side), search.map(|x| x as usize), cancel.map(|x| x as usize), tick.map(Ticks::new), claim, &mut |e| raw.push(e));
        }
        BYID => {
            let cnt = choose(arg(10) + 1);
            let mut ids = vec![];
            for _ in 0..cnt {
                let (_, price, seq) = some_id(&pre, c);
                for (i, o) in pre.o.iter().enumerate() { if o.seq == seq && o.price == price && o.owner == A { want[i] = o.size; } }
                ids.push(FIFOOrderId::new(Ticks::new(price), seq));
            }
            panic_mode(arg(13) as u32);
            res = hk::cancel_by_id(&mut m, &k, &ids, claim, &mut |e| raw.push(e));
        }
        CLAIM => {
            let q = if flip() { Some(bits(64)) } else { None };
            let b = if flip() { Some(bits(64)) } else { None };
            let evict = flip();
            if pre.reg[A] {
                claimed = (q.map_or(pre.t[A].qf, |x| x.min(pre.t[A].qf)), b.map_or(pre.t[A].bf, |x| x.min(pre.t[A].bf)));
                out = claimed;
                let empty = (pre.t[A].qf == claimed.0) & (pre.t[A].bf == claimed.1) & (pre.t[A].ql == 0) & (pre.t[A].bl == 0);
                if evict && empty { expect_reg[A] = false; cover(33) }
            }
            panic_mode(arg(13) as u32);
            res = hk::claim_funds(&mut m, &k, q.map(QuoteLots::new), b.map(BaseLots::new), evict);
        }
        REGISTER => {
            fails = false; expect_reg[A] = true;
            panic_mode(arg(13) as u32);
            res = hk::register_trader(&mut m, &k).map(|_| Rsp::default());
        }
        REMOVE => {
            if pre.reg[A] && (pre.t[A].qf == 0) & (pre.t[A].bf == 0) & (pre.t[A].ql == 0) & (pre.t[A].bl == 0) { expect_reg[A] = false; cover(34) }
            panic_mode(arg(13) as u32);
            res = hk::remove_trader(&mut m, &k).map(|_| Rsp::default());
        }
        _ => {
            fails = false; unc = 0; col = pre.collected.wrapping_add(pre.unclaimed);
            panic_mode(arg(13) as u32);
            let paid = hk::collect_fees(&mut m, &mut |e| raw.push(e));
            panic_mode(HARNESS);
            for p in [1u32, 22] { if on(p) { check(p * 100 + 60, paid.as_u64() == pre.unclaimed); } }
            // paying out the fees: conservation below counts them as paid out
            res = Some(Rsp::new_withdraw(BaseLots::ZERO, paid));
        }
    }
    panic_mode(HARNESS);
    let post = view(&m);
    let d = derive(&pre, &post, &raw, false);
    trace(res.is_some() as u64); trace(post.o.len() as u64); trace(d.evs.len() as u64); trace(post.unclaimed);
    for t in 0..NT { trace(post.t[t].qf); trace(post.t[t].ql); trace(post.t[t].bf); trace(post.t[t].bl); trace(post.reg[t] as u64); }
    for o in post.o.iter() { trace(o.price); trace(o.seq); trace(o.size); }
    cover(40 + op as u32); if fails { cover(50) }
    if want.iter().any(|&w| w != 0) { cover(51) }
    // released funds
    let (mut rq, mut rb) = (0u64, 0u64);
    for (i, o) in pre.o.iter().enumerate() { if o.side == BID { rq = rq.wrapping_add(pre.val(o.price, want[i])) } else { rb = rb.wrapping_add(want[i]) } }
    if claim { out = (rq, rb); claimed = out; }
    let none = if op == BYID || op == ALL || op == UPTO || op == CLAIM || op == REMOVE { !pre.reg[A] } else { fails };
    let r = res.unwrap_or_default();
    if none { out = (0, 0); claimed = (0, 0); for w in want.iter_mut() { *w = 0 } }
    let (qo, bo) = (r.num_quote_lots_out.as_u64(), r.num_base_lots_out.as_u64());
    let silent = (r.num_quote_lots_in.as_u64() == 0) & (r.num_base_lots_in.as_u64() == 0) & (r.num_quote_lots_posted.as_u64() == 0) & (r.num_base_lots_posted.as_u64() == 0)
        & (r.num_free_quote_lots_used.as_u64() == 0) & (r.num_free_base_lots_used.as_u64() == 0);
    let of = |p: u32| on(p) && match p { 10 => op <= CANCEL, 11 => op == ALL || op == UPTO || op == BYID, 12 => op == CLAIM || op == REMOVE || op == REGISTER, 22 => op == COLLECT, 23 => op == CLAIM || op == REMOVE || op == REGISTER, _ => true };
    for p in [10u32, 11, 12, 22, 23] { if of(p) {
        let g = p * 100;
        check(g + 20, res.is_none() == none);
        for (i, o) in pre.o.iter().enumerate() {
            check(g + 21, d.after[i] == o.size.wrapping_sub(want[i]));
            check(g + 22, d.gone[i] == (want[i] == o.size));
        }
        check(g + 23, post.o.len() + d.gone.iter().filter(|&&x| x).count() == n);
        identity(g + 24, &pre, &post, &d);
        attribution(g + 27, &pre, &post, &d, claimed.0, claimed.1, 0, 0, None, expect_reg);
        if op != COLLECT { check(g + 32, (qo == out.0) & (bo == out.1) & silent); }
        check(g + 33, (post.unclaimed == unc) & (post.collected == col) & (post.seq == pre.seq));
        sorted(g + 34, &post);
        order_events(g + 36, &pre, &post, &d);
        check(g + 43, !post.foreign);
        if none { check(g + 44, d.evs.is_empty()); }
    } }
    if on(1) {
        let mut r2 = r; if op == COLLECT { r2.num_base_lots_out = BaseLots::ZERO; }
        conservation(150, &pre, &post, &r2);
        attribution(152, &pre, &post, &d, claimed.0, claimed.1, 0, 0, None, expect_reg);
        check(157, if op == COLLECT { qo == pre.unclaimed } else { (qo == out.0) & (bo == out.1) & silent });
        check(158, (post.unclaimed == unc) & (post.collected == col));
        // a registered trader that disappears had nothing left
        check(159, !(pre.reg[A] & !post.reg[A]) | ((pre.t[A].qf.wrapping_sub(claimed.0) == 0) & (pre.t[A].bf.wrapping_sub(claimed.1) == 0)));
    }
    if on(2) { backing(250, &pre, &post); for t in 0..NT { check(254, post.reg[t] | !pre.reg[t] | ((pre.t[t].ql == 0) & (pre.t[t].bl == 0))); } }
    if on(4) { sorted(450, &post); check(452, d.newo.is_empty() & (post.seq == pre.seq)); identity(453, &pre, &post, &d); }
    if on(14) {
        order_events(1450, &pre, &post, &d);
        for e in d.evs.iter() {
            if op == COLLECT { check(1457, (e.k == K::Fee) & (e.q == pre.unclaimed)); } else { check(1458, e.k == K::Reduce); }
        }
        if op == COLLECT { check(1459, d.evs.len() == 1); }
        check(1460, d.newo.is_empty());
        if op <= CANCEL && !fails && expected.len() == 1 { check(1461, d.evs.len() == 1); }
    }
    if on(22) && op == COLLECT { check(2261, (d.evs.len() == 1) && (d.evs[0].k == K::Fee) && (d.evs[0].q == pre.unclaimed)); }
    if on(23) && op == REGISTER && !pre.reg[A] { // registering gives an empty account once
        let x = &post.t[A]; check(2350, (x.ql == 0) & (x.qf == 0) & (x.bl == 0) & (x.bf == 0));
        let again = hk::register_trader(&mut m, &k);
        let p2 = view(&m);
        check(2351, again.is_some() & (m.traders.len() == post.reg.iter().filter(|&&x| x).count()) & p2.reg[A]);
    }
}
use sokoban::node_allocator::NodeAllocatorMap;

fn ladder<const B: usize, const AA: usize, const S: usize>(m: &mut Mk<B, AA, S>, pre: &Pre, _c: &Cfg) {
    let (slot, ts) = (pre.slot, pre.ts);
    let with = choose(2) == 1;
    let levels = bits(64);
    let (s, t) = if with { (Some(slot), Some(ts)) } else { (None, None) };
    panic_mode(arg(13) as u32);
    let l = if with { m.get_ladder_with_expiration(levels, s, t) } else { m.get_ladder(levels) };
    let tl = m.get_typed_ladder_with_expiration(levels, s, t);
    panic_mode(HARNESS);
    let (slot, ts) = if with { (slot, ts) } else { (0, 0) };
    cover(49);
    for side in [BID, ASK] {
        let got: Vec<(u64, u64)> = (if side == BID { &l.bids } else { &l.asks }).iter().map(|x| (x.price_in_ticks, x.size_in_base_lots)).collect();
        let typed: Vec<(u64, u64)> = (if side == BID { &tl.bids } else { &tl.asks }).iter().map(|x| (x.price_in_ticks.as_u64(), x.size_in_base_lots.as_u64())).collect();
        trace(got.len() as u64); for g in got.iter() { trace(g.0); trace(g.1); }
        // expected: forks on the order's expiry and price equality
        let mut exp: Vec<(u64, u64)> = vec![];
        for i in pre.side(side) {
            let o = &pre.o[i];
            if o.expired(slot, ts) { continue; }
            let k = exp.len();
            if k > 0 && exp[k - 1].0 == o.price { exp[k - 1].1 = exp[k - 1].1.wrapping_add(o.size); } else { exp.push((o.price, o.size)); }
        }
        let mut n = 0; while n < exp.len() && (n as u64) < levels { n += 1 }
        if n > 0 { cover(52) } if n < exp.len() { cover(53) }
        check(2500, got.len() == n); check(2501, typed.len() == n);
        if got.len() == n { for i in 0..n { check(2502, (got[i].0 == exp[i].0) & (got[i].1 == exp[i].1)); } }
        if typed.len() == n { for i in 0..n { check(2503, (typed[i].0 == exp[i].0) & (typed[i].1 == exp[i].1)); } }
        for i in 1..got.len() { check(2504, if side == BID { got[i - 1].0 > got[i].0 } else { got[i - 1].0 < got[i].0 }); }
    }
    let post = view(m);
    check(2505, post.o.len() == pre.o.len());
    for (x, y) in pre.o.iter().zip(post.o.iter()) { check(2506, (x.price == y.price) & (x.seq == y.seq) & (x.size == y.size) & (x.owner == y.owner) & (x.lvs == y.lvs) & (x.lvt == y.lvt)); }
    for t in 0..NT { let (x, y) = (&pre.t[t], &post.t[t]); check(2507, (x.qf == y.qf) & (x.ql == y.ql) & (x.bf == y.bf) & (x.bl == y.bl)); }
    check(2508, (post.unclaimed == pre.unclaimed) & (post.collected == pre.collected) & (post.seq == pre.seq));
}

/// identifiers: total order by price then age, side from the leading bit
#[no_mangle]
pub extern "C" fn e_ids() {
    use std::cmp::Ordering;
    let side = choose(2) as usize;
    let mk = || { let n = sym(1, (1u64 << 63) - 1); let p = bits(64); (p, n, FIFOOrderId::new(Ticks::new(p), if side == BID { !n } else { n })) };
    let (p1, n1, a) = mk(); let (p2, n2, b) = mk();
    panic_mode(arg(0) as u32);
    let o = a.cmp(&b); let po = a.partial_cmp(&b); let eq = a == b; let lt = a < b; let gt = a > b; let rev = b.cmp(&a);
    let sd = phoenix::state::Side::from_order_sequence_number(a.order_sequence_number);
    panic_mode(HARNESS);
    let better = if side == BID { p1 > p2 } else { p1 < p2 };
    let before = better | ((p1 == p2) & (n1 < n2));
    let same = (p1 == p2) & (n1 == n2);
    trace(o as i8 as u64);
    check(420, (o == Ordering::Less) == before); check(421, (o == Ordering::Equal) == same); check(422, eq == same);
    check(423, po == Some(o)); check(424, (lt == before) & (gt == (!before & !same))); check(425, rev == o.reverse());
    check(426, sd == side_of(side));
    check(427, (a.order_sequence_number >> 63 == 1) == (side == BID));
    cover(45);
}
