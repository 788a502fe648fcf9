//! One order placement on an arbitrary valid market.
use crate::model::*;
use crate::px::*;
use phoenix::quantities::*;
use phoenix::state::markets::*;
use phoenix::state::*;
use phoenix::verif_hooks as hk;

pub const POST: u64 = 0;
pub const LIMIT: u64 = 1;
pub const IOCB: u64 = 2;
pub const IOCQ: u64 = 3;
pub const IOCX: u64 = 4; // both or neither amount

pub struct Op { pub side: usize, pub kind: u64, pub has_price: bool, pub price: u64, pub base: u64, pub quote: u64, pub minb: u64, pub minq: u64,
    pub stb: SelfTradeBehavior, pub has_ml: bool, pub ml: u64, pub cid: u128, pub reject: bool, pub free: bool, pub lvs: Option<u64>, pub lvt: Option<u64>, pub silent: bool }
impl Op {
    pub fn expired(&self, slot: u64, ts: u64) -> bool {
        (match self.lvs { Some(v) => slot > v, None => false }) | (match self.lvt { Some(v) => ts > v, None => false })
    }
    /// does the limit of the incoming order accept price p
    pub fn accepts(&self, p: u64) -> bool { !self.has_price | (if self.side == BID { p <= self.price } else { p >= self.price }) }
    pub fn packet(&self) -> OrderPacket {
        let side = side_of(self.side);
        match self.kind {
            POST => OrderPacket::PostOnly { side, price_in_ticks: Ticks::new(self.price), num_base_lots: BaseLots::new(self.base), client_order_id: self.cid, reject_post_only: self.reject,
                use_only_deposited_funds: self.free, last_valid_slot: self.lvs, last_valid_unix_timestamp_in_seconds: self.lvt, fail_silently_on_insufficient_funds: self.silent },
            LIMIT => OrderPacket::Limit { side, price_in_ticks: Ticks::new(self.price), num_base_lots: BaseLots::new(self.base), self_trade_behavior: self.stb,
                match_limit: if self.has_ml { Some(self.ml) } else { None }, client_order_id: self.cid, use_only_deposited_funds: self.free, last_valid_slot: self.lvs,
                last_valid_unix_timestamp_in_seconds: self.lvt, fail_silently_on_insufficient_funds: self.silent },
            _ => OrderPacket::ImmediateOrCancel { side, price_in_ticks: if self.has_price { Some(Ticks::new(self.price)) } else { None }, num_base_lots: BaseLots::new(self.base),
                num_quote_lots: QuoteLots::new(self.quote), min_base_lots_to_fill: BaseLots::new(self.minb), min_quote_lots_to_fill: QuoteLots::new(self.minq), self_trade_behavior: self.stb,
                match_limit: if self.has_ml { Some(self.ml) } else { None }, client_order_id: self.cid, use_only_deposited_funds: self.free, last_valid_slot: self.lvs, last_valid_unix_timestamp_in_seconds: self.lvt },
        }
    }
}
pub const P_STB: u64 = 1; // every self trade behaviour
pub const P_ML: u64 = 2; // match limit symbolic
pub const P_TIF: u64 = 4; // expiry of the incoming order
pub const P_FREE: u64 = 8; // deposited funds only: both
pub const P_MIN: u64 = 16; // minimum fills
pub const P_UNCROSSED: u64 = 32; // the live book is uncrossed before
pub const P_NOPRICE: u64 = 64; // market orders too
pub const P_FREEONLY: u64 = 128; // deposited funds only
pub const P_ZERO: u64 = 256; // zero prices and sizes too

pub fn make_op(c: &Cfg, side: usize, kind: u64, f: u64) -> Op {
    let lo = if f & P_ZERO != 0 { 0 } else { 1 };
    let has_price = kind < IOCB || f & P_NOPRICE == 0 || flip();
    let price = if has_price { sym(lo, (1u64 << c.pbits) - 1) } else { 0 };
    let base = match kind { IOCQ => 0, _ => sym(lo, (1u64 << c.sbits) - 1) };
    let quote = match kind { IOCQ | IOCX => sym(lo, (1u64 << c.fbits) - 1), _ => 0 };
    let stb = if kind != POST && f & P_STB != 0 { match choose(3) { 0 => SelfTradeBehavior::Abort, 1 => SelfTradeBehavior::CancelProvide, _ => SelfTradeBehavior::DecrementTake } } else { SelfTradeBehavior::CancelProvide };
    let has_ml = kind != POST && f & P_ML != 0;
    let ml = if has_ml { bits(64) } else { u64::MAX };
    let (minb, minq) = if kind >= IOCB && f & P_MIN != 0 { (bits(c.sbits), bits(c.fbits)) } else { (0, 0) };
    let (lvs, lvt) = if f & P_TIF != 0 { (if flip() { Some(bits(20)) } else { None }, if flip() { Some(bits(20)) } else { None }) } else { (None, None) };
    Op { side, kind, has_price, price, base, quote, minb, minq, stb, has_ml, ml, cid: (bits(64) as u128) << 64 | bits(64) as u128,
        reject: kind == POST && flip(), free: if f & P_FREEONLY != 0 { true } else if f & P_FREE != 0 { flip() } else { false }, lvs, lvt, silent: false }
}

/// sums and classes derived from the two states and the events
pub struct D {
    pub after: Vec<u64>, pub gone: Vec<bool>, pub cls: Vec<Option<K>>, pub cnt: Vec<usize>, pub post_ix: Vec<usize>,
    pub newo: Vec<usize>, pub mb: u64, pub mq: u64, pub db: u64, pub dq: u64, pub touched: u64, pub fee: u64, pub evs: Vec<Ev>,
}
pub fn is_order_event(k: K) -> bool { matches!(k, K::Fill | K::Reduce | K::Evict | K::Expired) }
#[inline(never)]
pub fn derive(pre: &Pre, post: &Post, raw: &[MarketEvent<solana_program::pubkey::Pubkey>], decrement: bool) -> D {
    let evs: Vec<Ev> = raw.iter().map(ev).collect();
    let n = pre.o.len();
    let mut d = D { after: vec![0; n], gone: vec![true; n], cls: vec![None; n], cnt: vec![0; n], post_ix: vec![usize::MAX; n], newo: vec![], mb: 0, mq: 0, db: 0, dq: 0, touched: 0,
        fee: post.unclaimed.wrapping_sub(pre.unclaimed), evs };
    for (j, q) in post.o.iter().enumerate() {
        let mut found = false;
        for i in 0..n { if pre.o[i].side == q.side && pre.o[i].seq == q.seq { found = true; d.gone[i] = false; d.after[i] = q.size; d.post_ix[i] = j; } }
        if !found { d.newo.push(j) }
    }
    for i in 0..n {
        for e in d.evs.iter() { if is_order_event(e.k) && e.seq == pre.o[i].seq { d.cnt[i] += 1; d.cls[i] = Some(e.k); } }
        let diff = pre.o[i].size.wrapping_sub(d.after[i]);
        match d.cls[i] {
            Some(K::Fill) => { d.mb = d.mb.wrapping_add(diff); d.mq = d.mq.wrapping_add(pre.val(pre.o[i].price, diff)); d.touched += 1; }
            Some(K::Reduce) => { d.touched += 1; if decrement { d.db = d.db.wrapping_add(diff); d.dq = d.dq.wrapping_add(pre.val(pre.o[i].price, diff)); } }
            Some(K::Expired) => { d.touched += 1; }
            _ => {}
        }
    }
    d
}
/// conservation and exact attribution of balances; `inq/inb` paid in, `outq/outb` paid out by the actor, `recvq/recvb` credited to the actor's free balance
pub fn attribution(tag: u32, pre: &Pre, post: &Post, d: &D, fuq: u64, fub: u64, recvq: u64, recvb: u64, placed: Option<O>, expect_reg: [bool; NT]) {
    for t in 0..NT {
        let (mut qf, mut bf, mut ql, mut bl) = (pre.t[t].qf, pre.t[t].bf, pre.t[t].ql, pre.t[t].bl);
        for (i, o) in pre.o.iter().enumerate() {
            if o.owner != t { continue; }
            let diff = o.size.wrapping_sub(d.after[i]);
            let v = pre.val(o.price, diff);
            if o.side == BID { ql = ql.wrapping_sub(v); if d.cls[i] == Some(K::Fill) { bf = bf.wrapping_add(diff) } else { qf = qf.wrapping_add(v) } }
            else { bl = bl.wrapping_sub(diff); if d.cls[i] == Some(K::Fill) { qf = qf.wrapping_add(v) } else { bf = bf.wrapping_add(diff) } }
        }
        if t == A {
            qf = qf.wrapping_sub(fuq).wrapping_add(recvq); bf = bf.wrapping_sub(fub).wrapping_add(recvb);
            if let Some(p) = placed { if p.side == BID { ql = ql.wrapping_add(pre.val(p.price, p.size)) } else { bl = bl.wrapping_add(p.size) } }
        }
        check(tag, post.reg[t] == expect_reg[t]);
        if post.reg[t] {
            check(tag + 1, post.t[t].qf == qf); check(tag + 2, post.t[t].bf == bf);
            check(tag + 3, post.t[t].ql == ql); check(tag + 4, post.t[t].bl == bl);
        }
    }
}
pub fn totals(x: &[T; NT]) -> (u64, u64) {
    let (mut q, mut b) = (0u64, 0u64);
    for t in x { q = q.wrapping_add(t.ql).wrapping_add(t.qf); b = b.wrapping_add(t.bl).wrapping_add(t.bf); }
    (q, b)
}
pub fn conservation(tag: u32, pre: &Pre, post: &Post, r: &Rsp) {
    let (q0, b0) = totals(&pre.t); let (q1, b1) = totals(&post.t);
    let qin = r.num_quote_lots_in.as_u64().wrapping_add(r.num_quote_lots_posted.as_u64()).wrapping_sub(r.num_free_quote_lots_used.as_u64());
    let bin = r.num_base_lots_in.as_u64().wrapping_add(r.num_base_lots_posted.as_u64()).wrapping_sub(r.num_free_base_lots_used.as_u64());
    check(tag, q1.wrapping_add(post.unclaimed).wrapping_add(r.num_quote_lots_out.as_u64()) == q0.wrapping_add(pre.unclaimed).wrapping_add(qin));
    check(tag + 1, b1.wrapping_add(r.num_base_lots_out.as_u64()) == b0.wrapping_add(bin));
}
pub fn backing(tag: u32, pre: &Pre, post: &Post) {
    for t in 0..NT {
        let (mut ql, mut bl) = (0u64, 0u64);
        for o in post.o.iter() { if o.owner == t { if o.side == BID { ql = ql.wrapping_add(pre.val(o.price, o.size)) } else { bl = bl.wrapping_add(o.size) } } }
        check(tag, post.t[t].ql == ql); check(tag + 1, post.t[t].bl == bl);
    }
    check(tag + 2, !post.foreign);
    for o in post.o.iter() { check(tag + 3, (o.size != 0) & (o.price != 0)); }
}
/// remaining orders keep identity; only sizes may have shrunk
pub fn identity(tag: u32, pre: &Pre, post: &Post, d: &D) {
    for (i, o) in pre.o.iter().enumerate() { if !d.gone[i] {
        let q = &post.o[d.post_ix[i]];
        check(tag, (q.price == o.price) & (q.lvs == o.lvs) & (q.lvt == o.lvt)); check(tag + 1, q.owner == o.owner); check(tag + 2, (q.size <= o.size) & (q.size != 0));
    } }
}
pub fn sorted(tag: u32, post: &Post) {
    for j in 1..post.o.len() {
        let (x, y) = (&post.o[j - 1], &post.o[j]);
        if x.side != y.side { continue; }
        let older = if x.side == BID { !x.seq < !y.seq } else { x.seq < y.seq };
        check(tag, if x.side == BID { (x.price > y.price) | ((x.price == y.price) & older) } else { (x.price < y.price) | ((x.price == y.price) & older) });
    }
    for q in post.o.iter() { check(tag + 1, (q.seq >> 63 == 1) == (q.side == BID)); }
}
/// events of existing orders agree with the change of the book (used for every operation)
pub fn order_events(tag: u32, pre: &Pre, post: &Post, d: &D) {
    for (i, o) in pre.o.iter().enumerate() {
        let diff = o.size.wrapping_sub(d.after[i]);
        check(tag, d.cnt[i] <= 1);
        check(tag + 1, (d.cnt[i] == 1) | (diff == 0));
        for e in d.evs.iter() { if is_order_event(e.k) && e.seq == o.seq {
            check(tag + 2, e.price == o.price);
            check(tag + 3, e.lots == diff);
            if matches!(e.k, K::Fill | K::Reduce) { check(tag + 4, e.rem == d.after[i]); }
            if matches!(e.k, K::Evict | K::Expired) { check(tag + 4, d.gone[i]); }
            if e.k != K::Reduce { check(tag + 5, e.maker == o.owner); }
        } }
    }
    for e in d.evs.iter() { if is_order_event(e.k) { check(tag + 6, pre.o.iter().any(|o| o.seq == e.seq)); } }
    let _ = post;
}

#[no_mangle]
pub extern "C" fn e_place() {
    let c = cfg();
    match arg(12) { 2 => place::<2, 2, 4>(&c), 1 => place::<1, 1, 4>(&c), 3 => place::<3, 3, 4>(&c), _ => place::<4, 4, 4>(&c) }
}
fn place<const B: usize, const AA: usize, const S: usize>(c: &Cfg) {
    let side = match arg(9) { 2 => choose(2) as usize, s => s as usize };
    // arg(10): set of order kinds
    let mut kinds: Vec<u64> = vec![]; for k in 0..5 { if arg(10) >> k & 1 != 0 { kinds.push(k) } }
    let kind = kinds[choose(kinds.len() as u64) as usize];
    let f = arg(11);
    let (mut m, pre) = build::<B, AA, S>(c);
    let op = make_op(c, side, kind, f);
    let (slot, ts) = (pre.slot, pre.ts);
    let opp: Vec<usize> = pre.side(1 - side);
    if f & P_UNCROSSED != 0 {
        for i in pre.side(BID) { for j in pre.side(ASK) { let (x, y) = (&pre.o[i], &pre.o[j]); assume((x.price < y.price) | x.expired(slot, ts) | y.expired(slot, ts)); } }
    }
    let mut raw: Vec<MarketEvent<solana_program::pubkey::Pubkey>> = Vec::with_capacity(16);
    panic_mode(arg(13) as u32);
    let res = hk::place_order(&mut m, &key(A), op.packet(), &mut |e| raw.push(e), &mut || (slot, ts));
    panic_mode(HARNESS);
    let post = view(&m);
    let d = derive(&pre, &post, &raw, op.stb == SelfTradeBehavior::DecrementTake);
    trace(res.is_some() as u64); trace(post.o.len() as u64); trace(d.evs.len() as u64); trace(post.unclaimed);
    for t in 0..NT { trace(post.t[t].qf); trace(post.t[t].ql); trace(post.t[t].bf); trace(post.t[t].bl); }
    for o in post.o.iter() { trace(o.price); trace(o.seq); trace(o.size); }

    // ---- quantities shared by several properties
    let gross_fee = if side == BID { d.mq.wrapping_add(d.fee) } else { d.mq.wrapping_sub(d.fee) };
    let limit = op.price.max((side == ASK && kind < IOCB) as u64);
    let mut best_live: Option<u64> = None; // best live opposite price before, as (found, price) with symbolic presence
    let mut has_live = false; let mut live_price = 0u64;
    for &i in opp.iter().rev() { let o = &pre.o[i]; let l = !o.expired(slot, ts); live_price = if l { o.price } else { live_price }; has_live = has_live | l; }
    if opp.is_empty() { best_live = None } else if has_live { best_live = Some(live_price) }
    let crosses_before = match best_live { None => false, Some(p) => if side == BID { limit >= p } else { limit <= p } };
    let own: Vec<usize> = pre.side(side);
    let cap = if side == BID { B } else { AA };
    let full = own.len() == cap;
    let worst = if full { pre.o[own[cap - 1]].price } else { 0 };
    let placed = if d.newo.len() == 1 { Some(post.o[d.newo[0]]) } else { None };
    let incoming_expired = op.expired(slot, ts);
    let ev_own_q: u64 = own.iter().filter(|&&i| pre.o[i].owner == A && side == BID).fold(0u64, |a, &i| a.wrapping_add(pre.val(pre.o[i].price, pre.o[i].size.wrapping_sub(d.after[i]))));
    let ev_own_b: u64 = own.iter().filter(|&&i| pre.o[i].owner == A && side == ASK).fold(0u64, |a, &i| a.wrapping_add(pre.o[i].size.wrapping_sub(d.after[i])));
    let remaining = op.base.wrapping_sub(d.mb).wrapping_sub(d.db);
    // may matching stop while the live order i of another trader (or the own order i) is crossable?
    let stop_ok = |i: usize| -> bool {
        let o = &pre.o[i];
        let spent = d.mq.wrapping_add(d.dq);
        let afford = if kind == IOCQ {
            let adj = spent.wrapping_add(pre.val(o.price, 1)).wrapping_mul(pre.bunit);
            let (lhs, rhs) = if side == BID { (adj.wrapping_add(1).wrapping_mul(10000u64.wrapping_add(pre.fee)), op.quote.wrapping_mul(pre.bunit).wrapping_mul(10000)) }
                else { (adj.wrapping_mul(10000u64.wrapping_sub(pre.fee)), op.quote.wrapping_mul(pre.bunit).wrapping_mul(10000)) };
            lhs <= rhs
        } else { remaining != 0 };
        !op.accepts_eff(o.price, limit) | (d.touched >= op.ml) | !afford
    };
    let first_left: Option<usize> = opp.iter().copied().find(|&i| !d.gone[i]);

    // ---- why an order may be refused
    if res.is_none() {
        let mut ok = (side == BID) & op.has_price & (op.price == 0);
        ok = ok | ((op.base == 0) & (op.quote == 0)) | ((op.base != 0) & (op.quote != 0));
        let mut why_cross = false; let mut why_abort = false;
        if kind == POST { why_cross = crosses_before & (op.reject | ((side == BID) & (live_price <= 1))); }
        let why_min = (kind >= IOCB) & ((d.mb < op.minb) | (gross_fee < op.minq));
        if kind != POST && op.stb == SelfTradeBehavior::Abort { if let Some(i) = first_left { let o = &pre.o[i]; why_abort = (o.owner == A) & op.accepts_eff(o.price, limit) & !o.expired(slot, ts) & (d.touched < op.ml); } }
        // state after a refusal may already contain the effects that the transaction rolls back
        let why_full = full & (kind < IOCB) & (if side == BID { limit_posted(&op, limit, crosses_before, live_price) <= worst } else { limit_posted(&op, limit, crosses_before, live_price) >= worst });
        let mut why_funds = false;
        if op.free && pre.reg[A] {
            let pv = match placed { Some(p) => if side == BID { pre.val(p.price, p.size) } else { p.size }, None => 0 };
            why_funds = if side == BID { gross_fee.wrapping_add(pv) > pre.t[A].qf.wrapping_add(ev_own_q) } else { d.mb.wrapping_add(pv) > pre.t[A].bf.wrapping_add(ev_own_b) };
        }
        let all = ok | why_cross | why_min | why_abort | why_full | why_funds;
        for p in [5u32, 7, 8, 9, 13, 21] { if on(p) { check(p * 100 + 90, all); } }
        cover(1);
        return;
    }
    let (rid, r) = res.unwrap();
    let (qi, bi, qo, bo, qp, bp, fq, fb) = (r.num_quote_lots_in.as_u64(), r.num_base_lots_in.as_u64(), r.num_quote_lots_out.as_u64(), r.num_base_lots_out.as_u64(), r.num_quote_lots_posted.as_u64(), r.num_base_lots_posted.as_u64(), r.num_free_quote_lots_used.as_u64(), r.num_free_base_lots_used.as_u64());
    let dep_only = op.free && post.reg[A];
    cover(2); if d.mb != 0 { cover(3) } if placed.is_some() { cover(4) }
    let mut expect_reg = pre.reg; if kind < IOCB { expect_reg[A] = true; }

    if on(1) {
        conservation(100, &pre, &post, &r);
        let (rq, rb) = if dep_only { if side == BID { (0, d.mb) } else { (gross_fee, 0) } } else { (0, 0) };
        attribution(102, &pre, &post, &d, fq, fb, rq, rb, placed, expect_reg);
        if side == BID {
            check(110, (qi == gross_fee) & (bi == 0) & (qo == 0) & (bo == if dep_only { 0 } else { d.mb }) & (bp == 0) & (fb == 0));
            check(111, qp == match placed { Some(p) => pre.val(p.price, p.size), None => 0 });
        } else {
            check(110, (bi == d.mb) & (qi == 0) & (bo == 0) & (qo == if dep_only { 0 } else { gross_fee }) & (qp == 0) & (fq == 0));
            check(111, bp == match placed { Some(p) => p.size, None => 0 });
        }
        check(112, (fq <= qi.wrapping_add(qp)) & (fb <= bi.wrapping_add(bp)));
        check(113, post.collected == pre.collected);
    }
    if on(2) { backing(200, &pre, &post); }
    if on(3) {
        let mut last = None;
        for e in d.evs.iter() { if e.k == K::Fill {
            let ix = opp.iter().position(|&i| pre.o[i].seq == e.seq);
            check(300, ix.is_some());
            if let Some(x) = ix {
                let o = &pre.o[opp[x]];
                check(301, (e.price == o.price) & (e.maker == o.owner) & (e.lots == o.size.wrapping_sub(d.after[opp[x]])) & (e.lots != 0));
                check(302, op.accepts_eff(o.price, limit));
                check(303, last.map_or(true, |l| l < x));
                last = Some(x);
            }
        } }
        for (x, &i) in opp.iter().enumerate() {
            let diff = pre.o[i].size.wrapping_sub(d.after[i]);
            for &j in opp[..x].iter() { check(304, (diff == 0) | d.gone[j] | pre.o[j].expired(slot, ts) | (pre.o[j].owner == A)); }
            // a live order of another trader changes only by being filled
            check(305, (diff == 0) | (pre.o[i].owner == A) | pre.o[i].expired(slot, ts) | (d.cls[i] == Some(K::Fill)));
        }
        for &i in own.iter() { check(306, (d.after[i] == pre.o[i].size) | (full && i == own[cap - 1] && d.gone[i])); }
        identity(307, &pre, &post, &d);
        if kind == POST { check(310, d.mb == 0); }
        let (rq, rb) = if dep_only { if side == BID { (0, d.mb) } else { (gross_fee, 0) } } else { (0, 0) };
        attribution(311, &pre, &post, &d, fq, fb, rq, rb, placed, expect_reg);
        // what the taker gets and pays is the sum of the fills at the makers' prices
        if side == BID { check(316, (qi.wrapping_sub(d.fee) == d.mq) & (bo == if dep_only { 0 } else { d.mb })); } else { check(316, bi == d.mb); }
    }
    if on(4) {
        sorted(400, &post);
        check(402, d.newo.len() <= 1);
        check(403, rid.is_some() == placed.is_some());
        match (rid, placed) {
            (Some(id), Some(p)) => {
                check(404, id.order_sequence_number == if side == BID { !pre.seq } else { pre.seq });
                check(405, (p.seq == id.order_sequence_number) & (p.price == id.price_in_ticks.as_u64()) & (p.side == side) & (p.owner == A));
                check(406, post.seq == pre.seq + 1);
            }
            _ => check(407, post.seq == pre.seq),
        }
        identity(410, &pre, &post, &d);
    }
    if on(5) {
        if op.base != 0 { check(500, d.mb.wrapping_add(d.db) <= op.base); }
        if kind == IOCQ && side == BID { check(501, qi <= op.quote); }
        if kind == IOCQ && side == ASK { check(502, gross_fee <= op.quote); }
        check(503, (d.touched <= op.ml) | (kind == POST));
        if kind != POST { if let Some(i) = first_left { check(504, stop_ok(i) | incoming_expired); } }
        if kind >= IOCB {
            check(505, incoming_expired | ((d.mb >= op.minb) & (gross_fee >= op.minq)));
            check(506, d.newo.is_empty() & rid.is_none() & (post.reg[A] == pre.reg[A]));
            check(507, (op.base == 0) != (op.quote == 0));
        }
        for (i, o) in pre.o.iter().enumerate() { let _ = o; check(508, d.after[i] <= pre.o[i].size); }
    }
    if on(6) {
        let x = d.mq.wrapping_mul(pre.fee);
        check(600, d.fee == x.wrapping_add(9999) / 10000);
        if side == BID { check(602, qi == d.mq.wrapping_add(d.fee)); } else if !dep_only { check(602, qo == d.mq.wrapping_sub(d.fee)); }
        else { check(602, post.t[A].qf == pre.t[A].qf.wrapping_add(d.mq.wrapping_sub(d.fee)).wrapping_sub(fq)); }
        for e in d.evs.iter() { if e.k == K::Summary { check(603, e.fee == d.fee); } }
        check(604, (kind != POST) | (d.fee == 0));
        check(605, post.collected == pre.collected);
        for t in 1..NT { // makers receive the gross amount
            let mut q = pre.t[t].qf.wrapping_add(pre.t[t].ql); let mut b = pre.t[t].bf.wrapping_add(pre.t[t].bl);
            for (i, o) in pre.o.iter().enumerate() { if o.owner == t && d.cls[i] == Some(K::Fill) { let x = o.size.wrapping_sub(d.after[i]); let v = pre.val(o.price, x);
                if o.side == ASK { q = q.wrapping_add(v); b = b.wrapping_sub(x) } else { q = q.wrapping_sub(v); b = b.wrapping_add(x) } } }
            check(606, post.t[t].qf.wrapping_add(post.t[t].ql) == q); check(607, post.t[t].bf.wrapping_add(post.t[t].bl) == b);
        }
    }
    if on(7) && kind != POST {
        for e in d.evs.iter() { if e.k == K::Fill { check(700, e.maker != A); } }
        for &i in opp.iter() {
            let o = &pre.o[i]; if o.owner != A { continue; }
            let diff = o.size.wrapping_sub(d.after[i]);
            let exp = o.expired(slot, ts);
            check(701, (d.cls[i] != Some(K::Fill)) | (diff == 0));
            match op.stb {
                SelfTradeBehavior::Abort => { check(702, (diff == 0) | exp); }
                SelfTradeBehavior::CancelProvide => { check(703, (diff == 0) | d.gone[i]); }
                SelfTradeBehavior::DecrementTake => { check(704, (diff == 0) | d.gone[i] | stop_ok(i)); }
            }
            check(705, (diff == 0) | op.accepts_eff(o.price, limit));
        }
        if let Some(i) = first_left { if pre.o[i].owner == A { check(706, stop_ok(i) | incoming_expired); } }
        if op.base != 0 { check(707, d.mb.wrapping_add(d.db) <= op.base); }
        let x = d.mq.wrapping_mul(pre.fee); // own orders generate neither fee nor payment
        check(708, d.fee == x.wrapping_add(9999) / 10000);
        let (rq, rb) = if dep_only { if side == BID { (0, d.mb) } else { (gross_fee, 0) } } else { (0, 0) };
        attribution(710, &pre, &post, &d, fq, fb, rq, rb, placed, expect_reg);
        if side == BID { check(715, qi == gross_fee); } else { check(715, bi == d.mb); }
        if kind == LIMIT { if let Some(p) = placed { check(716, p.size == remaining); } }
    }
    if on(8) {
        for (i, o) in pre.o.iter().enumerate() {
            let diff = o.size.wrapping_sub(d.after[i]);
            let exp = o.expired(slot, ts);
            if d.cls[i] == Some(K::Fill) { check(800, !exp); }
            if d.cls[i] == Some(K::Expired) { check(801, exp & d.gone[i]); check(802, o.side != side); }
            if d.cls[i] == Some(K::Reduce) { check(803, !exp); }
            if o.side != side { check(804, !exp | (diff == 0) | (d.cls[i] == Some(K::Expired))); }
        }
        for e in d.evs.iter() { if e.k == K::Expired { for o in pre.o.iter() { if o.seq == e.seq { check(805, (e.maker == o.owner) & (e.lots == o.size) & (e.price == o.price)); } } } }
        if incoming_expired {
            check(806, d.evs.is_empty() & d.newo.is_empty() & rid.is_none()); cover(8);
            check(807, (qi == 0) & (bi == 0) & (qo == 0) & (bo == 0) & (qp == 0) & (bp == 0) & (fq == 0) & (fb == 0));
            for i in 0..pre.o.len() { check(808, d.after[i] == pre.o[i].size); }
            for t in 0..NT { let (x, y) = (&pre.t[t], &post.t[t]); check(809, (x.qf == y.qf) & (x.ql == y.ql) & (x.bf == y.bf) & (x.bl == y.bl)); }
            check(810, (post.unclaimed == pre.unclaimed) & (post.seq == pre.seq));
        } else {
            // a valid incoming order is processed: matching went on as far as it could, and remainders are posted
            if kind != POST { if let Some(i) = first_left { check(811, stop_ok(i)); } }
            if kind == POST { check(812, placed.is_some()); }
            check(813, (d.touched <= op.ml) | (kind == POST));
        }
        let (rq, rb) = if dep_only { if side == BID { (0, d.mb) } else { (gross_fee, 0) } } else { (0, 0) };
        attribution(820, &pre, &post, &d, fq, fb, rq, rb, placed, expect_reg);
        if let Some(p) = placed { check(826, (p.lvs == op.lvs.unwrap_or(0)) & (p.lvt == op.lvt.unwrap_or(0))); }
    }
    if on(9) {
        if kind == POST && !incoming_expired {
            check(900, (d.mb == 0) & (d.fee == 0) & (qi == 0) & (bi == 0) & (qo == 0) & (bo == 0));
            for e in d.evs.iter() { check(901, !matches!(e.k, K::Fill | K::Summary)); }
            check(902, placed.is_some());
            if let Some(p) = placed {
                check(903, !(op.reject & crosses_before));
                check(904, p.price == if crosses_before { if side == BID { live_price.wrapping_sub(1) } else { live_price.wrapping_add(1) } } else { limit });
                check(905, (p.size == op.base) & (p.owner == A) & (p.side == side));
            }
        }
        for x in post.o.iter() { if x.side == BID { for y in post.o.iter() { if y.side == ASK {
            check(906, (x.price < y.price) | x.expired(slot, ts) | y.expired(slot, ts));
        } } } }
        if kind == LIMIT && !incoming_expired {
            let mut cross = false;
            for y in post.o.iter() { if y.side != side { cross = cross | (!y.expired(slot, ts) & (if side == BID { limit >= y.price } else { limit <= y.price })); } }
            match placed {
                Some(p) => { check(907, (p.price == limit) & (p.size == remaining) & (p.owner == A) & (p.side == side)); check(908, !cross & (remaining != 0)); }
                None => check(909, cross | (remaining == 0)),
            }
        }
        if kind >= IOCB { check(910, placed.is_none()); }
        check(911, d.newo.len() <= 1);
    }
    if on(13) && post.reg[A] {
        let (inq, inb) = (qi.wrapping_add(qp), bi.wrapping_add(bp));
        let (avq, avb) = (pre.t[A].qf.wrapping_add(ev_own_q), pre.t[A].bf.wrapping_add(ev_own_b));
        if op.free {
            check(1300, (inq == fq) & (inb == fb)); check(1301, (qo == 0) & (bo == 0));
            check(1302, (fq <= avq) & (fb <= avb));
            // the proceeds stay in the free balance
            if side == BID { check(1303, (post.t[A].bf.wrapping_sub(pre.t[A].bf)).wrapping_sub(own_released(&pre, &d, side)) == d.mb); }
            else { check(1303, (post.t[A].qf.wrapping_sub(pre.t[A].qf)).wrapping_sub(own_released(&pre, &d, side)) == gross_fee); }
        } else if side == BID { check(1304, fq == inq.min(avq)); check(1305, fb == 0); } else { check(1304, fb == inb.min(avb)); check(1305, fq == 0); }
        // what was used was really taken from the free balance
        if side == BID { check(1306, post.t[A].qf == avq.wrapping_sub(fq)); } else { check(1306, post.t[A].bf == avb.wrapping_sub(fb)); }
    }
    if on(14) {
        order_events(1400, &pre, &post, &d);
        let places: Vec<usize> = (0..d.evs.len()).filter(|&i| d.evs[i].k == K::Place).collect();
        let tifs: Vec<usize> = (0..d.evs.len()).filter(|&i| d.evs[i].k == K::Tif).collect();
        let sums: Vec<usize> = (0..d.evs.len()).filter(|&i| d.evs[i].k == K::Summary).collect();
        check(1410, places.len() == d.newo.len());
        if let Some(p) = placed {
            if places.len() == 1 { let e = &d.evs[places[0]]; check(1411, (e.seq == p.seq) & (e.price == p.price) & (e.lots == p.size) & (e.cid == op.cid)); }
            check(1412, tifs.len() <= 1); check(1413, (tifs.len() == 1) == ((p.lvs != 0) | (p.lvt != 0)));
            if tifs.len() == 1 { let e = &d.evs[tifs[0]]; check(1414, (e.seq == p.seq) & (e.lvs == p.lvs) & (e.lvt == p.lvt)); check(1415, places.len() == 1 && places[0] < tifs[0]); }
        } else { check(1416, tifs.is_empty()); }
        let matched_kind = kind != POST && !incoming_expired;
        check(1417, sums.len() == matched_kind as usize);
        for &s in sums.iter() { let e = &d.evs[s]; check(1418, (e.lots == d.mb) & (e.q == gross_fee) & (e.fee == d.fee) & (e.cid == op.cid)); }
        for e in d.evs.iter() { check(1419, e.k != K::Fee); }
    }
    if on(21) {
        let evicts: Vec<&Ev> = d.evs.iter().filter(|e| e.k == K::Evict).collect();
        if full && placed.is_some() {
            let w = own[cap - 1]; let p = placed.unwrap();
            check(2100, d.gone[w] & (evicts.len() == 1)); cover(21);
            check(2101, if side == BID { p.price > worst } else { p.price < worst });
            for e in evicts.iter() { check(2102, (e.seq == pre.o[w].seq) & (e.maker == pre.o[w].owner) & (e.price == worst) & (e.lots == pre.o[w].size)); }
        } else { check(2103, evicts.is_empty()); }
        for &i in own.iter() { check(2104, (d.after[i] == pre.o[i].size) | (full && placed.is_some() && i == own[cap - 1])); }
        let (rq, rb) = if dep_only { if side == BID { (0, d.mb) } else { (gross_fee, 0) } } else { (0, 0) };
        attribution(2105, &pre, &post, &d, fq, fb, rq, rb, placed, expect_reg);
        if kind == POST && !incoming_expired { check(2111, placed.is_some()); }
        sorted(2112, &post);
    }
}
fn own_released(pre: &Pre, d: &D, side: usize) -> u64 {
    // funds of the actor's own opposite orders that were released (cancel-provide, decrement, expiry)
    let mut x = 0u64;
    for (i, o) in pre.o.iter().enumerate() { if o.owner == A && o.side != side { let diff = o.size.wrapping_sub(d.after[i]); x = x.wrapping_add(if o.side == BID { pre.val(o.price, diff) } else { diff }); } }
    x
}
fn limit_posted(op: &Op, limit: u64, crosses: bool, live: u64) -> u64 {
    if op.kind == POST && crosses { if op.side == BID { live.wrapping_sub(1) } else { live.wrapping_add(1) } } else { limit }
}
impl Op {
    pub fn accepts_eff(&self, p: u64, limit: u64) -> bool { !self.has_price | (if self.side == BID { p <= limit } else { p >= limit }) }
}
