//! Order packets against an independent description of their encoding.
use crate::model::side_of;
use crate::place::*;
use crate::px::*;
use borsh::BorshSerialize;
use phoenix::quantities::*;
use phoenix::state::*;

struct Rd<'a> { b: &'a [u8], zeros: usize, p: usize }
impl<'a> Rd<'a> {
    /// next byte of the string followed by `zeros` zero bytes
    fn u8(&mut self) -> Option<u8> { let p = self.p; self.p += 1; if p < self.b.len() { Some(self.b[p]) } else if p < self.b.len() + self.zeros { Some(0) } else { None } }
    fn u64(&mut self) -> Option<u64> { let mut v = 0u64; for i in 0..8 { v |= (self.u8()? as u64) << (8 * i); } Some(v) }
    fn u128(&mut self) -> Option<u128> { let lo = self.u64()?; let hi = self.u64()?; Some(lo as u128 | (hi as u128) << 64) }
    fn flag(&mut self) -> Option<bool> { let v = self.u8()?; if v == 0 { Some(false) } else if v == 1 { Some(true) } else { None } }
    fn opt(&mut self) -> Option<Option<u64>> { if self.flag()? { Some(Some(self.u64()?)) } else { Some(None) } }
    fn stb(&mut self) -> Option<SelfTradeBehavior> { let v = self.u8()?; if v == 0 { Some(SelfTradeBehavior::Abort) } else if v == 1 { Some(SelfTradeBehavior::CancelProvide) } else if v == 2 { Some(SelfTradeBehavior::DecrementTake) } else { None } }
    fn packet(&mut self) -> Option<Op> {
        let t = self.u8()?;
        if t > 2 { return None; }
        let side = self.flag()? as usize;
        let mut o = Op { side, kind: POST, has_price: true, price: 0, base: 0, quote: 0, minb: 0, minq: 0, stb: SelfTradeBehavior::Abort, has_ml: false, ml: 0, cid: 0, reject: false, free: false, lvs: None, lvt: None, silent: false };
        if t == 2 {
            o.kind = IOCB;
            match self.opt()? { Some(p) => o.price = p, None => o.has_price = false }
            o.base = self.u64()?; o.quote = self.u64()?; o.minb = self.u64()?; o.minq = self.u64()?;
        } else { o.kind = t as u64; o.price = self.u64()?; o.base = self.u64()?; }
        if t != 0 { o.stb = self.stb()?; match self.opt()? { Some(m) => { o.has_ml = true; o.ml = m } None => {} } }
        o.cid = self.u128()?;
        if t == 0 { o.reject = self.flag()?; }
        o.free = self.flag()?; o.lvs = self.opt()?; o.lvt = self.opt()?;
        if t != 2 { o.silent = self.flag()?; }
        if self.p == self.b.len() + self.zeros { Some(o) } else { None }
    }
}
fn enc(o: &Op) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(128);
    let opt = |v: &mut Vec<u8>, x: Option<u64>| match x { None => v.push(0), Some(y) => { v.push(1); v.extend_from_slice(&y.to_le_bytes()) } };
    let ioc = o.kind >= IOCB;
    v.push(if ioc { 2 } else { o.kind as u8 }); v.push(o.side as u8);
    if ioc {
        opt(&mut v, if o.has_price { Some(o.price) } else { None });
        for x in [o.base, o.quote, o.minb, o.minq] { v.extend_from_slice(&x.to_le_bytes()); }
    } else { v.extend_from_slice(&o.price.to_le_bytes()); v.extend_from_slice(&o.base.to_le_bytes()); }
    if o.kind != POST {
        v.push(match o.stb { SelfTradeBehavior::Abort => 0, SelfTradeBehavior::CancelProvide => 1, SelfTradeBehavior::DecrementTake => 2 });
        opt(&mut v, if o.has_ml { Some(o.ml) } else { None });
    }
    v.extend_from_slice(&o.cid.to_le_bytes());
    if o.kind == POST { v.push(o.reject as u8); }
    v.push(o.free as u8); opt(&mut v, o.lvs); opt(&mut v, o.lvt);
    if !ioc { v.push(o.silent as u8); }
    v
}
fn same_opt(a: Option<u64>, b: Option<u64>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x == y, _ => false } }
/// field by field, without relying on the packet's own comparison
fn same(p: &OrderPacket, o: &Op) -> bool {
    let ml = if o.has_ml { Some(o.ml) } else { None };
    match *p {
        OrderPacket::PostOnly { side, price_in_ticks, num_base_lots, client_order_id, reject_post_only, use_only_deposited_funds, last_valid_slot, last_valid_unix_timestamp_in_seconds, fail_silently_on_insufficient_funds } =>
            o.kind == POST && side == side_of(o.side) && (price_in_ticks.as_u64() == o.price) & (num_base_lots.as_u64() == o.base) & (client_order_id == o.cid) & (reject_post_only == o.reject) & (use_only_deposited_funds == o.free)
                & same_opt(last_valid_slot, o.lvs) & same_opt(last_valid_unix_timestamp_in_seconds, o.lvt) & (fail_silently_on_insufficient_funds == o.silent),
        OrderPacket::Limit { side, price_in_ticks, num_base_lots, self_trade_behavior, match_limit, client_order_id, use_only_deposited_funds, last_valid_slot, last_valid_unix_timestamp_in_seconds, fail_silently_on_insufficient_funds } =>
            o.kind == LIMIT && side == side_of(o.side) && self_trade_behavior == o.stb && same_opt(match_limit, ml) & (price_in_ticks.as_u64() == o.price) & (num_base_lots.as_u64() == o.base) & (client_order_id == o.cid) & (use_only_deposited_funds == o.free)
                & same_opt(last_valid_slot, o.lvs) & same_opt(last_valid_unix_timestamp_in_seconds, o.lvt) & (fail_silently_on_insufficient_funds == o.silent),
        OrderPacket::ImmediateOrCancel { side, price_in_ticks, num_base_lots, num_quote_lots, min_base_lots_to_fill, min_quote_lots_to_fill, self_trade_behavior, match_limit, client_order_id, use_only_deposited_funds, last_valid_slot, last_valid_unix_timestamp_in_seconds } =>
            o.kind >= IOCB && side == side_of(o.side) && self_trade_behavior == o.stb && same_opt(match_limit, ml) & same_opt(price_in_ticks.map(|x| x.as_u64()), if o.has_price { Some(o.price) } else { None })
                & (num_base_lots.as_u64() == o.base) & (num_quote_lots.as_u64() == o.quote) & (min_base_lots_to_fill.as_u64() == o.minb) & (min_quote_lots_to_fill.as_u64() == o.minq) & (client_order_id == o.cid)
                & (use_only_deposited_funds == o.free) & same_opt(last_valid_slot, o.lvs) & same_opt(last_valid_unix_timestamp_in_seconds, o.lvt),
    }
}
fn outcome(tag: u32, got: &Option<OrderPacket>, want: &Option<Op>) {
    match (got, want) { (None, None) => {} (Some(p), Some(o)) => check(tag + 1, same(p, o)), _ => check(tag, false) }
    check(tag, got.is_some() == want.is_some());
}
/// arguments: 0 mode (0 every packet, 1 every byte string), 1 and 2 shortest and longest string, 3 panic tag
#[no_mangle]
pub extern "C" fn e_codec() {
    if arg(0) == 0 {
        let kind = choose(3);
        let o64 = || if flip() { Some(bits(64)) } else { None };
        let (ioc, pr) = (kind == IOCB, o64());
        let has_price = !ioc || pr.is_some();
        let price = if ioc { pr.unwrap_or(0) } else { bits(64) };
        let ml = if kind != POST { o64() } else { None };
        let w = |on: bool| if on { bits(64) } else { 0 };
        let o = Op { side: choose(2) as usize, kind, has_price, price, base: bits(64), quote: w(ioc), minb: w(ioc), minq: w(ioc),
            stb: if kind == POST { SelfTradeBehavior::Abort } else { [SelfTradeBehavior::Abort, SelfTradeBehavior::CancelProvide, SelfTradeBehavior::DecrementTake][choose(3) as usize] },
            has_ml: ml.is_some(), ml: ml.unwrap_or(0), cid: bits(64) as u128 | (bits(64) as u128) << 64, reject: kind == POST && symbool(), free: symbool(), lvs: o64(), lvt: o64(), silent: !ioc && symbool() };
        let want = enc(&o);
        panic_mode(arg(3) as u32);
        let got = o.packet().try_to_vec().unwrap();
        let back = decode_order_packet(&got);
        panic_mode(HARNESS);
        cover(300 + kind as u32);
        trace(got.len() as u64);
        check(1900, got == want);
        check(1901, back.is_some());
        if let Some(p) = back { check(1902, same(&p, &o)); }
        // the metadata derived from a packet
        let p = o.packet();
        check(1903, (p.is_ioc() == ioc) & (p.is_post_only() == (kind == POST)) & (p.no_deposit_or_withdrawal() == o.free));
        // earlier formats: trailing fields missing
        let tail = if ioc { [1usize, 2, 0] } else { [1, 2, 3] };
        for n in tail { if n > 0 {
            let short = &want[..want.len() - n];
            let (s, t, f) = if ioc { (n < 2 || o.lvs.is_none(), o.lvt.is_none(), true) } else { (n < 3 || o.lvs.is_none(), n < 2 || o.lvt.is_none(), !o.silent) };
            if s && t && f {
                cover(303 + n as u32);
                panic_mode(arg(3) as u32);
                let back = decode_order_packet(short);
                panic_mode(HARNESS);
                check(1904, back.is_some());
                if let Some(p) = back { check(1905, same(&p, &o)); }
            }
        } }
        return;
    }
    let (lo, hi) = (arg(1), arg(2));
    let len = (lo + choose(hi - lo + 1)) as usize;
    let b: Vec<u8> = (0..len).map(|_| bits(8) as u8).collect();
    panic_mode(arg(3) as u32);
    let got = decode_order_packet(&b);
    panic_mode(HARNESS);
    trace(got.is_some() as u64);
    let mut want = None;
    for z in 0..4 { let mut r = Rd { b: &b, zeros: z, p: 0 }; if let Some(o) = r.packet() { check(9901, want.is_none()); want = Some(o); } }
    if want.is_some() { cover(310) } else { cover(311) }
    outcome(1910, &got, &want);
}
