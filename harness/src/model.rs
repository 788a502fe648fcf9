//! Arbitrary valid market states, and the view of a market after an operation.
use crate::px::*;
use bytemuck::{bytes_of, bytes_of_mut};
use phoenix::quantities::*;
use phoenix::state::markets::*;
use phoenix::state::*;
use phoenix::verif_hooks as hk;
use sokoban::node_allocator::NodeAllocatorMap;
use solana_program::pubkey::Pubkey;

pub const NT: usize = 3;
/// Trader 0 is the one who acts, 1 and 2 are others.
pub const A: usize = 0;
pub const BID: usize = 0;
pub const ASK: usize = 1;
pub fn key(t: usize) -> Pubkey {
    // registration order and key order differ on purpose
    Pubkey::new_from_array([[0x55u8, 0x33, 0x77, 0x11][t]; 32])
}
pub fn side_of(s: usize) -> Side { if s == BID { Side::Bid } else { Side::Ask } }

#[derive(Clone, Copy)]
pub struct O { pub side: usize, pub price: u64, pub seq: u64, pub size: u64, pub owner: usize, pub lvs: u64, pub lvt: u64 }
impl O {
    pub fn id(&self) -> FIFOOrderId { FIFOOrderId::new(Ticks::new(self.price), self.seq) }
    pub fn expired(&self, slot: u64, ts: u64) -> bool {
        ((self.lvs != 0) & (self.lvs < slot)) | ((self.lvt != 0) & (self.lvt < ts))
    }
}
#[derive(Clone, Copy, Default)]
pub struct T { pub ql: u64, pub qf: u64, pub bl: u64, pub bf: u64 }

#[derive(Clone, Copy)]
pub struct Cfg {
    pub nb: u64, pub na: u64,
    /// 1: orders of the actor may be anywhere; 2: expiry fields symbolic; 4: owners restricted to others; 8: unregistered actor
    pub flags: u64,
    pub pbits: u64, pub sbits: u64, pub fbits: u64,
    pub bunit: u64, pub kbits: u64, pub fee: u64,
}
pub fn cfg() -> Cfg {
    Cfg { nb: arg(0), na: arg(1), flags: arg(2), pbits: arg(3), sbits: arg(4), fbits: arg(5), bunit: arg(6), kbits: arg(7), fee: arg(8) }
}
pub const F_OWN: u64 = 1;
pub const F_EXP: u64 = 2;
pub const F_UNREG: u64 = 8;
pub const F_PERM: u64 = 16;
pub const F_FEW: u64 = 64; // at most one trader registered (empty books)
pub const F_EXPALL: u64 = 32;

/// Everything the checks know about the state before the operation.
#[derive(Clone)]
pub struct Pre {
    pub o: Vec<O>, pub t: [T; NT], pub reg: [bool; NT],
    pub unclaimed: u64, pub collected: u64, pub seq: u64,
    /// quote lots per tick and base lot (tick size / base lots per unit)
    pub k: u64, pub bunit: u64, pub fee: u64,
    pub slot: u64, pub ts: u64,
}
impl Pre {
    pub fn val(&self, price: u64, lots: u64) -> u64 { self.k.wrapping_mul(price).wrapping_mul(lots) }
    pub fn side(&self, s: usize) -> Vec<usize> { (0..self.o.len()).filter(|&i| self.o[i].side == s).collect() }
}
pub type Mk<const B: usize, const AA: usize, const S: usize> = FIFOMarket<Pubkey, B, AA, S>;

pub const OFF_SEQ: usize = 256 + 16;
pub const OFF_COLLECTED: usize = 256 + 32;
pub const OFF_UNCLAIMED: usize = 256 + 40;
pub fn put<M: bytemuck::Pod>(m: &mut M, off: usize, v: u64) { bytes_of_mut(m)[off..off + 8].copy_from_slice(&v.to_le_bytes()); }
pub fn get<M: bytemuck::Pod>(m: &M, off: usize) -> u64 { let mut b = [0u8; 8]; b.copy_from_slice(&bytes_of(m)[off..off + 8]); u64::from_le_bytes(b) }

/// Builds an arbitrary state satisfying the invariants that the properties establish:
/// books sorted by identifier, sizes and prices nonzero, locked funds equal to what the orders need.
#[inline(never)]
pub fn build<const B: usize, const AA: usize, const S: usize>(c: &Cfg) -> (Box<Mk<B, AA, S>>, Pre) {
    let mut m = zeroed::<Mk<B, AA, S>>();
    let pre = build_in(&mut m, c);
    (m, pre)
}
pub fn zeroed<M>() -> Box<M> { unsafe { Box::from_raw(std::alloc::alloc_zeroed(std::alloc::Layout::new::<M>()) as *mut M) } }
#[inline(never)]
pub fn build_in<const B: usize, const AA: usize, const S: usize>(m: &mut Mk<B, AA, S>, c: &Cfg) -> Pre {
    let k = if c.kbits == 0 { 1 } else { sym(1, (1 << c.kbits) - 1) };
    let fee = match c.fee { 99999 => sym(0, 10000), 88888 => [0u64, 1, 5, 10000][choose(4) as usize], f => f };
    hk::initialize(m, k * c.bunit, c.bunit, fee);
    let mut reg = [true; NT];
    if c.flags & F_UNREG != 0 { reg[A] = !flip(); }
    if c.flags & F_FEW != 0 { let r = choose(3); reg = [r == 1, r == 2, false]; }
    for t in [1usize, 0, 2] { if reg[t] { hk::register_trader(m, &key(t)); } }
    let n = (c.nb + c.na) as usize;
    let mut o: Vec<O> = Vec::with_capacity(n + 2);
    let mut used = 0usize; // makers already used (symmetry of the two other traders)
    for (side, cnt) in [(BID, c.nb as usize), (ASK, c.na as usize)] {
        // ages of the orders, best ranked first
        let perm: &[u64] = match cnt { 0 => &[], 1 => &[0], 2 => if c.flags & F_PERM != 0 && flip() { &[1, 0] } else { &[0, 1] },
            3 => if c.flags & F_PERM != 0 { [&[0u64, 1, 2], &[1, 0, 2], &[2, 1, 0], &[0, 2, 1], &[1, 2, 0], &[2, 0, 1]][choose(6) as usize] } else { &[0, 1, 2] },
            _ => &[0, 1, 2, 3, 4, 5, 6, 7] };
        for j in 0..cnt {
            let age = 10 + 2 * perm[j] + side as u64;
            let seq = if side == BID { !age } else { age };
            let price = sym(1, (1u64 << c.pbits) - 1);
            if j > 0 {
                let p = o[o.len() - 1];
                let page = 10 + 2 * perm[j - 1] + side as u64;
                let tie = page < age; // an equal price is possible only if the better ranked one is older
                if side == BID { assume(if tie { price <= p.price } else { price < p.price }) } else { assume(if tie { price >= p.price } else { price > p.price }) }
            }
            let size = sym(1, (1u64 << c.sbits) - 1);
            let owner = if c.flags & F_OWN != 0 && reg[A] {
                let w = choose(if used == 0 { 2 } else { 3 }) as usize; if w > 0 { used = used.max(w) } ; w
            } else { let w = 1 + (if used == 0 { 0 } else { choose(2) as usize }); used = used.max(w); w };
            let (lvs, lvt) = if c.flags & F_EXP != 0 {
                match choose(if c.flags & F_EXPALL != 0 { 4 } else { 2 }) { 0 => (0, 0), 1 => (bits(20), bits(20)), 2 => (bits(20), 0), _ => (0, bits(20)) }
            } else { (0, 0) };
            o.push(O { side, price, seq, size, owner, lvs, lvt });
        }
    }
    let mut t = [T::default(); NT];
    for x in o.iter() { if x.side == BID { t[x.owner].ql += k.wrapping_mul(x.price).wrapping_mul(x.size) } else { t[x.owner].bl += x.size } }
    for i in 0..NT { if reg[i] { t[i].qf = bits(c.fbits); t[i].bf = bits(c.fbits); } }
    // insert in an order that is not the rank order
    for x in o.iter().rev() {
        let r = FIFORestingOrder { trader_index: m.traders.get_addr(&key(x.owner)) as u64, num_base_lots: BaseLots::new(x.size), last_valid_slot: x.lvs, last_valid_unix_timestamp_in_seconds: x.lvt };
        if x.side == BID { m.bids.insert(x.id(), r); } else { m.asks.insert(x.id(), r); }
    }
    for i in 0..NT { if reg[i] {
        let s = m.traders.get_mut(&key(i)).unwrap();
        s.quote_lots_locked = QuoteLots::new(t[i].ql); s.quote_lots_free = QuoteLots::new(t[i].qf);
        s.base_lots_locked = BaseLots::new(t[i].bl); s.base_lots_free = BaseLots::new(t[i].bf);
    } }
    let (unclaimed, collected, seq) = (bits(c.fbits), bits(c.fbits), 100);
    put(m, OFF_SEQ, seq); put(m, OFF_COLLECTED, collected); put(m, OFF_UNCLAIMED, unclaimed);
    let (slot, ts) = if c.flags & F_EXP != 0 { (bits(20), bits(20)) } else { (7, 7) };
    Pre { o, t, reg, unclaimed, collected, seq, k, bunit: c.bunit, fee, slot, ts }
}

/// State after the operation, read through the public interface of the market.
pub struct Post { pub o: Vec<O>, pub t: [T; NT], pub reg: [bool; NT], pub unclaimed: u64, pub collected: u64, pub seq: u64, pub foreign: bool }
#[inline(never)]
pub fn view<const B: usize, const AA: usize, const S: usize>(m: &Mk<B, AA, S>) -> Post {
    let mut t = [T::default(); NT];
    let mut reg = [false; NT];
    let mut addr = [0u64; NT];
    for i in 0..NT {
        let a = m.traders.get_addr(&key(i));
        if a != 0 { reg[i] = true; addr[i] = a as u64; let s = m.traders.get(&key(i)).unwrap();
            t[i] = T { ql: s.quote_lots_locked.as_u64(), qf: s.quote_lots_free.as_u64(), bl: s.base_lots_locked.as_u64(), bf: s.base_lots_free.as_u64() }; }
    }
    let mut o = Vec::with_capacity(8);
    let mut foreign = false;
    for side in [BID, ASK] {
        let it = if side == BID { m.bids.iter() } else { m.asks.iter() };
        for (id, r) in it {
            let mut owner = 99; for i in 0..NT { if reg[i] && addr[i] == r.trader_index { owner = i; } }
            if owner == 99 { foreign = true; owner = 0; }
            o.push(O { side, price: id.price_in_ticks.as_u64(), seq: id.order_sequence_number, size: r.num_base_lots.as_u64(), owner, lvs: r.last_valid_slot, lvt: r.last_valid_unix_timestamp_in_seconds });
        }
    }
    Post { o, t, reg, unclaimed: m.get_uncollected_fee_amount().as_u64(), collected: m.get_collected_fee_amount().as_u64(), seq: m.get_sequence_number(), foreign }
}

#[derive(Clone, Copy, PartialEq)]
pub enum K { Fill, Place, Reduce, Evict, Summary, Fee, Tif, Expired }
/// A market event in uniform shape.
#[derive(Clone, Copy)]
pub struct Ev { pub k: K, pub maker: usize, pub seq: u64, pub price: u64, pub lots: u64, pub rem: u64, pub cid: u128, pub q: u64, pub fee: u64, pub lvs: u64, pub lvt: u64 }
pub fn who(k: &Pubkey) -> usize { for i in 0..NT { if *k == key(i) { return i; } } 99 }
pub fn ev(e: &MarketEvent<Pubkey>) -> Ev {
    let z = Ev { k: K::Fee, maker: 98, seq: 0, price: 0, lots: 0, rem: 0, cid: 0, q: 0, fee: 0, lvs: 0, lvt: 0 };
    match *e {
        MarketEvent::Fill { maker_id, order_sequence_number, price_in_ticks, base_lots_filled, base_lots_remaining } =>
            Ev { k: K::Fill, maker: who(&maker_id), seq: order_sequence_number, price: price_in_ticks.as_u64(), lots: base_lots_filled.as_u64(), rem: base_lots_remaining.as_u64(), ..z },
        MarketEvent::Place { order_sequence_number, client_order_id, price_in_ticks, base_lots_placed } =>
            Ev { k: K::Place, seq: order_sequence_number, price: price_in_ticks.as_u64(), lots: base_lots_placed.as_u64(), cid: client_order_id, ..z },
        MarketEvent::Reduce { order_sequence_number, price_in_ticks, base_lots_removed, base_lots_remaining } =>
            Ev { k: K::Reduce, seq: order_sequence_number, price: price_in_ticks.as_u64(), lots: base_lots_removed.as_u64(), rem: base_lots_remaining.as_u64(), ..z },
        MarketEvent::Evict { maker_id, order_sequence_number, price_in_ticks, base_lots_evicted } =>
            Ev { k: K::Evict, maker: who(&maker_id), seq: order_sequence_number, price: price_in_ticks.as_u64(), lots: base_lots_evicted.as_u64(), ..z },
        MarketEvent::FillSummary { client_order_id, total_base_lots_filled, total_quote_lots_filled, total_fee_in_quote_lots } =>
            Ev { k: K::Summary, cid: client_order_id, lots: total_base_lots_filled.as_u64(), q: total_quote_lots_filled.as_u64(), fee: total_fee_in_quote_lots.as_u64(), ..z },
        MarketEvent::Fee { fees_collected_in_quote_lots } => Ev { k: K::Fee, q: fees_collected_in_quote_lots.as_u64(), ..z },
        MarketEvent::TimeInForce { order_sequence_number, last_valid_slot, last_valid_unix_timestamp_in_seconds } =>
            Ev { k: K::Tif, seq: order_sequence_number, lvs: last_valid_slot, lvt: last_valid_unix_timestamp_in_seconds, ..z },
        MarketEvent::ExpiredOrder { maker_id, order_sequence_number, price_in_ticks, base_lots_removed } =>
            Ev { k: K::Expired, maker: who(&maker_id), seq: order_sequence_number, price: price_in_ticks.as_u64(), lots: base_lots_removed.as_u64(), ..z },
    }
}
pub type Rsp = MatchingEngineResponse;
