//! Instructions with so many events that the log needs several messages.
use crate::model::*;
use crate::place::*;
use crate::prog::pick;
use crate::px::*;
use crate::world::*;
use borsh::BorshSerialize;
use phoenix::program::instruction::PhoenixInstruction as PI;
use phoenix::quantities::*;
use phoenix::state::markets::*;
use phoenix::state::*;
use phoenix::verif_hooks as hk;
use sokoban::node_allocator::NodeAllocatorMap;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;

/// arguments: 0 scenario set (1 cancel all, 2 take, 4 post evicting nothing after taking), 1 fewest orders, 2 most orders, 3 panic tag, 4 number of patterns
#[no_mangle]
pub extern "C" fn e_log() {
    let f = setup();
    let sc = pick(arg(0), 3);
    let n = (arg(1) + choose(arg(2) - arg(1) + 1)) as usize;
    let pat = choose(arg(4)) as usize;
    let mut w = W::new(400_000);
    let (prog, sysp) = (phoenix::id(), system_program::id());
    w.add(&prog, &sysp, false, false, 1, 0);
    w.add(&phoenix::phoenix_log_authority::id(), &sysp, false, false, 1, 0);
    let ma = w.add(&market_key(), &prog, false, true, 5_000_000, HDR + std::mem::size_of::<BigMkt>());
    let k = key(A);
    w.add(&k, &sysp, true, true, 1_000_000_000, 0);
    let m = unsafe { &mut *(w.buf.add(ma.data + HDR) as *mut BigMkt) };
    hk::initialize(m, 1, 1, 5);
    for t in [1usize, 0, 2] { hk::register_trader(m, &key(t)); }
    let mut t = [T::default(); NT];
    let mut total = 0u64;
    for i in 0..n {
        // class of the order: 0 another's, 1 own, 2 another's and expired
        let cls = if sc == 0 { 1 } else { match pat { 0 => 0, 1 => 2, 2 => 1, 3 => (i * 7 + i / 3) % 3, 4 => [0, 0, 2, 0, 1][i % 5], _ => [2, 0, 0][(i / 4) % 3] } };
        let owner = if cls == 1 { A } else { 1 + i % 2 };
        let size = if sc == 0 && i == n / 2 { sym(1, 1 << 20) } else { 1 + (i as u64 * 5) % 7 };
        let seq = 10 + i as u64;
        let price = 100 + (i as u64 / 2);
        let r = FIFORestingOrder { trader_index: m.traders.get_addr(&key(owner)) as u64, num_base_lots: BaseLots::new(size), last_valid_slot: if cls == 2 { 3 } else { 0 }, last_valid_unix_timestamp_in_seconds: 0 };
        m.asks.insert(FIFOOrderId::new(Ticks::new(price), seq), r);
        t[owner].bl += size;
        if cls == 0 { total += size; }
    }
    for i in 0..NT { t[i].qf = 1 << 40; t[i].bf = bits(30); let s = m.traders.get_mut(&key(i)).unwrap(); s.quote_lots_free = QuoteLots::new(t[i].qf); s.base_lots_free = BaseLots::new(t[i].bf); s.base_lots_locked = BaseLots::new(t[i].bl); }
    put(m, OFF_SEQ, 1000);
    let seqn = bits(32);
    let h0 = header(&f, 3, 5, 10, 1, seqn);
    w.slice(ma.data, HDR).copy_from_slice(bytemuck::bytes_of(&h0));
    rec().slot = 9 + bits(20); rec().ts = bits(40) as i64;
    let (slot, ts) = (rec().slot, rec().ts as u64);
    let mut refm = zeroed::<BigMkt>();
    unsafe { std::ptr::copy_nonoverlapping(m as *const BigMkt, &mut *refm as *mut BigMkt, 1); }
    let mut evs: Vec<MarketEvent<Pubkey>> = Vec::with_capacity(256);
    let mut ids: Vec<FIFOOrderId> = vec![];
    let ix = if sc == 0 { PI::CancelAllOrdersWithFreeFunds } else if sc == 1 { PI::SwapWithFreeFunds } else { PI::PlaceLimitOrderWithFreeFunds };
    let mut data = vec![ix as u8];
    if sc == 0 { hk::cancel_all(&mut refm, &k, false, &mut |e| evs.push(e)); }
    else {
        let a = w.add(&f.seats[A].0, &prog, false, true, 1, SEAT_LEN);
        put_seat(&mut w, a, f.disc_seat, &market_key(), &k, 1);
        let kind = if sc == 1 { IOCB } else { LIMIT };
        let op = Op { side: BID, kind, has_price: true, price: 100_000, base: total + if sc == 2 { sym(1, 1 << 20) } else { 0 }, quote: 0, minb: 0, minq: 0, stb: SelfTradeBehavior::CancelProvide, has_ml: false, ml: 0,
            cid: (bits(64) as u128) << 64 | bits(64) as u128, reject: false, free: true, lvs: if sc == 2 && flip() { Some(slot) } else { None }, lvt: None, silent: false };
        if op.base == 0 { return; }
        data.extend_from_slice(&op.packet().try_to_vec().unwrap());
        match hk::place_order(&mut refm, &k, op.packet(), &mut |e| evs.push(e), &mut || (slot, ts)) { None => return, Some((i, _)) => if let Some(i) = i { ids.push(i) } }
    }
    let input = w.finish(&data);
    panic_mode(arg(3) as u32);
    let res = run(input);
    panic_mode(HARNESS);
    check(1590, res.is_ok());
    if res.is_err() { return; }
    let got = check_logs(1500, ix as u8, seqn, &k);
    trace(rec().logs.len() as u64); trace(got.len() as u64);
    check(1540, got.len() == evs.len());
    if got.len() == evs.len() { for (x, y) in got.iter().zip(evs.iter()) { check(1541, crate::prog::same_ev(x, &ev(y))); } }
    let mut ret: Vec<u8> = vec![]; if !ids.is_empty() { ret = ids.try_to_vec().unwrap(); }
    check(1542, rec().ret == ret);
    let mut h1 = h0; h1.market_sequence_number = seqn + 1;
    let hb = w.slice(ma.data, HDR).to_vec();
    check(1592, hb.as_slice() == bytemuck::bytes_of(&h1));
    cover(330 + rec().logs.len().min(5) as u32);
}
