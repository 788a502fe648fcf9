//! Creation of a market, with the accounts and the parameters symbolic.
use crate::admin::symkey;
use crate::model::*;
use crate::px::*;
use crate::world::*;
use borsh::BorshSerialize;
use phoenix::program::instruction::PhoenixInstruction as PI;
use phoenix::program::{InitializeParams, MarketHeader, MarketSizeParams, TokenParams};
use phoenix::quantities::*;
use phoenix::state::markets::*;
use solana_program::system_program;

pub const I_ACC: u64 = 1; // attributes of the accounts symbolic
pub const I_PAR: u64 = 2; // parameters symbolic (2^arg 1)
pub const I_SIZE: u64 = 4; // several sizes, data lengths
/// arguments: 0 options, 1 bits of the parameters, 2 panic tag
#[no_mangle]
pub extern "C" fn e_init() {
    let f = setup();
    let opt = arg(0);
    let acc = opt & I_ACC != 0;
    let pb = arg(1);
    let mut w = W::new(420_000);
    let (prog, sysp, tokp) = (phoenix::id(), system_program::id(), spl_token::id());
    let mut need: Vec<(u32, bool)> = vec![];
    let sk = |n: u32, k: &solana_program::pubkey::Pubkey, need: &mut Vec<(u32, bool)>| if acc { let x = symkey(); need.push((n, x == *k)); x } else { *k };
    let k = sk(1, &prog, &mut need); w.add(&k, &sysp, false, false, 1, 0);
    let k = sk(2, &phoenix::phoenix_log_authority::id(), &mut need); w.add(&k, &sysp, false, false, 1, 0);
    let mo = sk(3, &prog, &mut need);
    let ma = w.add(&market_key(), &mo, false, true, 5_000_000, HDR + std::mem::size_of::<BigMkt>());
    let signed = if acc { symbool() } else { true };
    need.push((0, signed));
    let creator = key(A);
    let lam = 1u64 << 40;
    let cr = w.add(&creator, &sysp, signed, true, lam, 0);
    // what an uninitialised account contains is zero; anything else must be refused where it marks a market
    let (disc, status, oseq) = if acc { (bits(64), bits(64), bits(64)) } else { (0, 0, 0) };
    w.w64(ma.data, disc); w.w64(ma.data + 8, status); w.w64(ma.data + HDR + OFF_SEQ, oseq);
    need.push((4, disc == 0)); need.push((5, status == 0)); need.push((6, oseq == 0));
    // mints
    let mut mint = |n: u32, k: &solana_program::pubkey::Pubkey, dec: u8, w: &mut W, need: &mut Vec<(u32, bool)>| {
        let o = sk(n, &tokp, need);
        let a = w.add(k, &o, false, false, 1, 82);
        let init = if acc { sym(0, 1) } else { 1 };
        need.push((n + 1, init == 1));
        w.slice(a.data + 44, 1)[0] = dec; w.slice(a.data + 45, 1)[0] = init as u8;
    };
    let decs = if opt & I_PAR != 0 { [(9u32, 6u32), (0, 0), (6, 9), (20, 6)][choose(4) as usize] } else { (9, 6) };
    mint(10, &base_mint(), decs.0 as u8, &mut w, &mut need);
    mint(12, &quote_mint(), decs.1 as u8, &mut w, &mut need);
    let mut vault = |n: u32, k: &solana_program::pubkey::Pubkey, w: &mut W, need: &mut Vec<(u32, bool)>| {
        let (vk, o) = (sk(n, k, need), sk(n + 1, &sysp, need));
        let len = if acc && flip() { 165 } else { 0 };
        need.push((n + 2, len == 0));
        let l = if acc && flip() { 10 } else { 0 };
        w.add(&vk, &o, false, true, l, len)
    };
    let vb = vault(14, &f.vb.0, &mut w, &mut need);
    let vq = vault(17, &f.vq.0, &mut w, &mut need);
    let k = sk(20, &sysp, &mut need); w.add(&k, &sysp, false, false, 1, 0);
    let k = sk(21, &tokp, &mut need); w.add(&k, &sysp, false, false, 1, 0);
    // parameters
    let par = |v: u64| if opt & I_PAR != 0 { bits(pb) } else { v };
    let (sb, sa, sn) = if opt & I_SIZE != 0 { [(512u64, 512u64, 128u64), (512, 512, 1025), (1024, 1024, 128), (511, 512, 128), (0, 0, 0), (512, 128, 512)][choose(6) as usize] } else { (512, 512, 128) };
    need.push((30, (sb == 512) & (sa == 512) & (sn == 128)));
    let (qlu, tick, blu) = (par(1000), par(300), par(100));
    let fee = bits(16);
    let raw = if opt & I_PAR != 0 { [None, Some(1u32), Some(1000), Some(0), Some(u32::MAX)][choose(5) as usize] } else { Some(1) };
    let fc = symkey();
    need.push((31, fee <= 10000));
    let p10 = |d: u32| 10u64.checked_pow(d);
    let ba = p10(decs.0).and_then(|v| v.checked_mul(raw.unwrap_or(1) as u64));
    let qa = p10(decs.1);
    let div = |a: u64, b: u64| if b == 0 { (1, 0) } else { (a % b, a / b) };
    let (mut bls, mut qls) = (0, 0);
    match (ba, qa) {
        (Some(ba), Some(qa)) => {
            need.push((32, (blu > 0) & (qlu > 0)));
            let (x, y) = (div(ba, blu), div(qa, qlu));
            need.push((33, x.0 == 0)); need.push((34, y.0 == 0));
            bls = x.1; qls = y.1;
            need.push((35, bls > 0)); need.push((36, qls > 0)); // lot sizes of zero tokens
            let z = div(tick, blu);
            need.push((37, z.0 == 0)); need.push((38, tick > 0));
        }
        _ => need.push((39, false)),
    }
    let ip = InitializeParams { market_size_params: MarketSizeParams { bids_size: sb, asks_size: sa, num_seats: sn }, num_quote_lots_per_quote_unit: qlu, tick_size_in_quote_lots_per_base_unit: tick, num_base_lots_per_base_unit: blu,
        taker_fee_bps: fee as u16, fee_collector: fc, raw_base_units_per_base_unit: raw };
    let mut data = vec![PI::InitializeMarket as u8];
    data.extend_from_slice(&ip.try_to_vec().unwrap());
    let extra = if opt & I_SIZE != 0 { choose(3) } else { 1 };
    if extra == 0 { data.pop(); } if extra == 2 { data.push(0); }
    need.push((40, extra == 1));
    let input = w.finish(&data);
    panic_mode(arg(2) as u32);
    let res = run(input);
    panic_mode(HARNESS);
    trace(res.is_ok() as u64);
    cover(250);
    let mut all = true;
    for (_, v) in need.iter() { all = all & *v; }
    if res.is_err() { cover(252); if on(20) { check(2071, !all); } return; }
    cover(251);
    for p in [16u32, 20] { if on(p) { for (i, v) in need.iter() { if p == 20 || *i <= 21 { check(p * 100 + *i, *v); } } } }
    if !on(20) || !all { return; }
    let r = rec();
    check(2041, r.xfers.is_empty() & (r.bad == 0));
    check(2042, r.inits.len() == 2 && r.inits[0] == (f.vb.0, base_mint(), f.vb.0) && r.inits[1] == (f.vq.0, quote_mint(), f.vq.0));
    for v in [vb, vq] { check(2043, (w.owner_of(v) == tokp) & (w.len_of(v) == 165)); }
    check(2044, w.lamports_of(ma) == 5_000_000 && w.owner_of(ma) == prog && w.len_of(ma) as usize == ma.len && w.lamports_of(cr) <= lam);
    let mut h = MarketHeader::new(
        MarketSizeParams { bids_size: sb, asks_size: sa, num_seats: sn },
        TokenParams { decimals: decs.0, vault_bump: f.vb.1 as u32, mint_key: base_mint(), vault_key: f.vb.0 }, BaseAtomsPerBaseLot::new(bls),
        TokenParams { decimals: decs.1, vault_bump: f.vq.1 as u32, mint_key: quote_mint(), vault_key: f.vq.0 }, QuoteAtomsPerQuoteLot::new(qls),
        QuoteAtomsPerBaseUnitPerTick::new(qls.wrapping_mul(tick)), creator, creator, fc, raw.unwrap_or(1));
    h.status = 2; h.market_sequence_number = 1; h.discriminant = f.disc_market;
    let hb = w.slice(ma.data, HDR).to_vec();
    let want = bytemuck::bytes_of(&h).to_vec();
    let mut i = 0; while i < 72 { check(2050, hb[i * 8..i * 8 + 8] == want[i * 8..i * 8 + 8]); i += 1; }
    let mp = unsafe { &*(w.buf.add(ma.data + HDR) as *const BigMkt) };
    let v = view(mp);
    check(2051, v.o.is_empty() & (v.unclaimed == 0) & (v.collected == 0) & !v.reg[0] & !v.reg[1] & !v.reg[2]);
    check(2052, mp.get_registered_traders().is_empty());
    check(2053, (mp.get_taker_fee_bps() == fee) & (mp.get_tick_size().as_u64() == tick) & (mp.get_base_lots_per_base_unit().as_u64() == blu) & (v.seq == 1));
    check(2054, (get(mp, OFF_SEQ) == 1) & r.logs.len().eq(&1));
}
