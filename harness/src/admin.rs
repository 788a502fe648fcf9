//! The instructions of the market authority and of seat holders, with every attribute of every account symbolic.
use crate::model::*;
use crate::prog::{pick, same_market};
use crate::px::*;
use crate::world::*;
use phoenix::program::instruction::PhoenixInstruction as PI;
use phoenix::verif_hooks as hk;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;

pub const AX: [PI; 7] = [PI::NameSuccessor, PI::ClaimAuthority, PI::ChangeMarketStatus, PI::RequestSeatAuthorized, PI::RequestSeat, PI::ChangeSeatStatus, PI::ChangeFeeRecipient];
pub fn symkey() -> Pubkey { let mut b = [0u8; 32]; for i in 0..4 { b[i * 8..i * 8 + 8].copy_from_slice(&bits(64).to_le_bytes()); } Pubkey::new_from_array(b) }
pub const Y_ACC: u64 = 1; // attributes of the accounts symbolic
pub const Y_FULL: u64 = 2; // no room for another trader
pub const Y_DATA: u64 = 4; // instruction data of any length up to the expected plus one

fn bump_rest(h: &phoenix::program::MarketHeader) -> Vec<u8> { bytemuck::bytes_of(h).to_vec() }
/// arguments: 0-8 market, 9 instruction set, 10 options, 11 panic tag
#[no_mangle]
pub extern "C" fn e_admin() {
    let f = setup();
    let c = cfg();
    let n = pick(arg(9), 7) as usize;
    let ix = AX[n];
    let opt = arg(10);
    let anyacc = opt & Y_ACC != 0;
    let mut w = W::new(400_000);
    let prog = phoenix::id();
    let sysp = system_program::id();
    let sk = |on: bool, k: &Pubkey| if on { symkey() } else { *k };
    // --- the fixed four accounts
    let prog_key = sk(anyacc, &prog);
    let la_key = sk(anyacc, &phoenix::phoenix_log_authority::id());
    w.add(&prog_key, &sysp, false, false, 1, 0);
    w.add(&la_key, &sysp, false, false, 1, 0);
    let m_owner = sk(anyacc, &prog);
    let ma = w.add(&market_key(), &m_owner, false, true, 5_000_000, HDR + std::mem::size_of::<BigMkt>());
    let trader = key(A);
    let signer = if ix == PI::RequestSeat { trader } else { key(2) };
    let signed = symbool();
    let lam0 = if matches!(ix, PI::RequestSeat) { bits(34) } else { 7_000 };
    let sa = w.add(&signer, &sysp, signed, true, lam0, 0);
    let mp = unsafe { &mut *(w.buf.add(ma.data + HDR) as *mut BigMkt) };
    let pre = build_in(mp, &c);
    if opt & Y_FULL != 0 { let mut i = 0u16; while hk::register_trader(mp, &Pubkey::new_from_array({ let mut b = [9u8; 32]; b[0] = i as u8; b[1] = (i >> 8) as u8; b })).is_some() { i += 1; if i > 1000 { break } } }
    let status = sym(0, 5);
    let seqn = bits(32);
    let mut h0 = header(&f, 3, 5, 10, status, seqn);
    h0.authority = symkey(); h0.successor = symkey(); h0.fee_recipient = symkey();
    if anyacc { h0.discriminant = bits(64); }
    w.slice(ma.data, HDR).copy_from_slice(bytemuck::bytes_of(&h0));
    let mut refm = zeroed::<BigMkt>();
    unsafe { std::ptr::copy_nonoverlapping(mp as *const BigMkt, &mut *refm as *mut BigMkt, 1); }
    rec().slot = 5; rec().ts = 6;
    // what has to hold for the instruction to succeed, one by one
    let mut need: Vec<(u32, bool)> = vec![
        (0, signed), (1, prog_key == prog), (2, la_key == phoenix::phoenix_log_authority::id()), (3, m_owner == prog), (4, h0.discriminant == f.disc_market)];
    let by_auth = !matches!(ix, PI::ClaimAuthority | PI::RequestSeat);
    if by_auth { need.push((5, signer == h0.authority)); }
    let mut h1 = h0; h1.market_sequence_number = seqn + 1;
    let mut data: Vec<u8> = vec![ix as u8];
    let extra = if opt & Y_DATA != 0 { choose(3) } else { 1 }; // 0: one byte short, 1: exact, 2: one byte more
    let mut tail = |v: &[u8], data: &mut Vec<u8>| { data.extend_from_slice(v); if extra == 0 { data.pop(); } if extra == 2 { data.push(bits(8) as u8); } };
    let mut seat = None;
    let (mut s_status, mut s_lam, mut s_len, mut new_status) = (0u64, 0u64, 0usize, 0u64);
    let mut s_owner = sysp;
    let mut s_trader = trader;
    let mut rcv = None;
    let mut payer_acc = None;
    let mut tomb = false;
    let mut p_lam = lam0;
    let mut kinds = 24u32; // the property the functional part belongs to
    match ix {
        PI::NameSuccessor => { h1.successor = symkey(); let b = h1.successor.to_bytes(); tail(&b, &mut data); need.push((10, extra == 1)); }
        PI::ClaimAuthority => { need.push((6, signer == h0.successor)); h1.authority = signer; }
        PI::ChangeMarketStatus => {
            kinds = 17;
            let to = sym(0, 255);
            tail(&[to as u8], &mut data);
            need.push((10, extra == 1)); need.push((11, to <= 5));
            const OKS: [(u64, u64); 16] = [(0, 2), (1, 2), (1, 3), (1, 1), (2, 1), (2, 3), (2, 4), (2, 2), (4, 5), (4, 3), (4, 4), (4, 2), (3, 1), (3, 2), (3, 4), (3, 3)];
            let mut allowed = false;
            for (a, b) in OKS { allowed = allowed | ((status == a) & (to == b)); }
            need.push((12, allowed));
            if flip() { rcv = Some(w.add(&payer(), &sysp, false, true, 900, 0)); }
            tomb = to == 5;
            let empty = pre.o.is_empty() & !pre.reg[0] & !pre.reg[1] & !pre.reg[2];
            need.push((13, !tomb | (empty & (pre.unclaimed == 0))));
            h1.status = to;
        }
        PI::RequestSeatAuthorized | PI::RequestSeat => {
            kinds = 23;
            if ix == PI::RequestSeat { need.push((14, (status == 1) | (status == 2))); }
            let mut lam = lam0;
            if ix == PI::RequestSeatAuthorized {
                let (p_signed, p_writable) = (symbool(), symbool()); lam = bits(34);
                let a = w.add(&payer(), &sysp, p_signed, p_writable, lam, 0);
                payer_acc = Some(a);
                p_lam = lam; need.push((15, p_signed)); need.push((16, p_writable));
                w.add(&trader, &sysp, false, false, 1, 0);
            }
            let s_key = sk(anyacc, &f.seats[A].0);
            s_owner = sk(anyacc, &sysp);
            s_lam = if flip() { 0 } else { bits(24) }; s_len = if anyacc && flip() { SEAT_LEN } else { 0 };
            let a = w.add(&s_key, &s_owner, false, true, s_lam, s_len);
            seat = Some(a);
            let sp = sk(anyacc, &sysp);
            w.add(&sp, &sysp, false, false, 1, 0);
            need.push((17, s_key == f.seats[A].0)); need.push((18, s_owner == sysp)); need.push((19, s_len == 0)); need.push((20, sp == sysp));
            let rent = solana_program::rent::Rent::default().minimum_balance(SEAT_LEN);
            need.push((21, lam >= rent.saturating_sub(s_lam)));
        }
        PI::ChangeSeatStatus => {
            kinds = 23;
            new_status = sym(0, 255);
            tail(&[new_status as u8], &mut data);
            s_trader = key(choose(2) as usize);
            let s_key = sk(anyacc, &f.seats[who(&s_trader)].0);
            s_owner = sk(anyacc, &prog);
            s_status = sym(0, 2);
            let s_disc = if anyacc { bits(64) } else { f.disc_seat };
            let s_market = sk(anyacc, &market_key());
            let a = w.add(&s_key, &s_owner, false, true, 1_000, SEAT_LEN);
            put_seat(&mut w, a, s_disc, &s_market, &s_trader, s_status);
            seat = Some(a);
            need.push((10, extra == 1)); need.push((11, new_status <= 2));
            need.push((17, s_key == f.seats[who(&s_trader)].0)); need.push((18, s_owner == prog)); need.push((22, s_disc == f.disc_seat)); need.push((23, s_market == market_key()));
            need.push((24, (s_status == new_status) | ((s_status == 0) & (new_status <= 2)) | ((s_status == 1) & (new_status <= 2))));
            let approves = (s_status == 0) & (new_status == 1);
            let room = pre.reg[who(&s_trader)] | (opt & Y_FULL == 0);
            need.push((25, !approves | room));
            if approves { hk::register_trader(&mut refm, &s_trader); }
        }
        _ => {
            kinds = 22;
            h1.fee_recipient = symkey();
            w.add(&h1.fee_recipient.clone(), &sysp, false, false, 1, 0);
            let mut ok = false;
            if flip() { let (k, s) = (symkey(), symbool()); w.add(&k, &sysp, s, false, 1, 0); ok = s & (k == h0.fee_recipient); }
            need.push((26, (pre.unclaimed == 0) | ok));
        }
    }
    let input = w.finish(&data);
    panic_mode(arg(11) as u32);
    let res = run(input);
    panic_mode(HARNESS);
    trace(res.is_ok() as u64);
    cover(200 + n as u32);
    let mut all = true;
    for (_, v) in need.iter() { all = all & *v; }
    if res.is_err() { for p in [kinds] { if on(p) { check(p * 100 + 71, !all); } } return; }
    cover(220 + n as u32);
    for &p in [16, 24, kinds].iter() { if on(p) { for (i, v) in need.iter() { check(p * 100 + *i, *v); } } }
    if !(on(kinds) || on(24) || on(18)) { return; }
    if !all { return; }
    let r = rec();
    let t = if on(kinds) { kinds * 100 } else if on(24) { 2400 } else { 1800 };
    check(t + 40, r.xfers.is_empty() & (r.bad == 0) & r.inits.is_empty());
    // --- the market account
    if tomb {
        cover(230);
        check(t + 41, (w.len_of(ma) == 0) & (w.lamports_of(ma) == 0) & (w.owner_of(ma) == sysp));
        match rcv { Some(a) => { check(t + 42, w.lamports_of(a) == 900 + 5_000_000); check(t + 43, w.lamports_of(sa) == lam0); } None => check(t + 42, w.lamports_of(sa) == lam0 + 5_000_000) }
        return;
    }
    check(t + 44, (w.lamports_of(ma) == 5_000_000) & (w.owner_of(ma) == prog) & (w.len_of(ma) as usize == ma.len));
    let hb = w.slice(ma.data, HDR).to_vec();
    check(t + 45, hb.as_slice() == bump_rest(&h1).as_slice());
    let post = view(mp); let refp = view(&refm);
    same_market(t + 60, &post, &refp);
    if let Some(a) = rcv { check(t + 42, w.lamports_of(a) == 900); }
    // --- the seat
    match ix {
        PI::RequestSeat | PI::RequestSeatAuthorized => {
            let a = seat.unwrap();
            cover(231 + (s_lam > 0) as u32);
            let d = w.slice(a.data, SEAT_LEN).to_vec();
            let mut want = vec![0u8; SEAT_LEN];
            want[0..8].copy_from_slice(&f.disc_seat.to_le_bytes()); want[8..40].copy_from_slice(market_key().as_ref()); want[40..72].copy_from_slice(trader.as_ref());
            check(t + 50, d == want);
            check(t + 51, (w.owner_of(a) == prog) & (w.len_of(a) as usize == SEAT_LEN));
            let rent = solana_program::rent::Rent::default().minimum_balance(SEAT_LEN);
            let pa = payer_acc.unwrap_or(sa);
            check(t + 52, w.lamports_of(a) == if s_lam > rent { s_lam } else { rent });
            check(t + 53, w.lamports_of(pa).wrapping_add(w.lamports_of(a)) == p_lam.wrapping_add(s_lam));
            if payer_acc.is_some() { check(t + 54, w.lamports_of(sa) == lam0); }
        }
        PI::ChangeSeatStatus => {
            let a = seat.unwrap();
            if (s_status == 0) & (new_status == 1) { cover(233); } else if s_status != new_status { cover(234); } else { cover(235); }
            let d = w.slice(a.data, SEAT_LEN).to_vec();
            let mut want = vec![0u8; SEAT_LEN];
            want[0..8].copy_from_slice(&f.disc_seat.to_le_bytes()); want[8..40].copy_from_slice(market_key().as_ref()); want[40..72].copy_from_slice(s_trader.as_ref()); want[72..80].copy_from_slice(&new_status.to_le_bytes());
            check(t + 50, d == want);
            check(t + 51, (w.owner_of(a) == prog) & (w.lamports_of(a) == 1_000));
        }
        _ => check(t + 54, w.lamports_of(sa) == lam0),
    }
}
