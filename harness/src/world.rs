//! Accounts, runtime stand-ins (token program, system program, log instruction, sysvars) and
//! the call of the real `process_instruction` on a serialized input as the loader would pass it.
use crate::model::*;
use crate::px::*;
use phoenix::program::instruction::PhoenixInstruction as PI;
use phoenix::program::{MarketHeader, MarketSizeParams, Seat, TokenParams};
use phoenix::quantities::*;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::Instruction;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::{program_stubs::*, system_program};

pub fn k32(b: u8) -> Pubkey { Pubkey::new_from_array([b; 32]) }
pub fn market_key() -> Pubkey { k32(0xa1) }
pub fn base_mint() -> Pubkey { k32(0xb2) }
pub fn quote_mint() -> Pubkey { k32(0xc3) }
pub fn authority() -> Pubkey { k32(0xd4) }
pub fn successor() -> Pubkey { k32(0xe5) }
pub fn fee_recipient() -> Pubkey { k32(0xf6) }
pub fn payer() -> Pubkey { k32(0x17) }
pub fn acct(owner: usize, quote: bool) -> Pubkey { k32(0x40 + owner as u8 * 2 + quote as u8) }
pub const BIG: usize = 512;
pub const SEATS: usize = 128;
pub type BigMkt = Mk<BIG, BIG, SEATS>;
pub const HDR: usize = 576;

#[derive(Clone, Copy)]
pub struct Xfer { pub from: Pubkey, pub to: Pubkey, pub auth: Pubkey, pub amount: u64, pub signed: bool }
#[derive(Clone)]
pub struct Made { pub key: Pubkey, pub from: Pubkey, pub lamports: u64, pub space: u64, pub owner: Pubkey, pub signed: bool }
pub struct LogMsg { pub data: Vec<u8>, pub ok: bool }
pub struct Known { pub seeds: Vec<u8>, pub key: Pubkey }
#[derive(Default)]
pub struct Rec {
    pub xfers: Vec<Xfer>, pub logs: Vec<LogMsg>, pub made: Vec<Made>, pub inits: Vec<(Pubkey, Pubkey, Pubkey)>, pub bad: u64,
    pub slot: u64, pub ts: i64, pub pdas: Vec<Known>, pub ret: Vec<u8>,
}
pub static mut REC: Option<Rec> = None;
#[allow(static_mut_refs)]
pub fn rec() -> &'static mut Rec { unsafe { REC.as_mut().unwrap() } }

/// has `key` signed: as an account of this call that signed the transaction, or through the given seeds
fn has_signed(key: &Pubkey, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> bool {
    for i in infos { if i.key == key { if i.is_signer { return true; } } }
    for s in seeds {
        let mut cat: Vec<u8> = vec![]; for x in s.iter() { cat.extend_from_slice(x); }
        for p in rec().pdas.iter() { if p.seeds == cat && p.key == *key { return true; } }
    }
    false
}
fn u64at(d: &[u8], o: usize) -> u64 { let mut b = [0u8; 8]; b.copy_from_slice(&d[o..o + 8]); u64::from_le_bytes(b) }
fn keyat(d: &[u8], o: usize) -> Pubkey { let mut b = [0u8; 32]; b.copy_from_slice(&d[o..o + 32]); Pubkey::new_from_array(b) }

pub struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_set_return_data(&self, data: &[u8]) { rec().ret = data.to_vec(); }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = solana_program::clock::Clock { slot: rec().slot, epoch_start_timestamp: 3, epoch: 4, leader_schedule_epoch: 5, unix_timestamp: rec().ts };
        unsafe { std::ptr::write_unaligned(p as *mut solana_program::clock::Clock, c) }
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(p as *mut solana_program::rent::Rent, solana_program::rent::Rent::default()) }
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let r = rec();
        let find = |k: &Pubkey| infos.iter().find(|i| i.key == k);
        if ix.program_id == spl_token::id() {
            match ix.data[0] {
                3 => {
                    let amount = u64at(&ix.data, 1);
                    let (from, to, auth) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey, ix.accounts[2].pubkey);
                    let signed = ix.accounts[2].is_signer && has_signed(&auth, infos, seeds);
                    let (src, dst) = match (find(&from), find(&to)) { (Some(a), Some(b)) => (a, b), _ => { r.bad += 1; return Err(ProgramError::NotEnoughAccountKeys) } };
                    if !signed { return Err(ProgramError::MissingRequiredSignature); }
                    // the token program refuses when the source account does not hold the amount or is not controlled by the authority
                    {
                        let mut d = src.data.borrow_mut();
                        if keyat(&d, 32) != auth { return Err(ProgramError::Custom(4)); }
                        let bal = u64at(&d, 64);
                        if amount > bal { return Err(ProgramError::Custom(1)); }
                        d[64..72].copy_from_slice(&(bal - amount).to_le_bytes());
                    }
                    { let mut d = dst.data.borrow_mut(); let bal = u64at(&d, 64); d[64..72].copy_from_slice(&(bal + amount).to_le_bytes()); }
                    r.xfers.push(Xfer { from, to, auth, amount, signed });
                }
                18 => {
                    let (acc, mint) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey);
                    let a = match find(&acc) { Some(a) => a, None => { r.bad += 1; return Err(ProgramError::NotEnoughAccountKeys) } };
                    if a.owner != &spl_token::id() || a.data_len() != 165 { return Err(ProgramError::InvalidAccountData); }
                    let owner = keyat(&ix.data, 1);
                    let mut d = a.data.borrow_mut();
                    if d[108] != 0 { return Err(ProgramError::Custom(6)); }
                    d[0..32].copy_from_slice(mint.as_ref()); d[32..64].copy_from_slice(owner.as_ref()); d[108] = 1;
                    r.inits.push((acc, mint, owner));
                }
                _ => r.bad += 1,
            }
            return Ok(());
        }
        if ix.program_id == system_program::id() {
            match ix.data[0] {
                0 => {
                    let (from, new) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey);
                    let m = Made { key: new, from, lamports: u64at(&ix.data, 4), space: u64at(&ix.data, 12), owner: keyat(&ix.data, 20), signed: has_signed(&new, infos, seeds) && has_signed(&from, infos, seeds) };
                    let (a, f) = match (find(&new), find(&from)) { (Some(a), Some(f)) => (a, f), _ => { r.bad += 1; return Err(ProgramError::NotEnoughAccountKeys) } };
                    if !m.signed { return Err(ProgramError::MissingRequiredSignature); }
                    if a.lamports() != 0 || a.data_len() != 0 || a.owner != &system_program::id() { return Err(ProgramError::Custom(0)); }
                    if f.lamports() < m.lamports { return Err(ProgramError::Custom(1)); }
                    **f.lamports.borrow_mut() -= m.lamports; **a.lamports.borrow_mut() += m.lamports;
                    grow(a, m.space as usize); a.assign(&m.owner);
                    r.made.push(m);
                }
                2 => {
                    let (from, to) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey);
                    let (f, t) = match (find(&from), find(&to)) { (Some(a), Some(b)) => (a, b), _ => { r.bad += 1; return Err(ProgramError::NotEnoughAccountKeys) } };
                    if !has_signed(&from, infos, seeds) { return Err(ProgramError::MissingRequiredSignature); }
                    let l = u64at(&ix.data, 4);
                    if f.lamports() < l { return Err(ProgramError::Custom(1)); }
                    **f.lamports.borrow_mut() -= l; **t.lamports.borrow_mut() += l;
                }
                8 => { let k = ix.accounts[0].pubkey; if !has_signed(&k, infos, seeds) { return Err(ProgramError::MissingRequiredSignature); }
                    match find(&k) { Some(a) => grow(a, u64at(&ix.data, 4) as usize), None => r.bad += 1 } }
                1 => { let k = ix.accounts[0].pubkey; if !has_signed(&k, infos, seeds) { return Err(ProgramError::MissingRequiredSignature); }
                    match find(&k) { Some(a) => a.assign(&keyat(&ix.data, 4)), None => r.bad += 1 } }
                _ => r.bad += 1,
            }
            return Ok(());
        }
        if ix.program_id == phoenix::id() {
            let la = phoenix::phoenix_log_authority::id();
            let ok = ix.accounts.len() == 1 && ix.accounts[0].pubkey == la && ix.accounts[0].is_signer && has_signed(&la, infos, seeds) && find(&phoenix::id()).is_some();
            if !ok { r.bad += 1; return Err(ProgramError::MissingRequiredSignature); }
            r.logs.push(LogMsg { data: ix.data.clone(), ok });
            return Ok(());
        }
        r.bad += 1;
        Err(ProgramError::IncorrectProgramId)
    }
}
fn grow(a: &AccountInfo, space: usize) { unsafe { let p = a.data.borrow_mut().as_mut_ptr(); *(p.offset(-8) as *mut u64) = space as u64; *a.data.borrow_mut() = std::slice::from_raw_parts_mut(p, space); } }

// ------------------------------------------------------------------ input buffer
#[derive(Clone, Copy)]
pub struct Acc { pub at: usize, pub data: usize, pub len: usize }
pub struct W { pub buf: *mut u8, pub off: usize, pub accs: Vec<Acc>, cap: usize }
impl W {
    pub fn new(cap: usize) -> W { W { buf: unsafe { std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align(cap, 16).unwrap()) }, off: 8, accs: vec![], cap } }
    pub fn slice(&mut self, at: usize, n: usize) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.buf.add(at), n) } }
    pub fn w64(&mut self, at: usize, v: u64) { self.slice(at, 8).copy_from_slice(&v.to_le_bytes()); }
    pub fn r64(&self, at: usize) -> u64 { u64at(unsafe { std::slice::from_raw_parts(self.buf.add(at), 8) }, 0) }
    pub fn rkey(&self, at: usize) -> Pubkey { keyat(unsafe { std::slice::from_raw_parts(self.buf.add(at), 32) }, 0) }
    pub fn wkey(&mut self, at: usize, k: &Pubkey) { self.slice(at, 32).copy_from_slice(k.as_ref()); }
    pub fn add(&mut self, key: &Pubkey, owner: &Pubkey, signer: bool, writable: bool, lamports: u64, len: usize) -> Acc {
        let at = self.off;
        self.slice(at, 4).copy_from_slice(&[0xff, signer as u8, writable as u8, 0]);
        self.wkey(at + 8, key); self.wkey(at + 40, owner); self.w64(at + 72, lamports); self.w64(at + 80, len as u64);
        let a = Acc { at, data: at + 88, len };
        let mut e = at + 88 + len + 10240; e = (e + 7) & !7;
        self.off = e + 8;
        assert!(self.off < self.cap);
        self.accs.push(a);
        a
    }
    /// same account again at another position
    pub fn dup(&mut self, ix: usize) { let at = self.off; self.slice(at, 1)[0] = ix as u8; self.off += 8; let a = self.accs[ix]; self.accs.push(a); }
    pub fn finish(&mut self, ixdata: &[u8]) -> *mut u8 {
        self.w64(0, self.accs.len() as u64);
        let o = self.off;
        self.w64(o, ixdata.len() as u64); self.slice(o + 8, ixdata.len()).copy_from_slice(ixdata);
        self.wkey(o + 8 + ixdata.len(), &phoenix::id());
        self.buf
    }
    pub fn key_of(&self, a: Acc) -> Pubkey { self.rkey(a.at + 8) }
    pub fn owner_of(&self, a: Acc) -> Pubkey { self.rkey(a.at + 40) }
    pub fn lamports_of(&self, a: Acc) -> u64 { self.r64(a.at + 72) }
    pub fn len_of(&self, a: Acc) -> u64 { self.r64(a.at + 80) }
    pub fn set_signer(&mut self, a: Acc, v: bool) { self.slice(a.at + 1, 1)[0] = v as u8; }
}
/// the call the loader makes
#[inline(never)]
pub fn run(input: *mut u8) -> ProgramResult {
    let (pid, accounts, data) = unsafe { solana_program::entrypoint::deserialize(input) };
    let r = phoenix::process_instruction(pid, &accounts, data);
    std::mem::forget(accounts);
    r
}
pub struct Fix { pub vb: (Pubkey, u8), pub vq: (Pubkey, u8), pub seats: [(Pubkey, u8); NT], pub disc_market: u64, pub disc_seat: u64 }
/// installs the stand-ins and derives the addresses (concrete work, before any fork)
pub fn setup() -> Fix {
    set_syscall_stubs(Box::new(Stubs));
    let m = market_key();
    let vb = Pubkey::find_program_address(&[b"vault", m.as_ref(), base_mint().as_ref()], &phoenix::id());
    let vq = Pubkey::find_program_address(&[b"vault", m.as_ref(), quote_mint().as_ref()], &phoenix::id());
    let mut seats = [(Pubkey::default(), 0u8); NT];
    let mut pdas = vec![];
    let cat = |p: &[&[u8]]| { let mut v = vec![]; for x in p { v.extend_from_slice(x) } v };
    for t in 0..NT {
        seats[t] = Pubkey::find_program_address(&[b"seat", m.as_ref(), key(t).as_ref()], &phoenix::id());
        pdas.push(Known { seeds: cat(&[b"seat", m.as_ref(), key(t).as_ref(), &[seats[t].1]]), key: seats[t].0 });
    }
    pdas.push(Known { seeds: cat(&[b"vault", m.as_ref(), base_mint().as_ref(), &[vb.1]]), key: vb.0 });
    pdas.push(Known { seeds: cat(&[b"vault", m.as_ref(), quote_mint().as_ref(), &[vq.1]]), key: vq.0 });
    pdas.push(Known { seeds: cat(&[b"log", &[phoenix::phoenix_log_authority::bump()]]), key: phoenix::phoenix_log_authority::id() });
    unsafe { REC = Some(Rec { pdas, ..Rec::default() }); }
    Fix { vb, vq, seats, disc_market: 8167313896524341111, disc_seat: 2002603505298356104 }
}
/// header with the given lot sizes; the fields tests cannot name are set through `MarketHeader::new`
pub fn header(f: &Fix, bls: u64, qls: u64, tick_atoms: u64, status: u64, seqn: u64) -> MarketHeader {
    let mut h = MarketHeader::new(
        MarketSizeParams { bids_size: BIG as u64, asks_size: BIG as u64, num_seats: SEATS as u64 },
        TokenParams { decimals: 9, vault_bump: f.vb.1 as u32, mint_key: base_mint(), vault_key: f.vb.0 },
        BaseAtomsPerBaseLot::new(bls),
        TokenParams { decimals: 6, vault_bump: f.vq.1 as u32, mint_key: quote_mint(), vault_key: f.vq.0 },
        QuoteAtomsPerQuoteLot::new(qls),
        QuoteAtomsPerBaseUnitPerTick::new(tick_atoms),
        authority(), successor(), fee_recipient(), 1,
    );
    h.status = status; h.market_sequence_number = seqn;
    h
}
pub fn put_seat(w: &mut W, a: Acc, disc: u64, market: &Pubkey, trader: &Pubkey, status: u64) {
    w.w64(a.data, disc); w.wkey(a.data + 8, market); w.wkey(a.data + 40, trader); w.w64(a.data + 72, status);
}
pub const SEAT_LEN: usize = std::mem::size_of::<Seat>();
pub fn put_token(w: &mut W, a: Acc, mint: &Pubkey, owner: &Pubkey, amount: u64) {
    w.wkey(a.data, mint); w.wkey(a.data + 32, owner); w.w64(a.data + 64, amount); w.slice(a.data + 108, 1)[0] = 1;
}
pub fn token_amount(w: &W, a: Acc) -> u64 { w.r64(a.data + 64) }
pub fn tag(i: PI) -> u8 { i as u8 }

// ------------------------------------------------------------------ log messages
pub struct Head { pub ix: u8, pub seq: u64, pub ts: u64, pub slot: u64, pub market: Pubkey, pub signer: Pubkey, pub total: u16 }
/// message -> header and events with their index; None when it is not well formed
pub fn parse_log(d: &[u8]) -> Option<(Head, Vec<(u16, Ev)>)> {
    if d.len() < 93 || d[0] != 15 || d[1] != 1 { return None; }
    let h = Head { ix: d[2], seq: u64at(d, 3), ts: u64at(d, 11), slot: u64at(d, 19), market: keyat(d, 27), signer: keyat(d, 59), total: d[91] as u16 | (d[92] as u16) << 8 };
    let mut v = vec![];
    let mut p = 93;
    while p < d.len() {
        let kind = d[p];
        let n = match kind { 2 => 67, 3 => 43, 4 => 35, 5 => 59, 6 => 43, 7 => 11, 8 => 27, 9 => 59, _ => return None };
        if p + n > d.len() { return None; }
        let ix = d[p + 1] as u16 | (d[p + 2] as u16) << 8;
        let b = &d[p + 3..p + n];
        let cid = |o: usize| u64at(b, o) as u128 | (u64at(b, o + 8) as u128) << 64;
        let z = Ev { k: K::Fee, maker: 98, seq: 0, price: 0, lots: 0, rem: 0, cid: 0, q: 0, fee: 0, lvs: 0, lvt: 0 };
        let e = match kind {
            2 => Ev { k: K::Fill, maker: who(&keyat(b, 0)), seq: u64at(b, 32), price: u64at(b, 40), lots: u64at(b, 48), rem: u64at(b, 56), ..z },
            3 => Ev { k: K::Place, seq: u64at(b, 0), cid: cid(8), price: u64at(b, 24), lots: u64at(b, 32), ..z },
            4 => Ev { k: K::Reduce, seq: u64at(b, 0), price: u64at(b, 8), lots: u64at(b, 16), rem: u64at(b, 24), ..z },
            5 => Ev { k: K::Evict, maker: who(&keyat(b, 0)), seq: u64at(b, 32), price: u64at(b, 40), lots: u64at(b, 48), ..z },
            6 => Ev { k: K::Summary, cid: cid(0), lots: u64at(b, 16), q: u64at(b, 24), fee: u64at(b, 32), ..z },
            7 => Ev { k: K::Fee, q: u64at(b, 0), ..z },
            8 => Ev { k: K::Tif, seq: u64at(b, 0), lvs: u64at(b, 8), lvt: u64at(b, 16), ..z },
            _ => Ev { k: K::Expired, maker: who(&keyat(b, 0)), seq: u64at(b, 32), price: u64at(b, 40), lots: u64at(b, 48), ..z },
        };
        v.push((ix, e));
        p += n;
    }
    Some((h, v))
}
/// all log messages of the instruction are well formed, consecutive and bounded; returns the events
pub fn check_logs(tg: u32, ixtag: u8, seqn: u64, signer: &Pubkey) -> Vec<Ev> {
    let mut all = vec![];
    let r = rec();
    for l in r.logs.iter() {
        check(tg, l.ok);
        check(tg + 1, l.data.len() + 34 <= 1280);
        match parse_log(&l.data) {
            None => check(tg + 2, false),
            Some((h, evs)) => {
                check(tg + 3, (h.ix == ixtag) & (h.seq == seqn) & (h.ts == r.ts as u64) & (h.slot == r.slot));
                check(tg + 4, (h.market == market_key()) & (h.signer == *signer));
                check(tg + 5, h.total as usize == evs.len());
                for (i, e) in evs { check(tg + 6, i as usize == all.len()); all.push(e); }
            }
        }
    }
    check(tg + 7, !r.logs.is_empty());
    all
}
