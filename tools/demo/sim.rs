// A market run in memory: accounts, token and system program stand-ins, instructions through `process_instruction`.
#![allow(dead_code, unused_imports, clippy::all)]
use phoenix::program::status::*;
use phoenix::program::*;
use phoenix::quantities::*;
use phoenix::state::markets::*;
use phoenix::state::*;
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::{clock::Clock, rent::Rent, system_program};
use std::collections::BTreeMap;
use std::sync::{Mutex, Once};

pub fn k(b: u8) -> Pubkey { Pubkey::new_from_array([b; 32]) }
#[derive(Clone)]
pub struct Acct { pub lamports: u64, pub owner: Pubkey, pub data: Vec<u8> }
#[derive(Default)]
struct Env { slot: u64, ts: i64, logs: Vec<Vec<u8>>, ret: Vec<u8> }
static ENV: Mutex<Env> = Mutex::new(Env { slot: 0, ts: 0, logs: vec![], ret: vec![] });
static INIT: Once = Once::new();
fn u64at(d: &[u8], o: usize) -> u64 { u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) }
fn keyat(d: &[u8], o: usize) -> Pubkey { Pubkey::new_from_array(d[o..o + 32].try_into().unwrap()) }
struct Stubs;
impl Stubs {
    fn signed(key: &Pubkey, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> bool {
        infos.iter().any(|i| i.key == key && i.is_signer) || seeds.iter().any(|s| Pubkey::create_program_address(s, &phoenix::id()).ok().as_ref() == Some(key))
    }
}
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_set_return_data(&self, data: &[u8]) { ENV.lock().unwrap().ret = data.to_vec(); }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let e = ENV.lock().unwrap();
        unsafe { std::ptr::write_unaligned(p as *mut Clock, Clock { slot: e.slot, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0, unix_timestamp: e.ts }) }
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 { unsafe { std::ptr::write_unaligned(p as *mut Rent, Rent::default()) } 0 }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let find = |k: &Pubkey| infos.iter().find(|i| i.key == k).ok_or(ProgramError::NotEnoughAccountKeys);
        let need = |k: &Pubkey| if Stubs::signed(k, infos, seeds) { Ok(()) } else { Err(ProgramError::MissingRequiredSignature) };
        if ix.program_id == spl_token::id() {
            match ix.data[0] {
                3 => {
                    let amount = u64at(&ix.data, 1);
                    let (src, dst, auth) = (find(&ix.accounts[0].pubkey)?, find(&ix.accounts[1].pubkey)?, ix.accounts[2].pubkey);
                    need(&auth)?;
                    let mut s = src.data.borrow_mut();
                    if keyat(&s, 32) != auth { return Err(ProgramError::Custom(4)); }
                    let bal = u64at(&s, 64);
                    if amount > bal { return Err(ProgramError::Custom(1)); }
                    s[64..72].copy_from_slice(&(bal - amount).to_le_bytes());
                    drop(s);
                    let mut d = dst.data.borrow_mut();
                    let bal = u64at(&d, 64);
                    d[64..72].copy_from_slice(&(bal + amount).to_le_bytes());
                }
                18 => {
                    let a = find(&ix.accounts[0].pubkey)?;
                    if a.owner != &spl_token::id() || a.data_len() != 165 { return Err(ProgramError::InvalidAccountData); }
                    let mut d = a.data.borrow_mut();
                    if d[108] != 0 { return Err(ProgramError::Custom(6)); }
                    d[0..32].copy_from_slice(ix.accounts[1].pubkey.as_ref()); d[32..64].copy_from_slice(&ix.data[1..33]); d[108] = 1;
                }
                _ => return Err(ProgramError::InvalidInstructionData),
            }
            return Ok(());
        }
        if ix.program_id == system_program::id() {
            let grow = |a: &AccountInfo, n: usize| unsafe { let p = a.data.borrow_mut().as_mut_ptr(); *(p.offset(-8) as *mut u64) = n as u64; *a.data.borrow_mut() = std::slice::from_raw_parts_mut(p, n); };
            let a0 = find(&ix.accounts[0].pubkey)?;
            need(a0.key)?;
            match ix.data[0] {
                0 => {
                    let a = find(&ix.accounts[1].pubkey)?; need(a.key)?;
                    let l = u64at(&ix.data, 4);
                    if a.lamports() != 0 || a.data_len() != 0 || a0.lamports() < l { return Err(ProgramError::Custom(0)); }
                    **a0.lamports.borrow_mut() -= l; **a.lamports.borrow_mut() += l;
                    grow(a, u64at(&ix.data, 12) as usize); a.assign(&keyat(&ix.data, 20));
                }
                2 => { let a = find(&ix.accounts[1].pubkey)?; let l = u64at(&ix.data, 4); if a0.lamports() < l { return Err(ProgramError::Custom(1)); } **a0.lamports.borrow_mut() -= l; **a.lamports.borrow_mut() += l; }
                8 => grow(a0, u64at(&ix.data, 4) as usize),
                1 => a0.assign(&keyat(&ix.data, 4)),
                _ => return Err(ProgramError::InvalidInstructionData),
            }
            return Ok(());
        }
        if ix.program_id == phoenix::id() {
            need(&ix.accounts[0].pubkey)?;
            ENV.lock().unwrap().logs.push(ix.data.clone());
            return Ok(());
        }
        Err(ProgramError::IncorrectProgramId)
    }
}

pub struct Sim { pub acc: BTreeMap<Pubkey, Acct>, pub market: Pubkey, pub base: Pubkey, pub quote: Pubkey, pub auth: Pubkey, pub slot: u64, pub ts: i64, pub logs: Vec<Vec<u8>>, pub bls: u64, pub qls: u64, pub ret: Vec<u8>, pub failed: String }
pub type M = FIFOMarket<Pubkey, 512, 512, 128>;
pub const HDR: usize = std::mem::size_of::<MarketHeader>();
impl Sim {
    /// quote lots per unit, base lots per unit, tick size in quote lots per base unit, fee
    pub fn bare() -> Sim {
        INIT.call_once(|| { set_syscall_stubs(Box::new(Stubs)); std::panic::set_hook(Box::new(|_| {})); });
        let mut s = Sim { acc: BTreeMap::new(), market: k(0xa1), base: k(0xb2), quote: k(0xc3), auth: k(0xd4), slot: 10, ts: 1000, logs: vec![], bls: 0, qls: 0, ret: vec![], failed: String::new() };
        s.acc.insert(s.auth, Acct { lamports: 1 << 50, owner: system_program::id(), data: vec![] });
        s.acc.insert(s.market, Acct { lamports: 1 << 40, owner: phoenix::id(), data: vec![0; HDR + std::mem::size_of::<M>()] });
        for (m, d) in [(s.base, 9u8), (s.quote, 6u8)] { let mut v = vec![0; 82]; v[44] = d; v[45] = 1; s.acc.insert(m, Acct { lamports: 1, owner: spl_token::id(), data: v }); }
        s
    }
    pub fn init_ix(&self, qlu: u64, blu: u64, tick: u64, fee: u16, raw: Option<u32>) -> Instruction {
        create_initialize_market_instruction(&self.market, &self.base, &self.quote, &self.auth, MarketSizeParams { bids_size: 512, asks_size: 512, num_seats: 128 }, qlu, blu, tick, fee, &self.auth, raw)
    }
    pub fn new(qlu: u64, blu: u64, tick: u64, fee: u16) -> Sim {
        let mut s = Sim::bare();
        let ix = s.init_ix(qlu, blu, tick, fee, None);
        assert!(s.send(&ix), "initialize: {}", s.failed);
        s.bls = 1_000_000_000 / blu; s.qls = 1_000_000 / qlu;
        s.status(MarketStatus::Active);
        s
    }
    pub fn status(&mut self, st: MarketStatus) { let ix = create_change_market_status_instruction(&self.auth, &self.market, st); assert!(self.send(&ix), "status"); }
    pub fn token(&mut self, owner: &Pubkey, mint: &Pubkey, amount: u64) -> Pubkey {
        let a = spl_associated_token_account::get_associated_token_address(owner, mint);
        let mut v = vec![0; 165]; v[0..32].copy_from_slice(mint.as_ref()); v[32..64].copy_from_slice(owner.as_ref()); v[64..72].copy_from_slice(&amount.to_le_bytes()); v[108] = 1;
        self.acc.insert(a, Acct { lamports: 1, owner: spl_token::id(), data: v });
        a
    }
    pub fn bal(&self, owner: &Pubkey, mint: &Pubkey) -> u64 { u64at(&self.acc[&spl_associated_token_account::get_associated_token_address(owner, mint)].data, 64) }
    pub fn vault(&self, mint: &Pubkey) -> u64 { u64at(&self.acc[&get_vault_address(&self.market, mint).0].data, 64) }
    /// a trader with tokens and an approved seat
    pub fn trader(&mut self, t: Pubkey) -> Pubkey {
        self.person(t);
        let m = self.market;
        let ix = create_request_seat_instruction(&t, &m); assert!(self.send(&ix), "seat: {}", self.failed);
        let ix = create_change_seat_status_instruction(&self.auth, &m, &t, SeatApprovalStatus::Approved); assert!(self.send(&ix), "approve: {}", self.failed);
        t
    }
    pub fn person(&mut self, t: Pubkey) { self.acc.insert(t, Acct { lamports: 1 << 40, owner: system_program::id(), data: vec![] }); let (b, q) = (self.base, self.quote); self.token(&t, &b, 1 << 50); self.token(&t, &q, 1 << 50); }
    pub fn order(&mut self, t: &Pubkey, p: OrderPacket) -> bool { let ix = create_new_order_instruction(&self.market, t, &self.base, &self.quote, &p); self.send(&ix) }
    pub fn order_free(&mut self, t: &Pubkey, p: OrderPacket) -> bool { let ix = create_new_order_with_free_funds_instruction(&self.market, t, &p); self.send(&ix) }
    pub fn deposit(&mut self, t: &Pubkey, base: u64, quote: u64) { let ix = create_deposit_funds_instruction(&self.market, t, &self.base, &self.quote, &deposit::DepositParams { quote_lots_to_deposit: quote, base_lots_to_deposit: base }); assert!(self.send(&ix), "deposit: {}", self.failed); }
    /// runs one instruction; every effect is discarded when it fails
    pub fn send(&mut self, ix: &Instruction) -> bool {
        { let mut e = ENV.lock().unwrap(); *e = Env { slot: self.slot, ts: self.ts, logs: vec![], ret: vec![] }; }
        let mut buf: Vec<u64> = vec![0; 1];
        let mut seen: Vec<Pubkey> = vec![];
        let mut at: Vec<(Pubkey, usize)> = vec![];
        buf[0] = ix.accounts.len() as u64;
        for m in ix.accounts.iter() {
            if let Some(p) = seen.iter().position(|x| *x == m.pubkey) { buf.push(p as u64); seen.push(m.pubkey); continue; }
            seen.push(m.pubkey);
            let signer = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_signer); let writable = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
            let a = self.acc.get(&m.pubkey).cloned().unwrap_or(Acct { lamports: 0, owner: system_program::id(), data: vec![] });
            let start = buf.len();
            at.push((m.pubkey, start));
            let mut b: Vec<u8> = vec![0xff, signer as u8, writable as u8, 0, 0, 0, 0, 0];
            b.extend_from_slice(m.pubkey.as_ref()); b.extend_from_slice(a.owner.as_ref()); b.extend_from_slice(&a.lamports.to_le_bytes()); b.extend_from_slice(&(a.data.len() as u64).to_le_bytes());
            b.extend_from_slice(&a.data); b.resize(b.len() + 10240, 0); while b.len() % 8 != 0 { b.push(0) }
            b.extend_from_slice(&[0; 8]);
            for c in b.chunks(8) { buf.push(u64::from_le_bytes(c.try_into().unwrap())); }
        }
        let mut b: Vec<u8> = (ix.data.len() as u64).to_le_bytes().to_vec(); b.extend_from_slice(&ix.data); b.extend_from_slice(phoenix::id().as_ref()); while b.len() % 8 != 0 { b.push(0) }
        for c in b.chunks(8) { buf.push(u64::from_le_bytes(c.try_into().unwrap())); }
        let p = buf.as_mut_ptr() as *mut u8;
        let r = std::panic::catch_unwind(|| { let (id, accounts, data) = unsafe { solana_program::entrypoint::deserialize(p) }; phoenix::process_instruction(id, &accounts, data) });
        let e = ENV.lock().unwrap();
        match r { Err(_) => { self.failed = "panic".to_string(); return false } Ok(Err(x)) => { self.failed = format!("{:?}", x); return false } Ok(Ok(())) => {} }
        self.logs = e.logs.clone(); self.ret = e.ret.clone();
        let raw = unsafe { std::slice::from_raw_parts(p, buf.len() * 8) };
        for (key, start) in at {
            let o = start * 8; let n = u64at(raw, o + 80) as usize;
            self.acc.insert(key, Acct { lamports: u64at(raw, o + 72), owner: keyat(raw, o + 40), data: raw[o + 88..o + 88 + n].to_vec() });
        }
        true
    }
    pub fn header(&self) -> MarketHeader { *bytemuck::from_bytes(&{ let mut v = vec![0u64; HDR / 8]; bytemuck::cast_slice_mut::<u64, u8>(&mut v).copy_from_slice(&self.acc[&self.market].data[..HDR]); v }.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()) }
    pub fn with<R>(&self, f: impl FnOnce(&dyn Market<Pubkey, FIFOOrderId, FIFORestingOrder, OrderPacket>) -> R) -> R {
        let d = &self.acc[&self.market].data[HDR..];
        let mut v = vec![0u64; (d.len() + 7) / 8];
        bytemuck::cast_slice_mut::<u64, u8>(&mut v)[..d.len()].copy_from_slice(d);
        let m = load_with_dispatch(&MarketSizeParams { bids_size: 512, asks_size: 512, num_seats: 128 }, &bytemuck::cast_slice::<u64, u8>(&v)[..d.len()]).unwrap();
        f(m.inner)
    }
    /// (price, sequence number, size, trader, slot, time) best first
    pub fn book(&self, side: Side) -> Vec<(u64, u64, u64, Pubkey, u64, u64)> {
        self.with(|m| m.get_book(side).iter().map(|(i, o)| (i.price_in_ticks.as_u64(), i.order_sequence_number, o.num_base_lots.as_u64(), m.get_trader_id_from_index(o.trader_index as u32), o.last_valid_slot, o.last_valid_unix_timestamp_in_seconds)).collect())
    }
    /// (quote locked, quote free, base locked, base free)
    pub fn st(&self, t: &Pubkey) -> Option<(u64, u64, u64, u64)> { self.with(|m| m.get_trader_state(t).map(|s| (s.quote_lots_locked.as_u64(), s.quote_lots_free.as_u64(), s.base_lots_locked.as_u64(), s.base_lots_free.as_u64()))) }
    pub fn fees(&self) -> (u64, u64) { self.with(|m| (m.get_uncollected_fee_amount().as_u64(), m.get_collected_fee_amount().as_u64())) }
    /// vaults hold exactly what the market owes
    pub fn solvent(&self) -> bool {
        let (q, b) = self.with(|m| { let mut q = m.get_uncollected_fee_amount().as_u64() as u128; let mut b = 0u128; for (_, s) in m.get_registered_traders().iter() { q += s.quote_lots_locked.as_u64() as u128 + s.quote_lots_free.as_u64() as u128; b += s.base_lots_locked.as_u64() as u128 + s.base_lots_free.as_u64() as u128; } (q, b) });
        q * self.qls as u128 == self.vault(&self.quote) as u128 && b * self.bls as u128 == self.vault(&self.base) as u128
    }
}
pub fn post(side: Side, price: u64, lots: u64) -> OrderPacket { OrderPacket::PostOnly { side, price_in_ticks: Ticks::new(price), num_base_lots: BaseLots::new(lots), client_order_id: 0, reject_post_only: true, use_only_deposited_funds: false, last_valid_slot: None, last_valid_unix_timestamp_in_seconds: None, fail_silently_on_insufficient_funds: false } }
pub fn post_tif(side: Side, price: u64, lots: u64, slot: Option<u64>, ts: Option<u64>) -> OrderPacket { OrderPacket::PostOnly { side, price_in_ticks: Ticks::new(price), num_base_lots: BaseLots::new(lots), client_order_id: 0, reject_post_only: true, use_only_deposited_funds: false, last_valid_slot: slot, last_valid_unix_timestamp_in_seconds: ts, fail_silently_on_insufficient_funds: false } }
pub fn limit(side: Side, price: u64, lots: u64, stb: SelfTradeBehavior) -> OrderPacket { OrderPacket::Limit { side, price_in_ticks: Ticks::new(price), num_base_lots: BaseLots::new(lots), self_trade_behavior: stb, match_limit: None, client_order_id: 0, use_only_deposited_funds: false, last_valid_slot: None, last_valid_unix_timestamp_in_seconds: None, fail_silently_on_insufficient_funds: false } }
pub fn ioc(side: Side, price: Option<u64>, base: u64, quote: u64, minb: u64, minq: u64, stb: SelfTradeBehavior) -> OrderPacket { OrderPacket::ImmediateOrCancel { side, price_in_ticks: price.map(Ticks::new), num_base_lots: BaseLots::new(base), num_quote_lots: QuoteLots::new(quote), min_base_lots_to_fill: BaseLots::new(minb), min_quote_lots_to_fill: QuoteLots::new(minq), self_trade_behavior: stb, match_limit: None, client_order_id: 0, use_only_deposited_funds: false, last_valid_slot: None, last_valid_unix_timestamp_in_seconds: None } }
