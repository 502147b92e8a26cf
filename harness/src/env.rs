//! The world around the program: accounts, clock, and stand-ins for the runtime's system calls.
//!
//! Transactions go through the program's real entrypoint, so account validation, argument decoding
//! and return data are all the real code. Only the runtime is replaced: the clock is set by the
//! harness, and token/system transfers are applied to the accounts' bytes under the rules of the
//! token and system programs (sufficient balance, same mint, authority is the account's owner and
//! has signed, or is the market authority and the seeds are that market's).
use anchor_lang::prelude::*;
use anchor_lang::solana_program::instruction::Instruction;
use anchor_lang::solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use anchor_lang::Discriminator;
use openbook_v2::pubkey_option::NonZeroPubkeyOption;
use openbook_v2::state::*;

pub const TOKEN_LEN: usize = 165;

#[repr(C)]
#[derive(Clone)]
pub struct Acc {
    _pad: u32,
    /// length at the start of the transaction, where the runtime keeps it
    orig_len: u32,
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: *mut u8,
    pub len: usize,
    pub exec: bool,
}

#[derive(Clone, Copy)]
pub struct Meta {
    pub acc: usize,
    pub signer: bool,
    pub writable: bool,
}

/// A token transfer made by the program
#[derive(Clone, Copy)]
pub struct Transfer {
    pub from: Pubkey,
    pub to: Pubkey,
    pub amount: u64,
    pub authority: Pubkey,
    pub by_seeds: bool,
}

pub static mut NOW: i64 = 1;
pub static mut SLOT: u64 = 1;
pub static mut TRANSFERS: Vec<Transfer> = Vec::new();
pub static mut LAMPORT_TRANSFERS: Vec<(Pubkey, Pubkey, u64)> = Vec::new();
pub static mut LOGS: Vec<Vec<u8>> = Vec::new();
pub static mut RETURN: Vec<u8> = Vec::new();
pub static mut KEEP_LOGS: bool = false;
/// market key and bump whose seeds produce the market authority
pub static mut MARKET_SEEDS: Option<(Pubkey, u8)> = None;
pub static mut AUTHORITY: Option<Pubkey> = None;

pub const fn pk(n: u8) -> Pubkey {
    let mut b = [0u8; 32];
    b[0] = n;
    b[31] = 7;
    Pubkey::new_from_array(b)
}

pub const K_MARKET: Pubkey = pk(1);
pub const K_BIDS: Pubkey = pk(2);
pub const K_ASKS: Pubkey = pk(3);
pub const K_HEAP: Pubkey = pk(4);
pub const K_BASE_VAULT: Pubkey = pk(5);
pub const K_QUOTE_VAULT: Pubkey = pk(6);
pub const K_AUTHORITY: Pubkey = pk(7);
pub const K_BASE_MINT: Pubkey = pk(8);
pub const K_QUOTE_MINT: Pubkey = pk(9);
pub const K_OWNER: Pubkey = pk(10);
pub const K_OOA: Pubkey = pk(11);
pub const K_USER_BASE: Pubkey = pk(12);
pub const K_USER_QUOTE: Pubkey = pk(13);
pub const K_ORACLE_A: Pubkey = pk(14);
pub const K_ORACLE_B: Pubkey = pk(15);
pub const K_COLLECT: Pubkey = pk(16);
pub const K_REFERRER: Pubkey = pk(17);
pub const K_MAKER1: Pubkey = pk(21);
pub const K_MAKER2: Pubkey = pk(22);
pub const K_MAKER3: Pubkey = pk(23);
pub const K_MAKER_OWNER: Pubkey = pk(24);
pub const K_PAYER: Pubkey = pk(25);
pub const K_STRANGER: Pubkey = pk(26);
pub const BUMP: u8 = 254;

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        unsafe {
            let c = var as *mut Clock;
            (*c).slot = SLOT;
            (*c).unix_timestamp = NOW;
            (*c).epoch_start_timestamp = 0;
            (*c).epoch = 0;
            (*c).leader_schedule_epoch = 0;
        }
        0
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut Rent) = Rent { lamports_per_byte_year: 1, exemption_threshold: 1.0, burn_percent: 0 } }
        0
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        unsafe { RETURN = d.to_vec() }
    }
    fn sol_log_data(&self, f: &[&[u8]]) {
        unsafe {
            if KEEP_LOGS {
                LOGS.push(f[0].to_vec())
            }
        }
    }
    fn sol_get_stack_height(&self) -> u64 {
        1
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> anchor_lang::solana_program::entrypoint::ProgramResult {
        let find = |i: usize| -> std::result::Result<&AccountInfo, ProgramError> {
            let k = ix.accounts.get(i).ok_or(ProgramError::NotEnoughAccountKeys)?.pubkey;
            infos.iter().find(|a| *a.key == k).ok_or(ProgramError::NotEnoughAccountKeys)
        };
        // has this account signed, by itself or through the market's seeds?
        let signed = |i: usize| -> std::result::Result<(bool, bool), ProgramError> {
            let a = find(i)?;
            if !ix.accounts[i].is_signer {
                return Ok((false, false));
            }
            if a.is_signer {
                return Ok((true, false));
            }
            unsafe {
                if let (Some((m, bump)), Some(auth)) = (MARKET_SEEDS, AUTHORITY) {
                    for s in seeds {
                        if s.len() == 3 && s[0] == b"Market" && s[1] == m.as_ref() && s[2] == [bump] && *a.key == auth {
                            return Ok((true, true));
                        }
                    }
                }
            }
            Ok((false, false))
        };
        if ix.program_id == anchor_spl::token::ID {
            if ix.data.len() != 9 || ix.data[0] != 3 {
                return Err(ProgramError::InvalidInstructionData);
            }
            let amount = u64::from_le_bytes(ix.data[1..9].try_into().unwrap());
            let (from, to, auth) = (find(0)?, find(1)?, find(2)?);
            if !from.is_writable || !to.is_writable || !ix.accounts[0].is_writable || !ix.accounts[1].is_writable {
                return Err(ProgramError::InvalidAccountData);
            }
            let (ok, by_seeds) = signed(2)?;
            if !ok {
                return Err(ProgramError::MissingRequiredSignature);
            }
            {
                let f = from.data.borrow();
                let t = to.data.borrow();
                if f[0..32] != t[0..32] {
                    return Err(ProgramError::Custom(3));
                }
                if f[32..64] != *auth.key.as_ref() {
                    return Err(ProgramError::Custom(4));
                }
            }
            unsafe {
                TRANSFERS.push(Transfer { from: *from.key, to: *to.key, amount, authority: *auth.key, by_seeds });
            }
            let fa = get_amount(&from.data.borrow());
            if fa < amount {
                return Err(ProgramError::Custom(1));
            }
            if from.key != to.key {
                let ta = get_amount(&to.data.borrow());
                let nt = ta.checked_add(amount).ok_or(ProgramError::Custom(14))?;
                from.data.borrow_mut()[64..72].copy_from_slice(&(fa - amount).to_le_bytes());
                to.data.borrow_mut()[64..72].copy_from_slice(&nt.to_le_bytes());
            }
            Ok(())
        } else if ix.program_id == anchor_lang::solana_program::system_program::ID {
            let tag = u32::from_le_bytes(ix.data[0..4].try_into().unwrap());
            let word = |n: usize| u64::from_le_bytes(ix.data[n..n + 8].try_into().unwrap());
            let may = |i: usize| -> std::result::Result<bool, ProgramError> { Ok(signed(i)?.0 || (ix.accounts[i].is_signer && derived(find(i)?.key, seeds))) };
            let pay = |from: &AccountInfo, to: &AccountInfo, amount: u64| -> anchor_lang::solana_program::entrypoint::ProgramResult {
                let f = **from.lamports.borrow();
                if f < amount {
                    return Err(ProgramError::InsufficientFunds);
                }
                **from.lamports.borrow_mut() -= amount;
                **to.lamports.borrow_mut() += amount;
                Ok(())
            };
            match tag {
                // create an account
                0 => {
                    let (from, to) = (find(0)?, find(1)?);
                    if !may(0)? || !may(1)? {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    if **to.lamports.borrow() != 0 || to.data_len() != 0 || *to.owner != anchor_lang::solana_program::system_program::ID {
                        return Err(ProgramError::AccountAlreadyInitialized);
                    }
                    pay(from, to, word(4))?;
                    to.realloc(word(12) as usize, false)?;
                    to.assign(&Pubkey::new_from_array(ix.data[20..52].try_into().unwrap()));
                    Ok(())
                }
                // assign
                1 => {
                    let a = find(0)?;
                    if !may(0)? || *a.owner != anchor_lang::solana_program::system_program::ID {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    a.assign(&Pubkey::new_from_array(ix.data[4..36].try_into().unwrap()));
                    Ok(())
                }
                // transfer
                2 => {
                    let (from, to) = (find(0)?, find(1)?);
                    if !may(0)? {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    unsafe { LAMPORT_TRANSFERS.push((*from.key, *to.key, word(4))) }
                    pay(from, to, word(4))
                }
                // allocate
                8 => {
                    let a = find(0)?;
                    if !may(0)? || a.data_len() != 0 || *a.owner != anchor_lang::solana_program::system_program::ID {
                        return Err(ProgramError::MissingRequiredSignature);
                    }
                    a.realloc(word(4) as usize, false)
                }
                _ => Err(ProgramError::InvalidInstructionData),
            }
        } else if ix.program_id == anchor_spl::associated_token::ID {
            // payer, account, wallet, mint, ...
            if !(ix.data.is_empty() || ix.data == [0]) {
                return Err(ProgramError::InvalidInstructionData);
            }
            let (payer, a, wallet, mint) = (find(0)?, find(1)?, find(2)?, find(3)?);
            if !payer.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if anchor_spl::associated_token::get_associated_token_address(wallet.key, mint.key) != *a.key {
                return Err(ProgramError::InvalidSeeds);
            }
            if a.data_len() != 0 || *a.owner != anchor_lang::solana_program::system_program::ID {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            a.realloc(TOKEN_LEN, false)?;
            a.assign(&anchor_spl::token::ID);
            let mut d = a.data.borrow_mut();
            d[0..32].copy_from_slice(mint.key.as_ref());
            d[32..64].copy_from_slice(wallet.key.as_ref());
            d[108] = 1;
            **a.lamports.borrow_mut() = 1_000_000;
            Ok(())
        } else if ix.program_id == openbook_v2::ID {
            // the program emitting an event through a call to itself
            let a = find(0)?;
            if ix.accounts.len() != 1 || !ix.accounts[0].is_signer || !derived(a.key, seeds) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            unsafe {
                if KEEP_LOGS {
                    LOGS.push(ix.data[8..].to_vec())
                }
            }
            Ok(())
        } else {
            Err(ProgramError::IncorrectProgramId)
        }
    }
}

pub fn get_amount(d: &[u8]) -> u64 {
    u64::from_le_bytes(d[64..72].try_into().unwrap())
}

pub struct World {
    pub accs: Vec<Acc>,
}

fn zeroed(len: usize) -> *mut u8 {
    // room in front for the words the runtime keeps before the data
    unsafe { std::alloc::alloc_zeroed(std::alloc::Layout::from_size_align(len + 24, 8).unwrap()).add(16) }
}
/// may this account be acted for: it has signed, or the program's seeds give its address
fn derived(key: &Pubkey, seeds: &[&[&[u8]]]) -> bool {
    seeds.iter().any(|s| Pubkey::create_program_address(s, &openbook_v2::ID).map_or(false, |k| k == *key))
}

impl World {
    pub fn new() -> World {
        set_syscall_stubs(Box::new(Stubs));
        unsafe {
            TRANSFERS = Vec::new();
            LAMPORT_TRANSFERS = Vec::new();
            LOGS = Vec::new();
            RETURN = Vec::new();
        }
        World { accs: Vec::with_capacity(40) }
    }
    pub fn add(&mut self, key: Pubkey, owner: Pubkey, len: usize) -> usize {
        self.add_room(key, owner, len, len)
    }
    /// an account that may grow up to `room` bytes
    pub fn add_room(&mut self, key: Pubkey, owner: Pubkey, len: usize, room: usize) -> usize {
        self.accs.push(Acc { _pad: 0, orig_len: len as u32, key, owner, lamports: 1_000_000_000, data: zeroed(room), len, exec: false });
        self.accs.len() - 1
    }
    /// an account without data, owned by the system program
    pub fn plain(&mut self, key: Pubkey) -> usize {
        self.add(key, anchor_lang::solana_program::system_program::ID, 0)
    }
    pub fn program(&mut self, key: Pubkey) -> usize {
        let i = self.add(key, anchor_lang::solana_program::bpf_loader::ID, 0);
        self.accs[i].exec = true;
        i
    }
    pub fn zero_copy<T: bytemuck::Pod + Discriminator>(&mut self, key: Pubkey) -> usize {
        let i = self.add(key, openbook_v2::ID, 8 + std::mem::size_of::<T>());
        self.bytes(i)[..8].copy_from_slice(&T::DISCRIMINATOR);
        i
    }
    pub fn token(&mut self, key: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) -> usize {
        let i = self.add(key, anchor_spl::token::ID, TOKEN_LEN);
        let d = self.bytes(i);
        d[0..32].copy_from_slice(mint.as_ref());
        d[32..64].copy_from_slice(owner.as_ref());
        d[64..72].copy_from_slice(&amount.to_le_bytes());
        d[108] = 1; // initialized
        i
    }
    pub fn mint(&mut self, key: Pubkey, decimals: u8) -> usize {
        let i = self.add(key, anchor_spl::token::ID, 82);
        let d = self.bytes(i);
        d[44] = decimals;
        d[45] = 1;
        i
    }
    pub fn bytes(&self, i: usize) -> &'static mut [u8] {
        let a = &self.accs[i];
        unsafe { std::slice::from_raw_parts_mut(a.data, a.len) }
    }
    pub fn get<T: bytemuck::Pod>(&self, i: usize) -> &'static mut T {
        bytemuck::from_bytes_mut(&mut self.bytes(i)[8..])
    }
    pub fn amount(&self, i: usize) -> u64 {
        get_amount(self.bytes(i))
    }
    pub fn set_amount(&self, i: usize, v: u64) {
        self.bytes(i)[64..72].copy_from_slice(&v.to_le_bytes())
    }
    pub fn index(&self, key: Pubkey) -> usize {
        self.accs.iter().position(|a| a.key == key).unwrap()
    }

    /// Run one instruction. An error means the runtime rolls everything back; the caller must not
    /// look at the accounts afterwards.
    pub fn run(&mut self, data: &[u8], metas: &[Meta]) -> std::result::Result<(), ProgramError> {
        let mut infos: Vec<AccountInfo<'static>> = Vec::with_capacity(metas.len());
        for (n, m) in metas.iter().enumerate() {
            // an account named twice is one account
            if let Some(p) = metas[..n].iter().position(|q| q.acc == m.acc) {
                let mut c = infos[p].clone();
                c.is_signer |= m.signer;
                c.is_writable |= m.writable;
                infos.push(c);
                continue;
            }
            let a: &'static mut Acc = unsafe { &mut *(&mut self.accs[m.acc] as *mut Acc) };
            a.orig_len = a.len as u32;
            let d: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(a.data, a.len) };
            infos.push(AccountInfo::new(&a.key, m.signer, m.writable, &mut a.lamports, d, &a.owner, a.exec, 0));
        }
        let infos: &'static [AccountInfo<'static>] = Box::leak(infos.into_boxed_slice());
        let r = openbook_v2::entry(&openbook_v2::ID, infos, data);
        for (m, i) in metas.iter().zip(infos) {
            if let Ok(n) = i.try_data_len() {
                self.accs[m.acc].len = n;
            }
        }
        r
    }
}

pub fn ro(acc: usize) -> Meta {
    Meta { acc, signer: false, writable: false }
}
pub fn rw(acc: usize) -> Meta {
    Meta { acc, signer: false, writable: true }
}
pub fn sg(acc: usize) -> Meta {
    Meta { acc, signer: true, writable: false }
}
pub fn sgw(acc: usize) -> Meta {
    Meta { acc, signer: true, writable: true }
}

/// A market with its book, queue, vaults and one user
pub struct Mk {
    pub w: World,
    pub market: usize,
    pub bids: usize,
    pub asks: usize,
    pub heap: usize,
    pub base_vault: usize,
    pub quote_vault: usize,
    pub authority: usize,
    pub owner: usize,
    pub ooa: usize,
    pub user_base: usize,
    pub user_quote: usize,
    pub token_program: usize,
    pub system_program: usize,
    /// stands for an absent optional account
    pub none: usize,
    pub payer: usize,
    pub oracle_a: Option<usize>,
    pub oracle_b: Option<usize>,
    pub makers: Vec<usize>,
    pub referrer: Option<usize>,
}

impl Mk {
    pub fn new() -> Mk {
        let mut w = World::new();
        let none = w.program(openbook_v2::ID);
        let token_program = w.program(anchor_spl::token::ID);
        let system_program = w.program(anchor_lang::solana_program::system_program::ID);
        let market = w.zero_copy::<Market>(K_MARKET);
        let bids = w.zero_copy::<BookSide>(K_BIDS);
        let asks = w.zero_copy::<BookSide>(K_ASKS);
        let heap = w.zero_copy::<EventHeap>(K_HEAP);
        let authority = w.plain(K_AUTHORITY);
        let base_vault = w.token(K_BASE_VAULT, K_BASE_MINT, K_AUTHORITY, 0);
        let quote_vault = w.token(K_QUOTE_VAULT, K_QUOTE_MINT, K_AUTHORITY, 0);
        let owner = w.plain(K_OWNER);
        let user_base = w.token(K_USER_BASE, K_BASE_MINT, K_OWNER, 0);
        let user_quote = w.token(K_USER_QUOTE, K_QUOTE_MINT, K_OWNER, 0);
        let payer = w.plain(K_PAYER);
        let mut mk = Mk {
            w,
            market,
            bids,
            asks,
            heap,
            base_vault,
            quote_vault,
            authority,
            owner,
            ooa: 0,
            user_base,
            user_quote,
            token_program,
            system_program,
            none,
            payer,
            oracle_a: None,
            oracle_b: None,
            makers: vec![],
            referrer: None,
        };
        mk.ooa = mk.new_ooa(K_OOA, K_OWNER);
        let m = mk.mkt();
        m.bump = BUMP;
        m.base_decimals = 6;
        m.quote_decimals = 6;
        m.market_authority = K_AUTHORITY;
        m.collect_fee_admin = K_COLLECT;
        m.bids = K_BIDS;
        m.asks = K_ASKS;
        m.event_heap = K_HEAP;
        m.quote_lot_size = 1;
        m.base_lot_size = 1;
        m.base_mint = K_BASE_MINT;
        m.quote_mint = K_QUOTE_MINT;
        m.market_base_vault = K_BASE_VAULT;
        m.market_quote_vault = K_QUOTE_VAULT;
        mk.bids().nodes.order_tree_type = OrderTreeType::Bids.into();
        mk.asks().nodes.order_tree_type = OrderTreeType::Asks.into();
        mk.heap().init();
        unsafe {
            MARKET_SEEDS = Some((K_MARKET, BUMP));
            AUTHORITY = Some(K_AUTHORITY);
        }
        mk
    }
    pub fn new_ooa(&mut self, key: Pubkey, owner: Pubkey) -> usize {
        let i = self.w.zero_copy::<OpenOrdersAccount>(key);
        let a: &mut OpenOrdersAccount = self.w.get(i);
        a.owner = owner;
        a.market = K_MARKET;
        a.version = 1;
        for o in a.open_orders.iter_mut() {
            o.is_free = 1;
        }
        i
    }
    pub fn add_maker(&mut self, key: Pubkey) -> usize {
        let i = self.new_ooa(key, K_MAKER_OWNER);
        self.makers.push(i);
        i
    }
    pub fn mkt(&self) -> &'static mut Market {
        self.w.get(self.market)
    }
    pub fn bids(&self) -> &'static mut BookSide {
        self.w.get(self.bids)
    }
    pub fn asks(&self) -> &'static mut BookSide {
        self.w.get(self.asks)
    }
    pub fn side(&self, s: Side) -> &'static mut BookSide {
        match s {
            Side::Bid => self.bids(),
            Side::Ask => self.asks(),
        }
    }
    pub fn heap(&self) -> &'static mut EventHeap {
        self.w.get(self.heap)
    }
    pub fn oo(&self, i: usize) -> &'static mut OpenOrdersAccount {
        self.w.get(i)
    }
    pub fn me(&self) -> &'static mut OpenOrdersAccount {
        self.w.get(self.ooa)
    }
    fn opt(&self, i: Option<usize>) -> Meta {
        ro(i.unwrap_or(self.none))
    }
    /// a stub oracle at `price` quote native per base native
    pub fn with_oracle(&mut self, price: f64) {
        let i = self.w.zero_copy::<StubOracle>(K_ORACLE_A);
        self.w.get::<StubOracle>(i).price = price;
        self.oracle_a = Some(i);
        let m = self.mkt();
        m.oracle_a = NonZeroPubkeyOption::from(Some(K_ORACLE_A));
        m.oracle_config.conf_filter = 0.1;
        m.oracle_config.max_staleness_slots = -1;
    }

    // ---- account lists ----
    pub fn m_place_order(&self, side: Side, admin: Option<usize>) -> Vec<Meta> {
        let (u, v) = match side {
            Side::Bid => (self.user_quote, self.quote_vault),
            Side::Ask => (self.user_base, self.base_vault),
        };
        let mut l = vec![
            sg(self.owner),
            rw(self.ooa),
            Meta { acc: admin.unwrap_or(self.none), signer: admin.is_some(), writable: false },
            rw(u),
            rw(self.market),
            rw(self.bids),
            rw(self.asks),
            rw(self.heap),
            rw(v),
            self.opt(self.oracle_a),
            self.opt(self.oracle_b),
            ro(self.token_program),
        ];
        l.reserve(8);
        l
    }
    pub fn m_multi(&self) -> Vec<Meta> {
        vec![
            sg(self.owner),
            rw(self.ooa),
            ro(self.none),
            rw(self.user_quote),
            rw(self.user_base),
            rw(self.market),
            rw(self.bids),
            rw(self.asks),
            rw(self.heap),
            rw(self.quote_vault),
            rw(self.base_vault),
            self.opt(self.oracle_a),
            self.opt(self.oracle_b),
            ro(self.token_program),
        ]
    }
    pub fn m_take(&self) -> Vec<Meta> {
        vec![
            sgw(self.owner),
            sgw(self.payer),
            rw(self.market),
            ro(self.authority),
            rw(self.bids),
            rw(self.asks),
            rw(self.base_vault),
            rw(self.quote_vault),
            rw(self.heap),
            rw(self.user_base),
            rw(self.user_quote),
            self.opt(self.oracle_a),
            self.opt(self.oracle_b),
            ro(self.token_program),
            ro(self.system_program),
            ro(self.none),
        ]
    }
    pub fn m_consume(&self) -> Vec<Meta> {
        vec![ro(self.none), rw(self.market), rw(self.heap)]
    }
    pub fn m_cancel(&self) -> Vec<Meta> {
        vec![sg(self.owner), rw(self.ooa), ro(self.market), rw(self.bids), rw(self.asks)]
    }
    pub fn m_deposit(&self) -> Vec<Meta> {
        vec![
            sg(self.owner),
            rw(self.user_base),
            rw(self.user_quote),
            rw(self.ooa),
            rw(self.market),
            rw(self.base_vault),
            rw(self.quote_vault),
            ro(self.token_program),
        ]
    }
    pub fn m_settle(&self) -> Vec<Meta> {
        vec![
            sg(self.owner),
            sgw(self.payer),
            rw(self.ooa),
            rw(self.market),
            ro(self.authority),
            rw(self.base_vault),
            rw(self.quote_vault),
            rw(self.user_base),
            rw(self.user_quote),
            rw(self.referrer.unwrap_or(self.none)),
            ro(self.token_program),
            ro(self.system_program),
        ]
    }
}

/// instruction bytes: 8-byte selector followed by the borsh-encoded arguments
pub struct Ix(pub Vec<u8>);
impl Ix {
    pub fn new(sel: [u8; 8]) -> Ix {
        let mut v = Vec::with_capacity(256);
        v.extend_from_slice(&sel);
        Ix(v)
    }
    pub fn u8(mut self, v: u8) -> Ix {
        self.0.push(v);
        self
    }
    pub fn u32(mut self, v: u32) -> Ix {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Ix {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i64(self, v: i64) -> Ix {
        self.u64(v as u64)
    }
    pub fn u128(mut self, v: u128) -> Ix {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
}

/// instruction selectors (sha256 of "global:<name>")
pub mod sel {
    pub const CREATE_MARKET: [u8; 8] = [103, 226, 97, 235, 200, 188, 251, 254];
    pub const CLOSE_MARKET: [u8; 8] = [88, 154, 248, 186, 48, 14, 123, 244];
    pub const CREATE_OPEN_ORDERS_INDEXER: [u8; 8] = [64, 64, 153, 255, 217, 71, 249, 133];
    pub const CLOSE_OPEN_ORDERS_INDEXER: [u8; 8] = [103, 249, 229, 231, 247, 253, 197, 136];
    pub const CREATE_OPEN_ORDERS_ACCOUNT: [u8; 8] = [204, 181, 175, 222, 40, 125, 188, 71];
    pub const CLOSE_OPEN_ORDERS_ACCOUNT: [u8; 8] = [176, 74, 115, 210, 54, 179, 91, 103];
    pub const PLACE_ORDER: [u8; 8] = [51, 194, 155, 175, 109, 130, 96, 106];
    pub const EDIT_ORDER: [u8; 8] = [254, 208, 118, 29, 173, 248, 200, 70];
    pub const EDIT_ORDER_PEGGED: [u8; 8] = [62, 187, 125, 69, 26, 221, 157, 133];
    pub const PLACE_ORDERS: [u8; 8] = [60, 63, 50, 123, 12, 197, 60, 190];
    pub const CANCEL_ALL_AND_PLACE_ORDERS: [u8; 8] = [128, 155, 222, 60, 186, 40, 225, 50];
    pub const PLACE_ORDER_PEGGED: [u8; 8] = [141, 185, 251, 63, 74, 85, 210, 145];
    pub const PLACE_TAKE_ORDER: [u8; 8] = [3, 44, 71, 3, 26, 199, 203, 85];
    pub const CONSUME_EVENTS: [u8; 8] = [221, 145, 177, 52, 31, 47, 63, 201];
    pub const CONSUME_GIVEN_EVENTS: [u8; 8] = [209, 227, 54, 4, 109, 172, 41, 71];
    pub const CANCEL_ORDER: [u8; 8] = [95, 129, 237, 240, 8, 49, 223, 132];
    pub const CANCEL_ORDER_BY_CLIENT_ORDER_ID: [u8; 8] = [115, 178, 201, 8, 175, 183, 123, 119];
    pub const CANCEL_ALL_ORDERS: [u8; 8] = [196, 83, 243, 171, 17, 100, 160, 143];
    pub const DEPOSIT: [u8; 8] = [242, 35, 198, 137, 82, 225, 242, 182];
    pub const REFILL: [u8; 8] = [128, 207, 142, 11, 54, 232, 38, 201];
    pub const SETTLE_FUNDS: [u8; 8] = [238, 64, 163, 96, 75, 171, 16, 33];
    pub const SETTLE_FUNDS_EXPIRED: [u8; 8] = [107, 18, 56, 69, 228, 56, 55, 164];
    pub const SWEEP_FEES: [u8; 8] = [175, 225, 98, 71, 118, 66, 34, 148];
    pub const SET_DELEGATE: [u8; 8] = [242, 30, 46, 76, 108, 235, 128, 181];
    pub const SET_MARKET_EXPIRED: [u8; 8] = [219, 82, 219, 236, 60, 115, 197, 64];
    pub const PRUNE_ORDERS: [u8; 8] = [27, 213, 159, 191, 12, 116, 112, 121];
    pub const STUB_ORACLE_CREATE: [u8; 8] = [172, 63, 101, 83, 141, 76, 199, 216];
    pub const STUB_ORACLE_CLOSE: [u8; 8] = [92, 137, 45, 3, 45, 60, 117, 224];
    pub const STUB_ORACLE_SET: [u8; 8] = [109, 198, 79, 121, 65, 202, 161, 142];
}
