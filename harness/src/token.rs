//! Cross-program invocations: a model of the SPL token programs over the harness's accounts, and a
//! record of the other programs' calls.
use crate::env::*;
use anchor_lang::prelude::AccountMeta;
use anchor_lang::solana_program::{entrypoint::ProgramResult, instruction::Instruction};
pub use anchor_spl::token_interface::{Mint as MintAcc, TokenAccount as TokAcc};
pub use anchor_spl::token_2022::spl_token_2022::state::{Account as RawTok, AccountState, Mint as RawMint};
use anchor_lang::solana_program::program_option::COption;

/// The slot types wrap these in a private field; they have the same layout.
pub fn raw_tok(t: &mut TokAcc) -> &'static mut RawTok {
    unsafe { &mut *(t as *mut TokAcc as *mut RawTok) }
}
pub fn raw_mint(t: &mut MintAcc) -> &'static mut RawMint {
    unsafe { &mut *(t as *mut MintAcc as *mut RawMint) }
}

pub const TOKEN: Pubkey = anchor_spl::token::ID;
pub const TOKEN22: Pubkey = anchor_spl::token_2022::ID;

fn nd_copt() -> COption<Pubkey> {
    if nd_bool() { COption::Some(nd_key()) } else { COption::None }
}
pub fn any_tok() -> TokAcc {
    let r = RawTok {
        mint: nd_key(),
        owner: nd_key(),
        amount: nd_u64(),
        delegate: nd_copt(),
        state: if nd_bool() { AccountState::Frozen } else { AccountState::Initialized },
        is_native: COption::None,
        delegated_amount: nd_u64(),
        close_authority: COption::None,
    };
    unsafe { core::mem::transmute(r) }
}
pub fn any_mint() -> MintAcc {
    let r = RawMint {
        mint_authority: nd_copt(),
        supply: nd_u64(),
        decimals: nd_u8(),
        is_initialized: true,
        freeze_authority: COption::None,
    };
    unsafe { core::mem::transmute(r) }
}

/// Token accounts and the mint of the transaction.
#[derive(Clone, Copy)]
pub struct Led {
    pub key: Pubkey,
    pub program: Pubkey,
    pub acc: *mut RawTok,
}
pub static mut TOKS: [Option<Led>; 3] = [None; 3];
pub static mut MINT: Option<(Pubkey, Pubkey, *mut RawMint)> = None;
/// Fee withheld by a transfer of a token with a transfer fee.
pub static mut FEE: u64 = 0;
pub static mut CALLS: u8 = 0;

pub fn set_tok(i: usize, a: &Ac, t: &mut TokAcc) {
    unsafe { TOKS[i] = Some(Led { key: a.key, program: a.owner, acc: raw_tok(t) }) };
}
pub fn set_mint(a: &Ac, m: &mut MintAcc) {
    unsafe { MINT = Some((a.key, a.owner, raw_mint(m))) };
}

/// Privileges: the callee sees an account as a signer (or as writable) only if the caller does, or
/// signs for it with its seeds.
pub fn meta_ok(m: &AccountMeta, infos: &[AccountInfo], pda: &Option<Pubkey>, n: usize) -> bool {
    let mut i = 0;
    let mut ok = false;
    while i < n {
        if i < infos.len() {
            let x = &infos[i];
            if *x.key == m.pubkey {
                let by_seeds = match pda {
                    Some(k) => *k == *x.key,
                    None => false,
                };
                ok |= (!m.is_signer | x.is_signer | by_seeds) & (!m.is_writable | x.is_writable);
            }
        }
        i += 1;
    }
    ok
}

fn debit(prog: &Pubkey, k: &Pubkey, auth: &Pubkey, amount: u64) -> bool {
    let mut found = false;
    let mut i = 0;
    while i < 3 {
        if let Some(l) = unsafe { &TOKS[i] } {
            if l.key == *k && !found {
                let a = unsafe { &mut *l.acc };
                let own = a.owner == *auth;
                let del = match a.delegate {
                    COption::Some(d) => d == *auth && a.delegated_amount >= amount,
                    COption::None => false,
                };
                if l.program != *prog || a.state != AccountState::Initialized || a.amount < amount || !(own || del) {
                    tx_abort(8001);
                }
                a.amount -= amount;
                if !own {
                    a.delegated_amount -= amount;
                }
                found = true;
            }
        }
        i += 1;
    }
    found
}
fn credit(prog: &Pubkey, k: &Pubkey, amount: u64) -> bool {
    let mut found = false;
    let mut i = 0;
    while i < 3 {
        if let Some(l) = unsafe { &TOKS[i] } {
            if l.key == *k && !found {
                let a = unsafe { &mut *l.acc };
                if l.program != *prog || a.state != AccountState::Initialized || a.amount > u64::MAX - amount {
                    tx_abort(8002);
                }
                a.amount += amount;
                found = true;
            }
        }
        i += 1;
    }
    found
}
fn mint_of(k: &Pubkey, mint: &Pubkey) -> bool {
    let mut i = 0;
    let mut ok = false;
    while i < 3 {
        if let Some(l) = unsafe { &TOKS[i] } {
            ok |= l.key == *k && unsafe { (*l.acc).mint } == *mint;
        }
        i += 1;
    }
    ok
}

/// What the token programs do; an error of a called program ends the transaction.
pub fn token_hook(c: &TokenCall) -> ProgramResult {
    unsafe { CALLS += 1 };
    let p = c.program;
    if *p != TOKEN && *p != TOKEN22 || c.more > 0 {
        model_limit();
    }
    let by_seeds = match &c.pda {
        Some(k) => *k == *c.auth.key,
        None => false,
    };
    if !c.auth.is_signer && !by_seeds {
        tx_abort(8005);
    }
    let (mk, mp, mi) = unsafe { MINT.unwrap() };
    let mi = unsafe { &mut *mi };
    if let Some(m) = c.mint {
        if *m.key != mk || mp != *p || (c.op != 0 && !m.is_writable) {
            tx_abort(8006);
        }
    }
    if let Some(d) = c.decimals {
        if d != mi.decimals {
            tx_abort(8009);
        }
    }
    let fee = if c.op == 0 { unsafe { FEE } } else { 0 };
    if fee > c.amount {
        tx_abort(8010);
    }
    if let Some(s) = c.src {
        if !s.is_writable || !mint_of(s.key, &mk) || !debit(p, s.key, c.auth.key, c.amount) {
            tx_abort(8011);
        }
    }
    if let Some(d) = c.dst {
        if !d.is_writable || !mint_of(d.key, &mk) || !credit(p, d.key, c.amount - fee) {
            tx_abort(8012);
        }
    }
    if c.op == 1 {
        match mi.mint_authority {
            COption::Some(a) if a == *c.auth.key => {}
            _ => tx_abort(8013),
        }
        match mi.supply.checked_add(c.amount) {
            Some(s) => mi.supply = s,
            None => tx_abort(8014),
        }
    }
    if c.op == 2 {
        match mi.supply.checked_sub(c.amount) {
            Some(s) => mi.supply = s,
            None => tx_abort(8015),
        }
    }
    Ok(())
}
