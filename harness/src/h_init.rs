//! Initialisation of a manager.
use crate::env::*;
use crate::token::*;
use anchor_lang::prelude::ProgramData;
use anchor_lang::solana_program::{bpf_loader_upgradeable, entrypoint::ProgramResult, program_option::COption};
use ntt::bitmap::Bitmap;
use ntt::config::Config;
use ntt::queue::outbox::OutboxRateLimit;

const ATA: Pubkey = anchor_spl::associated_token::ID;

/// The associated token account program creates the account of the wallet for the mint, and nothing else.
fn ata_hook(c: &AtaCall) -> ProgramResult {
    let tp = *c.token_program.key;
    let e = find_pda(&[c.authority.key.as_ref(), tp.as_ref(), c.mint.key.as_ref()], &ATA).0;
    if *c.program != ATA || e != *c.account.key || *c.mint.owner != tp || !c.account.is_writable {
        tx_abort(8201);
    }
    if *c.account.owner != SYS || !c.payer.is_signer || !c.payer.is_writable {
        tx_abort(8202);
    }
    match slot(c.account.rent_epoch) {
        Some(s) => {
            s.fresh = false;
            s.disc_ok = true;
            let t = unsafe { &mut *(s.ptr as *mut RawTok) };
            t.mint = *c.mint.key;
            t.owner = *c.authority.key;
            t.amount = 0;
        }
        None => model_limit(),
    }
    c.account.assign(&tp);
    Ok(())
}

fn init(new: bool, custody_owner: Pubkey) {
    begin(ntt::ID);
    unsafe { ATA_HOOK = Some(ata_hook) };
    let now = unsafe { NOW };
    let mut b1 = core::mem::MaybeUninit::<anchor_lang::prelude::Account<'static, Config>>::uninit();
    let mut b2 = core::mem::MaybeUninit::<anchor_lang::prelude::InterfaceAccount<'static, MintAcc>>::uninit();
    place(&mut b1);
    place(&mut b2);
    let mut c = any_config();
    let mut pd = ProgramData { slot: nd_u64(), upgrade_authority_address: nd_opt_key() };
    let auth0 = pd.upgrade_authority_address;
    let mut m = any_mint();
    let minter = raw_mint(&mut m).mint_authority;
    let mut orl = OutboxRateLimit { rate_limit: any_rate() };
    let mut cu = any_tok();
    let (chain, limit, burning) = (nd_u16(), nd_u64(), nd_u8());
    let mut ix = [0u8; 11];
    let mut i = 0;
    put(&mut ix, &mut i, chain.to_le_bytes());
    put(&mut ix, &mut i, limit.to_le_bytes());
    put(&mut ix, &mut i, [burning]);

    let mut payer = Ac::any();
    let mut deployer = Ac::any();
    // nobody has the key of the all-zero address
    assume(deployer.key != SYS || !deployer.signer);
    let mut data = Ac::typed(&mut pd);
    let mut cfg = Ac::maybe_new(&mut c, new);
    let mut mint = Ac::typed(&mut m);
    let mut orla = Ac::maybe_new(&mut orl, new);
    let mut auth = Ac::any();
    let mut custody = Ac::typed(&mut cu);
    custody.owner = custody_owner;
    if custody_owner == SYS {
        custody.slot = register(&mut cu as *mut TokAcc, true, false);
    }
    let mut tp = Ac::any();
    let mut ata = Ac::any();
    let mut loader = Ac::any();
    let mut sys = Ac::any();
    let e_cfg = find_pda(&[b"config"], &ntt::ID);
    let e_orl = find_pda(&[b"outbox_rate_limit"], &ntt::ID);
    let e_auth = find_pda(&[b"token_authority"], &ntt::ID).0;
    let e_data = find_pda(&[ntt::ID.as_ref()], &bpf_loader_upgradeable::ID).0;
    let e_cus = find_pda(&[e_auth.as_ref(), tp.key.as_ref(), mint.key.as_ref()], &ATA).0;
    let (mut d1, mut d2) = ([0u8; 256], [0u8; 32]);
    let accs = [
        payer.info(), deployer.info(), data.info(), if new { cfg.info() } else { cfg.info_data(&mut d1) }, mint.info(),
        if new { orla.info() } else { orla.info_data(&mut d2) }, auth.info(), custody.info(), tp.info(), ata.info(), loader.info(), sys.info(),
    ];
    let r = ntt::__private::__global::initialize(&ntt::ID, sr(&accs[..]), &ix);
    if !new {
        vassert!("C19/once", r.is_err());
        return;
    }
    if r.is_ok() {
        vassert!("C19/by-the-deployer", deployer.signer && auth0 == Some(deployer.key));
        vassert!("C19/of-this-program", data.key == e_data && data.owner == bpf_loader_upgradeable::ID);
        vassert!("C19/own-accounts", cfg.key == e_cfg.0 && cfg.owner == ntt::ID && orla.key == e_orl.0 && orla.owner == ntt::ID);
        vassert!("C19/mode-known", burning < 2);
        let mode = if burning == 1 { Mode::Burning } else { Mode::Locking };
        let want = Config {
            bump: e_cfg.1,
            owner: deployer.key,
            pending_owner: None,
            mint: mint.key,
            token_program: tp.key,
            mode,
            chain_id: ChainId { id: chain },
            next_transceiver_id: 0,
            threshold: 1,
            enabled_transceivers: Bitmap::from_value(0),
            paused: false,
            custody: e_cus,
        };
        vassert!("C19/safe-start", cfg_eq(&c, &want));
        vassert!("C19/custody", custody.key == e_cus && custody.owner == tp.key && raw_tok(&mut cu).owner == e_auth && raw_tok(&mut cu).mint == mint.key);
        vassert!("C19/token-program", (tp.key == TOKEN) | (tp.key == TOKEN22));
        let held = match minter {
            COption::Some(k) => k == e_auth,
            COption::None => false,
        };
        vassert!("C19/can-mint-in-burning-mode", burning != 1 || held);
        let l = &orl.rate_limit;
        vassert!("C19/full-limit", l.limit == limit && l.capacity_at_last_tx == limit && l.last_tx_timestamp <= now);
        vcover!("ok", burning == 1);
        vcover!("locking", burning == 0 && !held);
        c.pending_owner = Some(SYS);
        vassert!("C22/config-fits", fits(&c, accs[3].data_len()) && fits(&orl, accs[5].data_len()));
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn initialize() {
    init(true, TOKEN)
}
#[cfg_attr(kani, kani::proof)]
pub fn initialize_custody() {
    init(true, SYS)
}
#[cfg_attr(kani, kani::proof)]
pub fn initialize_again() {
    init(false, TOKEN)
}
#[cfg_attr(kani, kani::proof)]
pub fn initialize22() {
    init(true, TOKEN22)
}
#[cfg_attr(kani, kani::proof)]
pub fn initialize_foreign() {
    init(true, Pubkey::new_from_array([7; 32]))
}
