//! The manager's address lookup table.
use crate::env::*;
use crate::post::*;
use anchor_lang::solana_program::{address_lookup_table::program::ID as LUT_PROGRAM, entrypoint::ProgramResult, instruction::Instruction, sysvar};
use ntt::instructions::LUT;
use ntt::queue::outbox::OutboxRateLimit;

/// The lookup table program: only a table's authority extends it.
fn hook(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    if ix.program_id != LUT_PROGRAM || ix.data.len() != 1 || ix.data[0] >= 3 {
        tx_abort(8301);
    }
    let c = unsafe { &mut LUT_CALLS[ix.data[0] as usize] };
    let by = seed_signer(seeds);
    let mut i = 0;
    let (mut table, mut auth, mut payer) = (false, false, false);
    while i < infos.len() {
        let a = &infos[i];
        let signs = a.is_signer || by == Some(*a.key);
        table |= (*a.key == c.table) & a.is_writable;
        auth |= (*a.key == c.authority) & (signs | !c.extend);
        payer |= (c.payer == Some(*a.key)) & signs & a.is_writable;
        i += 1;
    }
    if !table || !auth || !payer {
        tx_abort(8302);
    }
    c.done = true;
    Ok(())
}

fn lut(new: bool) {
    begin(ntt::ID);
    unsafe { INVOKE_HOOK = Some(hook) };
    let mut list = InfoList::new();
    list.place();
    let mut c = any_config();
    let pre = c.clone();
    let mut l = LUT { bump: nd_u8(), address: nd_key() };
    let mut orl = OutboxRateLimit { rate_limit: any_rate() };
    let mut b = any_bridge();
    let slot = nd_u64();

    let mut payer = Ac::any();
    let mut auth = Ac::any();
    let mut table = Ac::any();
    let mut rec = Ac::maybe_new(&mut l, new);
    let mut prog = Ac::any();
    let mut sys = Ac::any();
    let mut cfg = Ac::typed(&mut c);
    let mut custody = Ac::any();
    let mut tp = Ac::any();
    let mut mint = Ac::any();
    let mut ta = Ac::any();
    let mut orla = Ac::typed(&mut orl);
    let mut bridge = Ac::typed(&mut b);
    let mut fc = Ac::any();
    let mut seq = Ac::any();
    let mut wh = Ac::any();
    let mut sys2 = Ac::any();
    let mut clock = Ac::any();
    let mut rent = Ac::any();
    let e_auth = find_pda(&[b"lut_authority"], &ntt::ID).0;
    let e_table = find_pda(&[e_auth.as_ref(), &slot.to_le_bytes()], &LUT_PROGRAM).0;
    let e_rec = find_pda(&[b"lut"], &ntt::ID);
    let e_ta = find_pda(&[b"token_authority"], &ntt::ID).0;
    let mut d1 = [0u8; 8 + <LUT as anchor_lang::Space>::INIT_SPACE];
    let accs = [
        payer.info(), auth.info(), table.info(), if new { rec.info() } else { rec.info_data(&mut d1) }, prog.info(), sys.info(), cfg.info(), custody.info(),
        tp.info(), mint.info(), ta.info(), orla.info(), bridge.info(), fc.info(), seq.info(), wh.info(), sys2.info(), clock.info(), rent.info(),
    ];
    let r = ntt::__private::__global::initialize_lut(&ntt::ID, sr(&accs[..]), &slot.to_le_bytes());
    if r.is_ok() {
        vassert!("C25/recorded-at-its-place", rec.key == e_rec.0 && rec.owner == ntt::ID && l.bump == e_rec.1);
        vassert!("C25/recorded-table", l.address == e_table);
        vassert!("C25/fits", fits(&l, accs[3].data_len()));
        vassert!("C25/configuration-unchanged", cfg_eq(&c, &pre));
        // the accounts of this manager
        let want = [
            ntt::ID, cfg.key, pre.custody, pre.token_program, pre.mint, e_ta, orla.key, bridge.key, fc.key, seq.key, CORE, SYS, sysvar::clock::ID, sysvar::rent::ID,
        ];
        vassert!("C25/own-state", cfg.owner == ntt::ID && orla.owner == ntt::ID && bridge.owner == CORE);
        let n = unsafe { NLUT };
        let (mut created, mut extended) = (0u8, 0u8);
        let mut i = 0;
        while i < 3 {
            let k = unsafe { &LUT_CALLS[i] };
            if i < n && k.done {
                vassert!("C25/of-the-own-authority", k.authority == e_auth && k.table == e_table && k.payer == Some(payer.key));
                if k.extend {
                    extended += 1;
                    vassert!("C25/after-creation", created == 1);
                    let mut all = k.n == want.len();
                    let mut j = 0;
                    while j < want.len() {
                        let mut listed = false;
                        let mut m = 0;
                        while m < want.len() {
                            listed |= k.entries[m] == want[j];
                            m += 1;
                        }
                        all &= listed;
                        j += 1;
                    }
                    vassert!("C25/exactly-the-managers-accounts", all);
                } else {
                    created += 1;
                    vassert!("C25/at-the-given-slot", k.slot == slot);
                }
            }
            i += 1;
        }
        vassert!("C25/created-and-filled", created == 1 && extended == 1);
        vassert!("C25/paid-by-the-caller", payer.signer);
        vcover!("lut", true);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn lut_new() {
    lut(true)
}
#[cfg_attr(kani, kani::proof)]
pub fn lut_again() {
    lut(false)
}
