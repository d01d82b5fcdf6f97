//! A model of the wormhole core bridge: it records the posted message.
use crate::env::*;
use anchor_lang::solana_program::entrypoint::ProgramResult;
pub use wormhole_anchor_sdk::wormhole::BridgeData;

pub const CORE: Pubkey = wormhole_anchor_sdk::wormhole::program::ID;
pub const MAXP: usize = 256;

pub struct Posted {
    pub count: u8,
    pub len: usize,
    pub words: [u128; MAXP / 16],
    pub message: Pubkey,
    pub emitter: Pubkey,
    pub emitter_pda: bool,
    pub finality: u8,
    pub batch: u32,
    pub paid: u64,
}
pub static mut POSTED: Posted = Posted {
    count: 0, len: 0, words: [0; MAXP / 16], message: SYS, emitter: SYS, emitter_pda: false, finality: 0, batch: 0, paid: 0,
};
/// What the bridge's accounts hold: the fee it asks for, and the fee collector's balance before.
pub static mut BRIDGE: Option<(Pubkey, u64, u64)> = None;

pub fn any_bridge() -> BridgeData {
    let mut b = BridgeData::default();
    b.guardian_set_index = nd_u32();
    b.last_lamports = nd_u64();
    b.config.fee = nd_u64();
    b
}

pub fn post_hook(c: &PostCall) -> ProgramResult {
    let by = |k: &Pubkey| {
        let mut ok = false;
        let mut i = 0;
        while i < 2 {
            if let Some(p) = &c.pdas[i] {
                ok |= *p == *k;
            }
            i += 1;
        }
        ok
    };
    if *c.program != CORE
        || !(c.message.is_signer || by(c.message.key))
        || !(c.emitter.is_signer || by(c.emitter.key))
        || !c.payer.is_signer
        || !c.config.is_writable || !c.message.is_writable || !c.sequence.is_writable || !c.payer.is_writable || !c.fee_collector.is_writable
    {
        tx_abort(8201);
    }
    unsafe {
        // the bridge only takes its own configuration account, and wants its fee
        if let Some((k, fee, before)) = BRIDGE {
            if *c.config.key != k || c.fee_collector.lamports().wrapping_sub(before) < fee {
                tx_abort(8202);
            }
            POSTED.paid = c.fee_collector.lamports().wrapping_sub(before);
        }
        POSTED.count += 1;
        if c.payload.len() > MAXP {
            model_limit();
        }
        POSTED.len = c.payload.len();
        let p = POSTED.words.as_mut_ptr() as *mut u8;
        core::ptr::copy_nonoverlapping(c.payload.as_ptr(), p, c.payload.len());
        POSTED.message = *c.message.key;
        POSTED.emitter = *c.emitter.key;
        POSTED.emitter_pda = by(c.emitter.key);
        POSTED.finality = c.finality;
        POSTED.batch = c.batch;
    }
    Ok(())
}

/// Is the posted payload these bytes?
pub fn posted_is(want: &[u8]) -> bool {
    let mut w = [0u128; MAXP / 16];
    unsafe {
        core::ptr::copy_nonoverlapping(want.as_ptr(), w.as_mut_ptr() as *mut u8, want.len());
        let mut ok = POSTED.len == want.len();
        let n = (want.len() + 15) / 16;
        let mut i = 0;
        while i < n {
            ok &= POSTED.words[i] == w[i];
            i += 1;
        }
        ok
    }
}
