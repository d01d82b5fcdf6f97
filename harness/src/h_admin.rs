//! Administration: only the owner, exactly the stated effect, and the ownership handover.
use crate::env::*;
use crate::token::*;
use anchor_lang::prelude::ProgramData;
use anchor_lang::solana_program::{bpf_loader_upgradeable, entrypoint::ProgramResult};
use ntt::config::Config;
use ntt::instructions::*;
use ntt::peer::NttManagerPeer;
use ntt::queue::inbox::InboxRateLimit;
use ntt::queue::outbox::OutboxRateLimit;
use ntt::queue::rate_limit::RateLimitState;
use ntt::registered_transceiver::RegisteredTransceiver;

macro_rules! by_owner {
    ($owner:expr, $cfg:expr, $pre:expr) => {
        vassert!("C09/owner-signed", $owner.signer);
        vassert!("C09/is-the-owner", $owner.key == $pre.owner);
        vassert!("C09/config-of-this-program", $cfg.owner == ntt::ID);
    };
}

#[cfg_attr(kani, kani::proof)]
pub fn set_paused() {
    begin(ntt::ID);
    let mut c = any_config();
    let pre = c.clone();
    let mut cfg = Ac::typed(&mut c);
    let mut owner = Ac::any();
    let p = nd_bool();
    let accs = [owner.info(), cfg.info()];
    let r = ntt::__private::__global::set_paused(&ntt::ID, sr(&accs[..]), &[p as u8]);
    if r.is_ok() {
        by_owner!(owner, cfg, pre);
        let mut want = pre.clone();
        want.paused = p;
        vassert!("C09/set-paused-effect", cfg_eq(&c, &want));
        vassert!("C13/set-paused-takes-effect", c.paused == p);
        vcover!("ok", p);
        vcover!("unpaused", pre.paused && !p);
    }
}

// ------------------------------------------------------------------------------------------------
// ownership
// ------------------------------------------------------------------------------------------------

/// The upgrade authority of the program as the loader keeps it.
static mut AUTHORITY: Option<Pubkey> = None;
static mut DATA_KEY: Pubkey = SYS;
fn upgrade_hook(c: &UpgradeCall) -> ProgramResult {
    let seeds = |k: &Pubkey| match &c.pda {
        Some(p) => *p == *k,
        None => false,
    };
    unsafe {
        if *c.program != bpf_loader_upgradeable::ID || *c.of != ntt::ID || *c.data.key != DATA_KEY || !c.data.is_writable {
            tx_abort(8101);
        }
        let cur = match AUTHORITY {
            Some(a) => a == *c.current.key,
            None => false,
        };
        if !cur || !(c.current.is_signer || seeds(c.current.key)) {
            tx_abort(8102);
        }
        match c.new {
            Some(n) => {
                if c.checked && !(n.is_signer || seeds(n.key)) {
                    tx_abort(8103);
                }
                AUTHORITY = Some(*n.key);
            }
            None => AUTHORITY = None,
        }
    }
    Ok(())
}

fn ownership(op: u8) {
    begin(ntt::ID);
    let mut c = any_config();
    let pre = c.clone();
    let mut pd = ProgramData { slot: nd_u64(), upgrade_authority_address: nd_opt_key() };
    let auth0 = pd.upgrade_authority_address;
    let mut cfg = Ac::typed(&mut c);
    let mut owner = Ac::any();
    let mut new_owner = Ac::any();
    let mut lock = Ac::any();
    let mut data = Ac::typed(&mut pd);
    let mut loader = Ac::any();
    let e_lock = find_pda(&[b"upgrade_lock"], &ntt::ID).0;
    unsafe {
        UPGRADE_HOOK = Some(upgrade_hook);
        AUTHORITY = auth0;
        DATA_KEY = find_pda(&[ntt::ID.as_ref()], &bpf_loader_upgradeable::ID).0;
    }
    let r = if op == 2 {
        let accs = [cfg.info(), lock.info(), new_owner.info(), data.info(), loader.info()];
        ntt::__private::__global::claim_ownership(&ntt::ID, sr(&accs[..]), &[])
    } else {
        let accs = [cfg.info(), owner.info(), new_owner.info(), lock.info(), data.info(), loader.info()];
        if op == 0 {
            ntt::__private::__global::transfer_ownership(&ntt::ID, sr(&accs[..]), &[])
        } else {
            ntt::__private::__global::transfer_ownership_one_step_unchecked(&ntt::ID, sr(&accs[..]), &[])
        }
    };
    if r.is_ok() {
        let auth = unsafe { AUTHORITY };
        let mut want = pre.clone();
        vassert!("C10/config-of-this-program", cfg.owner == ntt::ID);
        if op == 0 {
            by_owner!(owner, cfg, pre);
            want.pending_owner = Some(new_owner.key);
            vassert!("C10/authority-locked", auth == Some(e_lock));
            vassert!("C10/owner-held-the-authority", auth0 == Some(owner.key));
        } else if op == 1 {
            by_owner!(owner, cfg, pre);
            want.owner = new_owner.key;
            want.pending_owner = None;
            vassert!("C10/authority-handed-over", auth == Some(new_owner.key));
        } else {
            vassert!("C10/claimed-by-signer", new_owner.signer);
            vassert!("C10/claimed-by-pending-or-owner", new_owner.key == pre.owner || pre.pending_owner == Some(new_owner.key));
            want.owner = new_owner.key;
            want.pending_owner = None;
            vassert!("C10/authority-claimed", auth == Some(new_owner.key));
            vassert!("C10/authority-was-locked", auth0 == Some(e_lock));
            vcover!("cancelled", new_owner.key == pre.owner && pre.pending_owner.is_some());
        }
        vassert!("C10/ownership-effect", cfg_eq(&c, &want));
        vcover!("ok", new_owner.key != pre.owner);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn transfer_ownership() {
    ownership(0)
}
#[cfg_attr(kani, kani::proof)]
pub fn transfer_ownership_one_step() {
    ownership(1)
}
#[cfg_attr(kani, kani::proof)]
pub fn claim_ownership() {
    ownership(2)
}

// ------------------------------------------------------------------------------------------------
// peers, transceivers, limits
// ------------------------------------------------------------------------------------------------

fn peer(fresh: bool) {
    begin(ntt::ID);
    let now = unsafe { NOW };
    let mut c = any_config();
    let pre = c.clone();
    let mut p = NttManagerPeer { bump: nd_u8(), address: nd_bytes32(), token_decimals: nd_u8() };
    let mut l = InboxRateLimit { bump: nd_u8(), rate_limit: any_rate() };
    let (chain, address, limit, dec) = (nd_u16(), nd_bytes32(), nd_u64(), nd_u8());
    let mut ix = [0u8; 43];
    let mut i = 0;
    put(&mut ix, &mut i, chain.to_le_bytes());
    put(&mut ix, &mut i, address);
    put(&mut ix, &mut i, limit.to_le_bytes());
    put(&mut ix, &mut i, [dec]);

    let mut payer = Ac::any();
    let mut owner = Ac::any();
    let mut cfg = Ac::typed(&mut c);
    let mut pa = Ac::maybe_new(&mut p, fresh);
    let mut la = Ac::maybe_new(&mut l, fresh);
    let mut sys = Ac::any();
    let (mut d1, mut d2) = ([0u8; PEER_LEN], [0u8; IRL_LEN]);
    let e_p = find_pda(&[b"peer", &chain.to_be_bytes()], &ntt::ID);
    let e_l = find_pda(&[b"inbox_rate_limit", &chain.to_be_bytes()], &ntt::ID);
    let accs = [
        payer.info(), owner.info(), cfg.info(),
        if fresh { pa.info() } else { pa.info_data(&mut d1) },
        if fresh { la.info() } else { la.info_data(&mut d2) },
        sys.info(),
    ];
    let r = ntt::__private::__global::set_peer(&ntt::ID, sr(&accs[..]), &ix);
    if r.is_ok() {
        by_owner!(owner, cfg, pre);
        vassert!("C09/peer-effect", p.address == address && p.token_decimals == dec);
        vassert!("C09/peer-of-the-chain", pa.key == e_p.0 && la.key == e_l.0);
        vassert!("C09/peer-keeps-config", cfg_eq(&c, &pre));
        vassert!("C22/peer-fits", fits(&p, accs[3].data_len()) && fits(&l, accs[4].data_len()));
        // the invariant that the other instructions rely on
        vassert!("C05/peer-bump", p.bump == e_p.1);
        vassert!("C03/limit-bump", l.bump == e_l.1);
        let s = &l.rate_limit;
        vassert!("C02/peer-limit", s.limit == limit && s.capacity_at_last_tx <= limit && (!fresh || s.capacity_at_last_tx == limit)
            && (s.last_tx_timestamp == now || s.capacity_at_last_tx == limit && s.last_tx_timestamp <= now));
        vcover!("ok", true);
    }
}
const PEER_LEN: usize = 8 + 1 + 32 + 1;
const IRL_LEN: usize = 8 + 1 + 24;
#[cfg_attr(kani, kani::proof)]
pub fn set_peer_new() {
    peer(true)
}
#[cfg_attr(kani, kani::proof)]
pub fn set_peer_again() {
    peer(false)
}

/// The address of the other side of the wormhole transceiver: set once per chain, by the owner.
fn wormhole_peer(standalone: bool) {
    begin(if standalone { ntt_transceiver::ID } else { ntt::ID });
    let me = unsafe { CURRENT_PROGRAM };
    let mut c = any_config();
    let pre = c.clone();
    let (chain, address) = (nd_u16(), nd_bytes32());
    let mut ix = [0u8; 34];
    let mut i = 0;
    put(&mut ix, &mut i, chain.to_le_bytes());
    put(&mut ix, &mut i, address);
    let mut p1 = ntt::transceivers::accounts::peer::TransceiverPeer { bump: nd_u8(), address: nd_bytes32() };
    let mut p2 = ntt_transceiver::peer::TransceiverPeer { bump: nd_u8(), address: nd_bytes32() };
    let mut cfg = Ac::typed(&mut c);
    let mut owner = Ac::any();
    let mut payer = Ac::any();
    let mut pa = if standalone { Ac::maybe_new(&mut p2, true) } else { Ac::maybe_new(&mut p1, true) };
    let mut sys = Ac::any();
    let e = find_pda(&[b"transceiver_peer", &chain.to_be_bytes()], &me);
    let accs = [cfg.info(), owner.info(), payer.info(), pa.info(), sys.info()];
    let r = if standalone {
        ntt_transceiver::__private::__global::set_wormhole_peer(&me, sr(&accs[..]), &ix)
    } else {
        ntt::__private::__global::set_wormhole_peer(&me, sr(&accs[..]), &ix)
    };
    if r.is_ok() {
        by_owner!(owner, cfg, pre);
        let (a, b) = if standalone { (p2.address, p2.bump) } else { (p1.address, p1.bump) };
        vassert!("C09/wormhole-peer-effect", a == address && pa.key == e.0);
        vassert!("C14/wormhole-peer-bump", b == e.1);
        vassert!("C22/wormhole-peer-fits", if standalone { fits(&p2, accs[3].data_len()) } else { fits(&p1, accs[3].data_len()) });
        vassert!("C09/wormhole-peer-keeps-config", cfg_eq(&c, &pre));
        vcover!("ok", true);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn set_wormhole_peer() {
    wormhole_peer(false)
}
#[cfg_attr(kani, kani::proof)]
pub fn set_wormhole_peer_standalone() {
    wormhole_peer(true)
}
/// A peer that is already set can not be set again.
fn wormhole_peer_again(standalone: bool) {
    begin(if standalone { ntt_transceiver::ID } else { ntt::ID });
    let me = unsafe { CURRENT_PROGRAM };
    let mut c = any_config();
    let mut ix = [0u8; 34];
    let mut i = 0;
    put(&mut ix, &mut i, nd_u16().to_le_bytes());
    put(&mut ix, &mut i, nd_bytes32());
    let a0 = nd_bytes32();
    let mut p1 = ntt::transceivers::accounts::peer::TransceiverPeer { bump: nd_u8(), address: a0 };
    let mut p2 = ntt_transceiver::peer::TransceiverPeer { bump: nd_u8(), address: a0 };
    let mut cfg = Ac::typed(&mut c);
    let mut owner = Ac::any();
    let mut payer = Ac::any();
    let mut pa = if standalone { Ac::maybe_new(&mut p2, false) } else { Ac::maybe_new(&mut p1, false) };
    pa.owner = me;
    let mut sys = Ac::any();
    let mut d = [0u8; 8 + 1 + 32];
    let accs = [cfg.info(), owner.info(), payer.info(), pa.info_data(&mut d), sys.info()];
    let r = if standalone {
        ntt_transceiver::__private::__global::set_wormhole_peer(&me, sr(&accs[..]), &ix)
    } else {
        ntt::__private::__global::set_wormhole_peer(&me, sr(&accs[..]), &ix)
    };
    if r.is_ok() {
        vassert!("C14/wormhole-peer-set-once", (if standalone { p2.address } else { p1.address }) == a0);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn wormhole_peer_once() {
    wormhole_peer_again(false)
}
#[cfg_attr(kani, kani::proof)]
pub fn wormhole_peer_once_standalone() {
    wormhole_peer_again(true)
}

#[cfg_attr(kani, kani::proof)]
pub fn register_transceiver() {
    begin(ntt::ID);
    let mut c = any_config();
    let pre = c.clone();
    let mut t = RegisteredTransceiver { bump: nd_u8(), id: nd_u8(), transceiver_address: nd_key() };
    let mut cfg = Ac::typed(&mut c);
    let mut owner = Ac::any();
    let mut payer = Ac::any();
    let mut tr = Ac::any();
    let mut reg = Ac::maybe_new(&mut t, true);
    let mut sys = Ac::any();
    let e = find_pda(&[b"registered_transceiver", tr.key.as_ref()], &ntt::ID);
    let accs = [cfg.info(), owner.info(), payer.info(), tr.info(), reg.info(), sys.info()];
    let r = ntt::__private::__global::register_transceiver(&ntt::ID, sr(&accs[..]), &[]);
    if r.is_ok() {
        by_owner!(owner, cfg, pre);
        vassert!("C20/fresh-id", t.id == pre.next_transceiver_id && t.id < 128 && c.next_transceiver_id == t.id + 1);
        vassert!("C20/address", t.transceiver_address == tr.key && tr.executable);
        vassert!("C20/one-registration-per-program", reg.key == e.0);
        vassert!("C22/registration-fits", fits(&t, accs[4].data_len()));
        let mut want = pre.clone();
        want.next_transceiver_id = pre.next_transceiver_id.wrapping_add(1);
        let _ = want.enabled_transceivers.set(pre.next_transceiver_id, true);
        vassert!("C20/enabled-with-all-others-kept", cfg_eq(&c, &want));
        vcover!("ok", t.id > 3);
    }
}

#[cfg_attr(kani, kani::proof)]
pub fn register_transceiver_again() {
    begin(ntt::ID);
    let mut c = any_config();
    let pre = c.clone();
    let mut t = RegisteredTransceiver { bump: nd_u8(), id: nd_u8(), transceiver_address: nd_key() };
    let mut cfg = Ac::typed(&mut c);
    let mut owner = Ac::any();
    let mut payer = Ac::any();
    let mut tr = Ac::any();
    let mut reg = Ac::maybe_new(&mut t, false);
    let mut sys = Ac::any();
    let mut d = [0u8; 8 + 34];
    let accs = [cfg.info(), owner.info(), payer.info(), tr.info(), reg.info_data(&mut d), sys.info()];
    let r = ntt::__private::__global::register_transceiver(&ntt::ID, sr(&accs[..]), &[]);
    vassert!("C20/registered-once", r.is_err());
}

fn limit_ok(pre: &RateLimitState, post: &RateLimitState, limit: u64) -> bool {
    let used = pre.limit - pre.capacity_at_last_tx;
    post.limit == limit && post.capacity_at_last_tx == limit.saturating_sub(used) && post.last_tx_timestamp == unsafe { NOW }
}

#[cfg_attr(kani, kani::proof)]
pub fn set_outbound_limit() {
    begin(ntt::ID);
    let mut c = any_config();
    let pre = c.clone();
    let mut l = OutboxRateLimit { rate_limit: any_rate() };
    let pre_l = l.rate_limit.clone();
    let limit = nd_u64();
    let mut cfg = Ac::typed(&mut c);
    let mut owner = Ac::any();
    let mut la = Ac::typed(&mut l);
    let accs = [cfg.info(), owner.info(), la.info()];
    let r = ntt::__private::__global::set_outbound_limit(&ntt::ID, sr(&accs[..]), &limit.to_le_bytes());
    if r.is_ok() {
        by_owner!(owner, cfg, pre);
        vassert!("C09/outbound-limit-effect", la.owner == ntt::ID && limit_ok(&pre_l, &l.rate_limit, limit));
        vassert!("C09/outbound-limit-keeps-config", cfg_eq(&c, &pre));
        vcover!("ok", limit > 0);
    }
}

#[cfg_attr(kani, kani::proof)]
pub fn set_inbound_limit() {
    begin(ntt::ID);
    let mut c = any_config();
    let pre = c.clone();
    let mut l = InboxRateLimit { bump: nd_u8(), rate_limit: any_rate() };
    let (bump, pre_l) = (l.bump, l.rate_limit.clone());
    let (limit, chain) = (nd_u64(), nd_u16());
    let mut ix = [0u8; 10];
    let mut i = 0;
    put(&mut ix, &mut i, limit.to_le_bytes());
    put(&mut ix, &mut i, chain.to_le_bytes());
    let mut cfg = Ac::typed(&mut c);
    let mut owner = Ac::any();
    let mut la = Ac::typed(&mut l);
    let e = of_chain(b"inbox_rate_limit", chain, &la, bump);
    let accs = [cfg.info(), owner.info(), la.info()];
    let r = ntt::__private::__global::set_inbound_limit(&ntt::ID, sr(&accs[..]), &ix);
    if r.is_ok() {
        by_owner!(owner, cfg, pre);
        vassert!("C09/inbound-limit-effect", la.owner == ntt::ID && la.key == e && limit_ok(&pre_l, &l.rate_limit, limit) && l.bump == bump);
        vassert!("C09/inbound-limit-keeps-config", cfg_eq(&c, &pre));
        vcover!("ok", limit > 0);
    }
}
