//! Outbound transfers: taking the tokens, releasing, posting.
use crate::env::*;
use crate::post::*;
use crate::msgs::*;
use crate::token::*;
use ntt::bitmap::Bitmap;
use ntt::config::Config;
use ntt::peer::NttManagerPeer;
use ntt::queue::inbox::InboxRateLimit;
use ntt::queue::outbox::{OutboxItem, OutboxRateLimit};
use ntt::registered_transceiver::RegisteredTransceiver;

pub fn any_outbox_item() -> OutboxItem {
    OutboxItem {
        amount: TrimmedAmount { amount: nd_u64(), decimals: nd_u8() },
        sender: nd_key(),
        recipient_chain: ChainId { id: nd_u16() },
        recipient_ntt_manager: nd_bytes32(),
        recipient_address: nd_bytes32(),
        release_timestamp: nd_i64(),
        released: Bitmap::from_value(nd_u128()),
    }
}
fn item_eq(a: &OutboxItem, b: &OutboxItem) -> bool {
    (a.amount.amount == b.amount.amount) & (a.amount.decimals == b.amount.decimals) & (a.sender == b.sender)
        & (a.recipient_chain.id == b.recipient_chain.id) & same32(&a.recipient_ntt_manager, &b.recipient_ntt_manager)
        & same32(&a.recipient_address, &b.recipient_address) & (a.release_timestamp == b.release_timestamp) & (a.released == b.released)
}

#[derive(PartialEq, Clone, Copy)]
enum Kind { Normal, Alias, Existing }

/// Bound: `mint_dec`, `peer_dec` concrete; with `mint_dec` above the trimmed decimals amounts are below 2^`bits`.
fn transfer(burn: bool, kind: Kind, mint_dec: u8, peer_dec: u8, bits: u32) {
    begin(ntt::ID);
    unsafe {
        TOKEN_HOOK = Some(token_hook);
        FEE = nd_u64();
    }
    let now = unsafe { NOW };
    let mut c = any_config();
    let pre = c.clone();
    let mut m = any_mint();
    raw_mint(&mut m).decimals = mint_dec;
    let sup0 = m.supply;
    let mut f = any_tok();
    let mut cu = any_tok();
    let (from0, cus0) = (f.amount, cu.amount);
    let sender = f.owner;
    let mut it = any_outbox_item();
    let it0 = it.clone();
    let mut orl = OutboxRateLimit { rate_limit: any_rate() };
    let mut irl = InboxRateLimit { bump: nd_u8(), rate_limit: any_rate() };
    let (orl0, irl0) = (orl.rate_limit.clone(), irl.rate_limit.clone());
    let mut p = NttManagerPeer { bump: nd_u8(), address: nd_bytes32(), token_decimals: peer_dec };

    let amount = nd_u64() & (u64::MAX >> (64 - bits));
    let (chain, to, queue) = (nd_u16(), nd_bytes32(), nd_bool());
    let mut ix = [0u8; 43];
    let mut i = 0;
    put(&mut ix, &mut i, amount.to_le_bytes());
    put(&mut ix, &mut i, chain.to_le_bytes());
    put(&mut ix, &mut i, to);
    put(&mut ix, &mut i, [queue as u8]);

    let mut payer = Ac::any();
    let mut cfg = Ac::typed(&mut c);
    let mut mint = Ac::typed(&mut m);
    let mut from = Ac::typed(&mut f);
    let mut prog = Ac::any();
    let mut item = Ac::maybe_new(&mut it, kind != Kind::Existing);
    let mut orla = Ac::typed(&mut orl);
    let mut custody = Ac::typed(&mut cu);
    let mut sys = Ac::any();
    let mut irla = Ac::typed(&mut irl);
    let mut peer = Ac::typed(&mut p);
    let mut session = Ac::any();
    let mut auth = Ac::any();
    if kind != Kind::Alias {
        assume(from.key != custody.key);
    }
    set_tok(0, &from, &mut f);
    if kind != Kind::Alias {
        set_tok(1, &custody, &mut cu);
    }
    set_mint(&mint, &mut m);
    let h = hash_model(KIND_KECCAK, &[&amount.to_be_bytes(), &chain.to_be_bytes(), &to, &[queue as u8]]);
    let e_session = find_pda(&[b"session_authority", sender.as_ref(), &h], &ntt::ID).0;
    let e_peer = of_chain(b"peer", chain, &peer, p.bump);
    let e_irl = of_chain(b"inbox_rate_limit", chain, &irla, irl.bump);
    let mut d = [0u8; 200];
    let accs = [
        payer.info(), cfg.info(), mint.info(), from.info(), prog.info(),
        if kind == Kind::Existing { item.info_data(&mut d) } else { item.info() },
        orla.info(), if kind == Kind::Alias { from.info() } else { custody.info() }, sys.info(), irla.info(), peer.info(), session.info(), auth.info(),
    ];
    let r = if burn {
        ntt::__private::__global::transfer_burn(&ntt::ID, sr(&accs[..]), &ix)
    } else {
        ntt::__private::__global::transfer_lock(&ntt::ID, sr(&accs[..12]), &ix)
    };
    if r.is_ok() {
        let dec = mint_dec.min(peer_dec).min(8);
        let mut unit = 1u64;
        let mut k = dec;
        while k < mint_dec {
            unit *= 10;
            k += 1;
        }
        if kind == Kind::Existing {
            vassert!("C11/existing-item-not-overwritten", item_eq(&it, &it0));
        } else if kind == Kind::Alias {
            vassert!("C11/not-from-custody-itself", amount < unit || burn);
        } else {
            let taken = from0.wrapping_sub(f.amount);
            vassert!("C11/worth-of-the-item", taken as u128 == it.amount.amount as u128 * unit as u128 && it.amount.decimals == dec);
            vassert!("C11/dust-only-left", taken <= amount && amount - taken < unit);
            if burn {
                vassert!("C11/burned", sup0.wrapping_sub(m.supply) == taken && cu.amount == cus0);
            } else {
                vassert!("C11/locked", cu.amount.wrapping_sub(cus0) == taken && m.supply == sup0);
            }
            vassert!("C11/mode", (pre.mode == Mode::Burning) == burn);
            vassert!("C11/token", mint.key == pre.mint && f.mint == pre.mint && custody.key == pre.custody && cfg.owner == ntt::ID);
            vassert!("C11/some-transceiver", pre.enabled_transceivers != Bitmap::from_value(0));
            vassert!("C11/sender", it.sender == sender);
            vassert!("C11/destination", it.recipient_chain.id == chain && same32(&it.recipient_address, &to));
            vassert!("C11/peer", same32(&it.recipient_ntt_manager, &p.address) && peer.key == e_peer && peer.owner == ntt::ID);
            vassert!("C11/not-yet-released", it.released == Bitmap::from_value(0));
            vassert!("C12/session-of-these-arguments", session.key == e_session);
            vassert!("C13/not-while-paused", !pre.paused);
            vassert!("C11/keeps-config", cfg_eq(&c, &pre));
            vassert!("C22/outbox-item-fits", fits(&it, accs[5].data_len()));
            vassert!("C03/limit-of-the-chain", irla.key == e_irl && irla.owner == ntt::ID && orla.owner == ntt::ID);
            let (o, n) = (&orl.rate_limit, &irl.rate_limit);
            if taken <= orl0.capacity_at_last_tx {
                vassert!("C11/now-within-limit", it.release_timestamp == now);
                vassert!("C03/outbound-consumed", o.capacity_at_last_tx == orl0.capacity_at_last_tx.wrapping_sub(taken) && o.limit == orl0.limit && o.last_tx_timestamp == now);
                let back = (irl0.capacity_at_last_tx as u128 + taken as u128).min(irl0.limit as u128);
                vassert!("C03/inbound-refilled", n.capacity_at_last_tx as u128 == back && n.limit == irl0.limit && n.last_tx_timestamp == now);
                vcover!("now", taken > 0 && !queue);
            } else {
                vassert!("C11/queued-a-day", it.release_timestamp == now + 86_400);
                vassert!("C11/queued-only-if-wanted", queue);
                vassert!("C03/queued-no-accounting", *o == orl0 && *n == irl0);
                vcover!("queued", true);
            }
        }
    }
}
macro_rules! transfers {
    ($($n:ident $b:literal $k:ident $m:literal $p:literal $bits:literal),*) => {
        $(#[cfg_attr(kani, kani::proof)]
        pub fn $n() {
            transfer($b, Kind::$k, $m, $p, $bits);
        })*
    };
}
transfers!(
    lock false Normal 8 18 64,
    burn true Normal 8 18 64,
    lock_dust false Normal 9 8 16,
    burn_dust true Normal 9 6 16,
    lock_alias false Alias 8 8 64,
    lock_existing false Existing 8 8 64,
    burn_existing true Existing 8 8 64
);

// ------------------------------------------------------------------------------------------------
// release
// ------------------------------------------------------------------------------------------------

macro_rules! released {
    ($it:expr, $it0:expr, $tr:expr, $t:expr, $pre:expr, $cfg:expr, $item:expr, $yes:expr) => {
        vassert!("C13/not-while-paused", !$pre.paused);
        vassert!("C07/config-of-the-manager", $cfg.owner == ntt::ID && $item.owner == ntt::ID && $tr.owner == ntt::ID);
        vassert!("C07/enabled", $t.id < 128 && $pre.enabled_transceivers.get($t.id & 127).unwrap());
        vassert!("C07/once", !$it0.released.get($t.id & 127).unwrap());
        let due = $it0.release_timestamp <= unsafe { NOW };
        vassert!("C07/when-due", $yes == due);
        let mut want = $it0.clone();
        if due {
            let _ = want.released.set($t.id, true);
        }
        vassert!("C07/marks-exactly-its-own", item_eq(&$it, &want));
    };
}

#[cfg_attr(kani, kani::proof)]
pub fn mark_released() {
    begin(ntt::ID);
    let mut c = any_config();
    let pre = c.clone();
    let mut it = any_outbox_item();
    let it0 = it.clone();
    let mut t = RegisteredTransceiver { bump: nd_u8(), id: nd_u8(), transceiver_address: nd_key() };
    let mut signer = Ac::any();
    let mut cfg = Ac::typed(&mut c);
    let mut item = Ac::typed(&mut it);
    let mut tr = Ac::typed(&mut t);
    let e = find_pda(&[b"outbox_item_signer"], &t.transceiver_address).0;
    let accs = [signer.info(), cfg.info(), item.info(), tr.info()];
    let r = ntt::__private::__global::mark_outbox_item_as_released(&ntt::ID, sr(&accs[..]), &[]);
    if r.is_ok() {
        let yes = unsafe { RETURNED } == Some(1);
        vassert!("C07/asked-by-the-transceiver", signer.signer && signer.key == e);
        released!(it, it0, tr, t, pre, cfg, item, yes);
        vcover!("released", yes);
        vcover!("later", !yes);
    }
}

pub const TM_LEN: usize = 4 + 32 + 32 + 2 + (32 + 32 + 2 + 79) + 2;
/// The encoding of a transfer as the other chains expect it.
pub fn transceiver_wire(d: &mut [u8; TM_LEN], it: &OutboxItem, id: &Pubkey, token: &Pubkey) {
    let mut i = 0;
    put(d, &mut i, [0x99, 0x45, 0xff, 0x10]);
    put(d, &mut i, ntt::ID.to_bytes());
    put(d, &mut i, it.recipient_ntt_manager);
    put(d, &mut i, 145u16.to_be_bytes());
    put(d, &mut i, id.to_bytes());
    put(d, &mut i, it.sender.to_bytes());
    put(d, &mut i, 79u16.to_be_bytes());
    put(d, &mut i, [0x99, 0x4e, 0x54, 0x54]);
    put(d, &mut i, [it.amount.decimals]);
    put(d, &mut i, it.amount.amount.to_be_bytes());
    put(d, &mut i, token.to_bytes());
    put(d, &mut i, it.recipient_address);
    put(d, &mut i, it.recipient_chain.id.to_be_bytes());
    put(d, &mut i, 0u16.to_be_bytes());
}

fn release(standalone: bool) {
    begin(if standalone { ntt_transceiver::ID } else { ntt::ID });
    let me = unsafe { CURRENT_PROGRAM };
    unsafe {
        POST_HOOK = Some(post_hook);
        CPI_HOOK = Some(manager_hook);
    }
    let mut c = any_config();
    let pre = c.clone();
    let mut it = any_outbox_item();
    let it0 = it.clone();
    let mut t = RegisteredTransceiver { bump: nd_u8(), id: nd_u8(), transceiver_address: nd_key() };
    let mut b = any_bridge();
    let fee = b.config.fee;
    let mut payer = Ac::any();
    let mut cfg = Ac::typed(&mut c);
    let mut item = Ac::typed(&mut it);
    let mut tr = Ac::typed(&mut t);
    let mut msg = Ac::any();
    let mut emitter = Ac::any();
    let mut bridge = Ac::typed(&mut b);
    let mut col = Ac::any();
    let mut seq = Ac::any();
    let mut core = Ac::any();
    let mut sys = Ac::any();
    let mut clk = Ac::any();
    let mut rent = Ac::any();
    let mut man = Ac::any();
    let mut signer = Ac::any();
    assume(payer.key != col.key);
    unsafe { BRIDGE = Some((bridge.key, fee, col.lamports)) };
    let e_msg = find_pda(&[b"message", item.key.as_ref()], &me).0;
    let e_em = find_pda(&[b"emitter"], &me).0;
    let mut wire = [0u8; TM_LEN];
    transceiver_wire(&mut wire, &it0, &item.key, &pre.mint);
    let revert = nd_bool();
    let accs = [
        payer.info(), cfg.info(), item.info(), tr.info(), msg.info(), emitter.info(), bridge.info(), col.info(), seq.info(),
        core.info(), sys.info(), clk.info(), rent.info(), man.info(), signer.info(),
    ];
    let r = if standalone {
        ntt_transceiver::__private::__global::release_wormhole_outbound(&me, sr(&accs[..]), &[revert as u8])
    } else {
        ntt::__private::__global::release_wormhole_outbound(&me, sr(&accs[..13]), &[revert as u8])
    };
    if r.is_ok() {
        let po = unsafe { &POSTED };
        let yes = po.count > 0;
        vassert!("C07/of-this-transceiver", t.transceiver_address == me);
        released!(it, it0, tr, t, pre, cfg, item, yes);
        if yes {
            vassert!("C08/posted-once", po.count == 1);
            vassert!("C08/is-the-transfer", posted_is(&wire));
            vassert!("C08/own-message-account", po.message == e_msg);
            vassert!("C08/own-emitter", po.emitter == e_em && po.emitter_pda);
            vassert!("C08/finalized", po.finality == 1);
            vassert!("C08/fee-paid", po.paid == fee);
            vcover!("posted", fee > 0 && revert);
        } else {
            vassert!("C08/revert-on-delay", !revert);
            vcover!("later", true);
        }
    }
}

/// The manager's side of the standalone transceiver's call: the manager's real instruction.
fn manager_hook(
    program: &Pubkey,
    ix: [u8; 8],
    data: &[u8],
    c: &CpiAccs,
    pda: Option<Pubkey>,
) -> anchor_lang::solana_program::entrypoint::ProgramResult {
    if *program != ntt::ID {
        tx_abort(8304);
    }
    let want = <ntt::instruction::MarkOutboxItemAsReleased as anchor_lang::Discriminator>::DISCRIMINATOR;
    if u64::from_le_bytes(ix) != u64::from_le_bytes(want) || data.len() != 0 || c.n != 4 {
        model_limit();
    }
    let mut a = [c.get(0).clone(), c.get(1).clone(), c.get(2).clone(), c.get(3).clone()];
    let mut i = 0;
    while i < 4 {
        let by = match &pda {
            Some(k) => *k == *a[i].key,
            None => false,
        };
        if c.signer[i] && !a[i].is_signer && !by || c.writable[i] && !a[i].is_writable {
            tx_abort(8302);
        }
        a[i].is_signer = c.signer[i];
        a[i].is_writable = c.writable[i];
        i += 1;
    }
    let caller = unsafe { CURRENT_PROGRAM };
    unsafe { CURRENT_PROGRAM = ntt::ID };
    let r = ntt::__private::__global::mark_outbox_item_as_released(&ntt::ID, sr(&a[..]), &[]);
    unsafe { CURRENT_PROGRAM = caller };
    core::mem::forget(a);
    if r.is_err() {
        tx_abort(8303);
    }
    Ok(())
}

#[cfg_attr(kani, kani::proof)]
pub fn release_manager() {
    release(false)
}
#[cfg_attr(kani, kani::proof)]
pub fn release_standalone() {
    release(true)
}

// ------------------------------------------------------------------------------------------------
// announcements
// ------------------------------------------------------------------------------------------------

fn broadcast(standalone: bool, id: bool) {
    begin(if standalone { ntt_transceiver::ID } else { ntt::ID });
    let me = unsafe { CURRENT_PROGRAM };
    unsafe { POST_HOOK = Some(post_hook) };
    let mut c = any_config();
    let pre = c.clone();
    let mut m = any_mint();
    let a0 = nd_bytes32();
    let mut p1 = ntt::transceivers::accounts::peer::TransceiverPeer { bump: nd_u8(), address: a0 };
    let mut p2 = ntt_transceiver::peer::TransceiverPeer { bump: nd_u8(), address: a0 };
    let mut b = any_bridge();
    let fee = b.config.fee;
    let chain = nd_u16();
    let mut payer = Ac::any();
    let mut cfg = Ac::typed(&mut c);
    let mut mint = Ac::typed(&mut m);
    let mut peer = if standalone { Ac::typed(&mut p2) } else { Ac::typed(&mut p1) };
    let mut msg = Ac::any();
    let mut emitter = Ac::any();
    let mut bridge = Ac::typed(&mut b);
    let mut col = Ac::any();
    let mut seq = Ac::any();
    let mut core = Ac::any();
    let mut sys = Ac::any();
    let mut clk = Ac::any();
    let mut rent = Ac::any();
    assume(payer.key != col.key);
    unsafe { BRIDGE = Some((bridge.key, fee, col.lamports)) };
    let e_em = find_pda(&[b"emitter"], &me).0;
    let e_peer = find_pda(&[b"transceiver_peer", &chain.to_be_bytes()], &me).0;
    let accs = [
        payer.info(), cfg.info(), if id { mint.info() } else { peer.info() }, msg.info(), emitter.info(), bridge.info(), col.info(), seq.info(),
        core.info(), sys.info(), clk.info(), rent.info(),
    ];
    let ix = chain.to_le_bytes();
    let r = match (standalone, id) {
        (false, true) => ntt::__private::__global::broadcast_wormhole_id(&me, sr(&accs[..]), &[]),
        (true, true) => ntt_transceiver::__private::__global::broadcast_wormhole_id(&me, sr(&accs[..]), &[]),
        (false, false) => ntt::__private::__global::broadcast_wormhole_peer(&me, sr(&accs[..]), &ix),
        (true, false) => ntt_transceiver::__private::__global::broadcast_wormhole_peer(&me, sr(&accs[..]), &ix),
    };
    if r.is_ok() {
        let po = unsafe { &POSTED };
        vassert!("C21/posted-once", po.count == 1);
        vassert!("C21/own-emitter", po.emitter == e_em && po.emitter_pda);
        vassert!("C21/finalized", po.finality == 1 && po.paid == fee);
        vassert!("C21/config-of-the-manager", cfg.owner == ntt::ID);
        if id {
            let mut w = [0u8; 70];
            let mut i = 0;
            put(&mut w, &mut i, [0x9c, 0x23, 0xbd, 0x3b]);
            put(&mut w, &mut i, ntt::ID.to_bytes());
            put(&mut w, &mut i, [if pre.mode == Mode::Locking { 0 } else { 1 }]);
            put(&mut w, &mut i, pre.mint.to_bytes());
            put(&mut w, &mut i, [m.decimals]);
            vassert!("C21/id", posted_is(&w) && mint.key == pre.mint);
        } else {
            let mut w = [0u8; 38];
            let mut i = 0;
            put(&mut w, &mut i, [0x18, 0xfc, 0x67, 0xc2]);
            put(&mut w, &mut i, chain.to_be_bytes());
            put(&mut w, &mut i, a0);
            vassert!("C21/peer", posted_is(&w) && peer.key == e_peer && peer.owner == me);
        }
        vcover!("posted", true);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn broadcast_id() {
    broadcast(false, true)
}
#[cfg_attr(kani, kani::proof)]
pub fn broadcast_id_standalone() {
    broadcast(true, true)
}
#[cfg_attr(kani, kani::proof)]
pub fn broadcast_peer() {
    broadcast(false, false)
}
#[cfg_attr(kani, kani::proof)]
pub fn broadcast_peer_standalone() {
    broadcast(true, false)
}

// ------------------------------------------------------------------------------------------------
// receiving VAAs
// ------------------------------------------------------------------------------------------------
use ntt_messages::{
    ntt::{EmptyPayload, NativeTokenTransfer}, ntt_manager::NttManagerMessage, transceiver::{TransceiverMessage, TransceiverMessageData},
    transceivers::wormhole::WormholeTransceiver,
};
use wormhole_anchor_sdk::wormhole::PostedVaa;
type Tm = TransceiverMessage<WormholeTransceiver, NativeTokenTransfer<EmptyPayload>>;

fn receive(standalone: bool) {
    begin(if standalone { ntt_transceiver::ID } else { ntt::ID });
    let me = unsafe { CURRENT_PROGRAM };
    let mut c = any_config();
    let pre = c.clone();
    let data = any_data();
    let tm: Tm = TransceiverMessage::new(data.source_ntt_manager, data.recipient_ntt_manager, data.ntt_manager_payload.clone(), Vec::new());
    let mut v = PostedVaa { meta: Default::default(), payload: (nd_u32(), tm) };
    let chain = nd_u16();
    v.meta.emitter_chain = chain;
    let emitter = nd_bytes32();
    v.meta.emitter_address = emitter;
    v.meta.sequence = nd_u64();
    v.meta.timestamp = nd_u32();
    let address = nd_bytes32();
    let bump = nd_u8();
    let mut p1 = ntt::transceivers::accounts::peer::TransceiverPeer { bump, address };
    let mut p2 = ntt_transceiver::peer::TransceiverPeer { bump, address };
    let mut m1 = ntt::messages::ValidatedTransceiverMessage { from_chain: ChainId { id: nd_u16() }, message: any_data() };
    let mut m2 = ntt_transceiver::messages::ValidatedTransceiverMessage { from_chain: ChainId { id: nd_u16() }, message: any_data() };

    let mut payer = Ac::any();
    let mut cfg = Ac::typed(&mut c);
    let mut peer = if standalone { Ac::typed(&mut p2) } else { Ac::typed(&mut p1) };
    let mut vaa = Ac::typed(&mut v);
    let mut msg = if standalone { Ac::maybe_new(&mut m2, true) } else { Ac::maybe_new(&mut m1, true) };
    let mut sys = Ac::any();
    // invariant established by set_wormhole_peer
    let other = nd_u16();
    let o = find_pda(&[b"transceiver_peer", &other.to_be_bytes()], &me);
    assume(peer.owner != me || (peer.key == o.0 && bump == o.1));
    let e_peer = find_pda(&[b"transceiver_peer", &chain.to_be_bytes()], &me).0;
    let e_msg = find_pda(&[b"transceiver_message", &chain.to_be_bytes(), &data.ntt_manager_payload.id], &me).0;
    let accs = [payer.info(), cfg.info(), peer.info(), vaa.info(), msg.info(), sys.info()];
    let r = if standalone {
        ntt_transceiver::__private::__global::receive_wormhole_message(&me, sr(&accs[..]), &[])
    } else {
        ntt::__private::__global::receive_wormhole_message(&me, sr(&accs[..]), &[])
    };
    if r.is_ok() {
        vassert!("C14/vaa-of-the-core-bridge", vaa.owner == CORE);
        vassert!("C14/from-the-registered-peer", peer.owner == me && peer.key == e_peer && same32(&address, &emitter));
        vassert!("C14/for-this-chain", data.ntt_manager_payload.payload.to_chain.id == pre.chain_id.id && cfg.owner == ntt::ID);
        vassert!("C13/not-while-paused", !pre.paused);
        vassert!("C14/account-of-the-message", msg.key == e_msg && msg.owner == me);
        let (fc, d) = if standalone { (m2.from_chain.id, &m2.message) } else { (m1.from_chain.id, &m1.message) };
        vassert!("C14/source-chain", fc == chain);
        vassert!("C14/stored-as-is", data_eq(d, &data));
        vassert!("C22/message-fits", if standalone { fits(&m2, accs[4].data_len()) } else { fits(&m1, accs[4].data_len()) });
        vcover!("received", true);
    }
    core::mem::forget(v);
}
#[cfg_attr(kani, kani::proof)]
pub fn receive_manager() {
    receive(false)
}
#[cfg_attr(kani, kani::proof)]
pub fn receive_standalone() {
    receive(true)
}
