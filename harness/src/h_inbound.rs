//! Inbound transfers: release.
use crate::env::*;
use crate::token::*;
use ntt::config::Config;
use ntt::queue::inbox::{InboxItem, ReleaseStatus};

pub fn nd_status() -> ReleaseStatus {
    match nd_u8() & 3 {
        0 => ReleaseStatus::NotApproved,
        1 => ReleaseStatus::ReleaseAfter(nd_i64()),
        _ => ReleaseStatus::Released,
    }
}
pub fn any_inbox_item() -> InboxItem {
    InboxItem {
        init: nd_bool(),
        bump: nd_u8(),
        amount: nd_u64(),
        recipient_address: nd_key(),
        votes: ntt::bitmap::Bitmap::from_value(nd_u128()),
        release_status: nd_status(),
    }
}

fn release(mint_mode: bool) {
    unsafe {
        NOW = nd_i64();
        TOKEN_HOOK = Some(token_hook);
        CURRENT_PROGRAM = ntt::ID;
        FEE = nd_u64();
    }
    let mut c = any_config();
    let pre_c = c.clone();
    let mut it = any_inbox_item();
    let pre = it.clone();
    let mut m = any_mint();
    let mut rec = any_tok();
    let mut cus = any_tok();
    let (rec0, cus0, sup0) = (rec.amount, cus.amount, m.supply);

    let mut payer = Ac::any();
    let mut cfg = Ac::typed(&mut c);
    let mut item = Ac::typed(&mut it);
    let mut recipient = Ac::typed(&mut rec);
    let mut auth = Ac::any();
    let mut mint = Ac::typed(&mut m);
    let mut prog = Ac::any();
    let mut custody = Ac::typed(&mut cus);
    assume(recipient.key != custody.key);
    set_tok(0, &recipient, &mut rec);
    set_tok(1, &custody, &mut cus);
    set_mint(&mint, &mut m);

    let ata = find_pda(
        &[pre.recipient_address.as_ref(), prog.key.as_ref(), pre_c.mint.as_ref()],
        &anchor_spl::associated_token::ID,
    );
    let revert = nd_bool();
    let ix = [revert as u8];
    let accs = [
        payer.info(), cfg.info(), item.info(), recipient.info(), auth.info(), mint.info(), prog.info(), custody.info(),
    ];
    let r = if mint_mode {
        ntt::__private::__global::release_inbound_mint(&ntt::ID, sr(&accs[..]), &ix)
    } else {
        ntt::__private::__global::release_inbound_unlock(&ntt::ID, sr(&accs[..]), &ix)
    };
    if r.is_ok() {
        let paid = rec.amount.wrapping_sub(rec0);
        let moved = rec.amount != rec0 || cus.amount != cus0 || m.supply != sup0;
        let due = match pre.release_status {
            ReleaseStatus::ReleaseAfter(t) => t <= unsafe { NOW },
            _ => false,
        };
        vassert!("C06/never-released-twice", pre.release_status != ReleaseStatus::Released);
        vassert!("C06/item-of-this-program", item.owner == ntt::ID && cfg.owner == ntt::ID);
        vassert!("C13/not-while-paused", !pre_c.paused);
        vassert!("C06/mode", (pre_c.mode == Mode::Burning) == mint_mode);
        if due {
            vassert!("C06/marked-released", it.release_status == ReleaseStatus::Released);
            vassert!("C06/pays-exactly", paid == pre.amount.wrapping_sub(unsafe { FEE }));
            vassert!("C06/pays-recipient", recipient.key == ata.0 && rec.owner == pre.recipient_address);
            vassert!("C06/right-mint", mint.key == pre_c.mint && rec.mint == pre_c.mint);
            if mint_mode {
                vassert!("C06/minted", m.supply.wrapping_sub(sup0) == pre.amount);
                vassert!("C06/custody-unchanged", cus.amount == cus0);
            } else {
                vassert!("C06/unlocked", cus0.wrapping_sub(cus.amount) == pre.amount);
                vassert!("C06/supply-unchanged", m.supply == sup0);
                vassert!("C06/from-custody", custody.key == pre_c.custody);
            }
            vcover!("released", pre.amount > 0 && revert);
        } else {
            vassert!("C06/nothing-before-due", !moved);
            vassert!("C06/status-kept", it.release_status == pre.release_status);
            vassert!("C06/revert-on-delay", !revert);
            vcover!("not-yet", true);
        }
        vassert!("C06/item-kept", it.amount == pre.amount && it.recipient_address == pre.recipient_address
            && it.votes == pre.votes && it.init == pre.init);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn release_mint() {
    release(true)
}
#[cfg_attr(kani, kani::proof)]
pub fn release_unlock() {
    release(false)
}

// ------------------------------------------------------------------------------------------------
// redeem
// ------------------------------------------------------------------------------------------------
use ntt::messages::ValidatedTransceiverMessage;
use ntt::peer::NttManagerPeer;
use ntt::queue::inbox::InboxRateLimit;
use ntt::queue::outbox::OutboxRateLimit;
use ntt::queue::rate_limit::{RateLimitResult, RateLimitState};
use ntt::registered_transceiver::RegisteredTransceiver;
use ntt_messages::{ntt::EmptyPayload, ntt::NativeTokenTransfer, ntt_manager::NttManagerMessage};
use anchor_lang::{Discriminator, Space};

pub type Msg = ValidatedTransceiverMessage<NativeTokenTransfer<EmptyPayload>>;
pub const MSG_LEN: usize = 8 + 2 + 32 + 32 + 32 + 32 + 9 + 32 + 2 + 32;
pub const WIRE_LEN: usize = 32 + 32 + 2 + 4 + 9 + 32 + 32 + 2;

/// The fields of a transfer message, as the other chain wrote them.
pub struct MsgF {
    pub chain: u16,
    pub source: [u8; 32],
    pub recipient: [u8; 32],
    pub id: [u8; 32],
    pub sender: [u8; 32],
    pub amount: u64,
    pub decimals: u8,
    pub token: [u8; 32],
    pub to_chain: u16,
    pub to: [u8; 32],
}
pub fn any_msg(decimals: u8) -> MsgF {
    MsgF {
        chain: nd_u16(),
        source: nd_bytes32(),
        recipient: nd_bytes32(),
        id: nd_bytes32(),
        sender: nd_bytes32(),
        amount: nd_u64(),
        decimals,
        token: nd_bytes32(),
        to_chain: nd_u16(),
        to: nd_bytes32(),
    }
}
impl MsgF {
    /// As stored in a `ValidatedTransceiverMessage` account (Borsh).
    pub fn store(&self, disc: [u8; 8], d: &mut [u8; MSG_LEN]) {
        let mut i = 0;
        put(d, &mut i, disc);
        put(d, &mut i, self.chain.to_le_bytes());
        put(d, &mut i, self.source);
        put(d, &mut i, self.recipient);
        put(d, &mut i, self.id);
        put(d, &mut i, self.sender);
        put(d, &mut i, self.amount.to_le_bytes());
        put(d, &mut i, [self.decimals]);
        put(d, &mut i, self.token);
        put(d, &mut i, self.to_chain.to_le_bytes());
        put(d, &mut i, self.to);
    }
    /// The NttManagerMessage on the wire.
    pub fn wire(&self, d: &mut [u8; WIRE_LEN]) {
        let mut i = 0;
        put(d, &mut i, self.id);
        put(d, &mut i, self.sender);
        put(d, &mut i, 79u16.to_be_bytes());
        put(d, &mut i, [0x99, 0x4e, 0x54, 0x54]);
        put(d, &mut i, [self.decimals]);
        put(d, &mut i, self.amount.to_be_bytes());
        put(d, &mut i, self.token);
        put(d, &mut i, self.to);
        put(d, &mut i, self.to_chain.to_be_bytes());
    }
}


const INBOX_LEN: usize = 8 + InboxItem::INIT_SPACE;

fn redeem(fresh: bool, foreign: bool, from_dec: u8, mint_dec: u8) {
    begin(ntt::ID);
    let now = unsafe { NOW };
    let mut c = any_config();
    let cfg0 = c.clone();
    let mut p = NttManagerPeer { bump: nd_u8(), address: nd_bytes32(), token_decimals: nd_u8() };
    let mut t = RegisteredTransceiver { bump: nd_u8(), id: nd_u8(), transceiver_address: nd_key() };
    let mut m = any_mint();
    raw_mint(&mut m).decimals = mint_dec;
    let mut it = any_inbox_item();
    let pre = it.clone();
    let mut irl = InboxRateLimit { bump: nd_u8(), rate_limit: any_rate() };
    let mut orl = OutboxRateLimit { rate_limit: any_rate() };
    let (irl0, orl0) = (irl.clone(), orl.clone());
    let f = any_msg(from_dec);
    let mut md = [0u8; MSG_LEN];
    let disc = nd_u64().to_le_bytes();
    f.store(disc, &mut md);
    let mut item_data = [0u8; INBOX_LEN];

    let mut payer = Ac::any();
    let mut cfg = Ac::typed(&mut c);
    let mut peer = Ac::typed(&mut p);
    let mut msg = Ac::any();
    let mut tr = Ac::typed(&mut t);
    let mut mint = Ac::typed(&mut m);
    let mut item = Ac::any();
    item.slot = register::<InboxItem>(&mut it, fresh, nd_bool());
    if fresh {
        item.owner = SYS;
        item.lamports = 0;
    } else {
        item.owner = if foreign { Pubkey::new_from_array([7; 32]) } else { ntt::ID };
    }
    let mut irla = Ac::typed(&mut irl);
    let mut orla = Ac::typed(&mut orl);
    let mut sys = Ac::any();

    // what the accounts have to be
    let mut wire = [0u8; WIRE_LEN];
    f.wire(&mut wire);
    let h = hash_model(KIND_KECCAK, &[&f.chain.to_be_bytes()[..], &wire[..]]);
    let e_item = find_pda(&[b"inbox_item", &h], &ntt::ID).0;
    let e_peer = of_chain(b"peer", f.chain, &peer, p.bump);
    let e_irl = find_pda(&[b"inbox_rate_limit", &f.chain.to_be_bytes()], &ntt::ID).0;

    let accs = [
        payer.info(), cfg.info(), peer.info(), msg.info_data(&mut md), tr.info(), mint.info(),
        if fresh { item.info() } else { item.info_data(&mut item_data) },
        irla.info(), orla.info(), sys.info(),
    ];
    let r = ntt::__private::__global::redeem(&ntt::ID, sr(&accs[..]), &[]);
    if foreign {
        vassert!("C05/inbox-item-of-another-program", r.is_err());
    } else if r.is_ok() {
        // authenticity
        vassert!("C05/peer", peer.key == e_peer && peer.owner == ntt::ID && p.address == f.source);
        vassert!("C05/for-this-chain", f.to_chain == cfg0.chain_id.id);
        vassert!("C05/for-this-manager", Pubkey::new_from_array(f.recipient) == ntt::ID);
        vassert!("C05/from-a-registered-transceiver", tr.owner == ntt::ID && msg.owner == t.transceiver_address);
        vassert!("C05/message-account", disc == Msg::DISCRIMINATOR);
        vassert!("C05/transceiver-enabled", t.id < 128 && cfg0.enabled_transceivers.get(t.id & 127).unwrap());
        vassert!("C05/config", cfg.owner == ntt::ID && mint.key == cfg0.mint);
        vassert!("C05/inbox-item-is-the-message's", item.key == e_item && (fresh || item.owner == ntt::ID));
        vassert!("C03/limit-of-the-source-chain", irla.key == e_irl && irla.owner == ntt::ID && orla.owner == ntt::ID);

        // content
        let amount = if mint_dec >= from_dec {
            let mut x = f.amount;
            let mut k = from_dec;
            while k < mint_dec {
                x = x.wrapping_mul(10);
                k += 1;
            }
            x
        } else {
            let mut q = 1;
            let mut k = mint_dec;
            while k < from_dec {
                q *= 10;
                k += 1;
            }
            f.amount / q
        };
        let inited = !fresh && pre.init;
        if inited {
            vassert!("C05/content-kept", it.amount == pre.amount && it.recipient_address == pre.recipient_address);
        } else {
            vassert!("C05/content", it.amount == amount && it.recipient_address == Pubkey::new_from_array(f.to));
        }
        vassert!("C05/initialised", it.init);

        // votes
        let votes0 = if inited { pre.votes } else { ntt::bitmap::Bitmap::new() };
        let mut want = votes0;
        let _ = want.set(t.id, true);
        vassert!("C04/own-vote-only", it.votes == want);
        vassert!("C04/threshold-positive", cfg0.threshold > 0);
        let n = want.count_enabled_votes(cfg0.enabled_transceivers);
        let status0 = if inited { pre.release_status.clone() } else { ReleaseStatus::NotApproved };
        if n < cfg0.threshold {
            vassert!("C04/not-approved-below-threshold", it.release_status == status0);
            vassert!("C03/no-accounting-below-threshold", irl.rate_limit == irl0.rate_limit && orl == orl0);
            vcover!("below", true);
        } else {
            vassert!("C06/approved-once", status0 == ReleaseStatus::NotApproved);
            if irl0.rate_limit.capacity_at_last_tx >= amount {
                vassert!("C06/immediately-within-limit", it.release_status == ReleaseStatus::ReleaseAfter(now));
                vassert!("C03/inbound-consumed", irl.rate_limit.capacity_at_last_tx == irl0.rate_limit.capacity_at_last_tx - amount
                    && irl.rate_limit.limit == irl0.rate_limit.limit && irl.rate_limit.last_tx_timestamp == now);
                let back = (orl0.rate_limit.capacity_at_last_tx as u128 + amount as u128).min(orl0.rate_limit.limit as u128);
                vassert!("C03/outbound-refilled", orl.rate_limit.capacity_at_last_tx as u128 == back
                    && orl.rate_limit.limit == orl0.rate_limit.limit && orl.rate_limit.last_tx_timestamp == now);
                vcover!("approved", true);
            } else {
                vassert!("C06/delayed-a-day", it.release_status == ReleaseStatus::ReleaseAfter(now + 86_400));
                vassert!("C03/delayed-no-accounting", irl.rate_limit == irl0.rate_limit && orl == orl0);
                vcover!("delayed", true);
            }
        }
        vassert!("C05/keeps-config", cfg_eq(&c, &cfg0));
        it.release_status = ReleaseStatus::ReleaseAfter(0);
        vassert!("C22/inbox-item-fits", fits(&it, accs[6].data_len()));
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn redeem_fresh() {
    redeem(true, false, 8, 8)
}
#[cfg_attr(kani, kani::proof)]
pub fn redeem_again() {
    redeem(false, false, 8, 9)
}
#[cfg_attr(kani, kani::proof)]
pub fn redeem_foreign() {
    redeem(false, true, 8, 8)
}
