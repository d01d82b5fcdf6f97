//! State accounts: every value fits the account, reads back the same, and no other account is read as it.
use crate::env::*;
use crate::msgs::*;
use anchor_lang::{AccountDeserialize, AccountSerialize, Discriminator, Space};
use ntt::bitmap::Bitmap;
use ntt::config::Config;
use ntt::instructions::LUT;
use ntt::peer::NttManagerPeer;
use ntt::queue::inbox::{InboxItem, InboxRateLimit, ReleaseStatus};
use ntt::queue::outbox::{OutboxItem, OutboxRateLimit};
use ntt::queue::rate_limit::RateLimitState;
use ntt::registered_transceiver::RegisteredTransceiver;
use ntt::transceivers::accounts::peer::TransceiverPeer;
use ntt_quoter::state as qs;
use ntt_transceiver as xc;

type Transfer = ntt_messages::ntt::NativeTokenTransfer<ntt_messages::ntt::EmptyPayload>;

fn nd_rate() -> RateLimitState {
    RateLimitState { limit: nd_u64(), capacity_at_last_tx: nd_u64(), last_tx_timestamp: nd_i64() }
}
fn rate_eq(a: &RateLimitState, b: &RateLimitState) -> bool {
    (a.limit == b.limit) & (a.capacity_at_last_tx == b.capacity_at_last_tx) & (a.last_tx_timestamp == b.last_tx_timestamp)
}

/// Store, read back, and read with another discriminator.
fn store<const N: usize, T: AccountSerialize + AccountDeserialize + Discriminator>(v: &T, space: usize, eq: fn(&T, &T) -> bool) {
    let mut buf = [0u8; N];
    // what a longer value left there before
    let mut i = 0;
    while i < N {
        buf[i] = 0xff;
        i += 1;
    }
    vassert!("C22/harness-buffer", 8 + space <= N);
    let left = {
        let mut w = &mut buf[..8 + space];
        let r = v.try_serialize(&mut w);
        vassert!("C22/fits", r.is_ok());
        w.len()
    };
    let mut r = &buf[..8 + space];
    match T::try_deserialize(&mut r) {
        Ok(x) => {
            vassert!("C22/reads-back", eq(v, &x));
            vcover!("ok", true);
        }
        Err(e) => {
            core::mem::forget(e);
            vassert!("C22/readable", false);
        }
    }
    let d = nd_u64().to_le_bytes();
    let mut i = 0;
    put(&mut buf[..], &mut i, d);
    let mut r = &buf[..8 + space];
    let bad = match T::try_deserialize(&mut r) {
        Ok(_) => false,
        Err(e) => {
            core::mem::forget(e);
            true
        }
    };
    vassert!("C22/only-its-own-kind", bad == (u64::from_le_bytes(d) != u64::from_le_bytes(T::DISCRIMINATOR)));
}

#[cfg_attr(kani, kani::proof)]
pub fn config_offered() {
    let mut c = any_config();
    c.pending_owner = Some(nd_key());
    store::<300, Config>(&c, Config::INIT_SPACE, cfg_eq);
}
#[cfg_attr(kani, kani::proof)]
pub fn config() {
    let mut c = any_config();
    c.pending_owner = None;
    store::<300, Config>(&c, Config::INIT_SPACE, cfg_eq);
}
#[cfg_attr(kani, kani::proof)]
pub fn inbox_item() {
    let release_status = match nd_u8() {
        0 => ReleaseStatus::NotApproved,
        1 => ReleaseStatus::ReleaseAfter(nd_i64()),
        _ => ReleaseStatus::Released,
    };
    let v = InboxItem { init: nd_bool(), bump: nd_u8(), amount: nd_u64(), recipient_address: nd_key(), votes: Bitmap::from_value(nd_u128()), release_status };
    store::<100, InboxItem>(&v, InboxItem::INIT_SPACE, |a, b| {
        (a.init == b.init) & (a.bump == b.bump) & (a.amount == b.amount) & (a.recipient_address == b.recipient_address) & (a.votes == b.votes)
            & (a.release_status == b.release_status)
    });
}
#[cfg_attr(kani, kani::proof)]
pub fn outbox_item() {
    let v = OutboxItem {
        amount: TrimmedAmount { amount: nd_u64(), decimals: nd_u8() },
        sender: nd_key(),
        recipient_chain: ChainId { id: nd_u16() },
        recipient_ntt_manager: nd_bytes32(),
        recipient_address: nd_bytes32(),
        release_timestamp: nd_i64(),
        released: Bitmap::from_value(nd_u128()),
    };
    store::<200, OutboxItem>(&v, OutboxItem::INIT_SPACE, |a, b| {
        (a.amount.amount == b.amount.amount) & (a.amount.decimals == b.amount.decimals) & (a.sender == b.sender) & (a.recipient_chain.id == b.recipient_chain.id)
            & same32(&a.recipient_ntt_manager, &b.recipient_ntt_manager) & same32(&a.recipient_address, &b.recipient_address)
            & (a.release_timestamp == b.release_timestamp) & (a.released == b.released)
    });
}
#[cfg_attr(kani, kani::proof)]
pub fn rate_limits() {
    store::<64, InboxRateLimit>(&InboxRateLimit { bump: nd_u8(), rate_limit: nd_rate() }, InboxRateLimit::INIT_SPACE, |a, b| {
        (a.bump == b.bump) & rate_eq(&a.rate_limit, &b.rate_limit)
    });
    store::<64, OutboxRateLimit>(&OutboxRateLimit { rate_limit: nd_rate() }, OutboxRateLimit::INIT_SPACE, |a, b| rate_eq(&a.rate_limit, &b.rate_limit));
}
#[cfg_attr(kani, kani::proof)]
pub fn peers() {
    store::<64, NttManagerPeer>(&NttManagerPeer { bump: nd_u8(), address: nd_bytes32(), token_decimals: nd_u8() }, NttManagerPeer::INIT_SPACE, |a, b| {
        (a.bump == b.bump) & same32(&a.address, &b.address) & (a.token_decimals == b.token_decimals)
    });
    store::<64, TransceiverPeer>(&TransceiverPeer { bump: nd_u8(), address: nd_bytes32() }, TransceiverPeer::INIT_SPACE, |a, b| {
        (a.bump == b.bump) & same32(&a.address, &b.address)
    });
    store::<64, xc::peer::TransceiverPeer>(&xc::peer::TransceiverPeer { bump: nd_u8(), address: nd_bytes32() }, xc::peer::TransceiverPeer::INIT_SPACE, |a, b| {
        (a.bump == b.bump) & same32(&a.address, &b.address)
    });
}
#[cfg_attr(kani, kani::proof)]
pub fn registered() {
    store::<64, RegisteredTransceiver>(
        &RegisteredTransceiver { bump: nd_u8(), id: nd_u8(), transceiver_address: nd_key() },
        RegisteredTransceiver::INIT_SPACE,
        |a, b| (a.bump == b.bump) & (a.id == b.id) & (a.transceiver_address == b.transceiver_address),
    );
    store::<64, LUT>(&LUT { bump: nd_u8(), address: nd_key() }, LUT::INIT_SPACE, |a, b| (a.bump == b.bump) & (a.address == b.address));
}
#[cfg_attr(kani, kani::proof)]
pub fn quoter() {
    store::<128, qs::Instance>(
        &qs::Instance { owner: nd_key(), assistant: nd_key(), fee_recipient: nd_key(), sol_price: nd_u64() },
        qs::Instance::INIT_SPACE,
        |a, b| (a.owner == b.owner) & (a.assistant == b.assistant) & (a.fee_recipient == b.fee_recipient) & (a.sol_price == b.sol_price),
    );
    store::<64, qs::RegisteredChain>(
        &qs::RegisteredChain { bump: nd_u8(), max_gas_dropoff: nd_u64(), base_price: nd_u64(), native_price: nd_u64(), gas_price: nd_u64() },
        qs::RegisteredChain::INIT_SPACE,
        |a, b| {
            (a.bump == b.bump) & (a.max_gas_dropoff == b.max_gas_dropoff) & (a.base_price == b.base_price) & (a.native_price == b.native_price)
                & (a.gas_price == b.gas_price)
        },
    );
    store::<64, qs::RegisteredNtt>(
        &qs::RegisteredNtt { bump: nd_u8(), wormhole_transceiver_index: nd_u8(), gas_cost: nd_u32() },
        qs::RegisteredNtt::INIT_SPACE,
        |a, b| (a.bump == b.bump) & (a.wormhole_transceiver_index == b.wormhole_transceiver_index) & (a.gas_cost == b.gas_cost),
    );
    store::<64, qs::RelayRequest>(&qs::RelayRequest { requested_gas_dropoff: nd_u64() }, qs::RelayRequest::INIT_SPACE, |a, b| {
        a.requested_gas_dropoff == b.requested_gas_dropoff
    });
}

type Msg = ntt::messages::ValidatedTransceiverMessage<Transfer>;
type XMsg = xc::messages::ValidatedTransceiverMessage<Transfer>;

#[cfg_attr(kani, kani::proof)]
pub fn message() {
    store::<300, Msg>(&Msg { from_chain: ChainId { id: nd_u16() }, message: any_data() }, Msg::INIT_SPACE, |a, b| {
        (a.from_chain.id == b.from_chain.id) & data_eq(&a.message, &b.message)
    });
}
/// What the standalone transceiver stores is what the manager reads, in whole and in part.
#[cfg_attr(kani, kani::proof)]
pub fn message_across() {
    let v = XMsg { from_chain: ChainId { id: nd_u16() }, message: any_data() };
    let mut buf = [0u8; 300];
    vassert!("C22/harness-buffer", 8 + XMsg::INIT_SPACE <= 300);
    let mut w = &mut buf[..8 + XMsg::INIT_SPACE];
    vassert!("C22/fits", v.try_serialize(&mut w).is_ok());
    let mut r = &buf[..8 + XMsg::INIT_SPACE];
    match Msg::try_deserialize(&mut r) {
        Ok(m) => {
            vassert!("C22/manager-reads-the-transceivers-message", (m.from_chain.id == v.from_chain.id) & data_eq(&m.message, &v.message));
            vcover!("ok", true);
        }
        Err(e) => {
            core::mem::forget(e);
            vassert!("C22/manager-can-read-the-transceivers-message", false);
        }
    }
    let mut a = Ac::any();
    let info = a.info_data(&mut buf[..]);
    let u = anchor_lang::prelude::UncheckedAccount::try_from(sr(&info));
    match Msg::from_chain(&u) {
        Ok(c) => vassert!("C22/chain-read-from-the-bytes", c.id == v.from_chain.id),
        Err(e) => {
            core::mem::forget(e);
            vassert!("C22/chain-readable-from-the-bytes", false);
        }
    }
    match Msg::message(&buf[..8 + XMsg::INIT_SPACE]) {
        Ok(m) => {
            vassert!("C22/managers-read-from-the-bytes", same32(&m.source_ntt_manager(), &v.message.source_ntt_manager) & same32(&m.recipient_ntt_manager(), &v.message.recipient_ntt_manager));
            let p = m.ntt_manager_payload();
            let d = ntt_messages::transceiver::TransceiverMessageData { source_ntt_manager: m.source_ntt_manager(), recipient_ntt_manager: m.recipient_ntt_manager(), ntt_manager_payload: p };
            vassert!("C22/payload-read-from-the-bytes", data_eq(&d, &v.message));
        }
        Err(e) => {
            core::mem::forget(e);
            vassert!("C22/message-readable-from-the-bytes", false);
        }
    }
}

/// No two kinds of account of one program, and none of those that are shared, have the same discriminator.
#[cfg_attr(kani, kani::proof)]
pub fn kinds() {
    let d = [
        Config::DISCRIMINATOR, InboxItem::DISCRIMINATOR, OutboxItem::DISCRIMINATOR, InboxRateLimit::DISCRIMINATOR, OutboxRateLimit::DISCRIMINATOR,
        NttManagerPeer::DISCRIMINATOR, TransceiverPeer::DISCRIMINATOR, RegisteredTransceiver::DISCRIMINATOR, LUT::DISCRIMINATOR, Msg::DISCRIMINATOR,
        qs::Instance::DISCRIMINATOR, qs::RegisteredChain::DISCRIMINATOR, qs::RegisteredNtt::DISCRIMINATOR, qs::RelayRequest::DISCRIMINATOR,
    ];
    let (i, j) = (nd_u8() as usize, nd_u8() as usize);
    assume(i < d.len() && j < d.len());
    vassert!("C22/kinds-differ", i == j || u64::from_le_bytes(d[i]) != u64::from_le_bytes(d[j]));
    vcover!("ok", i != j);
}
