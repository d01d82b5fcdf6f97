//! Single functions behind the instructions. Left out when their signatures change.
use crate::env::*;
use ntt::bitmap::Bitmap;
use ntt::queue::inbox::{InboxItem, ReleaseStatus};
use ntt::queue::outbox::OutboxItem;

#[cfg_attr(kani, kani::proof)]
pub fn outbox_try_release() {
    begin(ntt::ID);
    let now = unsafe { NOW };
    let mut it = OutboxItem {
        amount: TrimmedAmount { amount: nd_u64(), decimals: nd_u8() },
        sender: nd_key(),
        recipient_chain: ChainId { id: nd_u16() },
        recipient_ntt_manager: nd_bytes32(),
        recipient_address: nd_bytes32(),
        release_timestamp: nd_i64(),
        released: Bitmap::from_value(nd_u128()),
    };
    let it0 = it.clone();
    let id = nd_u8();
    let r = it.try_release(id);
    if let Ok(yes) = r {
        let due = it0.release_timestamp <= now;
        vassert!("C07/fn-when-due", yes == due);
        if yes {
            vassert!("C07/fn-once", id < 128 && !it0.released.get(id & 127).unwrap());
            let mut want = it0.released;
            let _ = want.set(id & 127, true);
            vassert!("C07/fn-marks", it.released == want);
        } else {
            vassert!("C07/fn-unmarked", it.released == it0.released);
        }
        vassert!("C07/fn-keeps", it.amount.amount == it0.amount.amount && it.amount.decimals == it0.amount.decimals && it.sender == it0.sender
            && it.recipient_chain.id == it0.recipient_chain.id && same32(&it.recipient_ntt_manager, &it0.recipient_ntt_manager)
            && same32(&it.recipient_address, &it0.recipient_address) && it.release_timestamp == it0.release_timestamp);
        vcover!("released", yes);
        vcover!("later", !yes);
    }
    core::mem::forget(r);
}

fn any_inbox() -> InboxItem {
    let s = nd_u8();
    InboxItem {
        init: nd_bool(),
        bump: nd_u8(),
        amount: nd_u64(),
        recipient_address: nd_key(),
        votes: Bitmap::from_value(nd_u128()),
        release_status: if s == 0 { ReleaseStatus::NotApproved } else if s == 1 { ReleaseStatus::ReleaseAfter(nd_i64()) } else { ReleaseStatus::Released },
    }
}
fn keeps(a: &InboxItem, b: &InboxItem) -> bool {
    (a.init == b.init) & (a.bump == b.bump) & (a.amount == b.amount) & (a.recipient_address == b.recipient_address) & (a.votes == b.votes)
}

#[cfg_attr(kani, kani::proof)]
pub fn inbox_try_release() {
    begin(ntt::ID);
    let now = unsafe { NOW };
    let mut it = any_inbox();
    let it0 = it.clone();
    let r = it.try_release();
    if let Ok(yes) = r {
        let due = match it0.release_status {
            ReleaseStatus::ReleaseAfter(t) => t <= now,
            _ => false,
        };
        vassert!("C06/fn-only-when-due", yes == due);
        vassert!("C06/fn-never-twice", it0.release_status != ReleaseStatus::Released);
        vassert!("C06/fn-status", it.release_status == if due { ReleaseStatus::Released } else { it0.release_status.clone() });
        vassert!("C06/fn-keeps", keeps(&it, &it0));
        vcover!("released", yes);
        vcover!("later", !yes);
    }
    core::mem::forget(r);
}
#[cfg_attr(kani, kani::proof)]
pub fn inbox_release_after() {
    begin(ntt::ID);
    let mut it = any_inbox();
    let it0 = it.clone();
    let t = nd_i64();
    let r = it.release_after(t);
    if r.is_ok() {
        vassert!("C06/fn-approved-once", it0.release_status == ReleaseStatus::NotApproved);
        vassert!("C06/fn-approved-until", it.release_status == ReleaseStatus::ReleaseAfter(t));
        vassert!("C06/fn-keeps", keeps(&it, &it0));
        vcover!("approved", true);
    }
    core::mem::forget(r);
}
#[cfg_attr(kani, kani::proof)]
pub fn session_hash() {
    let any = || ntt::instructions::TransferArgs { amount: nd_u64(), recipient_chain: ChainId { id: nd_u16() }, recipient_address: nd_bytes32(), should_queue: nd_bool() };
    let a = any();
    let b = any();
    let eq = (a.amount == b.amount) & (a.recipient_chain.id == b.recipient_chain.id) & same32(&a.recipient_address, &b.recipient_address) & (a.should_queue == b.should_queue);
    vassert!("C12/fn-distinct-arguments-distinct-sessions", same32(&a.keccak256().0, &b.keccak256().0) == eq);
    vcover!("same", eq);
    vcover!("different", !eq);
}
