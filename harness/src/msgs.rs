//! Symbolic messages.
use crate::env::*;
use ntt_messages::{
    ntt::{EmptyPayload, NativeTokenTransfer}, ntt_manager::NttManagerMessage, transceiver::TransceiverMessageData,
};
pub type Data = TransceiverMessageData<NativeTokenTransfer<EmptyPayload>>;

pub fn any_data() -> Data {
    TransceiverMessageData {
        source_ntt_manager: nd_bytes32(),
        recipient_ntt_manager: nd_bytes32(),
        ntt_manager_payload: NttManagerMessage {
            id: nd_bytes32(),
            sender: nd_bytes32(),
            payload: NativeTokenTransfer {
                amount: TrimmedAmount { amount: nd_u64(), decimals: nd_u8() },
                source_token: nd_bytes32(),
                to_chain: ChainId { id: nd_u16() },
                to: nd_bytes32(),
                additional_payload: EmptyPayload {},
            },
        },
    }
}
pub fn data_eq(a: &Data, b: &Data) -> bool {
    let (x, y) = (&a.ntt_manager_payload, &b.ntt_manager_payload);
    same32(&a.source_ntt_manager, &b.source_ntt_manager) & same32(&a.recipient_ntt_manager, &b.recipient_ntt_manager)
        & same32(&x.id, &y.id) & same32(&x.sender, &y.sender)
        & (x.payload.amount.amount == y.payload.amount.amount) & (x.payload.amount.decimals == y.payload.amount.decimals)
        & same32(&x.payload.source_token, &y.payload.source_token) & same32(&x.payload.to, &y.payload.to)
        & (x.payload.to_chain.id == y.payload.to_chain.id)
}

