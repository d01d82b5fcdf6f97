//! Wire formats and message identities.
use crate::env::*;
use crate::msgs::*;
use ntt_messages::{
    ntt::{EmptyPayload, NativeTokenTransfer},
    ntt_manager::NttManagerMessage,
    transceiver::TransceiverMessage,
    transceivers::wormhole::*,
};
use std::io;
use wormhole_io::{Readable, TypePrefixedPayload, Writeable};

/// A payload that applications could attach.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Extra(pub [u8; 5]);
impl anchor_lang::Space for Extra {
    const INIT_SPACE: usize = 5;
}
impl TypePrefixedPayload for Extra {
    const TYPE: Option<u8> = None;
}
impl Readable for Extra {
    const SIZE: Option<usize> = Some(5);
    fn read<R: io::Read>(r: &mut R) -> io::Result<Self> {
        Ok(Extra(Readable::read(r)?))
    }
}
impl Writeable for Extra {
    fn written_size(&self) -> usize {
        5
    }
    fn write<W: io::Write>(&self, w: &mut W) -> io::Result<()> {
        self.0.write(w)
    }
}

fn nd_extra() -> Extra {
    let a = nd_u64().to_le_bytes();
    Extra([a[0], a[1], a[2], a[3], a[4]])
}

fn words<const N: usize>(b: &[u8; N]) -> [u128; 16] {
    let mut w = [0u128; 16];
    unsafe { *(w.as_mut_ptr() as *mut [u8; N]) = *b };
    w
}
fn same<const N: usize>(a: &[u8; N], b: &[u8; N]) -> bool {
    let (a, b) = (words(a), words(b));
    let mut ok = true;
    let mut i = 0;
    while i < (N + 15) / 16 {
        ok &= a[i] == b[i];
        i += 1;
    }
    ok
}
/// The encoding, and whether it has exactly N bytes.
fn encode<const N: usize, T: TypePrefixedPayload>(m: &T, out: &mut [u8; N]) -> bool {
    let mut w = &mut out[..];
    let ok = m.write_payload(&mut w).is_ok();
    ok && w.len() == 0
}

// --- transfers ---
fn transfer_bytes<const N: usize, A: anchor_lang::Space>(d: &mut [u8; N], i: &mut usize, t: &NativeTokenTransfer<A>, extra: Option<[u8; 5]>) {
    put(d, i, [0x99, 0x4e, 0x54, 0x54]);
    put(d, i, [t.amount.decimals]);
    put(d, i, t.amount.amount.to_be_bytes());
    put(d, i, t.source_token);
    put(d, i, t.to);
    put(d, i, t.to_chain.id.to_be_bytes());
    if let Some(e) = extra {
        put(d, i, 5u16.to_be_bytes());
        put(d, i, e);
    }
}
fn any_transfer<A: anchor_lang::Space>(a: A) -> NativeTokenTransfer<A> {
    NativeTokenTransfer {
        amount: TrimmedAmount { amount: nd_u64(), decimals: nd_u8() },
        source_token: nd_bytes32(),
        to_chain: ChainId { id: nd_u16() },
        to: nd_bytes32(),
        additional_payload: a,
    }
}
fn transfer_eq<A: anchor_lang::Space>(a: &NativeTokenTransfer<A>, b: &NativeTokenTransfer<A>) -> bool {
    (a.amount.amount == b.amount.amount) & (a.amount.decimals == b.amount.decimals) & same32(&a.source_token, &b.source_token)
        & same32(&a.to, &b.to) & (a.to_chain.id == b.to_chain.id)
}

#[cfg_attr(kani, kani::proof)]
pub fn transfer() {
    let t = any_transfer(EmptyPayload {});
    let mut want = [0u8; 79];
    let mut i = 0;
    transfer_bytes(&mut want, &mut i, &t, None);
    let mut got = [0u8; 79];
    let ok = encode(&t, &mut got);
    vassert!("C15/transfer-layout", ok && same(&got, &want));
    vassert!("C15/transfer-length", t.written_size() == 79);
    let mut r = &want[..];
    match NativeTokenTransfer::<EmptyPayload>::read(&mut r) {
        Ok(b) => {
            vassert!("C15/transfer-round-trip", transfer_eq(&t, &b) && r.len() == 0);
            vcover!("transfer", true);
        }
        Err(_) => vassert!("C15/transfer-decodes", false),
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn transfer_extra() {
    let t = any_transfer(nd_extra());
    let mut want = [0u8; 86];
    let mut i = 0;
    transfer_bytes(&mut want, &mut i, &t, Some(t.additional_payload.0));
    let mut got = [0u8; 86];
    let ok = encode(&t, &mut got);
    vassert!("C15/transfer-layout", ok && same(&got, &want));
    vassert!("C15/transfer-length", t.written_size() == 86);
    let mut r = &want[..];
    match NativeTokenTransfer::<Extra>::read(&mut r) {
        Ok(b) => {
            vassert!("C15/transfer-round-trip", transfer_eq(&t, &b) && r.len() == 0 && t.additional_payload.0 == b.additional_payload.0);
            vcover!("transfer", true);
        }
        Err(_) => vassert!("C15/transfer-decodes", false),
    }
}
/// Any 79 bytes.
#[cfg_attr(kani, kani::proof)]
pub fn transfer_decode() {
    let d = nd_array::<79>();
    let mut r = &d[..];
    match NativeTokenTransfer::<EmptyPayload>::read(&mut r) {
        Ok(t) => {
            let mut want = [0u8; 79];
            let mut i = 0;
            transfer_bytes(&mut want, &mut i, &t, None);
            vassert!("C15/transfer-accepts-only-its-format", same(&d, &want));
            vcover!("accepted", true);
        }
        Err(_) => {
            let p = u32::from_be_bytes([d[0], d[1], d[2], d[3]]);
            vassert!("C15/transfer-accepts-its-format", p != 0x994e5454);
            vcover!("refused", true);
        }
    }
    let mut short = &d[..78];
    vassert!("C15/transfer-refuses-truncated", NativeTokenTransfer::<EmptyPayload>::read(&mut short).is_err());
}
fn nd_array<const N: usize>() -> [u8; N] {
    let mut w = [0u128; 16];
    let mut i = 0;
    while i < (N + 15) / 16 {
        w[i] = nd_u128();
        i += 1;
    }
    unsafe { *(w.as_ptr() as *const [u8; N]) }
}

// --- manager messages ---
fn manager_bytes<const N: usize, A: anchor_lang::Space>(d: &mut [u8; N], i: &mut usize, m: &NttManagerMessage<NativeTokenTransfer<A>>, extra: Option<[u8; 5]>) {
    put(d, i, m.id);
    put(d, i, m.sender);
    put(d, i, (if extra.is_some() { 86u16 } else { 79 }).to_be_bytes());
    transfer_bytes(d, i, &m.payload, extra);
}
fn manager_eq<A: anchor_lang::Space>(a: &NttManagerMessage<NativeTokenTransfer<A>>, b: &NttManagerMessage<NativeTokenTransfer<A>>) -> bool {
    same32(&a.id, &b.id) & same32(&a.sender, &b.sender) & transfer_eq(&a.payload, &b.payload)
}
#[cfg_attr(kani, kani::proof)]
pub fn manager() {
    let m = NttManagerMessage { id: nd_bytes32(), sender: nd_bytes32(), payload: any_transfer(EmptyPayload {}) };
    let mut want = [0u8; 145];
    let mut i = 0;
    manager_bytes(&mut want, &mut i, &m, None);
    let mut got = [0u8; 145];
    let ok = encode(&m, &mut got);
    vassert!("C15/manager-layout", ok && same(&got, &want));
    vassert!("C15/manager-length", m.written_size() == 145);
    let mut r = &want[..];
    match NttManagerMessage::<NativeTokenTransfer<EmptyPayload>>::read(&mut r) {
        Ok(b) => {
            vassert!("C15/manager-round-trip", manager_eq(&m, &b) && r.len() == 0);
            vcover!("manager", true);
        }
        Err(_) => vassert!("C15/manager-decodes", false),
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn manager_extra() {
    let m = NttManagerMessage { id: nd_bytes32(), sender: nd_bytes32(), payload: any_transfer(nd_extra()) };
    let mut want = [0u8; 152];
    let mut i = 0;
    manager_bytes(&mut want, &mut i, &m, Some(m.payload.additional_payload.0));
    let mut got = [0u8; 152];
    let ok = encode(&m, &mut got);
    vassert!("C15/manager-layout", ok && same(&got, &want));
    let mut r = &want[..];
    match NttManagerMessage::<NativeTokenTransfer<Extra>>::read(&mut r) {
        Ok(b) => {
            vassert!("C15/manager-round-trip", manager_eq(&m, &b) && r.len() == 0 && m.payload.additional_payload.0 == b.payload.additional_payload.0);
            vcover!("manager", true);
        }
        Err(_) => vassert!("C15/manager-decodes", false),
    }
}

// --- transceiver messages ---
type Tm<A> = TransceiverMessage<WormholeTransceiver, NativeTokenTransfer<A>>;
fn transceiver_of<const N: usize, const P: usize>(tail: [u8; P]) {
    let data = any_data();
    let m: Tm<EmptyPayload> = TransceiverMessage::new(data.source_ntt_manager, data.recipient_ntt_manager, data.ntt_manager_payload.clone(), tail.to_vec());
    let mut want = [0u8; N];
    let mut i = 0;
    put(&mut want, &mut i, [0x99, 0x45, 0xff, 0x10]);
    put(&mut want, &mut i, data.source_ntt_manager);
    put(&mut want, &mut i, data.recipient_ntt_manager);
    put(&mut want, &mut i, 145u16.to_be_bytes());
    manager_bytes(&mut want, &mut i, &data.ntt_manager_payload, None);
    put(&mut want, &mut i, (P as u16).to_be_bytes());
    put(&mut want, &mut i, tail);
    let mut got = [0u8; N];
    let ok = encode(&m, &mut got);
    vassert!("C15/transceiver-layout", ok && i == N && same(&got, &want));
    let mut r = &want[..];
    match Tm::<EmptyPayload>::read(&mut r) {
        Ok(b) => {
            vassert!("C15/transceiver-round-trip", data_eq(&b.message_data, &data) && r.len() == 0 && b.transceiver_payload.len() == P);
            let mut ok = true;
            let mut j = 0;
            while j < P {
                ok &= b.transceiver_payload[j] == tail[j];
                j += 1;
            }
            vassert!("C15/transceiver-payload", ok);
            vcover!("transceiver", true);
            core::mem::forget(b);
        }
        Err(_) => vassert!("C15/transceiver-decodes", false),
    }
    core::mem::forget(m);
}
#[cfg_attr(kani, kani::proof)]
pub fn transceiver() {
    transceiver_of::<217, 0>([]);
}
#[cfg_attr(kani, kani::proof)]
pub fn transceiver_tail() {
    let t = nd_u64().to_le_bytes();
    transceiver_of::<220, 3>([t[0], t[1], t[2]]);
}
/// Any 217 bytes without a transceiver payload.
#[cfg_attr(kani, kani::proof)]
pub fn transceiver_decode() {
    let mut d = nd_array::<217>();
    d[215] = 0;
    d[216] = 0;
    let mut r = &d[..];
    match Tm::<EmptyPayload>::read(&mut r) {
        Ok(t) => {
            let p = u32::from_be_bytes([d[0], d[1], d[2], d[3]]);
            let q = u32::from_be_bytes([d[136], d[137], d[138], d[139]]);
            vassert!("C15/transceiver-accepts-only-its-prefixes", p == 0x9945ff10 && q == 0x994e5454);
            let mut want = [0u8; 217];
            let mut i = 0;
            put(&mut want, &mut i, [0x99, 0x45, 0xff, 0x10]);
            put(&mut want, &mut i, t.message_data.source_ntt_manager);
            put(&mut want, &mut i, t.message_data.recipient_ntt_manager);
            put(&mut want, &mut i, [d[68], d[69]]); // the lengths are not needed to decode
            manager_bytes(&mut want, &mut i, &t.message_data.ntt_manager_payload, None);
            want[134] = d[134];
            want[135] = d[135];
            vassert!("C15/transceiver-fields", same(&d, &want) && r.len() == 0 && t.transceiver_payload.len() == 0);
            vcover!("accepted", true);
            core::mem::forget(t);
        }
        Err(_) => {
            let p = u32::from_be_bytes([d[0], d[1], d[2], d[3]]);
            let q = u32::from_be_bytes([d[136], d[137], d[138], d[139]]);
            vassert!("C15/transceiver-accepts-its-format", p != 0x9945ff10 || q != 0x994e5454);
            vcover!("refused", true);
        }
    }
}

// --- announcements ---
#[cfg_attr(kani, kani::proof)]
pub fn info() {
    let m = WormholeTransceiverInfo { manager_address: nd_bytes32(), manager_mode: nd_mode(), token_address: nd_bytes32(), token_decimals: nd_u8() };
    let mut want = [0u8; 70];
    let mut i = 0;
    put(&mut want, &mut i, [0x9c, 0x23, 0xbd, 0x3b]);
    put(&mut want, &mut i, m.manager_address);
    put(&mut want, &mut i, [if m.manager_mode == Mode::Burning { 1 } else { 0 }]);
    put(&mut want, &mut i, m.token_address);
    put(&mut want, &mut i, [m.token_decimals]);
    let mut got = [0u8; 70];
    let ok = encode(&m, &mut got);
    vassert!("C15/info-layout", ok && same(&got, &want));
    let d = nd_array::<70>();
    let mut r = &d[..];
    let p = u32::from_be_bytes([d[0], d[1], d[2], d[3]]);
    match WormholeTransceiverInfo::read(&mut r) {
        Ok(b) => {
            let mut back = [0u8; 70];
            let mut i = 0;
            put(&mut back, &mut i, [0x9c, 0x23, 0xbd, 0x3b]);
            put(&mut back, &mut i, b.manager_address);
            put(&mut back, &mut i, [if b.manager_mode == Mode::Burning { 1 } else { 0 }]);
            put(&mut back, &mut i, b.token_address);
            put(&mut back, &mut i, [b.token_decimals]);
            vassert!("C15/info-accepts-only-its-format", same(&back, &d) && r.len() == 0);
            vcover!("accepted", true);
        }
        Err(_) => {
            vassert!("C15/info-accepts-its-format", p != 0x9c23bd3b || d[36] > 1);
            vcover!("refused", true);
        }
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn registration() {
    let m = WormholeTransceiverRegistration { chain_id: ChainId { id: nd_u16() }, transceiver_address: nd_bytes32() };
    let mut want = [0u8; 38];
    let mut i = 0;
    put(&mut want, &mut i, [0x18, 0xfc, 0x67, 0xc2]);
    put(&mut want, &mut i, m.chain_id.id.to_be_bytes());
    put(&mut want, &mut i, m.transceiver_address);
    let mut got = [0u8; 38];
    let ok = encode(&m, &mut got);
    vassert!("C15/registration-layout", ok && same(&got, &want));
    let d = nd_array::<38>();
    let mut r = &d[..];
    let p = u32::from_be_bytes([d[0], d[1], d[2], d[3]]);
    match WormholeTransceiverRegistration::read(&mut r) {
        Ok(b) => {
            let mut back = [0u8; 38];
            let mut i = 0;
            put(&mut back, &mut i, [0x18, 0xfc, 0x67, 0xc2]);
            put(&mut back, &mut i, b.chain_id.id.to_be_bytes());
            put(&mut back, &mut i, b.transceiver_address);
            vassert!("C15/registration-accepts-only-its-format", same(&back, &d) && r.len() == 0);
            vcover!("accepted", true);
        }
        Err(_) => {
            vassert!("C15/registration-accepts-its-format", p != 0x18fc67c2);
            vcover!("refused", true);
        }
    }
}

// --- identity ---
#[cfg_attr(kani, kani::proof)]
pub fn digest() {
    let m = NttManagerMessage { id: nd_bytes32(), sender: nd_bytes32(), payload: any_transfer(EmptyPayload {}) };
    let chain = nd_u16();
    let mut want = [0u8; 145];
    let mut i = 0;
    manager_bytes(&mut want, &mut i, &m, None);
    let e = hash_model(KIND_KECCAK, &[&chain.to_be_bytes(), &want]);
    let h = m.keccak256(ChainId { id: chain });
    vassert!("C16/digest-of-chain-and-encoding", same32(&h.0, &e));
    vcover!("digest", true);
}
#[cfg_attr(kani, kani::proof)]
pub fn digest_distinct() {
    let a = NttManagerMessage { id: nd_bytes32(), sender: nd_bytes32(), payload: any_transfer(EmptyPayload {}) };
    let b = NttManagerMessage { id: nd_bytes32(), sender: nd_bytes32(), payload: any_transfer(EmptyPayload {}) };
    let (ca, cb) = (nd_u16(), nd_u16());
    let ha = a.keccak256(ChainId { id: ca });
    let hb = b.keccak256(ChainId { id: cb });
    let eq = ca == cb && manager_eq(&a, &b);
    vassert!("C16/same-identity-iff-same-message", same32(&ha.0, &hb.0) == eq);
    vcover!("same", eq);
    vcover!("different", !eq);
}
