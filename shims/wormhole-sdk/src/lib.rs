//! Stand-in for the two items of the `wormhole-sdk` git dependency (not available offline) that
//! wormhole-governance uses: chain ids and the governance emitter address.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Chain {
    Any,
    Solana,
    Ethereum,
    Unknown(u16),
}
impl From<u16> for Chain {
    fn from(v: u16) -> Self {
        match v {
            0 => Chain::Any,
            1 => Chain::Solana,
            2 => Chain::Ethereum,
            c => Chain::Unknown(c),
        }
    }
}
impl From<Chain> for u16 {
    fn from(c: Chain) -> u16 {
        match c {
            Chain::Any => 0,
            Chain::Solana => 1,
            Chain::Ethereum => 2,
            Chain::Unknown(v) => v,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Address(pub [u8; 32]);
pub const GOVERNANCE_EMITTER: Address = Address([
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4,
]);
