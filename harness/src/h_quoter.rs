//! The relay quoter: prices, requests and who may change what.
use crate::env::*;
use anchor_lang::prelude::ProgramData;
use anchor_lang::solana_program::bpf_loader_upgradeable;
use anchor_lang::{AccountSerialize, Discriminator};
use ntt::bitmap::Bitmap;
use ntt::queue::outbox::OutboxItem;
use ntt_quoter as q;
use q::state::*;

const RENT: u64 = (128 + 16) * 3480 * 2;

fn any_instance() -> Instance {
    Instance { owner: nd_key(), assistant: nd_key(), fee_recipient: nd_key(), sol_price: nd_u64() }
}
fn any_chain() -> RegisteredChain {
    RegisteredChain { bump: nd_u8(), max_gas_dropoff: nd_u64(), base_price: nd_u64(), native_price: nd_u64(), gas_price: nd_u64() }
}
fn inst_eq(a: &Instance, b: &Instance) -> bool {
    (a.owner == b.owner) & (a.assistant == b.assistant) & (a.fee_recipient == b.fee_recipient) & (a.sol_price == b.sol_price)
}
fn chain_eq(a: &RegisteredChain, b: &RegisteredChain) -> bool {
    (a.bump == b.bump) & (a.max_gas_dropoff == b.max_gas_dropoff) & (a.base_price == b.base_price) & (a.native_price == b.native_price) & (a.gas_price == b.gas_price)
}
/// Invariant (established by `register_chain` and `register_ntt`): such an account of the quoter lives at the canonical
/// address of some chain or program and stores the bump of that address.
fn lives_at(prefix: &[u8], other: &[u8], a: &Ac, bump: u8) {
    let o = find_pda(&[prefix, other], &q::ID);
    assume(a.owner != q::ID || (a.key == o.0 && bump == o.1));
}

// ------------------------------------------------------------------------------------------------
// requests
// ------------------------------------------------------------------------------------------------

/// What the relay costs, in lamports: gas and drop-off in gwei, priced in usd, plus the base price, in lamports.
/// Every step rounds down; none may overflow.
fn fee(sol: u64, c: &RegisteredChain, gas_cost: u32, dropoff: u64) -> Option<u64> {
    const G: u128 = 1_000_000_000;
    let gas = u64::try_from(c.gas_price as u128 * gas_cost as u128 / G).ok()?;
    let native = dropoff.checked_add(gas)?;
    let usd = u64::try_from(c.native_price as u128 * native as u128 / G).ok()?;
    let total = usd.checked_add(c.base_price)?;
    u64::try_from(total as u128 * G / sol as u128).ok()
}

struct Prices {
    sol: u64,
    base: u64,
    native: u64,
    gas: u64,
    cost: u32,
    drop: u64,
}
fn request(p: Prices, new: bool) {
    begin(q::ID);
    let mut ins = any_instance();
    ins.sol_price = p.sol;
    let ins0 = ins.clone();
    let mut ch = any_chain();
    ch.base_price = p.base;
    ch.native_price = p.native;
    ch.gas_price = p.gas;
    let ch0 = ch.clone();
    let mut rn = RegisteredNtt { bump: nd_u8(), wormhole_transceiver_index: nd_u8(), gas_cost: p.cost };
    let it = OutboxItem {
        amount: TrimmedAmount { amount: nd_u64(), decimals: nd_u8() },
        sender: nd_key(),
        recipient_chain: ChainId { id: nd_u16() },
        recipient_ntt_manager: nd_bytes32(),
        recipient_address: nd_bytes32(),
        release_timestamp: nd_i64(),
        released: Bitmap::from_value(nd_u128()),
    };
    let mut data = [0u8; 160];
    {
        let mut w = &mut data[..];
        let _ = it.try_serialize(&mut w);
    }
    let disc = nd_u64().to_le_bytes();
    let mut i = 0;
    put(&mut data[..], &mut i, disc);
    let mut rq = RelayRequest { requested_gas_dropoff: nd_u64() };
    let rq0 = rq.requested_gas_dropoff;
    let (dropoff, max_fee) = (p.drop, nd_u64());
    let mut ix = [0u8; 16];
    let mut i = 0;
    put(&mut ix, &mut i, dropoff.to_le_bytes());
    put(&mut ix, &mut i, max_fee.to_le_bytes());

    let mut payer = Ac::any();
    let pay0 = payer.lamports;
    let mut inst = Ac::typed(&mut ins);
    let mut chain = Ac::typed(&mut ch);
    let mut reg = Ac::typed(&mut rn);
    let mut item = Ac::any();
    let mut req = Ac::maybe_new(&mut rq, new);
    let mut sys = Ac::any();
    assume(payer.key != req.key);
    let other = nd_u16();
    lives_at(b"registered_chain", &other.to_be_bytes(), &chain, ch0.bump);
    let prog = nd_key();
    lives_at(b"registered_ntt", prog.as_ref(), &reg, rn.bump);
    let e_chain = find_pda(&[b"registered_chain", &it.recipient_chain.id.to_be_bytes()], &q::ID).0;
    let e_reg = find_pda(&[b"registered_ntt", item.owner.as_ref()], &q::ID).0;
    let e_req = find_pda(&[b"relay_request", item.key.as_ref()], &q::ID).0;
    let mut d = [0u8; 16];
    let accs = [
        payer.info(), inst.info(), chain.info(), reg.info(), item.info_data(&mut data[..]),
        if new { req.info() } else { req.info_data(&mut d) }, sys.info(),
    ];
    let r = q::__private::__global::request_relay(&q::ID, sr(&accs[..]), &ix);
    if !new {
        vassert!("C17/requested-once", r.is_err());
        return;
    }
    if r.is_ok() {
        vassert!("C17/own-accounts", inst.owner == q::ID && chain.owner == q::ID && reg.owner == q::ID && req.owner == q::ID);
        vassert!("C17/chain-of-the-transfer", chain.key == e_chain);
        vassert!("C17/registered-manager", reg.key == e_reg);
        vassert!("C17/an-outbox-item", disc == OutboxItem::DISCRIMINATOR);
        let k = rn.wormhole_transceiver_index;
        vassert!("C17/released-by-wormhole", k < 128 && it.released.get(k & 127).unwrap());
        vassert!("C17/request-of-the-transfer", req.key == e_req);
        vassert!("C17/chain-enabled", ch0.base_price != u64::MAX && ins0.sol_price != 0);
        vassert!("C17/drop-off-limit", dropoff <= ch0.max_gas_dropoff);
        vassert!("C17/drop-off-recorded", rq.requested_gas_dropoff == dropoff);
        match fee(p.sol, &ch0, p.cost, dropoff) {
            Some(f) => {
                let total = f.max(RENT);
                vassert!("C17/price-paid", req.lamports == total);
                vassert!("C17/price-charged", pay0.wrapping_sub(payer.lamports) == total && pay0 >= total);
                vassert!("C17/within-maximum", total <= max_fee);
                vcover!("ok", total == max_fee && dropoff == ch0.max_gas_dropoff);
            }
            None => vassert!("C17/no-overflow", false),
        }
        vassert!("C17/prices-kept", inst_eq(&ins, &ins0) && chain_eq(&ch, &ch0));
        vassert!("C22/relay-request-fits", fits(&rq, accs[5].data_len()));
    }
}
/// The conversion to lamports, with no gas.
#[cfg_attr(kani, kani::proof)]
pub fn request_base() {
    request(Prices { sol: nd_u64() & 31, base: 0x1000000 + (nd_u64() & 31) * 4097, native: 0, gas: 0, cost: 21000, drop: nd_u64() }, true)
}
/// The price of the drop-off: sol at 150 usd.
#[cfg_attr(kani, kani::proof)]
pub fn request_drop() {
    request(Prices { sol: 150_000_000, base: nd_u64() & 7, native: 2_000_000_000 + (nd_u64() & 15), gas: 0, cost: nd_u32(), drop: 10_000_001 * (nd_u64() & 15) }, true)
}
/// The price of gas.
#[cfg_attr(kani, kani::proof)]
pub fn request_gas() {
    request(Prices { sol: 150_000_000, base: 1, native: 2_000_000_003, gas: 9_876_543_210 + (nd_u64() & 15), cost: 300_000 + (nd_u32() & 15) * 13, drop: nd_u64() & 7 }, true)
}
/// Values all over the range.
fn pick() -> u64 {
    match nd_u8() & 7 {
        0 => 0,
        1 => 1,
        2 => 999_999_999,
        3 => 1_000_000_000,
        4 => 1 << 40,
        5 => 1 << 62,
        6 => u64::MAX - 1,
        _ => u64::MAX,
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn request_range_usd() {
    request(Prices { sol: pick(), base: pick(), native: if nd_bool() { 1_000_000_000 } else { 0 }, gas: 0, cost: 0, drop: pick() }, true)
}
#[cfg_attr(kani, kani::proof)]
pub fn request_range_native() {
    request(Prices { sol: 1_000_000_000, base: if nd_bool() { 1 } else { 1 << 62 }, native: pick(), gas: if nd_bool() { u64::MAX } else { 0 }, cost: if nd_bool() { 1 << 28 } else { 3 }, drop: pick() }, true)
}
#[cfg_attr(kani, kani::proof)]
pub fn request_again() {
    request(Prices { sol: 1, base: 1, native: 1, gas: 1, cost: 1, drop: nd_u64() }, false)
}

// ------------------------------------------------------------------------------------------------
// administration
// ------------------------------------------------------------------------------------------------

macro_rules! by {
    (owner $s:expr, $inst:expr, $pre:expr) => {
        vassert!("C17/signed", $s.signer && $inst.owner == q::ID);
        vassert!("C17/by-the-owner", $s.key == $pre.owner);
    };
    (either $s:expr, $inst:expr, $pre:expr) => {
        vassert!("C17/signed", $s.signer && $inst.owner == q::ID);
        vassert!("C17/by-owner-or-assistant", ($s.key == $pre.owner) | ($s.key == $pre.assistant));
        vcover!("by-the-assistant", $s.key == $pre.assistant && $s.key != $pre.owner);
    };
}

#[cfg_attr(kani, kani::proof)]
pub fn close() {
    begin(q::ID);
    let mut ins = any_instance();
    let pre = ins.clone();
    let mut rq = RelayRequest { requested_gas_dropoff: nd_u64() };
    let mut auth = Ac::any();
    let mut inst = Ac::typed(&mut ins);
    let mut rec = Ac::any();
    let mut req = Ac::typed(&mut rq);
    let mut sys = Ac::any();
    let (r0, q0, owner0) = (rec.lamports, req.lamports, req.owner);
    assume(rec.key != req.key);
    let mut d = [0u8; 16];
    let accs = [auth.info(), inst.info(), rec.info(), req.info_data(&mut d), sys.info()];
    let r = q::__private::__global::close_relay(&q::ID, sr(&accs[..]), &[]);
    if r.is_ok() {
        by!(either auth, inst, pre);
        vassert!("C17/closes-a-request", owner0 == q::ID);
        vassert!("C17/to-the-fee-recipient", rec.key == pre.fee_recipient && rec.lamports == r0.wrapping_add(q0));
        vassert!("C17/closed", req.lamports == 0 && req.owner == SYS && accs[3].data_len() == 0);
        vassert!("C17/close-keeps-settings", inst_eq(&ins, &pre));
        vcover!("ok", q0 > 0);
    }
}

#[cfg_attr(kani, kani::proof)]
pub fn set_fee_recipient() {
    begin(q::ID);
    let mut ins = any_instance();
    let pre = ins.clone();
    let mut owner = Ac::any();
    let mut inst = Ac::typed(&mut ins);
    let mut rec = Ac::any();
    let accs = [owner.info(), inst.info(), rec.info()];
    let r = q::__private::__global::set_fee_recipient(&q::ID, sr(&accs[..]), &[]);
    if r.is_ok() {
        by!(owner owner, inst, pre);
        let mut want = pre.clone();
        want.fee_recipient = rec.key;
        vassert!("C17/fee-recipient-effect", inst_eq(&ins, &want) && rec.key != SYS);
        vcover!("ok", true);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn set_assistant() {
    begin(q::ID);
    let mut ins = any_instance();
    let pre = ins.clone();
    let mut owner = Ac::any();
    let mut inst = Ac::typed(&mut ins);
    let mut ass = Ac::any();
    let accs = [owner.info(), inst.info(), ass.info()];
    let r = q::__private::__global::set_assistant(&q::ID, sr(&accs[..]), &[]);
    if r.is_ok() {
        by!(owner owner, inst, pre);
        let mut want = pre.clone();
        // the program's own address stands for none
        want.assistant = if ass.key == q::ID { SYS } else { ass.key };
        vassert!("C17/assistant-effect", inst_eq(&ins, &want));
        vcover!("ok", true);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn update_sol_price() {
    begin(q::ID);
    let mut ins = any_instance();
    let pre = ins.clone();
    let price = nd_u64();
    let mut auth = Ac::any();
    let mut inst = Ac::typed(&mut ins);
    let accs = [auth.info(), inst.info()];
    let r = q::__private::__global::update_sol_price(&q::ID, sr(&accs[..]), &price.to_le_bytes());
    if r.is_ok() {
        by!(either auth, inst, pre);
        let mut want = pre.clone();
        want.sol_price = price;
        vassert!("C17/sol-price-effect", inst_eq(&ins, &want) && price != 0);
        vcover!("ok", true);
    }
}
fn update_chain(params: bool) {
    begin(q::ID);
    let mut ins = any_instance();
    let pre = ins.clone();
    let mut ch = any_chain();
    let ch0 = ch.clone();
    let (a, b) = (nd_u64(), nd_u64());
    let mut ix = [0u8; 16];
    let mut i = 0;
    put(&mut ix, &mut i, a.to_le_bytes());
    put(&mut ix, &mut i, b.to_le_bytes());
    let mut auth = Ac::any();
    let mut inst = Ac::typed(&mut ins);
    let mut chain = Ac::typed(&mut ch);
    let accs = [auth.info(), inst.info(), chain.info()];
    let r = if params {
        q::__private::__global::update_chain_params(&q::ID, sr(&accs[..]), &ix)
    } else {
        q::__private::__global::update_chain_prices(&q::ID, sr(&accs[..]), &ix)
    };
    if r.is_ok() {
        by!(either auth, inst, pre);
        let mut want = ch0.clone();
        if params {
            want.max_gas_dropoff = a;
            want.base_price = b;
        } else {
            want.native_price = a;
            want.gas_price = b;
        }
        vassert!("C17/chain-settings-effect", chain_eq(&ch, &want) && chain.owner == q::ID);
        vassert!("C17/chain-settings-keep-instance", inst_eq(&ins, &pre));
        vcover!("ok", true);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn update_chain_prices() {
    update_chain(false)
}
#[cfg_attr(kani, kani::proof)]
pub fn update_chain_params() {
    update_chain(true)
}

#[cfg_attr(kani, kani::proof)]
pub fn register_chain() {
    begin(q::ID);
    let mut ins = any_instance();
    let pre = ins.clone();
    let mut ch = any_chain();
    let id = nd_u16();
    let mut auth = Ac::any();
    let mut inst = Ac::typed(&mut ins);
    let mut chain = Ac::maybe_new(&mut ch, true);
    let mut sys = Ac::any();
    let e = find_pda(&[b"registered_chain", &id.to_be_bytes()], &q::ID);
    let accs = [auth.info(), inst.info(), chain.info(), sys.info()];
    let r = q::__private::__global::register_chain(&q::ID, sr(&accs[..]), &id.to_le_bytes());
    if r.is_ok() {
        by!(either auth, inst, pre);
        vassert!("C17/chain-account", chain.key == e.0 && ch.bump == e.1);
        vassert!("C17/chain-starts-disabled", ch.base_price == u64::MAX);
        vassert!("C17/register-keeps-instance", inst_eq(&ins, &pre));
        vassert!("C22/registered-chain-fits", fits(&ch, accs[2].data_len()));
        vcover!("ok", true);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn register_chain_again() {
    begin(q::ID);
    let mut ins = any_instance();
    let mut ch = any_chain();
    let mut auth = Ac::any();
    let mut inst = Ac::typed(&mut ins);
    let mut chain = Ac::maybe_new(&mut ch, false);
    let mut sys = Ac::any();
    let mut d = [0u8; 41];
    let accs = [auth.info(), inst.info(), chain.info_data(&mut d), sys.info()];
    let r = q::__private::__global::register_chain(&q::ID, sr(&accs[..]), &nd_u16().to_le_bytes());
    vassert!("C17/prices-not-reset", r.is_err());
}
#[cfg_attr(kani, kani::proof)]
pub fn register_ntt() {
    begin(q::ID);
    let mut ins = any_instance();
    let pre = ins.clone();
    let mut rn = RegisteredNtt { bump: nd_u8(), wormhole_transceiver_index: nd_u8(), gas_cost: nd_u32() };
    let (prog, index, cost) = (nd_key(), nd_u8(), nd_u32());
    let mut ix = [0u8; 37];
    let mut i = 0;
    put(&mut ix, &mut i, prog.to_bytes());
    put(&mut ix, &mut i, [index]);
    put(&mut ix, &mut i, cost.to_le_bytes());
    let mut auth = Ac::any();
    let mut inst = Ac::typed(&mut ins);
    let mut reg = Ac::maybe_new(&mut rn, true);
    let mut sys = Ac::any();
    let e = find_pda(&[b"registered_ntt", prog.as_ref()], &q::ID);
    let accs = [auth.info(), inst.info(), reg.info(), sys.info()];
    let r = q::__private::__global::register_ntt(&q::ID, sr(&accs[..]), &ix);
    if r.is_ok() {
        by!(either auth, inst, pre);
        vassert!("C17/ntt-account", reg.key == e.0 && rn.bump == e.1);
        vassert!("C17/ntt-effect", rn.wormhole_transceiver_index == index && rn.gas_cost == cost);
        vassert!("C17/register-keeps-instance", inst_eq(&ins, &pre));
        vassert!("C22/registered-ntt-fits", fits(&rn, accs[2].data_len()));
        vcover!("ok", true);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn deregister_ntt() {
    begin(q::ID);
    let mut ins = any_instance();
    let pre = ins.clone();
    let mut rn = RegisteredNtt { bump: nd_u8(), wormhole_transceiver_index: nd_u8(), gas_cost: nd_u32() };
    let prog = nd_key();
    let mut auth = Ac::any();
    let mut inst = Ac::typed(&mut ins);
    let mut reg = Ac::typed(&mut rn);
    let mut sys = Ac::any();
    let other = nd_key();
    lives_at(b"registered_ntt", other.as_ref(), &reg, rn.bump);
    let owner0 = reg.owner;
    let e = find_pda(&[b"registered_ntt", prog.as_ref()], &q::ID);
    assume(auth.key != reg.key);
    let mut d = [0u8; 14];
    let accs = [auth.info(), inst.info(), reg.info_data(&mut d), sys.info()];
    let r = q::__private::__global::deregister_ntt(&q::ID, sr(&accs[..]), prog.as_ref());
    if r.is_ok() {
        by!(either auth, inst, pre);
        vassert!("C17/deregisters-that-one", reg.key == e.0 && owner0 == q::ID && reg.owner == SYS && reg.lamports == 0);
        vassert!("C17/register-keeps-instance", inst_eq(&ins, &pre));
        vcover!("ok", true);
    }
}
fn init(new: bool) {
    begin(q::ID);
    let mut ins = any_instance();
    let mut pd = ProgramData { slot: nd_u64(), upgrade_authority_address: nd_opt_key() };
    let auth0 = pd.upgrade_authority_address;
    let mut owner = Ac::any();
    let mut inst = Ac::maybe_new(&mut ins, new);
    let mut rec = Ac::any();
    let mut data = Ac::typed(&mut pd);
    let mut sys = Ac::any();
    let e = find_pda(&[b"instance"], &q::ID);
    let e_data = find_pda(&[q::ID.as_ref()], &bpf_loader_upgradeable::ID).0;
    let mut d = [0u8; 112];
    let accs = [owner.info(), if new { inst.info() } else { inst.info_data(&mut d) }, rec.info(), data.info(), sys.info()];
    let r = q::__private::__global::initialize(&q::ID, sr(&accs[..]), &[]);
    if !new {
        vassert!("C17/initialised-once", r.is_err());
    } else if r.is_ok() {
        vassert!("C17/by-the-deployer", owner.signer && auth0 == Some(owner.key) && data.key == e_data && data.owner == bpf_loader_upgradeable::ID);
        vassert!("C17/one-instance", inst.key == e.0);
        vassert!("C17/initial-settings", ins.owner == owner.key && ins.fee_recipient == rec.key && rec.key != SYS && ins.assistant == SYS && ins.sol_price == 0);
        vassert!("C22/instance-fits", fits(&ins, accs[1].data_len()));
        vcover!("ok", true);
    }
}
#[cfg_attr(kani, kani::proof)]
pub fn initialize() {
    init(true)
}
#[cfg_attr(kani, kani::proof)]
pub fn initialize_again() {
    init(false)
}
