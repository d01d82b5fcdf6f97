//! The governance program.
use crate::env::*;
use crate::post::CORE;
use anchor_lang::solana_program::{entrypoint::ProgramResult, instruction::Instruction};
use anchor_lang::{AnchorDeserialize, AnchorSerialize};
use wormhole_anchor_sdk::wormhole::PostedVaa;
use wormhole_governance::instructions::{Acc, GovernanceMessage, ReplayProtection};
use wormhole_io::{Readable, Writeable};

const GOV: Pubkey = wormhole_governance::ID;
/// The placeholders, from the documentation of the program.
fn sentinel(s: &[u8; 5]) -> Pubkey {
    let mut k = [0u8; 32];
    k[0] = s[0];
    k[1] = s[1];
    k[2] = s[2];
    k[3] = s[3];
    k[4] = s[4];
    Pubkey::new_from_array(k)
}

#[derive(Clone, Copy)]
struct Meta {
    key: Pubkey,
    signer: bool,
    writable: bool,
}
struct Want {
    program: Pubkey,
    n: usize,
    metas: [Meta; 2],
    dn: usize,
    data: [u8; 3],
    governance: Pubkey,
    calls: u8,
    same: bool,
    signs: bool,
    passed: bool,
}
static mut WANT: Want = Want {
    program: SYS, n: 0, metas: [Meta { key: SYS, signer: false, writable: false }; 2], dn: 0, data: [0; 3], governance: SYS, calls: 0, same: false, signs: false, passed: false,
};
static mut REMAINING: Pubkey = SYS;

fn hook(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let w = unsafe { &mut WANT };
    w.calls += 1;
    let mut ok = (ix.program_id == w.program) & (ix.accounts.len() == w.n) & (ix.data.len() == w.dn);
    if ok {
        let mut i = 0;
        while i < w.n {
            let (a, m) = (&ix.accounts[i], &w.metas[i]);
            ok &= (a.pubkey == m.key) & (a.is_signer == m.signer) & (a.is_writable == m.writable);
            i += 1;
        }
        let mut i = 0;
        while i < w.dn {
            ok &= ix.data[i] == w.data[i];
            i += 1;
        }
    }
    w.same = ok;
    // signs for nothing but its own authority
    w.signs = match seed_signer(seeds) {
        Some(k) => k == w.governance,
        None => false,
    };
    // the further accounts of the caller are at hand
    let mut i = 0;
    let mut p = false;
    while i < infos.len() {
        p |= *infos[i].key == unsafe { REMAINING };
        i += 1;
    }
    w.passed = p;
    Ok(())
}

fn run(new: bool, n: usize, dn: usize) {
    begin(GOV);
    unsafe { INVOKE_HOOK = Some(hook) };
    let mut list = InfoList::new();
    list.place();
    let mut metas = [Acc { pubkey: nd_key(), is_signer: nd_bool(), is_writable: nd_bool() }, Acc { pubkey: nd_key(), is_signer: nd_bool(), is_writable: nd_bool() }];
    let mut data = [nd_u8(), nd_u8(), nd_u8()];
    let signed: [Meta; 2] = [
        Meta { key: metas[0].pubkey, signer: metas[0].is_signer, writable: metas[0].is_writable },
        Meta { key: metas[1].pubkey, signer: metas[1].is_signer, writable: metas[1].is_writable },
    ];
    let gov_id = nd_key();
    let program_id = nd_key();
    let msg = GovernanceMessage {
        governance_program_id: gov_id,
        program_id,
        accounts: if cfg!(kani) { unsafe { Vec::from_raw_parts(metas.as_mut_ptr(), n, n) } } else { metas[..n].to_vec() },
        data: if cfg!(kani) { unsafe { Vec::from_raw_parts(data.as_mut_ptr(), dn, dn) } } else { data[..dn].to_vec() },
    };
    let mut v = PostedVaa { meta: Default::default(), payload: (nd_u32(), msg) };
    let (chain, emitter, seq) = (nd_u16(), nd_bytes32(), nd_u64());
    v.meta.emitter_chain = chain;
    v.meta.emitter_address = emitter;
    v.meta.sequence = seq;
    v.meta.timestamp = nd_u32();
    let mut rp = ReplayProtection { bump: nd_u8() };

    let mut payer = Ac::any();
    let mut governance = Ac::any();
    let mut vaa = Ac::typed(&mut v);
    let mut program = Ac::any();
    let mut replay = Ac::maybe_new(&mut rp, new);
    let mut sys = Ac::any();
    let mut more = Ac::any();
    let e_gov = find_pda(&[b"governance"], &GOV).0;
    let e_replay = find_pda(&[b"replay", &chain.to_be_bytes(), &emitter, &seq.to_be_bytes()], &GOV);
    let (owner, pay) = (sentinel(b"owner"), sentinel(b"payer"));
    unsafe {
        WANT.program = program_id;
        WANT.n = n;
        WANT.dn = dn;
        WANT.data = data;
        WANT.governance = e_gov;
        REMAINING = more.key;
        let mut i = 0;
        while i < 2 {
            WANT.metas[i] = signed[i];
            if signed[i].key == owner {
                WANT.metas[i].key = e_gov;
            }
            if signed[i].key == pay {
                WANT.metas[i].key = payer.key;
            }
            i += 1;
        }
    }
    let mut d1 = [0u8; 16];
    let accs = [payer.info(), governance.info(), vaa.info(), program.info(), if new { replay.info() } else { replay.info_data(&mut d1) }, sys.info(), more.info()];
    let r = wormhole_governance::__private::__global::governance(&GOV, sr(&accs[..]), &[]);
    if !new {
        vassert!("C18/once", r.is_err());
        return;
    }
    if r.is_ok() {
        let w = unsafe { &WANT };
        let mut ge = [0u8; 32];
        ge[31] = 4;
        vassert!("C18/vaa-of-the-core-bridge", vaa.owner == CORE);
        vassert!("C18/of-the-governance-emitter", chain == 1 && same32(&emitter, &ge));
        vassert!("C18/for-this-program", gov_id == GOV);
        vassert!("C18/one-call-exactly-as-signed", w.calls == 1 && w.same);
        vassert!("C18/signs-only-as-governance", w.signs);
        vassert!("C18/with-the-callers-accounts", w.passed);
        vassert!("C18/consumed", replay.key == e_replay.0 && replay.owner == GOV && slot(replay.slot).map_or(false, |s| s.writes > 0 || !s.fresh));
        vassert!("C18/replay-fits", fits(&rp, accs[4].data_len()));
        vcover!("governance", true);
        vcover!("owner", n == 0 || signed[0].key == owner);
        vcover!("payer", n < 2 || signed[1].key == pay);
    }
    core::mem::forget(v);
}
#[cfg_attr(kani, kani::proof)]
pub fn governance() {
    run(true, 2, 3)
}
#[cfg_attr(kani, kani::proof)]
pub fn governance_one() {
    run(true, 1, 0)
}
#[cfg_attr(kani, kani::proof)]
pub fn governance_again() {
    run(false, 1, 0)
}

// 32 module, 1 action, 2 chain, 32 governance program, 32 program, 2 + 2 * 34 accounts, 2 + 3 data
const LEN: usize = 32 + 1 + 2 + 32 + 32 + 2 + 68 + 2 + 3;
fn bytes(module: [u8; 32], action: u8, chain: u16, m: &GovernanceMessage) -> [u8; LEN] {
    let mut d = [0u8; LEN];
    let mut i = 0;
    put(&mut d, &mut i, module);
    put(&mut d, &mut i, [action]);
    put(&mut d, &mut i, chain.to_be_bytes());
    put(&mut d, &mut i, m.governance_program_id.to_bytes());
    put(&mut d, &mut i, m.program_id.to_bytes());
    put(&mut d, &mut i, [0, 2]);
    let mut k = 0;
    while k < 2 {
        put(&mut d, &mut i, m.accounts[k].pubkey.to_bytes());
        put(&mut d, &mut i, [m.accounts[k].is_signer as u8]);
        put(&mut d, &mut i, [m.accounts[k].is_writable as u8]);
        k += 1;
    }
    put(&mut d, &mut i, [0, 3]);
    put(&mut d, &mut i, [m.data[0], m.data[1], m.data[2]]);
    d
}
const MODULE: [u8; 32] = *b"\0\0\0\0\0\0\0\0GeneralPurposeGovernance";

fn any_message(a: &mut [Acc; 2], d: &mut [u8; 3]) -> GovernanceMessage {
    GovernanceMessage {
        governance_program_id: nd_key(),
        program_id: nd_key(),
        accounts: if cfg!(kani) { unsafe { Vec::from_raw_parts(a.as_mut_ptr(), 2, 2) } } else { a.to_vec() },
        data: if cfg!(kani) { unsafe { Vec::from_raw_parts(d.as_mut_ptr(), 3, 3) } } else { d.to_vec() },
    }
}
fn parts() -> ([Acc; 2], [u8; 3]) {
    (
        [Acc { pubkey: nd_key(), is_signer: nd_bool(), is_writable: nd_bool() }, Acc { pubkey: nd_key(), is_signer: nd_bool(), is_writable: nd_bool() }],
        [nd_u8(), nd_u8(), nd_u8()],
    )
}
fn eq(a: &GovernanceMessage, b: &GovernanceMessage) -> bool {
    let mut ok = (a.governance_program_id == b.governance_program_id) & (a.program_id == b.program_id) & (a.accounts.len() == 2) & (b.accounts.len() == 2)
        & (a.data.len() == 3) & (b.data.len() == 3);
    if ok {
        let mut k = 0;
        while k < 2 {
            let (x, y) = (&a.accounts[k], &b.accounts[k]);
            ok &= (x.pubkey == y.pubkey) & (x.is_signer == y.is_signer) & (x.is_writable == y.is_writable);
            k += 1;
        }
        ok &= (a.data[0] == b.data[0]) & (a.data[1] == b.data[1]) & (a.data[2] == b.data[2]);
    }
    ok
}

/// Encoding and decoding.
#[cfg_attr(kani, kani::proof)]
pub fn message() {
    let (mut a, mut d) = parts();
    let m = any_message(&mut a, &mut d);
    let want = bytes(MODULE, 2, 1, &m);
    let mut got = [0u8; LEN];
    let mut w = &mut got[..];
    let ok = m.serialize(&mut w).is_ok() && w.len() == 0;
    let mut same = ok;
    let mut i = 0;
    while i < LEN {
        same &= got[i] == want[i];
        i += 1;
    }
    vassert!("C18/message-layout", same);
    vassert!("C18/message-size", m.written_size() == LEN);
    vcover!("message", true);
    core::mem::forget(m);
}
/// What decodes, and to what.
#[cfg_attr(kani, kani::proof)]
pub fn message_decode() {
    let (mut a, mut d) = parts();
    let m = any_message(&mut a, &mut d);
    let (module, action, chain) = (nd_bytes32(), nd_u8(), nd_u16());
    let enc = bytes(module, action, chain, &m);
    let mut r = &enc[..];
    match GovernanceMessage::deserialize_reader(&mut r) {
        Ok(b) => {
            vassert!("C18/own-kind-only", same32(&module, &MODULE) && action == 2 && chain == 1);
            vassert!("C18/decodes-as-signed", eq(&m, &b) && r.len() == 0);
            vcover!("decode", true);
            core::mem::forget(b);
        }
        Err(e) => {
            vassert!("C18/own-kind-decodes", !(same32(&module, &MODULE) && action == 2 && chain == 1));
            core::mem::forget(e);
        }
    }
    core::mem::forget(m);
}
