//! Building blocks of the harnesses: symbolic accounts and program states.
pub use anchor_lang::prelude::{AccountInfo, Pubkey};
pub use example_native_token_transfers as ntt;
pub use ntt_messages::{chain_id::ChainId, mode::Mode, trimmed_amount::TrimmedAmount};
pub use solana_program::ntt_model::*;
pub use solana_program::{vassert, vcover};

use core::cell::RefCell;
use ntt::bitmap::Bitmap;
use std::rc::Rc;
use ntt::config::Config;

pub const SYS: Pubkey = solana_program::system_program::ID;

pub fn st<T: ?Sized>(r: &mut T) -> &'static mut T {
    unsafe { &mut *(r as *mut T) }
}
pub fn sr<T: ?Sized>(r: &T) -> &'static T {
    unsafe { &*(r as *const T) }
}

/// Layout of the allocation behind an `Rc`, kept on the harness's stack so that it has a type.
#[repr(C)]
pub struct RcBox<T> {
    strong: usize,
    weak: usize,
    value: T,
}

/// An account as the transaction presents it. Lives on the harness's stack.
pub struct Ac {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
    pub executable: bool,
    pub lamports: u64,
    pub owner: Pubkey,
    pub slot: u64,
    lam: RcBox<RefCell<&'static mut u64>>,
    data: RcBox<RefCell<&'static mut [u8]>>,
}
static mut DUMMY: u64 = 0;
impl Ac {
    /// Any account: everything about it is chosen by the caller of the program.
    pub fn any() -> Ac {
        Ac {
            key: nd_key(),
            signer: nd_bool(),
            writable: nd_bool(),
            executable: nd_bool(),
            lamports: nd_u64(),
            owner: nd_key(),
            slot: NO_SLOT,
            lam: RcBox { strong: 1000, weak: 1, value: RefCell::new(unsafe { &mut DUMMY }) },
            data: RcBox { strong: 1000, weak: 1, value: RefCell::new(&mut []) },
        }
    }
    /// Any account holding a value of type `T`.
    pub fn typed<T>(v: &mut T) -> Ac {
        let mut a = Ac::any();
        a.slot = register::<T>(v as *mut T, false, nd_bool());
        a
    }
    /// An account of `T` that either does not exist yet, or exists and belongs to the running program.
    /// Which of the two is concrete: a symbolic choice is too hard for the solver.
    pub fn maybe_new<T>(v: &mut T, fresh: bool) -> Ac {
        let mut a = Ac::any();
        a.slot = register::<T>(v as *mut T, fresh, nd_bool());
        if fresh {
            a.owner = SYS;
            a.lamports = 0;
        } else {
            a.owner = unsafe { CURRENT_PROGRAM };
        }
        a
    }
    pub fn info(&mut self) -> AccountInfo<'static> {
        self.info_data(&mut [])
    }
    pub fn info_data(&mut self, d: &mut [u8]) -> AccountInfo<'static> {
        let s = st(self);
        s.lam = RcBox { strong: 1000, weak: 1, value: RefCell::new(&mut s.lamports) };
        s.data = RcBox { strong: 1000, weak: 1, value: RefCell::new(st(d)) };
        AccountInfo {
            key: &s.key,
            lamports: unsafe { Rc::from_raw(&s.lam.value) },
            data: unsafe { Rc::from_raw(&s.data.value) },
            owner: &s.owner,
            rent_epoch: s.slot,
            is_signer: s.signer,
            is_writable: s.writable,
            executable: s.executable,
        }
    }
}

pub fn nd_opt_key() -> Option<Pubkey> {
    if nd_bool() { Some(nd_key()) } else { None }
}
pub fn nd_mode() -> Mode {
    if nd_bool() { Mode::Burning } else { Mode::Locking }
}

pub fn any_config() -> Config {
    Config {
        bump: nd_u8(),
        owner: nd_key(),
        pending_owner: nd_opt_key(),
        mint: nd_key(),
        token_program: nd_key(),
        mode: nd_mode(),
        chain_id: ChainId { id: nd_u16() },
        next_transceiver_id: nd_u8(),
        threshold: nd_u8(),
        enabled_transceivers: Bitmap::from_value(nd_u128()),
        paused: nd_bool(),
        custody: nd_key(),
    }
}

/// The address of a per-chain account of `chain`. Invariant of the state (established by `set_peer`,
/// the only instruction that creates such accounts): an account of this kind that the program owns
/// lives at the canonical address of its chain and stores the bump of that address.
pub fn of_chain(prefix: &[u8], chain: u16, a: &Ac, bump: u8) -> Pubkey {
    let other = nd_u16();
    let o = find_pda(&[prefix, &other.to_be_bytes()], &ntt::ID);
    assume(a.owner != ntt::ID || (a.key == o.0 && bump == o.1));
    find_pda(&[prefix, &chain.to_be_bytes()], &ntt::ID).0
}

/// An instruction of `program` runs at some time.
pub fn begin(program: Pubkey) {
    unsafe {
        NOW = nd_i64();
        CURRENT_PROGRAM = program;
    }
    assume(unsafe { NOW } >= 0 && unsafe { NOW } < 1 << 60);
}
pub fn cfg_eq(a: &Config, b: &Config) -> bool {
    (a.bump == b.bump)
        & (a.owner == b.owner)
        & (a.pending_owner == b.pending_owner)
        & (a.mint == b.mint)
        & (a.token_program == b.token_program)
        & (a.mode == b.mode)
        & (a.chain_id.id == b.chain_id.id)
        & (a.next_transceiver_id == b.next_transceiver_id)
        & (a.threshold == b.threshold)
        & (a.enabled_transceivers == b.enabled_transceivers)
        & (a.paused == b.paused)
        & (a.custody == b.custody)
}
pub fn put<const N: usize>(d: &mut [u8], at: &mut usize, b: [u8; N]) {
    let p = unsafe { &mut *(d.as_mut_ptr().add(*at) as *mut [u8; N]) };
    *p = b;
    *at += N;
}
/// Bound: the rate limits were last used at the current time (elapsed time is C02's subject).
pub fn any_rate() -> ntt::queue::rate_limit::RateLimitState {
    let limit = nd_u64();
    let cap = nd_u64();
    assume(cap <= limit);
    ntt::queue::rate_limit::RateLimitState { limit, capacity_at_last_tx: cap, last_tx_timestamp: unsafe { NOW } }
}

pub fn same32(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let a: [u128; 2] = unsafe { core::mem::transmute(*a) };
    let b: [u128; 2] = unsafe { core::mem::transmute(*b) };
    (a[0] == b[0]) & (a[1] == b[1])
}

/// Whether an account of `len` bytes has room for this value as Anchor stores it.
pub fn fits<T: anchor_lang::AccountSerialize>(v: &T, len: usize) -> bool {
    let mut c = Count(0);
    v.try_serialize(&mut c).is_ok() && c.0 <= len
}
struct Count(usize);
impl std::io::Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> {
        self.0 += b.len();
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
