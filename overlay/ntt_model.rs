//! Environment model of the Solana runtime, used by the verification build only.
//!
//! Compiled into the vendored `solana-program` (as `solana_program::ntt_model`). Under Kani the
//! nondeterministic values are symbolic; natively they are read back from a counterexample, so that
//! the same harness, the same model and the same (real) program code replay a solver verdict.
#![allow(clippy::all, static_mut_refs, missing_docs)]

use crate::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    pubkey::Pubkey, rent::Rent,
};

// ------------------------------------------------------------------------------------------------
// nondeterminism
// ------------------------------------------------------------------------------------------------

#[cfg(not(kani))]
pub mod replay {
    use std::sync::Mutex;
    pub static VALUES: Mutex<Vec<u128>> = Mutex::new(Vec::new());
    pub static POS: Mutex<usize> = Mutex::new(0);
    /// Exit codes of a native replay.
    pub const VIOLATED: i32 = 10;
    pub const REACHED: i32 = 11;
    pub const ASSUME: i32 = 20;
    pub const ABORTED: i32 = 21;
    pub fn next() -> u128 {
        let mut p = POS.lock().unwrap();
        let v = VALUES.lock().unwrap();
        let r = v.get(*p).copied().unwrap_or(0);
        *p += 1;
        r
    }
}

macro_rules! nd {
    ($f:ident, $t:ty) => {
        #[inline(never)]
        pub fn $f() -> $t {
            #[cfg(kani)]
            {
                let nd_value: $t = kani::any();
                nd_value
            }
            #[cfg(not(kani))]
            {
                replay::next() as $t
            }
        }
    };
}
nd!(nd_u8, u8);
nd!(nd_u16, u16);
nd!(nd_u32, u32);
nd!(nd_u64, u64);
nd!(nd_u128, u128);
nd!(nd_i64, i64);

pub fn nd_bool() -> bool {
    nd_u8() & 1 == 1
}
pub fn nd_bytes32() -> [u8; 32] {
    let a = nd_u128();
    let b = nd_u128();
    unsafe { core::mem::transmute::<[u128; 2], [u8; 32]>([a, b]) }
}
pub fn nd_key() -> Pubkey {
    Pubkey::new_from_array(nd_bytes32())
}

pub fn assume(b: bool) {
    #[cfg(kani)]
    kani::assume(b);
    #[cfg(not(kani))]
    if !b {
        eprintln!("REPLAY: assumption not met");
        std::process::exit(replay::ASSUME);
    }
}

/// A property assertion.
#[macro_export]
macro_rules! vassert {
    ($id:literal, $c:expr) => {{
        let nd_cond: bool = $c;
        #[cfg(kani)]
        kani::assert(nd_cond, concat!("PROP:", $id));
        #[cfg(not(kani))]
        if !nd_cond && std::env::var("NTT_WANT").map_or(true, |w| w == $id) {
            eprintln!("REPLAY: VIOLATED {}", $id);
            std::process::exit($crate::ntt_model::replay::VIOLATED);
        }
    }};
}

/// Reachability witness: must be satisfiable, otherwise the harness is vacuous.
#[macro_export]
macro_rules! vcover {
    ($id:literal, $c:expr) => {{
        let nd_cond: bool = $c;
        #[cfg(kani)]
        kani::cover(nd_cond, concat!("COVER:", $id));
        #[cfg(not(kani))]
        if nd_cond && std::env::var("NTT_COVER").map_or(false, |w| w == $id) {
            eprintln!("REPLAY: REACHED {}", $id);
            std::process::exit($crate::ntt_model::replay::REACHED);
        }
    }};
}

pub static mut EXPECT_OK: bool = false;

/// The instruction returns an error: the transaction is rolled back, so nothing of it is observed.
/// With `EXPECT_OK` the harness claims that the instruction succeeds, and an error is a violation.
pub fn tx_abort(_code: u64) -> ! {
    #[cfg(kani)]
    {
        if unsafe { EXPECT_OK } {
            kani::assert(false, "PROP:must-succeed");
        }
        kani::assume(false);
        loop {}
    }
    #[cfg(not(kani))]
    {
        if unsafe { EXPECT_OK } {
            eprintln!("REPLAY: VIOLATED must-succeed (error {_code})");
            std::process::exit(replay::VIOLATED);
        }
        eprintln!("REPLAY: transaction aborted with error {_code}");
        std::process::exit(replay::ABORTED);
    }
}

// ------------------------------------------------------------------------------------------------
// typed account storage
// ------------------------------------------------------------------------------------------------

pub const NO_SLOT: u64 = u64::MAX;
const MAX_SLOTS: usize = 24;

#[derive(Clone, Copy)]
pub struct Slot {
    pub ptr: *mut u8,
    pub ty: u64,
    /// the account does not exist yet: created, its data is all zeros
    pub fresh: bool,
    /// the stored discriminator is that of `ty`
    pub disc_ok: bool,
    /// number of times it was written back
    pub writes: u8,
}

static mut SLOTS: [Slot; MAX_SLOTS] = [Slot {
    ptr: core::ptr::null_mut(),
    ty: 0,
    fresh: false,
    disc_ok: false,
    writes: 0,
}; MAX_SLOTS];
static mut NSLOTS: usize = 0;

pub fn register<T>(ptr: *mut T, fresh: bool, disc_ok: bool) -> u64 {
    unsafe {
        let i = NSLOTS;
        SLOTS[i] = Slot {
            ptr: ptr as *mut u8,
            ty: TypeHash::<T>::ID,
            fresh,
            disc_ok,
            writes: 0,
        };
        NSLOTS += 1;
        i as u64
    }
}
pub fn slot(idx: u64) -> Option<&'static mut Slot> {
    if idx == NO_SLOT {
        None
    } else {
        unsafe { Some(&mut SLOTS[idx as usize]) }
    }
}
impl Slot {
    pub fn is<T>(&self) -> bool {
        self.ty == TypeHash::<T>::ID
    }
}
pub struct TypeHash<T>(core::marker::PhantomData<T>);
impl<T> TypeHash<T> {
    pub const ID: u64 = fnv(core::any::type_name::<T>());
}
const fn fnv(s: &str) -> u64 {
    let b = s.as_bytes();
    let mut h = 0xcbf29ce484222325u64;
    let mut i = 0;
    while i < b.len() {
        h = (h ^ b[i] as u64).wrapping_mul(0x100000001b3);
        i += 1;
    }
    h
}
pub fn slot_ref<T>(idx: u64) -> &'static mut T {
    unsafe { &mut *(SLOTS[idx as usize].ptr as *mut T) }
}
/// Places for boxed accounts that have a type (heap memory has none for the checker).
static mut BOXES: [(u64, *mut u8); 4] = [(0, core::ptr::null_mut()); 4];
static mut NBOXES: usize = 0;
pub fn place<T>(p: &mut core::mem::MaybeUninit<T>) {
    unsafe {
        BOXES[NBOXES] = (TypeHash::<T>::ID, p as *mut _ as *mut u8);
        NBOXES += 1;
    }
}
pub fn boxed<T>(v: T) -> Box<T> {
    if cfg!(kani) {
        let mut i = 0;
        while i < 4 {
            unsafe {
                if BOXES[i].0 == TypeHash::<T>::ID {
                    BOXES[i].0 = 0;
                    let p = BOXES[i].1 as *mut T;
                    core::ptr::write(p, v);
                    return Box::from_raw(p);
                }
            }
            i += 1;
        }
    }
    Box::new(v)
}
/// A list of accounts, in memory that has a type (one per transaction).
pub struct InfoList([core::mem::MaybeUninit<AccountInfo<'static>>; 24]);
impl InfoList {
    pub fn new() -> InfoList {
        InfoList([const { core::mem::MaybeUninit::uninit() }; 24])
    }
    pub fn place(&mut self) {
        unsafe { INFOS = self.0.as_mut_ptr() as *mut AccountInfo<'static> };
    }
}
static mut INFOS: *mut AccountInfo<'static> = core::ptr::null_mut();
pub fn infos<'a>() -> Vec<AccountInfo<'a>> {
    unsafe {
        if cfg!(kani) && !INFOS.is_null() {
            let p = INFOS as *mut AccountInfo<'a>;
            INFOS = core::ptr::null_mut();
            return Vec::from_raw_parts(p, 0, 24);
        }
    }
    Vec::new()
}
pub static ZEROS: [u8; 1024] = [0; 1024];

// ------------------------------------------------------------------------------------------------
// hashes and program derived addresses: injective, otherwise uninterpreted
// ------------------------------------------------------------------------------------------------

const MAX_BYTES: usize = 256;
const MAX_ENTRIES: usize = 20;

#[derive(Clone, Copy)]
#[repr(align(16))]
struct Entry {
    kind: u8,
    len: usize,
    words: [u128; MAX_BYTES / 16],
    bump: u8,
}
static mut TAB: [Entry; MAX_ENTRIES] = [Entry {
    kind: 0,
    len: 0,
    words: [0; MAX_BYTES / 16],
    bump: 0,
}; MAX_ENTRIES];
static mut NTAB: usize = 0;

struct Acc {
    words: [u128; MAX_BYTES / 16],
    len: usize,
}
impl Acc {
    fn new() -> Self {
        Acc { words: [0; MAX_BYTES / 16], len: 0 }
    }
    fn push(&mut self, s: &[u8]) {
        if self.len + s.len() > MAX_BYTES {
            model_limit();
        }
        let p = self.words.as_mut_ptr() as *mut u8;
        unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), p.add(self.len), s.len()) };
        self.len += s.len();
    }
}

/// The model's own bounds were exceeded: the run is inconclusive.
pub fn model_limit() -> ! {
    #[cfg(kani)]
    {
        kani::assert(false, "MODEL:limit");
        kani::assume(false);
        loop {}
    }
    #[cfg(not(kani))]
    panic!("model limit");
}

/// Index of the first entry with the same preimage.
fn intern(kind: u8, acc: &Acc, bump: u8) -> usize {
    unsafe {
        let n = NTAB;
        if n >= MAX_ENTRIES {
            model_limit();
        }
        TAB[n].kind = kind;
        TAB[n].len = acc.len;
        TAB[n].words = acc.words;
        TAB[n].bump = bump;
        NTAB = n + 1;
        let mut r = n;
        let nw = (acc.len + 15) / 16;
        let mut i = n;
        while i > 0 {
            i -= 1;
            if TAB[i].kind == kind && TAB[i].len == acc.len {
                let mut eq = true;
                let mut w = 0;
                while w < nw {
                    eq = eq & (TAB[i].words[w] == acc.words[w]);
                    w += 1;
                }
                if eq {
                    r = i;
                }
            }
        }
        r
    }
}

fn code(kind: u8, r: usize, b: u8) -> [u8; 32] {
    let mut k = [0x5au8; 32];
    k[0] = kind;
    k[1] = r as u8;
    k[2] = b;
    k
}

pub const KIND_PDA: u8 = 0xe0;
pub const KIND_KECCAK: u8 = 0xc0;
pub const KIND_SHA: u8 = 0xa0;

pub fn find_pda(seeds: &[&[u8]], program_id: &Pubkey) -> (Pubkey, u8) {
    let mut a = Acc::new();
    let mut i = 0;
    while i < seeds.len() {
        a.push(seeds[i]);
        i += 1;
    }
    a.push(&program_id.0);
    let fresh_bump = nd_u8();
    let r = intern(KIND_PDA, &a, fresh_bump);
    let b = unsafe { TAB[r].bump };
    (Pubkey::new_from_array(code(KIND_PDA, r, b)), b)
}

pub fn create_pda(seeds: &[&[u8]], program_id: &Pubkey) -> Pubkey {
    let mut a = Acc::new();
    let n = seeds.len();
    let mut i = 0;
    while i + 1 < n {
        a.push(seeds[i]);
        i += 1;
    }
    let mut bump = 0u8;
    if n > 0 {
        let last = seeds[n - 1];
        let m = last.len();
        if m > 0 {
            a.push(&last[..m - 1]);
            bump = last[m - 1];
        }
    }
    a.push(&program_id.0);
    let fresh_bump = nd_u8();
    let r = intern(KIND_PDA, &a, fresh_bump);
    Pubkey::new_from_array(code(KIND_PDA, r, bump))
}

pub fn hash_model(kind: u8, parts: &[&[u8]]) -> [u8; 32] {
    let mut a = Acc::new();
    let mut i = 0;
    while i < parts.len() {
        a.push(parts[i]);
        i += 1;
    }
    let r = intern(kind, &a, 0);
    code(kind, r, 0)
}

// ------------------------------------------------------------------------------------------------
// sysvars
// ------------------------------------------------------------------------------------------------

pub static mut NOW: i64 = 0;
pub static mut SLOT_NO: u64 = 0;
pub fn clock() -> Clock {
    unsafe {
        Clock {
            slot: SLOT_NO,
            epoch_start_timestamp: 0,
            epoch: 0,
            leader_schedule_epoch: 0,
            unix_timestamp: NOW,
        }
    }
}
pub fn rent() -> Rent {
    Rent::default()
}

// ------------------------------------------------------------------------------------------------
// cross-program invocation
// ------------------------------------------------------------------------------------------------

pub type InvokeHook = fn(&Instruction, &[AccountInfo], &[&[&[u8]]]) -> ProgramResult;
pub static mut INVOKE_HOOK: Option<InvokeHook> = None;
pub static mut CURRENT_PROGRAM: Pubkey = Pubkey::new_from_array([0; 32]);

pub fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    match unsafe { INVOKE_HOOK } {
        Some(h) => h(ix, infos, seeds),
        None => model_limit(),
    }
}

/// The accounts of a call of another Anchor program, as its generated client passes them.
pub struct CpiAccs {
    pub n: usize,
    pub infos: [*const AccountInfo<'static>; 8],
    pub signer: [bool; 8],
    pub writable: [bool; 8],
}
impl CpiAccs {
    pub fn new() -> CpiAccs {
        CpiAccs { n: 0, infos: [core::ptr::null(); 8], signer: [false; 8], writable: [false; 8] }
    }
    pub fn push(&mut self, a: &AccountInfo, signer: bool, writable: bool) {
        if self.n >= 8 {
            model_limit();
        }
        self.infos[self.n] = a as *const AccountInfo as *const AccountInfo<'static>;
        self.signer[self.n] = signer;
        self.writable[self.n] = writable;
        self.n += 1;
    }
    pub fn get(&self, i: usize) -> &'static AccountInfo<'static> {
        unsafe { &*self.infos[i] }
    }
}
pub type CpiHook = fn(&Pubkey, [u8; 8], &[u8], &CpiAccs, Option<Pubkey>) -> ProgramResult;
pub static mut CPI_HOOK: Option<CpiHook> = None;
pub fn cpi_call(program: &Pubkey, ix: [u8; 8], data: &[u8], accs: &CpiAccs, more: usize, seeds: &[&[&[u8]]]) -> ProgramResult {
    if more > 0 {
        model_limit();
    }
    match unsafe { CPI_HOOK } {
        Some(h) => h(program, ix, data, accs, seed_signer(seeds)),
        None => model_limit(),
    }
}

/// A call of a token program: 0 transfer, 1 mint, 2 burn.
pub struct TokenCall<'a, 'b> {
    pub op: u8,
    pub program: &'a Pubkey,
    pub src: Option<&'a AccountInfo<'b>>,
    pub mint: Option<&'a AccountInfo<'b>>,
    pub dst: Option<&'a AccountInfo<'b>>,
    pub auth: &'a AccountInfo<'b>,
    pub amount: u64,
    pub decimals: Option<u8>,
    pub more: usize,
    /// the address the caller signs for
    pub pda: Option<Pubkey>,
}
pub type TokenHook = fn(&TokenCall) -> ProgramResult;
pub static mut TOKEN_HOOK: Option<TokenHook> = None;

/// The address the caller signs for (at most one in this model).
pub fn seed_signer(seeds: &[&[&[u8]]]) -> Option<Pubkey> {
    if seeds.len() > 1 {
        model_limit();
    }
    if seeds.len() == 1 {
        Some(create_pda(seeds[0], unsafe { &CURRENT_PROGRAM }))
    } else {
        None
    }
}
pub fn token_call(c: &TokenCall) -> ProgramResult {
    match unsafe { TOKEN_HOOK } {
        Some(h) => h(c),
        None => model_limit(),
    }
}

/// A change of a program's upgrade authority.
pub struct UpgradeCall<'a, 'b> {
    pub program: &'a Pubkey,
    pub of: &'a Pubkey,
    pub data: &'a AccountInfo<'b>,
    pub current: &'a AccountInfo<'b>,
    pub new: Option<&'a AccountInfo<'b>>,
    pub checked: bool,
    pub pda: Option<Pubkey>,
}
pub static mut UPGRADE_HOOK: Option<fn(&UpgradeCall) -> ProgramResult> = None;
pub fn upgrade_call(c: &UpgradeCall) -> ProgramResult {
    match unsafe { UPGRADE_HOOK } {
        Some(h) => h(c),
        None => model_limit(),
    }
}

/// Creation of an associated token account.
pub struct AtaCall<'a, 'b> {
    pub program: &'a Pubkey,
    pub payer: &'a AccountInfo<'b>,
    pub account: &'a AccountInfo<'b>,
    pub authority: &'a AccountInfo<'b>,
    pub mint: &'a AccountInfo<'b>,
    pub token_program: &'a AccountInfo<'b>,
    pub idempotent: bool,
}
pub static mut ATA_HOOK: Option<fn(&AtaCall) -> ProgramResult> = None;
pub fn ata_call(c: &AtaCall) -> ProgramResult {
    match unsafe { ATA_HOOK } {
        Some(h) => h(c),
        None => model_limit(),
    }
}

/// Instructions for the address lookup table program, by the arguments they were built from.
#[derive(Clone, Copy)]
pub struct LutCall {
    pub extend: bool,
    pub table: Pubkey,
    pub authority: Pubkey,
    pub payer: Option<Pubkey>,
    pub slot: u64,
    pub entries: [Pubkey; 20],
    pub n: usize,
    pub done: bool,
}
const NO_KEY: Pubkey = Pubkey::new_from_array([0; 32]);
pub static mut LUT_CALLS: [LutCall; 3] =
    [LutCall { extend: false, table: NO_KEY, authority: NO_KEY, payer: None, slot: 0, entries: [NO_KEY; 20], n: 0, done: false }; 3];
pub static mut NLUT: usize = 0;
/// The instruction carries the number of the call.
pub fn lut_call(program: Pubkey, c: LutCall, entries: &[Pubkey]) -> Instruction {
    unsafe {
        let i = NLUT;
        if i >= 3 || entries.len() > 20 {
            model_limit();
        }
        NLUT += 1;
        LUT_CALLS[i] = c;
        let mut k = 0;
        while k < entries.len() {
            LUT_CALLS[i].entries[k] = entries[k];
            k += 1;
        }
        LUT_CALLS[i].n = entries.len();
        let mut data = Vec::with_capacity(1);
        data.push(i as u8);
        Instruction { program_id: program, accounts: Vec::new(), data }
    }
}

/// A message handed to the wormhole core bridge.
pub struct PostCall<'a, 'b> {
    pub program: &'a Pubkey,
    pub config: &'a AccountInfo<'b>,
    pub message: &'a AccountInfo<'b>,
    pub emitter: &'a AccountInfo<'b>,
    pub sequence: &'a AccountInfo<'b>,
    pub payer: &'a AccountInfo<'b>,
    pub fee_collector: &'a AccountInfo<'b>,
    pub batch: u32,
    pub finality: u8,
    pub payload: &'a [u8],
    pub pdas: [Option<Pubkey>; 2],
}
pub static mut POST_HOOK: Option<fn(&PostCall) -> ProgramResult> = None;
pub fn post_call(c: &PostCall) -> ProgramResult {
    match unsafe { POST_HOOK } {
        Some(h) => h(c),
        None => model_limit(),
    }
}
/// The (at most two) addresses the caller signs for.
pub fn seed_signers(seeds: &[&[&[u8]]]) -> [Option<Pubkey>; 2] {
    if seeds.len() > 2 {
        model_limit();
    }
    let mut r = [None, None];
    if seeds.len() > 0 {
        r[0] = Some(create_pda(seeds[0], unsafe { &CURRENT_PROGRAM }));
    }
    if seeds.len() > 1 {
        r[1] = Some(create_pda(seeds[1], unsafe { &CURRENT_PROGRAM }));
    }
    r
}

/// Return data of the last call.
pub static mut RETURNED: Option<u8> = None;
pub fn set_return(d: &[u8]) {
    if d.len() != 1 {
        unsafe { RETURNED = None };
    } else {
        unsafe { RETURNED = Some(d[0]) };
    }
}
pub fn get_return() -> Option<(Pubkey, Vec<u8>)> {
    match unsafe { RETURNED } {
        Some(b) => {
            let mut v = Vec::with_capacity(1);
            v.push(b);
            Some((unsafe { CURRENT_PROGRAM }, v))
        }
        None => None,
    }
}

/// The account signed, or the running program signs for it with its seeds.
pub fn signed(info: &AccountInfo, seeds: &[&[&[u8]]]) -> bool {
    let pid = unsafe { CURRENT_PROGRAM };
    let mut ok = info.is_signer;
    let mut i = 0;
    while i < seeds.len() {
        if seeds[i].len() > 0 {
            ok |= create_pda(seeds[i], &pid) == *info.key;
        }
        i += 1;
    }
    ok
}

/// Zeroed data of new accounts.
static mut ARENA: [[u8; 512]; 4] = [[0; 512]; 4];
static mut NARENA: usize = 0;
fn arena(space: u64) -> &'static mut [u8] {
    unsafe {
        if space > 512 || NARENA >= 4 {
            model_limit();
        }
        let i = NARENA;
        NARENA += 1;
        &mut ARENA[i][..space as usize]
    }
}

const SYSTEM: Pubkey = crate::system_program::ID;

pub fn sys_transfer(from: &AccountInfo, to: &AccountInfo, lamports: u64, seeds: &[&[&[u8]]]) {
    if !signed(from, seeds) || *from.owner != SYSTEM {
        tx_abort(9001);
    }
    if !from.is_writable || !to.is_writable {
        tx_abort(9008);
    }
    let f = **from.lamports.borrow();
    if f < lamports {
        tx_abort(9002);
    }
    **from.lamports.borrow_mut() = f - lamports;
    let t = **to.lamports.borrow();
    match t.checked_add(lamports) {
        Some(v) => **to.lamports.borrow_mut() = v,
        None => tx_abort(9003),
    }
}
pub fn sys_allocate(a: &AccountInfo, space: u64, seeds: &[&[&[u8]]]) {
    if !signed(a, seeds) {
        tx_abort(9004);
    }
    if a.data.borrow().len() != 0 || *a.owner != SYSTEM {
        tx_abort(9005);
    }
    let v = arena(space);
    let mut d = a.data.borrow_mut();
    *d = unsafe { core::mem::transmute(v) };
}
pub fn sys_assign(a: &AccountInfo, owner: &Pubkey, seeds: &[&[&[u8]]]) {
    if !signed(a, seeds) {
        tx_abort(9006);
    }
    if *a.owner != SYSTEM {
        tx_abort(9007);
    }
    a.assign(owner);
}
pub fn sys_create(
    from: &AccountInfo,
    to: &AccountInfo,
    lamports: u64,
    space: u64,
    owner: &Pubkey,
    seeds: &[&[&[u8]]],
) {
    if **to.lamports.borrow() > 0 {
        tx_abort(9010);
    }
    if !signed(to, seeds) {
        tx_abort(9004);
    }
    if to.data.borrow().len() != 0 || *to.owner != SYSTEM {
        tx_abort(9005);
    }
    let v = arena(space);
    *to.data.borrow_mut() = unsafe { core::mem::transmute(v) };
    to.assign(owner);
    sys_transfer(from, to, lamports, &[]);
}
