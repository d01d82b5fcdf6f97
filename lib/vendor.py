"""Vendored dependency directories for the verification build.

build/vendor/<crate>-<version> are symlinks into cargo's registry sources, except for the few
crates that carry the environment model, which are copied and patched. Each patch must apply
exactly; if it does not (another version of a dependency), the build stops with an error."""
import glob, json, os, re, shutil, tomllib

REG = sorted(glob.glob(os.path.expanduser("/root/.cargo/registry/src/index.crates.io-*")))
HERE = os.path.dirname(os.path.abspath(__file__))
OVERLAY = os.path.join(HERE, "..", "overlay")


class PatchError(Exception):
    pass


def src_of(n):
    for r in REG:
        if os.path.isdir(f"{r}/{n}"):
            return f"{r}/{n}"
    return None


def sub(path, old, new, count=1):
    s = open(path).read()
    if s.count(old) < 1:
        raise PatchError(f"{path}: pattern not found: {old[:60]!r}")
    if count == 1 and s.count(old) != 1:
        raise PatchError(f"{path}: pattern not unique: {old[:60]!r}")
    s = s.replace(old, new)
    open(path, "w").write(s)


def resub(path, pat, new, flags=re.S):
    s = open(path).read()
    s2, n = re.subn(pat, lambda m: m.expand(new) if "\\" in new else new, s, count=1, flags=flags)
    if n != 1:
        raise PatchError(f"{path}: regex not found: {pat[:60]!r}")
    open(path, "w").write(s2)


# ---------------------------------------------------------------------------------------------

def p_ahash(d):
    sub(f"{d}/src/lib.rs", '#![cfg_attr(feature = "stdsimd", feature(stdsimd))]', "") \
        if '#![cfg_attr(feature = "stdsimd", feature(stdsimd))]' in open(f"{d}/src/lib.rs").read() \
        else resub(f"{d}/src/lib.rs", r"\n[^\n]*feature\(stdsimd\)[^\n]*\n", "\n")


def p_solana(d):
    shutil.copyfile(f"{OVERLAY}/ntt_model.rs", f"{d}/src/ntt_model.rs")
    sub(f"{d}/src/lib.rs", "pub mod account_info;\n", "pub mod account_info;\npub mod ntt_model;\n")
    # Pubkey: equality over two 128-bit words instead of a byte loop
    resub(f"{d}/src/pubkey.rs", r"    Ord,\n    PartialEq,\n    PartialOrd,\n    Pod,\n    Serialize,\n    Zeroable,\n\)\]\n#\[borsh\(crate = \"borsh\"\)\]\npub struct Pubkey\(pub\(crate\) \[u8; 32\]\);",
          """    Ord,
    PartialOrd,
    Pod,
    Serialize,
    Zeroable,
)]
#[borsh(crate = "borsh")]
pub struct Pubkey(pub(crate) [u8; 32]);

impl PartialEq for Pubkey {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        let a: [u128; 2] = unsafe { core::mem::transmute(self.0) };
        let b: [u128; 2] = unsafe { core::mem::transmute(other.0) };
        (a[0] == b[0]) & (a[1] == b[1])
    }
}
""")
    f = f"{d}/src/pubkey.rs"
    resub(f, r"pub fn find_program_address\(seeds: &\[&\[u8\]\], program_id: &Pubkey\) -> \(Pubkey, u8\) \{",
          "pub fn find_program_address(seeds: &[&[u8]], program_id: &Pubkey) -> (Pubkey, u8) {\n        if true { return crate::ntt_model::find_pda(seeds, program_id); }")
    resub(f, r"pub fn try_find_program_address\(seeds: &\[&\[u8\]\], program_id: &Pubkey\) -> Option<\(Pubkey, u8\)> \{",
          "pub fn try_find_program_address(seeds: &[&[u8]], program_id: &Pubkey) -> Option<(Pubkey, u8)> {\n        if true { return Some(crate::ntt_model::find_pda(seeds, program_id)); }")
    resub(f, r"pub fn create_program_address\(\n        seeds: &\[&\[u8\]\],\n        program_id: &Pubkey,\n    \) -> Result<Pubkey, PubkeyError> \{",
          "pub fn create_program_address(\n        seeds: &[&[u8]],\n        program_id: &Pubkey,\n    ) -> Result<Pubkey, PubkeyError> {\n        if true { return Ok(crate::ntt_model::create_pda(seeds, program_id)); }")
    sub(f"{d}/src/sysvar/mod.rs", "        bincode::deserialize(&account_info.data.borrow()).map_err(|_| ProgramError::InvalidArgument)", "        Self::get()")
    sub(f"{d}/src/sysvar/clock.rs", "impl_sysvar_get!(sol_get_clock_sysvar);",
        "fn get() -> Result<Self, crate::program_error::ProgramError> { Ok(crate::ntt_model::clock()) }")
    sub(f"{d}/src/sysvar/rent.rs", "impl_sysvar_get!(sol_get_rent_sysvar);",
        "fn get() -> Result<Self, crate::program_error::ProgramError> { Ok(crate::ntt_model::rent()) }")
    sub(f"{d}/src/keccak.rs", "pub fn hashv(vals: &[&[u8]]) -> Hash {",
        "pub fn hashv(vals: &[&[u8]]) -> Hash {\n    if true { return Hash::new_from_array(crate::ntt_model::hash_model(crate::ntt_model::KIND_KECCAK, vals)); }")
    resub(f"{d}/src/hash.rs", r"pub fn hashv\(vals: &\[&\[u8\]\]\) -> Hash \{",
        "pub fn hashv(vals: &[&[u8]]) -> Hash {\n    if true { return Hash::new_from_array(crate::ntt_model::hash_model(crate::ntt_model::KIND_SHA, vals)); }")
    resub(f"{d}/src/program.rs", r"(pub fn invoke_signed\(\n.*?\) -> ProgramResult \{)",
          r"\1\n    if true { return crate::ntt_model::invoke(instruction, account_infos, signers_seeds); }")
    resub(f"{d}/src/program.rs", r"(pub fn invoke_signed_unchecked\(\n.*?\) -> ProgramResult \{)",
          r"\1\n    if true { return crate::ntt_model::invoke(instruction, account_infos, signers_seeds); }")
    f = f"{d}/src/log.rs"
    sub(f, "crate::program_stubs::sol_log(message);", "let _ = message;")
    sub(f, "crate::program_stubs::sol_log_data(data);", "let _ = data;")
    sub(f, "crate::program_stubs::sol_log_64(arg1, arg2, arg3, arg4, arg5);", "let _ = (arg1, arg2, arg3, arg4, arg5);")
    sub(f, "    crate::program_stubs::sol_log_compute_units();", "    {}")
    f = f"{d}/src/program_memory.rs"
    sub(f, "crate::program_stubs::sol_memcpy(dst.as_mut_ptr(), src.as_ptr(), n);",
        "unsafe { core::ptr::copy_nonoverlapping(src.as_ptr(), dst.as_mut_ptr(), n) };")
    sub(f, "crate::program_stubs::sol_memmove(dst, src, n);", "core::ptr::copy(src, dst, n);")
    sub(f, "crate::program_stubs::sol_memset(s.as_mut_ptr(), c, n);",
        "unsafe { core::ptr::write_bytes(s.as_mut_ptr(), c, n) };")
    f = f"{d}/src/program.rs"
    sub(f, "crate::program_stubs::sol_set_return_data(data)", "crate::ntt_model::set_return(data)")
    sub(f, "crate::program_stubs::sol_get_return_data()", "crate::ntt_model::get_return()")
    sub(f, "crate::program_stubs::sol_invoke_signed(instruction, account_infos, signers_seeds)",
        "crate::ntt_model::invoke(instruction, account_infos, signers_seeds)")
    f = f"{d}/src/address_lookup_table/instruction.rs"
    resub(f, r"let instruction = Instruction::new_with_bincode\(\n        id\(\),\n        &ProgramInstruction::CreateLookupTable \{.*?\n    \);\n", """let instruction = crate::ntt_model::lut_call(id(), crate::ntt_model::LutCall {
        extend: false, table: lookup_table_address, authority: authority_address, payer: Some(payer_address), slot: recent_slot,
        entries: [Pubkey::new_from_array([0; 32]); 20], n: 0, done: authority_is_signer && bump_seed == 0 && false,
    }, &[]);
""")
    resub(f, r"(new_addresses: Vec<Pubkey>,\n\) -> Instruction \{\n)", r"""\1    if true {
        let r = crate::ntt_model::lut_call(id(), crate::ntt_model::LutCall {
            extend: true, table: lookup_table_address, authority: authority_address, payer: payer_address, slot: 0,
            entries: [Pubkey::new_from_array([0; 32]); 20], n: 0, done: false,
        }, &new_addresses);
        core::mem::forget(new_addresses);
        return r;
    }
""")
    s = open(f"{d}/src/lib.rs").read()
    open(f"{d}/src/lib.rs", "w").write("#![feature(const_type_name)]\n" + s)
    resub(f"{d}/src/account_info.rs", r"(pub fn realloc\(&self, new_len: usize, zero_init: bool\) -> Result<\(\), ProgramError> \{)",
          r"""\1
        if true {
            let mut data = self.try_borrow_mut_data()?;
            let old_len = data.len();
            if new_len <= old_len {
                let p = data.as_mut_ptr();
                *data = unsafe { from_raw_parts_mut(p, new_len) };
                return Ok(());
            }
            crate::ntt_model::model_limit();
        }""")


def p_anchor_syn(d):
    sub(f"{d}/src/codegen/program/handlers.rs", "mod __private {", "pub mod __private {")
    sub(f"{d}/src/codegen/program/handlers.rs", "                    __accounts.exit(__program_id)\n",
        "                    let __r = __accounts.exit(__program_id);\n                    core::mem::forget(__accounts);\n                    __r\n")
    sub(f"{d}/src/lib.rs", "                        Box::new(#stream)\n", "                        anchor_lang::solana_program::ntt_model::boxed(#stream)\n")
    f = f"{d}/src/codegen/error.rs"
    resub(f, r"anchor_lang::error::Error::from\(\s*anchor_lang::error::AnchorError \{\s*error_name: error_code\.name\(\).*?\}\s*\)",
          "anchor_lang::error::Error { code: error_code.into() }")
    sub(f, "        impl From<#enum_name> for anchor_lang::error::Error {",
        """        impl From<#enum_name> for anchor_lang::error::Abort {
            fn from(error_code: #enum_name) -> anchor_lang::error::Abort {
                anchor_lang::error::Abort::from(anchor_lang::error::Error::from(error_code))
            }
        }

        impl From<#enum_name> for anchor_lang::error::Error {""")
    f = f"{d}/src/codegen/accounts/to_account_infos.rs"
    sub(f, "quote! { account_infos.extend(self.#name.to_account_infos()); }", "quote! { self.#name.collect_infos(account_infos); }")
    sub(f, "                let mut account_infos = vec![];\n\n                #(#to_acc_infos)*\n\n                account_infos\n            }", """                let mut account_infos = anchor_lang::solana_program::ntt_model::infos();
                self.collect_infos(&mut account_infos);
                account_infos
            }
            fn collect_infos(&self, account_infos: &mut Vec<anchor_lang::solana_program::account_info::AccountInfo<'info>>) {
                #(#to_acc_infos)*
            }""")
    # Calls of other Anchor programs: the accounts are handed over as they are, not through vectors
    f = f"{d}/src/codegen/accounts/__cpi_client_accounts.rs"
    sub(f, "    let account_struct_infos: Vec<proc_macro2::TokenStream> = accs", """    let account_collect: Vec<proc_macro2::TokenStream> = accs
        .fields
        .iter()
        .map(|f: &AccountField| match f {
            AccountField::CompositeField(s) => {
                let name = &s.ident;
                quote! { self.#name.__collect(c); }
            }
            AccountField::Field(f) => {
                let is_signer = match f.ty {
                    Ty::Signer => true,
                    _ => f.constraints.is_signer(),
                };
                let is_mut = f.constraints.is_mutable();
                let name = &f.ident;
                if f.is_optional {
                    quote! { if let Some(x) = &self.#name { c.push(x, #is_signer, #is_mut); } }
                } else {
                    quote! { c.push(&self.#name, #is_signer, #is_mut); }
                }
            }
        })
        .collect();

    let account_struct_infos: Vec<proc_macro2::TokenStream> = accs""")
    sub(f, "            #[automatically_derived]\n            impl #generics anchor_lang::ToAccountMetas", """            impl #generics #name #generics {
                pub fn __collect(&self, c: &mut anchor_lang::solana_program::ntt_model::CpiAccs) {
                    #(#account_collect)*
                }
            }

            #[automatically_derived]
            impl #generics anchor_lang::ToAccountMetas""")
    f = f"{d}/src/codegen/program/cpi.rs"
    resub(f, r"let ix = \{\s*let ix = instruction::#ix_variant;.*?ctx\.signer_seeds,\s*\)\.map_or_else",
          """let mut c = anchor_lang::solana_program::ntt_model::CpiAccs::new();
                        ctx.accounts.__collect(&mut c);
                        let data = if #no_args { Vec::new() } else {
                            let ix = instruction::#ix_variant;
                            AnchorSerialize::try_to_vec(&ix).map_err(|_| anchor_lang::error::ErrorCode::InstructionDidNotSerialize)?
                        };
                        anchor_lang::solana_program::ntt_model::cpi_call(ctx.program.key, #sighash_tts, &data, &c, ctx.remaining_accounts.len(), ctx.signer_seeds).map_or_else""")
    sub(f, "                let name = &ix.raw_method.sig.ident.to_string();", "                let no_args = args.is_empty();\n                let name = &ix.raw_method.sig.ident.to_string();")
    # Account validation: an error is not a value there but ends the transaction (error::Abort)
    f = f"{d}/src/codegen/accounts/try_accounts.rs"
    sub(f, ") -> anchor_lang::Result<Self> {", ") -> anchor_lang::FwResult<Self> {")
    f = f"{d}/src/codegen/accounts/constraints.rs"
    sub(f, "return Err(anchor_lang::error::Error::from(", "return Err(anchor_lang::error::Abort::from(", 0)
    sub(f, "require_keys_neq!(#payer.key(), #field.key(), anchor_lang::error::ErrorCode::TryingToInitPayerAsProgramAccount);",
        "if #payer.key() == #field.key() { return Err(anchor_lang::error::ErrorCode::TryingToInitPayerAsProgramAccount.into()); }")
    sub(f, "        Err(#error)\n", "        Err(anchor_lang::error::Abort::from(#error))\n")


def p_anchor_error(d):
    resub(f"{d}/src/lib.rs", r"anchor_lang::error::Error::from\(\s*anchor_lang::error::AnchorError \{.*?\}\s*\)\s*\}\)",
          "{ let _ = || { let _ = #error_origin; }; anchor_lang::error::Error { code: #error_code.into() } }\n    })")


def p_anchor_lang(d):
    f = f"{d}/src/error.rs"
    resub(f, r"#\[derive\(Debug, PartialEq, Eq\)\]\npub enum Error \{.*?\n\}\n\n#\[derive\(Debug\)\]\npub struct ProgramErrorWithOrigin",
          """/// An error, reduced to its code.
#[derive(Debug, PartialEq, Eq)]
pub struct Error {
    pub code: u32,
}

impl std::error::Error for Error {}

impl Display for Error {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}

impl From<AnchorError> for Error {
    fn from(ae: AnchorError) -> Self {
        Error { code: ae.error_code_number }
    }
}
impl From<ProgramError> for Error {
    fn from(program_error: ProgramError) -> Self {
        core::mem::forget(program_error);
        Error { code: 2 }
    }
}
impl From<BorshIoError> for Error {
    fn from(error: BorshIoError) -> Self {
        core::mem::forget(error);
        Error { code: 3 }
    }
}
impl From<ProgramErrorWithOrigin> for Error {
    fn from(pe: ProgramErrorWithOrigin) -> Self {
        core::mem::forget(pe);
        Error { code: 4 }
    }
}

impl Error {
    pub fn log(&self) {}
    pub fn with_account_name(self, _account_name: impl ToString) -> Self { self }
    pub fn with_source(self, _source: Source) -> Self { self }
    pub fn with_pubkeys(self, _pubkeys: (Pubkey, Pubkey)) -> Self { self }
    pub fn with_values(self, _values: (impl ToString, impl ToString)) -> Self { self }
}

/// The error type of account validation: it has no values, making one ends the transaction.
#[derive(Debug)]
pub enum Abort {}
impl From<Error> for Abort {
    fn from(e: Error) -> Self {
        solana_program::ntt_model::tx_abort(e.code as u64)
    }
}
impl From<ProgramError> for Abort {
    fn from(e: ProgramError) -> Self {
        Abort::from(Error::from(e))
    }
}
impl From<BorshIoError> for Abort {
    fn from(e: BorshIoError) -> Self {
        Abort::from(Error::from(e))
    }
}
impl From<Abort> for Error {
    fn from(e: Abort) -> Self {
        match e {}
    }
}
impl Abort {
    pub fn with_account_name(self, _account_name: impl ToString) -> Self { self }
    pub fn with_source(self, _source: Source) -> Self { self }
    pub fn with_pubkeys(self, _pubkeys: (Pubkey, Pubkey)) -> Self { self }
    pub fn with_values(self, _values: (impl ToString, impl ToString)) -> Self { self }
}

#[derive(Debug)]
pub struct ProgramErrorWithOrigin""")
    resub(f, r"        match e \{\n            Error::AnchorError\(error\) => \{.*?\n        \}\n    \}\n",
          "        anchor_lang::solana_program::program_error::ProgramError::Custom(e.code)\n    }\n")
    sub(f"{d}/src/lib.rs", "pub type Result<T> = std::result::Result<T, error::Error>;",
        "pub type Result<T> = std::result::Result<T, error::Error>;\npub type FwResult<T> = std::result::Result<T, error::Abort>;")
    for f in ["lib.rs", "vec.rs"] + ["accounts/" + x for x in os.listdir(f"{d}/src/accounts")]:
        f = f"{d}/src/{f}"
        s = open(f).read()
        s = re.sub(r"(fn (?:try_accounts|try_from|try_from_unchecked)\([^{;]*?-> )Result<", r"\1crate::FwResult<", s)
        s = s.replace("return Err(Error::from(ErrorCode::", "return Err(crate::error::Abort::from(ErrorCode::")
        s = s.replace("        Sysvar::from_account_info(account)\n", "        Ok(Sysvar::from_account_info(account)?)\n")
        s = re.sub(r"(    fn to_account_infos\(&self\) -> Vec<AccountInfo<'info>>) \{\n        vec!\[(.*?)\]\n    \}", r"""\1 {
        vec![\2]
    }
    fn collect_infos(&self, c: &mut Vec<AccountInfo<'info>>) {
        c.push(\2);
    }""", s)
        s = s.replace("    fn to_account_infos(&self) -> Vec<AccountInfo<'info>>;", """    fn to_account_infos(&self) -> Vec<AccountInfo<'info>>;
    fn collect_infos(&self, c: &mut Vec<AccountInfo<'info>>) {
        c.extend(self.to_account_infos())
    }""")
        if os.path.basename(f) in ("interface.rs", "program.rs"):
            s = s.replace("type Error = Error;", "type Error = crate::error::Abort;")
        open(f, "w").write(s)
    # typed account storage
    f = f"{d}/src/accounts/account.rs"
    sub(f, "impl<'a, T: AccountSerialize + AccountDeserialize + Clone> Account<'a, T> {\n    pub(crate) fn new(",
        """/// Loads the account's value from the model's typed storage (or, for an account that has none,
/// from its bytes).
pub(crate) fn model_load<T: AccountSerialize + AccountDeserialize + Clone>(
    info: &AccountInfo,
    checked: bool,
) -> crate::FwResult<T> {
    use solana_program::ntt_model as nm;
    match nm::slot(info.rent_epoch) {
        None => {
            let mut data: &[u8] = &info.try_borrow_data()?;
            if checked {
                Ok(T::try_deserialize(&mut data)?)
            } else {
                Ok(T::try_deserialize_unchecked(&mut data)?)
            }
        }
        Some(s) => {
            if !s.is::<T>() {
                return Err(ErrorCode::AccountDiscriminatorMismatch.into());
            }
            if s.fresh {
                if checked {
                    return Err(ErrorCode::AccountDiscriminatorMismatch.into());
                }
                let n = info.data_len();
                let mut data: &[u8] = &nm::ZEROS[..n];
                return Ok(T::try_deserialize_unchecked(&mut data)?);
            }
            if checked && !s.disc_ok {
                return Err(ErrorCode::AccountDiscriminatorMismatch.into());
            }
            Ok(unsafe { (*(s.ptr as *const T)).clone() })
        }
    }
}

pub(crate) fn model_store<T: Clone>(info: &AccountInfo, v: &T) -> bool {
    use solana_program::ntt_model as nm;
    match nm::slot(info.rent_epoch) {
        None => false,
        Some(s) => {
            if !s.is::<T>() {
                nm::model_limit();
            }
            if !info.is_writable {
                nm::tx_abort(9100);
            }
            unsafe { core::ptr::write(s.ptr as *mut T, v.clone()) };
            s.fresh = false;
            s.disc_ok = true;
            s.writes += 1;
            true
        }
    }
}

impl<'a, T: AccountSerialize + AccountDeserialize + Clone> Account<'a, T> {
    pub(crate) fn new(""")
    sub(f, "            let info = self.to_account_info();\n            let mut data = info.try_borrow_mut_data()?;",
        "            if model_store(self.info, &self.account) {\n                return Ok(());\n            }\n            let info = self.to_account_info();\n            let mut data = info.try_borrow_mut_data()?;")
    sub(f, "        let mut data: &[u8] = &self.info.try_borrow_data()?;\n        self.account = T::try_deserialize(&mut data)?;",
        "        self.account = model_load(self.info, true)?;")
    sub(f, "        let mut data: &[u8] = &info.try_borrow_data()?;\n        Ok(Account::new(info, T::try_deserialize(&mut data)?))",
        "        Ok(Account::new(info, model_load(info, true)?))")
    sub(f, "        let mut data: &[u8] = &info.try_borrow_data()?;\n        Ok(Account::new(info, T::try_deserialize_unchecked(&mut data)?))",
        "        Ok(Account::new(info, model_load(info, false)?))")
    f = f"{d}/src/accounts/interface_account.rs"
    sub(f, "        let mut data: &[u8] = &info.try_borrow_data()?;\n        Ok(Self::new(info, T::try_deserialize(&mut data)?))",
        "        Ok(Self::new(info, crate::accounts::account::model_load(info, true)?))")
    sub(f, "        let mut data: &[u8] = &info.try_borrow_data()?;\n        Ok(Self::new(info, T::try_deserialize_unchecked(&mut data)?))",
        "        Ok(Self::new(info, crate::accounts::account::model_load(info, false)?))")
    sub(f"{d}/src/accounts/boxed.rs", ".map(Box::new)", ".map(solana_program::ntt_model::boxed)")
    # system program
    f = f"{d}/src/system_program.rs"
    for fn, body in {
        "allocate": "nm::sys_allocate(&ctx.accounts.account_to_allocate, space, ctx.signer_seeds);",
        "assign": "nm::sys_assign(&ctx.accounts.account_to_assign, owner, ctx.signer_seeds);",
        "create_account": "nm::sys_create(&ctx.accounts.from, &ctx.accounts.to, lamports, space, owner, ctx.signer_seeds);",
        "transfer": "nm::sys_transfer(&ctx.accounts.from, &ctx.accounts.to, lamports, ctx.signer_seeds);",
    }.items():
        t = open(f).read()
        m = re.search(r"pub fn %s<'info>\(\n[^{]*?\) -> Result<\(\)> \{\n" % fn, t)
        if not m:
            raise PatchError(f"{f}: {fn}")
        j = t.index("\n}\n", m.end())
        t = (t[:m.end()] + "    use solana_program::ntt_model as nm;\n    if *ctx.program.key != ID {\n        nm::tx_abort(9200);\n    }\n    "
             + body + "\n    core::mem::forget(ctx);\n    Ok(())" + t[j:])
        open(f, "w").write(t)


def p_spl22(d):
    f = f"{d}/src/onchain.rs"
    resub(f, r"(pub fn invoke_transfer_checked<'a>\(\n.*?\) -> ProgramResult \{)", r"""\1
    use solana_program::ntt_model as nm;
    if true {
        let c = nm::TokenCall {
            op: 0, program: token_program_id, src: Some(&source_info), mint: Some(&mint_info),
            dst: Some(&destination_info), auth: &authority_info, amount, decimals: Some(decimals),
            more: additional_accounts.len(), pda: nm::seed_signer(seeds),
        };
        let r = nm::token_call(&c);
        core::mem::forget((source_info, mint_info, destination_info, authority_info));
        return r;
    }""")
    s = open(f).read()
    open(f, "w").write("#![allow(unused_imports, unreachable_code, unused_variables, unused_mut)]\n" + s)


def p_anchor_spl(d):
    for f in ("token_2022.rs", "token.rs"):
        f = f"{d}/src/{f}"
        for fn, op, src, dst, mint, dec in (("transfer", 0, "from", "to", None, 0), ("transfer_checked", 0, "from", "to", "mint", 1),
                                            ("mint_to", 1, None, "to", "mint", 0), ("burn", 2, "from", None, "mint", 0)):
            t = open(f).read()
            m = re.search(r"pub fn %s<'info>\([^{]*?\) -> Result<\(\)> \{\n" % fn, t)
            if not m:
                raise PatchError(f"{f}: {fn}")
            j = t.index("\n}\n", m.end())
            o = lambda x: f"Some(&ctx.accounts.{x})" if x else "None"
            body = f"""    use anchor_lang::solana_program::ntt_model as nm;
    let c = nm::TokenCall {{
        op: {op}, program: ctx.program.key, src: {o(src)}, mint: {o(mint)}, dst: {o(dst)},
        auth: &ctx.accounts.authority, amount, decimals: {"Some(decimals)" if dec else "None"},
        more: 0, pda: nm::seed_signer(ctx.signer_seeds),
    }};
    let r = nm::token_call(&c);
    core::mem::forget(ctx);
    r.map_err(Into::into)"""
            open(f, "w").write(t[:m.end()] + body + t[j:])


    f = f"{d}/src/associated_token.rs"
    for fn, idem in (("create", "false"), ("create_idempotent", "true")):
        t = open(f).read()
        m = re.search(r"pub fn %s<'info>\([^{]*?\) -> Result<\(\)> \{\n" % fn, t)
        if not m:
            raise PatchError(f"{f}: {fn}")
        j = t.index("\n}\n", m.end())
        body = f"""    use anchor_lang::solana_program::ntt_model as nm;
    let a = &ctx.accounts;
    let c = nm::AtaCall {{
        program: ctx.program.key, payer: &a.payer, account: &a.associated_token, authority: &a.authority,
        mint: &a.mint, token_program: &a.token_program, idempotent: {idem},
    }};
    let r = nm::ata_call(&c);
    core::mem::forget(ctx);
    r.map_err(Into::into)"""
        open(f, "w").write(t[:m.end()] + body + t[j:])


def p_borsh(d):
    # byte arrays are read in one piece; decided by a constant instead of an Option
    f = f"{d}/src/de/mod.rs"
    resub(f, r"(pub trait BorshDeserialize: Sized \{)", r"\1\n    #[doc(hidden)]\n    const IS_U8: bool = false;")
    resub(f, r"(impl BorshDeserialize for u8 \{)", r"\1\n    const IS_U8: bool = true;")
    sub(f, "        if let Some(arr) = T::array_from_reader(reader)? {",
        """        if T::IS_U8 {
            let mut arr = [0u8; N];
            reader.read_exact(&mut arr)?;
            return Ok(unsafe { core::ptr::read(&arr as *const [u8; N] as *const [T; N]) });
        }
        if let Some(arr) = T::array_from_reader(reader)? {""")


def p_wh_io(d):
    # payloads are written into static buffers
    sub(f"{d}/src/payload.rs", """        let mut buf = Vec::with_capacity(self.payload_written_size());
        self.write_payload(&mut buf).expect("no alloc failure");
        buf
    }
}
""", """        static mut BUFS: [[u8; 256]; 4] = [[0; 256]; 4];
        static mut NBUF: usize = 0;
        unsafe {
            let i = NBUF;
            NBUF += 1;
            let mut w: &mut [u8] = &mut (*core::ptr::addr_of_mut!(BUFS))[i];
            let p = w.as_mut_ptr();
            self.write_payload(&mut w).expect("no alloc failure");
            let n = 256 - w.len();
            if cfg!(kani) {
                Vec::from_raw_parts(p, n, n)
            } else {
                core::slice::from_raw_parts(p, n).to_vec()
            }
        }
    }
}
""")


def p_wh_sdk(d):
    f = f"{d}/src/wormhole/instructions.rs"
    t = open(f).read()
    m = re.search(r"pub fn post_message<'info>\([^{]*?\) -> Result<\(\)> \{\n", t)
    j = t.index("\n}\n", m.end())
    body = """    use solana_program::ntt_model as nm;
    let a = &ctx.accounts;
    let c = nm::PostCall {
        program: ctx.program.key, config: &a.config, message: &a.message, emitter: &a.emitter, sequence: &a.sequence,
        payer: &a.payer, fee_collector: &a.fee_collector, batch: batch_id, finality: finality as u8,
        payload: &payload, pdas: nm::seed_signers(ctx.signer_seeds),
    };
    let r = nm::post_call(&c);
    core::mem::forget(ctx);
    core::mem::forget(payload);
    r.map_err(Into::into)"""
    open(f, "w").write(t[:m.end()] + body + t[j:])


def p_wh_utils(d):
    f = f"{d}/src/cpi/bpf_loader_upgradeable.rs"
    for fn, chk, new in (("set_upgrade_authority", "false", "a.new_authority.as_ref()"), ("set_upgrade_authority_checked", "true", "Some(&a.new_authority)")):
        t = open(f).read()
        m = re.search(r"pub fn %s<'info>\([^{]*?\) -> Result<\(\)> \{\n" % fn, t)
        j = t.index("\n    }\n", m.end())
        body = f"""        use solana_program::ntt_model as nm;
        let a = &ctx.accounts;
        let c = nm::UpgradeCall {{
            program: ctx.program.key, of: program_id, data: &a.program_data, current: &a.current_authority,
            new: {new}, checked: {chk}, pda: nm::seed_signer(ctx.signer_seeds),
        }};
        let r = nm::upgrade_call(&c);
        core::mem::forget(ctx);
        r.map_err(Into::into)"""
        open(f, "w").write(t[:m.end()] + body + t[j:])


PATCHES = {
    "wormhole-io-0.1.3": p_wh_io,
    "wormhole-anchor-sdk-0.29.0-alpha.1": p_wh_sdk,
    "wormhole-solana-utils-0.2.0-alpha.15": p_wh_utils,
    "borsh-0.10.3": p_borsh,
    "ahash-0.7.7": p_ahash,
    "solana-program-1.18.10": p_solana,
    "anchor-syn-0.29.0": p_anchor_syn,
    "anchor-lang-0.29.0": p_anchor_lang,
    "anchor-attribute-error-0.29.0": p_anchor_error,
    "spl-token-2022-3.0.2": p_spl22,
    "anchor-spl-0.29.0": p_anchor_spl,
}


def make(lockfile, out):
    """Create or refresh the vendor directory `out` for the packages in `lockfile`."""
    lock = tomllib.load(open(lockfile, "rb"))
    stamp = json.dumps([open(__file__).read(), open(f"{OVERLAY}/ntt_model.rs").read(),
                        open(lockfile).read()])
    sf = f"{out}/.stamp"
    if os.path.exists(sf) and open(sf).read() == stamp:
        return False
    os.makedirs(out, exist_ok=True)
    for p in lock["package"]:
        if "checksum" not in p:
            continue
        n = f"{p['name']}-{p['version']}"
        s = src_of(n)
        if s is None:
            continue
        d = f"{out}/{n}"
        if n in PATCHES:
            tmp = d + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.copytree(s, tmp)
            PATCHES[n](tmp)
            if os.path.isdir(d) and any(os.path.islink(f"{d}/{e}") for e in os.listdir(d)):
                shutil.rmtree(d)
            os.makedirs(d, exist_ok=True)
            sync_tree(tmp, d)
            shutil.rmtree(tmp)
        else:
            os.makedirs(d, exist_ok=True)
            for e in os.listdir(s):
                if not os.path.lexists(f"{d}/{e}"):
                    os.symlink(f"{s}/{e}", f"{d}/{e}")
        c = json.dumps({"files": {}, "package": p["checksum"]})
        if not os.path.exists(f"{d}/.cargo-checksum.json") or open(f"{d}/.cargo-checksum.json").read() != c:
            open(f"{d}/.cargo-checksum.json", "w").write(c)
    open(sf, "w").write(stamp)
    return True


def sync_tree(a, b):
    """Copy a over b, leaving files whose content is the same untouched."""
    for root, _, files in os.walk(a):
        rel = os.path.relpath(root, a)
        os.makedirs(f"{b}/{rel}", exist_ok=True)
        for f in files:
            x, y = f"{root}/{f}", f"{b}/{rel}/{f}"
            data = open(x, "rb").read()
            if os.path.islink(y) or not os.path.exists(y) or open(y, "rb").read() != data:
                if os.path.lexists(y):
                    os.remove(y)
                open(y, "wb").write(data)


if __name__ == "__main__":
    import sys
    make(sys.argv[1], sys.argv[2])
