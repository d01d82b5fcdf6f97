"""Which harnesses decide which property, and their bounds.

An entry is (harness, loop bound, options). `quick` is the check for every change; `thorough` adds to it.
Options: cost (expected seconds, for scheduling), nopanic (a panic is a violation too), nocover (the instruction
must always fail, so there is nothing to reach after it)."""

TOP = "ten significant bits at the bottom, in the middle and at the top of the 64-bit range, and the 1024 largest values"
ONE = ("one instruction from an arbitrary account state: every account's address, owner program, signer and writable flags and stored "
       "fields are symbolic; program derived addresses and hashes are injective, otherwise uninterpreted functions")

NA = {}

PLAN = {
    "C01": {
        "bounds": f"all 256x256 pairs of decimals; amounts: {TOP}; round trips: 5, 3 and 10 significant bits",
        "outside": "amounts with more significant bits than the windows above",
        "quick": [(f"h_pure::{k}{i}", 40, {"cost": 60}) for k in ("trim", "untrim", "dust") for i in range(4)]
        + [("h_pure::round0", 40, {"cost": 90}), ("h_pure::round3", 40, {"cost": 120})],
        "thorough": [("h_pure::round1", 40, {"cost": 900}), ("h_pure::round2", 40, {"cost": 900})],
    },
    "C02": {
        "bounds": "one operation from an arbitrary state with capacity <= limit; limits and elapsed times: limit<64 with up to 3 days, any limit with none elapsed, "
                  "3 significant bits at 2^31, 2^61 and just below 2^64 with 8 or 16 time steps up to 1.5 days; amounts: all of u64; windows: 2 (thorough: 3) consecutive transfers, limit <= 15 (7)",
        "outside": "limits and elapsed times between the windows; clocks that run backwards; longer histories (covered by the one-step invariant)",
        "quick": [(f"h_rate::{k}{i}", 10, {"cost": 40}) for k in ("capacity", "consume", "refill", "set_limit") for i in range(5)]
        + [("h_rate::new", 10), ("h_rate::window2", 10, {"cost": 30}), ("h_admin::set_peer_new", 40, {"cost": 30}), ("h_admin::set_peer_again", 40, {"cost": 30})],
        "thorough": [("h_rate::window3", 10, {"cost": 60})],
    },
    "C03": {
        "bounds": ONE + "; rate limits last used now, message decimals 8 and token decimals 8 or 9",
        "quick": [("h_inbound::redeem_fresh", 40, {"cost": 180}), ("h_inbound::redeem_again", 40, {"cost": 150}),
                  ("h_outbound::lock", 40, {"cost": 100}), ("h_outbound::burn_dust", 40, {"cost": 110}), ("h_outbound::lock_dust", 40, {"cost": 110}),
                  ("h_admin::set_peer_new", 40, {"cost": 30}), ("h_admin::set_peer_again", 40, {"cost": 30})],
        "thorough": [("h_outbound::burn", 40, {"cost": 100})],
    },
    "C04": {
        "bounds": ONE + "; bitmaps: all of u128",
        "quick": [("h_inbound::redeem_fresh", 40, {"cost": 180}), ("h_inbound::redeem_again", 40, {"cost": 150}),
                  ("h_pure::bitmap", 10), ("h_pure::bitmap_count", 140)],
    },
    "C05": {
        "bounds": ONE + "; message decimals 8 and token decimals 8 or 9; the inbox item either does not exist (no lamports), or belongs to the program, or to a foreign program",
        "quick": [("h_inbound::redeem_fresh", 40, {"cost": 180}), ("h_inbound::redeem_again", 40, {"cost": 150}), ("h_inbound::redeem_foreign", 40, {"cost": 50, "nocover": True}),
                  ("h_admin::set_peer_new", 40, {"cost": 30}), ("h_admin::set_peer_again", 40, {"cost": 30})],
    },
    "C06": {
        "bounds": ONE + "; the recipient's token account is not the custody account",
        "quick": [("h_inbound::release_mint", 40, {"cost": 40}), ("h_inbound::release_unlock", 40, {"cost": 40}),
                  ("h_inbound::redeem_fresh", 40, {"cost": 180}), ("h_inbound::redeem_again", 40, {"cost": 150})],
    },
}

ADMIN = ["set_paused", "transfer_ownership", "transfer_ownership_one_step", "set_peer_new", "set_peer_again", "set_wormhole_peer",
         "set_wormhole_peer_standalone", "register_transceiver", "set_outbound_limit", "set_inbound_limit"]
OPT = {"transfer_ownership": {"skip": ("cancelled",)}, "transfer_ownership_one_step": {"skip": ("cancelled",)}}
NOCOVER = {"nocover": True}


def adm(*names):
    return [(f"h_admin::{n}", 40, {"cost": 30, **OPT.get(n, {})}) for n in names]


PLAN["C09"] = {"bounds": ONE + "; rate limits last used now", "quick": adm(*ADMIN)}
PLAN["C10"] = {"bounds": ONE, "quick": adm("transfer_ownership", "transfer_ownership_one_step", "claim_ownership")}
def out(*names):
    cost = {"lock": 100, "burn": 100, "lock_dust": 110, "burn_dust": 110, "lock_alias": 70, "release_manager": 60, "release_standalone": 66}
    return [(f"h_outbound::{n}", 40, {"cost": cost.get(n, 40), **({"nocover": True} if "alias" in n or "existing" in n else {})}) for n in names]


BOTH = "; both programs: the manager's built-in transceiver and the standalone one"
DEC = "; decimals of token and peer: 8/18 with amounts in all of u64, 9/8 and 9/6 with amounts below 2^16; rate limits last used now"
PLAN["C07"] = {"bounds": ONE + BOTH + "; the standalone transceiver's call runs the manager's real instruction", "quick": out("mark_released", "release_manager", "release_standalone")}
PLAN["C08"] = {"bounds": ONE + BOTH + "; message of the one payload type in use (147 bytes)", "quick": out("release_manager", "release_standalone")}
PLAN["C11"] = {"bounds": ONE + DEC, "outside": "other decimals at this level (C01 covers the conversion itself)",
               "quick": out("lock", "burn", "lock_dust", "burn_dust", "lock_alias", "lock_existing", "burn_existing")}
PLAN["C12"] = {"bounds": ONE + DEC, "quick": out("lock", "burn"), "thorough": out("lock_dust", "burn_dust")}
PLAN["C13"] = {"bounds": ONE + BOTH, "quick": adm("set_paused") + [("h_inbound::release_mint", 40), ("h_inbound::release_unlock", 40)]
               + out("lock", "burn", "mark_released", "release_manager", "release_standalone", "receive_manager", "receive_standalone")}
PLAN["C14"] = {"bounds": ONE + BOTH, "outside": "the bytes of the VAA account (decoding is C15's subject)",
               "quick": out("receive_manager", "receive_standalone") + adm("set_wormhole_peer", "set_wormhole_peer_standalone")
               + [("h_admin::wormhole_peer_once", 40, NOCOVER), ("h_admin::wormhole_peer_once_standalone", 40, NOCOVER)]}
PLAN["C21"] = {"bounds": ONE + BOTH, "quick": out("broadcast_id", "broadcast_id_standalone", "broadcast_peer", "broadcast_peer_standalone")}
PLAN["C20"] = {"bounds": ONE, "quick": adm("register_transceiver") + [("h_admin::register_transceiver_again", 40, NOCOVER)]}


FN = {"optional": True, "cost": 10}


def fn(*names):
    return [(f"h_fn::{n}", 40, FN) for n in names]


PLAN["C06"]["quick"] += fn("inbox_try_release", "inbox_release_after")
PLAN["C07"]["quick"] += fn("outbox_try_release")
PLAN["C12"]["quick"] += fn("session_hash")
PLAN["C15"] = {"bounds": "all field values; additional payloads of 0 and 5 bytes, transceiver payloads of 0 and 3 bytes; decoders: all byte strings of the encoded length "
               "(79 and 217 with an empty transceiver payload, 70, 38), and one byte less for transfers",
               "outside": "longer additional and transceiver payloads, trailing bytes",
               "quick": [(f"h_codec::{n}", 40, {"cost": 50 if n == "transceiver" else 15}) for n in
                         ("transfer", "transfer_extra", "transfer_decode", "manager", "manager_extra", "transceiver", "transceiver_tail", "transceiver_decode", "info", "registration")]}
PLAN["C16"] = {"bounds": "all pairs of messages and chains; keccak is injective, otherwise an uninterpreted function", "outside": "messages with an additional payload",
               "quick": [("h_codec::digest", 40), ("h_codec::digest_distinct", 40)]}

QA = ["close", "set_fee_recipient", "set_assistant", "update_sol_price", "update_chain_prices", "update_chain_params", "register_chain", "register_ntt",
      "deregister_ntt", "initialize"]
PLAN["C17"] = {"bounds": ONE + "; fees: prices of 5 and 6 free bits around realistic values, one of gas, drop-off and base price at a time, and combinations of 8 values from 0 to 2^64-1",
               "outside": "prices between these windows; other rent parameters than the default",
               "quick": [(f"h_quoter::{n}", 140, {"cost": c}) for n, c in (("request_range_native", 200), ("request_range_usd", 110), ("request_drop", 50), ("request_base", 50), ("request_gas", 40))]
               + [(f"h_quoter::{n}", 40, {"cost": 15}) for n in QA]
               + [(f"h_quoter::{n}", 40, {"cost": 15, "nocover": True}) for n in ("request_again", "register_chain_again", "initialize_again")]}
PLAN["C19"] = {"bounds": ONE + "; the custody account does not exist, or belongs to either token program, or to a foreign one",
               "quick": [("h_init::initialize", 40, {"cost": 45}), ("h_init::initialize_custody", 40, {"cost": 55}), ("h_init::initialize22", 40, {"cost": 45}),
                         ("h_init::initialize_again", 40, {"cost": 30, "nocover": True}), ("h_init::initialize_foreign", 40, {"cost": 30, "nocover": True})]}
PLAN["C22"] = {"bounds": "all values of every state account type of the manager, transceiver and quoter; creation: " + ONE,
               "outside": "additional payloads (none is in use)",
               "quick": [(f"h_state::{n}", 310, {"cost": c}) for n, c in (("config_offered", 150), ("config", 120), ("message_across", 70), ("quoter", 25), ("inbox_item", 20), ("outbox_item", 15),
                         ("message", 20), ("rate_limits", 10), ("peers", 10), ("registered", 10), ("kinds", 1))]
               + [("h_inbound::redeem_fresh", 40, {"cost": 100})] + out("lock", "receive_manager", "receive_standalone")
               + adm("set_peer_new", "set_wormhole_peer", "set_wormhole_peer_standalone", "register_transceiver")
               + [("h_init::initialize", 40, {"cost": 45})] + [(f"h_quoter::{n}", 140, {"cost": 15}) for n in ("register_chain", "register_ntt", "initialize", "request_base")]}

PLAN["C18"] = {"bounds": ONE + "; signed instructions with 1 account and no data, or 2 accounts and 3 bytes of data; the message codec with 2 accounts and 3 bytes",
               "outside": "other numbers of accounts and bytes; what the called program does",
               "quick": [("h_gov::governance", 40, {"cost": 30}), ("h_gov::governance_one", 40, {"cost": 30}), ("h_gov::governance_again", 40, {"cost": 20, "nocover": True}),
                         ("h_gov::message", 200, {"cost": 10}), ("h_gov::message_decode", 40, {"cost": 40})]}
PLAN["C25"] = {"bounds": ONE + "; the record of the table does not exist yet, or exists",
               "outside": "whether the caller's fee collector and sequence accounts are wormhole's (the program does not check them; a table lists addresses only)",
               "quick": [("h_lut::lut_new", 40, {"cost": 50}), ("h_lut::lut_again", 40, {"cost": 45})]}

# Assertions that are labelled with one property and are part of another one's statement as well.
ALSO = {
    "C01": ["C11/worth-of-the-item", "C11/dust-only-left", "C05/content"],
    "C02": ["C09/*-limit-effect"],
    "C03": ["C02/refill-*", "C02/consume*", "C02/delayed-*"],
    "C04": ["C05/transceiver-enabled", "C05/from-a-registered-transceiver"],
    "C05": ["C09/peer-effect", "C09/peer-of-the-chain"],
    "C06": ["C05/content", "C05/content-kept", "C04/not-approved-below-threshold"],
    "C07": ["C08/posted-once"],
    "C08": ["C07/once", "C07/when-due", "C07/of-this-transceiver"],
    "C09": ["C02/peer-limit", "C03/limit-bump", "C05/peer-bump", "C10/*", "C13/set-paused-takes-effect", "C14/wormhole-peer-*", "C20/*"],
    "C10": ["C09/owner-signed", "C09/is-the-owner", "C09/config-of-this-program"],
    "C13": ["C09/set-paused-effect"],
    "C14": ["C09/owner-signed", "C09/is-the-owner", "C09/config-of-this-program", "C09/wormhole-peer-effect", "C15/transceiver-*"],
    "C16": ["C05/inbox-item-is-the-message's"],
    "C20": ["C09/owner-signed", "C09/is-the-owner", "C09/config-of-this-program"],
}
RATE = [(f"h_rate::{k}{i}", 10, {"cost": 40}) for k, i in (("refill", 0), ("refill", 2), ("refill", 4), ("consume", 0), ("consume", 2))]
PLAN["C01"]["quick"] += [("h_outbound::lock_dust", 40, {"cost": 110}), ("h_inbound::redeem_fresh", 40, {"cost": 180})]
PLAN["C01"]["bounds"] += "; as used by transfer_lock and redeem: the bounds of C11 and C05"
PLAN["C02"]["quick"] += adm("set_outbound_limit", "set_inbound_limit")
PLAN["C03"]["quick"] += RATE
PLAN["C09"]["quick"] += adm("claim_ownership")
PLAN["C14"]["quick"] += [("h_codec::transceiver_decode", 40, {"cost": 50})]
PLAN["C16"]["quick"] += [("h_inbound::redeem_fresh", 40, {"cost": 180})]


def harnesses(prop, tier):
    e = PLAN[prop]
    out = []
    for x in e["quick"] + (e.get("thorough", []) if tier == "thorough" else []):
        d = {"name": x[0], "unwind": x[1]}
        if len(x) > 2:
            d.update(x[2])
        out.append(d)
    return out

# How each property is decided, beyond the harness list (for DESIGN.md).
HOW = {
    "C01": "Pure functions of ntt-messages, called directly. Oracle: exact 128-bit arithmetic (`taken = trimmed * 10^k`, `amount - taken < 10^k`), written without the implementation's helpers. Full 64x8x8-bit symbolic multiplication/division does not finish, hence the windows.",
    "C02": "Direct calls of `RateLimitState` with a symbolic clock. One-step invariants from any state with capacity <= limit (so histories of any length are covered by induction for the step properties), plus the sliding-window statement for 2 or 3 consecutive transfers as an independent check of the composition. `set_peer` is run as an instruction, because it creates and resets limits.",
    "C03": "Both directions as instructions. The harness keeps copies of both limits and asserts the exact effect (consumed here, refilled there, capped), or none at all.",
    "C04": "`redeem` as an instruction from any stored vote state; the vote set is compared with the old one plus exactly the attesting transceiver. The bitmap operations the assertion uses are themselves checked against plain bit arithmetic for all 128-bit values.",
    "C05": "`redeem` with every account symbolic, including the message account's bytes and owner; what the accounts have to be is recomputed in the harness from the message (address of the item from the keccak of chain and wire encoding, written independently byte by byte).",
    "C06": "`release_inbound_mint` and `release_inbound_unlock` against a model of the token programs that moves real balances; `redeem` for the approval half. `try_release`/`release_after` also on their own (optional: dropped if renamed).",
    "C07": "`mark_outbox_item_as_released`, and both programs' `release_wormhole_outbound`; the standalone one calls the manager's real instruction through the generated client. The guard is redundant in the code (account constraint and `try_release`), so the function is also checked on its own.",
    "C08": "The payload handed to `post_message` is compared with an independently written encoder.",
    "C09": "Every owner-only instruction; afterwards signer and stored owner are asserted and the whole configuration is compared with the expected one.",
    "C10": "Ownership instructions against a model of the upgradeable loader that keeps the authority.",
    "C11": "`transfer_lock`/`transfer_burn` against the token model, including a symbolic transfer fee, an aliased custody account, and an already existing outbox item.",
    "C12": "The token model only lets the owner, or the delegate within its allowance, spend; the session address is recomputed from the arguments.",
    "C13": "Asserts `!paused` after every instruction that must not run while paused, in both programs.",
    "C14": "`receive_wormhole_message` of both programs with a symbolic VAA and peer; the peer's once-ness by running `set_wormhole_peer` on an existing account.",
    "C15": "Encoders against an independently written layout, decoders on all byte strings of the length.",
    "C16": "The digest of the implementation against the model's keccak of independently written bytes; two symbolic messages with equal digests must be equal.",
    "C17": "All instructions of the quoter. The fee oracle is exact integer arithmetic with every step checked for overflow.",
    "C18": "`governance` as an instruction on symbolic VAAs with 1 or 2 accounts and 0 or 3 data bytes; the call it makes is recorded and compared with the VAA; the message codec directly.",
    "C19": "`initialize` with symbolic deployer, program data, mint and custody; the associated token account program is modelled.",
    "C20": "`register_transceiver` from any registry, and again on an existing registration.",
    "C21": "As C08, for the two announcements.",
    "C22": "Real Borsh/Anchor serialisation of all values into a buffer of the declared space, real deserialisation, and a foreign discriminator; the instructions that create accounts are run and the allocated length is compared with what the largest value needs.",
    "C25": "`initialize_lut` with the lookup table program's calls recorded and compared entry by entry.",
}
