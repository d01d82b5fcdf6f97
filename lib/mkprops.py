#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below and lib/plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plan
M = "solana/programs/example-native-token-transfers/src/"
T = "solana/programs/ntt-transceiver/src/"
Q = "solana/programs/ntt-quoter/src/"
G = "solana/programs/wormhole-governance/src/"
N = "solana/modules/ntt-messages/src/"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "hook_needed": None}})


NOVM = "The Rust tests that run here only cover pure helper functions with a few constants; the instruction-level tests need a validator, and sample single transactions with honest accounts."

prop("C01", "Decimal conversion never creates value and loses only the stated dust",
     "Converting an amount between two chains' decimals rounds down, to at most 8 decimals and at most the decimals of either chain; what is taken from the sender is exactly worth the converted amount, and what is left behind is smaller than one unit of the converted amount. "
     "Converting back is exact or rounds down, and an amount that does not fit is refused, never wrapped. A round trip pays out exactly what was taken.",
     ["inputs"], "all amounts and all pairs of decimals", "The unit tests check a dozen amounts and decimals.",
     [N + "trimmed_amount.rs"], [("trim / untrim / remove_dust / scale", N + "trimmed_amount.rs")], ["return values"])
prop("C02", "The rate limiter's capacity is sound",
     "A rate limit's capacity never exceeds the limit, refills linearly over 24 hours rounding down, and is full after 24 hours. An amount passes at once exactly if it is within the capacity and is then deducted; otherwise it is delayed by exactly 24 hours and nothing is deducted. "
     "A refill adds the amount up to the limit, and changing the limit keeps what was already used; over any period no more passes undelayed than the capacity at its start plus the linear refill.",
     ["inputs", "histories"], "all states, amounts, times and limits, and all sequences of operations", "One unit test runs one sequence with one limit.",
     [M + "queue/rate_limit.rs"], [("RateLimitState::capacity_at, consume_or_delay, refill, set_limit", M + "queue/rate_limit.rs")], ["release time stamps", "rate limit accounts"])
prop("C03", "Transfers in one direction restore the capacity of the other",
     "An outbound transfer that passes the outbound limit deducts its amount there and gives it back to the inbound limit of the destination chain; an inbound transfer that passes the limit of its source chain deducts it there and gives it back to the outbound limit. "
     "A delayed transfer, or a message that is not yet approved, changes no limit, and no other chain's limit is ever used.",
     ["inputs", "histories"], "all transfers, messages and limit states", NOVM,
     [M + "instructions/transfer.rs", M + "instructions/redeem.rs"], [("backflow", M + "instructions/transfer.rs"), ("release_inbound_limit / refill", M + "instructions/redeem.rs")], ["inbox and outbox rate limit accounts"])
prop("C04", "A transfer is approved only by enough distinct enabled transceivers",
     "Redeeming a message records the vote of exactly the transceiver that attested it, once, whatever is repeated, and never another's. A transfer is approved only when the number of distinct transceivers that voted and are still enabled reaches the threshold; votes of disabled ones do not count.",
     ["inputs", "histories"], "all vote states, registries, thresholds and orders of redemption", "The unit tests set a few bits of a bitmap; nothing runs a redemption.",
     [M + "instructions/redeem.rs", M + "bitmap.rs", M + "queue/inbox.rs"], [("votes.set / count_enabled_votes / threshold", M + "instructions/redeem.rs")], ["inbox item"])
prop("C05", "Only an authentic message for this manager is redeemed, into its own item",
     "A message is redeemed only if it was stored by a registered and enabled transceiver, was sent by the registered peer of its source chain, and is addressed to this manager on this chain. "
     "It is recorded only in the inbox item that belongs to its source chain and content, with exactly the amount and recipient of the message; what was recorded once is not changed later.",
     ["inputs", "histories"], "all accounts and messages a caller can present", NOVM,
     [M + "instructions/redeem.rs", M + "messages.rs", N + "ntt_manager.rs"], [("account constraints of Redeem", M + "instructions/redeem.rs"), ("ValidatedTransceiverMessage::try_from", M + "messages.rs")], ["inbox item"])
prop("C06", "An approved inbound transfer is paid exactly once, in full, to its recipient",
     "Approving a transfer fixes its release time to now if within the limit and otherwise to 24 hours later; nothing is paid before that time or without approval. "
     "When it is released, exactly its amount is minted (burning mode) or unlocked from custody (locking mode) to the recipient's associated account of the managed token, and the transfer can never be approved or paid again.",
     ["inputs", "histories"], "all inbox items, accounts and times", NOVM,
     [M + "instructions/release_inbound.rs", M + "queue/inbox.rs", M + "instructions/redeem.rs"], [("InboxItem::try_release / release_after", M + "queue/inbox.rs"), ("release_inbound_mint / _unlock", M + "instructions/release_inbound.rs")], ["token balances", "inbox item"])
prop("C07", "An outbound transfer is released at most once per transceiver, when due",
     "A queued outbound transfer is marked released for a transceiver only at or after its release time, only if that transceiver is registered, enabled and itself asks for it, and only once; other transceivers' marks and the transfer's content stay as they were.",
     ["inputs", "histories"], "all outbox items, transceivers and times", NOVM,
     [M + "queue/outbox.rs", M + "instructions/mark_outbox_item_as_released.rs", M + "transceivers/wormhole/instructions/release_outbound.rs", T + "wormhole/instructions/release_outbound.rs"],
     [("OutboxItem::try_release", M + "queue/outbox.rs"), ("outbox_item_signer", M + "instructions/mark_outbox_item_as_released.rs")], ["outbox item", "returned flag"])
prop("C08", "The message posted for a transfer is exactly that transfer",
     "Releasing an outbound transfer through the wormhole transceiver posts exactly one message, byte for byte the encoding of that transfer: its item as id, its sender, amount and decimals, the managed token, recipient, destination chain and manager. "
     "It is posted from the transceiver's own emitter into the item's own message account with finalized consistency and the fee paid, and nothing is posted if the transfer is not released.",
     ["inputs"], "all outbox items and accounts", NOVM,
     [M + "transceivers/wormhole/instructions/release_outbound.rs", M + "transceivers/wormhole/accounts.rs", T + "wormhole/instructions/release_outbound.rs", T + "wormhole/accounts.rs"],
     [("release_outbound / post_message", M + "transceivers/wormhole/")], ["message handed to the core bridge"])
prop("C09", "Only the owner administers, and each act changes only what it names",
     "Pausing, peers, transceivers, limits and ownership are changed only by a transaction signed by the current owner recorded in the manager's configuration. Each act changes exactly the setting it names, for the chain it names, and leaves every other setting as it was.",
     ["inputs"], "all callers, accounts and arguments", NOVM,
     [M + "instructions/admin.rs", M + "transceivers/wormhole/instructions/admin.rs", T + "wormhole/instructions/admin.rs"], [("has_one = owner / Signer", M + "instructions/admin.rs")], ["configuration, peer and rate limit accounts"])
prop("C10", "Ownership and upgrade authority move together, only to who may claim them",
     "Offering ownership keeps the current owner and parks the program's upgrade authority at the program's own lock; only the offered owner, or the current one to cancel, can claim it by signing, and then gets both. "
     "The one-step transfer hands both over at once and drops a pending offer; nobody else becomes owner or upgrade authority.",
     ["inputs", "histories"], "all owners, pending owners, signers and authorities", NOVM,
     [M + "instructions/admin.rs"], [("transfer_ownership / claim_ownership", M + "instructions/admin.rs")], ["configuration", "program data"])
prop("C11", "A transfer takes exactly what its outbox item says",
     "An accepted outbound transfer takes from the sender exactly the trimmed amount's worth, locking it in custody or burning it, and creates a new outbox item with that amount, the sender, the requested recipient and chain, and that chain's registered peer as destination manager. "
     "If taking the tokens changes custody by anything else (such as a transfer fee) it fails; it is released now if within the limit, and otherwise 24 hours later and only if the sender agreed to queue.",
     ["inputs"], "all amounts, accounts, fees and limit states", NOVM,
     [M + "instructions/transfer.rs"], [("transfer_lock / transfer_burn / insert_into_outbox", M + "instructions/transfer.rs")], ["token balances", "outbox item"])
prop("C12", "Tokens move only with the sender approving exactly these transfer arguments",
     "A transfer spends the sender's tokens only through the session authority that belongs to the token account's owner and to exactly this amount, destination chain, recipient and queueing choice; an approval for other arguments or by another owner can not be used.",
     ["inputs"], "all callers, approvals and arguments", NOVM,
     [M + "instructions/transfer.rs", M + "lib.rs"], [("SESSION_AUTHORITY_SEED, TransferArgs::keccak256", M + "instructions/transfer.rs")], ["token balances"])
prop("C13", "While paused nothing moves",
     "While the manager is paused no transfer is accepted, no message is received, and no inbound or outbound transfer is released or paid, by the manager or by the standalone transceiver (votes for messages already received may still be recorded, which pays nothing). Unpausing restores all of this, and pausing changes nothing else.",
     ["inputs", "histories"], "all instructions and accounts", NOVM,
     [M + "config.rs", M + "instructions/", M + "transceivers/wormhole/instructions/", T + "wormhole/instructions/"], [("NotPausedConfig", M + "config.rs")], ["success of instructions"])
prop("C14", "Only a posted VAA of the registered peer becomes a validated message",
     "The wormhole transceiver stores a validated message only from a VAA account of the core bridge whose emitter is the registered peer of its emitter chain and whose transfer is addressed to this chain. "
     "The stored message is exactly the VAA's with that emitter chain as source, in the account that belongs to that chain and message id; a peer is set once per chain.",
     ["inputs"], "all VAA, peer and message accounts", NOVM,
     [M + "transceivers/wormhole/instructions/receive_message.rs", T + "wormhole/instructions/receive_message.rs"], [("constraints of ReceiveMessage", M + "transceivers/wormhole/instructions/receive_message.rs")], ["validated message account"])
prop("C15", "Wire encodings match the cross-chain format and decode to what was encoded",
     "Every message that crosses chains (transfers, manager and transceiver messages, transceiver announcements) is encoded in the documented byte layout, and decoding an encoding gives the same message back. "
     "A decoder accepts only its own prefix, and two different messages never have the same encoding.",
     ["inputs"], "all field values, all byte strings of the encoded lengths", "The unit tests decode four fixed files.",
     [N + "ntt.rs", N + "ntt_manager.rs", N + "transceiver.rs", N + "transceivers/wormhole.rs", N + "trimmed_amount.rs", N + "mode.rs", N + "chain_id.rs"],
     [("Readable / Writeable implementations", N)], ["bytes"])
prop("C16", "A message identity covers its source chain and all of its content",
     "The digest that identifies an inbound message is the keccak hash of its source chain followed by its complete wire encoding, so that messages that differ in chain, id, sender, amount, decimals, token, recipient or destination have different identities and equal ones have the same.",
     ["inputs"], "all messages and chains", "No test computes the digest against an independent definition.",
     [N + "ntt_manager.rs"], [("NttManagerMessage::keccak256", N + "ntt_manager.rs")], ["digest", "inbox item address"])
prop("C17", "The relay quoter charges its published price and obeys only its admins",
     "Requesting a relay costs exactly the price of the destination chain: gas and drop-off at its native price plus its base price, in lamports at the sol price, each step rounded down and never wrapped, and at least the rent. It is refused above the caller's maximum or the chain's drop-off limit, for a disabled chain, or for a transfer that wormhole has not released. "
     "The payment and the drop-off are recorded once per transfer, and only the owner or the assistant can close the record, paying it to the fee recipient. Only the owner names assistant and fee recipient, only these two set prices and registrations, and each act changes only what it names.",
     ["inputs"], "all prices, drop-offs and accounts", "No test calls the quoter.",
     [Q + "processor/", Q + "state.rs"], [("request_relay", Q + "processor/request_relay.rs"), ("admin", Q + "processor/admin.rs"), ("prices", Q + "processor/update_prices.rs")], ["lamports", "quoter accounts"])
prop("C18", "Governance executes exactly the signed instruction, once",
     "The governance program executes an instruction only from a wormhole governance VAA of the governance emitter addressed to this chain and program, exactly as signed, with only its own authority and the payer substituted, and each VAA at most once. "
     "Governance messages have the documented byte layout and the size they state, and only a message of this kind decodes.",
     ["inputs", "histories"], "all VAAs and account lists", "The governance program is not part of the test build.",
     [G + "instructions/governance.rs"], [("Governance accounts, ReplayProtection", G + "instructions/governance.rs")], ["cross-program call"])
prop("C19", "Initialisation is for the deployer, once, and starts in a safe state",
     "A manager is initialised only by the program's upgrade authority and only once. It then records the deployer as owner, the given mint, mode and chain, and the token authority's associated account as custody; it is unpaused, with threshold 1, no transceiver, no pending owner and a full outbound limit, and in burning mode the program holds the mint authority.",
     ["inputs"], "all callers, accounts and arguments", NOVM,
     [M + "instructions/initialize.rs"], [("Initialize accounts", M + "instructions/initialize.rs")], ["configuration", "outbound limit"])
prop("C20", "Every transceiver has its own id and is registered once",
     "Registering a transceiver gives an executable program a fresh id that no other transceiver has or will have and enables it, leaving all other transceivers' enablement as it was; the same program can not be registered twice, and never more than fit the registry.",
     ["inputs", "histories"], "all registries", "The unit tests set bits of a bitmap only.",
     [M + "instructions/admin.rs", M + "registered_transceiver.rs"], [("register_transceiver", M + "instructions/admin.rs")], ["configuration", "registered transceiver account"])
prop("C21", "Announcements state the real manager, token and peer",
     "The announcements a transceiver broadcasts carry exactly the manager, its mode, the managed token and its decimals, or the registered peer of the named chain, in the documented layout, posted from the transceiver's own emitter.",
     ["inputs"], "all configurations and accounts", NOVM,
     [M + "transceivers/wormhole/instructions/broadcast_id.rs", M + "transceivers/wormhole/instructions/broadcast_peer.rs", T + "wormhole/instructions/broadcast_id.rs", T + "wormhole/instructions/broadcast_peer.rs"],
     [("broadcast_id / broadcast_peer", M + "transceivers/wormhole/instructions/")], ["message handed to the core bridge"])
prop("C22", "Stored state always fits its account and reads back unchanged",
     "Every state account is created with enough space for any value of its type, and what is written to it reads back the same, also what the standalone transceiver stores and the manager reads; an account of another kind is never read as this one.",
     ["inputs"], "all values of every account type", "No test stores the largest values.",
     [M + "config.rs", M + "queue/inbox.rs", M + "queue/outbox.rs", M + "peer.rs", M + "registered_transceiver.rs", M + "messages.rs", M + "bitmap.rs"],
     [("InitSpace, Borsh derive", M)], ["account bytes"])
prop("C23", "The EVM contracts keep the same guarantees",
     "The Solidity manager and transceivers keep the guarantees above on EVM chains.", ["inputs", "histories"], "all calls", "Solidity tests are not run here.",
     ["evm/src"], [("NttManager", "evm/src/NttManager/NttManager.sol")])
prop("C24", "The TypeScript SDK and CLI build the transactions they claim to",
     "The SDK derives the right addresses and builds transactions with the arguments it is given.", ["inputs"], "all arguments", "They need a network.",
     ["sdk/", "cli/"], [("NTT namespaces", "solana/ts/lib/ntt.ts")])
prop("C25", "The address lookup table lists exactly the manager's own accounts",
     "The lookup table that callers use to compress transactions is created by and for the manager's own authority at the given slot, filled with exactly the program, its configuration, custody, token program, mint, token authority, outbound limit and the wormhole accounts, and recorded in the one account callers look it up in; a later table replaces the record and changes nothing else.",
     ["inputs"], "all callers and slots", NOVM, [M + "instructions/luts.rs"], [("initialize_lut", M + "instructions/luts.rs")], ["lookup table"])

NA = {
    "C23": "Solidity: there is no EVM front end for a solver here (no solc, no hevm, no halmos), so the real code cannot be encoded.",
    "C24": "TypeScript against a remote chain: no symbolic executor for TypeScript is installed and the behaviour is I/O.",
}


def main():
    with open(f"{HERE}/../properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in plan.PLAN:
            e = plan.PLAN[i]
            checks.append({
                "property": i, "quick_cmd": f"python3 lib/check.py {i} quick", "thorough_cmd": f"python3 lib/check.py {i} thorough",
                "technique": "bounded symbolic execution of the compiled Rust (Kani/CBMC) decided by SAT; counterexamples replayed natively",
                "level": "other",
                "level_note": "Holds for every value within the bounds: " + e["bounds"] + ". Outside: " + (e.get("outside") or "what the environment model abstracts (see DESIGN.md)")
                + ". Trusts Kani, CBMC, CaDiCaL and the environment model."})
        else:
            na.append({"property": i, "reason": NA.get(i) or plan.NA.get(i)})
    json.dump({"version": 1, "setup_cmd": "python3 lib/check.py --setup", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the checks compile a mirror of /repo/solana against vendored dependencies that carry the environment model."},
              open(f"{HERE}/../MANIFEST.json", "w"), indent=1)


main()
