#![allow(static_mut_refs, unused, clippy::all)]
pub mod env;
pub mod msgs;
pub mod post;
pub mod token;

macro_rules! harnesses {
    ($($m:ident $s:literal { $($f:ident),* $(,)? })*) => {
        $(#[cfg(feature = $s)] pub mod $m;)*
        pub fn find(n: &str) -> Option<fn()> {
            $($(#[cfg(feature = $s)] if n == concat!($s, "::", stringify!($f)) { return Some($m::$f); })*)*
            None
        }
    };
}
harnesses! {
    h_admin "h_admin" { set_paused, transfer_ownership, transfer_ownership_one_step, claim_ownership, set_peer_new, set_peer_again, set_wormhole_peer, set_wormhole_peer_standalone, wormhole_peer_once, wormhole_peer_once_standalone, register_transceiver, register_transceiver_again, set_outbound_limit, set_inbound_limit }
    h_codec "h_codec" { transfer, transfer_extra, transfer_decode, manager, manager_extra, transceiver, transceiver_tail, transceiver_decode, info, registration, digest, digest_distinct }
    h_fn "h_fn" { outbox_try_release, inbox_try_release, inbox_release_after, session_hash }
    h_inbound "h_inbound" { release_mint, release_unlock, redeem_fresh, redeem_again, redeem_foreign }
    h_outbound "h_outbound" { lock, burn, lock_dust, burn_dust, lock_alias, lock_existing, burn_existing, mark_released, release_manager, release_standalone, broadcast_id, broadcast_id_standalone, broadcast_peer, broadcast_peer_standalone, receive_manager, receive_standalone }
    h_pure "h_pure" { trim0, trim1, trim2, trim3, untrim0, untrim1, untrim2, untrim3, dust0, dust1, dust2, dust3, round0, round1, round2, round3, bitmap, bitmap_count }
    h_state "h_state" { config, config_offered, inbox_item, outbox_item, rate_limits, peers, registered, quoter, message, message_across, kinds }
    h_quoter "h_quoter" { request_base, request_drop, request_gas, request_range_usd, request_range_native, request_again, close, set_fee_recipient, set_assistant, update_sol_price, update_chain_prices, update_chain_params, register_chain, register_chain_again, register_ntt, deregister_ntt, initialize, initialize_again }
    h_gov "h_gov" { governance, governance_one, governance_again, message, message_decode }
    h_lut "h_lut" { lut_new, lut_again }
    h_init "h_init" { initialize, initialize_custody, initialize_again, initialize22, initialize_foreign }
    h_rate "h_rate" { capacity0, capacity1, capacity2, capacity3, capacity4, consume0, consume1, consume2, consume3, consume4, refill0, refill1, refill2, refill3, refill4, set_limit0, set_limit1, set_limit2, set_limit3, set_limit4, window2, window3, new }
}
