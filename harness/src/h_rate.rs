//! The rate limiter.
use crate::env::*;
use ntt::queue::rate_limit::{RateLimitResult, RateLimitState};

const DAY: i64 = 86_400;

/// The bound: (limit, seconds since last use). Windows of a few significant bits at different
/// magnitudes, because multiplication and division are what is hard for the solver.
fn bound(k: u8) -> (u64, i64) {
    let w = nd_u64() & 0xff;
    let e = nd_u32() as i64;
    match k {
        // small limits, up to three days
        0 => (w & 0x3f, e & 0x3ffff),
        // any limit, just used
        1 => (nd_u64(), 0),
        // large limits, steps of 2.3 h up to a day and a half
        2 => ((w & 7) << 61, (e & 0xf) << 13),
        3 => (!(w & 7), (e & 7) << 14),
        4 => ((w & 7) << 31, (e & 0xf) << 13),
        _ => (w, e & 0x3ffff),
    }
}
/// Any state that respects the invariant `capacity <= limit`.
fn state(k: u8) -> RateLimitState {
    let now = nd_i64();
    assume(now >= 0 && now < 1 << 50);
    unsafe { NOW = now };
    let (limit, ago) = bound(k);
    assume(ago <= now);
    let cap = nd_u64();
    assume(cap <= limit);
    let last = if k == 1 { now } else { now - ago };
    RateLimitState { limit, capacity_at_last_tx: cap, last_tx_timestamp: last }
}
fn inv(s: &RateLimitState) -> bool {
    s.capacity_at_last_tx <= s.limit && s.last_tx_timestamp <= unsafe { NOW }
}
/// Is `c` the capacity `ago` seconds after `s`? Refilled linearly over 24 h, rounded down, capped.
fn is_capacity(s: &RateLimitState, ago: i64, c: u64) -> bool {
    let (limit, cap, c) = (s.limit as u128, s.capacity_at_last_tx as u128, c as u128);
    let gain = (ago as u128) * limit;
    let day = DAY as u128;
    if c == limit {
        cap * day + gain >= limit * day
    } else {
        c < limit && cap <= c && (c - cap) * day <= gain && gain < (c - cap + 1) * day
    }
}

fn t_capacity(k: u8) {
    let s = state(k);
    let now = unsafe { NOW };
    let c = s.capacity();
    vassert!("C02/capacity-at-now", c == s.capacity_at(now));
    vassert!("C02/capacity-bounded", c <= s.limit && c >= s.capacity_at_last_tx);
    vassert!("C02/capacity-refills-linearly", is_capacity(&s, now - s.last_tx_timestamp, c));
    vassert!("C02/full-after-a-day", now - s.last_tx_timestamp < DAY || c == s.limit);
    vcover!("capacity", c <= s.limit);
}

fn t_consume(k: u8) {
    let mut s = state(k);
    let pre = s.clone();
    let now = unsafe { NOW };
    let before = s.capacity_at(now);
    let amount = nd_u64();
    let r = s.consume_or_delay(amount);
    vassert!("C02/consume-invariant", inv(&s));
    vassert!("C02/limit-kept", s.limit == pre.limit);
    match r {
        RateLimitResult::Consumed(t) => {
            vassert!("C02/consumed-now", t == now);
            vassert!("C02/consumed-within-capacity", amount <= before);
            vassert!("C02/consumed-accounted", s.capacity_at_last_tx == before - amount.min(before));
            vassert!("C02/consumed-at", s.last_tx_timestamp == now);
            vcover!("consumed", amount > 0);
        }
        RateLimitResult::Delayed(t) => {
            vassert!("C02/delayed-a-day", t == now + DAY);
            vassert!("C02/delayed-only-above-capacity", amount > before);
            vassert!("C02/delayed-unchanged", s == pre);
            vcover!("delayed", true);
        }
    }
}

fn t_refill(k: u8) {
    let mut s = state(k);
    let pre = s.clone();
    let now = unsafe { NOW };
    let before = s.capacity_at(now);
    let amount = nd_u64();
    s.refill(now, amount);
    vassert!("C02/refill-invariant", inv(&s));
    vassert!("C02/refill-limit-kept", s.limit == pre.limit);
    let want = (before as u128 + amount as u128).min(pre.limit as u128);
    vassert!("C02/refill-adds", s.capacity_at_last_tx as u128 == want);
    vassert!("C02/refill-at", s.last_tx_timestamp == now);
    vcover!("partial", s.capacity_at_last_tx < s.limit && amount > 0);
}

fn t_set_limit(k: u8) {
    let mut s = state(k);
    let pre = s.clone();
    let now = unsafe { NOW };
    let before = s.capacity_at(now);
    let limit = nd_u64();
    s.set_limit(limit);
    vassert!("C02/set-limit-invariant", inv(&s));
    vassert!("C02/set-limit-sets", s.limit == limit);
    // what was already used of the old limit stays used
    let used = pre.limit - before;
    vassert!("C02/set-limit-keeps-used", s.capacity_at_last_tx == limit.saturating_sub(used));
    vassert!("C02/set-limit-at", s.last_tx_timestamp == now);
    vcover!("partial", used > 0 && s.capacity_at_last_tx > 0);
}

macro_rules! per_window {
    ($($n:ident $f:ident $k:literal),*) => {
        $(#[cfg_attr(kani, kani::proof)]
        pub fn $n() {
            $f($k);
        })*
    };
}
per_window!(
    capacity0 t_capacity 0,
    capacity1 t_capacity 1,
    capacity2 t_capacity 2,
    capacity3 t_capacity 3,
    capacity4 t_capacity 4,
    consume0 t_consume 0,
    consume1 t_consume 1,
    consume2 t_consume 2,
    consume3 t_consume 3,
    consume4 t_consume 4,
    refill0 t_refill 0,
    refill1 t_refill 1,
    refill2 t_refill 2,
    refill3 t_refill 3,
    refill4 t_refill 4,
    set_limit0 t_set_limit 0,
    set_limit1 t_set_limit 1,
    set_limit2 t_set_limit 2,
    set_limit3 t_set_limit 3,
    set_limit4 t_set_limit 4
);

/// Over any sequence of transfers (two; three in the thorough tier), what passes undelayed is at most the capacity at the start plus what
/// the elapsed time refills; within one day that is less than twice the limit.
#[cfg_attr(kani, kani::proof)]
pub fn window2() {
    window(2, 0xf)
}
#[cfg_attr(kani, kani::proof)]
pub fn window3() {
    window(3, 0x7)
}
fn window(steps: u8, most: u64) {
    let mut s = state(0);
    assume(s.limit <= most);
    let t0 = unsafe { NOW };
    let limit = s.limit as u128;
    let start = s.capacity_at(t0) as u128;
    let mut out = 0u128;
    let mut i = 0;
    while i < steps {
        if i > 0 {
            unsafe { NOW += (nd_u32() & 0xffff) as i64 };
        }
        let a = nd_u64();
        if let RateLimitResult::Consumed(_) = s.consume_or_delay(a) {
            out += a as u128;
        }
        i += 1;
    }
    let e = (unsafe { NOW } - t0) as u128;
    // one unit more: the fraction of a unit accumulated at the start
    vassert!("C02/window", out * (DAY as u128) < (start + 1) * (DAY as u128) + e * limit);
    vassert!("C02/day", e > DAY as u128 || out <= 2 * limit);
    vcover!("more-than-limit", out > limit);
}

/// A new rate limit starts full and satisfies the invariant.
#[cfg_attr(kani, kani::proof)]
pub fn new() {
    let limit = nd_u64();
    unsafe { NOW = nd_i64() };
    assume(unsafe { NOW } >= 0);
    let s = RateLimitState::new(limit);
    vassert!("C02/new-limit", s.limit == limit);
    vassert!("C02/new-full", s.capacity_at_last_tx == limit && inv(&s));
    vcover!("any", limit > 0);
}
