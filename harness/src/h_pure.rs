//! Pure code: decimals, rate limiter, bitmap.
use crate::env::*;
use ntt::bitmap::Bitmap;

const POW10: [u64; 20] = [
    1,
    10,
    100,
    1_000,
    10_000,
    100_000,
    1_000_000,
    10_000_000,
    100_000_000,
    1_000_000_000,
    10_000_000_000,
    100_000_000_000,
    1_000_000_000_000,
    10_000_000_000_000,
    100_000_000_000_000,
    1_000_000_000_000_000,
    10_000_000_000_000_000,
    100_000_000_000_000_000,
    1_000_000_000_000_000_000,
    10_000_000_000_000_000_000,
];

fn t_trim(amount: u64, from: u8, to: u8) {
    let cap = from.min(to).min(8);
    match TrimmedAmount::trim(amount, from, to) {
        Ok(t) => {
            vassert!("C01/trim-decimals", t.decimals == cap);
            let d = from - cap;
            if d < 20 {
                let f = POW10[d as usize];
                let v = (t.amount as u128) * (f as u128);
                vassert!("C01/trim-rounds-down", v <= amount as u128);
                vassert!("C01/trim-loses-only-dust", (amount as u128) - v < f as u128);
                vcover!("trim-scales", t.amount > 0 && d > 0);
            } else {
                vassert!("C01/trim-too-far", false);
            }
        }
        Err(_) => {
            vassert!("C01/trim-fails-only-on-overflow", from - cap > 19);
        }
    }
}

fn t_untrim(amount: u64, from: u8, to: u8) {
    let t = TrimmedAmount { amount, decimals: from };
    let r = t.untrim(to);
    let c = t.change_decimals(to);
    let up = to >= t.decimals;
    let d = if up { to - t.decimals } else { t.decimals - to };
    match r {
        Ok(v) => {
            vcover!("scaled", d > 0 && v > 0);
            vassert!("C01/change-decimals", matches!(c, Ok(c) if c.decimals == to && c.amount == v));
            if d > 19 {
                vassert!("C01/untrim-too-far", false);
            } else if up {
                let e = (t.amount as u128) * (POW10[d as usize] as u128);
                vassert!("C01/untrim-exact", v as u128 == e);
                
            } else {
                let f = POW10[d as usize] as u128;
                let e = (v as u128) * f;
                vassert!("C01/untrim-rounds-down", e <= t.amount as u128 && (t.amount as u128) - e < f);
                
            }
        }
        Err(_) => {
            vassert!("C01/change-decimals-refused", c.is_err());
            let fits = d <= 19 && (!up || (t.amount as u128) * (POW10[d as usize] as u128) <= u64::MAX as u128);
            vassert!("C01/untrim-fails-only-on-overflow", !fits);
        }
    }
}

fn t_dust(before: u64, from: u8, to: u8) {
    let mut amount = before;
    let cap = from.min(to).min(8);
    match TrimmedAmount::remove_dust(&mut amount, from, to) {
        Ok(t) => {
            let d = from - cap;
            vassert!("C01/dust-decimals", t.decimals == cap && d < 20);
            if d < 20 {
                let f = POW10[d as usize] as u128;
                vassert!("C01/dust-taken-is-worth", (t.amount as u128) * f == amount as u128);
                vassert!("C01/dust-not-more", amount <= before);
                vassert!("C01/dust-small", ((before - amount.min(before)) as u128) < f);
                vcover!("dust", amount < before && amount > 0);
            }
        }
        Err(_) => {
            vassert!("C01/dust-fails-only-on-overflow", from - cap > 19);
        }
    }
}

/// A round trip through another chain's decimals pays out exactly what was taken.
fn t_round(before: u64, a: u8, b: u8) {
    let mut amount = before;
    if let Ok(t) = TrimmedAmount::remove_dust(&mut amount, a, b) {
        if let Ok(there) = t.untrim(b) {
            let mut back = there;
            if let Ok(u) = TrimmedAmount::remove_dust(&mut back, b, a) {
                if let Ok(home) = u.untrim(a) {
                    vassert!("C01/round-trip-all-sent", back == there);
                    vassert!("C01/round-trip-no-gain", home <= amount && amount <= before);
                    vassert!("C01/round-trip-no-loss", home == amount);
                    vcover!("round", home > 0);
                }
            }
        }
    }
}

/// Amounts of the bound: ten significant bits at the bottom, in the middle and at the top of the
/// 64-bit range, and the largest ones.
fn amt(k: u8) -> u64 {
    let w = nd_u64() & 0x3ff;
    match k {
        0 => w,
        1 => w << 27,
        2 => (w & 0x1f) << 59,
        4 => w & 0x1f,
        5 => (w & 0x1f) << 27,
        6 => (w & 7) << 61,
        _ => !w,
    }
}
macro_rules! per_window {
    ($($n:ident $f:ident $k:literal),*) => {
        $(#[cfg_attr(kani, kani::proof)]
        pub fn $n() {
            $f(amt($k), nd_u8(), nd_u8());
        })*
    };
}
per_window!(
    trim0 t_trim 0, trim1 t_trim 1, trim2 t_trim 2, trim3 t_trim 3,
    untrim0 t_untrim 0, untrim1 t_untrim 1, untrim2 t_untrim 2, untrim3 t_untrim 3,
    dust0 t_dust 0, dust1 t_dust 1, dust2 t_dust 2, dust3 t_dust 3,
    round0 t_round 4, round1 t_round 5, round2 t_round 6, round3 t_round 3
);

/// Bitmap: set/get/count are those of a set of indices below 128.
#[cfg_attr(kani, kani::proof)]
pub fn bitmap() {
    let v = nd_u128();
    let (i, j) = (nd_u8(), nd_u8());
    let b = nd_bool();
    let mut m = Bitmap::from_value(v);
    let in_v = |k: u8| (v >> (k as u32)) & 1 == 1;
    match m.get(j) {
        Ok(x) => {
            vassert!("C04/bitmap-get", j < 128 && x == in_v(j & 127));
        }
        Err(_) => {
            vassert!("C04/bitmap-get-range", j >= 128);
        }
    }
    match m.set(i, b) {
        Ok(()) => {
            vassert!("C04/bitmap-set-range", i < 128);
            if let Ok(x) = m.get(j) {
                vassert!("C04/bitmap-set", x == if i == j { b } else { in_v(j & 127) });
            }
            vcover!("set", i != j && j < 128);
        }
        Err(_) => {
            vassert!("C04/bitmap-set-refused", i >= 128);
            vassert!("C04/bitmap-set-refused-same", m == Bitmap::from_value(v));
        }
    }
}

/// The number of votes that count is the number of transceivers that voted and are enabled.
#[cfg_attr(kani, kani::proof)]
pub fn bitmap_count() {
    let (v, e) = (nd_u128(), nd_u128());
    let n = Bitmap::from_value(v).count_enabled_votes(Bitmap::from_value(e));
    vassert!("C04/votes-counted", n as u32 == (v & e).count_ones());
    let m = Bitmap::from_value(v);
    vassert!("C04/len", m.len() as u32 == v.count_ones());
    vassert!("C04/is-empty", m.is_empty() == (v == 0));
    vcover!("some", n == 3);
}
