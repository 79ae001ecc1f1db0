use crate::sx::*;
use bae_rs::utils::*;
use std::time::Duration;
/// counts whose duration lies within one power of two of a second: together every count below 48000 * 1024
fn cls(k: i32) -> u64 {
    if k == 0 { return 0; }
    let k = k - 17;
    let at = |k: i32| if k >= 0 { 48_000u64 << k } else { ((48_000u64 << 16 >> (-k)) + 65535) >> 16 };
    u_in(at(k), at(k + 1) - 1)
}
/// every count up to 12 million (4 minutes), in the deep version up to 49 million
#[no_mangle] pub extern "C" fn c07_count() { run(cls(choose(25) as i32)); }
#[no_mangle] pub extern "C" fn c07_count_deep() { run(cls(25 + choose(2) as i32)); }
fn run(n: u64) {
    let d = samples_to_seconds(n as usize);
    let s = d.as_secs(); let ns = d.subsec_nanos() as u64;
    obs(s); obs(ns);
    // |d - n/48000| <= 1 ns, in units of 1/48000 ns
    let t = (s * 1_000_000_000 + ns) * 48; let w = n * 1_000_000;
    ck!(t <= w + 48 && w <= t + 48);
    ck!(seconds_to_samples(d) as u64 == n);
}
/// every duration up to 1000 s: nearest count
#[no_mangle] pub extern "C" fn c07_nearest() {
    let s = u_in(0, 1000); let ns = u_in(0, 999_999_999);
    let n = seconds_to_samples(Duration::new(s, ns as u32)) as u64;
    obs(n);
    let t = (s * 1_000_000_000 + ns) * 48; let w = n * 1_000_000;
    ck!(w <= t + 500_048 && t <= w + 500_048);
}
/// longer durations never give fewer samples
#[no_mangle] pub extern "C" fn c07_monotone() {
    let s = u_in(0, 1000); let ns = u_in(0, 999_999_999);
    let s2 = u_in(0, 1000); let ns2 = u_in(0, 999_999_999);
    assume(s < s2 || (s == s2 && ns <= ns2));
    ck!(seconds_to_samples(Duration::new(s, ns as u32)) <= seconds_to_samples(Duration::new(s2, ns2 as u32)));
}
/// durations of hours and days, and the counts around the limits of 32 bits
#[no_mangle] pub extern "C" fn c07_days() {
    let (lo, hi) = [(1_001, 40_000), (40_001, 90_000), (90_001, 400_000), (400_001, 1_000_000)][choose(4)];
    let s = u_in(lo, hi); let ns = u_in(0, 999_999_999);
    let n = seconds_to_samples(Duration::new(s, ns as u32)) as u64;
    obs(n);
    let t = (s * 1_000_000_000 + ns) * 48; let w = n * 1_000_000;
    ck!(w <= t + 500_048 && t <= w + 500_048);
}
#[no_mangle] pub extern "C" fn c07_limits() {
    let at = [1u64 << 31, 1 << 32, 1 << 33, 1 << 35, 48_000 * 86_400, 1 << 36][choose(6)];
    run(at - 8 + choose(17) as u64);
}
harnesses!(c07_days, c07_limits, c07_count, c07_count_deep, c07_nearest, c07_monotone);
