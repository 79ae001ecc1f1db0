use crate::sx::*;
use bae_rs::modifiers::{ADSR, Modifier};
use std::time::Duration;
const NS: [u64; 8] = [0, 20_833, 41_667, 50_000, 62_499, 10_400, 1, 83_333];
fn len(ns: u64) -> f64 { ns as f64 * 48e-6 }
fn steps(ns: u64) -> usize { let n = len(ns).ceil() as usize; if n == 0 { 1 } else { n } }
/// the gain of the k-th sample (from 1), never released
fn held(k: usize, a: u64, d: u64, sl: f64) -> f64 {
    let (na, nd) = (steps(a), steps(d));
    if k == 0 { 0.0 } else if k < na { k as f64 / len(a) } else if k == na { 1.0 }
    else if k - na < nd { 1.0 + (sl - 1.0) * (k - na) as f64 / len(d) } else { sl }
}
/// the sustain level in dB and as a factor
fn level(c: usize) -> (f64, f64) {
    match c {
        0 => (0.0, 1.0),
        1 => { let s = f64_in(-60.0, -0.01); (s, 10f64.powf(s / 20.0)) }
        2 => (f64_in(1e-9, 12.0), 1.0),
        3 => (f64::NEG_INFINITY, 0.0),
        _ => { let s = f64_in(-300.0, -60.0); (s, 10f64.powf(s / 20.0)) }
    }
}
fn run(a: u64, d: u64, r: u64, c: usize, rel: usize, again: bool, total: usize) {
    forksel(true);
    let (s, sl) = level(c);
    let mut e = ADSR::new(Duration::from_nanos(a), Duration::from_nanos(d), s, Duration::from_nanos(r));
    let nr = steps(r);
    for k in 1..=total {
        if k == rel + 1 || again && k > rel { e.release(); }
        let x = f32_in(-1.0, 1.0);
        let y = e.process(x); if k % 3 == 0 { obs(y); }
        if k <= rel { ck!(near(y as f64, x as f64 * held(k, a, d, sl), 1e-6)); }
        else {
            let j = k - rel;
            if j >= nr { ck!(y == 0.0); } else { ck!(near(y as f64, x as f64 * (held(rel, a, d, sl) * (1.0 - j as f64 / len(r))), 1e-6)); }
        }
    }
}
/// attack, decay and sustain without release
#[no_mangle] pub extern "C" fn c23_held() { let (a, d) = (NS[choose(8)], NS[choose(8)]); run(a, d, NS[choose(2)], choose(5), 99, false, 12) }
/// a release after any sample
#[no_mangle] pub extern "C" fn c23_release() { let (a, d, r) = (NS[choose(5)], NS[choose(5)], NS[choose(6)]); let c = choose(4); let rel = choose(9); run(a, d, r, c, rel, false, rel + 6) }
/// releasing again changes nothing
#[no_mangle] pub extern "C" fn c23_again() { let (a, d, r) = (NS[choose(4)], NS[choose(4)], NS[4 + choose(4)]); let c = choose(4); let rel = choose(8); run(a, d, r, c, rel, true, rel + 6) }
/// milliseconds and seconds
#[no_mangle] pub extern "C" fn c23_long() {
    forksel(true);
    let (s, sl) = level(1);
    let (a, d, r) = [(Duration::from_millis(1), Duration::from_millis(2), Duration::from_millis(1)), (Duration::from_secs(1), Duration::from_millis(1), Duration::from_secs(2)), (Duration::from_micros(499), Duration::from_secs(3), Duration::from_micros(1500))][choose(3)];
    let (na, nd, nr) = (a.as_secs_f64() * 48000.0, d.as_secs_f64() * 48000.0, r.as_secs_f64() * 48000.0);
    let mut e = ADSR::new(a, d, s, r);
    for k in 1..=40 {
        let y = e.process(1.0);
        let t = k as f64;
        let g = if t < na { t / na } else { 1.0 + (t - na) / nd * (sl - 1.0) };
        if k % 8 == 0 { ck!(near(y as f64, g, 1e-6)); }
    }
    e.release();
    let g = 40.0; let g = if g < na { g / na } else { 1.0 + (g - na) / nd * (sl - 1.0) };
    for k in 1..=40 { let y = e.process(1.0); if k % 8 == 0 { ck!(near(y as f64, g * (1.0 - k as f64 / nr), 1e-6)); } }
}
/// a clone starts over
#[no_mangle] pub extern "C" fn c23_clone() {
    forksel(true);
    let (a, d, r) = (NS[choose(4)], NS[2], NS[choose(4)]);
    let (s, sl) = level(1);
    let mut e = ADSR::new(Duration::from_nanos(a), Duration::from_nanos(d), s, Duration::from_nanos(r));
    let n = choose(6);
    for _ in 0..n { e.process(1.0); }
    if choose(2) == 1 { e.release(); e.process(1.0); }
    let mut c = e.clone();
    for k in 1..=7 { let x = f32_in(-1.0, 1.0); let y = c.process(x); ck!(near(y as f64, x as f64 * held(k, a, d, sl), 1e-6)); }
}
/// a quarter of a second in each phase, arbitrary samples now and then (adding up 12000 steps may end a phase a sample late)
#[no_mangle] pub extern "C" fn c23_far() {
    let q = Duration::from_millis(250); let n = 12_000usize;
    let (s, sl) = [(-6.0, 10f64.powf(-0.3)), (f64::NEG_INFINITY, 0.0), (0.0, 1.0)][choose(3)];
    let rel = [6_000usize, 12_000, 18_000, 60_000][choose(4)];
    let mut e = ADSR::new(q, q, s, q);
    let g = |k: usize| if k <= n { k as f64 / n as f64 } else if k <= 2 * n { 1.0 + (sl - 1.0) * (k - n) as f64 / n as f64 } else { sl };
    for k in 1..=rel {
        let at = k % 3000 < 2 || k == rel;
        let x = if at { f32_in(-1.0, 1.0) } else { 1.0 };
        let y = e.process(x); if at { obs(y); }
        if at || k % 17 == 0 { ck!(near(y as f64, x as f64 * g(k), 1.8e-4)); }
    }
    e.release();
    for j in 1..=n + 2_000 {
        let at = j % 3000 < 2 || j + 2 > n && j < n + 3;
        let x = if at { f32_in(-1.0, 1.0) } else { 1.0 };
        let y = e.process(x);
        if j > n + 1 { ck!(y == 0.0); } else if j >= n { ck!(near(y as f64, 0.0, 1e-9)); } else if at || j % 17 == 0 { ck!(near(y as f64, x as f64 * g(rel) * (1.0 - j as f64 / n as f64), 1.8e-4)); }
    }
}
/// quiet and loud signals give the same output, scaled
fn scaled<M: Modifier>(mut a: M, mut b: M) {
    let k = choose(4); let w = [1.0 / (1u128 << 80) as f64, 1.0 / (1u64 << 24) as f64, (1u64 << 24) as f64, (1u128 << 80) as f64][k];
    for _ in 0..4 {
        let x = f32_in(-1.0, 1.0);
        let (y, z) = (a.process(x), b.process(x * w as f32)); obs(y); obs(z as f64 / w);
        ck!(near(z as f64 / w, y as f64, 1e-5));
    }
}
#[no_mangle] pub extern "C" fn c23_scales() { let us = Duration::from_micros; let mk = || ADSR::new(us(42), us(42), -6.0, us(63)); scaled(mk(), mk()) }
harnesses!(c23_scales, c23_held, c23_release, c23_again, c23_long, c23_clone, c23_far);
