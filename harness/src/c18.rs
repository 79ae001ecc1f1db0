use crate::sx::*;
use bae_rs::utils::mono_resampler::MonoResampler;
use bae_rs::sample_format::{Mono, SampleFormat};
const SR: f64 = 48000.0;
const TOL: f64 = 1e-5;
const J: f64 = 1e-9;
fn track(n: usize) -> Vec<Mono> { (0..n).map(|_| Mono::from_sample(f32_in(-1.0, 1.0))).collect() }
/// the value at position p (a case split on the slot it falls in)
fn at_ok(y: f32, t: &[Mono], p: f64) -> bool {
    let y = y as f64; let n = t.len();
    let mut k = 0;
    while k < n && fork(p >= (k + 1) as f64) { k += 1; }
    if k == n { return (y == 0.0) | (p <= n as f64 + J && n > 0 && near(y, t[n - 1].into_sample() as f64, TOL)); }
    let x1 = t[k].into_sample() as f64; let x2 = if k + 1 < n { t[k + 1].into_sample() as f64 } else { x1 };
    near(y, x1 + (p - k as f64) * (x2 - x1), TOL) | ((k + 1 == n) & (p >= n as f64 - J) & (y == 0.0))
}
/// recorded samples: with the position symbolic the result is a linear function of it
fn fixed(n: usize) -> Vec<Mono> {
    let v = [[0.5f32, -0.75, 1.0, 0.125, -1.0, 0.25], [-1.0, 1.0, -1.0, 1.0, -1.0, 1.0], [0.1, 0.2, 0.7, 0.3, -0.3, 0.9]][choose(3)];
    v[..n].iter().map(|x| Mono::from_sample(*x)).collect()
}
/// any sequence of speeds at a few rates
fn run(t: Vec<Mono>, steps: usize) {
    forksel(true); forktab(true);
    let rate = [48000.0, 44100.0, 22050.0, 96000.0, 8000.0][choose(5)];
    let mut r = MonoResampler::new(t.to_vec(), rate, 0, 0);
    ck!(r.get_playback_speed() == 1.0);
    let mut p = 0.0;
    for i in 0..steps {
        let s = if i == 0 { 1.0 } else { let s = f64_in(0.0, 4.0); r.set_playback_speed(s); ck!(r.get_playback_speed() == s); s };
        let y = r.process(); obs(y);
        ck!(at_ok(y, &t, p));
        p += rate / SR * s;
    }
}
#[no_mangle] pub extern "C" fn c18_speeds() { run(fixed(5), 5) }
#[no_mangle] pub extern "C" fn c18_short() { let n = choose(3); run(track(n), 3) }
/// any rate at the initial speed
#[no_mangle] pub extern "C" fn c18_rates() { rates(4) }
#[no_mangle] pub extern "C" fn c18_rates_deep() { rates(6) }
fn rates(m: usize) {
    forksel(true); forktab(true);
    let n = 1 + choose(5);
    let rate = f64_in(0.0, 192000.0);
    let t = fixed(n);
    let mut r = MonoResampler::new(t.to_vec(), rate, 0, 0);
    for i in 0..m {
        let y = r.process(); obs(y);
        ck!(at_ok(y, &t, i as f64 * rate / SR));
    }
}
/// silence for ever once past the end, whatever the speeds
#[no_mangle] pub extern "C" fn c18_silence() {
    let rate = [48000.0, 11025.0, 192000.0][choose(3)];
    let t = track(2);
    let mut r = MonoResampler::new(t.to_vec(), rate, 0, 0);
    let mut p = 0.0;
    for i in 0..4 {
        let s = f64_in(0.0, 1e6);
        r.set_playback_speed(s);
        let y = r.process();
        if i > 0 && fork(p > 2.0 + J) { ck!(y == 0.0); }
        p += rate / SR * s;
    }
}
/// long runs at fixed rates and speeds: every position up to and past the end
#[no_mangle] pub extern "C" fn c18_long() {
    let rate = [48000.0, 44100.0, 22050.0, 96000.0, 8000.0, 47999.0][choose(6)];
    let s = [1.0, 0.5, 0.1, 2.0, 1.0 / 3.0, 0.0][choose(6)];
    let n = 12;
    let t = track(n);
    let mut r = MonoResampler::new(t.to_vec(), rate, 0, 0);
    r.set_playback_speed(s);
    for i in 0..48 {
        let y = r.process();
        if i % 6 == 0 { obs(y); }
        ck!(at_ok(y, &t, i as f64 * (rate * s / SR)));
    }
}
#[no_mangle] pub extern "C" fn c18_speeds_deep() { run(fixed(6), 7) }
/// no data, rate or speed makes it panic
#[no_mangle] pub extern "C" fn c18_extreme() {
    let rate = [0.0, 48000.0, 1e300, 1e-300, f64::INFINITY][choose(5)];
    let n = choose(3);
    let mut r = MonoResampler::new(track(n), rate, 0, 0);
    for _ in 0..4 {
        r.set_playback_speed([0.0, 1.0, 1e18, 1e300, f64::INFINITY][choose(5)]);
        let y = r.process(); obs(y); ck!(y >= -1.0 && y <= 1.0);
    }
}
/// long tracks: recorded samples, deep positions, then any speed
#[no_mangle] pub extern "C" fn c18_far() {
    forksel(true); forktab(true);
    let n = 70_000usize;
    let t: Vec<Mono> = (0..n).map(|i| Mono::from_sample([0.5, -0.75, 1.0, 0.125, -1.0][i % 5])).collect();
    let rate = [48000.0, 44100.0, 8000.0][choose(3)];
    let sp = [1.0, 1.7, 300.0][choose(3)];
    let steps = if sp > 100.0 { [200, 233][choose(2)] } else { [1000, 40_001][choose(2)] };
    let mut r = MonoResampler::new(t.to_vec(), rate, 0, 0);
    r.set_playback_speed(sp);
    for _ in 0..steps { r.process(); }
    let p = steps as f64 * (rate / SR * sp);
    if p >= n as f64 { let y = r.process(); ck!(y == 0.0); return }
    let k0 = p as usize - 1; let b = &t[k0..if k0 + 12 < n { k0 + 12 } else { n }];
    let mut q = p - k0 as f64;
    for _ in 0..3 {
        let s = f64_in(0.0, 2.0); r.set_playback_speed(s);
        let y = r.process(); obs(y);
        ck!(at_loose(y, b, q));
        q += rate / SR * s;
    }
}
fn at_loose(y: f32, t: &[Mono], p: f64) -> bool {
    let mut k = 0;
    while k + 1 < t.len() && fork(p >= (k + 1) as f64) { k += 1; }
    let (x1, x2) = (t[k].into_sample() as f64, t[if k + 1 < t.len() { k + 1 } else { k }].into_sample() as f64);
    near(y as f64, x1 + (p - k as f64) * (x2 - x1), 1e-4) | (p - (k as f64) < 1e-7) | ((k + 1) as f64 - p < 1e-7)
}
/// quiet and loud recordings
#[no_mangle] pub extern "C" fn c18_scales() {
    let w = [1e-30f32, 1e-12, 1e-6, 1e6, 1e30][choose(5)];
    let rate = [24_000.0, 48_000.0, 36_000.0][choose(3)];
    let t = track(3);
    let mut r = MonoResampler::new(t.iter().map(|m| Mono::from_sample(m.into_sample() * w)).collect(), rate, 0, 0);
    for i in 0..4 { let y = r.process(); let v = y as f64 / w as f64; obs(v); ck!(at_ok(v as f32, &t, i as f64 * rate / SR)); }
}
harnesses!(c18_scales, c18_rates_deep, c18_speeds_deep, c18_extreme, c18_speeds, c18_short, c18_rates, c18_silence, c18_long, c18_far);
