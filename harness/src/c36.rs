use crate::sx::*;
use bae_rs::generators::{Generator, MonoWav};
use bae_rs::sample_format::{Mono, MonoTrackT, SampleFormat};
const SR: f64 = 48000.0;
const TOL: f64 = 1e-5;
const J: f64 = 1e-9;
fn file(ch: u16, rate: u32, bits: u16, data: &[u8]) -> Vec<u8> {
    let mut f: Vec<u8> = Vec::new();
    f.extend_from_slice(b"RIFF"); f.extend_from_slice(&(data.len() as u32 + 36).to_le_bytes()); f.extend_from_slice(b"WAVE");
    f.extend_from_slice(b"fmt "); f.extend_from_slice(&16u32.to_le_bytes());
    f.extend_from_slice(&1u16.to_le_bytes()); f.extend_from_slice(&ch.to_le_bytes()); f.extend_from_slice(&rate.to_le_bytes());
    f.extend_from_slice(&rate.wrapping_mul((ch * (bits / 8)) as u32).to_le_bytes());
    f.extend_from_slice(&(ch * (bits / 8)).to_le_bytes()); f.extend_from_slice(&bits.to_le_bytes());
    f.extend_from_slice(b"data"); f.extend_from_slice(&(data.len() as u32).to_le_bytes());
    f.extend_from_slice(data);
    f
}
/// the value of a track at a position
fn at_ok(y: f32, t: &[f64], p: f64) -> bool {
    let y = y as f64; let n = t.len();
    let mut k = 0;
    while k < n && fork(p >= (k + 1) as f64) { k += 1; }
    if k == n { return (y == 0.0) | (p <= n as f64 + J && n > 0 && near(y, t[n - 1], TOL)); }
    let x1 = t[k]; let x2 = if k + 1 < n { t[k + 1] } else { x1 };
    near(y, x1 + (p - k as f64) * (x2 - x1), TOL) | ((k + 1 == n) & (p >= n as f64 - J) & (y == 0.0))
}
/// frames of 16-bit codes, channel after channel in each frame
fn source(codes: &[i16], ch: usize, rate: u32) -> (MonoWav, Vec<f64>) {
    let mut d = Vec::new();
    for c in codes { d.extend_from_slice(&c.to_le_bytes()); }
    let f = file(ch as u16, rate, 16, &d);
    let mut s = &f[..];
    (MonoWav::from_source(&mut s), codes.iter().step_by(ch).map(|c| *c as f64 / 32767.0).collect())
}
fn codes(n: usize) -> Vec<i16> { (0..n).map(|_| i_in(-32768, 32767) as i16).collect() }
/// any codes, each rate, a few speeds: every sample up to and past the end
#[no_mangle] pub extern "C" fn c36_codes() {
    forktab(true);
    let rate = [48000u32, 12000, 24000, 96000, 44100, 8000][choose(6)];
    let (ch, n) = (1 + choose(2), 1 + choose(3));
    let (mut w, t) = source(&codes(ch * n), ch, rate);
    let s = [1.0, 0.5, 2.0, 0.0, 1.3][choose(5)];
    ck!(w.get().get_playback_speed() == 1.0);
    w.get_mut().set_playback_speed(s); ck!(w.get().get_playback_speed() == s);
    for i in 0..12 { let y = w.process(); if i % 4 == 0 { obs(y); } ck!(at_ok(y, &t, i as f64 * (rate as f64 * s / SR))); }
}
/// recorded codes, any sequence of speeds set through the player
#[no_mangle] pub extern "C" fn c36_speeds() {
    forksel(true); forktab(true);
    let rate = [48000u32, 12000, 24000, 96000][choose(4)];
    let ch = 1 + choose(2);
    let v = [[16384i16, -32768, 32767, 77, -5000, 12345], [-1, 1, 30000, -30000, 0, 9999]][choose(2)];
    let (mut w, t) = source(&v[..3 * ch], ch, rate);
    let mut p = 0.0;
    for _ in 0..4 {
        let s = f64_in(0.0, 2.0);
        w.get_mut().set_playback_speed(s); ck!(w.get().get_playback_speed() == s);
        let y = w.process(); obs(y);
        ck!(at_ok(y, &t, p));
        p += rate as f64 / SR * s;
    }
}
/// other sample sizes and channel counts: the first channel's samples
#[no_mangle] pub extern "C" fn c36_sizes() {
    let k = 1 + choose(3); let ch = [1, 2, 3, 6][choose(4)]; let n = [1, 2, 4][choose(3)];
    let d: Vec<u8> = (0..k * ch * n).map(|_| u_in(0, 255) as u8).collect();
    if k != 2 && d.len() % 2 == 1 { return }
    let f = file(ch as u16, 48000, 8 * k as u16, &d);
    let mut s = &f[..];
    let mut w = MonoWav::from_source(&mut s);
    for i in 0..n + 3 {
        let y = w.process(); if i % 2 == 0 { obs(y); }
        if i >= n { ck!(y == 0.0); continue }
        let b = &d[i * ch * k..];
        let e = match k { 1 => (b[0] as f64 - 128.0) / 128.0, 2 => i16::from_le_bytes([b[0], b[1]]) as f64 / 32767.0, _ => (i32::from_le_bytes([0, b[0], b[1], b[2]]) >> 8) as f64 / 8388607.0 };
        ck!(near(y as f64, e, TOL));
    }
}
/// built from a track and a rate
#[no_mangle] pub extern "C" fn c36_track() {
    forksel(true); forktab(true);
    let n = choose(4);
    let v = [[0.5f32, -0.75, 1.0], [-1.0, 1.0, -1.0], [0.1, 0.2, 0.7]][choose(3)];
    let t: MonoTrackT = v[..n].iter().map(|x| Mono::from_sample(*x)).collect();
    let t64: Vec<f64> = v[..n].iter().map(|x| *x as f64).collect();
    let rate = f64_in(0.0, 192000.0);
    let mut w = MonoWav::from_track(rate, t);
    for i in 0..4 { let y = w.process(); obs(y); ck!(at_ok(y, &t64, i as f64 * rate / SR)); }
}
#[no_mangle] pub extern "C" fn c36_samples() {
    forktab(true);
    let rate = [48000.0, 22050.0, 96000.0, 8000.0, 1.5e6][choose(5)];
    let n = choose(5);
    let s: Vec<f32> = (0..n).map(|_| f32_in(-1.0, 1.0)).collect();
    let t: MonoTrackT = s.iter().map(|x| Mono::from_sample(*x)).collect();
    let t64: Vec<f64> = s.iter().map(|x| *x as f64).collect();
    let mut w = MonoWav::from_track(rate, t);
    for i in 0..14 { let y = w.process(); if i % 4 == 0 { obs(y); } ck!(at_ok(y, &t64, i as f64 * (rate / SR))); }
}
/// a clone starts the file again and keeps its own speed
#[no_mangle] pub extern "C" fn c36_clone() {
    let (mut w, t) = source(&codes(4), 1, 48000);
    w.get_mut().set_playback_speed(0.5);
    let m = choose(4);
    for _ in 0..m { w.process(); }
    let mut c = w.clone();
    ck!(c.get().get_playback_speed() == 0.5);
    w.get_mut().set_playback_speed(2.0); ck!(c.get().get_playback_speed() == 0.5);
    for i in 0..9 { let y = c.process(); if i % 4 == 0 { obs(y); } ck!(at_ok(y, &t, i as f64 * 0.5)); }
    let y = w.process(); obs(y); ck!(at_ok(y, &t, m as f64 * 0.5));
    let y = w.process(); ck!(at_ok(y, &t, m as f64 * 0.5 + 2.0));
}
/// a long file: its first channel, sample for sample
#[no_mangle] pub extern "C" fn c36_far() {
    let ch = 1 + choose(2); let n = [1100, 6000][choose(2)];
    let mut v: Vec<i16> = (0..n * ch).map(|i| (i % 1000) as i16 * 31 - 15000).collect();
    let at = [0, 511, n - 1][choose(3)];
    v[at * ch] = i_in(-32768, 32767) as i16;
    let half = choose(2) == 1;
    let (mut w, t) = source(&v, ch, if half { 24000 } else { 48000 });
    let m = if half { 2 * n } else { n };
    for i in 0..m + 3 {
        let y = w.process(); if i % 500 == 0 { obs(y); }
        let p = if half { i as f64 * 0.5 } else { i as f64 };
        if i % 7 == 0 || i + 8 > m || (p as usize + 2 > at && (p as usize) < at + 2) { ck!(at_ok_c(y, &t, p)); }
    }
}
fn at_ok_c(y: f32, t: &[f64], p: f64) -> bool {
    let k = p as usize; let n = t.len();
    if k >= n { return y == 0.0; }
    let x2 = if k + 1 < n { t[k + 1] } else { t[k] };
    near(y as f64, t[k] + (p - k as f64) * (x2 - t[k]), TOL)
}
harnesses!(c36_codes, c36_speeds, c36_sizes, c36_track, c36_samples, c36_clone, c36_far);
