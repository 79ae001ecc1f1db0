use crate::sx::*;
use bae_rs::utils::*;
use bae_rs::debug::*;
use bae_rs::*;
const BPS: [u16; 3] = [8, 16, 24];
const STEP: [f64; 3] = [1.0 / 128.0 * 1.0001, 1.0 / 32767.0 * 1.001, 1.0 / 8388607.0 * 1.001];
fn code(b: &[u8], i: usize, k: usize) -> u32 { let p = 44 + i * (k + 1); match k { 0 => b[p] as u32, 1 => u16::from_le_bytes([b[p], b[p + 1]]) as u32, _ => u32::from_le_bytes([b[p], b[p + 1], b[p + 2], 0]) } }
/// channels x frames of any samples in [-1,1]
fn run(c: usize, f: usize) {
    let k = choose(3);
    let mut t: Vec<SampleTrackT> = Vec::new();
    for _ in 0..c { let mut v = Vec::new(); for _ in 0..f { v.push(f32_in(-1.0, 1.0)); } t.push(v); }
    trip(t, k)
}
fn trip(t: Vec<SampleTrackT>, k: usize) {
    let (c, f) = (t.len(), t[0].len());
    let mut out: Vec<u8> = Vec::new();
    let clip = choose(2) == 0;
    ck!(write_wav(t.clone(), BPS[k], &mut out, clip).is_ok());
    ck!(out.len() == 44 + (c * f * (k + 1) + 1) / 2 * 2);
    let (h, u) = match read_wav(&mut VecReader::new(out.clone())) { Ok(x) => x, Err(_) => { ck!(false); return } };
    ck!(h.channel_count as usize == c);
    ck!(h.sampling_rate as u64 == SAMPLE_RATE);
    ck!(h.bits_per_sample == BPS[k]);
    ck!(h.audio_format == 1);
    ck!(h.bytes_per_sample as usize == c * (k + 1));
    ck!(h.bytes_per_second as usize == c * (k + 1) * 48000);
    ck!(u.len() == c);
    for i in 0..c {
        ck!(u[i].len() == f);
        for j in 0..f { obs(u[i][j]); ck!(near(u[i][j] as f64, t[i][j] as f64, STEP[k])); }
    }
    // what was read writes the same bytes again
    let mut again: Vec<u8> = Vec::new();
    ck!(write_wav(u, BPS[k], &mut again, false).is_ok());
    ck!(again.len() == out.len());
    for i in 0..c * f { ck!(code(&again, i, k) == code(&out, i, k)); }
    for i in 0..out.len() { ck!(again[i] == out[i]); }
}
#[no_mangle] pub extern "C" fn c10_mono() { run(1, choose(4)) }
#[no_mangle] pub extern "C" fn c10_multi() { let c = 2 + choose(3); run(c, choose(3)) }
/// larger shapes: every sample its own concrete code, so that misplacement is visible
#[no_mangle] pub extern "C" fn c10_place() {
    let (c, f) = [(1, 9), (2, 7), (3, 5), (6, 3), (8, 2)][choose(5)];
    let k = choose(3);
    let x = f32_in(-1.0, 1.0); let p = choose(c); let q = choose(f);
    let mut t: Vec<SampleTrackT> = Vec::new();
    for i in 0..c { let mut v = Vec::new(); for j in 0..f { v.push(if i == p && j == q { x } else { ((i * f + j) as f32 * 2.0 - 60.0) / 64.0 }); } t.push(v); }
    trip(t, k)
}
#[no_mangle] pub extern "C" fn c10_mono_deep() { run(1, 4 + choose(9)) }
#[no_mangle] pub extern "C" fn c10_multi_deep() { let c = 2 + choose(7); run(c, choose(6)) }
/// long files: one arbitrary sample at the start, the end and around the powers of two
#[no_mangle] pub extern "C" fn c10_long() {
    let w = choose(5); let (c, f) = [(1, 1500), (2, 1100), (5, 300), (1, 5000), (3, 22_000)][w];
    let k = choose(3);
    let p = if w < 3 { choose(c) } else { c - 1 }; let q = if w < 3 { [0, 63, 127, 128, 255, 256, f - 1][choose(7)] } else if w < 4 { [4095, f - 1][choose(2)] } else { f - 1 };
    let x = f32_in(-1.0, 1.0);
    let mut t: Vec<SampleTrackT> = (0..c).map(|i| (0..f).map(|j| ((i * f + j) % 256) as f32 / 128.0 - 1.0).collect()).collect();
    t[p][q] = x;
    let mut out: Vec<u8> = Vec::new();
    ck!(write_wav(t.clone(), BPS[k], &mut out, w < 4 && choose(2) == 0).is_ok());
    ck!(out.len() == 44 + (c * f * (k + 1) + 1) / 2 * 2);
    let (h, u) = match read_wav(&mut VecReader::new(out)) { Ok(x) => x, Err(_) => { ck!(false); return } };
    ck!(h.channel_count as usize == c && h.bits_per_sample == BPS[k] && u.len() == c);
    for i in 0..c {
        ck!(u[i].len() == f);
        let mut j = 0;
        while j < f { if i == p && j == q { obs(u[i][j]); } ck!(near(u[i][j] as f64, t[i][j] as f64, STEP[k])); j += if j % 64 < 2 || j % 64 > 61 || j + 3 > f || j == q { 1 } else { if w < 4 { 7 } else { 61 } }; }
    }
    ck!(near(u[p][q] as f64, x as f64, STEP[k]));
}
harnesses!(c10_mono, c10_multi, c10_place, c10_mono_deep, c10_multi_deep, c10_long);
