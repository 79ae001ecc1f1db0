use crate::sx::*;
use crate::osc::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::utils::mono_resampler::MonoResampler;
use bae_rs::sample_format::{Mono, SampleFormat};
use std::time::Duration;
/// the same sample
fn same(y: f32, z: f32, tol: f64) -> bool { (y.to_bits() == z.to_bits()) | near(y as f64, z as f64, tol) }
fn dur(n: usize) -> Duration { Duration::from_nanos((n as u64 * 1_000_000_000 + SR as u64 / 2) / SR as u64) }
/// a used object `a` (with an identically used twin `b`) is cloned: the clone runs like `f`, the original like the twin
fn law<M: Modifier + Clone>(mut a: M, mut b: M, mut f: M, pre: usize, post: usize) {
    for _ in 0..pre { let x = f32_in(-1.0, 1.0); a.process(x); b.process(x); }
    let mut c = a.clone();
    for i in 0..post {
        let x = f32_in(-1.0, 1.0);
        let (y, z) = (c.process(x), f.process(x));
        obs(y); ck!(same(y, z, 1e-5));
        if i % 2 == 0 { let (y, z) = (a.process(x), b.process(x)); obs(y); ck!(same(y, z, 1e-6)); }
    }
    let mut d = a.clone();      // once more, and cloning twice changes nothing
    let x = f32_in(-1.0, 1.0);
    let y = a.clone().process(x); let z = d.process(x);
    ck!(same(y, z, 1e-6));
    let (y, z) = (a.process(x), b.process(x));
    ck!(same(y, z, 1e-6));
}
#[no_mangle] pub extern "C" fn c17_lowpass() {
    let (f0, r0, f, r) = (f64_in(1.0, 48000.0), f64_in(-1.0, 2.0), f64_in(1.0, 48000.0), f64_in(-1.0, 2.0));
    let mk = || { let mut l = LowPass::new(f0, r0); l.set_central_frequency(f); l.set_resonance(r); l };
    ck!(mk().clone().get_central_frequency() == mk().get_central_frequency() && mk().clone().get_resonance() == mk().get_resonance());
    law(mk(), mk(), LowPass::new(f, r), 3, 4);
}
#[no_mangle] pub extern "C" fn c17_highpass() {
    let (f0, r0, f, r) = (f64_in(1.0, 48000.0), f64_in(-1.0, 2.0), f64_in(1.0, 48000.0), f64_in(-1.0, 2.0));
    let mk = || { let mut l = HighPass::new(f0, r0); l.set_central_frequency(f); l.set_resonance(r); l };
    ck!(mk().clone().get_central_frequency() == mk().get_central_frequency() && mk().clone().get_resonance() == mk().get_resonance());
    law(mk(), mk(), HighPass::new(f, r), 3, 4);
}
#[no_mangle] pub extern "C" fn c17_bandpass() {
    let (f0, q0, f, q) = (f64_in(100.0, 4000.0), f64_in(0.5, 8.0), f64_in(100.0, 4000.0), f64_in(0.5, 8.0));
    let mk = || { let mut l = BandPass::new(f0, q0); l.set_central_frequency(f); l.set_quality(q); l };
    ck!(mk().clone().get_central_frequency() == mk().get_central_frequency() && mk().clone().get_quality() == mk().get_quality());
    law(mk(), mk(), BandPass::new(f, q), 3, 4);
}
#[no_mangle] pub extern "C" fn c17_generic() {
    let n = choose(6);
    let (z, p): (&[usize], &[usize]) = [(&[0usize][..], &[0usize][..]), (&[2, 0], &[1]), (&[1, 1], &[]), (&[], &[2]), (&[0, 3], &[0, 2]), (&[3, 1, 2], &[1, 0])][n];
    let zs: Vec<(usize, f32)> = z.iter().map(|i| (*i, f32_in(-1.0, 1.0))).collect();
    let ps: Vec<(usize, f32)> = p.iter().map(|i| (*i, f32_in(-0.5, 0.5))).collect();
    let mk = || Generic::new(zs.iter().cloned().collect(), ps.iter().cloned().collect());
    law(mk(), mk(), mk(), 4, 5);
}
#[no_mangle] pub extern "C" fn c17_envelope() {
    let (l, u) = (f32_in(1.0, 12000.0), f32_in(1.0, 12000.0));
    let mk = || Envelope::new(l, u);
    law(mk(), mk(), mk(), 2, 3);
}
#[no_mangle] pub extern "C" fn c17_gain() {
    let (g0, g) = (f32_in(-2.0, 2.0), f32_in(-2.0, 2.0));
    let mk = || { let mut l = Gain::new(g0); l.a = g; l };
    law(mk(), mk(), Gain::new(g), 1, 2);
}
#[no_mangle] pub extern "C" fn c17_delay() {
    let n = choose(6); let pre = choose(4);
    let mk = || Delay::new(dur(n));
    ck!(mk().clone().get_delay() == mk().get_delay());
    law(mk(), mk(), mk(), pre, 7);
}
#[no_mangle] pub extern "C" fn c17_echo() {
    let n = choose(5); let pre = choose(4); let g = f64_in(-4.0, 4.0);
    let mk = || Echo::new(dur(n), g);
    law(mk(), mk(), mk(), pre, 7);
}
#[no_mangle] pub extern "C" fn c17_adsr() {
    let (a, d, r) = ([0, 1, 3][choose(3)], [0, 2, 3][choose(3)], [0, 2][choose(2)]);
    let s = if choose(2) == 0 { 0.0 } else { f64_in(-60.0, -0.01) };
    let pre = choose(8); let rel = choose(3);      // released never, before the last sample, or after it
    let mk = || ADSR::new(dur(a), dur(d), s, dur(r));
    let used = || { let mut e = mk(); for i in 0..pre { if rel == 1 && i + 1 == pre { e.release(); } e.process(1.0); } if rel == 2 { e.release(); } e };
    let (mut o, mut t) = (used(), used());
    let mut c = o.clone(); let mut f = mk();
    for i in 0..9 {
        let x = f32_in(-1.0, 1.0);
        if i == 7 { c.release(); f.release(); }
        let (y, z) = (c.process(x), f.process(x));
        obs(y); ck!(same(y, z, 1e-5));
        if i < 3 { let (y, z) = (o.process(x), t.process(x)); ck!(same(y, z, 1e-6)); }
    }
}
/// oscillators: the clone runs from the start of the waveform, the original from where it was
fn osc(k: usize, pre: usize, post: usize) {
    if k >= 1 { forksel(true); }
    let (f0, f) = (freq_part(k), freq_part(k));
    let mut o = Osc::new(k, f0);
    let mut ph = 0.0;
    for _ in 0..pre { o.step(); ph += f0 / SR; }
    o.set(f);
    let mut c = o.dup();
    ck!(near(c.get(), f, 1e-6));
    for i in 0..post { let y = c.step(); obs(y); ck!(c.ok(y, i as f64 * f / SR)); }
    let y = o.step(); obs(y); ck!(o.ok(y, ph));
    ck!(near(o.get(), f, 1e-6));
}
#[no_mangle] pub extern "C" fn c17_saw() { osc(0, choose(4), 4) }
#[no_mangle] pub extern "C" fn c17_tri() { osc(1, choose(4), 4) }
#[no_mangle] pub extern "C" fn c17_square() { osc(2, choose(4), 3) }
#[no_mangle] pub extern "C" fn c17_sine() {
    forksel(true);
    let w = choose(313);
    let c = (w as f64 + 0.5) * 2.0 * SW;
    let lo = (c - SW) * SR; let hi = (c + SW) * SR;
    let f = f64_in(lo, if hi < 24000.0 { hi } else { 24000.0 });
    let mut o = Osc::new(3, [440.0, 10000.0, 23000.0][w % 3]);
    for _ in 0..w % 4 { o.step(); }
    o.set(f);
    let mut t = o.dup();
    ck!(near(t.get(), f, 1e-6));
    let y = t.step(); obs(y); ck!(near(y as f64, 0.0, 1e-6));
    forktab(true);
    let y = t.step(); obs(y);
    ck!(sine_ok(y, f / SR, c));
}
/// the original of a sine carries on: the phase it had, at the new frequency after the next sample
#[no_mangle] pub extern "C" fn c17_sine_original() {
    forksel(true);
    let w = choose(313);
    let c = (w as f64 + 0.5) * 2.0 * SW;
    let lo = (c - SW) * SR; let hi = (c + SW) * SR;
    let f = f64_in(lo, if hi < 24000.0 { hi } else { 24000.0 });
    let mut o = Osc::new(3, f);
    o.step();
    let mut t = o.dup(); t.step();
    forktab(true);
    let y = o.step(); obs(y);
    ck!(sine_ok(y, f / SR, c));
}
fn track(n: usize) -> Vec<Mono> { (0..n).map(|_| Mono::from_sample(f32_in(-1.0, 1.0))).collect() }
fn cl(t: &[Mono]) -> Vec<Mono> { t.to_vec() }
#[no_mangle] pub extern "C" fn c17_resampler() {
    let (ls, le) = [(0, 0), (1, 3), (4, 2), (2, 2), (0, 9)][choose(5)];
    let rate = [48000.0, 24000.0, 44100.0, 96000.0][choose(4)];
    let sp = [1.0, 0.5, 0.3, 2.0, 0.0][choose(5)];
    let pre = choose(4);
    let t = track(4);
    let mk = || { let mut r = MonoResampler::new(cl(&t), rate, ls, le); r.set_playback_speed(1.5); for _ in 0..pre { r.process(); } r.set_playback_speed(sp); r };
    let (mut a, mut b) = (mk(), mk());
    let mut c = a.clone(); let mut f = MonoResampler::new(cl(&t), rate, ls, le); f.set_playback_speed(sp);
    ck!(c.get_playback_speed() == sp && a.get_playback_speed() == sp);
    for i in 0..8 {
        let (y, z) = (c.process(), f.process()); obs(y); ck!(same(y, z, 1e-5));
        if i % 2 == 0 { let (y, z) = (a.process(), b.process()); obs(y); ck!(same(y, z, 1e-6)); }
    }
}
#[no_mangle] pub extern "C" fn c17_wav() {
    let rate = [48000.0, 24000.0, 44100.0, 96000.0][choose(4)];
    let sp = [1.0, 0.3, 2.0, 0.0][choose(4)];
    let pre = choose(4);
    let t = track(4);
    let mk = || { let mut r = MonoWav::from_track(rate, cl(&t)); for _ in 0..pre { r.process(); } r.get_mut().set_playback_speed(sp); r };
    let (mut a, mut b) = (mk(), mk());
    let mut c = a.clone(); let mut f = MonoWav::from_track(rate, cl(&t)); f.get_mut().set_playback_speed(sp);
    ck!(c.get().get_playback_speed() == sp);
    for i in 0..8 {
        let (y, z) = (c.process(), f.process()); obs(y); ck!(same(y, z, 1e-5));
        if i % 2 == 0 { let (y, z) = (a.process(), b.process()); obs(y); ck!(same(y, z, 1e-6)); }
    }
}
/// clones taken late: after thousands of samples
fn far<M: Modifier + Clone>(mk: impl Fn() -> M, tol: f64) {
    let n = [1000, 4100][choose(2)];
    let (mut a, mut b, mut f) = (mk(), mk(), mk());
    for i in 0..n { let x = [0.5, -0.25, 0.125, 1.0, -1.0][i % 5]; let y = a.process(x); let z = b.process(x); ck!(y.to_bits() == z.to_bits()); }
    let mut c = a.clone();
    for i in 0..4 {
        let x = f32_in(-1.0, 1.0);
        let (y, z) = (c.process(x), f.process(x)); obs(y); ck!(same(y, z, tol));
        if i % 2 == 0 { let (y, z) = (a.process(x), b.process(x)); ck!(same(y, z, tol)); }
    }
}
#[no_mangle] pub extern "C" fn c17_far() {
    match choose(8) {
        0 => far(|| LowPass::new(700.0, 0.3), 1e-5),
        1 => far(|| HighPass::new(700.0, 0.3), 1e-5),
        2 => far(|| BandPass::new(700.0, 2.0), 1e-5),
        3 => far(|| Generic::new([(0, 0.5), (7, -0.25)].iter().cloned().collect(), [(3, 0.5f32)].iter().cloned().collect()), 1e-5),
        4 => far(|| Delay::new(dur(2)), 0.0),
        5 => far(|| Echo::new(dur(3), 0.5), 1e-5),
        6 => far(|| Gain::new(0.7), 1e-6),
        _ => far(|| Delay::new(dur(700)), 0.0),
    }
}
harnesses!(c17_lowpass, c17_highpass, c17_bandpass, c17_generic, c17_envelope, c17_gain, c17_delay, c17_echo, c17_adsr, c17_saw, c17_tri, c17_square, c17_sine, c17_sine_original, c17_resampler, c17_wav, c17_far);
