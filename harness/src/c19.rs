use crate::sx::*;
use bae_rs::utils::mono_resampler::MonoResampler;
use bae_rs::sample_format::{Mono, SampleFormat};
const SR: f64 = 48000.0;
const TOL: f64 = 1e-5;
const J: f64 = 1e-9;
fn track(n: usize) -> Vec<Mono> { (0..n).map(|_| Mono::from_sample(f32_in(-1.0, 1.0))).collect() }
fn fixed(n: usize) -> Vec<Mono> {
    let v = [[0.5f32, -0.75, 1.0, 0.125, -1.0, 0.25], [-1.0, 1.0, -1.0, 1.0, -1.0, 1.0]][choose(2)];
    v[..n].iter().map(|x| Mono::from_sample(*x)).collect()
}
/// the loop the arguments stand for, if any
fn region(n: usize, a: usize, b: usize) -> Option<(usize, usize)> {
    let (a, b) = if b < a { (b, a) } else { (a, b) };
    let b = if b > n { n } else { b };
    if a < b { Some((a, b)) } else { None }
}
/// the value at unwrapped position p of a track looping over [a, b)
fn loop_ok(y: f32, t: &[Mono], a: usize, b: usize, p: f64, seam: f64) -> bool {
    let y = y as f64;
    let mut k = 0;              // unwrapped slot
    while fork(p >= (k + 1) as f64) { k += 1; }
    let at = |k: usize| t[if k < b { k } else { a + (k - a) % (b - a) }].into_sample() as f64;
    near(y, at(k) + (p - k as f64) * (at(k + 1) - at(k)), TOL) || (k + 1) as f64 - p < seam || p - (k as f64) < seam
}
/// any sequence of speeds around small loops, recorded samples
fn run(steps: usize, top: f64, seam: f64) {
    forksel(true); forktab(true);
    let (n, a, b) = [(4, 1, 3), (3, 2, 0), (5, 0, 9), (2, 1, 2), (4, 3, 1), (1, 0, 1)][choose(6)];
    let t = fixed(n);
    let rate = [48000.0, 96000.0, 22050.0][choose(if steps == 3 { 2 } else { 3 })];
    let (ls, le) = region(n, a, b).unwrap();
    let mut r = MonoResampler::new(t.to_vec(), rate, a, b);
    let mut p = 0.0;
    for _ in 0..steps {
        let s = f64_in(0.0, top);
        r.set_playback_speed(s);
        let y = r.process(); obs(y);
        ck!(loop_ok(y, &t, ls, le, p, seam));
        p += rate / SR * s;
    }
}
#[no_mangle] pub extern "C" fn c19_speeds() { run(3, 1.5, J) }
#[no_mangle] pub extern "C" fn c19_seam() { run(2, 2.0, 0.0) }
#[no_mangle] pub extern "C" fn c19_fast() { run(2, 5.0, J) }
#[no_mangle] pub extern "C" fn c19_speeds_deep() { run(3, 2.0, J) }
/// any samples at fixed rates and speeds, any loop points: many rounds
#[no_mangle] pub extern "C" fn c19_long() {
    let n = 1 + choose(4);
    let (a, b) = (choose(n + 1), choose(n + 3));
    let v = [1.0, 0.5, 0.75, 3.0, 0.3, 7.25][choose(6)];
    let t = track(n);
    let mut r = MonoResampler::new(t.to_vec(), 48000.0, a, b);
    r.set_playback_speed(v);
    let g = region(n, a, b);
    let mut k = 0usize; // position in 1/20000 slots
    for i in 0..20 {
        let y = r.process(); if i % 4 == 0 { obs(y); }
        let q = (i as f64) * v;
        match g {
            Some((ls, le)) => ck!(loop_long(y, &t, ls, le, q)),
            None => {
                let s = q as usize;
                if q < n as f64 - J {
                    let x1 = t[s].into_sample() as f64; let x2 = if s + 1 < n { t[s + 1].into_sample() as f64 } else { x1 };
                    ck!(near(y as f64, x1 + (q - s as f64) * (x2 - x1), TOL));
                } else if q > n as f64 + J { ck!(y == 0.0); }
            }
        }
        k += 1;
    }
    let _ = k;
}
/// the same for a concrete position
fn loop_long(y: f32, t: &[Mono], a: usize, b: usize, q: f64) -> bool {
    let at = |k: usize| t[if k < b { k } else { a + (k - a) % (b - a) }].into_sample() as f64;
    let k = q as usize;
    near(y as f64, at(k) + (q - k as f64) * (at(k + 1) - at(k)), TOL)
}
/// a loop point: any value, the small ones one by one
fn point(n: usize) -> usize { let a = u_in(0, u64::MAX); if fork(a <= n as u64 + 1) { split(a) as usize } else { a as usize } }
/// any loop points: no panic, and an empty region is no loop
#[no_mangle] pub extern "C" fn c19_points() {
    forksel(true); forktab(true);
    let n = choose(4);
    let (a, b) = (point(n), point(n));
    let rate = [48000.0, 0.0, 192000.0, 1e9][choose(4)];
    let mut r = MonoResampler::new(track(n), rate, a, b);
    let v = [[0.0, 1.0, 2.5, 1e100], [1e100, 0.0, 1.0, 0.25], [2.5, 2.5, 1e100, 1e100]][choose(3)];
    for i in 0..5 {
        let y = r.process();
        ck!(y >= -1.00001 && y <= 1.00001);
        if n == 0 { ck!(y == 0.0); }
        if i < 4 { r.set_playback_speed(v[i]); }
    }
}
/// any loop points: the region they stand for
#[no_mangle] pub extern "C" fn c19_order() {
    forksel(true); forktab(true);
    let n = 3;
    let t = track(n);
    let (a, b) = (point(n), point(n));
    let g = region(n, a, b);
    let mut r = MonoResampler::new(t.to_vec(), 48000.0, a, b);
    for i in 0..8usize {
        let y = r.process(); if i % 3 == 0 { obs(y); }
        let e = match g {
            Some((ls, le)) => if i < le { t[i].into_sample() } else { t[ls + (i - ls) % (le - ls)].into_sample() },
            None => if i < n { t[i].into_sample() } else { 0.0 },
        };
        ck!(near(y as f64, e as f64, TOL));
    }
}
/// long loops and many rounds, then any speed
#[no_mangle] pub extern "C" fn c19_far() {
    forksel(true); forktab(true);
    let (n, a, b) = [(4usize, 1usize, 3usize), (3000, 500, 2900), (100, 0, 200)][choose(3)];
    let t: Vec<Mono> = (0..n).map(|i| Mono::from_sample([0.5, -0.75, 1.0, 0.125, -1.0][i % 5])).collect();
    let (ls, le) = region(n, a, b).unwrap();
    let sp = [1.0, 0.75, 2.5][choose(3)]; let steps = [997, 20_003][choose(2)];
    let mut r = MonoResampler::new(t.to_vec(), 48000.0, a, b);
    r.set_playback_speed(sp);
    for i in 0..steps { let y = r.process(); if i % 50 < 2 { ck!(loop_long(y, &t, ls, le, i as f64 * sp)); } }
    let p = steps as f64 * sp;
    let l = le - ls;
    let k0 = (p as usize - ls) / l * l;       // whole rounds leave the position within the first
    let q0 = p - k0 as f64;
    // the unrolled loop from there
    let w0 = q0 as usize;
    let u: Vec<Mono> = (0..9).map(|i| { let k = w0 + i; t[if k < le { k } else { ls + (k - ls) % l }] }).collect();
    let mut q = q0 - w0 as f64;
    for _ in 0..2 {
        let s = f64_in(0.0, 2.0); r.set_playback_speed(s);
        let y = r.process(); obs(y);
        let mut k = 0; while fork(q >= (k + 1) as f64) { k += 1; }
        let (x1, x2) = (u[k].into_sample() as f64, u[k + 1].into_sample() as f64);
        ck!(near(y as f64, x1 + (q - k as f64) * (x2 - x1), 1e-4) || q - (k as f64) < 1e-7 || (k + 1) as f64 - q < 1e-7);
        q += s;
    }
}
/// quiet and loud loops
#[no_mangle] pub extern "C" fn c19_scales() {
    let w = [1e-30f32, 1e-12, 1e-6, 1e6, 1e30][choose(5)];
    let t = track(3); let at = |i: usize| t[i].into_sample() as f64;
    let mut r = MonoResampler::new(t.iter().map(|m| Mono::from_sample(m.into_sample() * w)).collect(), 24_000.0, 1, 3);
    for i in 0..9 {
        let y = r.process() as f64 / w as f64; obs(y);
        let p = if i < 6 { i } else { 2 + (i - 2) % 4 };
        let (k, n) = (p / 2, if p / 2 == 2 { 1 } else { p / 2 + 1 });
        ck!(near(y, if p % 2 == 0 { at(k) } else { 0.5 * (at(k) + at(n)) }, TOL));
    }
}
harnesses!(c19_scales, c19_seam, c19_speeds, c19_fast, c19_speeds_deep, c19_long, c19_points, c19_order, c19_far);
