use crate::sx::*;
use bae_rs::modifiers::{Echo, Modifier};
use std::time::Duration;
/// the delay of a duration in samples: the nearest, at least one (exact halves left out)
fn samples(ns: u64, top: u64) -> usize {
    let b = ns * 48_000;
    let mut n = 0;
    while n < top {
        let h = n * 1_000_000_000 + 500_000_000;
        assume(b != h);
        if fork(b < h) { break; }
        n += 1;
    }
    if n == 0 { 1 } else { n as usize }
}
fn run(e: &mut Echo, n: usize, g: f64, len: usize, tol: f64) {
    let x: Vec<f32> = (0..len).map(|_| f32_in(-1.0, 1.0)).collect();
    let mut y = Vec::new();
    for i in 0..len {
        let o = e.process(x[i]); obs(o);
        let fb = if i < n { 0.0 } else { g * y[i - n] };
        ck!(near(o as f64, x[i] as f64 + fb, tol));
        y.push(o as f64);
    }
}
/// every duration up to 5.5 samples and every gain
#[no_mangle] pub extern "C" fn c21_short() {
    forksel(true);
    let ns = u_in(0, 114_583); let g = f64_in(-1.0, 1.0);
    let mut e = Echo::new(Duration::from_nanos(ns), g);
    let n = samples(ns, 6);
    run(&mut e, n, g, 8, 1e-5);
}
/// gains beyond 1
#[no_mangle] pub extern "C" fn c21_loud() {
    let g = f64_in(-8.0, 8.0);
    let n = 1 + choose(3);
    let mut e = Echo::new(Duration::from_nanos([20_833, 41_667, 62_500][n - 1]), g);
    run(&mut e, n, g, 5, 1e-2);
}
/// longer delays
#[no_mangle] pub extern "C" fn c21_long() {
    forksel(true);
    let (n, ns) = [(48, 1_000_000), (480, 10_000_000), (2001, 41_687_500), (48005, 1_000_104_170)][choose(4)];
    let d = if n < 40000 { u_in(ns - 10_000, ns + 10_000) } else { ns };
    let g = f64_in(-1.0, 1.0);
    let mut e = Echo::new(Duration::from_nanos(d), g);
    let (a, b) = (f32_in(-1.0, 1.0), f32_in(-1.0, 1.0));
    ck!(e.process(a) == a); ck!(e.process(b) == b);
    for _ in 2..n { ck!(e.process(0.25) == 0.25); }
    let c = f32_in(-1.0, 1.0);
    let y = e.process(c); ck!(near(y as f64, c as f64 + g * a as f64, 1e-6));
    ck!(near(e.process(0.0) as f64, g * b as f64, 1e-6));
    for _ in 2..n { ck!(near(e.process(0.0) as f64, g * 0.25, 1e-6)); }
    ck!(near(e.process(0.0) as f64, g * y as f64, 1e-6));
}
/// a clone echoes nothing of the past and keeps delay and gain
#[no_mangle] pub extern "C" fn c21_clone() {
    let g = f64_in(-4.0, 4.0);
    let n = 1 + choose(3);
    let mut e = Echo::new(Duration::from_nanos([20_833, 41_667, 62_500][n - 1]), g);
    for _ in 0..choose(4) { e.process(f32_in(-1.0, 1.0)); }
    let mut c = e.clone();
    run(&mut c, n, g, 5, 1e-3);
}
/// quiet and loud signals give the same output, scaled
fn scaled<M: Modifier>(mut a: M, mut b: M) {
    let k = choose(4); let w = [1.0 / (1u128 << 80) as f64, 1.0 / (1u64 << 24) as f64, (1u64 << 24) as f64, (1u128 << 80) as f64][k];
    for _ in 0..4 {
        let x = f32_in(-1.0, 1.0);
        let (y, z) = (a.process(x), b.process(x * w as f32)); obs(y); obs(z as f64 / w);
        ck!(near(z as f64 / w, y as f64, 1e-5));
    }
}
#[no_mangle] pub extern "C" fn c21_scales() { let g = [0.5, -1.5, 1e-6][choose(3)]; let d = Duration::from_micros([21, 42][choose(2)]); scaled(Echo::new(d, g), Echo::new(d, g)) }
harnesses!(c21_scales, c21_short, c21_loud, c21_long, c21_clone);
