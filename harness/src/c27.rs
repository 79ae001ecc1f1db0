use crate::sx::*;
use bae_rs::modifiers::{Envelope, Modifier};
fn theta(f: f64) -> f64 { (std::f64::consts::PI * f / 48000.0).tan() }
fn next(x: f64, x1: f64, y1: f64, u: f64, l: f64, ux: bool) -> f64 {
    let t = if ux { u } else { l };
    (t * (x.abs() + x1.abs()) + (1.0 - t) * y1) / (1.0 + t)
}
/// the recursion at recorded frequencies
fn recursion(len: usize, lo: &[f32], hi: &[f32]) {
    let l = lo[choose(lo.len())]; let u = hi[choose(hi.len())];
    let mut e = Envelope::new(l, u);
    if choose(2) == 1 { e.process(f32_in(-1.0, 1.0)); e = e.clone(); }
    let (tl, tu) = (theta(l as f64), theta(u as f64));
    let (mut x1, mut y1) = (0.0f64, 0.0f64);
    for _ in 0..len {
        let x = f32_in(-1.0, 1.0);
        let neg = fork(x < 0.0);
        let y = e.process(x) as f64; obs(y as f32);
        let a = if neg { -x as f64 } else { x as f64 };
        let b = if fork(a > y1) { next(a, x1, y1, tu, tl, true) } else { next(a, x1, y1, tu, tl, false) };
        ck!(near(y, b, 1e-5));
        x1 = a; y1 = y;
    }
}
#[no_mangle] pub extern "C" fn c27_recursion() { recursion(3, &[1.0, 1000.0], &[500.0, 12000.0]) }
#[no_mangle] pub extern "C" fn c27_recursion_deep() { recursion(5, &[1.0, 20.0, 200.0, 8000.0], &[10.0, 500.0, 4000.0, 12000.0]) }
/// never negative and never above the largest magnitude so far
fn bounded(len: usize, fs: &[f32]) {
    let l = fs[choose(fs.len())]; let u = fs[choose(fs.len())];
    let mut e = Envelope::new(l, u);
    forksel(true);
    let mut m = 0.0f32;
    for _ in 0..len {
        let x = f32_in(-1.0, 1.0);
        let a = if fork(x < 0.0) { -x } else { x };
        let y = e.process(x);
        if fork(a > m) { m = a; }
        ck!(y >= 0.0 - 1e-6);
        ck!(y <= m + 1e-6);
    }
}
#[no_mangle] pub extern "C" fn c27_bounded() { bounded(3, &[1.0, 12000.0]) }
#[no_mangle] pub extern "C" fn c27_bounded_deep() { bounded(3, &[1.0, 100.0, 2500.0, 12000.0]) }
/// recorded signals at frequencies in narrow ranges
const XS: [[f32; 4]; 4] = [[1.0, 1.0, 1.0, 1.0], [0.5, -1.0, 0.0, 0.0], [-1.0, 0.25, 0.75, -0.125], [0.0, -0.001, 1.0, -1.0]];
fn band(c: usize) -> f32 { match c { 0 => f32_in(1.0, 1.1), 1 => f32_in(30.0, 30.1), 2 => f32_in(440.0, 440.1), 3 => f32_in(5000.0, 5000.1), _ => f32_in(11999.9, 12000.0) } }
fn freqs(n: usize, len: usize) {
    let l = band(choose(5)); let u = band(choose(5));
    let xs = XS[choose(n)];
    forksel(true);
    let mut e = Envelope::new(l, u);
    let (tl, tu) = (theta(l as f64), theta(u as f64));
    let (mut x1, mut y1) = (0.0f64, 0.0f64);
    for k in 0..len {
        let y = e.process(xs[k]) as f64; obs(y as f32);
        let a = xs[k].abs() as f64;
        let b = if fork(a > y1) { next(a, x1, y1, tu, tl, true) } else { next(a, x1, y1, tu, tl, false) };
        ck!(near(y, b, 1e-4));
        x1 = a; y1 = y;
    }
}
#[no_mangle] pub extern "C" fn c27_frequencies() { freqs(4, 3) }
/// after thousands of recorded samples
#[no_mangle] pub extern "C" fn c27_far() {
    let (l, u) = [(1.0f32, 12000.0f32), (20.0, 2000.0), (500.0, 50.0)][choose(3)];
    let mut e = Envelope::new(l, u);
    let (tl, tu) = (theta(l as f64), theta(u as f64));
    let n = [1030, 5000][choose(2)];
    let (mut x1, mut y1) = (0.0f64, 0.0f64);
    for i in 0..n + 3 {
        let x = if i < n { [0.5, -0.25, 1.0, 0.0, -1.0, 0.75, 0.25][i % 7] } else { f32_in(-1.0, 1.0) };
        let neg = fork(x < 0.0);
        let y = e.process(x) as f64; if i >= n { obs(y as f32); }
        let a = if neg { -x as f64 } else { x as f64 };
        let b = if fork(a > y1) { next(a, x1, y1, tu, tl, true) } else { next(a, x1, y1, tu, tl, false) };
        ck!(near(y, b, 1e-5));
        x1 = a; y1 = y;
    }
}
/// quiet and loud signals give the same output, scaled
fn scaled<M: Modifier>(mut a: M, mut b: M) {
    let k = choose(4); let w = [1.0 / (1u128 << 80) as f64, 1.0 / (1u64 << 24) as f64, (1u64 << 24) as f64, (1u128 << 80) as f64][k];
    let c = [[0.0f32, 0.0, 0.0, 0.0], [0.0, -1.5, 2.0, 4.0], [0.0, 2.0, 0.0, 0.0]][choose(3)];
    let q = 0;
    for t in 0..4 {
        let x = if t == q { f32_in(0.5, 1.0) } else { c[t % 4] };
        let (y, z) = (a.process(x), b.process(x * w as f32)); obs(y); obs(z as f64 / w);
        ck!(near(z as f64 / w, y as f64, 1e-5));
    }
}
#[no_mangle] pub extern "C" fn c27_scales() { let l = [20.0, 500.0][choose(2)]; let u = [2_000.0, 10_000.0][choose(2)]; scaled(Envelope::new(l, u), Envelope::new(l, u)) }
harnesses!(c27_scales, c27_recursion, c27_recursion_deep, c27_bounded, c27_bounded_deep, c27_frequencies, c27_far);
