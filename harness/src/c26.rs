use crate::sx::*;
use bae_rs::modifiers::{BandPass, Modifier};
fn theta(f: f64) -> f64 { (std::f64::consts::PI * f / 48000.0).tan() }
/// corners of a centre and a quality
fn corners(f: f64, q: f64) -> (f64, f64) { let d = f / q; let s = (d * d / 4.0 + f * f).sqrt(); (s - d / 2.0, s + d / 2.0) }
struct Run { e: BandPass, lo: f64, hi: f64, x: [f64; 2], y: [f64; 2] }
impl Run {
    fn of(e: BandPass, (a, b): (f64, f64)) -> Run { Run { e, lo: if a < b { a } else { b }, hi: if a < b { b } else { a }, x: [0.0; 2], y: [0.0; 2] } }
    /// one sample, compared with the recursion on the previous outputs
    fn step(&mut self, v: f32, tol: f64) {
        let (l, h) = (theta(self.lo), theta(self.hi));
        let o = self.e.process(v); obs(o);
        let (pl, ph) = ((1.0 - l) / (1.0 + l), (1.0 - h) / (1.0 + h));
        let g = h / (1.0 + h) / (1.0 + l);
        let e = g * (v as f64 - self.x[1]) + (pl + ph) * self.y[0] - pl * ph * self.y[1];
        ck!(near(o as f64, e, tol));
        self.x = [v as f64, self.x[0]];
        self.y = [o as f64, self.y[0]];
    }
}
const CF: [f64; 6] = [50.0, 440.0, 1_000.0, 3_000.0, 7_000.0, 9_500.0];
const QS: [f64; 5] = [0.5, 1.0, 5.0, 20.0, 0.7];
const CO: [(f64, f64); 8] = [(20.0, 12_000.0), (100.0, 105.0), (440.0, 880.0), (880.0, 440.0), (11_000.0, 12_000.0), (12_000.0, 20.0), (300.0, 3_400.0), (5_000.0, 500.0)];
/// centre and quality given
fn given(f: f64, q: f64) {
    let b = BandPass::new(f, q);
    ck!(b.get_central_frequency() == f); ck!(b.get_quality() == q);
    let (lo, hi) = b.get_corner_frequencies(); obs(lo); obs(hi);
    let (l, h) = corners(f, q);
    ck!(near(lo, l, 1e-6)); ck!(near(hi, h, 1e-6));
    ck!(lo < hi); ck!(lo > 0.0);
    ck!(near(lo * hi / f / f, 1.0, 1e-6)); ck!(near((hi - lo) * q / f, 1.0, 1e-6));
}
#[no_mangle] pub extern "C" fn c26_getters() { given(f64_in(50.0, 10_000.0), f64_in(0.5, 20.0)) }
#[no_mangle] pub extern "C" fn c26_getters_wide() { let (f, q) = (band(20.0, 12_000.0, 4, choose(4)), band(0.03, 15.0, 12, choose(12))); given(f, q) }
/// after any setter
#[no_mangle] pub extern "C" fn c26_set() {
    let (f, q) = (f64_in(50.0, 10_000.0), f64_in(0.5, 20.0));
    let g = f64_in(50.0, 10_000.0);
    let mut b = BandPass::new(g, 3.0);
    if choose(2) == 0 { b.set_central_frequency(f); ck!(b.get_quality() == 3.0); b.set_quality(q); } else { b.set_quality(q); ck!(b.get_central_frequency() == g); b.set_central_frequency(f); }
    ck!(b.get_central_frequency() == f); ck!(b.get_quality() == q);
    let (lo, hi) = b.get_corner_frequencies();
    let (l, h) = corners(f, q);
    ck!(near(lo, l, 1e-6)); ck!(near(hi, h, 1e-6));
    let mut n = BandPass::new(f, q);
    for _ in 0..3 { let x = f32_in(-1.0, 1.0); let (p, q) = (b.process(x), n.process(x)); ck!(p.to_bits() == q.to_bits() || near(p as f64, q as f64, 1e-4)); }
}
fn from(p: (f64, f64)) -> BandPass { if choose(2) == 0 { BandPass::from_corners(p) } else { let mut e = BandPass::new(1_000.0, 2.0); e.set_corner_frequencies(p); e } }
/// any corners: what is reported
#[no_mangle] pub extern "C" fn c26_corners() {
    forksel(true);
    let (i, j) = { let i = choose(16); (i, i + choose(16 - i)) };
    let l = band(20.0, 12_000.0, 16, i); let h = band(20.0, 12_000.0, 16, j);
    assume(h >= l * 1.05);
    let e = from(if choose(2) == 0 { (l, h) } else { (h, l) });
    let c = e.get_central_frequency();
    ck!(near(c * c, l * h, 1e-3));
    ck!(near(e.get_quality() * (h - l), c, 1e-6));
}
/// corners near recorded pairs
#[no_mangle] pub extern "C" fn c26_pairs() {
    forksel(true);
    let (a, b) = CO[choose(8)];
    let (a, b) = (f64_in(a, a * 1.000_000_001), f64_in(b, b * 1.000_000_001));
    let e = from((a, b));
    let (l, h) = if a < b { (a, b) } else { (b, a) };
    let (lo, hi) = e.get_corner_frequencies(); obs(lo); obs(hi);
    ck!(near(lo, l, 1e-3)); ck!(near(hi, h, 1e-3));
    let mut e = Run::of(if choose(2) == 1 { e.clone() } else { e }, (a, b));
    for &x in &[1.0f32, 0.5, -1.0, 0.25] { e.step(x, 1e-4); }
}
/// recorded settings, every sample
fn fixed(len: usize) {
    let (e, c) = if choose(2) == 0 { let (f, q) = (CF[choose(6)], QS[choose(5)]); (BandPass::new(f, q), corners(f, q)) } else { let p = CO[choose(8)]; (from(p), p) };
    let mut e = Run::of(e, c);
    for _ in 0..len { e.step(f32_in(-1.0, 1.0), 1e-5); }
}
#[no_mangle] pub extern "C" fn c26_fixed() { fixed(5) }
#[no_mangle] pub extern "C" fn c26_fixed_deep() { fixed(10) }
/// settings changed while running keep the history
#[no_mangle] pub extern "C" fn c26_moved() {
    let (f, q) = (CF[choose(3)], QS[choose(2)]);
    let mut e = Run::of(BandPass::new(f, q), corners(f, q));
    let n = 1 + choose(3);
    for _ in 0..n { e.step(f32_in(-1.0, 1.0), 1e-5); }
    let c = match choose(3) {
        0 => { let g = CF[choose(6)]; e.e.set_central_frequency(g); corners(g, q) }
        1 => { let p = QS[choose(5)]; e.e.set_quality(p); corners(f, p) }
        _ => { let p = CO[choose(8)]; e.e.set_corner_frequencies(p); p }
    };
    let mut e = Run { x: e.x, y: e.y, ..Run::of(e.e, c) };
    for _ in 0..3 { e.step(f32_in(-1.0, 1.0), 1e-5); }
}
/// every centre at recorded qualities and every quality at recorded centres, in bands
fn probe(f: f64, q: f64, tol: f64) { forksel(true); let mut e = Run::of(BandPass::new(f, q), corners(f, q)); for &x in &[1.0f32, 0.5, -0.25] { e.step(x, tol); } }
fn band(lo: f64, hi: f64, n: usize, i: usize) -> f64 { f64_in(lo * (hi / lo).powf(i as f64 / n as f64), lo * (hi / lo).powf((i + 1) as f64 / n as f64)) }
#[no_mangle] pub extern "C" fn c26_centres() { probe(band(50.0, 9_000.0, 1000, choose(1000)), QS[1 + choose(4)], 0.1) }
#[no_mangle] pub extern "C" fn c26_qualities() { probe(CF[choose(5)], band(0.7, 20.0, 400, choose(400)), 0.1) }
/// constant signals are blocked
#[no_mangle] pub extern "C" fn c26_constant() {
    let (f, q) = (CF[choose(6)], QS[choose(5)]);
    let x = f32_in(-1.0, 1.0);
    let mut e = BandPass::new(f, q);
    let (p, r) = (e.process(x) as f64, e.process(x) as f64);
    let (l, h) = corners(f, q); let (l, h) = (theta(l), theta(h));
    let (pl, ph) = ((1.0 - l) / (1.0 + l), (1.0 - h) / (1.0 + h));
    // from the third sample on nothing is fed: only the decaying modes remain
    let s = e.process(x) as f64; ck!(near(s, (pl + ph) * r - pl * ph * p, 1e-5));
    let t = e.process(x) as f64; ck!(near(t, (pl + ph) * s - pl * ph * r, 1e-5));
}
/// after thousands of recorded samples
#[no_mangle] pub extern "C" fn c26_far() {
    let (f, q) = (CF[choose(4)], QS[choose(3)]);
    let mut e = Run::of(BandPass::new(f, q), corners(f, q));
    let n = [1030, 5000][choose(2)];
    for i in 0..n { e.step([0.5, -0.25, 1.0, 0.0, -1.0, 0.75, 0.25][i % 7], 1e-4); }
    for _ in 0..3 { e.step(f32_in(-1.0, 1.0), 1e-4); }
    e.e.set_quality(3.0);
    let mut e = Run { x: e.x, y: e.y, ..Run::of(e.e, corners(f, 3.0)) };
    for _ in 0..3 { e.step(f32_in(-1.0, 1.0), 1e-4); }
}
/// quiet and loud signals give the same output, scaled
fn scaled<M: Modifier>(mut a: M, mut b: M) {
    let k = choose(4); let w = [1.0 / (1u128 << 80) as f64, 1.0 / (1u64 << 24) as f64, (1u64 << 24) as f64, (1u128 << 80) as f64][k];
    for _ in 0..4 {
        let x = f32_in(-1.0, 1.0);
        let (y, z) = (a.process(x), b.process(x * w as f32)); obs(y); obs(z as f64 / w);
        ck!(near(z as f64 / w, y as f64, 1e-5));
    }
}
#[no_mangle] pub extern "C" fn c26_scales() { let f = [100.0, 2_000.0, 15_000.0][choose(3)]; let q = [1.5, 4.0][choose(2)]; scaled(BandPass::new(f, q), BandPass::new(f, q)) }
harnesses!(c26_scales, c26_getters, c26_getters_wide, c26_set, c26_corners, c26_pairs, c26_fixed, c26_fixed_deep, c26_moved, c26_centres, c26_qualities, c26_constant, c26_far);
