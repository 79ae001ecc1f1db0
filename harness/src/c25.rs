use crate::sx::*;
use bae_rs::modifiers::{HighPass, LowPass, Modifier};
/// (t, k, g) of the prototype: t = 2 pi fc / SR, k = 1 - 2 cos(theta)
fn proto(f: f64, r: f64) -> (f64, f64, f64) {
    let t = 2.0 * std::f64::consts::PI * f / 48000.0;
    let k = 1.0 - 2.0 * (std::f64::consts::PI * (4.0 - r) / 6.0).cos();
    (t, k, 1.0 + t * (k + t * (k + t)))
}
enum Either { L(LowPass), H(HighPass) }
struct Filter { e: Either, f: f64, r: f64, x: [f64; 3], y: [f64; 3] }
impl Filter {
    fn new(high: bool, f: f64, r: f64) -> Filter { Filter { e: if high { Either::H(HighPass::new(f, r)) } else { Either::L(LowPass::new(f, r)) }, f, r, x: [0.0; 3], y: [0.0; 3] } }
    fn set(&mut self, f: f64, r: f64) {
        match &mut self.e { Either::L(l) => { if f != self.f { l.set_central_frequency(f) } if r != self.r { l.set_resonance(r) } } Either::H(h) => { if f != self.f { h.set_central_frequency(f) } if r != self.r { h.set_resonance(r) } } }
        self.f = f; self.r = r;
    }
    /// one sample, compared with the recursion on the previous outputs
    fn step(&mut self, v: f32, tol: f64) {
        let (t, k, g) = proto(self.f, self.r);
        let o = match &mut self.e { Either::L(l) => l.process(v), Either::H(h) => h.process(v) };
        obs(o);
        let (x, y) = (&self.x, &self.y);
        let inp = match self.e { Either::L(_) => t * t * t * v as f64, Either::H(_) => v as f64 - 3.0 * x[0] + 3.0 * x[1] - x[2] };
        let e = (inp + (k * t * t + 2.0 * k * t + 3.0) * y[0] - (k * t + 3.0) * y[1] + y[2]) / g;
        ck!(near(o as f64, e, tol));
        self.x = [v as f64, x[0], x[1]];
        self.y = [o as f64, y[0], y[1]];
    }
}
const FS: [f64; 10] = [20.0, 24_000.0, 1_000.0, 12_000.0, 23_999.0, 440.0, 100.0, 5_000.0, 18_000.0, 22_050.0];
const RS: [f64; 6] = [0.0, 1.0, 0.5, 0.25, 0.999, 0.001];
/// recorded settings, every sample
fn fixed(nf: usize, nr: usize, len: usize) {
    let mut l = Filter::new(choose(2) == 1, FS[choose(nf)], RS[choose(nr)]);
    for _ in 0..len { l.step(f32_in(-1.0, 1.0), 1e-5); }
}
#[no_mangle] pub extern "C" fn c25_fixed() { fixed(10, 6, 6) }
#[no_mangle] pub extern "C" fn c25_fixed_deep() { fixed(10, 6, 12) }
/// settings changed while running
#[no_mangle] pub extern "C" fn c25_moved() {
    let mut l = Filter::new(choose(2) == 1, FS[choose(4)], RS[choose(3)]);
    let n = 1 + choose(3);
    for _ in 0..n { l.step(f32_in(-1.0, 1.0), 1e-4); }
    let f = FS[choose(6)]; let r = RS[choose(3)];
    l.set(f, r);
    for _ in 0..4 { l.step(f32_in(-1.0, 1.0), 1e-4); }
}
/// recorded signals, settings in narrow ranges
const XS: [[f32; 5]; 3] = [[1.0, 1.0, 1.0, 1.0, 1.0], [1.0, -1.0, 0.5, 0.0, 0.0], [-0.25, 0.0, 0.75, 1.0, -1.0]];
#[no_mangle] pub extern "C" fn c25_narrow() {
    let f = FS[choose(10)]; let r = RS[choose(6)];
    let high = choose(2) == 1; let xs = XS[choose(3)];
    let mut l = Filter::new(high, f64_in(f * (1.0 - 1e-6), f), if r < 1.0 { f64_in(r, r + 1e-6) } else { f64_in(r - 1e-6, r) });
    for k in 0..4 { l.step(xs[k], 2e-4); }
}
/// every cutoff at recorded resonances, every resonance at recorded cutoffs, both in bands
fn band(nf: usize, i: usize) -> f64 { let (a, b) = (20.0 * 1200f64.powf(i as f64 / nf as f64), (20.0 * 1200f64.powf((i + 1) as f64 / nf as f64)).min(24_000.0)); f64_in(a, b) }
fn rband(nr: usize, j: usize) -> f64 { f64_in(j as f64 / nr as f64, (j + 1) as f64 / nr as f64) }
fn probe(high: bool, f: f64, r: f64, tol: f64) { let mut l = Filter::new(high, f, r); for &x in &[1.0f32, 0.5, -0.25] { l.step(x, tol); } }
#[no_mangle] pub extern "C" fn c25_cutoffs() { let high = choose(2) == 1; let f = band(600, choose(600)); probe(high, f, RS[choose(3)], 0.1) }
#[no_mangle] pub extern "C" fn c25_resonances() { let high = choose(2) == 1; let f = FS[choose(10)]; probe(high, f, rband(100, choose(100)), 0.1) }
#[no_mangle] pub extern "C" fn c25_both_deep() { let high = choose(2) == 1; let f = band(600, choose(600)); probe(high, f, rband(50, choose(50)), 0.3) }
/// after thousands of recorded samples
#[no_mangle] pub extern "C" fn c25_far() {
    let mut l = Filter::new(choose(2) == 1, FS[choose(6)], RS[choose(3)]);
    let n = [1030, 5000][choose(2)];
    for i in 0..n { l.step([0.5, -0.25, 1.0, 0.0, -1.0, 0.75, 0.25][i % 7], 1e-4); }
    for _ in 0..3 { l.step(f32_in(-1.0, 1.0), 1e-4); }
    l.set(FS[choose(3)], 0.25);
    for _ in 0..3 { l.step(f32_in(-1.0, 1.0), 1e-4); }
}
/// constant signals at any level: the low-pass settles at them, the high-pass at silence; low cutoffs too
#[no_mangle] pub extern "C" fn c25_steady() {
    let f = [20.0, 50.0, 100.0, 440.0, 24_000.0][choose(5)]; let r = [0.0, 0.5][choose(2)];
    let (mut l, mut h) = (LowPass::new(f, r), HighPass::new(f, r));
    let n = (480_000.0 / f) as usize + 40;
    let c = [0.5f32, -1.0][choose(2)];
    for _ in 0..n { l.process(c); h.process(c); }
    for _ in 0..4 { ck!(near(l.process(c) as f64, c as f64, 1e-3)); ck!(near(h.process(c) as f64, 0.0, 1e-3)); }
    let x = f32_in(-1.0, 1.0); let d = x as f64 - c as f64;
    let (t, k, g) = proto(f, r);
    let y = l.process(x); obs(y); ck!(near(y as f64, c as f64 + t * t * t / g * d, 2e-3));
    let y = h.process(x); obs(y); ck!(near(y as f64, d / g, 2e-3));
    let _ = k;
}
/// quiet and loud signals give the same output, scaled
fn scaled<M: Modifier>(mut a: M, mut b: M) {
    let k = choose(4); let w = [1.0 / (1u128 << 80) as f64, 1.0 / (1u64 << 24) as f64, (1u64 << 24) as f64, (1u128 << 80) as f64][k];
    for _ in 0..4 {
        let x = f32_in(-1.0, 1.0);
        let (y, z) = (a.process(x), b.process(x * w as f32)); obs(y); obs(z as f64 / w);
        ck!(near(z as f64 / w, y as f64, 1e-5));
    }
}
#[no_mangle] pub extern "C" fn c25_scales() {
    let f = [100.0, 2_000.0, 20_000.0][choose(3)]; let r = [0.0, 0.8][choose(2)];
    if choose(2) == 0 { scaled(LowPass::new(f, r), LowPass::new(f, r)) } else { scaled(HighPass::new(f, r), HighPass::new(f, r)) }
}
harnesses!(c25_scales, c25_fixed, c25_fixed_deep, c25_moved, c25_narrow, c25_cutoffs, c25_resonances, c25_both_deep, c25_far, c25_steady);
