use crate::sx::*;
use bae_rs::modifiers::{Generic, Modifier};
use std::collections::VecDeque;
const SETS: [&[usize]; 16] = [&[], &[0], &[1], &[3], &[0, 1], &[1, 0], &[2, 0], &[0, 0], &[3, 1, 0], &[0, 1, 2], &[1, 1, 1], &[2, 3, 2], &[3, 3, 0], &[0, 3, 3], &[2, 1], &[5]];
fn taps(d: &[usize], c: &[f32]) -> VecDeque<(usize, f32)> { d.iter().cloned().zip(c.iter().cloned()).collect() }
fn run(f: &mut Generic, z: &[usize], p: &[usize], cz: &[f32], cp: &[f32], len: usize, tol: f64) {
    let x: Vec<f32> = (0..len).map(|_| f32_in(-1.0, 1.0)).collect();
    let mut y: Vec<f64> = Vec::new();
    for i in 0..len {
        let o = f.process(x[i]); obs(o);
        let mut e = 0.0;
        for k in 0..z.len() { if z[k] <= i { e += cz[k] as f64 * x[i - z[k]] as f64; } }
        for k in 0..p.len() { if p[k] + 1 <= i { e += cp[k] as f64 * y[i - 1 - p[k]]; } }
        ck!(near(o as f64, e, tol));
        y.push(o as f64);
    }
}
/// recorded coefficients, every sample: longer histories
fn fixed(sets: usize, len: usize, clone: bool) {
    let z = SETS[choose(sets)]; let p = SETS[choose(sets)];
    let cz = [[0.5f32, -0.75, 1.0], [-1.0, 0.25, 0.8]][choose(2)]; let cp = [-0.25f32, 0.625, 0.375];
    let mut f = Generic::new(taps(z, &cz), taps(p, &cp));
    if clone { for _ in 0..2 { f.process(f32_in(-1.0, 1.0)); } f = f.clone(); }
    run(&mut f, z, p, &cz, &cp, len, 1e-4);
}
#[no_mangle] pub extern "C" fn c22_fixed() { fixed(16, 7, false) }
#[no_mangle] pub extern "C" fn c22_clone() { fixed(9, 5, true) }
/// any coefficients
fn any(len: usize) {
    let z = SETS[choose(16)]; let p = SETS[choose(16)];
    let cz: Vec<f32> = z.iter().map(|_| f32_in(-1.0, 1.0)).collect(); let cp: Vec<f32> = p.iter().map(|_| f32_in(-1.0, 1.0)).collect();
    let mut f = Generic::new(taps(z, &cz), taps(p, &cp));
    run(&mut f, z, p, &cz, &cp, len, 1e-3);
}
#[no_mangle] pub extern "C" fn c22_any() { any(4) }
/// every list of up to three delays of 0 to 3
#[no_mangle] pub extern "C" fn c22_lists_deep() {
    let mut l: [Vec<usize>; 2] = [Vec::new(), Vec::new()];
    for v in l.iter_mut() { for _ in 0..choose(4) { v.push(choose(4)); } }
    let cz = [0.5f32, -0.75, 1.0]; let cp = [-0.25f32, 0.625, 0.375];
    let mut f = Generic::new(taps(&l[0], &cz), taps(&l[1], &cp));
    run(&mut f, &l[0], &l[1], &cz, &cp, 5, 1e-4);
}
/// taps far back
#[no_mangle] pub extern "C" fn c22_far() {
    let (z, p): (&[usize], &[usize]) = [(&[0, 17, 40][..], &[31][..]), (&[100], &[9, 63]), (&[255, 0], &[]), (&[64, 3], &[127]), (&[0], &[300]), (&[1000], &[0])][choose(6)];
    let cz = [0.5f32, -0.75, 1.0]; let cp = [-0.25f32, 0.625, 0.375];
    let mut f = Generic::new(taps(z, &cz), taps(p, &cp));
    let len = 1 + z.iter().chain(p.iter()).max().unwrap() * 2 + 3;
    let a = f32_in(-1.0, 1.0); let b = f32_in(-1.0, 1.0);
    let x = |i: usize| if i == 0 { a } else if i == 2 { b } else if i % 5 == 0 { 0.25 } else { 0.0 };
    let mut y: Vec<f64> = Vec::new();
    for i in 0..len {
        let o = f.process(x(i));
        let mut e = 0.0;
        for k in 0..z.len() { if z[k] <= i { e += cz[k] as f64 * x(i - z[k]) as f64; } }
        for k in 0..p.len() { if p[k] + 1 <= i { e += cp[k] as f64 * y[i - 1 - p[k]]; } }
        ck!(near(o as f64, e, 1e-5));
        y.push(o as f64);
    }
    obs(*y.last().unwrap());
}
/// coefficients of every order of magnitude, near and far back: one pulse and its echoes
#[no_mangle] pub extern "C" fn c22_scales() {
    let z = [0usize, 1, 5, 90, 300][choose(5)]; let p = [0usize, 2, 70, 256][choose(4)];
    let (cz, cp) = [(1.0f32, 1e-4f32), (1e-4, 1e-9), (1e-8, 1.0), (1e4, 1e-3), (1e-3, 1e3), (1e9, -1e-6)][choose(6)];
    let mut f = Generic::new(taps(&[z], &[cz]), taps(&[p], &[cp]));
    let a = f32_in(1.0, 2.0);
    for i in 0..z + 2 * p + 4 {
        let y = f.process(if i == 0 { a } else { 0.0 });
        if i < z || (i - z) % (p + 1) != 0 { ck!(y == 0.0); continue; }
        obs(y);
        let mut c = cz as f64; for _ in 0..(i - z) / (p + 1) { c *= cp as f64; }
        ck!(near(y as f64 / c, a as f64, 1e-5));
    }
}
harnesses!(c22_scales, c22_fixed, c22_clone, c22_any, c22_lists_deep, c22_far);
