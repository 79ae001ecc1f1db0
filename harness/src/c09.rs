use crate::sx::*;
use bae_rs::utils::*;
const PERM: [[usize; 2]; 2] = [[0, 1], [1, 0]];
const SPREAD: [f64; 4] = [0.5, 0.75, 1.2, 2.0];
/// tracks of two samples in [-1,1] in every order of size, least and greatest at least 0.5 apart, normalised to a level
fn run( db: f64, level: f64) {
    forksel(true);
    let o = PERM[choose(2)];
    let mut t: Vec<f32> = Vec::new();
    for _ in 0..2 { t.push(f32_in(-1.0, 1.0)); }
    let s: Vec<f64> = t.iter().map(|x| *x as f64).collect();
    let w = choose(3);
    // o lists the samples in ascending order
    let (lo, hi) = (o[0], o[1]);
    assume(s[hi] - s[lo] > SPREAD[w] && s[hi] - s[lo] <= SPREAD[w + 1]);
    normalize(db, &mut t);
    ck!(t.len() == 2);
    let mut sum = 0.0;
    for x in &t { let x = *x as f64; obs(x); sum += x; ck!(x <= level * (1.0 + 1e-5) && x >= -level * (1.0 + 1e-5)); }
    ck!(near(sum, 0.0, 2e-4 * level));
    // the extreme sample on one side has exactly the level
    let (a, b) = (t[lo] as f64, t[hi] as f64);
    ck!(b >= level * (1.0 - 1e-5) || a <= -level * (1.0 - 1e-5));
    // same proportions, same orientation
    for i in 0..2 {
        let p = (t[i] as f64 - a) * (s[hi] - s[lo]);
        let q = (b - a) * (s[i] - s[lo]);
        ck!(near(p, q, 1e-4 * level));
    }
    ck!(b > a);
}
#[no_mangle] pub extern "C" fn c09_two() { let k = choose(3); run([0.0, -20.0, 6.0][k], [1.0, 0.1, 1.9952623149688795][k]); }
/// three or four samples, all alike but one
#[no_mangle] pub extern "C" fn c09_step() {
    forksel(true);
    let n = 3 + choose(2); let i = choose(n); let w = choose(3);
    let a = f32_in(-1.0, 1.0); let b = f32_in(-1.0, 1.0);
    let d = a as f64 - b as f64; let up = choose(2) == 0;
    let e = if up { d } else { -d };
    assume(e > SPREAD[w] && e <= SPREAD[w + 1]);
    let mut t = vec![b; n]; t[i] = a;
    normalize(0.0, &mut t);
    let x = 1.0; let y = -1.0 / (n as f64 - 1.0);
    for k in 0..n {
        let v = t[k] as f64; obs(v);
        let w = if k == i { x } else { y };
        ck!(near(v, if up { w } else { -w }, 1e-5));
    }
}
/// silent and constant tracks of 0..=4 samples
#[no_mangle] pub extern "C" fn c09_constant() {
    let n = choose(5);
    let c = [0.0, 0.5, 0.1, -0.3, 1.0, 1e-30][choose(6)];
    let mut t = vec![c; n];
    normalize(if choose(2) == 0 { 0.0 } else { f64_in(-40.0, 10.0) }, &mut t);
    ck!(t.len() == n);
    for x in &t { ck!(*x == 0.0); }
}
/// any constant value
#[no_mangle] pub extern "C" fn c09_constant_any() {
    let c = f32_in(1e-6, 1.0);
    let c = if choose(2) == 0 { c } else { -c };
    let n = [1, 2, 4][choose(3)];
    let mut t = vec![c; n];
    normalize(0.0, &mut t);
    for x in &t { ck!(*x == 0.0); }
}
/// longer tracks: one sample that sticks out, anywhere
#[no_mangle] pub extern "C" fn c09_long() {
    forksel(true);
    let n = [5, 17, 64, 257, 1000, 5000][choose(6)];
    let p = [0, 1, n / 2, n - 2, n - 1][choose(5)];
    let k = choose(2); let db = [0.0, -20.0][k]; let level = [1.0, 0.1][k];
    let up = choose(2) == 0;
    let x = f32_in(0.5, 1.0);
    let mut t: Vec<f32> = (0..n).map(|i| if i % 2 == 0 { 0.125 } else { -0.0625 }).collect();
    t[p] = if up { x } else { -x };
    let s: Vec<f64> = t.iter().map(|v| *v as f64).collect();
    normalize(db, &mut t);
    ck!(t.len() == n);
    let rest: f64 = (0..n).map(|i| if i == p { 0.0 } else { s[i] }).sum();
    let mean = (rest + s[p]) / n as f64;
    let peak = if up { s[p] - mean } else { mean - s[p] };
    ck!(near(t[p] as f64, if up { level } else { -level }, 1e-5 * level));
    for i in [0, 1, 2, n / 2, n / 2 + 1, n - 3, n - 2, n - 1] { if i != p { obs(t[i]); ck!(near(t[i] as f64 * peak, (s[i] - mean) * level, 1e-5 * level)); } }
}
/// quiet and loud tracks, quiet and loud levels
#[no_mangle] pub extern "C" fn c09_scales() {
    forksel(true);
    let w = [1e-30f32, 1e-12, 1e-6, 1e6, 1e15][choose(5)];
    let k = choose(4); let db = [0.0, -120.0, -240.0, 60.0][k]; let level = [1.0, 1e-6, 1e-12, 1e3][k];
    let x = f32_in(0.5, 1.0);
    let mut t = vec![x * w, -w, 0.5 * w, 0.0];
    let s: Vec<f64> = vec![x as f64, -1.0, 0.5, 0.0];
    normalize(db, &mut t);
    ck!(t.len() == 4);
    let mean = (x as f64 - 0.5) / 4.0;
    let peak = 1.0 + mean;
    for i in 0..4 { let y = t[i] as f64 / level; obs(y); ck!(near(y * peak, s[i] - mean, 1e-5)); }
}
harnesses!(c09_scales, c09_two, c09_step, c09_constant, c09_constant_any, c09_long);
