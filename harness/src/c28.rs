use crate::sx::*;
use bae_rs::modifiers::{Gain, Passthrough, Modifier};
use bae_rs::generators::{Zero, Generator};
#[no_mangle] pub extern "C" fn c28_gain() {
    let a = f32_in(-8.0, 8.0);
    let mut g = Gain::new(a); ck!(g.a == a);
    let mut cur = a;
    for i in 0..4 {
        if choose(2) == 1 { cur = f32_in(-8.0, 8.0); g.a = cur; }
        let x = f32_in(-8.0, 8.0); let y = g.process(x); obs(y);
        ck!(near(y as f64, x as f64 * cur as f64, 1e-5));
        if i == 2 { g = g.clone(); }
    }
    ck!(g.a == cur);
}
/// the extremes: exact with gains 0, 1, -1 and powers of two
#[no_mangle] pub extern "C" fn c28_exact() {
    let c = choose(6); let k = [0.0f32, 1.0, -1.0, 2.0, 0.5, -4096.0][c];
    let mut g = Gain::new(k);
    for _ in 0..3 { let x = f32_in(-1e30, 1e30); let y = g.process(x); ck!(y == x * k); }
    let mut z = Gain::default(); ck!(z.process(f32_in(-1e30, 1e30)) == 0.0);
}
#[no_mangle] pub extern "C" fn c28_pass() {
    let mut p = Passthrough::new();
    for i in 0..5 {
        let x = [f32_in(-3e38, 3e38), f32::INFINITY, f32::NEG_INFINITY, -0.0][if i == 0 { choose(4) } else { 0 }];
        ck!(p.process(x).to_bits() == x.to_bits());
        if i == 3 { p = p.clone(); }
    }
    ck!(p.process(f32::NAN).is_nan());
}
#[no_mangle] pub extern "C" fn c28_zero() {
    let mut z = Zero::new();
    for i in 0..5 { ck!(z.process() == 0.0); if i == 3 { z = z.clone(); } }
}
/// after thousands of samples
#[no_mangle] pub extern "C" fn c28_far() {
    let n = [300, 5000, 70_000][choose(3)];
    let (mut g, mut p, mut z) = (Gain::new(0.75), Passthrough::new(), Zero::new());
    for i in 0..n { let x = [1.0f32, -0.5, 3.0, 0.0][i % 4]; ck!(g.process(x) == 0.75 * x); ck!(p.process(x) == x); ck!(z.process() == 0.0); }
    let (x, a) = (f32_in(-8.0, 8.0), f32_in(-8.0, 8.0));
    let y = g.process(x); obs(y); ck!(near(y as f64, 0.75 * x as f64, 1e-6));
    ck!(p.process(x).to_bits() == x.to_bits()); ck!(z.process() == 0.0);
    g.a = a; let y = g.process(x); ck!(near(y as f64, a as f64 * x as f64, 4e-6));
}
/// gains and samples of every order of magnitude
#[no_mangle] pub extern "C" fn c28_scales() {
    let k = choose(4); let m = [1e-25f32, 1e-10, 1e10, 1e25][k]; let w = [1e-25f64, 1e-10, 1e10, 1e25][k];
    let a = f32_in(1.0, 2.0); let x = f32_in(1.0, 2.0) * if choose(2) == 0 { 1.0 } else { -1.0 };
    let mut g = Gain::new(m);
    let y = g.process(x); obs(y); ck!(near(y as f64 / w, x as f64, 1e-6));
    g.a = a; let z = g.process(y); ck!(near(z as f64 / w, a as f64 * x as f64, 1e-5));
    for p in [(1e-40f32, 1e10f32), (1e-40, 1.0), (1e-45, 2.0), (3e38, 1e-40), (1e-20, 1e-20), (1e-30, -1e-10)].iter() {
        g.a = p.0; ck!(g.process(p.1) == p.0 * p.1); let mut h = Gain::new(p.1); ck!(h.process(p.0) == p.0 * p.1);
    }
}
harnesses!(c28_scales, c28_gain, c28_exact, c28_pass, c28_zero, c28_far);
