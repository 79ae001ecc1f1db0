use crate::sx::*;
use crate::probe::*;
use bae_rs::generators::{Generator, Zero};
use bae_rs::modifiers::{Modifier, Gain, Passthrough};
use bae_rs::sounds::{Block, StandardBlock, Inter};
use std::sync::Arc;
/// primes a block with up to `n` inputs and returns the sum expected
fn prime(b: &mut StandardBlock, n: usize) -> f32 {
    let mut s = 0.0;
    for _ in 0..n { let x = f32_in(-1.0, 1.0); b.prime_input(x); s += x; }
    s
}
/// generator state and modifier state tracked next to the block
fn run(form: usize, steps: usize, most: usize) {
    let g0 = f32_in(-1.0, 1.0); let gd = f32_in(-0.5, 0.5);
    let k = f32_in(-1.0, 1.0);
    let (gl, ml) = (log(), log());
    let g = Gen { v: g0, d: gd, log: gl.clone() }; let m = Mod { k, last: 0.0, log: ml.clone() };
    let il = log(); let il2 = il.clone();
    let mut b = match form {
        0 => StandardBlock::from_generator(g),
        1 => StandardBlock::from_modifier(m),
        2 => StandardBlock::new(g, m, StandardBlock::default_interactor()),
        3 => StandardBlock::new(g, m, StandardBlock::generator_passthrough()),
        4 => StandardBlock::new(g, m, StandardBlock::modifier_passthrough()),
        _ => { let mut acc = 0.0f32; StandardBlock::new(g, m, Arc::new(move |a: f32, c: f32| { il2.count(a); acc += 1.0; a * 0.5 + c - acc })) }
    };
    let (mut gv, mut last) = (g0, 0.0f32);
    for i in 0..steps {
        let n = choose(most + 1);
        let s = prime(&mut b, n);
        let y = b.process(); obs(y);
        let mo = s * k + last * 0.5;
        let e = match form { 0 | 3 => gv as f64, 1 | 4 => mo as f64, 2 => gv as f64 * mo as f64, _ => gv as f64 * 0.5 + mo as f64 - (i + 1) as f64 };
        ck!(near(y as f64, e, 4e-6));
        if form != 1 { ck!(gl.calls() == i + 1); }
        if form != 0 { ck!(ml.calls() == i + 1); ck!(near(ml.seen() as f64, s as f64, 2e-6)); }
        if form == 5 { ck!(il.calls() == i + 1); ck!(near(il.seen() as f64, gv as f64, 1e-6)); }
        gv += gd; last = s;
    }
}
#[no_mangle] pub extern "C" fn c29_forms() { run(choose(6), 3, 2) }
#[no_mangle] pub extern "C" fn c29_many() { run([2, 1][choose(2)], 2, 3) }
#[no_mangle] pub extern "C" fn c29_forms_deep() { run(choose(6), 4, 3) }
/// the library's own parts
#[no_mangle] pub extern "C" fn c29_parts() {
    let k = f32_in(-2.0, 2.0);
    let mut b = match choose(3) { 0 => StandardBlock::from_modifier(Gain::new(k)), 1 => StandardBlock::new(Zero::new(), Gain::new(k), StandardBlock::modifier_passthrough()), _ => StandardBlock::new(Zero::new(), Passthrough::new(), Arc::new(move |_: f32, m: f32| m * k)) };
    for _ in 0..3 { let n = choose(3); let s = prime(&mut b, n); let y = b.process(); obs(y); ck!(near(y as f64, s as f64 * k as f64, 4e-6)); }
}
/// many inputs before one sample, and many samples
#[no_mangle] pub extern "C" fn c29_far() {
    let (gl, ml) = (log(), log());
    let mut b = StandardBlock::new(Gen { v: 0.5, d: 0.0, log: gl.clone() }, Mod { k: 1.0, last: 0.0, log: ml.clone() }, Arc::new(|g: f32, m: f32| g + m));
    let n = [9, 33, 300][choose(3)]; let r = [0, 100, 2000][choose(3)];
    for i in 0..r { b.prime_input((i % 3) as f32); b.process(); }
    let l = if r == 0 { 0.0 } else { ((r - 1) % 3) as f64 };
    let x = f32_in(-1.0, 1.0); let at = choose(3);
    let mut s = 0.0f64;
    for i in 0..n { let v = if i == [0, n / 2, n - 1][at] { x } else { 0.0625 }; b.prime_input(v); s += v as f64; }
    let y = b.process(); obs(y);
    let tol = n as f64 * 4e-6;
    ck!(near(ml.seen() as f64, s, tol)); ck!(near(y as f64, 0.5 + s + 0.5 * l, 2.0 * tol));
    ck!(gl.calls() == r + 1 && ml.calls() == r + 1);
    let y = b.process(); ck!(near(y as f64, 0.5 + 0.5 * s, 2.0 * tol)); ck!(ml.seen() == 0.0);
}
/// inputs of every order of magnitude add up
#[no_mangle] pub extern "C" fn c29_scales() {
    let w = [1e-30f32, 1e-12, 1e-6, 1e6, 1e30][choose(5)];
    let mut b = StandardBlock::from_modifier(Passthrough::new());
    for _ in 0..2 {
        let (x, y) = (f32_in(-1.0, 1.0), f32_in(-1.0, 1.0));
        b.prime_input(x * w); b.prime_input(y * w);
        let z = b.process() as f64 / w as f64; obs(z);
        ck!(near(z, x as f64 + y as f64, 1e-6));
    }
}
harnesses!(c29_scales, c29_forms, c29_many, c29_forms_deep, c29_parts, c29_far);
