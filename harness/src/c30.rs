use crate::sx::*;
use crate::probe::*;
use bae_rs::modifiers::Gain;
use bae_rs::sounds::*;
use std::sync::Arc;
const KC: [(f32, f32); 4] = [(1.0, 0.25), (-0.5, 0.125), (0.75, -0.5), (2.0, 0.0625)];
/// modifiers are added one by one, in one list, or mixed; the output follows the chain
fn run(most: usize, steps: usize, gains: bool) {
    let (mut ig, mut og) = (f64_in(-2.0, 2.0), f64_in(-2.0, 2.0));
    let logs: Vec<Log> = (0..most + 1).map(|_| log()).collect();
    let n = choose(most + 1);
    let mut s = SimpleSound::new(ig, og, Arc::new(aff(KC[0].0, KC[0].1, &logs[0])));
    let mk = |i: usize| -> BlockSP { Arc::new(aff(KC[i % 4].0, KC[i % 4].1, &logs[i])) };
    // how many come in the list, and where
    let (a, b) = { let a = choose(n + 1); (a, a + choose(n - a + 1)) };
    for i in 1..=a { s.add_modifier::<f32>(mk(i)); }
    s.extend_modifiers((a + 1..=b).map(|i| mk(i)).collect());
    for i in b + 1..=n { s.add_modifier::<f32>(mk(i)); }
    for t in 1..=steps {
        if gains {
            match choose(4) { 0 => { ig = f64_in(-2.0, 2.0); s.set_input_gain(ig); } 1 => { og = f64_in(-2.0, 2.0); s.set_output_gain(og); } 2 => { ig = f64_in(-2.0, 2.0); og = f64_in(-2.0, 2.0); s.set_output_gain(og); s.set_input_gain(ig); } _ => {} }
        }
        ck!(near(s.get_input_gain(), ig, 2e-7)); ck!(near(s.get_output_gain(), og, 2e-7));
        let x = f32_in(-1.0, 1.0);
        let y = s.process(x); obs(y);
        let mut v = x as f64 * ig;
        for i in 0..=n {
            ck!(logs[i].calls() == t);
            ck!(near(logs[i].seen() as f64, v, 1e-5));
            v = KC[i % 4].0 as f64 * v + KC[i % 4].1 as f64 * t as f64;
        }
        ck!(near(y as f64, v * og, 4e-5));
    }
}
#[no_mangle] pub extern "C" fn c30_chain() { run(3, 2, false) }
#[no_mangle] pub extern "C" fn c30_gains() { run(2, 2, true) }
#[no_mangle] pub extern "C" fn c30_gains_deep() { run(3, 3, true) }
#[no_mangle] pub extern "C" fn c30_chain_deep() { run(5, 3, false) }
/// the library's own blocks
#[no_mangle] pub extern "C" fn c30_parts() {
    let (ig, og) = (f64_in(-2.0, 2.0), f64_in(-2.0, 2.0));
    let (k, v, d) = (f32_in(-1.0, 1.0), f32_in(-1.0, 1.0), f32_in(-1.0, 1.0));
    let (gl, ml) = (log(), log());
    let mut s = SimpleSound::new(ig, og, Arc::new(StandardBlock::new(Gen { v, d, log: gl.clone() }, Mod { k: 1.0, last: 0.0, log: log() }, Arc::new(|g: f32, m: f32| g + m))));
    s.extend_modifiers(vec![Arc::new(StandardBlock::from_modifier(Mod { k, last: 0.0, log: ml.clone() })), Arc::new(StandardBlock::from_modifier(Gain::new(0.5)))]);
    let (mut g, mut x1, mut m1) = (v as f64, 0.0, 0.0);
    for t in 1..=3 {
        let x = f32_in(-1.0, 1.0);
        let y = s.process(x); obs(y);
        let i = x as f64 * ig;
        let a = g + i + 0.5 * x1;
        let b = k as f64 * a + 0.5 * m1;
        ck!(near(y as f64, b * 0.5 * og, 4e-5));
        ck!(gl.calls() == t); ck!(ml.calls() == t);
        g += d as f64; x1 = i; m1 = a;
    }
}
/// a sound and its clone
#[no_mangle] pub extern "C" fn c30_cloned() {
    let l = log();
    let mut s = SimpleSound::new(1.0, 1.0, Arc::new(aff(1.0, 0.0, &l)));
    let c = s.clone();
    let x = f32_in(0.25, 1.0);
    let y = s.process(x);
    ck!(near(y as f64, x as f64, 1e-6));
    drop(c);
}
/// long chains, long runs
#[no_mangle] pub extern "C" fn c30_far() {
    let n = [9, 17, 40][choose(3)]; let how = choose(3);
    let (ig, og) = (f64_in(-2.0, 2.0), f64_in(-2.0, 2.0));
    let logs: Vec<Log> = (0..n + 1).map(|_| log()).collect();
    let k = |i: usize| if i % 3 == 0 { -1.0f32 } else { 1.0 }; let c = |i: usize| i as f32 / 64.0;
    let mut s = SimpleSound::new(ig, og, Arc::new(aff(k(0), c(0), &logs[0])));
    let mk = |i: usize| -> BlockSP { Arc::new(aff(k(i), c(i), &logs[i])) };
    match how { 0 => for i in 1..=n { s.add_modifier::<f32>(mk(i)); }, 1 => s.extend_modifiers((1..=n).map(|i| mk(i)).collect()), _ => { for i in 1..=n { s.extend_modifiers(vec![mk(i)]); } } }
    let r = [0, 300][choose(2)];
    for _ in 0..r { s.process(0.0); }
    for t in r + 1..=r + 2 {
        let x = f32_in(-1.0, 1.0);
        let y = s.process(x); obs(y);
        let mut v = x as f64 * ig;
        for i in 0..=n { ck!(logs[i].calls() == t); ck!(near(logs[i].seen() as f64, v, 1e-1)); v = k(i) as f64 * v + c(i) as f64 * t as f64; }
        ck!(near(y as f64, v * og, 2e-1));
    }
}
/// gains of every order of magnitude
#[no_mangle] pub extern "C" fn c30_scales() {
    let (i, o) = (choose(4), choose(4)); let m = [1e-12f64, 1e-8, 1e3, 1e9];
    let (ig, og) = (m[i], m[o]);
    let l = log(); let l2 = log();
    let mut s = SimpleSound::new(if choose(2) == 0 { ig } else { 0.5 }, og, Arc::new(aff(1.0, 0.0, &l)));
    s.extend_modifiers(vec![Arc::new(aff(-1.0, 0.0, &l2))]);
    s.process(0.25);
    s.set_input_gain(ig);
    let x = f32_in(0.25, 1.0);
    let y = s.process(x); obs(y);
    ck!(near(l.seen() as f64 / ig, x as f64, 1e-5));
    ck!(near(y as f64 / (ig * og), -(x as f64), 1e-5));
    ck!(near(s.get_input_gain() / ig, 1.0, 1e-6) && near(s.get_output_gain() / og, 1.0, 1e-6));
}
harnesses!(c30_scales, c30_cloned, c30_chain, c30_gains, c30_gains_deep, c30_chain_deep, c30_parts, c30_far);
