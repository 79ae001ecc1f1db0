use crate::sx::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sounds::*;
use std::sync::Arc;
use std::time::Duration;
fn us(n: u64) -> Duration { Duration::from_micros(n) }
const KINDS: usize = 9;
fn part(k: usize) -> Box<dyn Modifier> {
    match k {
        0 => Box::new(Gain::new(-0.5)), 1 => Box::new(Delay::new(us(21))), 2 => Box::new(Echo::new(us(21), 0.5)),
        3 => Box::new(LowPass::new(4_000.0, 0.3)), 4 => Box::new(HighPass::new(1_000.0, 0.0)), 5 => Box::new(BandPass::new(2_000.0, 1.0)),
        6 => Box::new(Generic::new([(0usize, 0.5f32), (1, 0.25)].iter().copied().collect(), [(1usize, -0.5f32)].iter().copied().collect())),
        7 => Box::new(ADSR::new(us(42), us(21), -6.0, us(21))), _ => Box::new(Passthrough::new()),
    }
}
fn block(k: usize) -> BlockSP {
    match k {
        0 => Arc::new(StandardBlock::from_modifier(Gain::new(-0.5))), 1 => Arc::new(StandardBlock::from_modifier(Delay::new(us(21)))), 2 => Arc::new(StandardBlock::from_modifier(Echo::new(us(21), 0.5))),
        3 => Arc::new(StandardBlock::from_modifier(LowPass::new(4_000.0, 0.3))), 4 => Arc::new(StandardBlock::from_modifier(HighPass::new(1_000.0, 0.0))), 5 => Arc::new(StandardBlock::from_modifier(BandPass::new(2_000.0, 1.0))),
        6 => Arc::new(StandardBlock::from_modifier(Generic::new([(0usize, 0.5f32), (1, 0.25)].iter().copied().collect(), [(1usize, -0.5f32)].iter().copied().collect()))),
        7 => Arc::new(StandardBlock::from_modifier(ADSR::new(us(42), us(21), -6.0, us(21)))), _ => Arc::new(StandardBlock::from_modifier(Passthrough::new())),
    }
}
fn source(k: usize) -> BlockSP { match k { 0 => Arc::new(StandardBlock::from_generator(Sawtooth::new(5_000.0))), 1 => Arc::new(StandardBlock::from_generator(Zero::new())), _ => Arc::new(StandardBlock::new(Triangle::new(9_000.0), Gain::new(0.5), StandardBlock::default_interactor())) } }
fn simple(ig: f64, og: f64, mut b: Vec<BlockSP>, one: bool) -> SimpleSound {
    let r = b.split_off(1);
    let mut s = SimpleSound::new(ig, og, b.pop().unwrap());
    if one { s.extend_modifiers(r) } else { for x in r { s.add_modifier::<f32>(x) } }
    s
}
/// the same chain as a graph; connections made in any of several orders
fn complex(ig: f64, og: f64, b: Vec<BlockSP>, order: usize) -> ComplexSound {
    let mut s = ComplexSound::new(ig, og);
    let mut n: Vec<GraphNode> = vec![s.get_input_gain()];
    for x in b { let i = s.add_block(x); n.push(i); }
    n.push(s.get_output_gain());
    let mut e: Vec<usize> = (1..n.len()).collect();
    match order { 1 => e.reverse(), 2 => e.rotate_left(1), _ => {} }
    for i in e { s.add_connection(n[i - 1], n[i]); }
    s
}
/// chains of one to three library modifiers, any samples and gains, against each other and against the parts applied by hand
fn run(k: &[usize], n: usize) {
    let (ig, og) = (f64_in(-2.0, 2.0), f64_in(-2.0, 2.0));
    let mut a = simple(ig, og, k.iter().map(|k| block(*k)).collect(), choose(2) == 1);
    let mut b = complex(ig, og, k.iter().map(|k| block(*k)).collect(), choose(3));
    let mut p: Vec<Box<dyn Modifier>> = k.iter().map(|k| part(*k)).collect();
    for _ in 0..n {
        let x = f32_in(-1.0, 1.0);
        let (y, z) = (a.process(x), b.process(x)); obs(y);
        let mut v = x * ig as f32;
        for m in &mut p { v = m.process(v); }
        v *= og as f32;
        ck!(near(y as f64, z as f64, 1e-5)); ck!(near(y as f64, v as f64, 1e-5));
    }
}
#[no_mangle] pub extern "C" fn c42_one() { run(&[choose(KINDS)], 4) }
#[no_mangle] pub extern "C" fn c42_two() { run(&[choose(KINDS), choose(KINDS)], 3) }
#[no_mangle] pub extern "C" fn c42_three() { run(&[[1, 3, 6][choose(3)], [0, 2, 4][choose(3)], [5, 7, 8][choose(3)]], 3) }
#[no_mangle] pub extern "C" fn c42_three_deep() { run(&[choose(KINDS), choose(KINDS), choose(KINDS)], 4) }
/// with pauses, mutings in between and a generator at the head
#[no_mangle] pub extern "C" fn c42_toggled() {
    let (s, k) = (choose(3), choose(KINDS));
    let ig = 0.75; let og = f64_in(-2.0, 2.0);
    let mk = || vec![source(s), block(k), block(2)];
    let mut a = simple(ig, og, mk(), true); let mut b = complex(ig, og, mk(), choose(3));
    for _ in 0..4 {
        match choose(3) { 0 => { a.toggle_pause(); b.toggle_pause(); } 1 => { a.toggle_mute(); b.toggle_mute(); } _ => {} }
        let x = f32_in(-1.0, 1.0);
        let (y, z) = (a.process(x), b.process(x)); obs(y);
        ck!(near(y as f64, z as f64, 1e-5));
        ck!(a.is_paused() == b.is_paused()); ck!(a.is_muted() == b.is_muted());
    }
}
/// a graph with parallel branches is the sum of its chains
#[no_mangle] pub extern "C" fn c42_parallel() {
    let (k, l) = (choose(KINDS), choose(KINDS));
    let (ig, og) = (f64_in(-2.0, 2.0), f64_in(-2.0, 2.0));
    let mut a = simple(ig, og, vec![block(k)], true); let mut b = simple(ig, og, vec![block(l)], true);
    let mut c = ComplexSound::new(ig, og);
    let (p, q) = (c.add_block(block(k)), c.add_block(block(l)));
    let (i, o) = (c.get_input_gain(), c.get_output_gain());
    let mut e = [(i, p), (p, o), (i, q), (q, o)];
    match choose(3) { 1 => e.reverse(), 2 => e.swap(0, 3), _ => {} }
    for (x, y) in e.iter() { c.add_connection(*x, *y); }
    for _ in 0..3 { let x = f32_in(-1.0, 1.0); let (y, z, w) = (a.process(x), b.process(x), c.process(x)); obs(w); ck!(near(w as f64, y as f64 + z as f64, 1e-4)); }
}
/// many branches of several kinds, connected branch by branch or all inputs first
#[no_mangle] pub extern "C" fn c42_many() {
    let n = [3, 4, 5, 9, 33][choose(5)]; let k = choose(KINDS); let how = choose(3);
    let kind = |j: usize| if j % 2 == 0 { k } else { [8, 1, 0][j / 2 % 3] };
    let mut parts: Vec<SimpleSound> = (0..n).map(|j| simple(1.0, 1.0, vec![block(kind(j))], true)).collect();
    let mut c = ComplexSound::new(1.0, 1.0);
    let (i, o) = (c.get_input_gain(), c.get_output_gain());
    let id: Vec<GraphNode> = (0..n).map(|j| c.add_block(block(kind(j)))).collect();
    match how {
        0 => for p in &id { c.add_connection(i, *p); c.add_connection(*p, o); },
        1 => { for p in &id { c.add_connection(*p, o); } for p in id.iter().rev() { c.add_connection(i, *p); } }
        _ => { for p in &id { c.add_connection(i, *p); } for p in &id { c.add_connection(*p, o); } c.remove_connection(i, id[1]); c.add_connection(i, id[1]); }
    }
    for t in 0..3 {
        let x = f32_in(-1.0, 1.0);
        let mut e = 0.0; for p in &mut parts { e += p.process(x) as f64; }
        let y = c.process(x); if t == 2 { obs(y); }
        ck!(near(y as f64, e, 1e-5 * n as f64));
    }
}
/// long chains and long runs
#[no_mangle] pub extern "C" fn c42_far() {
    let n = [5, 9, 24][choose(3)]; let r = [0, 600][choose(2)];
    let kind = |j: usize| [1, 8, 0, 2, 8, 1, 6][j % 7];
    let one = choose(2) == 1;
    let mut a = simple(2.0, 0.5, (0..n).map(|j| block(kind(j))).collect(), one);
    let mut b = complex(2.0, 0.5, (0..n).map(|j| block(kind(j))).collect(), choose(3));
    let mut p: Vec<Box<dyn Modifier>> = (0..n).map(|j| part(kind(j))).collect();
    for t in 0..r + 2 {
        let x = if t < r { if t % 3 == 0 { 0.5 } else { -0.25 } } else { f32_in(-1.0, 1.0) };
        let (y, z) = (a.process(x), b.process(x));
        let mut v = x * 2.0;
        for m in &mut p { v = m.process(v); }
        v *= 0.5;
        if t >= r || t % 50 == 0 { obs(y); ck!(near(y as f64, z as f64, 1e-4)); ck!(near(y as f64, v as f64, 1e-4)); }
    }
}
harnesses!(c42_many, c42_far, c42_one, c42_two, c42_three, c42_three_deep, c42_toggled, c42_parallel);
