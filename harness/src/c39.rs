use crate::sx::*;
use bae_rs::channels::{Channel, StandardChannel};
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::{Mono, SampleFormat};
use bae_rs::sounds::*;
use bae_rs::utils::mono_resampler::MonoResampler;
use std::sync::Arc;
use std::time::Duration;
type Run = Box<dyn FnMut(f32) -> f32>;
fn g<T: Generator + 'static>(mut o: T) -> Run { Box::new(move |_| o.process()) }
fn m<T: Modifier + 'static>(mut o: T) -> Run { Box::new(move |x| o.process(x)) }
fn s<T: Sound + 'static>(mut o: T) -> Run { Box::new(move |x| o.process(x)) }
fn us(n: u64) -> Duration { Duration::from_micros(n) }
fn track(v: &[f32]) -> Vec<Mono> { v.iter().map(|x| Mono::from_sample(*x)).collect() }
const KINDS: usize = 24;
/// an object of kind k with one of four settings: 1 and 2 differ from 0 in one parameter where there are several
fn make(k: usize, v: usize) -> Run {
    // setting 3 is next to setting 0
    let e = if v == 3 { 1.0 + 3e-5 } else { 1.0 }; let (ef, eu) = (e as f32, (v == 3) as u64); let v = v % 3;
    match k {
        0 => g(Sine::new(e * [440.0, 23_000.0, 441.0][v])),
        1 => g(Square::new(e * [9_000.0, 440.0, 9_001.0][v])),
        2 => g(Sawtooth::new(e * [7_000.0, 13_000.0, 7_001.0][v])),
        3 => g(Triangle::new(e * [5_000.0, 11_000.0, 5_001.0][v])),
        4 => g(Zero::new()),
        5 => g(MonoWav::from_track(e * [44_100.0, 96_000.0, 44_100.0][v], track(&[0.5, -0.25, [1.0, 1.0, -1.0][v]]))),
        6 => { let mut r = MonoResampler::new(track(if v != 1 { &[0.5, -0.25, 1.0] } else { &[1.0, 0.0] }), e * 30_000.0, 0, [2, 1, 3][v]); r.set_playback_speed(e * [0.7, 1.0, 0.7][v]); Box::new(move |_| r.process()) }
        7 => m(ADSR::new(us(eu + [42, 0, 42][v]), us(eu + [63, 63, 21][v]), e * [-6.0, -20.0, -6.0][v], us(21))),
        8 => m(ADSR::new(us(42), us(63 + eu), e * [-6.0, -20.0, -7.0][v], us(eu + [21, 21, 42][v]))),
        9 => m(BandPass::new(e * [1_000.0, 5_000.0, 1_000.0][v], [2.0, 2.0, 0.7][v])),
        10 => m(BandPass::from_corners((e * [500.0, 500.0, 250.0][v], e * [2_000.0, 5_000.0, 4_000.0][v]))),
        11 => m(Delay::new(us([42, 21, 63][v]))),
        12 => m(Echo::new(us([21, 42, 21][v]), e * [0.5, 0.5, -0.75][v])),
        13 => m(Envelope::new(ef * [20.0, 20.0, 40.0][v], ef * [2_000.0, 4_000.0, 2_000.0][v])),
        14 => m(Gain::new(ef * [0.5, -2.0, 0.25][v])),
        15 => m(Generic::new([(0usize, 0.5f32), (2, ef * [0.25, 1.0, 0.25][v])].iter().copied().collect(), [(1usize, ef * [0.5f32, 0.5, -0.5][v])].iter().copied().collect())),
        16 => m(HighPass::new(e * [1_000.0, 9_000.0, 1_000.0][v], e * [0.3, 0.3, 1.0][v])),
        17 => m(LowPass::new(e * [1_000.0, 9_000.0, 1_000.0][v], e * [0.3, 0.3, 1.0][v])),
        18 => m(Passthrough::new()),
        19 => { let mut b = StandardBlock::new(Sawtooth::new(e * [7_000.0, 440.0, 7_000.0][v]), LowPass::new(e * [1_000.0, 1_000.0, 9_000.0][v], 0.5), StandardBlock::default_interactor()); Box::new(move |x| { b.prime_input(x); b.prime_input(0.5); b.process() }) }
        20 => { let mut o = SimpleSound::new(e * [0.5, 1.0, 0.5][v], [2.0, 2.0, 0.25][v], Arc::new(StandardBlock::from_modifier(Echo::new(us(21), 0.5)))); o.extend_modifiers(vec![Arc::new(StandardBlock::from_modifier(HighPass::new(e * [500.0, 5_000.0, 500.0][v], 0.0)))]); s(o) }
        21 => {
            let mut o = ComplexSound::new(e * [0.5, 1.0, 0.5][v], [2.0, 2.0, 0.25][v]);
            let (p, q) = (o.add_block(Arc::new(StandardBlock::from_modifier(Delay::new(us(21))))), o.add_block(Arc::new(StandardBlock::from_generator(Triangle::new(e * [7_000.0, 440.0, 7_000.0][v])))));
            let (i, e) = (o.get_input_gain(), o.get_output_gain());
            if v != 1 { o.add_connection(i, p); } o.add_connection(p, e); o.add_connection(q, e); if v != 2 { o.add_connection(q, p); }
            s(o)
        }
        22 => {
            let mut c: StandardChannel<Mono> = StandardChannel::new(e * [0.5, 2.0, 0.5][v]); c.set_process_time(us(21));
            for f in [7_000.0, 440.0][(v == 1) as usize..].iter() { let mut h: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_generator(Sawtooth::new(e * (*f + v as f64)))))); c.add_sound(&mut h); }
            Box::new(move |_| { c.process(); c.get_output()[0].into_sample() })
        }
        _ => { let mut o = SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_generator(Sine::new(e * [440.0, 3_000.0, 440.0][v])))); if v != 0 { o.toggle_mute(); } s(o) }
    }
}
/// equally built and equally fed objects agree, whatever happens in between
#[no_mangle] pub extern "C" fn c39_alone() { alone(5) }
#[no_mangle] pub extern "C" fn c39_alone_deep() { alone(16) }
fn alone(n: usize) {
    let k = choose(KINDS);
    let v = choose(4); let w = (v + 1 + choose(3)) % 4; let u = (0..4).find(|u| *u != v && *u != w).unwrap();
    let x: Vec<f32> = (0..n).map(|_| f32_in(-1.0, 1.0)).collect();
    let mut a = make(k, v);
    let mut y = Vec::new();
    for i in 0..n { y.push(a(x[i]).to_bits()); }
    make(k, u); let mut other = make(k, w); other(f32_in(-1.0, 1.0)); drop(a);
    let mut b = make(k, v);
    let mut other2 = make(k, w); let mut twin = make(k, v);
    other2(f32_in(-1.0, 1.0));
    for i in 0..n {
        let z = b(x[i]); obs(z); ck!(z.to_bits() == y[i]);
        other(f32_in(-1.0, 1.0)); if i % 2 == 0 { twin(f32_in(-1.0, 1.0)); }
        if i == 2 { make(k, w)(0.5); other2(f32_in(-1.0, 1.0)); }
    }
}
/// objects of different kinds do not meet either
#[no_mangle] pub extern "C" fn c39_mixed() {
    let k = choose(KINDS); let l = choose(KINDS); let n = 4;
    let x: Vec<f32> = (0..n).map(|_| f32_in(-1.0, 1.0)).collect();
    let mut a = make(k, 0);
    let mut y = Vec::new();
    for i in 0..n { y.push(a(x[i]).to_bits()); }
    let mut other = make(l, 1 + choose(3));
    let mut b = make(k, 0);
    for i in 0..n { let z = b(x[i]); ck!(z.to_bits() == y[i]); other(f32_in(-1.0, 1.0)); }
}
/// any frequency: the oscillators
#[no_mangle] pub extern "C" fn c39_any() {
    fn two<T: Generator + FreqMod>(n: usize) {
        let (f, h) = (f64_in(1.0, 24_000.0), f64_in(1.0, 24_000.0));
        let mut a = T::new(f); let mut y = Vec::new();
        for _ in 0..n { y.push(a.process().to_bits()); }
        let mut b = T::new(f); let mut o = T::new(h);
        for i in 0..n { ck!(b.process().to_bits() == y[i]); if i % 2 == 0 { o.process(); } if i == 1 { o.set_frequency(f); } ck!(b.get_frequency() == a.get_frequency()); }
    }
    match choose(3) { 0 => two::<Square>(3), 1 => two::<Sawtooth>(4), _ => two::<Triangle>(4) }
}
/// a clone of an object shares nothing with it
#[no_mangle] pub extern "C" fn c39_clones() {
    fn gen<T: Generator + Clone>(a: T) {
        let mut a = a; let mut t = Vec::new();
        { let mut r = a.clone(); for _ in 0..4 { t.push(r.process().to_bits()); } }
        a.process(); let mut c = a.clone();
        for i in 0..4 { ck!(c.process().to_bits() == t[i]); a.process(); }
    }
    fn modi<T: Modifier + Clone>(a: T) {
        let x: Vec<f32> = (0..4).map(|_| f32_in(-1.0, 1.0)).collect();
        let mut a = a; let mut t = Vec::new();
        { let mut r = a.clone(); for i in 0..4 { t.push(r.process(x[i]).to_bits()); } }
        a.process(f32_in(-1.0, 1.0)); let mut c = a.clone();
        for i in 0..4 { ck!(c.process(x[i]).to_bits() == t[i]); a.process(f32_in(-1.0, 1.0)); }
    }
    match choose(15) {
        0 => gen(Sine::new(440.0)), 1 => gen(Square::new(9_000.0)), 2 => gen(Sawtooth::new(7_000.0)), 3 => gen(Triangle::new(5_000.0)),
        4 => gen(MonoWav::from_track(44_100.0, track(&[0.5, -0.25, 1.0]))),
        5 => modi(ADSR::new(us(42), us(63), -6.0, us(21))), 6 => modi(BandPass::new(1_000.0, 2.0)), 7 => modi(Delay::new(us(42))), 8 => modi(Echo::new(us(21), 0.5)),
        9 => modi(Envelope::new(20.0, 2_000.0)), 10 => modi(Gain::new(0.5)),
        11 => modi(Generic::new([(0usize, 0.5f32), (2, 0.25)].iter().copied().collect(), [(1usize, 0.5f32)].iter().copied().collect())),
        12 => modi(HighPass::new(1_000.0, 0.3)), 13 => modi(LowPass::new(1_000.0, 0.3)), _ => modi(Passthrough::new()),
    }
}
harnesses!(c39_alone, c39_alone_deep, c39_mixed, c39_any, c39_clones);
