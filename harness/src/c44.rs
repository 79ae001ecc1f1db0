use crate::sx::*;
use bae_rs::channels::{Channel, StandardChannel};
use bae_rs::debug::VecReader;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::*;
use bae_rs::sounds::*;
use bae_rs::utils::mono_resampler::MonoResampler;
use bae_rs::utils::*;
use std::sync::Arc;
use std::time::Duration;
type Run = Box<dyn FnMut(f32) -> f32>;
fn g<T: Generator + 'static>(mut o: T) -> Run { Box::new(move |_| o.process()) }
fn m<T: Modifier + 'static>(mut o: T) -> Run { Box::new(move |x| o.process(x)) }
fn s<T: Sound + 'static>(mut o: T) -> Run { Box::new(move |x| o.process(x)) }
fn us(n: u64) -> Duration { Duration::from_micros(n) }
fn track(v: &[f32]) -> Vec<Mono> { v.iter().map(|x| Mono::from_sample(*x)).collect() }
fn b<T: Modifier + 'static>(o: T) -> BlockSP { Arc::new(StandardBlock::from_modifier(o)) }
const KINDS: usize = 28;
fn make(k: usize) -> Run {
    match k {
        0 => g(Sine::new(440.0)), 1 => g(Square::new(9_000.0)), 2 => g(Sawtooth::new(7_000.0)), 3 => g(Triangle::new(5_000.0)), 4 => g(Zero::new()), 5 => g(Noise::new()),
        6 => g(MonoWav::from_track(44_100.0, track(&[0.5, -0.25, 1.0]))),
        7 => { let mut r = MonoResampler::new(track(&[0.5, -0.25, 1.0]), 30_000.0, 0, 2); Box::new(move |_| r.process()) }
        8 => m(ADSR::new(us(42), us(63), -6.0, us(21))),
        9 => m(BandPass::new(1_000.0, 2.0)),
        10 => m(Delay::new(us(0))), 11 => m(Delay::new(us(21))), 12 => m(Delay::new(us(83))),
        13 => m(Echo::new(us(21), 0.5)), 14 => m(Echo::new(us(83), -0.5)),
        15 => m(Envelope::new(20.0, 2_000.0)),
        16 => m(Gain::new(0.5)),
        17 => m(Generic::new([(0usize, 0.5f32), (2, 0.25)].iter().copied().collect(), [(1usize, 0.5f32)].iter().copied().collect())),
        18 => m(Generic::new([(3usize, 0.5f32)].iter().copied().collect(), Default::default())),
        19 => m(Generic::new(Default::default(), [(0usize, 0.5f32)].iter().copied().collect())),
        20 => m(HighPass::new(1_000.0, 0.3)), 21 => m(LowPass::new(1_000.0, 0.3)), 22 => m(Passthrough::new()),
        23 => { let mut o = StandardBlock::new(Sawtooth::new(7_000.0), Delay::new(us(42)), StandardBlock::default_interactor()); Box::new(move |x| { o.prime_input(x); o.prime_input(0.5); o.process() }) }
        24 => { let mut o = SimpleSound::new(0.5, 2.0, b(Echo::new(us(21), 0.5))); o.extend_modifiers(vec![b(Delay::new(us(42)))]); s(o) }
        25 => {
            let mut o = ComplexSound::new(0.5, 2.0);
            let (p, q) = (o.add_block(b(Delay::new(us(21)))), o.add_block(Arc::new(StandardBlock::from_generator(Triangle::new(7_000.0)))));
            let (i, e) = (o.get_input_gain(), o.get_output_gain());
            o.add_connection(i, p); o.add_connection(p, e); o.add_connection(q, e); o.add_connection(q, p);
            s(o)
        }
        26 => {
            let mut c: StandardChannel<Mono> = StandardChannel::new(0.5); c.set_process_time(us(42));
            for f in [7_000.0, 440.0].iter() { let mut h: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_generator(Sawtooth::new(*f))))); c.add_sound(&mut h); }
            Box::new(move |_| { c.process(); c.get_output()[0].into_sample() })
        }
        _ => { let mut c: StandardChannel<Stereo> = StandardChannel::new(0.5); Box::new(move |_| { c.set_process_time(us(63)); c.process(); c.get_output()[0].into_sample() }) }
    }
}
/// after the first samples, no sample takes more memory, and dropping the object gives everything back
#[no_mangle] pub extern "C" fn c44_steady() { steady(30) }
#[no_mangle] pub extern "C" fn c44_steady_deep() { steady(300) }
fn steady(n: usize) {
    let k = choose(KINDS);
    let x: Vec<f32> = (0..4).map(|_| f32_in(-1.0, 1.0)).collect();
    drop(make(k));
    let h0 = heap();
    let mut o = make(k);
    for i in 0..4 { o(x[i]); }
    let h = heap();
    for i in 0..n { o(if i % 7 == 0 { x[i % 4] } else { 0.25 }); let now = heap(); ck!(now == h); }
    drop(o);
    let now = heap(); ck!(now == h0); obs(h - h0);
}
/// pausing, muting, gains, registration, retuning
#[no_mangle] pub extern "C" fn c44_settings() {
    let x = f32_in(-1.0, 1.0);
    let mut sn: Box<dyn Sound> = if choose(2) == 0 { Box::new(SimpleSound::new(1.0, 1.0, b(Delay::new(us(42))))) } else { let mut c = ComplexSound::new(1.0, 1.0); let n = c.add_block(b(Delay::new(us(42)))); let i = c.get_input_gain(); c.add_connection(i, n); Box::new(c) };
    let mut w = Square::new(440.0); let mut f = LowPass::new(100.0, 0.0); let mut r = MonoResampler::new(track(&[0.5, 1.0]), 48_000.0, 0, 2);
    let mut h = 0;
    for i in 0..12 {
        sn.toggle_pause(); sn.process(x); sn.toggle_pause(); sn.toggle_mute(); sn.process(x); sn.register(i); sn.unregister();
        w.set_frequency(500.0 + i as f64); w.process(); f.set_central_frequency(50.0 * i as f64); f.set_resonance(0.1); f.process(x); r.set_playback_speed(0.3); r.process();
        if i == 1 { h = heap(); }
        if i > 1 { let now = heap(); ck!(now == h); }
    }
}
/// sounds that come and go on a channel, connections on a graph
#[no_mangle] pub extern "C" fn c44_coming_and_going() {
    let x = f32_in(-1.0, 1.0);
    let n = 1 + choose(3);
    let mut c: StandardChannel<Mono> = StandardChannel::new(0.5); c.set_process_time(us(42));
    let mut h = 0;
    for i in 0..24 {
        let mut ids = Vec::new();
        for _ in 0..n { let mut s: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, b(Gain::new(x)))); c.add_sound(&mut s); ids.push(s.get_id().unwrap()); }
        c.process();
        for k in ids { c.remove_sound(k); }
        if i == 7 { h = heap(); }
        if i > 7 { let now = heap(); ck!(now == h); }
    }
}
#[no_mangle] pub extern "C" fn c44_graph() {
    let x = f32_in(-1.0, 1.0);
    let mut c = ComplexSound::new(1.0, 1.0);
    let (p, q) = (c.add_block(b(Gain::new(0.5))), c.add_block(b(Gain::new(0.25))));
    let (i, o) = (c.get_input_gain(), c.get_output_gain());
    let mut e = vec![(i, p), (p, q), (q, o), (p, o)]; if choose(2) == 1 { e.reverse(); }
    let mut h = 0;
    for k in 0..16 {
        for (a, b) in &e { c.add_connection(*a, *b); c.add_connection(*a, *b); }
        c.process(x);
        for (a, b) in &e { c.remove_connection(*a, *b); c.remove_connection(*a, *b); }
        c.process(x); c.get_nodes();
        if k == 2 { h = heap(); }
        if k > 2 { let now = heap(); ck!(now == h); }
    }
}
/// files and tracks
#[no_mangle] pub extern "C" fn c44_files() {
    let t: Vec<f32> = (0..3).map(|_| f32_in(-1.0, 1.0)).collect();
    let k = [8, 16, 24, 12][choose(4)];
    let mut h = 0;
    for i in 0..4 {
        let mut out = Vec::new();
        let r = write_wav(vec![t.clone(), t.clone()], k, &mut out, true); let ok = r.is_ok(); drop(r);
        if ok { let r = read_wav(&mut VecReader::new(out.clone())); drop(r); drop(out); } else { drop(out); }
        let mut u = t.clone(); normalize(-3.0, &mut u); drop(u);
        if i == 0 { h = heap(); } else { let now = heap(); ck!(now == h); }
    }
}
harnesses!(c44_steady, c44_steady_deep, c44_settings, c44_coming_and_going, c44_graph, c44_files);
