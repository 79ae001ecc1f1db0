use crate::sx::*;
use bae_rs::channels::{Channel, StandardChannel};
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::*;
use bae_rs::sounds::*;
use bae_rs::utils::mono_resampler::MonoResampler;
use bae_rs::utils::normalize;
use std::sync::Arc;
use std::time::Duration;
fn us(n: u64) -> Duration { Duration::from_micros(n) }
/// any f32 at all
fn any() -> f32 { match choose(4) { 0 => f32_in(-3.4e38, 3.4e38), 1 => f32::INFINITY, 2 => f32::NEG_INFINITY, _ => f32::NAN } }
fn odd() -> f32 { [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 3.4e38][choose(4)] }
fn modifier(k: usize) -> Box<dyn Modifier> {
    match k {
        0 => Box::new(ADSR::new(us(42), us(63), -6.0, us(21))),
        1 => Box::new(BandPass::new(1_000.0, 2.0)),
        2 => Box::new(Delay::new(us(42))),
        3 => Box::new(Echo::new(us(21), 0.5)),
        4 => Box::new(Envelope::new(20.0, 2_000.0)),
        5 => Box::new(Gain::new(0.5)),
        6 => Box::new(Generic::new([(0usize, 0.5f32), (2, 0.25)].iter().copied().collect(), [(1usize, 0.5f32)].iter().copied().collect())),
        7 => Box::new(HighPass::new(1_000.0, 0.3)),
        8 => Box::new(LowPass::new(1_000.0, 0.3)),
        _ => Box::new(Passthrough::new()),
    }
}
/// every modifier takes every sequence of three samples
#[no_mangle] pub extern "C" fn c40_modifiers() { modifiers(3) }
#[no_mangle] pub extern "C" fn c40_modifiers_deep() { modifiers(6) }
fn modifiers(n: usize) {
    let k = choose(10);
    let mut m = modifier(k);
    for _ in 0..n { m.process(any()); }
    ck!(true);
}
/// whatever has passed through, a component whose output depends on a bounded stretch of its input is itself again once it is gone
#[no_mangle] pub extern "C" fn c40_recovers() {
    let n = 1 + choose(2);
    let bad: Vec<f32> = (0..n).map(|_| odd()).collect();
    let x: Vec<f32> = (0..6).map(|_| f32_in(-1.0, 1.0)).collect();
    let feed = |a: &mut dyn Modifier, b: &mut dyn Modifier, mem: usize| {
        for v in &bad { a.process(*v); b.process(0.25); }
        for i in 0..6 { let (p, q) = (a.process(x[i]), b.process(x[i])); if i >= mem { obs(p); ck!(p.to_bits() == q.to_bits()); } }
    };
    match choose(5) {
        0 => feed(&mut Gain::new(0.5), &mut Gain::new(0.5), 0),
        1 => feed(&mut Passthrough::new(), &mut Passthrough::new(), 0),
        2 => feed(&mut Delay::new(us(42)), &mut Delay::new(us(42)), 2),
        3 => { let f = || Generic::new([(0usize, 0.5f32), (3, 0.25)].iter().copied().collect(), Default::default()); feed(&mut f(), &mut f(), 3) }
        _ => { let f = || ADSR::new(us(42), us(63), -6.0, us(21)); feed(&mut f(), &mut f(), 0) }
    }
}
fn block(k: usize) -> BlockSP { match k { 0 => Arc::new(StandardBlock::from_modifier(Gain::new(0.5))), 1 => Arc::new(StandardBlock::new(Sawtooth::new(6_000.0), Passthrough::new(), StandardBlock::default_interactor())), _ => Arc::new(StandardBlock::from_generator(Sawtooth::new(6_000.0))) } }
/// blocks, sounds and channels take them too, and forget them with the next sample
#[no_mangle] pub extern "C" fn c40_sounds() {
    let b = choose(3);
    let mk = |c: bool| -> Box<dyn Sound> { if c { let mut s = ComplexSound::new(0.5, 2.0); let n = s.add_block(block(b)); let (i, o) = (s.get_input_gain(), s.get_output_gain()); s.add_connection(i, n); s.add_connection(n, o); Box::new(s) } else { Box::new(SimpleSound::new(0.5, 2.0, block(b))) } };
    let c = choose(2) == 1;
    let (mut a, mut r) = (mk(c), mk(c));
    for _ in 0..2 { a.process(any()); r.process(0.0); }
    for _ in 0..2 { let x = f32_in(-1.0, 1.0); let (p, q) = (a.process(x), r.process(x)); obs(p); ck!(p.to_bits() == q.to_bits()); }
}
#[no_mangle] pub extern "C" fn c40_gains() {
    // gains of any size, set and set back
    let g = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300][choose(4)];
    let mut s = SimpleSound::new(g, g, block(0));
    let x = f32_in(-1.0, 1.0);
    s.process(x); s.set_input_gain(0.5); s.set_output_gain(2.0);
    let y = s.process(x); ck!(near(y as f64, 0.5 * x as f64, 1e-6));
    let mut c: StandardChannel<Stereo> = StandardChannel::new(g); c.set_process_time(us(42));
    let v = f32_in(-1.0, 1.0);
    let mut h: Arc<dyn Sound> = Arc::new(SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::new(Zero::new(), Passthrough::new(), Arc::new(move |_, _| v)))));
    c.add_sound(&mut h); drop(h);
    c.process(); c.set_gain(0.5); c.process();
    for f in c.get_output() { ck!(near(f.into_sample() as f64, 0.5 * v as f64, 1e-6)); }
}
/// tracks of anything
#[no_mangle] pub extern "C" fn c40_tracks() {
    let n = choose(4);
    let t: Vec<f32> = (0..n).map(|_| any()).collect();
    match choose(3) {
        0 => { let mut u = t.clone(); normalize(0.0, &mut u); ck!(u.len() == n); }
        1 => { let mut r = MonoResampler::new(t.iter().map(|x| Mono::from_sample(*x)).collect(), 40_000.0, 0, [0, 2][choose(2)]); for _ in 0..5 { r.process(); } }
        _ => { let mut o = Vec::new(); let k = [8, 16, 24][choose(3)]; ck!(bae_rs::utils::write_wav(vec![t], k, &mut o, choose(2) == 1).is_ok()); ck!(o.len() >= 44 + n * k as usize / 8); }
    }
}
harnesses!(c40_modifiers, c40_modifiers_deep, c40_recovers, c40_sounds, c40_gains, c40_tracks);
