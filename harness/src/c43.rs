use crate::sx::*;
use bae_rs::channels::{Channel, StandardChannel};
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::*;
use bae_rs::sounds::*;
use bae_rs::utils::mono_resampler::MonoResampler;
use bae_rs::utils::*;
use std::sync::Arc;
use std::time::Duration;
fn us(n: u64) -> Duration { Duration::from_micros(n) }
/// any f64 at all: special values, and every finite one of several sizes
fn any() -> f64 {
    match choose(10) {
        0 => f64::INFINITY, 1 => f64::NEG_INFINITY, 2 => f64::NAN, 3 => 0.0, 4 => 1.7e308, 5 => -1.7e308, 6 => 5e-324,
        7 => f64_in(-48_000.0, 48_000.0), 8 => f64_in(48_000.0, 1e7), _ => f64_in(1e7, 1e300),
    }
}
fn odd() -> f64 { [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0, 1e300, -1e300, 5e-324, -440.0, 48_000.0, 96_000.0, 144_000.5, 1e7, 1.0, 440.0][choose(15)] }
/// oscillators made with any frequency, then retuned to any other
fn tune<T: Generator + FreqMod + Clone>(f: f64, h: f64) {
    let mut o = T::new(f);
    o.process(); o.process(); o.process(); o.get_frequency();
    o.set_frequency(h); o.get_frequency();
    o.process(); o.process(); o.process();
    let mut c = o.clone(); c.process(); c.process();
    o.set_frequency(440.0); o.process();
}
#[no_mangle] pub extern "C" fn c43_waves() { let k = choose(3); let (f, h) = (any(), odd()); match k { 0 => tune::<Square>(f, h), 1 => tune::<Sawtooth>(f, h), _ => tune::<Triangle>(f, h) } ck!(true) }
#[no_mangle] pub extern "C" fn c43_waves_back() { let k = choose(3); let (h, f) = (any(), odd()); match k { 0 => tune::<Square>(f, h), 1 => tune::<Sawtooth>(f, h), _ => tune::<Triangle>(f, h) } ck!(true) }
#[no_mangle] pub extern "C" fn c43_sine() { let (f, h) = (odd(), odd()); tune::<Sine>(f, h); ck!(true) }
#[no_mangle] pub extern "C" fn c43_sine_any() {
    forktab(true);
    let f = match choose(4) { 0 => f64_in(0.0, 48_000.0), 1 => f64_in(48_000.0, 96_000.0), 2 => f64_in(96_000.0, 1e6), _ => f64_in(-1e6, 0.0) };
    let mut o = Sine::new(f);
    for _ in 0..3 { o.process(); }
    ck!(true);
}
/// filters: any cutoff, quality, resonance; a sensible setting brings the filter back
#[no_mangle] pub extern "C" fn c43_filters() {
    let (p, q) = (odd(), odd());
    let x: Vec<f32> = (0..3).map(|_| f32_in(-1.0, 1.0)).collect();
    macro_rules! back { ($a: expr, $b: expr, $f: ident, $q: ident) => {{
        let (mut a, mut b) = ($a, $b);
        { let mut c = a.clone(); for v in &x { c.process(*v); } c.$f(p); c.process(x[0]); c.$q(q); c.process(x[1]); }
        a.$f(p); a.$q(q); a.$f(1_000.0); a.$q(0.7);
        for v in &x { let (y, z) = (a.process(*v), b.process(*v)); ck!(y.to_bits() == z.to_bits()); }
    }} }
    match choose(3) {
        0 => back!(LowPass::new(p, q), LowPass::new(1_000.0, 0.7), set_central_frequency, set_resonance),
        1 => back!(HighPass::new(p, q), HighPass::new(1_000.0, 0.7), set_central_frequency, set_resonance),
        _ => {
            back!(BandPass::new(p, q), BandPass::new(1_000.0, 0.7), set_central_frequency, set_quality);
            let mut b = BandPass::from_corners((p, q)); b.get_corner_frequencies(); b.process(x[0]); b.set_corner_frequencies((q, p)); b.process(x[1]); b.get_corner_frequencies();
        }
    }
}
#[no_mangle] pub extern "C" fn c43_modifiers() {
    let v = odd();
    let x = f32_in(-1.0, 1.0);
    match choose(4) {
        0 => { let mut a = ADSR::new(us([0, 21, 42][choose(3)]), us([0, 21, 1_000_000][choose(3)]), v, us(0)); for _ in 0..4 { a.process(x); } a.release(); a.process(x); ck!(a.process(x) == 0.0); }
        1 => { let mut e = Echo::new(us(0), v); for _ in 0..3 { e.process(x); } }
        2 => { let mut e = Envelope::new(v as f32, odd() as f32); for _ in 0..3 { e.process(x); } }
        _ => { let mut g = Gain::new(v as f32); g.process(x); g.a = 0.5; ck!(g.process(x) == 0.5 * x); }
    }
}
/// players: any sampling rate, speed and loop points
#[no_mangle] pub extern "C" fn c43_players() {
    let n = choose(4);
    let t: Vec<Mono> = (0..n).map(|_| Mono::from_sample(f32_in(-1.0, 1.0))).collect();
    let (a, b) = ([0, 1, 2, usize::MAX][choose(4)], [0, 2, 3, usize::MAX][choose(4)]);
    let mut r = MonoResampler::new(t, odd(), a, b);
    r.process(); r.process(); r.set_playback_speed(odd()); r.get_playback_speed();
    r.process(); r.process();
    let mut c = r.clone(); c.process();
    ck!(true);
}
#[no_mangle] pub extern "C" fn c43_players_any() {
    forksel(true); forktab(true);
    let t: Vec<Mono> = [0.5f32, -0.5, 1.0].iter().map(|x| Mono::from_sample(*x)).collect();
    let mut r = MonoResampler::new(t, 48_000.0, [0, 1][choose(2)], [0, 2, 3][choose(3)]);
    for _ in 0..2 { r.set_playback_speed(match choose(2) { 0 => f64_in(-4.0, 0.0), _ => f64_in(0.0, 100.0) }); r.process(); }
    r.process();
    ck!(true);
}
/// the functions of the library
#[no_mangle] pub extern "C" fn c43_functions() {
    let v = odd(); let s = f32_in(-4.0, 4.0);
    match choose(4) {
        0 => { linear_to_db(v); db_to_linear(v); }
        1 => { let y: Stereo = Stereo::to_sample_format(s, v); y.into_sample(); let y: Stereo = Stereo::to_sample_format(s, v as f32); y.into_sample(); let y: Mono = Mono::to_sample_format(s, ()); y.into_sample(); }
        2 => { let mut t = vec![s, 0.5, -0.25]; t.truncate(choose(4)); let n = t.len(); normalize(v, &mut t); ck!(t.len() == n); }
        _ => { clerp(v, 0.0, 1.0, odd(), odd()); lerp(v, odd(), 1.0, 0.0, 1.0); }
    }
    ck!(true);
}
#[no_mangle] pub extern "C" fn c43_channels() {
    let v = odd(); let w = odd();
    let mut c: StandardChannel<Stereo> = StandardChannel::new(v); c.set_process_time(us([0, 10, 21, 42][choose(4)]));
    c.process(); c.set_gain(w);
    let mut h: Arc<dyn Sound> = Arc::new(SimpleSound::new(w, v, Arc::new(StandardBlock::from_generator(Square::new(440.0)))));
    c.add_sound(&mut h); drop(h); c.process(); c.remove_sound([0, 1, usize::MAX][choose(3)]); c.process();
    ck!(true);
}
harnesses!(c43_waves, c43_waves_back, c43_sine, c43_sine_any, c43_filters, c43_modifiers, c43_players, c43_players_any, c43_functions, c43_channels);
