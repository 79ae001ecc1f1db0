use crate::sx::*;
use crate::probe::*;
use bae_rs::channels::{Channel, StandardChannel};
use bae_rs::sample_format::{Mono, SampleFormat, Stereo};
use bae_rs::sounds::Sound;
use std::sync::Arc;
use std::time::Duration;
/// the values a frame holds, and what one value contributes to each
trait Frame: SampleFormat { fn vals(&self) -> [f32; 2]; const W: [f64; 2]; }
impl Frame for Mono { fn vals(&self) -> [f32; 2] { [self.mono, self.mono] } const W: [f64; 2] = [1.0, 1.0]; }
impl Frame for Stereo { fn vals(&self) -> [f32; 2] { [self.left, self.right] } const W: [f64; 2] = [std::f64::consts::FRAC_1_SQRT_2, std::f64::consts::FRAC_1_SQRT_2]; }
struct Src { v: f64, d: f64, id: usize, log: Log, live: bool, t: usize }
struct Mix<SF: Frame> { c: StandardChannel<SF>, s: Vec<Src>, g: f64, len: usize }
impl<SF: Frame> Mix<SF> {
    fn new() -> Self { let g = f64_in(-2.0, 2.0); Mix { c: StandardChannel::new(g), s: Vec::new(), g, len: 480 } }
    fn add(&mut self) { let d = f32_in(-0.25, 0.25); self.add_of(d) }
    fn add_of(&mut self, d: f32) { let v = f32_in(-1.0, 1.0); self.add_with(v, d) }
    fn add_with(&mut self, v: f32, d: f32) {
        let l = log();
        let mut h: Arc<dyn Sound> = Arc::new(Snd { v, d, id: None, log: l.clone() });
        self.c.add_sound(&mut h);
        let id = h.get_id();
        ck!(id.is_some());
        let id = id.unwrap();
        for s in &self.s { ck!(s.id != id); }
        self.s.push(Src { v: v as f64, d: d as f64, id, log: l, live: true, t: 0 });
    }
    fn remove(&mut self, i: usize) { self.c.remove_sound(self.s[i].id); self.s[i].live = false; }
    fn time(&mut self, ns: u64) { self.c.set_process_time(Duration::from_nanos(ns)); self.len = (ns as f64 * 48e-6 + 1e-9) as usize; }
    fn gain(&mut self) { self.g = f64_in(-2.0, 2.0); self.c.set_gain(self.g); }
    fn process(&mut self, step: usize) {
        self.c.process();
        let o = self.c.get_output();
        ck!(o.len() == self.len);
        let mut i = 0;
        while i < self.len {
            let mut e = 0.0;
            for s in &self.s { if s.live { e += s.v + s.d * (s.t + i) as f64; } }
            let v = o[i].vals();
            obs(v[0]);
            for k in 0..2 { ck!(near(v[k] as f64, e * self.g * SF::W[k], 2e-5 + 4e-6 * self.s.len() as f64)); }
            i += step;
        }
        for s in &mut self.s { if s.live { s.t += self.len; } ck!(s.log.calls() == s.t); if s.t > 0 { ck!(s.log.seen() == 0.0); } }
    }
}
const NS: [u64; 7] = [0, 20_000, 20_834, 41_667, 62_501, 83_334, 60_000];
/// sounds added and removed in any order, two or three calls
fn run<SF: Frame>(calls: usize, ops: usize) {
    let mut m = Mix::<SF>::new();
    m.time(NS[choose(7)]);
    for _ in 0..choose(4) { m.add(); }
    for k in 0..calls {
        if k > 0 {
            for _ in 0..ops {
                match choose(5) {
                    0 => m.add(),
                    1 => { let n = m.s.len(); if n > 0 { m.remove(choose(n)); } }
                    2 => { let t = NS[choose(4)]; m.time(t) }
                    3 => m.gain(),
                    _ => {}
                }
            }
        }
        m.process(1);
    }
}
#[no_mangle] pub extern "C" fn c33_mono() { run::<Mono>(2, 2) }
#[no_mangle] pub extern "C" fn c33_stereo() { run::<Stereo>(2, 1) }
#[no_mangle] pub extern "C" fn c33_mono_deep() { run::<Mono>(3, 2) }
#[no_mangle] pub extern "C" fn c33_stereo_deep() { run::<Stereo>(3, 2) }
/// the default process time
#[no_mangle] pub extern "C" fn c33_default() {
    let mut m = Mix::<Mono>::new();
    ck!(m.c.get_output().len() == 480);
    for _ in 0..choose(2) { m.add_of(0.0); }
    m.process(53);
    m.process(97);
}
/// an id that is not there, and one removed twice
#[no_mangle] pub extern "C" fn c33_absent() {
    let mut m = Mix::<Stereo>::new();
    m.time(41_667);
    let n = choose(3);
    for _ in 0..n { m.add(); }
    let x = [1_000, usize::MAX, m.s.iter().map(|s| s.id + 1).max().unwrap_or(0)][choose(3)];
    m.c.remove_sound(x);
    if n > 0 { m.remove(0); m.c.remove_sound(m.s[0].id); }
    m.process(1);
    m.add();
    m.process(1);
}
/// a clone is a separate channel only in its gain, time and registrations: output until the next call is kept
#[no_mangle] pub extern "C" fn c33_gain() {
    let mut m = Mix::<Mono>::new();
    m.time(41_667);
    m.add();
    m.process(1);
    let before = m.c.get_output()[1].mono;
    m.gain();
    ck!(m.c.get_output()[1].mono == before);
    m.process(1);
}
/// the caller keeps the handle it registered
#[no_mangle] pub extern "C" fn c33_held() {
    let mut c = StandardChannel::<Mono>::new(1.0);
    c.set_process_time(Duration::from_nanos(41_667));
    let v = f32_in(-1.0, 1.0);
    let mut h: Arc<dyn Sound> = Arc::new(Snd { v, d: 0.0, id: None, log: log() });
    c.add_sound(&mut h);
    c.process();
    ck!(near(c.get_output()[0].mono as f64, v as f64, 1e-6));
    drop(h);
}
/// many sounds, many coming and going, long process times, many calls
#[no_mangle] pub extern "C" fn c33_far() {
    let mut m = Mix::<Mono>::new();
    match choose(4) {
        0 => { m.time(41_667); for i in 0..40 { if i % 16 == 0 { m.add_of(i as f32 / 256.0); } else { m.add_with((i % 8) as f32 / 8.0 - 0.5, (i % 3) as f32 / 64.0); } } for i in [3, 0, 39, 20] { m.remove(i); } m.process(1); m.add(); m.process(1); }
        1 => {
            m.time(20_834); m.add_of(0.125);
            for _ in 0..[70, 300][choose(2)] { m.s.truncate(1); m.add_of(0.0); m.remove(1); }
            m.add_of(0.25); m.process(1);
        }
        2 => { m.add_of(0.0); m.time([20_834_000, 100_000_000, 9_999_980][choose(3)]); m.process(101); m.time(62_501); m.process(1); }
        _ => { m.time(41_667); m.add_of(0.0); m.add_of(0.0); for _ in 0..[50, 400][choose(2)] { m.process(1); } m.remove(0); m.process(1); }
    }
}
/// gains of every order of magnitude
#[no_mangle] pub extern "C" fn c33_scales() {
    let g = [1e-12f64, -1e-8, 1e3, -1e9][choose(4)];
    let mut c: StandardChannel<Mono> = StandardChannel::new(if choose(2) == 0 { g } else { 0.5 }); c.set_gain(g);
    let x = f32_in(0.25, 1.0);
    for v in [x, 2.0].iter() { let mut h: Arc<dyn Sound> = Arc::new(Snd { v: *v, d: 0.0, id: None, log: log() }); c.add_sound(&mut h); }
    c.process(); c.process();
    let o = c.get_output(); ck!(o.len() == 480);
    for i in [0, 1, 240, 479].iter() { let y = o[*i].mono; obs(y); ck!(near(y as f64 / g, x as f64 + 2.0, 1e-5)); }
}
harnesses!(c33_scales, c33_mono, c33_stereo, c33_mono_deep, c33_stereo_deep, c33_default, c33_absent, c33_gain, c33_held, c33_far);
