//! Waveform oracles: the value at phase `ph` (in periods), case split on the segment it falls in.
use crate::sx::*;
use bae_rs::generators::*;
pub const SR: f64 = 48000.0;
pub const TOL: f64 = 1e-4;
const J: f64 = 1e-9;
pub fn saw_ok(y: f32, ph: f64) -> bool {
    let y = y as f64; let mut v = 2.0 * ph;
    while fork(v >= 1.0) { v -= 2.0; }
    near(y, v, TOL) | ((v <= -1.0 + J) & near(y, 1.0, TOL)) | ((v >= 1.0 - J) & near(y, -1.0, TOL))
}
pub fn tri_ok(y: f32, ph: f64) -> bool {
    let y = y as f64; let mut v = 4.0 * ph;
    while fork(v >= 3.0) { v -= 4.0; }
    if fork(v <= 1.0) { near(y, v, TOL) } else { near(y, 2.0 - v, TOL) }
}
pub fn square_ok(y: f32, ph: f64) -> bool { square_within(y, ph, J) }
/// with either value allowed within j of an edge
pub fn square_within(y: f32, ph: f64, j: f64) -> bool {
    let mut v = ph;
    while fork(v >= 1.0) { v -= 1.0; }
    let edge = (v <= j) | (v >= 1.0 - j) | ((v >= 0.5 - j) & (v <= 0.5 + j));
    ((y == 1.0) & ((v < 0.5) | edge)) | ((y == -1.0) & ((v >= 0.5) | edge))
}
/// half width of a sine window, in periods
pub const SW: f64 = 0.0008;
/// sine near a phase c: its tangent there, |ph-c| <= SW (error of the tangent < 1.3e-5)
pub fn sine_ok(y: f32, ph: f64, c: f64) -> bool {
    let a = 2.0 * std::f64::consts::PI * c;
    let d = 2.0 * std::f64::consts::PI * (ph - c);
    near(y as f64, a.sin() + d * a.cos(), TOL - 1.3e-5)
}
#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Saw, Tri, Square }
pub enum Osc { Saw(Sawtooth), Tri(Triangle), Square(Square), Sine(Sine) }
impl Osc {
    pub fn new(k: usize, f: f64) -> Osc { match k { 0 => Osc::Saw(Sawtooth::new(f)), 1 => Osc::Tri(Triangle::new(f)), 2 => Osc::Square(Square::new(f)), _ => Osc::Sine(Sine::new(f)) } }
    pub fn step(&mut self) -> f32 { match self { Osc::Saw(x) => x.process(), Osc::Tri(x) => x.process(), Osc::Square(x) => x.process(), Osc::Sine(x) => x.process() } }
    pub fn set(&mut self, f: f64) { match self { Osc::Saw(x) => x.set_frequency(f), Osc::Tri(x) => x.set_frequency(f), Osc::Square(x) => x.set_frequency(f), Osc::Sine(x) => x.set_frequency(f) } }
    pub fn get(&self) -> f64 { match self { Osc::Saw(x) => x.get_frequency(), Osc::Tri(x) => x.get_frequency(), Osc::Square(x) => x.get_frequency(), Osc::Sine(x) => x.get_frequency() } }
    pub fn ok(&self, y: f32, ph: f64) -> bool { match self { Osc::Saw(_) => saw_ok(y, ph), Osc::Tri(_) => tri_ok(y, ph), Osc::Square(_) => square_ok(y, ph), Osc::Sine(_) => true } }
    pub fn dup(&self) -> Osc { match self { Osc::Saw(x) => Osc::Saw(x.clone()), Osc::Tri(x) => Osc::Tri(x.clone()), Osc::Square(x) => Osc::Square(x.clone()), Osc::Sine(x) => Osc::Sine(x.clone()) } }
}
/// any frequency of the oscillator's range (the square from 0.5 Hz up)
pub fn freq(k: usize) -> f64 { f64_in(if k == 2 { 0.5 } else { 0.0 }, 24000.0) }
/// the same range, split into octaves for the square
pub fn freq_oct(k: usize) -> f64 { if k == 2 { let lo = 24000.0 / (2u64 << choose(15)) as f64; f64_in(lo, 2.0 * lo) } else { freq(k) } }
/// the same range in four parts
pub fn freq_part(k: usize) -> f64 { if k == 2 { let lo = 24000.0 / (16u64 << (4 * choose(4))) as f64; f64_in(lo, 16.0 * lo) } else { freq(k) } }
