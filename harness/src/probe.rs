//! components that record what reaches them
use bae_rs::generators::Generator;
use bae_rs::modifiers::Modifier;
use std::cell::RefCell;
use std::rc::Rc;
#[derive(Clone)]
pub struct Log(Rc<RefCell<(usize, f32)>>);
pub fn log() -> Log { Log(Rc::new(RefCell::new((0, 0.0)))) }
impl Log {
    pub fn count(&self, x: f32) { let mut b = self.0.borrow_mut(); b.0 += 1; b.1 = x; }
    pub fn calls(&self) -> usize { self.0.borrow().0 }
    pub fn seen(&self) -> f32 { self.0.borrow().1 }
}
/// v, v + d, v + 2d, ...
pub struct Gen { pub v: f32, pub d: f32, pub log: Log }
impl Generator for Gen { fn process(&mut self) -> f32 { let y = self.v; self.v += self.d; self.log.count(y); y } }
/// k x + the previous input / 2
pub struct Mod { pub k: f32, pub last: f32, pub log: Log }
impl Modifier for Mod { fn process(&mut self, x: f32) -> f32 { let y = self.k * x + 0.5 * self.last; self.last = x; self.log.count(x); y } }
/// a block that sums what it is primed with, and yields k * sum + c * (number of the call)
pub struct Aff { pub k: f32, pub c: f32, pub input: f32, pub log: Log }
pub fn aff(k: f32, c: f32, log: &Log) -> Aff { Aff { k, c, input: 0.0, log: log.clone() } }
impl bae_rs::sounds::Block for Aff {
    fn prime_input(&mut self, x: f32) { self.input += x; }
    fn process(&mut self) -> f32 { self.log.count(self.input); let y = self.k * self.input + self.c * self.log.calls() as f32; self.input = 0.0; y }
}
/// a sound yielding v, v + d, v + 2d, ... plus its input
pub struct Snd { pub v: f32, pub d: f32, pub id: Option<usize>, pub log: Log }
impl bae_rs::sounds::Sound for Snd {
    fn toggle_pause(&mut self) {}
    fn is_paused(&self) -> bool { false }
    fn toggle_mute(&mut self) {}
    fn is_muted(&self) -> bool { false }
    fn process(&mut self, x: f32) -> f32 { self.log.count(x); let y = self.v + x; self.v += self.d; y }
    fn register(&mut self, id: usize) { self.id = Some(id); }
    fn unregister(&mut self) { self.id = None; }
    fn get_id(&self) -> Option<usize> { self.id }
}
