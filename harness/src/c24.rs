use crate::sx::*;
use bae_rs::modifiers::{HighPass, LowPass, Modifier};
trait F: Modifier + Clone { fn make(f: f64, r: f64) -> Self; fn f(&self) -> f64; fn r(&self) -> f64; fn sf(&mut self, f: f64); fn sr(&mut self, r: f64); }
macro_rules! imp { ($t:ident) => { impl F for $t {
    fn make(f: f64, r: f64) -> Self { $t::new(f, r) }
    fn f(&self) -> f64 { self.get_central_frequency() }
    fn r(&self) -> f64 { self.get_resonance() }
    fn sf(&mut self, f: f64) { self.set_central_frequency(f) }
    fn sr(&mut self, r: f64) { self.set_resonance(r) }
} } }
imp!(LowPass); imp!(HighPass);
/// the limits, by class of setting: (given, expected)
fn cutoff() -> (f64, f64) { match choose(4) { 0 => { let f = f64_in(1.0, 23_999.999); (f, f) } 1 => (24_000.0, 24_000.0), 2 => (f64_in(24_000.001, 100_000.0), 24_000.0), _ => (f64::INFINITY, 24_000.0) } }
fn reson() -> (f64, f64) { match choose(5) { 0 => { let r = f64_in(1e-9, 0.999_999_999); (r, r) } 1 => (f64_in(-2.0, -1e-9), 0.0), 2 => (f64_in(1.000_000_001, 3.0), 1.0), 3 => [(f64::INFINITY, 1.0), (1.0, 1.0)][choose(2)], _ => [(f64::NEG_INFINITY, 0.0), (0.0, 0.0), (-0.0, 0.0)][choose(3)] } }
fn same<T: F>(a: &mut T, b: &mut T, n: usize) {
    for _ in 0..n { let x = f32_in(-1.0, 1.0); let (p, q) = (a.process(x), b.process(x)); ck!(near(p as f64, q as f64, 4e-6) || p.is_nan() && q.is_nan()); }
}
/// construction and getters; settings beyond the limits act as the limits
fn new<T: F>() {
    forksel(true);
    let (f, ef) = cutoff(); let (r, er) = reson();
    let mut a = T::make(f, r);
    obs(a.f()); obs(a.r());
    ck!(a.f() == ef); ck!(a.r() == er);
    let mut b = T::make(ef, er);
    same(&mut a, &mut b, 2);
}
/// any setter sequence before the first sample
fn set<T: F>(n: usize) {
    forksel(true);
    let (f, ef) = cutoff(); let (r, er) = reson();
    let mut a = T::make(f, r);
    let (mut cf, mut cr) = (ef, er);
    for _ in 0..n {
        if choose(2) == 0 { let (f, e) = cutoff(); a.sf(f); cf = e; } else { let (r, e) = reson(); a.sr(r); cr = e; }
        obs(a.f()); obs(a.r());
        ck!(a.f() == cf); ck!(a.r() == cr);
    }
    let mut b = T::make(cf, cr);
    same(&mut a, &mut b, 3);
}
/// setting what is already set, at any point, changes nothing
fn keep<T: F>() {
    forksel(true);
    let f = f64_in(20.0, 24_000.0); let r = f64_in(0.0, 1.0);
    let mut a = T::make(f, r); let mut b = T::make(f, r);
    let n = choose(4);
    same(&mut a, &mut b, n);
    match choose(3) { 0 => a.sf(f), 1 => a.sr(r), _ => { a.sr(r); a.sf(f); } }
    same(&mut a, &mut b, 3);
}
/// the order of the two setters does not matter; a detour through other settings does not either
fn detour<T: F>() {
    forksel(true);
    let f = f64_in(20.0, 24_000.0); let r = f64_in(0.0, 1.0);
    let g = f64_in(20.0, 24_000.0); let q = f64_in(0.0, 1.0);
    let mut a = T::make(g, q); let mut b = T::make(g, q);
    let n = choose(4);
    same(&mut a, &mut b, n);
    match choose(3) {
        0 => { a.sf(f); a.sr(r); b.sr(r); b.sf(f); }
        1 => { a.sf(f); b.sf(g); b.sf(f); }
        _ => { a.sr(1.0 - r); a.sr(r); b.sr(r); }
    }
    ck!(a.f() == b.f()); ck!(a.r() == b.r());
    same(&mut a, &mut b, 3);
}
/// many small steps lead where one large one does, before and between samples
fn creep<T: F>() {
    let (f, r) = ([40.0, 1_000.0, 15_000.0][choose(3)], [0.0, 0.5][choose(2)]);
    let d = [1e-4, 0.02, 0.5, 7.0][choose(4)]; let e = [0.0, 1e-5, 1e-3, -1e-3][choose(4)];
    let mut a = T::make(f, r); let mut b = T::make(f, r);
    let n = choose(3);
    same(&mut a, &mut b, n);
    let (mut g, mut q) = (f, r);
    for _ in 0..100 { g += d; q = if q + e < 0.0 { 0.0 } else { q + e }; a.sf(g); if e != 0.0 { a.sr(q); } }
    ck!(a.f() == g); ck!(a.r() == q);
    b.sr(q); b.sf(g);
    same(&mut a, &mut b, 2);
    if n == 0 { let mut a = a.clone(); let mut c = T::make(g, q); same(&mut a, &mut c, 2); }
}
/// a clone has the settings and no history
fn clone<T: F>() {
    forksel(true);
    let (f, ef) = cutoff(); let (r, er) = reson();
    let mut a = T::make(f, r);
    let n = choose(3);
    for _ in 0..n { a.process(f32_in(-1.0, 1.0)); }
    let mut c = a.clone(); let mut b = T::make(ef, er);
    ck!(c.f() == ef); ck!(c.r() == er);
    same(&mut c, &mut b, 2);
    // later settings of the clone take effect
    let g = f64_in(20.0, 24_000.0); c.sf(g); b.sf(g);
    same(&mut c, &mut b, 2);
}
#[no_mangle] pub extern "C" fn c24_lp_new() { new::<LowPass>() }
#[no_mangle] pub extern "C" fn c24_hp_new() { new::<HighPass>() }
#[no_mangle] pub extern "C" fn c24_lp_set() { set::<LowPass>(1) }
#[no_mangle] pub extern "C" fn c24_hp_set() { set::<HighPass>(1) }
#[no_mangle] pub extern "C" fn c24_lp_set_deep() { set::<LowPass>(2) }
#[no_mangle] pub extern "C" fn c24_hp_set_deep() { set::<HighPass>(2) }
#[no_mangle] pub extern "C" fn c24_lp_keep() { keep::<LowPass>() }
#[no_mangle] pub extern "C" fn c24_hp_keep() { keep::<HighPass>() }
#[no_mangle] pub extern "C" fn c24_lp_detour() { detour::<LowPass>() }
#[no_mangle] pub extern "C" fn c24_hp_detour() { detour::<HighPass>() }
#[no_mangle] pub extern "C" fn c24_lp_creep() { creep::<LowPass>() }
#[no_mangle] pub extern "C" fn c24_hp_creep() { creep::<HighPass>() }
#[no_mangle] pub extern "C" fn c24_lp_clone() { clone::<LowPass>() }
#[no_mangle] pub extern "C" fn c24_hp_clone() { clone::<HighPass>() }
harnesses!(c24_lp_new, c24_hp_new, c24_lp_set, c24_hp_set, c24_lp_set_deep, c24_hp_set_deep, c24_lp_keep, c24_hp_keep, c24_lp_detour, c24_hp_detour, c24_lp_creep, c24_hp_creep, c24_lp_clone, c24_hp_clone);
