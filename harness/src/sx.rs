//! Primitives shared by the symbolic run (externs are interpreted by the engine) and the native replay.
#![allow(dead_code)]
extern "C" {
    fn sx_f64(lo: f64, hi: f64) -> f64;
    fn sx_f32(lo: f32, hi: f32) -> f32;
    fn sx_u64(lo: u64, hi: u64) -> u64;
    fn sx_i64(lo: i64, hi: i64) -> i64;
    fn sx_choose(n: u64) -> u64;
    fn sx_split(v: u64) -> u64;
    fn sx_fork(c: i32) -> i32;
    fn sx_forksel(on: i32);
    fn sx_forktab(on: i32);
    fn sx_assume(c: i32);
    fn sx_check(c: i32, id: u32);
    fn sx_cover(id: u32);
    fn sx_heap() -> u64;
    fn sx_obs_f64(v: f64);
    fn sx_obs_f32(v: f32);
    fn sx_obs_u64(v: u64);
}
/// any f64 in [lo, hi]
pub fn f64_in(lo: f64, hi: f64) -> f64 { unsafe { sx_f64(lo, hi) } }
pub fn f32_in(lo: f32, hi: f32) -> f32 { unsafe { sx_f32(lo, hi) } }
pub fn u_in(lo: u64, hi: u64) -> u64 { unsafe { sx_u64(lo, hi) } }
pub fn i_in(lo: i64, hi: i64) -> i64 { unsafe { sx_i64(lo, hi) } }
/// case split: one path per value 0..n
pub fn choose(n: usize) -> usize { unsafe { sx_choose(n as u64) as usize } }
/// case split over every feasible value of an integer
pub fn split(v: u64) -> u64 { unsafe { sx_split(v) } }
/// case split on a condition
pub fn fork(c: bool) -> bool { unsafe { sx_fork(c as i32) != 0 } }
pub fn forksel(on: bool) { unsafe { sx_forksel(on as i32) } }
/// case split on every index into a constant table
pub fn forktab(on: bool) { unsafe { sx_forktab(on as i32) } }
pub fn assume(c: bool) { unsafe { sx_assume(c as i32) } }
pub fn check(c: bool, id: u32) { unsafe { sx_check(c as i32, id) } }
pub fn cover(id: u32) { unsafe { sx_cover(id) } }
/// bytes allocated and not yet freed
pub fn heap() -> u64 { unsafe { sx_heap() } }
pub trait Obs { fn obs(self); }
impl Obs for f64 { fn obs(self) { unsafe { sx_obs_f64(self) } } }
impl Obs for f32 { fn obs(self) { unsafe { sx_obs_f32(self) } } }
impl Obs for u64 { fn obs(self) { unsafe { sx_obs_u64(self) } } }
impl Obs for usize { fn obs(self) { unsafe { sx_obs_u64(self as u64) } } }
pub fn obs<T: Obs>(v: T) { v.obs() }
#[inline(always)]
pub fn near(a: f64, b: f64, tol: f64) -> bool { let d = a - b; d <= tol && d >= -tol }
/// the assertion: must hold for every input of the path
macro_rules! ck { ($c:expr) => { crate::sx::check($c, line!()) }; }
macro_rules! harnesses { ($($n:ident),* $(,)?) => { pub const LIST: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n as extern "C" fn())),*]; } }
