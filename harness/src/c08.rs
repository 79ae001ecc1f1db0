use crate::sx::*;
use bae_rs::utils::*;
/// classes of 20 dB, or a factor of ten, from -LO * 20 dB up
const LO: i32 = 50;
const N: usize = 75;
fn db(k: usize) -> f64 { let l = 20.0 * (k as i32 - LO) as f64; f64_in(l, l + 20.0) }
fn p10(e: i32) -> f64 { let mut p = 1.0; for _ in 0..e.abs() { p *= 10.0; } if e < 0 { 1.0 / p } else { p } }
fn gain(k: usize) -> f64 { let e = k as i32 - LO; f64_in(p10(e), p10(e + 1)) }
#[no_mangle] pub extern "C" fn c08_db() {
    let d = db(choose(N));
    let g = db_to_linear(d); obs(g);
    ck!(g > 0.0);
    ck!(near(linear_to_db(g), d, 1e-9));
}
#[no_mangle] pub extern "C" fn c08_gain() {
    let g = gain(choose(N));
    let d = linear_to_db(g); obs(d);
    let h = db_to_linear(d);
    ck!(h - g <= 1e-9 * g && g - h <= 1e-9 * g);
}
/// raising the level by more than a billionth of a dB raises the gain, and the other way round
#[no_mangle] pub extern "C" fn c08_monotone_db() {
    let j = choose(N - 1); let k = j + choose(2);      // neighbouring classes: the rest follows by transitivity
   
    let d = db(j); let e = db(k); assume(d < e - 1e-9);
    ck!(db_to_linear(d) < db_to_linear(e));
}
#[no_mangle] pub extern "C" fn c08_monotone_gain() {
    let j = choose(N - 1); let k = j + choose(2);      // neighbouring classes: the rest follows by transitivity
   
    let g = gain(j); let h = gain(k); assume(g < h * (1.0 - 1e-9));
    ck!(linear_to_db(g) < linear_to_db(h));
}
#[no_mangle] pub extern "C" fn c08_anchor() {
    ck!(db_to_linear(0.0) == 1.0);
    ck!(linear_to_db(1.0) == 0.0);
    ck!(linear_to_db(0.0) == f64::NEG_INFINITY);
    ck!(db_to_linear(f64::NEG_INFINITY) == 0.0);
}
#[no_mangle] pub extern "C" fn c08_tenfold() {
    let k = choose(N - 1);
    let d = db(k);
    let a = db_to_linear(d); let b = db_to_linear(d + 20.0);
    ck!(b - 10.0 * a <= 1e-9 * b && 10.0 * a - b <= 1e-9 * b);
    let g = gain(k);
    ck!(near(linear_to_db(10.0 * g), linear_to_db(g) + 20.0, 1e-9));
}
harnesses!(c08_db, c08_gain, c08_monotone_db, c08_monotone_gain, c08_anchor, c08_tenfold);
