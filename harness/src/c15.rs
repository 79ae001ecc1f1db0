use crate::sx::*;
use crate::osc::*;
/// the first n samples at any constant frequency
fn run(k: usize, n: usize) {
    let f = freq(k);
    let mut o = Osc::new(k, f);
    for i in 0..n {
        let y = o.step(); obs(y);
        ck!(o.ok(y, i as f64 * f / SR));
    }
}
#[no_mangle] pub extern "C" fn c15_saw() { run(0, 8) }
#[no_mangle] pub extern "C" fn c15_tri() { run(1, 7) }
#[no_mangle] pub extern "C" fn c15_square() { run(2, 7) }
#[no_mangle] pub extern "C" fn c15_saw_deep() { run(0, 14) }
#[no_mangle] pub extern "C" fn c15_tri_deep() { run(1, 12) }
#[no_mangle] pub extern "C" fn c15_square_deep() { run(2, 12) }
/// many samples at a frequency in a narrow range
fn long(k: usize, n: usize) {
    let lo = [0.0, 27.5, 440.0, 1000.0, 4186.0, 11999.0, 12000.0, 23999.0][choose(8)];
    let lo = if k == 2 && lo == 0.0 { 20.0 } else { lo };
    let f = f64_in(lo, lo + 0.01);
    let mut o = Osc::new(k, f);
    for i in 0..n {
        let y = o.step();
        if i % 16 == 15 || i + 16 > n { obs(y); ck!(o.ok(y, i as f64 * f / SR)); }
    }
}
#[no_mangle] pub extern "C" fn c15_saw_long() { long(0, 120) }
#[no_mangle] pub extern "C" fn c15_tri_long() { long(1, 120) }
#[no_mangle] pub extern "C" fn c15_square_long() { long(2, 120) }
/// sample n of a sine, for every frequency in [from, 24000]: windows of 2*SW periods
fn sine(n: usize, from: f64) {
    forksel(true);
    let per = n as f64 * 24000.0 / SR; let p0 = n as f64 * from / SR;
    let w = choose(((per - p0) / (2.0 * SW)) as usize + 1);
    let c = p0 + (w as f64 + 0.5) * 2.0 * SW;
    let lo = (c - SW) * SR / n as f64; let hi = (c + SW) * SR / n as f64;
    let f = f64_in(lo, if hi < 24000.0 { hi } else { 24000.0 });
    let mut o = Osc::new(3, f);
    for _ in 0..n { o.step(); }
    forktab(true);
    let y = o.step(); obs(y);
    ck!(sine_ok(y, n as f64 * f / SR, c));
}
#[no_mangle] pub extern "C" fn c15_sine0() { let f = freq(3); let mut o = Osc::new(3, f); let y = o.step(); obs(y); ck!(near(y as f64, 0.0, TOL)); }
#[no_mangle] pub extern "C" fn c15_sine2() { sine(2, 0.0) }
#[no_mangle] pub extern "C" fn c15_sine3() { sine(3, 15000.0) }
#[no_mangle] pub extern "C" fn c15_sine5_deep() { sine(5, 0.0) }
#[no_mangle] pub extern "C" fn c15_sine8_deep() { sine(8, 0.0) }
/// the same for the sine
#[no_mangle] pub extern "C" fn c15_sine_long() {
    forksel(true);
    let lo = [0.0, 27.5, 440.0, 1000.0, 4186.0, 11999.0, 12000.0, 23999.0][choose(8)];
    let f = f64_in(lo, lo + 0.01);
    let n = [17, 60, 119][choose(3)];
    let mut o = Osc::new(3, f);
    for _ in 0..n { o.step(); }
    forktab(true);
    let c = n as f64 * (lo + 0.005) / SR;
    let y = o.step(); obs(y); ck!(sine_ok(y, n as f64 * f / SR, c));
}
harnesses!(c15_saw, c15_tri, c15_square, c15_saw_deep, c15_tri_deep, c15_square_deep, c15_saw_long, c15_tri_long, c15_square_long, c15_sine0, c15_sine2, c15_sine3, c15_sine5_deep, c15_sine8_deep, c15_sine_long);
