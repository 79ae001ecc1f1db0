use crate::sx::*;
use crate::osc::*;
/// any retuning sequence of n samples
fn run(k: usize, n: usize) {
    let mut o = Osc::new(k, freq(k));
    for i in 0..n {
        let y = o.step() as f64;
        obs(y);
        ck!(y >= -1.0 && y <= 1.0);
        if k == 2 { ck!(y == 1.0 || y == -1.0); }
        if i + 1 < n { o.set(freq(k)); }
    }
}
#[no_mangle] pub extern "C" fn c14_saw() { run(0, 5) }
#[no_mangle] pub extern "C" fn c14_tri() { run(1, 5) }
#[no_mangle] pub extern "C" fn c14_square() { run(2, 4) }
#[no_mangle] pub extern "C" fn c14_saw_deep() { run(0, 8) }
#[no_mangle] pub extern "C" fn c14_tri_deep() { run(1, 8) }
#[no_mangle] pub extern "C" fn c14_square_deep() { run(2, 6) }
/// every table position: two tunings place the phase anywhere in the table
#[no_mangle] pub extern "C" fn c14_sine() {
    forksel(true);
    let w = choose(240);
    let f = freq(3); let g = freq(3);
    let s = f + g;
    assume(s >= 200.0 * w as f64 && s <= 200.0 * w as f64 + 200.0);
    let mut o = Osc::new(3, f);
    ck!(o.step() == 0.0);
    o.set(g); o.step();
    o.set(freq(3));
    forktab(true);
    let y = o.step() as f64; obs(y);
    ck!(y >= -1.0 && y <= 1.0);
}
/// around the end of the table: the phase wraps or stops just short of it
#[no_mangle] pub extern "C" fn c14_sine_wrap() {
    forksel(true);
    let mut o = Osc::new(3, 24000.0);
    ck!(o.step() == 0.0);
    let e = choose(8);
    let f = f64_in(23800.0 + e as f64 * 25.0, 23825.0 + e as f64 * 25.0);
    let g = f64_in(0.0, 200.0);
    o.set(f); o.step();
    o.set(g); o.step();
    o.set(freq(3));
    forktab(true);
    let y = o.step() as f64; obs(y); ck!(y >= -1.0 && y <= 1.0);
}
harnesses!(c14_saw, c14_tri, c14_square, c14_saw_deep, c14_tri_deep, c14_square_deep, c14_sine, c14_sine_wrap);
