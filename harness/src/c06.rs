use crate::sx::*;
use bae_rs::utils::*;
/// an ordered interval of width >= 1/64 with ends in [-64,64], in either direction
fn iv() -> (f64, f64) {
    let a = f64_in(-64.0, 64.0); let w = f64_in(0.015625, 64.0);
    if choose(2) == 0 { (a, a + w) } else { (a + w, a) }
}
/// end points (f64)
#[no_mangle] pub extern "C" fn c06_ends() {
    forksel(true);
    let (a, b) = iv();
    let y1 = f64_in(-16.0, 16.0); let y2 = f64_in(-16.0, 16.0);
    ck!(lerp(a, a, b, y1, y2) == y1);
    let e = lerp(b, a, b, y1, y2); obs(e);
    ck!(near(e, y2, 1e-9));
    ck!(clerp(a, a, b, y1, y2) == y1);
    ck!(near(clerp(b, a, b, y1, y2), y2, 1e-9));
}
/// on the straight line, for any x in [-256,256] (f64)
#[no_mangle] pub extern "C" fn c06_line() {
    let (a, b) = iv();
    let y1 = f64_in(-16.0, 16.0); let y2 = f64_in(-16.0, 16.0);
    let x = f64_in(-256.0, 256.0);
    let y = lerp(x, a, b, y1, y2); obs(y);
    ck!(near((y - y1) * (b - a), (y2 - y1) * (x - a), 1e-6));
}
/// inside the interval, at any fraction t of it, clamped and unclamped agree and stay between the outputs
#[no_mangle] pub extern "C" fn c06_inside() {
    forksel(true);
    let y1 = f64_in(-16.0, 16.0); let y2 = f64_in(-16.0, 16.0);
    let a = [-64.0, -1.0, 0.0, 3.0][choose(4)]; let w = [0.015625, 1.0, 20.0, -1.0, -20.0][choose(5)];
    let b = a + w;
    let x = if w > 0.0 { f64_in(a, b) } else { f64_in(b, a) };
    let y = lerp(x, a, b, y1, y2); obs(y);
    let (lo, hi) = if fork(y1 <= y2) { (y1, y2) } else { (y2, y1) };
    ck!(y >= lo - 1e-9 && y <= hi + 1e-9);
    let c = clerp(x, a, b, y1, y2); obs(c);
    ck!(c == y);
}
#[no_mangle] pub extern "C" fn c06_inside_any() {
    forksel(true);
    let (a, b) = iv();
    let x = f64_in(-128.0, 128.0);
    if a <= b { assume(x >= a && x <= b); } else { assume(x <= a && x >= b); }
    ck!(clerp(x, a, b, 1.0, 3.0) == lerp(x, a, b, 1.0, 3.0));
}
/// outside the interval the clamped form gives the nearest end's output
#[no_mangle] pub extern "C" fn c06_outside() {
    forksel(true);
    let (a, b) = iv();
    let y1 = f64_in(-16.0, 16.0); let y2 = f64_in(-16.0, 16.0);
    let x = f64_in(-256.0, 256.0);
    let rising = a <= b;
    let (lo, hi, ylo, yhi) = if rising { (a, b, y1, y2) } else { (b, a, y2, y1) };
    if choose(2) == 0 { assume(x < lo); let y = clerp(x, a, b, y1, y2); obs(y); ck!(near(y, ylo, 1e-9)); }
    else { assume(x > hi); let y = clerp(x, a, b, y1, y2); obs(y); ck!(near(y, yhi, 1e-9)); }
}
/// single precision
#[no_mangle] pub extern "C" fn c06_f32() {
    let a = f32_in(-8.0, 8.0); let w = f32_in(0.25, 8.0);
    let (a, b) = if choose(2) == 0 { (a, a + w) } else { (a + w, a) };
    let y1 = f32_in(-2.0, 2.0); let y2 = f32_in(-2.0, 2.0);
    ck!(lerp(a, a, b, y1, y2) == y1);
    ck!(near(lerp(b, a, b, y1, y2) as f64, y2 as f64, 1e-4));
    let x = f32_in(-32.0, 32.0);
    let y = lerp(x, a, b, y1, y2); obs(y);
    ck!(near(((y - y1) * (b - a)) as f64, ((y2 - y1) * (x - a)) as f64, 1e-2));
}
harnesses!(c06_ends, c06_line, c06_inside, c06_inside_any, c06_outside, c06_f32);
