use crate::sx::*;
use bae_rs::*;
fn p64(s: f32, g: f64) -> (f64, f64) { let r: Stereo = Panner::<f64>::to_sample_format(s, g); (r.left as f64, r.right as f64) }
fn p32(s: f32, g: f32) -> (f64, f64) { let r: Stereo = Panner::<f32>::to_sample_format(s, g); (r.left as f64, r.right as f64) }
const C3: f64 = 0.7079457843841379; // -3 dB
const FAR: f64 = 1e-6; // -120 dB
const T: f64 = 1e-6;
/// the three anchor positions, any sample in [-1,1]
#[no_mangle] pub extern "C" fn c05_anchor() {
    let s = f32_in(-1.0, 1.0); let x = s as f64;
    let single = choose(2) == 0;
    let p = |g: f64| if single { p32(s, g as f32) } else { p64(s, g) };
    let (l, r) = p(-1.0); ck!(near(l, x, T)); ck!(near(r, x * FAR, 1e-9));
    let (l, r) = p(1.0); ck!(near(r, x, T)); ck!(near(l, x * FAR, 1e-9));
    let (l, r) = p(0.0); obs(l); ck!(near(l, x * C3, T)); ck!(near(r, x * C3, T));
    let (l, r) = p(-0.0); ck!(near(l, x * C3, T)); ck!(near(r, x * C3, T));
}
fn pos(k: usize) -> f64 { if k == 0 { f64_in(-1.0, 0.0) } else { f64_in(0.0, 1.0) } }
/// moving right (any two positions of [-1,1]) never raises left nor lowers right
#[no_mangle] pub extern "C" fn c05_monotone() {
    let g = pos(choose(2)); let h = pos(choose(2)); assume(g <= h);
    let (l1, r1) = p64(1.0, g); let (l2, r2) = p64(1.0, h);
    obs(l1); obs(r2);
    ck!(l2 <= l1 + 2e-7); ck!(r2 >= r1 - 2e-7);
}
/// strictly favours the side panned to
#[no_mangle] pub extern "C" fn c05_side() {
    let g = pos(choose(2));
    let (l, r) = p64(1.0, g);
    if g < -0.01 { ck!(l > C3 && r < C3); }
    if g > 0.01 { ck!(r > C3 && l < C3); }
    ck!(l >= FAR * 0.999 && l <= 1.000001 && r >= FAR * 0.999 && r <= 1.000001);
}
#[no_mangle] pub extern "C" fn c05_mirror() {
    let s = f32_in(-1.0, 1.0);
    let g = pos(choose(2));
    let (l1, r1) = p64(s, g); let (l2, r2) = p64(s, -g);
    ck!(near(l1, r2, T)); ck!(near(r1, l2, T));
    let (l3, r3) = p64(1.0, g);
    ck!(near(l1, l3 * s as f64, T)); ck!(near(r1, r3 * s as f64, T));
}
/// both precisions
#[no_mangle] pub extern "C" fn c05_precision() {
    let g = if choose(2) == 0 { f32_in(-1.0, 0.0) } else { f32_in(0.0, 1.0) };
    let s = f32_in(-1.0, 1.0);
    let (l1, r1) = p32(s, g); let (l2, r2) = p64(s, g as f64);
    ck!(near(l1, l2, T)); ck!(near(r1, r2, T));
}
/// outside [-1,1]
#[no_mangle] pub extern "C" fn c05_outside() {
    let s = f32_in(-1.0, 1.0);
    let g = f64_in(1.000000001, 1e6);
    let sg = if choose(2) == 0 { 1.0 } else { -1.0 };
    let (l1, r1) = p64(s, g * sg); let (l2, r2) = p64(s, sg);
    let (tl, tr) = if sg > 0.0 { (1e-9, 2e-7) } else { (2e-7, 1e-9) };
    ck!(near(l1, l2, tl)); ck!(near(r1, r2, tr));
    let h = f32_in(1.0000002, 1e6);
    let (l1, r1) = p32(s, h * sg as f32);
    let (tl, tr) = if sg > 0.0 { (1e-9, 2e-7) } else { (2e-7, 1e-9) };
    ck!(near(l1, l2, tl)); ck!(near(r1, r2, tr));
}
#[no_mangle] pub extern "C" fn c05_mono() {
    let s = f32_in(-4.0, 4.0);
    let g = f64_in(-2.0, 2.0);
    let a: Mono = Panner::<f64>::to_sample_format(s, g); ck!(a.mono == s);
    let a: Mono = Panner::<f32>::to_sample_format(s, g as f32); ck!(a.mono == s);
    // bit for bit, special values too
    for v in [0.0f32, -0.0, f32::INFINITY, f32::NEG_INFINITY, 1e-45, 3e38, f32::NAN].iter() {
        let a: Mono = Panner::<f64>::to_sample_format(*v, 0.5); let b: Mono = Panner::<f32>::to_sample_format(*v, -7.0);
        if v.is_nan() { ck!(a.mono.is_nan() && b.mono.is_nan()); } else { ck!(a.mono.to_bits() == v.to_bits() && b.mono.to_bits() == v.to_bits()); }
    }
}
/// samples of every order of magnitude, and the arithmetic of panning does not depend on them
#[no_mangle] pub extern "C" fn c05_scales() {
    let w = [1e-30f32, 1e-10, 1e10, 1e30][choose(4)];
    let x = f32_in(1.0, 2.0); let g = [-1.0, -0.5, 0.0, 0.25, 1.0][choose(5)];
    let (l, r) = p64(x * w, g); let (m, q) = p32(x * -w, g as f32); let (a, b) = p64(1.0, g);
    obs(l / w as f64); obs(r / w as f64);
    ck!(near(l / w as f64, a * x as f64, 1e-6)); ck!(near(r / w as f64, b * x as f64, 1e-6));
    ck!(near(m / w as f64, a * -x as f64, 1e-6)); ck!(near(q / w as f64, b * -x as f64, 1e-6));
    // the far side keeps its share as well
    ck!(near(l / w as f64 / a, x as f64, 1e-5)); ck!(near(r / w as f64 / b, x as f64, 1e-5));
}
harnesses!(c05_scales, c05_anchor, c05_monotone, c05_side, c05_mirror, c05_precision, c05_outside, c05_mono);
