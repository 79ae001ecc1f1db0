use crate::sx::*;
use bae_rs::*;
const B: f32 = 4.0;
const T: f64 = 2e-6;
fn m() -> Mono { Mono::from(f32_in(-B, B)) }
fn s() -> Stereo { let l = f32_in(-B, B); Stereo::from(l, f32_in(-B, B)) }
fn e(a: f32, b: f64) -> bool { near(a as f64, b, T) }
fn eqm(a: Mono, b: Mono) -> bool { a.mono == b.mono }
/// mono: every operand in [-4,4]
#[no_mangle] pub extern "C" fn c03_mono() {
    let (a, b) = (m(), m());
    let (x, y) = (a.mono as f64, b.mono as f64);
    let mut c = a;
    match choose(7) {
        0 => { ck!((-a).mono == -a.mono); }
        1 => { let r = a + b; obs(r.mono); ck!(e(r.mono, x + y)); c += b; ck!(eqm(c, r)); }
        2 => { let r = a - b; obs(r.mono); ck!(e(r.mono, x - y)); c -= b; ck!(eqm(c, r)); }
        3 => { let r = a * b; obs(r.mono); ck!(e(r.mono, x * y)); c *= b; ck!(eqm(c, r)); }
        4 => { let g = f32_in(-B, B); let r = a * g; obs(r.mono); ck!(e(r.mono, x * g as f64)); c *= g; ck!(eqm(c, r)); }
        5 => { let g = f64_in(-4.0, 4.0); let r = a * g; obs(r.mono); ck!(e(r.mono, x * g)); c *= g; ck!(eqm(c, r)); }
        _ => { let d = Mono::default(); ck!(d.mono == 0.0); ck!(eqm(Mono::new(), d)); ck!(eqm(a + d, a)); let f: f32 = a.into(); ck!(f == a.mono); }
    }
}
/// stereo: every operand in [-4,4] per channel
#[no_mangle] pub extern "C" fn c03_stereo() {
    let (a, b) = (s(), s());
    let (al, ar, bl, br) = (a.left as f64, a.right as f64, b.left as f64, b.right as f64);
    let mut c = a;
    let r; let want;
    match choose(7) {
        0 => { r = -a; c = r; want = (-al, -ar); }
        1 => { r = a + b; c += b; want = (al + bl, ar + br); }
        2 => { r = a - b; c -= b; want = (al - bl, ar - br); }
        3 => { r = a * b; c *= b; want = (al * bl, ar * br); }
        4 => { let g = f32_in(-B, B); r = a * g; c *= g; want = (al * g as f64, ar * g as f64); }
        5 => { let g = f64_in(-4.0, 4.0); r = a * g; c *= g; want = (al * g, ar * g); }
        _ => { r = a + Stereo::new(); c = a; want = (al, ar); }
    }
    obs(r.left); obs(r.right);
    ck!(e(r.left, want.0)); ck!(e(r.right, want.1));
    ck!(c.left == r.left); ck!(c.right == r.right);
}
/// operands of every order of magnitude
#[no_mangle] pub extern "C" fn c03_scales() {
    let k = choose(4); let (w, v) = [(1e-15f32, 1e-12f64), (1e15, 1e12), (1e-15, 1e30), (1e15, 1e-40)][k];
    let a = f32_in(1.0, 2.0); let b = f32_in(1.0, 2.0); let g = f64_in(1.0, 2.0);
    let (wd, n) = (w as f64, near);
    let (m, s) = (Mono::from(a * w), Stereo::from(a * w, -b * w));
    let t = 4e-6;
    let y = m * (g * v); ck!(n(y.mono as f64 / wd / v, a as f64 * g, t));
    let mut z = m; z *= g * v; ck!(z.mono == y.mono);
    let y = s * (g * v); ck!(n(y.left as f64 / wd / v, a as f64 * g, t)); ck!(n(y.right as f64 / wd / v, -(b as f64) * g, t));
    let mut z = s; z *= g * v; ck!(z.left == y.left && z.right == y.right);
    let y = m * Mono::from(b * w); ck!(n(y.mono as f64 / wd / wd, a as f64 * b as f64, t));
    let y = s * Stereo::from(b * w, a * w); ck!(n(y.left as f64 / wd / wd, a as f64 * b as f64, t)); ck!(n(y.right as f64 / wd / wd, -(a as f64) * b as f64, t));
    let y = m * (b * w); ck!(n(y.mono as f64 / wd / wd, a as f64 * b as f64, t));
    let y = s * (b * w); ck!(n(y.left as f64 / wd / wd, a as f64 * b as f64, t)); ck!(n(y.right as f64 / wd / wd, -(b as f64) * b as f64, t));
    let y = m + Mono::from(b * w); ck!(n(y.mono as f64 / wd, a as f64 + b as f64, t));
    let y = s - Stereo::from(b * w, a * w); ck!(n(y.left as f64 / wd, a as f64 - b as f64, t)); ck!(n(y.right as f64 / wd, -(b as f64) - a as f64, t));
}
harnesses!(c03_scales, c03_mono, c03_stereo);
