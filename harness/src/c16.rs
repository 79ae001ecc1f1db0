use crate::sx::*;
use crate::osc::*;
/// n samples, retuned to any frequency before each: the waveform at the accumulated phase
fn run(k: usize, n: usize) {
    if k >= 1 { forksel(true); }
    let mut o = Osc::new(k, 1000.0);
    let mut ph = 0.0;
    for i in 0..n {
        let f = freq_part(k);
        o.set(f);
        if k != 2 { ck!(near(o.get(), f, 1e-6)); }
        let y = o.step(); obs(y);
        if k != 2 { ck!(near(o.get(), f, 1e-6)); }
        ck!(o.ok(y, ph));
        let _ = i;
        ph += f / SR;
    }
}
#[no_mangle] pub extern "C" fn c16_saw() { run(0, 5) }
#[no_mangle] pub extern "C" fn c16_tri() { run(1, 4) }
#[no_mangle] pub extern "C" fn c16_square() { run(2, 3) }
#[no_mangle] pub extern "C" fn c16_saw_deep() { run(0, 8) }
#[no_mangle] pub extern "C" fn c16_tri_deep() { run(1, 5) }
/// the constructor's frequency is read back, also after samples at it
#[no_mangle] pub extern "C" fn c16_get() {
    let k = choose(4);
    let f = freq_oct(k);
    let mut o = Osc::new(k, f);
    ck!(near(o.get(), f, 1e-6));
    for _ in 0..3 { let y = o.step(); if k != 3 { obs(y); } ck!(near(o.get(), f, 1e-6)); }
    o.set(freq(k));
    let h = freq_oct(k);
    o.set(h); ck!(near(o.get(), h, 1e-6));
    let y = o.step(); if k != 3 { obs(y); }
    ck!(near(o.get(), h, 1e-6));
}
/// a sine retuned twice: windows of the accumulated phase
#[no_mangle] pub extern "C" fn c16_sine() {
    forksel(true);
    let w = choose(626);
    let c = (w as f64 + 0.5) * 2.0 * SW;
    let f = freq(3); let g = freq(3);
    let s = f + g;
    assume(s >= (c - SW) * SR && s <= (c + SW) * SR);
    let mut o = Osc::new(3, freq(3));
    o.set(f); ck!(near(o.get(), f, 1e-6)); o.step(); ck!(near(o.get(), f, 1e-6));
    o.set(g); ck!(near(o.get(), g, 1e-6)); o.step(); ck!(near(o.get(), g, 1e-6));
    o.set(freq(3));
    forktab(true);
    let y = o.step(); obs(y);
    ck!(sine_ok(y, s / SR, c));
}
/// a square retuned in any phase of its period reached by three samples at one frequency
#[no_mangle] pub extern "C" fn c16_square_steps() {
    forksel(true);
    let f = freq_part(2); let g = freq_part(2);
    let mut o = Osc::new(2, f);
    let n = 1 + choose(3);
    for _ in 0..n { o.step(); }
    o.set(g);
    let y = o.step(); obs(y);
    ck!(o.ok(y, n as f64 * f / SR));
    let y = o.step(); obs(y);
    ck!(o.ok(y, (n as f64 * f + g) / SR));
}
/// retuned after a second of samples at another frequency
#[no_mangle] pub extern "C" fn c16_far() {
    forksel(true);
    let k = choose(3); let f0 = [440.0, 0.37, 12345.6, 23999.0][choose(4)]; let n = [4096, 48_000][choose(2)];
    let mut o = Osc::new(k, f0);
    for _ in 0..n { let y = o.step() as f64; ck!(y >= -1.0 && y <= 1.0); }
    let f = freq_oct(k);
    o.set(f); if k != 2 { ck!(near(o.get(), f, 1e-6)); }
    let ph = n as f64 * f0 / SR; let ph = ph - ph.floor();
    let ok = |o: &Osc, y: f32, p: f64| if k == 2 { square_within(y, p, 1e-6) } else { o.ok(y, p) };
    let y = o.step(); obs(y); ck!(ok(&o, y, ph));
    let y = o.step(); obs(y); ck!(ok(&o, y, ph + f / SR));
}
harnesses!(c16_saw, c16_tri, c16_square, c16_saw_deep, c16_tri_deep, c16_get, c16_sine, c16_square_steps, c16_far);
