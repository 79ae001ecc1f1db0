use crate::sx::*;
use bae_rs::modifiers::{Delay, Modifier};
use std::time::Duration;
const SR: f64 = 48000.0;
/// n is the nearest whole number of samples to the duration (either neighbour at an exact half)
fn nearest(n: usize, ns: u64) -> bool {
    let (a, b) = (n as u64 * 1_000_000_000, ns * 48_000);
    let d = if fork(a > b) { a - b } else { b - a };
    d <= 500_000_000
}
fn count(d: &Delay) -> usize { (d.get_delay().as_secs_f64() * SR).round() as usize }
fn shifted(d: &mut Delay, n: usize, len: usize) {
    let x: Vec<f32> = (0..len).map(|_| f32_in(-1e30, 1e30)).collect();
    for i in 0..len {
        let y = d.process(x[i]); obs(y);
        ck!(y.to_bits() == if i < n { 0 } else { x[i - n].to_bits() });
    }
}
/// every duration up to 6.5 samples
#[no_mangle] pub extern "C" fn c20_short() {
    forksel(true);
    let ns = u_in(0, 135_416);
    let mut d = Delay::new(Duration::from_nanos(ns));
    let n = count(&d);
    ck!(nearest(n, ns));
    ck!((d.get_delay().as_secs_f64() - n as f64 / SR).abs() <= 1.1e-9);
    shifted(&mut d, n, 10);
    ck!(count(&d) == n);
}
/// a stretch of durations around longer delays
#[no_mangle] pub extern "C" fn c20_long() {
    forksel(true);
    let base = [1_000_000, 10_000_000, 20_833_333, 50_010_417][choose(4)];
    let ns = u_in(base, base + 30_000);
    let mut d = Delay::new(Duration::from_nanos(ns));
    let n = count(&d);
    ck!(nearest(n, ns));
    let (a, b, c) = (f32_in(-1e30, 1e30), f32_in(-1e30, 1e30), f32_in(-1e30, 1e30));
    ck!(d.process(a) == 0.0); ck!(d.process(b) == 0.0);
    for i in 0..n - 2 { ck!(d.process(i as f32).to_bits() == 0); }
    ck!(d.process(c).to_bits() == a.to_bits());
    ck!(d.process(1.0).to_bits() == b.to_bits());
    for i in 0..n - 2 { ck!(d.process(0.5).to_bits() == (i as f32).to_bits()); }
    ck!(d.process(0.5).to_bits() == c.to_bits());
    ck!(d.process(0.5) == 1.0);
    ck!(count(&d) == n);
}
/// whole seconds count too
#[no_mangle] pub extern "C" fn c20_seconds() {
    let (s, n) = [(Duration::from_secs(1), 48000), (Duration::new(1, 104_170), 48005), (Duration::from_millis(1500), 72000)][choose(3)];
    let mut d = Delay::new(s);
    ck!(count(&d) == n);
    let x = f32_in(-1e30, 1e30);
    ck!(d.process(x) == 0.0);
    for _ in 1..n { ck!(d.process(1.0) == 0.0); }
    ck!(d.process(2.0).to_bits() == x.to_bits());
    ck!(d.process(2.0) == 1.0);
}
/// a clone has the delay of the original, and silence in it; the original is untouched
#[no_mangle] pub extern "C" fn c20_clone() {
    let n = choose(5);
    let mut d = Delay::new(Duration::from_nanos([0, 20_900, 41_700, 62_500, 83_400][n]));
    let p = choose(4);
    let before: Vec<f32> = (0..p).map(|_| f32_in(-1e30, 1e30)).collect();
    for i in 0..p { d.process(before[i]); }
    let mut c = d.clone();
    ck!(count(&c) == n && count(&d) == n);
    shifted(&mut c, n, 6);
    let mut all = before.clone();
    for _ in 0..5 { all.push(f32_in(-1e30, 1e30)); }
    for i in p..p + 5 { ck!(d.process(all[i]).to_bits() == if i < n { 0 } else { all[i - n].to_bits() }); }
}
/// special values come out as they went in, in their place, and so do their neighbours
#[no_mangle] pub extern "C" fn c20_special() {
    let v = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, 1e-45, 3.4e38][choose(6)]; let n = [0usize, 1, 2, 5][choose(4)];
    let mut d = Delay::new(Duration::from_micros([0, 21, 42, 104][[0usize, 1, 2, 5].iter().position(|k| *k == n).unwrap()]));
    let at = choose(6);
    let x: Vec<f32> = (0..12).map(|i| if i == at || i == at + 1 && at % 2 == 0 { v } else { f32_in(-1.0, 1.0) }).collect();
    for i in 0..12 {
        let y = d.process(x[i]);
        if i < n { ck!(y.to_bits() == 0); } else if x[i - n].is_nan() { ck!(y.is_nan()); } else { ck!(y.to_bits() == x[i - n].to_bits()); }
    }
}
harnesses!(c20_special, c20_short, c20_long, c20_seconds, c20_clone);
