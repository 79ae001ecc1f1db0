use crate::sx::*;
use bae_rs::debug::*;
use std::io::Read;
const SENT: u8 = 0xA5;
/// up to 5 stored bytes of any value, read through buffers of any sizes in 0..=6, up to 7 reads
#[no_mangle] pub extern "C" fn c13_read() { run(5, 5, 4) }
#[no_mangle] pub extern "C" fn c13_read_deep() { run(8, 9, 5) }
fn run(maxlen: usize, maxbuf: usize, reads: usize) {
    let n = choose(maxlen + 1);
    let mut data = Vec::new();
    for _ in 0..n { data.push(u_in(0, 255) as u8); }
    let mut r = VecReader::new(data.clone());
    let mut pos = 0;
    for _ in 0..reads {
        let k = choose(maxbuf + 1);
        let mut buf = vec![SENT; k];
        let got = match r.read(&mut buf) { Ok(g) => g, Err(_) => { ck!(false); return } };
        let want = if n - pos < k { n - pos } else { k };
        obs(got);
        ck!(got == want);
        for i in 0..k { if i < want { ck!(buf[i] == data[pos + i]); obs(buf[i] as u64); } else { ck!(buf[i] == SENT); } }
        pos += want;
    }
    // whatever is left comes out exactly once, then end of data for ever
    let mut rest = Vec::new();
    match r.read_to_end(&mut rest) { Ok(g) => { ck!(g == n - pos); } Err(_) => { ck!(false); } }
    ck!(rest.len() == n - pos);
    for i in 0..rest.len() { ck!(rest[i] == data[pos + i]); }
    for k in [3usize, 0, 1] { let mut buf = vec![SENT; k]; ck!(matches!(r.read(&mut buf), Ok(0))); for b in &buf { ck!(*b == SENT); } }
}
/// read_exact and bytes() are built on read: long data across std's adapters
#[no_mangle] pub extern "C" fn c13_exact() {
    let n = choose(7); let k = choose(8);
    let mut data = Vec::new();
    for _ in 0..n { data.push(u_in(0, 255) as u8); }
    let mut r = VecReader::new(data.clone());
    let mut buf = vec![0u8; k];
    let ok = r.read_exact(&mut buf).is_ok();
    ck!(ok == (k <= n));
    if ok { for i in 0..k { ck!(buf[i] == data[i]); obs(buf[i] as u64); } }
}
/// f32 comparison for any finite values and tolerance
#[no_mangle] pub extern "C" fn c13_eq_f32() {
    let a = f32_in(-3.4e38, 3.4e38); let b = f32_in(-3.4e38, 3.4e38); let e = f32_in(-1.0, 3.4e38);
    let r = float_equal(a, b, e, f32::abs); obs(r as u64);
    let d = (a - b).abs();
    ck!(r == (d < e));
    ck!(float_equal(b, a, e, f32::abs) == r);
}
#[no_mangle] pub extern "C" fn c13_eq_f64() {
    let a = f64_in(-1e300, 1e300); let b = f64_in(-1e300, 1e300); let e = f64_in(-1.0, 1e300);
    let r = float_equal(a, b, e, f64::abs); obs(r as u64);
    let d = (a - b).abs();
    ck!(r == (d < e));
    ck!(float_equal(b, a, e, f64::abs) == r);
}
/// strict at the tolerance itself, false for NaN
#[no_mangle] pub extern "C" fn c13_strict() {
    let a = f64_in(-1e6, 1e6); let b = f64_in(-1e6, 1e6);
    let d = (a - b).abs();
    ck!(!float_equal(a, b, d, f64::abs));
    ck!(!float_equal(a, a, 0.0, f64::abs));
    ck!(float_equal(a, a, 1e-300, f64::abs));
    ck!(!float_equal(f64::NAN, a, 1e300, f64::abs));
    ck!(!float_equal(a, f64::NAN, 1e300, f64::abs));
}
/// a long source through buffers of ordinary sizes
#[no_mangle] pub extern "C" fn c13_long() {
    let n = 70_000;
    let at = [0, 255, 256, 4095, 8191, 65_535, 65_536, n - 1][choose(8)];
    let x = u_in(0, 255) as u8;
    let mut data: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    data[at] = x;
    let want = |i: usize| if i == at { x } else { (i % 251) as u8 };
    let size = [1, 16, 512, 4096, 8192, 65_536, 70_000, 100_000][choose(8)];
    let mut r = VecReader::new(data);
    let mut pos = 0;
    if size == 1 {
        let mut buf = [0u8; 1];
        for _ in 0..n { ck!(matches!(r.read(&mut buf), Ok(1))); ck!(buf[0] == want(pos)); pos += 1; }
    } else {
        let mut buf = vec![SENT; size];
        loop {
            let got = match r.read(&mut buf) { Ok(g) => g, Err(_) => { ck!(false); return } };
            let w = if n - pos < size { n - pos } else { size };
            ck!(got == w);
            if got == 0 { break; }
            let mut i = 0;
            while i < w { ck!(buf[i] == want(pos + i)); i += if i < 3 || i + 3 > w || pos + i + 17 > at && pos + i < at + 3 { 1 } else { 13 }; }
            pos += w;
        }
    }
    obs(pos);
    ck!(pos == n);
    let mut buf = [SENT; 3]; ck!(matches!(r.read(&mut buf), Ok(0))); ck!(buf == [SENT; 3]);
}
harnesses!(c13_read, c13_read_deep, c13_exact, c13_eq_f32, c13_eq_f64, c13_strict, c13_long);
