use crate::sx::*;
use bae_rs::utils::*;
use bae_rs::*;
use std::io::{Write, Error, ErrorKind};
/// a destination that takes at most `step` bytes per write (0: everything) and fails once `cap` bytes are in
struct Dst { got: Vec<u8>, step: usize, cap: usize, zero: bool, calls: usize, intr: bool }
impl Dst { fn new() -> Dst { Dst { got: Vec::new(), step: 0, cap: usize::MAX, zero: false, calls: 0, intr: false } } }
impl Write for Dst {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr && self.calls % 2 == 1 { return Err(Error::from(ErrorKind::Interrupted)); }
        let mut n = b.len();
        if self.step > 0 && n > self.step { n = self.step; }
        let room = self.cap - self.got.len();
        if n > room { n = room; }
        if n == 0 && b.len() > 0 { if self.zero { return Ok(0); } return Err(Error::from(ErrorKind::BrokenPipe)); }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
const BPS: [u16; 3] = [8, 16, 24];
fn tracks(c: usize, f: usize) -> Vec<SampleTrackT> {
    (0..c).map(|_| (0..f).map(|_| f32_in(-1.0, 1.0)).collect()).collect()
}
/// a destination that fails, or takes nothing more, after any number of bytes, in any step size
#[no_mangle] pub extern "C" fn c11_partial() { partial(1 + choose(2), choose(3), choose(2) == 0) }
fn partial(c: usize, f: usize, zero: bool) {
    let bps = BPS[choose(3)];
    let t = tracks(c, f);
    let mut full = Dst::new();
    ck!(write_wav(t.clone(), bps, &mut full, false).is_ok());
    let n = full.got.len();
    obs(n);
    let cap = choose(n + 2); let step = [0, 1, 5][choose(3)];
    let mut d = Dst::new(); d.cap = cap; d.step = step; d.zero = zero;
    let r = write_wav(t, bps, &mut d, false);
    ck!(r.is_ok() == (cap >= n));
    if cap >= n { ck!(d.got.len() == n); for i in 0..n { ck!(d.got[i] == full.got[i]); } }
    else { for i in 0..d.got.len() { ck!(d.got[i] == full.got[i]); } }
}
/// interrupted and short writes still deliver the whole file
#[no_mangle] pub extern "C" fn c11_interrupted() {
    let bps = BPS[choose(3)];
    let t = tracks(1, 2);
    let mut full = Dst::new();
    ck!(write_wav(t.clone(), bps, &mut full, false).is_ok());
    let mut d = Dst::new(); d.step = [0, 1, 2, 3, 4, 7, 8, 11, 12, 30][choose(10)]; d.intr = true;
    ck!(write_wav(t, bps, &mut d, false).is_ok());
    ck!(d.got.len() == full.got.len());
    for i in 0..d.got.len() { ck!(d.got[i] == full.got[i]); }
}
/// no channels; channels of different lengths; any unsupported bit depth
#[no_mangle] pub extern "C" fn c11_rejects() {
    let mut d = Dst::new();
    let clip = choose(2) == 0;
    match choose(3) {
        0 => { let b = u_in(0, 65535) as u16; ck!(write_wav(Vec::new(), b, &mut d, clip).is_err()); }
        1 => {
            let c = 2 + choose(2); let b = [8, 16, 24, 32][choose(4)];
            let mut l = Vec::new(); for _ in 0..c { l.push(choose(3)); }
            let mut same = true; for i in 1..c { if l[i] != l[0] { same = false; } }
            let t: Vec<SampleTrackT> = l.iter().map(|n| (0..*n).map(|_| f32_in(-2.0, 2.0)).collect()).collect();
            let ok = write_wav(t, b, &mut d, clip).is_ok();
            ck!(ok == (same && b != 32));
            if same && b != 32 { return; }
        }
        _ => {
            let b = u_in(0, 65535) as u16;
            assume(b != 8 && b != 16 && b != 24);
            let c = 1 + choose(2); let f = choose(3);
            ck!(write_wav(tracks(c, f), b, &mut d, clip).is_err());
        }
    }
    ck!(d.got.len() == 0); ck!(d.calls == 0);
}
/// clipping: any sample, infinities included, is written as its clamped value; samples inside are unchanged
#[no_mangle] pub extern "C" fn c11_clip() {
    let bps = BPS[choose(3)];
    let c = 1 + choose(2);
    let k = choose(4);
    let x = match k { 0 => f32_in(-3.4e38, 3.4e38), 1 => f32::INFINITY, 2 => f32::NEG_INFINITY, _ => f32_in(-1.0, 1.0) };
    let i = choose(2); let j = choose(c);
    let mut t = vec![vec![0.25f32, -0.75]; c];
    t[j][i] = x;
    let mut u = t.clone();
    u[j][i] = if x > 1.0 { 1.0 } else if x < -1.0 { -1.0 } else { x };
    let mut a = Dst::new(); let mut b = Dst::new();
    ck!(write_wav(t, bps, &mut a, true).is_ok());
    ck!(write_wav(u, bps, &mut b, false).is_ok());
    ck!(a.got.len() == b.got.len());
    for i in 0..a.got.len() { ck!(a.got[i] == b.got[i]); }
    let p = 44 + (i * c + j) * (bps as usize / 8);
    for q in 0..bps as usize / 8 { obs(a.got[p + q] as u64); }
    match k {
        1 => { ck!(a.got[p] == 255); }
        2 => { ck!(a.got[p] == [0, 1, 1][bps as usize / 8 - 1]); }
        _ => {}
    }
}
/// a wrapping code would be visible in the written code itself
#[no_mangle] pub extern "C" fn c11_clip_code() {
    let x = f32_in(1.0, 3.4e38);
    let up = choose(2) == 0;
    let mut a = Dst::new();
    match choose(3) {
        0 => { ck!(write_wav(vec![vec![if up { x } else { -x }]], 8, &mut a, true).is_ok()); ck!(a.got[44] == if up { 255 } else { 0 }); }
        1 => { ck!(write_wav(vec![vec![if up { x } else { -x }]], 16, &mut a, true).is_ok()); let v = i16::from_le_bytes([a.got[44], a.got[45]]); ck!(v == if up { 32767 } else { -32767 }); }
        _ => { ck!(write_wav(vec![vec![if up { x } else { -x }]], 24, &mut a, true).is_ok()); let v = i32::from_le_bytes([0, a.got[44], a.got[45], a.got[46]]) >> 8; ck!(v == if up { 8388607 } else { -8388607 }); }
    }
}
/// long files into destinations that take little at a time, or fail late
#[no_mangle] pub extern "C" fn c11_long() {
    let bps = BPS[choose(3)];
    let x = f32_in(-1.0, 1.0);
    let mut t: Vec<SampleTrackT> = (0..2).map(|c| (0..600).map(|j| ((j * 2 + c) % 256) as f32 / 128.0 - 1.0).collect()).collect();
    let q = [0, 300, 599][choose(3)];
    t[1][q] = x;
    let mut full = Dst::new();
    ck!(write_wav(t.clone(), bps, &mut full, false).is_ok());
    let n = full.got.len();
    ck!(n == 44 + 1200 * (bps as usize / 8));
    let mut d = Dst::new(); d.step = [0, 100, 256, 512, 1024][choose(5)]; d.intr = choose(2) == 0;
    d.cap = [usize::MAX, n - 1, n, 1024, 512][choose(5)];
    let cap = d.cap;
    let r = write_wav(t, bps, &mut d, false);
    ck!(r.is_ok() == (cap >= n));
    ck!(d.got.len() == if cap < n { cap } else { n });
    for i in 0..d.got.len() { ck!(d.got[i] == full.got[i]); }
}
harnesses!(c11_partial, c11_interrupted, c11_rejects, c11_clip, c11_clip_code, c11_long);
