use crate::sx::*;
use bae_rs::utils::*;
use bae_rs::*;
use std::io::{Read, Error, ErrorKind};
/// a source that hands out at most `step` bytes per read (0: all), interrupts, and fails after `fail` bytes
struct Src { b: Vec<u8>, pos: usize, step: usize, intr: bool, calls: usize, fail: usize, err: bool }
impl Src { fn new(b: Vec<u8>) -> Src { Src { b, pos: 0, step: 0, intr: false, calls: 0, fail: usize::MAX, err: false } } }
impl Read for Src {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.intr && self.calls % 2 == 1 { return Err(Error::from(ErrorKind::Interrupted)); }
        let end = if self.fail < self.b.len() { self.fail } else { self.b.len() };
        let mut n = o.len();
        if self.step > 0 && n > self.step { n = self.step; }
        if n > end - self.pos { n = end - self.pos; }
        if n == 0 && o.len() > 0 && self.pos == self.fail && self.err { return Err(Error::from(ErrorKind::ConnectionReset)); }
        o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// A RIFF/WAVE file: fmt chunk (16, 18 or 40 bytes long), data, and optional chunks around them.
/// before: bytes of chunks between fmt and data; after: behind data
fn file(ch: u16, rate: u32, bits: u16, fmtlen: usize, before: &[u8], data: &[u8], after: &[u8]) -> Vec<u8> {
    let mut f: Vec<u8> = Vec::new();
    f.extend_from_slice(b"fmt "); f.extend_from_slice(&(fmtlen as u32).to_le_bytes());
    f.extend_from_slice(&1u16.to_le_bytes()); f.extend_from_slice(&ch.to_le_bytes()); f.extend_from_slice(&rate.to_le_bytes());
    f.extend_from_slice(&rate.wrapping_mul((ch * (bits / 8)) as u32).to_le_bytes());
    f.extend_from_slice(&(ch * (bits / 8)).to_le_bytes()); f.extend_from_slice(&bits.to_le_bytes());
    for _ in 16..fmtlen { f.push(0); }
    f.extend_from_slice(before);
    f.extend_from_slice(b"data"); f.extend_from_slice(&(data.len() as u32).to_le_bytes());
    f.extend_from_slice(data);
    if data.len() % 2 == 1 { f.push(0); }
    f.extend_from_slice(after);
    let mut r: Vec<u8> = Vec::new();
    r.extend_from_slice(b"RIFF"); r.extend_from_slice(&(f.len() as u32 + 4).to_le_bytes()); r.extend_from_slice(b"WAVE");
    r.extend_from_slice(&f);
    r
}
const INFO: &[u8] = b"LIST\x0e\x00\x00\x00INFOISFT\x02\x00\x00\x00ab";
const FACT: &[u8] = b"fact\x04\x00\x00\x00\x02\x00\x00\x00";
fn decode(b: &[u8], k: usize) -> f64 {
    match k {
        1 => (b[0] as f64 - 128.0) / 128.0,
        2 => i16::from_le_bytes([b[0], b[1]]) as f64 / 32767.0,
        _ => (i32::from_le_bytes([0, b[0], b[1], b[2]]) >> 8) as f64 / 8388607.0,
    }
}
fn verify(mut s: Src, c: usize, f: usize, k: usize, rate: u32, data: &[u8]) {
    let (h, t) = match read_wav(&mut s) { Ok(x) => x, Err(_) => { ck!(false); return } };
    ck!(h.sampling_rate == rate); ck!(h.channel_count as usize == c); ck!(h.bits_per_sample as usize == 8 * k);
    ck!(t.len() == c);
    for i in 0..c {
        ck!(t[i].len() == f);
        for j in 0..f {
            let p = (j * c + i) * k;
            obs(t[i][j]);
            ck!(near(t[i][j] as f64, decode(&data[p..p + k], k), 1e-7));
        }
    }
}
fn bytes(n: usize) -> Vec<u8> { (0..n).map(|_| u_in(0, 255) as u8).collect() }
/// every code in every position, any sampling rate
#[no_mangle] pub extern "C" fn c12_decode() {
    let k = 1 + choose(3); let c = 1 + choose(3); let f = choose(3);
    let d = bytes(c * f * k);
    let rate = u_in(0, 0xffff_ffff) as u32;
    let fmtlen = [16, 18, 40][choose(3)];
    let after: &[u8] = [&[][..], INFO, FACT][choose(3)];
    let b = file(c as u16, rate, 8 * k as u16, fmtlen, &[], &d, after);
    verify(Src::new(b), c, f, k, rate, &d);
}
#[no_mangle] pub extern "C" fn c12_decode_deep() {
    let k = 1 + choose(3); let c = 1 + choose(8); let f = choose(6);
    let d = bytes(c * f * k);
    let rate = u_in(0, 0xffff_ffff) as u32;
    let b = file(c as u16, rate, 8 * k as u16, 16, &[], &d, &[]);
    verify(Src::new(b), c, f, k, rate, &d);
}
/// reads split in any step size, with interruptions
#[no_mangle] pub extern "C" fn c12_split() {
    let k = 1 + choose(3); let c = 1 + choose(2);
    let d = bytes(c * 2 * k);
    let b = file(c as u16, 44100, 8 * k as u16, 16, &[], &d, &[]);
    let mut s = Src::new(b);
    s.step = choose(9); s.intr = choose(2) == 0;
    verify(s, c, 2, k, 44100, &d);
}
/// a chunk between the fmt and data chunks is skipped
#[no_mangle] pub extern "C" fn c12_chunk_before_data() {
    let k = 1 + choose(3); let c = 1 + choose(2);
    let d = bytes(c * 2 * k);
    let before: &[u8] = [INFO, FACT][choose(2)];
    let b = file(c as u16, 44100, 8 * k as u16, 16, before, &d, &[]);
    verify(Src::new(b), c, 2, k, 44100, &d);
}
/// a source that fails, or ends, before the end of the file: an error (file: 44 bytes of header, 8 of data)
#[no_mangle] pub extern "C" fn c12_fails() { let at = choose(52); if !in_length(at) { fails(at); } }
/// ... within the length field of a chunk
#[no_mangle] pub extern "C" fn c12_fails_in_length() { let at = choose(52); if in_length(at) { fails(at); } }
fn in_length(at: usize) -> bool { (at >= 4 && at < 8) || (at >= 16 && at < 20) || (at >= 40 && at < 44) }
fn fails(at: usize) {
    let err = choose(2) == 0;
    let d = bytes(8);
    let mut s = Src::new(file(2, 44100, 16, 16, &[], &d, &[]));
    s.fail = at; s.err = err;
    ck!(read_wav(&mut s).is_err());
}
/// any four ASCII bytes in place of RIFF or WAVE
#[no_mangle] pub extern "C" fn c12_header() {
    let d = bytes(4);
    let mut b = file(1, 44100, 16, 16, &[], &d, &[]);
    let o = [0, 8][choose(2)];
    let i = choose(4);
    let v = u_in(0, 127) as u8;
    assume(v != b[o + i]);
    b[o + i] = v;
    ck!(read_wav(&mut Src::new(b)).is_err());
}
/// other formats and bit depths are refused
#[no_mangle] pub extern "C" fn c12_format() {
    let d = bytes(8);
    let mut b = file(1, 44100, 16, 16, &[], &d, &[]);
    if choose(2) == 0 { let v = u_in(0, 65535) as u16; assume(v != 1); b[20] = v as u8; b[21] = (v >> 8) as u8; }
    else { let v = u_in(0, 65535) as u16; assume(v != 8 && v != 16 && v != 24); b[34] = v as u8; b[35] = (v >> 8) as u8; }
    ck!(read_wav(&mut Src::new(b)).is_err());
}
/// long files from sources that hand out any ordinary amount per read
#[no_mangle] pub extern "C" fn c12_long() {
    let k = 1 + choose(3); let (c, f) = [(1, 1500), (2, 400), (7, 100)][choose(3)];
    let n = c * f * k;
    let at = [0, n / 2, n - 1][choose(3)];
    let mut d: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    d[at] = u_in(0, 255) as u8;
    let mut s = Src::new(file(c as u16, 22050, 8 * k as u16, 16, &[], &d, &[]));
    s.step = [0, 1, 100, 512, 1024][choose(5)];
    let (h, t) = match read_wav(&mut s) { Ok(x) => x, Err(_) => { ck!(false); return } };
    ck!(h.sampling_rate == 22050 && h.channel_count as usize == c && t.len() == c);
    for i in 0..c {
        ck!(t[i].len() == f);
        let mut j = 0;
        while j < f {
            let p = (j * c + i) * k;
            if j == at / k / c { obs(t[i][j]); }
            ck!(near(t[i][j] as f64, decode(&d[p..p + k], k), 1e-7));
            j += if j % 64 < 2 || j + 3 > f || (j + 8 > at / k / c && j < at / k / c + 2) { 1 } else { 7 };
        }
    }
}
harnesses!(c12_decode, c12_decode_deep, c12_split, c12_chunk_before_data, c12_fails, c12_fails_in_length, c12_header, c12_format, c12_long);
