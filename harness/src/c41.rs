use crate::sx::*;
use bae_rs::channels::{Channel, StandardChannel};
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sample_format::*;
use bae_rs::sounds::*;
use bae_rs::utils::*;
use bae_rs::debug::*;
use std::sync::Arc;
use std::time::Duration;
fn wav(codes: &[i16], ch: u16) -> Vec<u8> {
    let mut f: Vec<u8> = Vec::new(); let n = codes.len() as u32 * 2;
    f.extend_from_slice(b"RIFF"); f.extend_from_slice(&(n + 36).to_le_bytes()); f.extend_from_slice(b"WAVEfmt ");
    f.extend_from_slice(&16u32.to_le_bytes()); f.extend_from_slice(&1u16.to_le_bytes()); f.extend_from_slice(&ch.to_le_bytes());
    f.extend_from_slice(&48000u32.to_le_bytes()); f.extend_from_slice(&(96000 * ch as u32).to_le_bytes()); f.extend_from_slice(&(2 * ch).to_le_bytes()); f.extend_from_slice(&16u16.to_le_bytes());
    f.extend_from_slice(b"data"); f.extend_from_slice(&n.to_le_bytes());
    for c in codes { f.extend_from_slice(&c.to_le_bytes()); }
    f
}
fn player(codes: &[i16], ch: u16) -> MonoWav { let f = wav(codes, ch); let mut s = &f[..]; MonoWav::from_source(&mut s) }
fn sound(g: f64, complex: bool, b: StandardBlock) -> Arc<dyn Sound> {
    if complex {
        let mut s = ComplexSound::new(1.0, g);
        let n = s.add_block(Arc::new(b)); let o = s.get_output_gain(); s.add_connection(n, o); Arc::new(s)
    } else { Arc::new(SimpleSound::new(1.0, g, Arc::new(b))) }
}
/// the output of a channel as a file of 16-bit codes, frame after frame
fn codes(b: Vec<u8>, ch: usize) -> Vec<i16> {
    let (h, t) = match read_wav(&mut VecReader::new(b.clone())) { Ok(x) => x, Err(_) => { ck!(false); return Vec::new() } };
    ck!(h.channel_count as usize == ch); ck!(h.sampling_rate == 48000); ck!(t.len() == ch);
    let mut v = Vec::new();
    for i in 0..t[0].len() { for (k, c) in t.iter().enumerate() { let p = 44 + 2 * (ch * i + k); let e = i16::from_le_bytes([b[p], b[p + 1]]); ck!(near(c[i] as f64, e as f64 / 32767.0, 1e-6)); v.push(e); } }
    v
}
fn file(t: Vec<Vec<f32>>) -> Vec<u8> { let mut o = Vec::new(); ck!(write_wav(t, 16, &mut o, choose(2) == 1).is_ok()); o }
fn any(n: usize) -> Vec<i16> { (0..n).map(|_| i_in(-32768, 32767) as i16).collect() }
fn us(n: usize) -> Duration { Duration::from_nanos(n as u64 * 1_000_000_000 / 48_000 + 500) }
/// one player, unity gains: the file comes out as it went in, then silence; over any split into calls
#[no_mangle] pub extern "C" fn c41_copy() { copy(choose(6)) }
#[no_mangle] pub extern "C" fn c41_copy_deep() { copy(6 + choose(15)) }
fn copy(n: usize) {
    let ch = 1 + choose(2) as u16;
    let mut v: Vec<i16> = (0..n * ch as usize).map(|_| i_in(-32767, 32767) as i16).collect();
    if n > 1 && choose(2) == 1 { v[0] = -32768; }
    let mut c: StandardChannel<Mono> = StandardChannel::new(1.0);
    let mut h = sound(1.0, choose(2) == 1, StandardBlock::from_generator(player(&v, ch)));
    c.add_sound(&mut h); drop(h);
    let step = 1 + choose(4); c.set_process_time(us(step));
    let mut t: Vec<f32> = Vec::new();
    while t.len() < n + 1 { c.process(); ck!(c.get_output().len() == step); t.extend(c.get_output().iter().map(|m| m.into_sample())); }
    for x in &t { obs(*x); }
    let len = t.len();
    let o = codes(file(vec![t]), 1);
    ck!(o.len() == len);
    for i in 0..len {
        if i >= n { ck!(o[i] == 0); continue }
        let e = v[i * ch as usize];
        if e == -32768 && i == 0 { ck!(o[i] == -32767 || o[i] == e); } else { ck!(o[i] == e); }
    }
}
/// two players with gains through a channel with a gain
#[no_mangle] pub extern "C" fn c41_mix() { mix(3) }
#[no_mangle] pub extern "C" fn c41_mix_deep() { mix(12) }
fn mix(n: usize) {
    let (a, b) = (any(n), any(n));
    let (ga, gb, gc) = ([1.0, 0.25][choose(2)], [-0.5, 1.0][choose(2)], [0.5, 0.375][choose(2)]);
    let mut c: StandardChannel<Mono> = StandardChannel::new(gc); c.set_process_time(us(n + 1));
    let k = choose(2) == 1;
    for (v, g) in [(&a, ga), (&b, gb)].iter() { let mut h = sound(*g, k, StandardBlock::from_generator(player(v, 1))); c.add_sound(&mut h); }
    c.process();
    let o = codes(file(vec![c.get_output().iter().map(|m| m.into_sample()).collect()]), 1);
    ck!(o.len() == n + 1); ck!(o[n] == 0);
    for i in 0..n { let e = gc * (ga * a[i] as f64 + gb * b[i] as f64); ck!(near(o[i] as f64, e, 1.1)); }
}
/// through a chain of modifiers with exact effects
#[no_mangle] pub extern "C" fn c41_chain() {
    let n = 3; let v = any(n);
    let d = choose(3);
    let mut s = SimpleSound::new(1.0, 1.0, Arc::new(StandardBlock::from_generator(player(&v, 1))));
    s.extend_modifiers(vec![Arc::new(StandardBlock::from_modifier(Delay::new(us(d)))), Arc::new(StandardBlock::from_modifier(Gain::new(0.5))), Arc::new(StandardBlock::from_modifier(Echo::new(us(1), 0.5)))]);
    let mut h: Arc<dyn Sound> = Arc::new(s);
    let mut c: StandardChannel<Mono> = StandardChannel::new(1.0); c.set_process_time(us(2));
    c.add_sound(&mut h); drop(h);
    let mut t: Vec<f32> = Vec::new();
    for _ in 0..3 { c.process(); t.extend(c.get_output().iter().map(|m| m.into_sample())); }
    let o = codes(file(vec![t]), 1);
    ck!(o.len() == 6);
    let mut last = 0.0;
    for i in 0..6 { let x = if i >= d && i - d < n { v[i - d] as f64 } else { 0.0 }; last = 0.5 * x + 0.5 * last; ck!(near(o[i] as f64, last, 1.1)); }
}
/// stereo: a panned source, both sides of the file
#[no_mangle] pub extern "C" fn c41_stereo() {
    let n = 2; let v = any(n);
    let mut c: StandardChannel<Stereo> = StandardChannel::new([1.0, -0.5][choose(2)]); c.set_process_time(us(n));
    let g = 1.0; let mut h = sound(g, choose(2) == 1, StandardBlock::from_generator(player(&v, 1)));
    c.add_sound(&mut h); drop(h);
    c.process();
    let (mut l, mut r) = (Vec::new(), Vec::new());
    for f in c.get_output() { l.push(f.left); r.push(f.right); }
    let o = codes(file(vec![l, r]), 2);
    ck!(o.len() == 2 * n);
    for i in 0..n { ck!(o[2 * i] == o[2 * i + 1]); }
    let m = 0.5f64.sqrt();
    for i in 0..n { let a = o[2 * i] as f64; let e = v[i] as f64 * m; ck!(near(a, e, 1.1) || near(a, -0.5 * e, 1.1)); }
}
/// a long file
#[no_mangle] pub extern "C" fn c41_long() {
    let ch = 1 + choose(2); let n = [600, 5000][choose(2)];
    let mut v: Vec<i16> = (0..n * ch).map(|i| (i % 1000) as i16 * 31 - 15000).collect();
    let at = [0, n - 1, 255, 511][choose(if n == 600 { 4 } else { 2 })];
    v[at * ch] = i_in(-32767, 32767) as i16;
    let mut c: StandardChannel<Mono> = StandardChannel::new(1.0);
    let mut h = sound(1.0, choose(2) == 1, StandardBlock::from_generator(player(&v, ch as u16)));
    c.add_sound(&mut h); drop(h);
    let step = [480, 64, 2000][if n == 600 { choose(3) } else { 0 }]; c.set_process_time(us(step));
    let mut t: Vec<f32> = Vec::new();
    while t.len() < n + 1 { c.process(); ck!(c.get_output().len() == step); t.extend(c.get_output().iter().map(|m| m.into_sample())); }
    t.truncate(n + 1);
    let mut b = Vec::new(); ck!(write_wav(vec![t], 16, &mut b, false).is_ok());
    ck!(b.len() == 44 + 2 * (n + 1));
    for i in 0..n + 1 { let e = if i < n { v[i * ch] } else { 0 }; let o = i16::from_le_bytes([b[44 + 2 * i], b[45 + 2 * i]]); if i == at { obs(o as u64); } ck!(o == e); }
}
harnesses!(c41_copy, c41_copy_deep, c41_mix, c41_mix_deep, c41_chain, c41_stereo, c41_long);
