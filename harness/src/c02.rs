use crate::sx::*;
use bae_rs::sample_format::*;
const S8: f64 = 1.0 / 128.0 * 1.0001;
const S16: f64 = 1.0 / 32767.0 * 1.001;
const S24: f64 = 1.0 / 8388607.0 * 1.001;
/// every f32 in [-1,1]: error of at most one step; raw bytes are the little-endian code
#[no_mangle] pub extern "C" fn c02_step8() {
    let s = f32_in(-1.0, 1.0);
    let c = sample_to_u8(s); let r = sample_from_u8(c);
    obs(c as u64); obs(r);
    ck!(near(r as f64, s as f64, S8));
    ck!(sample_to_u8_bytes(s) == [c]);
}
#[no_mangle] pub extern "C" fn c02_step16() {
    let s = f32_in(-1.0, 1.0);
    let c = sample_to_i16(s); let r = sample_from_i16(c);
    obs(c as u16 as u64); obs(r);
    ck!(near(r as f64, s as f64, S16));
    let b = sample_to_i16_bytes(s);
    ck!(b[0] == c as u8); ck!(b[1] == (c >> 8) as u8);
}
#[no_mangle] pub extern "C" fn c02_step24() {
    let s = f32_in(-1.0, 1.0);
    let c = sample_to_i24(s); let r = sample_from_i24(c);
    obs(c as u32 as u64); obs(r);
    ck!(near(r as f64, s as f64, S24));
    let b = sample_to_i24_bytes(s);
    ck!(b[0] == c as u8); ck!(b[1] == (c >> 8) as u8); ck!(b[2] == (c >> 16) as u8);
}
/// order: every pair a <= b in [-2,2]
#[no_mangle] pub extern "C" fn c02_mono8() {
    let a = f32_in(-2.0, 2.0); let b = f32_in(-2.0, 2.0); assume(a <= b);
    ck!(sample_to_u8(a) <= sample_to_u8(b));
}
#[no_mangle] pub extern "C" fn c02_mono16() {
    let a = f32_in(-2.0, 2.0); let b = f32_in(-2.0, 2.0); assume(a <= b);
    ck!(sample_to_i16(a) <= sample_to_i16(b));
}
#[no_mangle] pub extern "C" fn c02_mono24() {
    let a = f32_in(-2.0, 2.0); let b = f32_in(-2.0, 2.0); assume(a <= b);
    ck!(sample_to_i24(a) <= sample_to_i24(b));
}
/// saturation: every finite f32 of magnitude >= 1
#[no_mangle] pub extern "C" fn c02_high() {
    let hi = [1.0, 2.0, 1e3, 1e10, 1e20, 1e38f32];
    let k = choose(5);
    let s = f32_in(hi[k], hi[k + 1]);
    ck!(sample_to_u8(s) == 255);
    ck!(sample_to_i16(s) == 32767);
    ck!(sample_to_i24(s) == 8388607);
    let t = -s;
    ck!(sample_to_u8(t) == 0);
    ck!(sample_to_i16(t) <= -32767);
    ck!(sample_to_i24(t) <= -8388607);
    ck!(sample_to_i24(t) >= -8388608);
    if k > 0 { ck!(sample_to_i16(t) == -32768); ck!(sample_to_i24(t) == -8388608); }
    ck!(sample_to_i24_bytes(s) == [0xff, 0xff, 0x7f]);
    ck!(sample_to_i16_bytes(s) == [0xff, 0x7f]);
    ck!(sample_to_u8_bytes(s) == [0xff]);
}
/// infinities and NaN
#[no_mangle] pub extern "C" fn c02_special() {
    match choose(4) {
        0 => { let s = f32::INFINITY; ck!(sample_to_u8(s) == 255); ck!(sample_to_i16(s) == 32767); ck!(sample_to_i24(s) == 8388607); }
        1 => { let s = f32::NEG_INFINITY; ck!(sample_to_u8(s) == 0); ck!(sample_to_i16(s) == -32768); ck!(sample_to_i24(s) == -8388608); }
        2 => { let s = f32::NAN; let _ = sample_to_u8(s); let _ = sample_to_i16(s); let c = sample_to_i24(s); ck!(c >= -8388608 && c <= 8388607);
               let _ = sample_to_u8_bytes(s); let _ = sample_to_i16_bytes(s); let _ = sample_to_i24_bytes(s); }
        _ => { let s = f32::MAX; ck!(sample_to_u8(s) == 255); ck!(sample_to_i16(s) == 32767); ck!(sample_to_i24(s) == 8388607);
               let s = f32::MIN; ck!(sample_to_u8(s) == 0); ck!(sample_to_i16(s) == -32768); ck!(sample_to_i24(s) == -8388608); }
    }
}
harnesses!(c02_step8, c02_step16, c02_step24, c02_mono8, c02_mono16, c02_mono24, c02_high, c02_special);
