use crate::sx::*;
use bae_rs::sample_format::*;
/// every u8
#[no_mangle] pub extern "C" fn c01_u8() {
    let v = u_in(0, 255) as u8;
    let s = sample_from_u8(v);
    obs(s);
    ck!(sample_to_u8(s) == v);
    ck!(sample_from_u8_bytes([v]) == s);
    ck!(sample_to_u8_bytes(s) == [v]);
}
/// every i16
#[no_mangle] pub extern "C" fn c01_i16() {
    let v = i_in(-32768, 32767) as i16;
    let s = sample_from_i16(v);
    obs(s);
    ck!(sample_to_i16(s) == v);
    let b = v.to_le_bytes();
    ck!(sample_from_i16_bytes(b) == s);
    let o = sample_to_i16_bytes(s);
    ck!(o[0] == b[0]); ck!(o[1] == b[1]);
}
/// every i24, whatever the upper byte of the 32-bit carrier
#[no_mangle] pub extern "C" fn c01_i24() {
    let h = 1 << 23;
    let v = if choose(2) == 0 { i_in(1 - h, h - 1) as i32 } else { -h as i32 };
    let s = sample_from_i24(v);
    obs(s);
    ck!(sample_to_i24(s) == v);
    let b = v.to_le_bytes();
    ck!(sample_from_i24_bytes([b[0], b[1], b[2]]) == s);
    let o = sample_to_i24_bytes(s);
    ck!(o[0] == b[0]); ck!(o[1] == b[1]); ck!(o[2] == b[2]);
    let top = u_in(0, 255) as u32;
    let w = ((v as u32 & 0x00ff_ffff) | (top << 24)) as i32;
    ck!(sample_from_i24(w) == s);
}
harnesses!(c01_u8, c01_i16, c01_i24);
