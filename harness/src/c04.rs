use crate::sx::*;
use bae_rs::*;
use std::convert::TryFrom;
const S8: f64 = 1.0 / 128.0 * 1.0001;
const S16: f64 = 1.0 / 32767.0 * 1.001;
const S24: f64 = 1.0 / 8388607.0 * 1.001;
/// every sample of magnitude up to 4
#[no_mangle] pub extern "C" fn c04_roundtrip() {
    let x = f32_in(-4.0, 4.0);
    let st = Stereo::from_sample(x);
    obs(st.left); obs(st.right);
    ck!(st.left == st.right);
    // equal power: both channels carry half of it
    ck!(near(st.left as f64 * st.left as f64, x as f64 * x as f64 * 0.5, 4e-6));
    let back = st.into_sample();
    ck!(near(back as f64, x as f64, 2e-6));
    let f: Stereo = From::from(x); ck!(f.left == st.left && f.right == st.right);
    let g: f32 = Into::into(st); ck!(g == back);
    let m = Mono::from_sample(x);
    ck!(m.mono == x); ck!(m.into_sample() == x);
    let q: Mono = From::from(x); ck!(q.mono == x);
    let g: f32 = Into::into(m); ck!(g == x);
    ck!(Stereo::num_samples() == 2); ck!(Mono::num_samples() == 1);
}
/// stereo frames of any samples in [-1,1] to code vectors and back
#[no_mangle] pub extern "C" fn c04_stereo_vec() {
    let l = f32_in(-1.0, 1.0); let r = f32_in(-1.0, 1.0);
    let st = Stereo::from(l, r);
    let (b, tol) = match choose(3) {
        0 => { let v: Vec<u8> = st.into(); ck!(v.len() == 2); ck!(v[0] == sample_to_u8(l)); ck!(v[1] == sample_to_u8(r)); (Stereo::try_from(v), S8) }
        1 => { let v: Vec<i16> = st.into(); ck!(v.len() == 2); ck!(v[0] == sample_to_i16(l)); ck!(v[1] == sample_to_i16(r)); (Stereo::try_from(v), S16) }
        _ => { let v: Vec<i32> = st.into(); ck!(v.len() == 2); ck!(v[0] == sample_to_i24(l)); ck!(v[1] == sample_to_i24(r)); (Stereo::try_from(v), S24) }
    };
    match b { Ok(b) => { obs(b.left); obs(b.right); ck!(near(b.left as f64, l as f64, tol)); ck!(near(b.right as f64, r as f64, tol)); } Err(_) => { ck!(false); } }
}
#[no_mangle] pub extern "C" fn c04_mono_vec() {
    let l = f32_in(-1.0, 1.0);
    let m = Mono::from(l);
    let (b, tol) = match choose(3) {
        0 => { let v: Vec<u8> = m.into(); ck!(v.len() == 1); ck!(v[0] == sample_to_u8(l)); (Mono::try_from(v), S8) }
        1 => { let v: Vec<i16> = m.into(); ck!(v.len() == 1); ck!(v[0] == sample_to_i16(l)); (Mono::try_from(v), S16) }
        _ => { let v: Vec<i32> = m.into(); ck!(v.len() == 1); ck!(v[0] == sample_to_i24(l)); (Mono::try_from(v), S24) }
    };
    match b { Ok(b) => { obs(b.mono); ck!(near(b.mono as f64, l as f64, tol)); } Err(_) => { ck!(false); } }
}
/// vectors of 0..=4 codes of any value: short ones rejected, extra entries ignored
#[no_mangle] pub extern "C" fn c04_length() {
    let n = choose(5);
    match choose(3) {
        0 => {
            let v: Vec<u8> = (0..n).map(|_| u_in(0, 255) as u8).collect(); let w = v.clone();
            match Mono::try_from(v.clone()) { Ok(m) => { ck!(n >= 1); if n >= 1 { ck!(m.mono == sample_from_u8(w[0])); } } Err(_) => { ck!(n < 1); } }
            match Stereo::try_from(v) { Ok(m) => { ck!(n >= 2); if n >= 2 { ck!(m.left == sample_from_u8(w[0])); ck!(m.right == sample_from_u8(w[1])); } } Err(_) => { ck!(n < 2); } }
        }
        1 => {
            let v: Vec<i16> = (0..n).map(|_| i_in(-32768, 32767) as i16).collect(); let w = v.clone();
            match Mono::try_from(v.clone()) { Ok(m) => { ck!(n >= 1); if n >= 1 { ck!(m.mono == sample_from_i16(w[0])); } } Err(_) => { ck!(n < 1); } }
            match Stereo::try_from(v) { Ok(m) => { ck!(n >= 2); if n >= 2 { ck!(m.left == sample_from_i16(w[0])); ck!(m.right == sample_from_i16(w[1])); } } Err(_) => { ck!(n < 2); } }
        }
        _ => {
            let v: Vec<i32> = (0..n).map(|_| i_in(-(1 << 23), (1 << 23) - 1) as i32).collect(); let w = v.clone();
            match Mono::try_from(v.clone()) { Ok(m) => { ck!(n >= 1); if n >= 1 { ck!(m.mono == sample_from_i24(w[0])); } } Err(_) => { ck!(n < 1); } }
            match Stereo::try_from(v) { Ok(m) => { ck!(n >= 2); if n >= 2 { ck!(m.left == sample_from_i24(w[0])); ck!(m.right == sample_from_i24(w[1])); } } Err(_) => { ck!(n < 2); } }
        }
    }
}
/// samples of every order of magnitude keep their amplitude on the way to stereo and back
#[no_mangle] pub extern "C" fn c04_scales() {
    let w = [1e-30f32, 1e-10, 1e10, 1e30][choose(4)];
    let x = f32_in(1.0, 2.0) * if choose(2) == 0 { w } else { -w };
    let s = Stereo::from_sample(x); let m = Mono::from_sample(x);
    let d = x as f64 / w as f64; obs(d);
    ck!(near(s.into_sample() as f64 / w as f64, d, 2e-6)); ck!(m.into_sample() == x && m.mono == x);
    ck!(near(s.left as f64 / w as f64, d * std::f64::consts::FRAC_1_SQRT_2, 1e-6)); ck!(s.right == s.left);
}
harnesses!(c04_scales, c04_roundtrip, c04_stereo_vec, c04_mono_vec, c04_length);
