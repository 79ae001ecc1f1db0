use crate::sx::*;
mod tool {
    #![allow(dead_code)]
    include!("/repo/utility/bin2str/src/main.rs");
    pub fn convert(mut b: &[u8]) -> std::io::Result<String> { convert_file(&mut b) }
}
/// any byte of w decimal digits
fn byte(w: usize) -> u8 { let (l, h) = [(0, 9), (10, 99), (100, 255)][w - 1]; u_in(l, h) as u8 }
/// the tool's text against the bytes and their widths
fn test(bytes: &[u8], w: &[usize], width: usize) {
    let text = match tool::convert(bytes) { Ok(t) => t, Err(_) => { ck!(false); return } };
    let t = text.as_bytes();
    let (mut i, mut n, mut col, mut commas) = (0, 0, 0, 0);
    while i < t.len() {
        let c = t[i];
        if fork(c == b' ') || fork(c == b'\t') { i += 1; col += 1; }
        else if fork(c == b'\n') { i += 1; col = 0; }
        else if fork(c == b',') { i += 1; col += 1; commas += 1; ck!(commas == n); ck!(n < bytes.len()); }
        else {
            // a number: as many digits as the byte has
            ck!(n < bytes.len() && commas == n);
            if n >= bytes.len() { return; }
            let mut v = 0u32;
            for k in 0..w[n] {
                ck!(i + k < t.len()); if i + k >= t.len() { return; }
                let d = t[i + k]; ck!(d >= b'0' && d <= b'9');
                v = v * 10 + (d.wrapping_sub(b'0')) as u32;
            }
            obs(v as u64);
            ck!(v == bytes[n] as u32);
            i += w[n]; col += w[n]; n += 1;
            if i < t.len() { let d = t[i]; ck!(!(d >= b'0' && d <= b'9')); }
        }
        ck!(col <= width);
    }
    ck!(n == bytes.len()); ck!(commas == if n == 0 { 0 } else { n - 1 });
}
/// up to three bytes, any values
#[no_mangle] pub extern "C" fn c34_short() {
    forksel(true);
    let n = choose(4);
    let w: Vec<usize> = (0..n).map(|_| 1 + choose(3)).collect();
    let b: Vec<u8> = w.iter().map(|&w| byte(w)).collect();
    test(&b, &w, 90);
}
/// every byte value on its own
#[no_mangle] pub extern "C" fn c34_each() { let v = choose(256) as u8; let w = if v < 10 { 1 } else if v < 100 { 2 } else { 3 }; test(&[v], &[w], 90); }
/// lists crossing one and more line breaks
const P: [&[usize]; 8] = [&[3], &[1], &[2], &[1, 2, 3], &[3, 1], &[3, 3, 2], &[2, 1, 1, 1], &[1, 3, 3, 3, 3, 2, 1]];
fn long(lo: usize, hi: usize, np: usize) {
    let n = lo + choose(hi - lo + 1);
    let p = P[choose(np)];
    let w: Vec<usize> = (0..n).map(|i| p[i % p.len()]).collect();
    // symbolic around the line breaks and at both ends, recorded elsewhere
    let b: Vec<u8> = (0..n).map(|i| if i == 0 || i + 1 == n || i % 15 == 14 { byte(w[i]) } else { [7, 42, 255 - i as u8 % 100][w[i] - 1] }).collect();
    test(&b, &w, 90);
}
#[no_mangle] pub extern "C" fn c34_lines() { long(13, 40, 8) }
#[no_mangle] pub extern "C" fn c34_lines_deep() { long(41, 90, 8) }
/// long files: some arbitrary bytes around the sizes buffers usually have
#[no_mangle] pub extern "C" fn c34_long() {
    let at = [256, 512, 1024, 2048][choose(4)];
    let n = at + [0, 1, 40][choose(3)];
    let w: Vec<usize> = (0..n).map(|i| [3, 1, 2, 3, 3][i * 7 / 3 % 5]).collect();
    let b: Vec<u8> = (0..n).map(|i| if i == at - 1 || i == at || i + 1 == n { byte(w[i]) } else { [(i % 10) as u8, 10 + (i % 90) as u8, 100 + (i % 156) as u8][w[i] - 1] }).collect();
    test(&b, &w, 90);
}
harnesses!(c34_short, c34_each, c34_lines, c34_lines_deep, c34_long);
