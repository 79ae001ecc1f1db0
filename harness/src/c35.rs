use crate::sx::*;
use bae_rs::generators::{Generator, Noise};
use rand::RngCore;
/// The thread's random source hands out any words from here on: the words left in the block of the
/// thread-local source are found by their values and replaced by arbitrary ones.
fn arbitrary(words: usize) -> bool {
    let mut g = rand::thread_rng();
    let base = unsafe { *(&g as *const rand::rngs::ThreadRng as *const usize) } as *mut u32;
    let w = [g.next_u32(), g.next_u32(), g.next_u32(), g.next_u32()];
    for i in 0..80 {
        if (0..4).all(|k| unsafe { base.add(i + k).read_volatile() } == w[k]) {
            for k in 0..words { unsafe { base.add(i + 4 + k).write_volatile(u_in(0, 0xffff_ffff) as u32) } }
            return true;
        }
    }
    false
}
fn range(y: f32) { obs(y); ck!(y >= -1.0 && y < 1.0); }
fn new() -> Noise { match choose(2) { 0 => Noise::new(), _ => Noise::default() } }
/// any words
#[no_mangle] pub extern "C" fn c35_range() {
    let mut n = new();
    if arbitrary(8) { cover(line!()) }
    range(n.process()); range(n.process());
    let mut c = n.clone();
    range(c.process()); range(n.process());
}
/// the source's own words, over several of its blocks
#[no_mangle] pub extern "C" fn c35_blocks() {
    let mut n = new();
    let mut c = n.clone();
    for i in 0..150 { let y = if i % 3 == 2 { c.process() } else { n.process() }; ck!(y >= -1.0 && y < 1.0); }
}
harnesses!(c35_range, c35_blocks);
