//! Native interpreter of the harness primitives: replays a concrete input vector against the real code.
#[macro_use]
#[path = "../../harness/src/sx.rs"] pub mod sx;
#[cfg(any(feature = "c14", feature = "c15", feature = "c16", feature = "c17"))] #[path = "../../harness/src/osc.rs"] pub mod osc;
#[cfg(any(feature = "c29", feature = "c30", feature = "c31", feature = "c32", feature = "c33", feature = "c39", feature = "c40", feature = "c41", feature = "c42", feature = "c44", feature = "c45"))] #[path = "../../harness/src/probe.rs"] pub mod probe;
#[cfg(feature = "c01")] #[path = "../../harness/src/c01.rs"] pub mod c01;
#[cfg(feature = "c02")] #[path = "../../harness/src/c02.rs"] pub mod c02;
#[cfg(feature = "c03")] #[path = "../../harness/src/c03.rs"] pub mod c03;
#[cfg(feature = "c04")] #[path = "../../harness/src/c04.rs"] pub mod c04;
#[cfg(feature = "c05")] #[path = "../../harness/src/c05.rs"] pub mod c05;
#[cfg(feature = "c06")] #[path = "../../harness/src/c06.rs"] pub mod c06;
#[cfg(feature = "c07")] #[path = "../../harness/src/c07.rs"] pub mod c07;
#[cfg(feature = "c08")] #[path = "../../harness/src/c08.rs"] pub mod c08;
#[cfg(feature = "c09")] #[path = "../../harness/src/c09.rs"] pub mod c09;
#[cfg(feature = "c10")] #[path = "../../harness/src/c10.rs"] pub mod c10;
#[cfg(feature = "c11")] #[path = "../../harness/src/c11.rs"] pub mod c11;
#[cfg(feature = "c12")] #[path = "../../harness/src/c12.rs"] pub mod c12;
#[cfg(feature = "c13")] #[path = "../../harness/src/c13.rs"] pub mod c13;
#[cfg(feature = "c14")] #[path = "../../harness/src/c14.rs"] pub mod c14;
#[cfg(feature = "c15")] #[path = "../../harness/src/c15.rs"] pub mod c15;
#[cfg(feature = "c16")] #[path = "../../harness/src/c16.rs"] pub mod c16;
#[cfg(feature = "c17")] #[path = "../../harness/src/c17.rs"] pub mod c17;
#[cfg(feature = "c18")] #[path = "../../harness/src/c18.rs"] pub mod c18;
#[cfg(feature = "c19")] #[path = "../../harness/src/c19.rs"] pub mod c19;
#[cfg(feature = "c20")] #[path = "../../harness/src/c20.rs"] pub mod c20;
#[cfg(feature = "c21")] #[path = "../../harness/src/c21.rs"] pub mod c21;
#[cfg(feature = "c22")] #[path = "../../harness/src/c22.rs"] pub mod c22;
#[cfg(feature = "c23")] #[path = "../../harness/src/c23.rs"] pub mod c23;
#[cfg(feature = "c24")] #[path = "../../harness/src/c24.rs"] pub mod c24;
#[cfg(feature = "c25")] #[path = "../../harness/src/c25.rs"] pub mod c25;
#[cfg(feature = "c26")] #[path = "../../harness/src/c26.rs"] pub mod c26;
#[cfg(feature = "c27")] #[path = "../../harness/src/c27.rs"] pub mod c27;
#[cfg(feature = "c28")] #[path = "../../harness/src/c28.rs"] pub mod c28;
#[cfg(feature = "c29")] #[path = "../../harness/src/c29.rs"] pub mod c29;
#[cfg(feature = "c30")] #[path = "../../harness/src/c30.rs"] pub mod c30;
#[cfg(feature = "c31")] #[path = "../../harness/src/c31.rs"] pub mod c31;
#[cfg(feature = "c32")] #[path = "../../harness/src/c32.rs"] pub mod c32;
#[cfg(feature = "c33")] #[path = "../../harness/src/c33.rs"] pub mod c33;
#[cfg(feature = "c34")] #[path = "../../harness/src/c34.rs"] pub mod c34;
#[cfg(feature = "c35")] #[path = "../../harness/src/c35.rs"] pub mod c35;
#[cfg(feature = "c36")] #[path = "../../harness/src/c36.rs"] pub mod c36;
#[cfg(feature = "c42")] #[path = "../../harness/src/c42.rs"] pub mod c42;
#[cfg(feature = "c45")] #[path = "../../harness/src/c45.rs"] pub mod c45;
#[cfg(feature = "c44")] #[path = "../../harness/src/c44.rs"] pub mod c44;
#[cfg(feature = "c43")] #[path = "../../harness/src/c43.rs"] pub mod c43;
#[cfg(feature = "c41")] #[path = "../../harness/src/c41.rs"] pub mod c41;
#[cfg(feature = "c40")] #[path = "../../harness/src/c40.rs"] pub mod c40;
#[cfg(feature = "c39")] #[path = "../../harness/src/c39.rs"] pub mod c39;

use std::cell::RefCell;
use std::io::Write;
thread_local! { static IN: RefCell<(Vec<u64>, usize)> = RefCell::new((Vec::new(), 0)); }
fn next() -> Option<u64> { IN.with(|c| { let mut c = c.borrow_mut(); let i = c.1; c.1 += 1; c.0.get(i).copied() }) }
fn say(s: String) { let o = std::io::stdout(); let mut o = o.lock(); let _ = writeln!(o, "{}", s); let _ = o.flush(); }
fn bad() -> ! { say("ASSUME".into()); std::process::exit(0) }
/// counts the bytes allocated and not yet freed
struct Count;
static LIVE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn live(n: usize, up: bool) { use std::sync::atomic::Ordering::Relaxed; if up { LIVE.fetch_add(n as u64, Relaxed); } else { LIVE.fetch_sub(n as u64, Relaxed); } }
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { live(l.size(), true); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { live(l.size(), true); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { live(l.size(), false); std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { live(n, true); live(l.size(), false); std::alloc::System.realloc(p, l, n) }
}
#[global_allocator] static ALLOC: Count = Count;
#[no_mangle] extern "C" fn sx_heap() -> u64 { LIVE.load(std::sync::atomic::Ordering::Relaxed) }
#[no_mangle] extern "C" fn sx_f64(lo: f64, hi: f64) -> f64 { match next() { Some(b) => { let v = f64::from_bits(b); if !(v >= lo && v <= hi) { bad() } v } None => lo } }
#[no_mangle] extern "C" fn sx_f32(lo: f32, hi: f32) -> f32 { match next() { Some(b) => { let v = f32::from_bits(b as u32); if !(v >= lo && v <= hi) { bad() } v } None => lo } }
#[no_mangle] extern "C" fn sx_u64(lo: u64, hi: u64) -> u64 { match next() { Some(v) => { if !(v >= lo && v <= hi) { bad() } v } None => lo } }
#[no_mangle] extern "C" fn sx_i64(lo: i64, hi: i64) -> i64 { match next() { Some(v) => { let v = v as i64; if !(v >= lo && v <= hi) { bad() } v } None => lo } }
#[no_mangle] extern "C" fn sx_choose(n: u64) -> u64 { match next() { Some(v) => { if v >= n { bad() } v } None => 0 } }
#[no_mangle] extern "C" fn sx_split(v: u64) -> u64 { v }
#[no_mangle] extern "C" fn sx_fork(c: i32) -> i32 { (c != 0) as i32 }
#[no_mangle] extern "C" fn sx_forksel(_: i32) {}
#[no_mangle] extern "C" fn sx_forktab(_: i32) {}
#[no_mangle] extern "C" fn sx_assume(c: i32) { if c == 0 { bad() } }
#[no_mangle] extern "C" fn sx_check(c: i32, id: u32) { if c == 0 { say(format!("FAIL {}", id)) } }
#[no_mangle] extern "C" fn sx_cover(_: u32) {}
#[no_mangle] extern "C" fn sx_obs_f64(v: f64) { say(format!("OBS f64 {}", v.to_bits())) }
#[no_mangle] extern "C" fn sx_obs_f32(v: f32) { say(format!("OBS f32 {}", v.to_bits())) }
#[no_mangle] extern "C" fn sx_obs_u64(v: u64) { say(format!("OBS u64 {}", v)) }
fn main() {
    // replay <harness> <file with one decimal u64 per line>
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[2]).unwrap();
    let v: Vec<u64> = txt.split_whitespace().map(|x| x.parse().unwrap()).collect();
    IN.with(|c| *c.borrow_mut() = (v, 0));
    std::panic::set_hook(Box::new(|i| { say(format!("PANIC {}", i).replace('\n', " ")); std::process::exit(0) }));
    let mut all: Vec<(&str, extern "C" fn())> = Vec::new();
    #[cfg(feature = "c01")] all.extend_from_slice(c01::LIST);
    #[cfg(feature = "c02")] all.extend_from_slice(c02::LIST);
    #[cfg(feature = "c03")] all.extend_from_slice(c03::LIST);
    #[cfg(feature = "c04")] all.extend_from_slice(c04::LIST);
    #[cfg(feature = "c05")] all.extend_from_slice(c05::LIST);
    #[cfg(feature = "c06")] all.extend_from_slice(c06::LIST);
    #[cfg(feature = "c07")] all.extend_from_slice(c07::LIST);
    #[cfg(feature = "c08")] all.extend_from_slice(c08::LIST);
    #[cfg(feature = "c09")] all.extend_from_slice(c09::LIST);
    #[cfg(feature = "c10")] all.extend_from_slice(c10::LIST);
    #[cfg(feature = "c11")] all.extend_from_slice(c11::LIST);
    #[cfg(feature = "c12")] all.extend_from_slice(c12::LIST);
    #[cfg(feature = "c13")] all.extend_from_slice(c13::LIST);
    #[cfg(feature = "c14")] all.extend_from_slice(c14::LIST);
    #[cfg(feature = "c15")] all.extend_from_slice(c15::LIST);
    #[cfg(feature = "c16")] all.extend_from_slice(c16::LIST);
    #[cfg(feature = "c17")] all.extend_from_slice(c17::LIST);
    #[cfg(feature = "c18")] all.extend_from_slice(c18::LIST);
    #[cfg(feature = "c19")] all.extend_from_slice(c19::LIST);
    #[cfg(feature = "c20")] all.extend_from_slice(c20::LIST);
    #[cfg(feature = "c21")] all.extend_from_slice(c21::LIST);
    #[cfg(feature = "c22")] all.extend_from_slice(c22::LIST);
    #[cfg(feature = "c23")] all.extend_from_slice(c23::LIST);
    #[cfg(feature = "c24")] all.extend_from_slice(c24::LIST);
    #[cfg(feature = "c25")] all.extend_from_slice(c25::LIST);
    #[cfg(feature = "c26")] all.extend_from_slice(c26::LIST);
    #[cfg(feature = "c27")] all.extend_from_slice(c27::LIST);
    #[cfg(feature = "c28")] all.extend_from_slice(c28::LIST);
    #[cfg(feature = "c29")] all.extend_from_slice(c29::LIST);
    #[cfg(feature = "c30")] all.extend_from_slice(c30::LIST);
    #[cfg(feature = "c31")] all.extend_from_slice(c31::LIST);
    #[cfg(feature = "c32")] all.extend_from_slice(c32::LIST);
    #[cfg(feature = "c33")] all.extend_from_slice(c33::LIST);
    #[cfg(feature = "c34")] all.extend_from_slice(c34::LIST);
    #[cfg(feature = "c35")] all.extend_from_slice(c35::LIST);
    #[cfg(feature = "c36")] all.extend_from_slice(c36::LIST);
    #[cfg(feature = "c42")] all.extend_from_slice(c42::LIST);
    #[cfg(feature = "c45")] all.extend_from_slice(c45::LIST);
    #[cfg(feature = "c44")] all.extend_from_slice(c44::LIST);
    #[cfg(feature = "c43")] all.extend_from_slice(c43::LIST);
    #[cfg(feature = "c41")] all.extend_from_slice(c41::LIST);
    #[cfg(feature = "c40")] all.extend_from_slice(c40::LIST);
    #[cfg(feature = "c39")] all.extend_from_slice(c39::LIST);

    let f = all.iter().find(|x| x.0 == a[1]).expect("no such harness").1;
    f();
    say("END".into());
}
