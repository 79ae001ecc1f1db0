use crate::sx::*;
use crate::probe::*;
use bae_rs::sounds::*;
use std::sync::Arc;
const G: (f64, f64) = (0.75, -1.5);
/// a sound whose output is og * (k * ig * x + c * (number of samples so far))
fn make(complex: bool, l: &Log) -> Box<dyn Sound> {
    let b: BlockSP = Arc::new(aff(0.5, 0.125, l));
    if complex {
        let mut s = ComplexSound::new(G.0, G.1);
        let n = s.add_block(b);
        let (i, o) = (s.get_input_gain(), s.get_output_gain());
        s.add_connection(i, n); s.add_connection(n, o);
        Box::new(s)
    } else { Box::new(SimpleSound::new(G.0, G.1, b)) }
}
fn run(n: usize) {
    let l = log();
    let mut s = make(choose(2) == 1, &l);
    let (mut paused, mut muted, mut id, mut t) = (false, false, None, 0usize);
    for _ in 0..n {
        match choose(5) {
            0 => {
                let x = f32_in(-1.0, 1.0);
                let y = s.process(x); obs(y);
                if !paused { t += 1; }
                if paused || muted { ck!(y == 0.0); } else { ck!(near(y as f64, G.1 * (0.5 * G.0 * x as f64 + 0.125 * t as f64), 1e-5)); }
                ck!(l.calls() == t);
                if !paused { ck!(near(l.seen() as f64, x as f64 * G.0, 1e-6)); }
            }
            1 => { s.toggle_pause(); paused = !paused; }
            2 => { s.toggle_mute(); muted = !muted; }
            3 => { let i = u_in(0, u64::MAX) as usize; s.register(i); id = Some(i); }
            _ => { s.unregister(); id = None; }
        }
        ck!(s.is_paused() == paused); ck!(s.is_muted() == muted);
        ck!(s.get_id() == id);
    }
    // where it is afterwards
    if paused { s.toggle_pause(); }
    if muted { s.toggle_mute(); }
    let x = f32_in(-1.0, 1.0);
    let y = s.process(x);
    ck!(near(y as f64, G.1 * (0.5 * G.0 * x as f64 + 0.125 * (t + 1) as f64), 1e-5));
    ck!(s.get_id() == id);
}
#[no_mangle] pub extern "C" fn c31_histories() { run(5) }
#[no_mangle] pub extern "C" fn c31_histories_deep() { run(6) }
/// chains with several blocks freeze as a whole
#[no_mangle] pub extern "C" fn c31_chain() {
    let ls = [log(), log(), log()];
    let bl = |i: usize| -> BlockSP { Arc::new(StandardBlock::from_modifier(Mod { k: 0.5, last: 0.0, log: ls[i].clone() })) };
    let mut s: Box<dyn Sound> = if choose(2) == 1 {
        let mut s = ComplexSound::new(1.0, 1.0);
        let n = [s.add_block(bl(0)), s.add_block(bl(1)), s.add_block(bl(2))];
        let (i, o) = (s.get_input_gain(), s.get_output_gain());
        s.add_connection(n[2], o); s.add_connection(n[1], n[2]); s.add_connection(i, n[0]); s.add_connection(n[0], n[1]);
        Box::new(s)
    } else { let mut s = SimpleSound::new(1.0, 1.0, bl(0)); s.extend_modifiers(vec![bl(1), bl(2)]); Box::new(s) };
    let mut st = [0.0f64; 3];
    let mut t = 0;
    for _ in 0..4 {
        let mode = choose(4);
        if mode & 1 != 0 { s.toggle_pause(); } if mode & 2 != 0 { s.toggle_mute(); }
        let x = f32_in(-1.0, 1.0);
        let y = s.process(x);
        let (p, m) = (s.is_paused(), s.is_muted());
        if !p { t += 1; let mut v = x as f64; for i in 0..3 { let o = 0.5 * v + 0.5 * st[i]; st[i] = v; v = o; } if !m { ck!(near(y as f64, v, 1e-5)); } }
        if p || m { ck!(y == 0.0); }
        for i in 0..3 { ck!(ls[i].calls() == t); }
    }
}
/// long stretches in one state
#[no_mangle] pub extern "C" fn c31_far() {
    let l = log();
    let mut s = make(choose(2) == 1, &l);
    let (a, b) = ([0, 7, 300][choose(3)], [1, 64, 1000][choose(3)]);
    for _ in 0..a { s.process(0.5); }
    let mode = choose(4);
    if mode & 1 != 0 { s.toggle_pause(); } if mode & 2 != 0 { s.toggle_mute(); }
    for i in 0..b { let y = s.process(0.25); ck!((y == 0.0) == (mode != 0)); if i % 100 == 0 { s.register(i); s.unregister(); } }
    ck!(s.is_paused() == (mode & 1 != 0)); ck!(s.is_muted() == (mode & 2 != 0));
    if mode & 1 != 0 { s.toggle_pause(); } if mode & 2 != 0 { s.toggle_mute(); }
    let t = if mode & 1 != 0 { a } else { a + b };
    ck!(l.calls() == t);
    let x = f32_in(-1.0, 1.0);
    let y = s.process(x); obs(y);
    ck!(near(y as f64, G.1 * (0.5 * G.0 * x as f64 + 0.125 * (t + 1) as f64), 1e-3));
    // any number of toggles
    for _ in 0..2 * b { s.toggle_pause(); s.toggle_mute(); }
    ck!(!s.is_paused() && !s.is_muted());
    let i = u_in(0, u64::MAX) as usize; s.register(i); ck!(s.get_id() == Some(i));
}
harnesses!(c31_histories, c31_histories_deep, c31_chain, c31_far);
