use crate::sx::*;
use crate::probe::*;
use bae_rs::sounds::*;
use std::sync::Arc;
const KC: [(f32, f32); 5] = [(1.0, 0.25), (-0.5, 0.125), (0.75, -0.5), (0.5, 0.0625), (-1.0, 0.1)];
/// nodes 0..n are inner blocks, n is the input and n + 1 the output
struct Net { s: ComplexSound, n: usize, id: Vec<GraphNode>, log: Vec<Log>, e: Vec<(usize, usize)>, ig: f64, og: f64, t: usize }
impl Net {
    fn new(n: usize) -> Net {
        let (ig, og) = (f64_in(-2.0, 2.0), f64_in(-2.0, 2.0));
        let mut s = ComplexSound::new(ig, og);
        let log: Vec<Log> = (0..n).map(|_| log()).collect();
        let mut id: Vec<GraphNode> = (0..n).map(|i| s.add_block(Arc::new(aff(KC[i % 5].0, KC[i % 5].1, &log[i])))).collect();
        id.push(s.get_input_gain()); id.push(s.get_output_gain());
        Net { s, n, id, log, e: Vec::new(), ig, og, t: 0 }
    }
    fn add(&mut self, a: usize, b: usize) { self.s.add_connection(self.id[a], self.id[b]); if !self.e.contains(&(a, b)) { self.e.push((a, b)); } }
    fn remove(&mut self, a: usize, b: usize) { self.s.remove_connection(self.id[a], self.id[b]); self.e.retain(|&x| x != (a, b)); }
    /// nodes in an order where every edge leads forward, if there is one
    fn order(&self) -> Option<Vec<usize>> {
        let mut o: Vec<usize> = Vec::new();
        while o.len() < self.n + 2 {
            let next = (0..self.n + 2).find(|v| !o.contains(v) && self.e.iter().all(|&(a, b)| b != *v || o.contains(&a)))?;
            o.push(next);
        }
        Some(o)
    }
    fn reach(&self, from: usize) -> Vec<bool> {
        let mut r = vec![false; self.n + 2]; r[from] = true;
        for _ in 0..self.n + 2 { for &(a, b) in &self.e { if r[a] { r[b] = true; } } }
        r
    }
    fn samples(&mut self, count: usize) {
        let t0 = self.t; for l in &self.log { ck!(l.calls() <= t0); }
        let order = self.order();
        for t in t0 + 1..=t0 + count {
            let x = f32_in(-1.0, 1.0);
            let y = self.s.process(x); obs(y);
            match &order {
                Some(o) => {
                    let mut v = vec![0.0f64; self.n + 2];
                    for &i in o {
                        let mut s = if i == self.n { x as f64 } else { 0.0 };
                        for &(a, b) in &self.e { if b == i { s += v[a]; } }
                        v[i] = if i == self.n { s * self.ig } else if i == self.n + 1 { s * self.og } else {
                            ck!(self.log[i].calls() == t);
                            ck!(near(self.log[i].seen() as f64, s, 1e-5));
                            KC[i % 5].0 as f64 * s + KC[i % 5].1 as f64 * t as f64
                        };
                    }
                    ck!(near(y as f64, v[self.n + 1], 5e-5));
                }
                None => { let r = self.reach(self.n); for i in 0..self.n { ck!(if r[i] { self.log[i].calls() == t } else { self.log[i].calls() <= t }); } }
            }
        }
        self.t += count;
        // the order lists every node at most once, and all of an acyclic graph
        let p = self.s.get_nodes();
        for i in 0..p.len() { for j in 0..i { ck!(p[i] != p[j]); } }
        if order.is_some() { ck!(p.len() == self.n + 2); }
    }
}
/// edges forward from the input to the output through n blocks, every subset
fn edges(n: usize) -> Vec<(usize, usize)> {
    let mut e = vec![(n, n + 1)];
    for i in 0..n { e.push((n, i)); e.push((i, n + 1)); }
    for i in 0..n { for j in 0..n { if i != j { e.push((i, j)); } } }
    e
}
fn subset(n: usize, order: usize, count: usize) {
    let mut m = Net::new(n);
    let e = edges(n);
    let mut c: Vec<(usize, usize)> = Vec::new();
    for x in &e { if choose(2) == 1 { c.push(*x); } }
    match order { 1 => c.reverse(), 2 => { let k = c.len() / 2; c.rotate_left(k); } _ => {} }
    for (a, b) in c { m.add(a, b); }
    m.samples(count);
}
#[no_mangle] pub extern "C" fn c32_none() { let n = choose(3); subset(0, 0, 2); Net::new(n).samples(2) }
#[no_mangle] pub extern "C" fn c32_two() { let n = 1 + choose(2); let o = choose(3); subset(n, o, 2) }
/// three blocks in a fixed line order: every acyclic shape
#[no_mangle] pub extern "C" fn c32_three() {
    let mut m = Net::new(3);
    let p = [[0, 1, 2], [2, 1, 0], [1, 2, 0]][choose(3)];
    let mut c = Vec::new();
    for i in 0..3 { for j in i + 1..3 { if choose(2) == 1 { c.push((p[i], p[j])); } } }
    for i in 0..3 { if choose(2) == 1 { c.push((3, i)); } if choose(2) == 1 { c.push((i, 4)); } }
    if choose(2) == 1 { c.reverse(); }
    for (a, b) in c { m.add(a, b); }
    m.samples(1);
}
#[no_mangle] pub extern "C" fn c32_three_deep() { subset(3, choose(3), 1) }
/// connections removed, added again, added twice and removed although absent, also while running
fn changed(n: usize, ops: usize, runs: bool) {
    let mut m = Net::new(n);
    let e = edges(n);
    let full = choose(3);
    for (k, &(a, b)) in e.iter().enumerate() { if full == 0 && a < n && b < n && a > b { continue; } if full == 2 || full == 1 && k % 2 == 0 { continue; } m.add(a, b); }
    for _ in 0..ops {
        if runs && m.order().is_some() { m.samples(1); }
        let (a, b) = e[choose(e.len())];
        if choose(2) == 0 { m.remove(a, b); } else { m.add(a, b); }
    }
    if m.t == 0 || m.order().is_some() { m.samples(2); }
}
#[no_mangle] pub extern "C" fn c32_changed() { changed(2, 2, false) }
#[no_mangle] pub extern "C" fn c32_running() { changed(2, 2, true) }
#[no_mangle] pub extern "C" fn c32_changed_deep() { changed(3, 3, false) }
#[no_mangle] pub extern "C" fn c32_running_deep() { changed(3, 3, true) }
/// any edges at all, also into the input, out of the output and from a block to itself
#[no_mangle] pub extern "C" fn c32_any() {
    let n = choose(3);
    let mut m = Net::new(n);
    for _ in 0..[2, 3, 3][n] { let a = choose(n + 2); let b = choose(n + 2); m.add(a, b); }
    m.samples(2);
}
/// a block added later, to a graph that already ran
#[no_mangle] pub extern "C" fn c32_later() {
    let mut m = Net::new(1);
    if choose(2) == 1 { m.add(1, 0); m.add(0, 2); } else if choose(2) == 1 { m.add(1, 2); }
    m.samples(1);
    let l = log(); let x0 = f32_in(-1.0, 1.0);
    let b = m.s.add_block(Arc::new(aff(0.5, 1.0, &l)));
    let (i, o) = (m.id[1], m.id[2]);
    let (ci, co) = (choose(2) == 1, choose(2) == 1);
    if co { m.s.add_connection(b, o); }
    if ci { m.s.add_connection(i, b); }
    let y = m.s.process(x0);
    let v = x0 as f64 * m.ig;
    let mut e = 0.0;
    for &(p, q) in &m.e { if q == 2 { e += if p == 1 { v } else { KC[0].0 as f64 * (if m.e.contains(&(1, 0)) { v } else { 0.0 }) + KC[0].1 as f64 * 2.0 }; } }
    if co { e += 0.5 * (if ci { v } else { 0.0 }) + 1.0; }
    ck!(near(y as f64, e * m.og, 5e-5)); ck!(l.calls() == 1);
}
/// the library's own blocks: a ring modulation and a sum
#[no_mangle] pub extern "C" fn c32_parts() {
    let (a, b) = (f32_in(-1.0, 1.0), f32_in(-1.0, 1.0));
    let mut s = ComplexSound::new(1.0, 1.0);
    let g = s.add_block(Arc::new(StandardBlock::from_generator(Gen { v: a, d: b, log: log() })));
    let m = s.add_block(Arc::new(StandardBlock::new(Gen { v: b, d: a, log: log() }, Mod { k: 1.0, last: 0.0, log: log() }, StandardBlock::default_interactor())));
    let (i, o) = (s.get_input_gain(), s.get_output_gain());
    let sw = choose(2) == 1;
    let mut c = vec![(g, m), (i, m), (m, o), (g, o)]; if sw { c.reverse(); }
    for (x, y) in c { s.add_connection(x, y); }
    let mut last = 0.0f64;
    for t in 0..3 {
        let x = f32_in(-1.0, 1.0);
        let y = s.process(x); obs(y);
        let gv = a as f64 + t as f64 * b as f64; let mg = b as f64 + t as f64 * a as f64;
        let inp = gv + x as f64;
        ck!(near(y as f64, mg * (inp + 0.5 * last) + gv, 1e-4));
        last = inp;
    }
}
/// a sound and its clone
#[no_mangle] pub extern "C" fn c32_cloned() {
    let mut m = Net::new(1);
    m.add(1, 0); m.add(0, 2);
    let c = m.s.clone();
    let x = f32_in(-1.0, 1.0);
    let y = m.s.process(x);
    ck!(near(y as f64, m.og * (KC[0].0 as f64 * m.ig * x as f64 + KC[0].1 as f64), 5e-5));
    drop(c);
}
/// larger graphs: chains, ladders, fans, diamonds in a row and all forward edges, added in four orders; one edge less, and back again
#[no_mangle] pub extern "C" fn c32_large() {
    let n = [5, 8, 12][choose(3)];
    let mut m = Net::new(n);
    let mut e: Vec<(usize, usize)> = Vec::new();
    match choose(6) {
        0 => { e.push((n, 0)); for i in 1..n { e.push((i - 1, i)); } e.push((n - 1, n + 1)); }
        1 => { e.push((n, 0)); e.push((n, 1)); for i in 2..n { e.push((i - 2, i)); e.push((i - 1, i)); } e.push((n - 1, n + 1)); e.push((n - 2, n + 1)); }
        2 => { for i in 0..n { e.push((n, i)); e.push((i, n + 1)); } }
        3 => { e.push((n, 0)); let mut i = 0; while i + 3 < n { e.push((i, i + 1)); e.push((i, i + 2)); e.push((i + 1, i + 3)); e.push((i + 2, i + 3)); i += 3; } e.push((i, n + 1)); for j in i + 1..n { e.push((0, j)); e.push((j, n + 1)); } }
        4 => { let w = if n > 6 { 6 } else { n }; for i in 0..w { if i % 2 == 0 { e.push((n, i)); } for j in i + 1..w { e.push((i, j)); } e.push((i, n + 1)); } for i in w..n { e.push((i, n + 1)); } }
        _ => { for i in 0..n { if i > 0 { e.push((i, (i - 1) / 2)); } else { e.push((i, n + 1)); } if 2 * i + 1 >= n { e.push((n, i)); } } }
    }
    let c: Vec<(usize, usize)> = match choose(4) { 0 => e.clone(), 1 => e.iter().rev().cloned().collect(), 2 => { let mut v: Vec<(usize, usize)> = e.iter().step_by(2).cloned().collect(); v.extend(e.iter().skip(1).step_by(2).cloned()); v } _ => { let mut v = e.clone(); v.sort_by_key(|&(a, b)| (a * 7 + b * 5) % 11); v } };
    for &(a, b) in &c { m.add(a, b); }
    m.samples(1);
    let (a, b) = e[[0, e.len() / 2, e.len() - 1][choose(3)]];
    m.remove(a, b); m.samples(1);
    m.add(a, b); m.samples(1);
}
/// gains of every order of magnitude
#[no_mangle] pub extern "C" fn c32_scales() {
    let (i, o) = (choose(4), choose(4)); let m = [1e-12f64, 1e-8, 1e3, 1e9];
    let (ig, og) = (m[i], m[o]);
    let mut s = ComplexSound::new(ig, og); let l = log();
    let b = s.add_block(Arc::new(aff(-1.0, 0.0, &l)));
    let (p, q) = (s.get_input_gain(), s.get_output_gain());
    s.add_connection(p, b); s.add_connection(b, q);
    let x = f32_in(0.25, 1.0);
    let y = s.process(x); obs(y);
    ck!(near(l.seen() as f64 / ig, x as f64, 1e-5));
    ck!(near(y as f64 / (ig * og), -(x as f64), 1e-5));
}
harnesses!(c32_scales, c32_cloned, c32_none, c32_two, c32_three, c32_three_deep, c32_changed, c32_running, c32_changed_deep, c32_running_deep, c32_any, c32_later, c32_parts, c32_large);
