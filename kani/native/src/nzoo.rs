//! Bounded contracts over every opcode: block = tick, reset = fresh, clone = original,
//! allocation is silent, response matches measurement, preludes agree.
use crate::gen::*;
use crate::zoo::*;
use fundsp::audiounit::AudioUnit;
use fundsp::buffer::*;
use fvh::nd::*;
use std::sync::OnceLock;

fn z32() -> &'static Vec<Entry> {
    static Z: OnceLock<Vec<Entry>> = OnceLock::new();
    Z.get_or_init(|| { let mut v = hacker32(); v.extend(hacker()); v })
}
fn any_entry(z: &'static [Entry]) -> &'static Entry {
    &z[pick(z.len())]
}
pub fn run_ticks(u: &mut dyn AudioUnit, x: &[Vec<f32>], from: usize, to: usize) -> Vec<Vec<f32>> {
    let mut out = vec![Vec::new(); u.outputs()];
    let mut o = vec![0.0; u.outputs()];
    for i in from..to {
        let f: Vec<f32> = x.iter().map(|c| c[i]).collect();
        o.fill(9.75);
        u.tick(&f, &mut o);
        for (c, v) in out.iter_mut().zip(o.iter()) {
            c.push(*v);
        }
    }
    out
}
/// Blocks of random sizes; garbage in the unused parts of buffers.
pub fn run_blocks(u: &mut dyn AudioUnit, x: &[Vec<f32>], from: usize, to: usize, s: &mut Stream) -> Vec<Vec<f32>> {
    let mut out = vec![Vec::new(); u.outputs()];
    let (mut bi, mut bo) = (BufferVec::new(u.inputs()), BufferVec::new(u.outputs()));
    let mut i = from;
    let style = s.upto(3);
    while i < to {
        let n = (to - i).min(match style { 0 => 64, 1 => 1 + s.upto(64), _ => [0, 1, 7, 8, 9, 63, 64][s.upto(7)] });
        for c in 0..u.inputs() {
            for j in 0..64 {
                bi.set_f32(c, j, if j < n { x[c][i + j] } else { 0.125 });
            }
        }
        for c in 0..u.outputs() {
            for j in 0..64 {
                bo.set_f32(c, j, 7.75);
            }
        }
        u.process(n, &bi.buffer_ref(), &mut bo.buffer_mut());
        for c in 0..u.outputs() {
            for j in 0..n {
                out[c].push(bo.at_f32(c, j));
            }
        }
        i += n;
    }
    out
}
fn compare(name: &str, what: &str, a: &[Vec<f32>], b: &[Vec<f32>], tol: f32) {
    for c in 0..a.len() {
        for i in 0..a[c].len() {
            if !close(a[c][i], b[c][i], tol) {
                panic!("{}: {}: channel {} sample {}: {} against {}", name, what, c, i, a[c][i], b[c][i]);
            }
        }
    }
}
fn arity(e: &Entry, u: &dyn AudioUnit) {
    assert!(u.inputs() == e.ins.len(), "{}: has {} inputs", e.name, u.inputs());
}
/// Block lengths may be mixed with single samples in any order.
fn n03_opcodes() {
    let e = any_entry(z32());
    assume(!e.control);
    let mut s = stream();
    let n = 1 + s.upto(400);
    let x = stimulus(e.ins, n, &mut s);
    let (mut a, mut b) = ((e.make)(), (e.make)());
    arity(e, &*a);
    if any::<bool>() {
        a.set_sample_rate(11025.0);
        b.set_sample_rate(11025.0);
    }
    let p = run_ticks(&mut *a, &x, 0, n);
    let k = s.upto(n + 1);
    let mut q = run_blocks(&mut *b, &x, 0, k, &mut s);
    // Alternate: finish with ticks or more blocks.
    let r = if any::<bool>() { run_ticks(&mut *b, &x, k, n) } else { run_blocks(&mut *b, &x, k, n, &mut s) };
    for c in 0..q.len() {
        q[c].extend_from_slice(&r[c]);
    }
    if ["saw", "square", "triangle", "organ", "soft_saw", "hammond", "pulse"].iter().any(|w| e.name.trim_end_matches("_hz") == *w) {
        // Phases are rounded differently in blocks, which shows at the steep parts of the waveform.
        compare(e.name, "block against tick", &q, &p, 0.15);
        for c in 0..p.len() {
            let off = (0..n).filter(|&i| !close(q[c][i], p[c][i], 4.0e-3)).count();
            assert!(off <= 3 + n / 30, "{}: block against tick: channel {}: {} of {} samples differ", e.name, c, off, n);
        }
    } else {
        compare(e.name, "block against tick", &q, &p, 4.0e-3);
    }
}
/// After any history, a reset unit repeats what a fresh one does.
fn n21_reset() {
    let e = any_entry(z32());
    let mut s = stream();
    let (n, h) = (1 + s.upto(200), s.upto(500));
    let x = stimulus(e.ins, n, &mut s);
    let y = stimulus(e.ins, h, &mut s);
    let (mut a, mut b) = ((e.make)(), (e.make)());
    // The rate may be set before, in the middle of, or after the history.
    let at = pick(4);
    if at == 1 { a.set_sample_rate(48000.0); }
    if any::<bool>() {
        let hash = any::<u8>() as u64;
        a.ping(false, fundsp::math::AttoHash::new(hash));
        b.ping(false, fundsp::math::AttoHash::new(hash));
    }
    let blocks: bool = any();
    let mid = s.upto(h + 1);
    if blocks { run_blocks(&mut *a, &y, 0, mid, &mut s); } else { run_ticks(&mut *a, &y, 0, mid); }
    if at == 2 { a.set_sample_rate(48000.0); }
    if blocks { run_blocks(&mut *a, &y, mid, h, &mut s); } else { run_ticks(&mut *a, &y, mid, h); }
    if at == 3 { a.set_sample_rate(48000.0); }
    if at > 0 { b.set_sample_rate(48000.0); }
    a.reset();
    let p = run_ticks(&mut *a, &x, 0, n);
    b.reset();
    let q = run_ticks(&mut *b, &x, 0, n);
    compare(e.name, "reset against fresh", &p, &q, 1.0e-6);
}
/// A fresh unit needs no reset, and two fresh units do the same.
fn n21_fresh() {
    let e = any_entry(z32());
    let mut s = stream();
    let n = 1 + s.upto(200);
    let x = stimulus(e.ins, n, &mut s);
    let (mut a, mut b) = ((e.make)(), (e.make)());
    if any::<bool>() { b.reset(); }
    b.allocate();
    let p = run_ticks(&mut *a, &x, 0, n);
    let q = run_ticks(&mut *b, &x, 0, n);
    compare(e.name, "two fresh instances", &p, &q, 0.0);
}
/// A clone taken at any point continues exactly like the original, and independently of it.
fn n21_clone() {
    let e = any_entry(z32());
    let mut s = stream();
    let (n, h) = (1 + s.upto(200), s.upto(300));
    let y = stimulus(e.ins, h, &mut s);
    let x = stimulus(e.ins, n, &mut s);
    let other = stimulus(e.ins, n, &mut s);
    let mut a = (e.make)();
    run_ticks(&mut *a, &y, 0, h);
    let mut b = a.clone();
    let mut c = a.clone();
    run_ticks(&mut *c, &other, 0, n);
    let p = run_ticks(&mut *a, &x, 0, n);
    let q = run_ticks(&mut *b, &x, 0, n);
    compare(e.name, "clone against original", &p, &q, 0.0);
}
/// The same opcode means the same in the three preludes.
fn n25_preludes() {
    static Z: OnceLock<(Vec<Entry>, Vec<Entry>, Vec<Entry>)> = OnceLock::new();
    let z = Z.get_or_init(|| (hacker32(), hacker(), prelude32()));
    let k = pick(z.0.len());
    let (a, b, c) = (&z.0[k], &z.1[k], &z.2[k]);
    let mut s = stream();
    let n = 1 + s.upto(150);
    let x = stimulus(a.ins, n, &mut s);
    let (mut u, mut v, mut w) = ((a.make)(), (b.make)(), (c.make)());
    assert!(u.inputs() == v.inputs() && u.inputs() == w.inputs() && u.outputs() == v.outputs() && u.outputs() == w.outputs(), "{}: arity differs between preludes", a.name);
    let p = run_ticks(&mut *u, &x, 0, n);
    let q = run_ticks(&mut *w, &x, 0, n);
    compare(a.name, "hacker32 against prelude with f32", &p, &q, 1.0e-6);
    let q = run_ticks(&mut *v, &x, 0, n);
    compare(a.name, "hacker32 against hacker", &p, &q, 2.0e-2);
}
/// Where a response is reported for a linear unit, it is the transform of the impulse response.
fn n15_response() {
    let z = z32();
    let e = &z[pick(z.len())];
    // Declickers and limiters document that they pretend to have a flat response.
    assume(!e.control && e.ins.chars().all(|c| c == 'a') && !e.ins.is_empty() && !e.name.starts_with("declick") && !e.name.starts_with("limiter"));
    let mut u = (e.make)();
    let o = pick(u.outputs());
    let f = 100.0 * (150.0f64).powf(u01() as f64);
    let sr = [44100.0, 48000.0][pick(2)];
    u.set_sample_rate(sr);
    let r = u.response(o, f);
    assume(r.is_some());
    let r = r.unwrap();
    // All inputs share the same impulse: the response is the sum over inputs.
    let n = 16384;
    let mut x = vec![vec![0.0f32; n]; u.inputs()];
    // Followers jump to their very first input.
    run_ticks(&mut *u, &x, 0, 1);
    // Affine units (offsets) have the response of their linear part.
    let zero = run_ticks(&mut *u.clone(), &x, 0, n);
    for c in 0..u.inputs() {
        x[c][0] = 1.0;
    }
    let y = run_ticks(&mut *u, &x, 0, n);
    let (mut re, mut im) = (0.0f64, 0.0f64);
    for i in 0..n {
        let p = -core::f64::consts::TAU * f * i as f64 / sr;
        let v = (y[o][i] - zero[o][i]) as f64;
        re += v * p.cos();
        im += v * p.sin();
    }
    let tail: f64 = (n - 64..n).map(|i| ((y[o][i] - zero[o][i]) as f64).abs()).sum();
    assume(tail < 1.0e-5);
    if (re - r.re).abs() > 5.0e-3 * (1.0 + r.norm()) || (im - r.im).abs() > 5.0e-3 * (1.0 + r.norm()) {
        panic!("{}: output {} at {} Hz: reported {}, measured {} + {}i", e.name, o, f, r, re, im);
    }
}
/// Reported latency does not exceed the arrival of the first response to an input change.
fn n15_latency() {
    let z = z32();
    let e = &z[pick(z.len())];
    assume(e.ins.contains('a'));
    let mut u = (e.make)();
    let l = u.latency();
    assume(l.is_some());
    let mut s = stream();
    let x = stimulus(e.ins, 300, &mut s);
    let mut y = x.clone();
    for c in 0..x.len() {
        if e.ins.as_bytes()[c] == b'a' {
            for i in 0..300 {
                y[c][i] += 0.5 + 0.1 * s.unit();
            }
        }
    }
    let mut v = (e.make)();
    let p = run_ticks(&mut *u, &x, 0, 300);
    let q = run_ticks(&mut *v, &y, 0, 300);
    let l = l.unwrap();
    for c in 0..p.len() {
        for i in 0..300 {
            if p[c][i] != q[c][i] {
                assert!(i as f64 + 1.0 > l, "{}: responds at sample {} but reports latency {}", e.name, i, l);
            }
        }
    }
}
/// Finite input gives finite output.
fn n24_finite() {
    let e = any_entry(z32());
    // The chaotic oscillators have no bound on their frequency input.
    assume(!["rossler", "lorenz"].contains(&e.name));
    let mut s = stream();
    let n = 1 + s.upto(600);
    let mut x = stimulus(e.ins, n, &mut s);
    if any::<bool>() {
        for (c, k) in e.ins.chars().enumerate() {
            if k == 'a' { for v in x[c].iter_mut() { *v *= 20.0; } }
        }
    }
    let mut a = (e.make)();
    let p = if any::<bool>() { run_ticks(&mut *a, &x, 0, n) } else { run_blocks(&mut *a, &x, 0, n, &mut s) };
    for c in &p {
        for v in c {
            assert!(v.is_finite(), "{}: non-finite output", e.name);
        }
    }
}
pub const LIST: &[(&str, fn())] = &[
    ("n03_opcodes", n03_opcodes),
    ("n21_reset", n21_reset),
    ("n21_fresh", n21_fresh),
    ("n21_clone", n21_clone),
    ("n25_preludes", n25_preludes),
    ("n15_response", n15_response),
    ("n15_latency", n15_latency),
    ("n24_finite", n24_finite),
];
