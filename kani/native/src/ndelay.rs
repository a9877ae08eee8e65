//! Bounded contracts of delay lines and the look-ahead limiter against direct references.
use crate::gen::*;
use crate::nzoo::{run_blocks, run_ticks};
use fundsp::audiounit::AudioUnit;
use fundsp::prelude::*;

fn noise(n: usize, s: &mut Stream) -> Vec<f32> {
    (0..n).map(|_| s.upto(2000) as f32 / 512.0 - 2.0).collect()
}
/// Runs in pieces, some sample by sample and some in blocks.
fn mixed(u: &mut dyn AudioUnit, x: &[Vec<f32>], n: usize, s: &mut Stream) -> Vec<Vec<f32>> {
    let mut out = vec![Vec::new(); u.outputs()];
    let mut i = 0;
    while i < n {
        let m = std::cmp::min(1 + s.upto(150), n - i);
        let o = if s.upto(2) == 0 { run_ticks(u, x, i, i + m) } else { run_blocks(u, x, i, i + m, s) };
        for (c, v) in out.iter_mut().zip(o) {
            c.extend(v);
        }
        i += m;
    }
    out
}
/// A state to start from: fresh, or used and then reset, or used and then set to another rate.
fn prepare(u: &mut dyn AudioUnit, sr: f64, ins: usize, s: &mut Stream) {
    match s.upto(3) {
        0 => u.set_sample_rate(sr),
        1 => {
            u.set_sample_rate(sr);
            let x: Vec<Vec<f32>> = (0..ins).map(|_| noise(90, s)).collect();
            mixed(u, &x, 90, s);
            u.reset();
        }
        _ => {
            u.set_sample_rate(sr * 0.5 + 1.0);
            let x: Vec<Vec<f32>> = (0..ins).map(|_| noise(90, s)).collect();
            mixed(u, &x, 90, s);
            u.set_sample_rate(sr);
            u.reset();
        }
    }
}
fn rate(s: &mut Stream) -> f64 {
    [44100.0, 48000.0, 1000.0, 8192.0, 11025.0][s.upto(5)]
}
/// A fixed delay puts out exactly the input of round(time * rate) samples ago.
fn n13_delay() {
    let mut s = stream();
    let sr = rate(&mut s);
    let d = s.upto(200);
    let t = (d as f64 + [0.0, 0.0, 0.25, -0.25][s.upto(4)]).max(0.0) / sr;
    let mut u: Box<dyn AudioUnit> = match s.upto(2) {
        0 => Box::new(delay(t)),
        _ => Box::new(An(fundsp::delay::Delay::new(t))),
    };
    prepare(&mut *u, sr, 1, &mut s);
    let n = 300 + s.upto(300);
    let x = vec![noise(n, &mut s)];
    let y = mixed(&mut *u, &x, n, &mut s);
    for k in 0..n {
        let want = if k >= d { x[0][k - d] } else { 0.0 };
        assert!(y[0][k] == want, "delay of {} samples at {} Hz: sample {} is {} instead of {}", d, sr, k, y[0][k], want);
    }
}
/// A tick is a delay of one sample.
fn n13_tick() {
    let mut s = stream();
    let mut u = tick();
    prepare(&mut u, rate(&mut s), 1, &mut s);
    let n = 200;
    let x = vec![noise(n, &mut s)];
    let y = mixed(&mut u, &x, n, &mut s);
    for k in 0..n {
        let want = if k > 0 { x[0][k - 1] } else { 0.0 };
        assert!(y[0][k] == want, "tick: sample {} is {} instead of {}", k, y[0][k], want);
    }
}
fn at(x: &[f32], k: i64) -> f64 {
    if k >= 0 && (k as usize) < x.len() { x[k as usize] as f64 } else { 0.0 }
}
/// The taps of a variable delay read the input at the delay given with each sample, clamped to the limits.
fn taps(linear: bool) {
    let mut s = stream();
    let sr = rate(&mut s);
    // Buffer lengths are powers of two: aim at delays that just fit.
    let hi = match s.upto(3) { 0 => [16, 32, 64, 128, 256][s.upto(5)] - 1 - s.upto(12) as i64, _ => 1 + s.upto(150) as i64 } as f64;
    let lo = (s.upto(hi as usize + 1) as f64).min(hi);
    let (tlo, thi) = (lo / sr, hi / sr);
    let count = [1, 2, 3][s.upto(3)];
    let mut u: Box<dyn AudioUnit> = match (linear, count) {
        (false, 1) => Box::new(tap(tlo as f32, thi as f32)),
        (false, 2) => Box::new(multitap::<U2>(tlo as f32, thi as f32)),
        (false, _) => Box::new(multitap::<U3>(tlo as f32, thi as f32)),
        (true, 1) => Box::new(tap_linear(tlo as f32, thi as f32)),
        (true, 2) => Box::new(multitap_linear::<U2>(tlo as f32, thi as f32)),
        (true, _) => Box::new(multitap_linear::<U3>(tlo as f32, thi as f32)),
    };
    prepare(&mut *u, sr, 1 + count, &mut s);
    let n = 200 + s.upto(300);
    let mut x = vec![noise(n, &mut s)];
    for _ in 0..count {
        let mut d = vec![];
        let wild = s.upto(3);
        let mut hold = hi;
        for _ in 0..n {
            if s.upto(10) == 0 || wild == 0 {
                hold = match s.upto(4) { 0 => hi, 1 => lo, 2 => lo + s.unit() as f64 * (hi - lo), _ => s.signed() as f64 * 2.0 * hi };
            }
            d.push((hold / sr) as f32);
        }
        x.push(d);
    }
    let y = mixed(&mut *u, &x, n, &mut s);
    for k in 0..n {
        // The exact position is rounded to single precision: bound the change that makes.
        let (mut want, mut tol) = (0.0, 1.0e-4);
        for c in 0..count {
            let one = if linear { 0.0 } else { 1.00001 };
            let d = (x[1 + c][k] as f64 * sr).max(lo.max(one)).min(hi.max(one));
            let i = d.floor();
            let f = d - i;
            let p = k as i64 - i as i64;
            let (y0, y1, y2, y3) = (at(&x[0], p + 1), at(&x[0], p), at(&x[0], p - 1), at(&x[0], p - 2));
            if linear {
                want += y1 + (y2 - y1) * f;
            } else {
                want += y1 + f * 0.5 * (y2 - y0 + f * (2.0 * y0 - 5.0 * y1 + 4.0 * y2 - y3 + f * (3.0 * (y1 - y2) + y3 - y0)));
            }
            // The slope of the interpolation is at most some differences of neighbours (and of those across a sample boundary).
            let y4 = at(&x[0], p - 3);
            let y9 = at(&x[0], p + 2);
            let slope = (y0 - y1).abs() + (y1 - y2).abs() + (y2 - y3).abs() + (y3 - y4).abs() + (y9 - y0).abs();
            tol += 4.0 * slope * (d + 1.0) * 3.0e-7;
        }
        assert!((y[0][k] as f64 - want).abs() <= tol, "{} taps ({}) within {}..{} samples at {} Hz: sample {} is {} instead of {} (delays {:?} samples)", count, if linear { "linear" } else { "cubic" }, lo, hi, sr, k, y[0][k], want, (0..count).map(|c| x[1 + c][k] as f64 * sr).collect::<Vec<_>>());
    }
}
fn n13_tap() { taps(false) }
fn n13_tap_linear() { taps(true) }
/// A limiter delays by its look-ahead, never amplifies, scales the channels alike and holds back peaks.
fn n13_limiter() {
    let mut s = stream();
    let sr = rate(&mut s);
    let len = 1 + s.upto(150);
    let (a, r) = (len as f32 / sr as f32, (1 + s.upto(400)) as f32 / sr as f32);
    let ch = 1 + s.upto(2);
    let mut u: Box<dyn AudioUnit> = if ch == 1 { Box::new(limiter(a, r)) } else { Box::new(limiter_stereo(a, r)) };
    prepare(&mut *u, sr, ch, &mut s);
    assert!(u.latency() == Some(len as f64), "limiter of {} samples: latency {:?}", len, u.latency());
    let n = 3 * len + 200 + s.upto(300);
    let loud = s.upto(2) == 0;
    let mut x = vec![vec![]; ch];
    let mut g = 0.5;
    for _ in 0..n {
        if s.upto(40) == 0 { g = if loud { [0.1, 1.0, 4.0, 20.0][s.upto(4)] } else { [0.1, 0.5, 0.9][s.upto(3)] }; }
        for c in 0..ch { x[c].push(s.signed() * g); }
    }
    let y = mixed(&mut *u, &x, n, &mut s);
    for k in 0..n {
        for c in 0..ch {
            let want = if k >= len { x[c][k - len] } else { 0.0 };
            let got = y[c][k];
            if !loud { assert!((got - want).abs() <= 1.0e-5 * want.abs(), "limiter of {} samples: sample {} is {} instead of {}", len, k, got, want); }
            assert!(got.abs() <= want.abs() * 1.00001 && got * want >= 0.0 && (want == 0.0 || got != 0.0), "limiter of {} samples: sample {} is {} for the input {}", len, k, got, want);
            assert!(got.abs() <= 1.000001, "limiter of {} samples: sample {} is {}", len, k, got);
            let w0 = if k >= len { x[0][k - len] } else { 0.0 };
            assert!((got as f64 * w0 as f64 - want as f64 * y[0][k] as f64).abs() <= 1.0e-5 * (got as f64 * w0 as f64).abs(), "limiter: channels scaled differently at sample {}", k);
        }
    }
}
pub const LIST: &[(&str, fn())] = &[("n13_delay", n13_delay), ("n13_tick", n13_tick), ("n13_tap", n13_tap), ("n13_tap_linear", n13_tap_linear), ("n13_limiter", n13_limiter)];
