//! Bounded contracts of `Wave`: editing against a plain model, rendering, filtering, writing.
use crate::cell::*;
use crate::gen::*;
use crate::nzoo::run_ticks;
use fundsp::audiounit::AudioUnit;
use fundsp::prelude::*;
use std::sync::Arc;

struct Model {
    ch: Vec<Vec<f32>>,
    len: usize,
    sr: f64,
}
fn check(w: &Wave, m: &Model, what: &str) {
    assert!(w.channels() == m.ch.len() && w.len() == m.len && w.length() == m.len && w.is_empty() == (m.len == 0), "{}: {} channels of {} samples instead of {} of {}", what, w.channels(), w.len(), m.ch.len(), m.len);
    assert!(w.sample_rate() == m.sr, "{}: sample rate {}", what, w.sample_rate());
    assert!((w.duration() - m.len as f64 / m.sr).abs() < 1.0e-9, "{}: duration {}", what, w.duration());
    let mut peak = 0.0f32;
    for (c, v) in m.ch.iter().enumerate() {
        assert!(w.channel(c).len() == m.len, "{}: channel {} has {} samples instead of {}", what, c, w.channel(c).len(), m.len);
        for i in 0..m.len {
            assert!(w.at(c, i) == v[i] && w.channel(c)[i] == v[i], "{}: sample {} of channel {} is {} instead of {}", what, i, c, w.at(c, i), v[i]);
            peak = peak.max(v[i].abs());
        }
    }
    assert!(w.amplitude() == peak, "{}: amplitude {} instead of {}", what, w.amplitude(), peak);
}
fn samples(n: usize, s: &mut Stream) -> Vec<f32> {
    (0..n).map(|_| s.upto(2000) as f32 / 512.0 - 2.0).collect()
}
/// Any sequence of edits changes exactly the samples it names.
fn n17_edit() {
    let mut s = stream();
    let sr = [44100.0, 1000.0, 8000.5][s.upto(3)];
    let ch = s.upto(4);
    let (mut w, mut m) = match s.upto(4) {
        0 => (Wave::new(ch, sr), Model { ch: vec![vec![]; ch], len: 0, sr }),
        1 => (Wave::with_capacity(ch, sr, s.upto(50)), Model { ch: vec![vec![]; ch], len: 0, sr }),
        2 => {
            let n = s.upto(60);
            (Wave::zero(ch + 1, sr, n as f64 / sr), Model { ch: vec![vec![0.0; n]; ch + 1], len: n, sr })
        }
        _ => {
            let n = s.upto(60);
            let v = samples(n, &mut s);
            (Wave::from_samples(sr, &v), Model { ch: vec![v], len: n, sr })
        }
    };
    check(&w, &m, "new wave");
    for _ in 0..1 + s.upto(8) {
        let ch = m.ch.len();
        let what;
        match s.upto(16) {
            0 => {
                what = "push_channel";
                let n = if ch == 0 { s.upto(60) } else { m.len };
                let v = samples(n, &mut s);
                w.push_channel(&v);
                m.ch.push(v);
                m.len = n;
            }
            1 => {
                what = "insert_channel";
                let n = if ch == 0 { s.upto(60) } else { m.len };
                let v = samples(n, &mut s);
                let c = s.upto(ch + 1);
                w.insert_channel(c, &v);
                m.ch.insert(c, v);
                m.len = n;
            }
            2 if ch > 0 && s.upto(2) == 0 => {
                what = "remove_channel";
                let c = s.upto(ch);
                let v = w.remove_channel(c);
                assert!(v == m.ch.remove(c), "remove_channel returns the channel");
                if m.ch.is_empty() { m.len = 0; }
            }
            3 if ch > 0 => {
                what = "append";
                let n = s.upto(60);
                let mut o = Wave::new(0, [sr, 100.0][s.upto(2)]);
                for v in m.ch.iter_mut() {
                    let x = samples(n, &mut s);
                    o.push_channel(&x);
                    v.extend(x.iter());
                }
                w.append(&o);
                m.len += n;
                assert!(o.len() == n && o.channels() == ch, "append leaves the source alone");
            }
            4 if ch > 0 => {
                what = "mix_channel";
                let c = s.upto(ch);
                let n = s.upto(60);
                let v = samples(n, &mut s);
                let off = s.upto(160) as isize - 80;
                w.mix_channel(c, off, &v);
                for i in 0..m.len {
                    let k = i as isize - off;
                    if k >= 0 && (k as usize) < n { m.ch[c][i] += v[k as usize]; }
                }
            }
            5 if ch > 0 => {
                what = "resize";
                let n = s.upto(100);
                w.resize(n);
                for v in m.ch.iter_mut() { v.resize(n, 0.0); }
                m.len = n;
            }
            6 | 7 if ch > 0 => {
                what = "retain";
                let start = s.upto(200) as isize - 60;
                let n = s.upto(100);
                w.retain(start, n);
                let a = max(start, 0);
                let b = max(a, min(start + n as isize, m.len as isize));
                for v in m.ch.iter_mut() { *v = v.iter().copied().skip(a as usize).take((b - a) as usize).collect(); }
                if let Some(v) = m.ch.first() { m.len = v.len(); }
            }
            8 => {
                what = "push";
                match ch {
                    2 if s.upto(2) == 0 => { w.push((1.5, -2.5)); m.ch[0].push(1.5); m.ch[1].push(-2.5); }
                    3 if s.upto(2) == 0 => { w.push((1.5, -2.5, 3.5)); m.ch[0].push(1.5); m.ch[1].push(-2.5); m.ch[2].push(3.5); }
                    _ => { w.push(0.75); for v in m.ch.iter_mut() { v.push(0.75); } }
                }
                if ch > 0 { m.len += 1; }
            }
            9 => {
                what = "amplify";
                w.amplify(-0.5);
                for v in m.ch.iter_mut() { for x in v.iter_mut() { *x *= -0.5; } }
            }
            10 => {
                what = "normalize";
                let peak = m.ch.iter().flatten().fold(0.0f32, |a, x| a.max(x.abs()));
                w.normalize();
                assert!(peak == 0.0 || (w.amplitude() - 1.0).abs() < 1.0e-6, "normalize: amplitude {}", w.amplitude());
                for c in 0..ch {
                    for i in 0..m.len {
                        let x = if peak > 0.0 { m.ch[c][i] / peak } else { 0.0 };
                        assert!(close(w.at(c, i), x, 1.0e-6), "normalize: {} instead of {}", w.at(c, i), x);
                        m.ch[c][i] = w.at(c, i);
                    }
                }
            }
            11 => {
                let kind = s.upto(3);
                what = ["fade_in", "fade_out", "fade"][kind];
                let t = s.upto(80) as f64 / m.sr;
                match kind { 0 => w.fade_in(t), 1 => w.fade_out(t), _ => w.fade(t) }
                let n = min((t * m.sr).round() as usize, m.len);
                for c in 0..ch {
                    for i in 0..m.len {
                        let mut x = m.ch[c][i] as f64;
                        if kind != 1 && i < n { x *= smooth5((i + 1) as f64 / (n + 1) as f64); }
                        if kind != 0 && m.len - 1 - i < n { x *= smooth5((m.len - i) as f64 / (n + 1) as f64); }
                        assert!(close(w.at(c, i), x as f32, 1.0e-5), "{}: sample {} is {} instead of {}", what, i, w.at(c, i), x);
                        m.ch[c][i] = w.at(c, i);
                    }
                }
            }
            12 if m.len > 0 => {
                what = "set, mix and channel_mut";
                let (c, i) = (s.upto(ch), s.upto(m.len));
                match s.upto(3) {
                    0 => { w.set(c, i, 9.5); m.ch[c][i] = 9.5; }
                    1 => { w.mix(c, i, 0.25); m.ch[c][i] += 0.25; }
                    _ => { w.channel_mut(c)[i] = -7.0; m.ch[c][i] = -7.0; }
                }
            }
            13 => {
                what = "set_sample_rate";
                m.sr = [44100.0, 500.0][s.upto(2)];
                w.set_sample_rate(m.sr);
            }
            14 => {
                what = "clone";
                w = w.clone();
            }
            _ => continue,
        }
        check(&w, &m, what);
    }
}
/// Rendering and filtering give the unit's own samples at the wave's rate; latency is discarded exactly.
fn n17_render() {
    let mut s = stream();
    let sr = [44100.0, 1000.0, 88200.0][s.upto(3)];
    let n = s.upto(200);
    let outs = 1 + s.upto(3);
    let duration = n as f64 / sr;
    match s.upto(4) {
        0 => {
            let mut u = cell(0, outs, 5);
            let w = Wave::render(sr, duration, &mut u);
            let mut v = Cell { rate: sr, ..cell(0, outs, 5) };
            let y = run_ticks(&mut v, &[], 0, n);
            let ch = (0..outs).map(|c| (0..n).map(|i| y[c][i]).collect()).collect();
            check(&w, &Model { ch, len: n, sr }, "render");
        }
        1 => {
            let ins = s.upto(3);
            let n_in = if ins == 0 { 0 } else { s.upto(200) };
            let mut src = Wave::new(0, sr);
            let mut x: Vec<Vec<f32>> = vec![];
            for _ in 0..ins {
                let v = samples(n_in, &mut s);
                src.push_channel(&v);
                let mut v = v;
                v.resize(max(n, n_in), 0.0);
                x.push(v);
            }
            let mut u = cell(ins, outs, 5);
            let w = src.filter(duration, &mut u);
            let mut v = Cell { rate: sr, ..cell(ins, outs, 5) };
            let y = run_ticks(&mut v, &x, 0, n);
            let ch = (0..outs).map(|c| (0..n).map(|i| y[c][i]).collect()).collect();
            check(&w, &Model { ch, len: n, sr }, "filter");
        }
        2 => {
            // A delayed signal with its latency taken off is the signal.
            let d = [0.0, 0.001, 0.01, 0.0205][s.upto(4)];
            let v = samples(s.upto(200), &mut s);
            let src = Wave::from_samples(sr, &v);
            // Signal latency of a limiter in its linear range is that of a delay.
            let mut u = limiter(d as f32, 0.1);
            let quiet = { let mut q = src.clone(); q.amplify(0.1); q };
            let w = quiet.filter_latency(duration, &mut u);
            assert!(w.len() == n && w.channels() == 1 && w.sample_rate() == sr, "filter_latency: {} samples instead of {}", w.len(), n);
            for i in 0..n {
                let x = if i < quiet.len() { quiet.at(0, i) } else { 0.0 };
                assert!(close(w.at(0, i), x, 1.0e-4), "filter_latency at {} Hz: sample {} is {} instead of {}", sr, i, w.at(0, i), x);
            }
        }
        _ => {
            let d = [0.0f32, 0.001, 0.01, 0.0205][s.upto(4)];
            let mut u = (impulse::<U1>() * 0.5) >> limiter(d, 0.1);
            if s.upto(2) == 0 {
                let mut o = [0.0];
                u.tick(&Frame::default());
                AudioUnit::tick(&mut u, &[], &mut o);
            }
            let w = Wave::render_latency(sr, duration, &mut u);
            assert!(w.len() == n && w.channels() == 1 && w.sample_rate() == sr, "render_latency: {} samples instead of {}", w.len(), n);
            for i in 0..n {
                let x = if i == 0 { 0.5 } else { 0.0 };
                assert!(close(w.at(0, i), x, 1.0e-4), "render_latency at {} Hz: sample {} is {} instead of {}", sr, i, w.at(0, i), x);
            }
        }
    }
}
/// The player goes through the span from the start and then over the loop, or falls silent.
fn n17_player() {
    let mut s = stream();
    let n = 1 + s.upto(40);
    let ch = 1 + s.upto(2);
    let mut w = Wave::new(0, 44100.0);
    for _ in 0..ch { w.push_channel(&samples(n, &mut s)); }
    let c = s.upto(ch);
    let end = s.upto(n + 1);
    let start = s.upto(end + 1);
    let lp = if s.upto(2) == 0 || end == 0 { None } else { Some(s.upto(end)) };
    let w = Arc::new(w);
    let whole = s.upto(3) == 0;
    let (start, end) = if whole { (0, n) } else { (start, end) };
    let lp = if whole && s.upto(2) == 0 { None } else { lp };
    let mut p: Box<dyn AudioUnit> = if whole { Box::new(wavech(&w, c, lp)) } else { Box::new(wavech_at(&w, c, start, end, lp)) };
    let runs = 1 + s.upto(2);
    for _ in 0..runs {
        let mut i = start;
        let total = s.upto(150);
        let y = run_ticks(&mut *p, &[], 0, total);
        for k in 0..total {
            let x = if i < end { w.at(c, i) } else { 0.0 };
            assert!(y[0][k] == x, "wavech: sample {} is {} instead of {} ({}..{}, loop {:?})", k, y[0][k], x, start, end, lp);
            if i < end { i += 1; if i == end { if let Some(l) = lp { i = l; } } }
        }
        p.reset();
    }
}
/// A writer that takes only so many bytes.
struct Limited(Vec<u8>, usize);
impl std::io::Write for Limited {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() + b.len() > self.1 { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// WAV files have a header that fits their data and every sample in place; success means everything was written.
fn n17_wav() {
    let mut s = stream();
    let ch = 1 + s.upto(3);
    let n = s.upto(3000);
    let sr = [44100.0, 48000.0, 8000.4, 96000.0][s.upto(4)];
    let mut w = Wave::new(0, sr);
    for _ in 0..ch { w.push_channel(&samples(n, &mut s)); }
    let wide = s.upto(2) == 0;
    let bytes = if wide { 4 } else { 2 };
    let size = 44 + n * ch * bytes;
    let room = if s.upto(2) == 0 { usize::MAX } else { s.upto(size + 1) };
    let mut o = Limited(vec![], room);
    let r = if wide { w.write_wav32(&mut o) } else { w.write_wav16(&mut o) };
    if room < size {
        assert!(r.is_err(), "write_wav: success is reported with {} of {} bytes written", o.0.len(), size);
        return;
    }
    assert!(r.is_ok(), "write_wav fails");
    let b = o.0;
    assert!(b.len() == size, "write_wav: {} bytes instead of {}", b.len(), size);
    let u32at = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]) as usize;
    let u16at = |i: usize| u16::from_le_bytes([b[i], b[i + 1]]) as usize;
    let rate = sr.round() as usize;
    assert!(&b[0..4] == b"RIFF" && u32at(4) == size - 8 && &b[8..16] == b"WAVEfmt " && u32at(16) == 16, "WAV header: chunks");
    assert!(u16at(20) == if wide { 3 } else { 1 } && u16at(22) == ch && u32at(24) == rate, "WAV header: format");
    assert!(u32at(28) == rate * ch * bytes && u16at(32) == ch * bytes && u16at(34) == bytes * 8, "WAV header: sizes");
    assert!(&b[36..40] == b"data" && u32at(40) == n * ch * bytes, "WAV header: data");
    for i in 0..n {
        for c in 0..ch {
            let k = 44 + (i * ch + c) * bytes;
            let x = w.at(c, i);
            if wide {
                assert!(u32at(k) as u32 == x.to_bits(), "sample {} of channel {} in the file", i, c);
            } else {
                let y = (u16at(k) as u16) as i16 as f64;
                assert!((y - x.clamp(-1.0, 1.0) as f64 * 32767.0).abs() <= 1.01, "sample {} of channel {} in the file is {} for {}", i, c, y, x);
            }
        }
    }
}
pub const LIST: &[(&str, fn())] = &[("n17_edit", n17_edit), ("n17_render", n17_render), ("n17_player", n17_player), ("n17_wav", n17_wav)];
