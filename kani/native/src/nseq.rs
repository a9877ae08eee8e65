//! Bounded contracts of `Sequencer` and `Slot`.
use crate::cell::*;
use crate::gen::*;
use crate::nzoo::{run_blocks, run_ticks};
use fundsp::audiounit::AudioUnit;
use fundsp::prelude::{EventId, Fade, Sequencer, Slot};

#[derive(Clone)]
struct Ev {
    start: f64,
    end: f64,
    power: bool,
    fin: f64,
    fout: f64,
    cell: Cell,
    id: Option<EventId>,
}
#[derive(Clone)]
struct Model {
    ev: Vec<Ev>,
    k: i64,
    sr: f64,
    ch: usize,
    replay: bool,
}
fn ease(power: bool, x: f64) -> f64 {
    curve(power, x.clamp(0.0, 1.0))
}
fn curve(power: bool, x: f64) -> f64 {
    if power {
        // Bhaskara's approximation of the sine.
        let a = x * std::f64::consts::FRAC_PI_2;
        let p = std::f64::consts::PI;
        16.0 * a * (p - a) / (5.0 * p * p - 4.0 * a * (p - a))
    } else {
        x * x * x * (x * (x * 6.0 - 15.0) + 10.0)
    }
}
impl Model {
    fn time(&self) -> f64 { self.k as f64 / self.sr }
    /// The event is heard from the sample nearest to its start (or from when it was pushed)
    /// until before the sample nearest to its end.
    /// Returns values and tolerances: within half a sample of the end of a fade
    /// the fade may be taken to be over.
    fn tick(&mut self) -> (Vec<f64>, Vec<f64>) {
        let t = self.time();
        let mut y = vec![0.0; self.ch];
        let mut tol = vec![0.01; self.ch];
        for e in self.ev.iter_mut() {
            let on = (e.start * self.sr - self.k as f64) < 0.5 && (e.end * self.sr - self.k as f64) > 0.5;
            if !on { continue; }
            let mut o = vec![0.0f32; self.ch];
            e.cell.step(&[], &mut o);
            let mut w = 1.0;
            let mut slack = 2.0e-5;
            for (p, d) in [(t - e.start, e.fin), (e.end - t, e.fout)] {
                if d <= 0.0 { continue; }
                let g = ease(e.power, p / d);
                let near = 0.51 / self.sr;
                if p > d - near && p < d { slack += 1.0 - g; }
                w *= g;
            }
            for c in 0..self.ch {
                y[c] += o[c] as f64 * w;
                tol[c] += (o[c] as f64 * slack).abs();
            }
        }
        self.k += 1;
        (y, tol)
    }
    fn reset(&mut self) {
        self.k = 0;
        if self.replay { for e in self.ev.iter_mut() { e.cell.count = 0; } } else { self.ev.clear(); }
    }
}
fn run(u: &mut dyn AudioUnit, m: &mut Model, n: usize, s: &mut Stream) {
    let got = if s.upto(2) == 0 { run_ticks(u, &[], 0, n) } else { run_blocks(u, &[], 0, n, s) };
    for i in 0..n {
        let k = m.k;
        let (want, tol) = m.tick();
        for c in 0..m.ch {
            assert!((got[c][i] as f64 - want[c]).abs() <= tol[c] + 1.0e-4 * want[c].abs(),
                "sequencer sample {} channel {}: {} instead of {} (events {:?})", k, c, got[c][i], want[c],
                m.ev.iter().map(|e| (e.start * m.sr, e.end * m.sr, e.fin * m.sr, e.fout * m.sr, e.power)).collect::<Vec<_>>());
        }
    }
}
/// A time at or after `from` samples, off the midpoints between samples.
fn time(s: &mut Stream, from: i64, to: i64) -> f64 {
    from as f64 + s.upto((to - from + 1).max(1) as usize) as f64 + [0.0, 0.0, 0.25, -0.25][s.upto(4)]
}
/// Any history of pushes, edits, resets and rendering, with and without a backend.
fn n11_sequencer() {
    let mut s = stream();
    let ch = 1 + s.upto(2);
    let replay = s.upto(2) == 0;
    let sr = 1024.0;
    let mut q = Sequencer::new(replay, ch);
    let mut m = Model { ev: vec![], k: 0, sr, ch, replay };
    let mut back: Option<Box<dyn AudioUnit>> = None;
    let use_back = s.upto(2) == 0;
    // The sample rate may be given to the backend only.
    let late = use_back && s.upto(2) == 0;
    if !late { q.set_sample_rate(sr); }
    for step in 0..2 + s.upto(14) {
        if use_back && back.is_none() && (late || step >= s.upto(4)) { back = Some(Box::new(q.backend())); if late { back.as_mut().unwrap().set_sample_rate(sr); } }
        match s.upto(9) {
            0..=2 => {
                let rel = s.upto(3);
                let now = m.k;
                // Absolute pushes may start in the past.
                let from = if rel == 0 { 0 } else { (now - 20).max(0) };
                let start = time(&mut s, from, if rel == 0 { 150 } else { now + 150 });
                let start = start.max(0.0);
                let len = 1.0 + s.upto(160) as f64;
                let (fi, fo) = ([0.0, 1.0, 0.5, 0.25][s.upto(4)] * len, [0.0, 1.0, 0.5, 0.125][s.upto(4)] * len);
                let power = s.upto(2) == 0;
                let f = if power { Fade::Power } else { Fade::Smooth };
                let c = cell(0, ch, s.upto(1000) as i64);
                let (a, b, fi, fo) = (start / sr, (start + len) / sr, fi / sr, fo / sr);
                let id = match rel {
                    0 => q.push_relative(a, b, f, fi, fo, Box::new(c.clone())),
                    1 => q.push(a, b, f, fi, fo, Box::new(c.clone())),
                    _ => q.push_duration(a, b - a, f, fi, fo, Box::new(c.clone())),
                };
                let off = if rel == 0 { m.time() } else { 0.0 };
                m.ev.push(Ev { start: a + off, end: b + off, power, fin: fi, fout: fo, cell: Cell { rate: sr, ..c }, id: Some(id) });
            }
            3 | 4 => {
                // Shorten an event that has not ended, to a time from now on and after its fade in.
                let k = m.k as f64;
                let c: Vec<usize> = (0..m.ev.len()).filter(|i| m.ev[*i].end * sr > k + 2.0).collect();
                if c.is_empty() { continue; }
                let i = c[s.upto(c.len())];
                let e = &mut m.ev[i];
                let lo = (e.start * sr).max(k).ceil() as i64 + 1;
                let hi = (e.end * sr).floor() as i64;
                if lo > hi { continue; }
                let end = lo + s.upto((hi - lo + 1) as usize) as i64;
                let fo = [0.0, 1.0, 0.5][s.upto(3)] * (end as f64 - (e.start * sr).max(k));
                e.fout = fo / sr;
                e.end = end as f64 / sr;
                if s.upto(2) == 0 {
                    q.edit(e.id.unwrap(), e.end, e.fout);
                } else {
                    q.edit_relative(e.id.unwrap(), e.end - k / sr, e.fout);
                }
            }
            5 if s.upto(2) == 0 => {
                q.reset();
                m.reset();
            }
            6 if back.is_none() => {
                let mut c = q.clone();
                let mut n = m.clone();
                run(&mut c, &mut n, 30, &mut s);
            }
            _ => {
                let n = 1 + s.upto(100);
                match &mut back { Some(b) => run(&mut **b, &mut m, n, &mut s), None => run(&mut q, &mut m, n, &mut s) }
            }
        }
    }
    let n = 1 + s.upto(200);
    match &mut back { Some(b) => run(&mut **b, &mut m, n, &mut s), None => run(&mut q, &mut m, n, &mut s) }
    if back.is_none() { assert!((q.time() - m.time()).abs() < 1.0e-6, "time"); }
}
/// A change of sample rate keeps every event playing at the right time at the new rate.
fn n11_rate() {
    let mut s = stream();
    let mut q = Sequencer::new(s.upto(2) == 0, 1);
    q.set_sample_rate(1024.0);
    let mut m = Model { ev: vec![], k: 0, sr: 1024.0, ch: 1, replay: true };
    for _ in 0..1 + s.upto(4) {
        let (a, b) = (s.upto(100) as f64 / 512.0, s.upto(100) as f64 / 512.0);
        let c = cell(0, 1, s.upto(1000) as i64);
        q.push(a, a + b, Fade::Smooth, 0.0, 0.0, Box::new(c.clone()));
        m.ev.push(Ev { start: a, end: a + b, power: false, fin: 0.0, fout: 0.0, cell: Cell { rate: 1024.0, ..c }, id: None });
    }
    let n = 2 * s.upto(100);
    run(&mut q, &mut m, n, &mut s);
    q.set_sample_rate(512.0);
    m.sr = 512.0;
    m.k /= 2;
    for e in m.ev.iter_mut() { e.cell.rate = 512.0; }
    run(&mut q, &mut m, 150, &mut s);
}
#[derive(Clone)]
struct SlotState {
    cur: Cell,
    /// Unit fading in, its fade length in samples and shape.
    next: Option<(Cell, f64, bool)>,
    pos: f64,
    latest: Option<(Cell, f64, bool)>,
}
impl SlotState {
    /// Frame outputs, and whether each may also be that of the unit fading in alone.
    fn frame(&mut self, ch: usize) -> (Vec<f64>, Option<Vec<f32>>) {
        let (mut a, mut b) = (vec![0.0; ch], vec![0.0; ch]);
        self.cur.step(&[], &mut a);
        let Some((c, len, power)) = &mut self.next else { return (a.iter().map(|x| *x as f64).collect(), None) };
        c.step(&[], &mut b);
        let p = (self.pos / *len).min(1.0);
        let w = (ease(*power, 1.0 - p), ease(*power, p));
        self.pos += 1.0;
        let end = self.pos + 1.01 >= *len;
        ((0..ch).map(|c| a[c] as f64 * w.0 + b[c] as f64 * w.1).collect(), if end { Some(b) } else { None })
    }
    /// States possible after a call: the fade ends at its length, give or take a sample.
    fn after(self) -> Vec<SlotState> {
        let len = match &self.next { Some(x) => x.1, None => return vec![self] };
        let mut v = vec![];
        if self.pos < len + 0.01 { v.push(self.clone()); }
        if self.pos + 1.01 > len {
            let mut t = self;
            t.cur = t.next.take().unwrap().0;
            t.next = t.latest.take();
            t.pos = 0.0;
            v.push(t);
        }
        v
    }
}
/// Updates of a slot: mixture for the fade time, then the new unit alone; of updates during a fade the latest follows.
fn n12_slot() {
    let mut s = stream();
    let ch = 1 + s.upto(2);
    let mut sr = [44100.0, 1024.0, 48000.5][s.upto(3)];
    let (mut slot, mut back) = Slot::new(Box::new(cell(0, ch, 1)));
    back.set_sample_rate(sr);
    let mut states = vec![SlotState { cur: Cell { rate: sr, ..cell(0, ch, 1) }, next: None, pos: 0.0, latest: None }];
    let mut pending: Vec<(Cell, f64, bool)> = vec![];
    let mut tag = 10;
    for _ in 0..1 + s.upto(10) {
        match s.upto(6) {
            0 | 1 => {
                tag += 7;
                let len = [0.5, 10.0, 63.0, 64.0, 65.0, 100.0][s.upto(6)];
                let power = s.upto(2) == 0;
                let c = cell(0, ch, tag);
                slot.set(if power { Fade::Power } else { Fade::Smooth }, len / sr, Box::new(c.clone()));
                pending.push((Cell { rate: sr, ..c }, len, power));
            }
            2 if s.upto(3) == 0 => {
                // Reset adopts the latest unit that arrived and starts it from the beginning.
                back.reset();
                for t in states.iter_mut() {
                    if let Some(x) = t.latest.take() { t.cur = x.0; } else if let Some(x) = t.next.take() { t.cur = x.0; }
                    t.next = None;
                    t.cur.count = 0;
                }
            }
            3 if s.upto(3) == 0 => {
                // A new sample rate reaches every unit. Fades keep their length in time.
                if states.iter().any(|t| t.next.is_some()) { continue; }
                let new = [44100.0, 1024.0][s.upto(2)];
                back.set_sample_rate(new);
                for t in states.iter_mut() { t.cur.rate = new; }
                for p in pending.iter_mut() { p.0.rate = new; p.1 *= new / sr; }
                sr = new;
            }
            _ => {
                for p in pending.drain(..) {
                    for t in states.iter_mut() {
                        if t.next.is_none() { t.next = Some(p.clone()); t.pos = 0.0; } else { t.latest = Some(p.clone()); }
                    }
                }
                // One call at a time: a waiting unit starts at the call after a fade ends.
                for _ in 0..1 + s.upto(6) {
                    let block = s.upto(2) == 0;
                    let n = if block { 1 + s.upto(64) } else { 1 };
                    let mut bo = fundsp::buffer::BufferVec::new(ch);
                    let mut to = vec![0.0; ch];
                    if block { back.process(n, &fundsp::buffer::BufferRef::empty(), &mut bo.buffer_mut()); } else { back.tick(&[], &mut to); }
                    let mut possible = vec![];
                    let mut message = String::new();
                    for mut t in states.drain(..) {
                        let mut fits = true;
                        for i in 0..n {
                            let (want, alone) = t.frame(ch);
                            for c in 0..ch {
                                let got = if block { bo.at_f32(c, i) } else { to[c] };
                                let same = (got as f64 - want[c]).abs() <= 0.5 || alone.as_ref().map_or(false, |b| b[c] == got);
                                if !same && fits {
                                    fits = false;
                                    message = format!("slot: {} instead of {} (position {}, next {:?}, sr {}, n {}, i {}, alone {:?})", got, want[c], t.pos, t.next, sr, n, i, alone);
                                }
                            }
                        }
                        if fits { possible.extend(t.after()); }
                    }
                    assert!(!possible.is_empty(), "{}", message);
                    states = possible;
                }
            }
        }
    }
}
pub const LIST: &[(&str, fn())] = &[("n11_sequencer", n11_sequencer), ("n11_rate", n11_rate), ("n12_slot", n12_slot)];
