//! An opaque unit with integer-valued behaviour, and its reference meaning.
use fundsp::audiounit::AudioUnit;
use fundsp::buffer::*;
use fundsp::math::AttoHash;
use fundsp::setting::*;
use fundsp::signal::*;

/// Output j of frame number `count` is an integer mixing tag, parameter, frame number and all inputs.
#[derive(Clone, Debug, PartialEq)]
pub struct Cell {
    pub ins: usize,
    pub outs: usize,
    pub tag: i64,
    pub count: i64,
    pub param: f32,
    pub rate: f64,
}
pub const M: i64 = 4093;
pub fn cell(ins: usize, outs: usize, tag: i64) -> Cell {
    Cell { ins, outs, tag, count: 0, param: 0.0, rate: 44100.0 }
}
fn int(x: f32) -> i64 {
    (x as f64 * 4.0).rem_euclid(M as f64) as i64
}
impl Cell {
    pub fn step(&mut self, x: &[f32], y: &mut [f32]) {
        let mut a = self.tag * 131 + self.count * 17 + int(self.param) * 7 + (self.rate as i64) % 1009;
        for (i, v) in x.iter().enumerate() {
            a = (a * 31 + int(*v) * (i as i64 + 3)).rem_euclid(M);
        }
        for (j, v) in y.iter_mut().enumerate() {
            *v = ((a + 977 * j as i64).rem_euclid(M)) as f32;
        }
        self.count += 1;
    }
}
impl AudioUnit for Cell {
    fn inputs(&self) -> usize { self.ins }
    fn outputs(&self) -> usize { self.outs }
    fn reset(&mut self) { self.count = 0; }
    fn set_sample_rate(&mut self, r: f64) { self.rate = r; }
    fn tick(&mut self, x: &[f32], y: &mut [f32]) {
        assert!(x.len() == self.ins && y.len() == self.outs, "unit called with the wrong number of channels");
        self.step(x, y);
    }
    fn process(&mut self, size: usize, x: &BufferRef, y: &mut BufferMut) {
        assert!(x.channels() == self.ins && y.channels() == self.outs, "unit called with the wrong number of channels");
        let (mut a, mut b) = (vec![0.0; self.ins], vec![0.0; self.outs]);
        for i in 0..size {
            for c in 0..self.ins { a[c] = x.at_f32(c, i); }
            self.step(&a, &mut b);
            for c in 0..self.outs { y.set_f32(c, i, b[c]); }
        }
    }
    fn set(&mut self, s: Setting) {
        if let Parameter::Value(v) = s.parameter() { self.param = *v; }
    }
    fn get_id(&self) -> u64 { 5000 }
    fn ping(&mut self, _probe: bool, hash: AttoHash) -> AttoHash { hash.hash(5000) }
    fn route(&mut self, input: &SignalFrame, _f: f64) -> SignalFrame { Routing::Arbitrary(0.0).route(input, self.outs) }
    fn footprint(&self) -> usize { 0 }
    fn allocate(&mut self) {}
}
