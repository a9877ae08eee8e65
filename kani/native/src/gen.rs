//! Draws of stimuli for units.
use fvh::nd::*;
pub fn u01() -> f32 {
    (any::<u16>() as f32) / 65535.0
}
pub fn range(lo: f32, hi: f32) -> f32 {
    lo + (hi - lo) * u01()
}
pub fn pick(n: usize) -> usize {
    below(n)
}
/// Cheap stream of pseudorandom numbers from one draw, for long signals.
#[derive(Clone)]
pub struct Stream(u64);
pub fn stream() -> Stream {
    let (a, b, c) = (any::<u32>() as u64, any::<u32>() as u64, any::<u32>() as u64);
    Stream(a ^ (b << 21) ^ (c << 42) ^ 0x5555_0000_1234)
}
impl Stream {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn unit(&mut self) -> f32 {
        (self.next() >> 40) as f32 / (1u64 << 24) as f32
    }
    pub fn signed(&mut self) -> f32 {
        self.unit() * 2.0 - 1.0
    }
    pub fn upto(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}
/// Value of an input of the given kind.
pub fn input(kind: char, s: &mut Stream) -> f32 {
    match kind {
        'f' | 'F' => 30.0 * (300.0f32).powf(s.unit()),
        'q' => 0.5 + 1.5 * s.unit(),
        'g' => 0.25 + 3.0 * s.unit(),
        'p' | 'm' => s.signed(),
        'd' => 0.001 + 0.019 * s.unit(),
        'r' | 'k' => 0.1 + 0.8 * s.unit(),
        'v' => 2.0 * s.unit(),
        'w' => s.unit(),
        _ => s.signed(),
    }
}
/// A stimulus of `n` frames: audio inputs vary by sample, parameters are held for stretches.
pub fn stimulus(kinds: &str, n: usize, s: &mut Stream) -> Vec<Vec<f32>> {
    kinds
        .chars()
        .map(|k| {
            let hold = if k == 'a' { 1 } else if k == 'F' { 1000000 } else { [1, 7, 64, 100000][s.upto(4)] };
            let mut v = 0.0;
            (0..n)
                .map(|i| {
                    if i % hold == 0 {
                        v = input(k, s);
                    }
                    v
                })
                .collect()
        })
        .collect()
}
pub fn close(a: f32, b: f32, tol: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
