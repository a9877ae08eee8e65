//! Opaque component nodes. A combinator is verified against children about which
//! nothing is known except the `AudioNode` contract: outputs are an injective-ish bit mix
//! of a symbolic internal state and all inputs, so any rerouting, duplication or loss of a
//! channel, sample or call changes some output bit.
use crate::nd::*;
pub use fundsp::buffer::*;
pub use fundsp::hacker32::*;
pub use fundsp::{Frame, Size};
use core::marker::PhantomData;

#[derive(Clone)]
pub struct Op<I, O> {
    /// Internal state: evolves with every tick.
    pub s: u32,
    pub ticks: u32,
    pub blocks: u32,
    pub block_size: usize,
    pub resets: u32,
    pub rates: u32,
    pub rate: f64,
    pub allocs: u32,
    pub hashes: u32,
    pub hash: u64,
    pub probes: u32,
    pub sets: u32,
    pub set_value: f32,
    pub set_null: bool,
    /// Witness sample of block processing.
    pub t: usize,
    /// Emit small integers (sums and products of which are exact) instead of arbitrary bits.
    pub small: bool,
    _m: PhantomData<(I, O)>,
}

pub fn mix<I: Size<f32>>(s: u32, input: &Frame<f32, I>) -> u32 {
    let mut acc = s;
    for i in 0..I::USIZE {
        acc = acc.rotate_left(7) ^ input[i].to_bits();
    }
    acc
}
pub fn out_of<O: Size<f32>>(acc: u32) -> Frame<f32, O> {
    Frame::generate(|j| f32::from_bits(acc.rotate_left(3 * j as u32)))
}
/// The mixed word folded to a small integer.
pub fn out_small<O: Size<f32>>(acc: u32) -> Frame<f32, O> {
    let b = (acc ^ (acc >> 8) ^ (acc >> 16) ^ (acc >> 24)) as u8;
    Frame::generate(|j| b.rotate_left(3 * j as u32) as i8 as f32)
}

impl<I: Size<f32>, O: Size<f32>> AudioNode for Op<I, O> {
    const ID: u64 = 1000;
    type Inputs = I;
    type Outputs = O;
    fn reset(&mut self) {
        self.resets += 1;
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        self.rates += 1;
        self.rate = sample_rate;
    }
    fn tick(&mut self, input: &Frame<f32, I>) -> Frame<f32, O> {
        let acc = mix(self.s, input);
        self.s = acc ^ 0x9e3779b9;
        self.ticks += 1;
        if self.small { out_small(acc) } else { out_of(acc) }
    }
    /// Block contract of a component, at the witness sample `t`: the output at `t` is a
    /// function of the inputs at `t`; nothing is known about any other sample.
    fn process(&mut self, size: usize, input: &BufferRef, output: &mut BufferMut) {
        self.blocks += 1;
        self.block_size = size;
        assert!(input.channels() == I::USIZE && output.channels() == O::USIZE);
        if self.t < size {
            let f: Frame<f32, I> = Frame::generate(|i| input.at_f32(i, self.t));
            let acc = mix(self.s, &f);
            let o: Frame<f32, O> = if self.small { out_small(acc) } else { out_of(acc) };
            for j in 0..O::USIZE {
                output.set_f32(j, self.t, o[j]);
            }
        }
    }
    fn set(&mut self, setting: Setting) {
        self.sets += 1;
        if let Parameter::Value(v) = setting.parameter() {
            self.set_value = *v;
        }
        self.set_null = matches!(setting.direction(), Address::Null);
    }
    fn set_hash(&mut self, hash: u64) {
        self.hashes += 1;
        self.hash = hash;
    }
    fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
        if probe {
            self.probes += 1;
        } else {
            self.set_hash(hash.state());
        }
        hash.hash(Self::ID)
    }
    fn allocate(&mut self) {
        self.allocs += 1;
    }
}

/// A component in an arbitrary state.
pub fn op<I: Size<f32>, O: Size<f32>>() -> Op<I, O> {
    op_at(0)
}
/// The same, with witness sample `t`.
pub fn op_at<I: Size<f32>, O: Size<f32>>(t: usize) -> Op<I, O> {
    Op {
        s: any(),
        ticks: 0,
        blocks: 0,
        block_size: 0,
        resets: 0,
        rates: 0,
        rate: 0.0,
        allocs: 0,
        hashes: 0,
        hash: 0,
        probes: 0,
        sets: 0,
        set_value: 0.0,
        set_null: false,
        t,
        small: false,
        _m: PhantomData,
    }
}
/// A component with small integer outputs.
pub fn ops_at<I: Size<f32>, O: Size<f32>>(t: usize) -> Op<I, O> {
    let mut o = op_at(t);
    o.small = true;
    o
}
/// An arbitrary input frame.
pub fn frame<N: Size<f32>>() -> Frame<f32, N> {
    Frame::generate(|_| any::<f32>())
}
/// An arbitrary frame of integers in -1000..=1000, for which short sums are exact.
pub fn int_frame<N: Size<f32>>() -> Frame<f32, N> {
    Frame::generate(|_| {
        let x: i16 = any();
        assume(x >= -1000 && x <= 1000);
        x as f32
    })
}
pub fn frame_bits<N: Size<f32>>(a: &Frame<f32, N>, b: &Frame<f32, N>) -> bool {
    let mut ok = true;
    for i in 0..N::USIZE {
        ok &= a[i].to_bits() == b[i].to_bits();
    }
    ok
}
pub fn frame_same<N: Size<f32>>(a: &Frame<f32, N>, b: &Frame<f32, N>) -> bool {
    let mut ok = true;
    for i in 0..N::USIZE {
        ok &= same(a[i], b[i]);
    }
    ok
}
/// Frame from a slice.
pub fn fr<N: Size<f32>>(x: &[f32]) -> Frame<f32, N> {
    Frame::generate(|i| x[i])
}

/// What a component hidden inside a wrapper has experienced.
#[derive(Default)]
pub struct Rec {
    pub resets: AtomicU32,
    pub rates: AtomicU32,
    pub rate: AtomicU64,
    pub allocs: AtomicU32,
    pub hashes: AtomicU32,
    pub hash: AtomicU64,
    pub probes: AtomicU32,
    pub sets: AtomicU32,
    pub set_value: AtomicU32,
    pub set_levels: AtomicU32,
    pub routes: AtomicU32,
    pub ticks: AtomicU32,
}
pub fn ld(a: &AtomicU32) -> u32 {
    a.load(Ordering::Relaxed)
}
fn inc(a: &AtomicU32) {
    a.store(ld(a) + 1, Ordering::Relaxed)
}
use core::sync::atomic::{AtomicU32, AtomicU64, Ordering};
/// A leaf that records lifecycle calls in a shared place, for wrappers without accessors.
#[derive(Clone)]
pub struct Spy<I, O> {
    pub r: &'static Rec,
    _m: PhantomData<(I, O)>,
}
#[cfg(kani)]
pub fn rec() -> &'static Rec {
    Box::leak(Box::new(Rec::default()))
}
/// Natively: a per-thread pool, recycled by every run of a contract.
#[cfg(not(kani))]
pub fn rec() -> &'static Rec {
    thread_local! { static POOL: core::cell::RefCell<(usize, Vec<&'static Rec>)> = core::cell::RefCell::new((0, Vec::new())); }
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        if p.1.is_empty() {
            p.1 = (0..64).map(|_| &*Box::leak(Box::new(Rec::default()))).collect();
        }
        p.0 = (p.0 + 1) % 64;
        let r = p.1[p.0];
        for a in [&r.resets, &r.rates, &r.allocs, &r.hashes, &r.probes, &r.sets, &r.set_value, &r.set_levels, &r.routes, &r.ticks] {
            a.store(0, Ordering::Relaxed);
        }
        r.rate.store(0, Ordering::Relaxed);
        r.hash.store(0, Ordering::Relaxed);
        r
    })
}
pub fn spy<I: Size<f32>, O: Size<f32>>() -> Spy<I, O> {
    Spy { r: rec(), _m: PhantomData }
}
impl<I: Size<f32>, O: Size<f32>> AudioNode for Spy<I, O> {
    const ID: u64 = 1000;
    type Inputs = I;
    type Outputs = O;
    fn reset(&mut self) {
        inc(&self.r.resets);
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        inc(&self.r.rates);
        self.r.rate.store(sample_rate.to_bits(), Ordering::Relaxed);
    }
    fn tick(&mut self, _input: &Frame<f32, I>) -> Frame<f32, O> {
        inc(&self.r.ticks);
        Frame::generate(|j| j as f32)
    }
    fn set(&mut self, setting: Setting) {
        inc(&self.r.sets);
        if let Parameter::Value(v) = setting.parameter() {
            self.r.set_value.store(v.to_bits(), Ordering::Relaxed);
        }
        // Levels are looked at one deep: peeling is the business of structural nodes.
        let n = !matches!(setting.direction(), Address::Null) as u32;
        self.r.set_levels.store(n, Ordering::Relaxed);
    }
    fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
        if probe {
            inc(&self.r.probes);
        } else {
            inc(&self.r.hashes);
            self.r.hash.store(hash.state(), Ordering::Relaxed);
        }
        hash.hash(Self::ID)
    }
    fn route(&mut self, _input: &SignalFrame, _frequency: f64) -> SignalFrame {
        inc(&self.r.routes);
        SignalFrame::new(O::USIZE)
    }
    fn allocate(&mut self) {
        inc(&self.r.allocs);
    }
}
