// Delay lines and the look-ahead window of the limiter.
//@rewrite self\.sample_rate != sample_rate => rate_differs(self.sample_rate, sample_rate) ## comparison of rates -> rate_differs (assumed contract)
//@rewrite round\(self\.time \* sample_rate\) as usize => samples_in(self.time, sample_rate) ## length of the delay in samples -> samples_in (opaque)
//@rewrite self\.buffer\.resize\(buffer_length, 0\.0\); => resize_to(&mut self.buffer, buffer_length); ## Vec::resize with zeros -> resize_to (assumed contract)
//@rewrite self\.buffer\.fill\(0\.0\); => fill_zero(&mut self.buffer); ## slice fill -> fill_zero (assumed contract)
//@rewrite \(&mut self, input: &Frame<f32, Self::Inputs>\) -> Frame<f32, Self::Outputs> => (&mut self, input: &Frame) -> Frame ## frame types -> an opaque frame
//@rewrite input\[0\] => input.first() ## first sample of the frame
//@rewrite \[output\]\.into\(\) => mono(output) ## one-channel frame
//@rewrite <T, B>\s*where\s*(?:pub )?T: Num,\s*(?:pub )?B: Monoidal<T>, =>  ## ReduceBuffer at its only use: T = f32, B = Maximum
//@rewrite <N>\s*where\s*(?:pub )?N: Size<f32>, =>  ## number of channels not modelled
//@rewrite Vec<T> => Vec<f32> ## ReduceBuffer at its only use: T = f32, B = Maximum
//@rewrite Frame<f32, N> => Frame ## frame types -> an opaque frame
//@rewrite AFollow<f32> => Follower ## level follower -> a stand-in that remembers what it was given
//@rewrite ReduceBuffer<f32, Maximum<f32>> => ReduceBuffer ## ReduceBuffer at its only use: T = f32, B = Maximum
//@rewrite binop: B\b => binop: Maximum ## ReduceBuffer at its only use: T = f32, B = Maximum
//@rewrite (value|x|y): T\b => \1: f32 ## ReduceBuffer at its only use: T = f32, B = Maximum
//@rewrite -> T\b => -> f32 ## ReduceBuffer at its only use: T = f32, B = Maximum
//@rewrite T::zero\(\) => 0.0f32 ## ReduceBuffer at its only use: T = f32, B = Maximum
//@rewrite length\.next_power_of_two\(\) => next_pow2(length) ## usize::next_power_of_two -> next_pow2 (assumed contract)
//@rewrite buffer\s*\.buffer\s*\.resize\((.*?), 0\.0f32\); => resize_to(&mut buffer.buffer, \1); ## Vec::resize with zeros -> resize_to (assumed contract)
//@rewrite (\w+)\s*\.iter\(\)\s*\.fold\(([\w.()]*), \|(\w+), &x\| max\(\3, abs\(x\)\)\) => peak_over(&\1, \2) ## largest magnitude in the frame, starting from a level -> peak_over (assumed contract)
//@rewrite peak_over\(&input => peak_over(input ## input is a reference already
//@rewrite self\.follower\s*\.filter_mono\(max\(1\.0, self\.reducer\.total\(\) \* 1\.10\)\); => self.follower.feed(self.reducer.total()); ## the follower is given the total with headroom -> feed
//@rewrite Frame::default\(\) => silent() ## zero frame
//@rewrite output \* Frame::splat\(1\.0 / limit\) => scaled(output, limit) ## product of frames -> scaled (opaque)
//@rewrite (input|self\.buffer\[self\.index\])\.clone\(\) => copy_of(&\1) ## copies of frames
//@rewrite copy_of\(&input\) => copy_of(input) ## copies of frames
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub fn rt_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn rate_differs(x: f64, y: f64) -> (r: bool) ensures r == (x != y) { x != y }
pub uninterp spec fn in_samples(t: f64, r: f64) -> usize;
#[verifier::external_body]
pub fn samples_in(t: f64, r: f64) -> (n: usize) ensures n == in_samples(t, r), n < usize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn resize_to(v: &mut Vec<f32>, n: usize) ensures final(v).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)[i] == (if i < old(v).len() { old(v)[i] } else { 0.0f32 }) { v.resize(n, 0.0) }
#[verifier::external_body]
pub fn fill_zero(v: &mut Vec<f32>) ensures final(v).len() == old(v).len(), forall|i: int| 0 <= i < final(v).len() ==> #[trigger] final(v)[i] == 0.0f32 { v.fill(0.0) }
#[verifier::external_body]
pub fn next_pow2(n: usize) -> (r: usize) requires n < 0x1_0000_0000_0000 ensures r >= n, r >= 1, r < 0x2_0000_0000_0000, r == 1 || r % 2 == 0, n >= 2 ==> r % 2 == 0, n <= 1 ==> r == 1 { n.next_power_of_two() }
// Frames of samples: opaque.
#[verifier::external_body]
pub struct Frame { x: u64 }
pub uninterp spec fn zero_frame() -> Frame;
pub uninterp spec fn times(f: Frame, g: f32) -> Frame;
impl Frame {
    pub uninterp spec fn head(&self) -> f32;
    pub uninterp spec fn peak(&self) -> f32;
    #[verifier::external_body]
    pub fn first(&self) -> (r: f32) ensures r == self.head() { unimplemented!() }
}
#[verifier::external_body]
pub fn mono(x: f32) -> (r: Frame) ensures r.head() == x { unimplemented!() }
#[verifier::external_body]
pub fn silent() -> (r: Frame) ensures r == zero_frame() { unimplemented!() }
#[verifier::external_body]
pub fn copy_of(f: &Frame) -> (r: Frame) ensures r == *f { unimplemented!() }
#[verifier::external_body]
pub fn scaled(f: Frame, limit: f32) -> (r: Frame) ensures r == times(f, limit) { unimplemented!() }
// Order of sample magnitudes (numbers, no NaN).
pub uninterp spec fn le(a: f32, b: f32) -> bool;
#[verifier::external_body]
pub broadcast proof fn le_refl(a: f32) ensures #[trigger] le(a, a) { }
#[verifier::external_body]
pub proof fn le_trans(a: f32, b: f32, c: f32) requires le(a, b), le(b, c) ensures le(a, c) { }
pub open spec fn pick(r: f32, x: f32, y: f32) -> bool { (r == x || r == y) && le(x, r) && le(y, r) }
#[verifier::external_body]
pub fn max(x: f32, y: f32) -> (r: f32) ensures pick(r, x, y) { if x > y { x } else { y } }
#[verifier::external_body]
pub fn peak_over(f: &Frame, level: f32) -> (r: f32) ensures pick(r, level, f.peak()), level == 0.0f32 ==> r == f.peak() { unimplemented!() }
#[verifier::external_body]
pub struct Follower { x: u64 }
impl Follower {
    /// The level it was given last.
    pub uninterp spec fn fed(&self) -> f32;
    pub uninterp spec fn level(&self) -> f32;
    #[verifier::external_body]
    pub fn feed(&mut self, x: f32) ensures final(self).fed() == x { unimplemented!() }
    #[verifier::external_body]
    pub fn set_value(&mut self, x: f32) ensures final(self).fed() == x { unimplemented!() }
    #[verifier::external_body]
    pub fn value(&self) -> (r: f32) ensures r == self.level() { unimplemented!() }
    pub uninterp spec fn at_start(&self) -> bool;
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self).at_start() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_sample_rate(&mut self, r: f64) ensures final(self).at_start() == old(self).at_start() { unimplemented!() }
}
// ---------------------------------------------------------------- single sample delay
//@item src/delay.rs struct Delay
impl Delay {
    pub open spec fn wf(&self) -> bool { self.buffer.len() == self.time_in_samples + 1 && self.i < self.buffer.len() }
    /// The last time_in_samples inputs, oldest first.
    pub open spec fn line(&self) -> Seq<f32> { Seq::new(self.time_in_samples as nat, |k: int| self.buffer[ring(self.i + 1 + k, self.buffer.len() as int)]) }
//@fn src/delay.rs Delay::reset
requires old(self).buffer.len() == old(self).time_in_samples + 1,
ensures final(self).wf(), final(self).time_in_samples == old(self).time_in_samples, final(self).time == old(self).time, final(self).sample_rate == old(self).sample_rate,
    forall|k: int| 0 <= k < final(self).line().len() ==> #[trigger] final(self).line()[k] == 0.0f32,
//@end
//@fn src/delay.rs Delay::set_sample_rate
requires old(self).sample_rate == sample_rate ==> old(self).wf(),
ensures final(self).wf(), final(self).sample_rate == sample_rate, final(self).time == old(self).time,
    old(self).sample_rate == sample_rate ==> *final(self) == *old(self),
    old(self).sample_rate != sample_rate ==> final(self).time_in_samples == in_samples(old(self).time, sample_rate) && (forall|k: int| 0 <= k < final(self).line().len() ==> #[trigger] final(self).line()[k] == 0.0f32),
//@end
//@fn src/delay.rs Delay::tick
//@ret r
requires old(self).wf(),
ensures final(self).wf(), final(self).time_in_samples == old(self).time_in_samples, final(self).time == old(self).time, final(self).sample_rate == old(self).sample_rate,
    // Out comes the oldest sample of the line with the input at its end.
    r.head() == old(self).line().push(input.head())[0], final(self).line() == old(self).line().push(input.head()).skip(1),
//@post let output = self\.buffer\[self\.i\];
proof { assert(self.line() =~= old(self).line().push(input.head()).skip(1)); }
//@end
}
pub open spec fn ring(a: int, n: int) -> int { if a >= n { a - n } else { a } }
/// What a delay line puts out for a sequence of inputs, by its contract.
pub open spec fn run(l: Seq<f32>, x: Seq<f32>) -> Seq<f32>
    decreases x.len()
{
    if x.len() == 0 { Seq::empty() } else { seq![l.push(x[0])[0]] + run(l.push(x[0]).skip(1), x.skip(1)) }
}
/// Output k is the sample that entered as many samples ago as the line is long.
pub proof fn delay_is_exact(l: Seq<f32>, x: Seq<f32>, k: int)
    requires 0 <= k < x.len()
    ensures run(l, x).len() == x.len(), run(l, x)[k] == (l + x)[k]
    decreases x.len()
{
    let m = l.push(x[0]).skip(1);
    let y = x.skip(1);
    assert(m.len() == l.len());
    assert(m + y =~= (l + x).skip(1));
    if x.len() > 1 { delay_is_exact(m, y, if k > 0 { k - 1 } else { 0 }); } else { assert(y.len() == 0); assert(run(m, y).len() == 0); }
    assert(l.push(x[0])[0] == (l + x)[0]);
}
// ---------------------------------------------------------------- maximum over a window
pub struct Maximum {}
impl Maximum {
    #[verifier::external_body]
    pub fn new() -> Self { Maximum {} }
//@fn src/dynamics.rs Maximum::binop
//@ret r
ensures pick(r, x, y),
//@end
}
//@item src/dynamics.rs struct ReduceBuffer
pub open spec fn anc(j: int, i: int) -> bool
    decreases i
{
    if i <= 1 { false } else { i / 2 == j || anc(j, i / 2) }
}
impl ReduceBuffer {
    pub open spec fn shape(&self) -> bool {
        &&& 1 <= self.length < 0x1_0000_0000_0000 && self.length <= self.leaf_offset < 0x2_0000_0000_0000
        &&& (self.length >= 2 ==> self.leaf_offset % 2 == 0) && (self.length == 1 ==> self.leaf_offset == 1)
        &&& self.buffer.len() == self.leaf_offset + self.length + self.length % 2
    }
    /// Inner node j is the larger of its children, or zero if it has none.
    pub open spec fn node(&self, j: int) -> bool {
        if 2 * j + 1 < self.buffer.len() { pick(self.buffer[j], self.buffer[2 * j], self.buffer[2 * j + 1]) } else { self.buffer[j] == 0.0f32 }
    }
    pub open spec fn pad(&self) -> bool { self.length >= 2 && self.length % 2 == 1 ==> self.buffer[self.leaf_offset + self.length] == 0.0f32 }
    pub open spec fn wf(&self) -> bool { self.shape() && self.pad() && forall|j: int| 1 <= j < self.leaf_offset ==> #[trigger] self.node(j) }
    pub open spec fn leaves(&self) -> Seq<f32> { self.buffer@.subrange(self.leaf_offset as int, self.leaf_offset + self.length) }
    pub proof fn below(&self, i: int)
        requires self.wf(), 1 <= i < self.buffer.len(), self.length >= 2 || i == 1
        ensures le(self.buffer[i], self.buffer[1])
        decreases i
    {
        broadcast use le_refl;
        if i > 1 {
            let p = i / 2;
            assert(self.node(p));
            self.below(p);
            le_trans(self.buffer[i], self.buffer[p], self.buffer[1]);
        }
    }
    pub open spec fn from_leaf(&self, v: f32) -> bool { v == 0.0f32 || exists|k: int| 0 <= k < self.length && self.leaves()[k] == v }
    pub proof fn source(&self, i: int)
        requires self.wf(), 1 <= i < self.leaf_offset + self.length + (if self.length >= 2 { self.length % 2 } else { 0 })
        ensures self.from_leaf(self.buffer[i])
        decreases self.buffer.len() - i
    {
        if i < self.leaf_offset {
            assert(self.node(i));
            if 2 * i + 1 < self.buffer.len() { self.source(2 * i); self.source(2 * i + 1); }
        } else if i < self.leaf_offset + self.length {
            assert(self.leaves()[i - self.leaf_offset] == self.buffer[i]);
        }
    }
//@fn src/dynamics.rs ReduceBuffer::get_index
//@ret r
requires self.shape(), i < self.length,
ensures r == self.leaf_offset + i,
//@end
//@fn src/dynamics.rs ReduceBuffer::new
//@ret r
requires 1 <= length < 0x1_0000_0000_0000,
ensures r.wf(), r.length == length, forall|k: int| 0 <= k < length ==> #[trigger] r.leaves()[k] == 0.0f32,
//@top
broadcast use le_refl;
assert(length & 1 == length % 2) by(bit_vector);
//@end
//@fn src/dynamics.rs ReduceBuffer::length
//@ret r
ensures r == self.length,
//@end
//@fn src/dynamics.rs ReduceBuffer::total
//@ret r
requires self.wf(),
ensures forall|k: int| 0 <= k < self.length ==> le(#[trigger] self.leaves()[k], r), self.from_leaf(r),
//@top
proof {
    self.source(1);
    assert forall|k: int| 0 <= k < self.length implies le(#[trigger] self.leaves()[k], self.buffer[1]) by { self.below(self.leaf_offset + k); }
}
//@end
//@fn src/dynamics.rs ReduceBuffer::set
requires old(self).wf(), index < old(self).length,
ensures final(self).wf(), final(self).length == old(self).length, final(self).leaves() == old(self).leaves().update(index as int, value),
//@loops 1
//@before 0
proof {
    assert forall|j: int| 1 <= j < self.leaf_offset && !anc(j, i as int) implies #[trigger] self.node(j) by { assert(old(self).node(j)); }
}
//@loop 0
invariant self.shape(), self.pad(), self.length == old(self).length, self.leaf_offset == old(self).leaf_offset, 1 <= i < self.leaf_offset + self.length,
    forall|j: int| 1 <= j < self.leaf_offset && !anc(j, i as int) ==> #[trigger] self.node(j),
    self.leaves() =~= old(self).leaves().update(index as int, value),
decreases i,
//@in 0
let ghost s0 = *self;
let ghost i0 = i;
assert(i ^ 1 == if i % 2 == 0 { (i + 1) as usize } else { (i - 1) as usize }) by(bit_vector) requires 1 <= i < 0x7fff_ffff_ffff_ffff;
assert(i >> 1 == i / 2) by(bit_vector);
//@inend 0
proof {
    assert(i == i0 / 2);
    assert(self.node(i as int));
    assert forall|j: int| 1 <= j < self.leaf_offset && !anc(j, i as int) implies #[trigger] self.node(j) by {
        if j != i { assert(!anc(j, i0 as int)); assert(s0.node(j)); assert(i > 1 ==> anc(i as int / 2, i as int)); }
    }
}
//@end
//@fn src/dynamics.rs ReduceBuffer::clear
requires old(self).shape(),
ensures final(self).wf(), final(self).length == old(self).length, forall|k: int| 0 <= k < final(self).length ==> #[trigger] final(self).leaves()[k] == 0.0f32,
//@top
broadcast use le_refl;
//@loops 1
//@loop 0
invariant self.shape(), self.length == old(self).length, self.leaf_offset == old(self).leaf_offset, end_0 == self.buffer.len(), forall|k: int| 0 <= k < i ==> #[trigger] self.buffer[k] == 0.0f32,
//@end
}
// ---------------------------------------------------------------- limiter
//@item src/dynamics.rs struct Limiter
/// Length of the look-ahead in samples.
pub uninterp spec fn window(rate: f64, lookahead: f64) -> usize;
/// Frame f scaled down by a level which is at least the given one and at least its own peak.
pub open spec fn at_gain(r: Frame, f: Frame, level: f32) -> bool { exists|g: f32| #[trigger] times(f, g) == r && pick(g, level, f.peak()) }
impl Limiter {
    pub open spec fn wf(&self) -> bool {
        &&& self.reducer.wf() && self.buffer.len() <= self.reducer.length && self.index < self.reducer.length
        &&& self.buffer.len() < self.reducer.length ==> self.index == self.buffer.len()
        // The window holds the peaks of exactly the frames that wait in the buffer.
        &&& forall|k: int| #![trigger self.reducer.leaves()[k]] #![trigger self.buffer[k]] 0 <= k < self.buffer.len() ==> self.reducer.leaves()[k] == self.buffer[k].peak()
        &&& forall|k: int| self.buffer.len() <= k < self.reducer.length ==> #[trigger] self.reducer.leaves()[k] == 0.0f32
    }
    /// Frames on their way through, oldest first.
    pub open spec fn line(&self) -> Seq<Frame> {
        if self.buffer.len() < self.reducer.length { self.buffer@ } else { Seq::new(self.buffer.len() as nat, |k: int| self.buffer[ring(self.index + k, self.buffer.len() as int)]) }
    }
    /// The level given to the follower is at least the peak of every frame on its way.
    pub open spec fn covered(&self) -> bool { forall|k: int| 0 <= k < self.reducer.length ==> le(#[trigger] self.reducer.leaves()[k], self.follower.fed()) }
    pub proof fn covers_the_line(&self, k: int)
        requires self.wf(), self.covered(), 0 <= k < self.line().len()
        ensures le(self.line()[k].peak(), self.follower.fed())
    {
        let j = if self.buffer.len() < self.reducer.length { k } else { ring(self.index + k, self.buffer.len() as int) };
        assert(self.reducer.leaves()[j] == self.buffer[j].peak());
    }
    #[verifier::external_body]
    fn buffer_length(sample_rate: f64, lookahead: f64) -> (r: usize) ensures r == window(sample_rate, lookahead), 1 <= r < 0x1_0000_0000_0000 { unimplemented!() }
//@fn src/dynamics.rs Limiter::new_buffer
//@ret r
ensures r.wf(), r.length == window(sample_rate, lookahead), forall|k: int| 0 <= k < r.length ==> #[trigger] r.leaves()[k] == 0.0f32,
//@end
//@fn src/dynamics.rs Limiter::advance
requires old(self).index < old(self).reducer.length, old(self).reducer.length < 0x1_0000_0000_0000,
ensures *final(self) == (Limiter { index: final(self).index, ..*old(self) }), final(self).index == ring(old(self).index + 1, old(self).reducer.length as int),
//@end
//@fn src/dynamics.rs Limiter::set_sample_rate
requires old(self).wf(),
ensures final(self).wf(), final(self).sample_rate == sample_rate, final(self).lookahead == old(self).lookahead, final(self).line().len() == 0, final(self).follower.at_start(),
    final(self).reducer.length == window(sample_rate, final(self).lookahead),
//@end
//@fn src/dynamics.rs Limiter::reset
requires old(self).wf(),
ensures final(self).wf(), final(self).line().len() == 0, final(self).follower.at_start(), final(self).sample_rate == old(self).sample_rate,
//@end
//@fn src/dynamics.rs Limiter::tick
//@ret r
requires old(self).wf(),
ensures final(self).wf(), final(self).reducer.length == old(self).reducer.length, final(self).sample_rate == old(self).sample_rate, final(self).lookahead == old(self).lookahead,
    // Silence until the window is full, then the oldest frame at the gain of the moment.
    old(self).line().len() < old(self).reducer.length ==> r == zero_frame() && final(self).line() == old(self).line().push(*input),
    old(self).line().len() == old(self).reducer.length ==> at_gain(r, old(self).line()[0], final(self).follower.level()) && final(self).line() == old(self).line().push(*input).skip(1),
    final(self).line().len() == old(self).reducer.length ==> final(self).covered(),
//@end
}
fn main() {}
}
