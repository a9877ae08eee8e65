// Wave: shape and contents under editing, and the wave player.
//@rewrite self\.vec\[channel\]\[index\] \+= value; => self.vec[channel][index] = fadd(self.vec[channel][index], value); ## += on samples -> fadd (opaque)
//@rewrite Vec::with_capacity\(channels\) => Vec::<Vec<f32>>::with_capacity(channels) ## type annotation
//@rewrite self\.at\(channel, i\) \* amplitude => fmul(self.at(channel, i), amplitude) ## product of samples -> fmul (opaque)
//@rewrite self\.at\(channel, i\) \* z => fmul(self.at(channel, i), z) ## product of samples -> fmul (opaque)
//@rewrite self\.vec\.push\(samples\.into\(\)\) => self.vec.push(to_vec(samples)) ## slice into Vec -> to_vec (assumed contract)
//@rewrite self\.vec\.insert\(channel, samples\.into\(\)\) => self.vec.insert(channel, to_vec(samples)) ## slice into Vec -> to_vec (assumed contract)
//@rewrite alloc::vec!\[Vec::from\(samples\); 1\] => one(to_vec(samples)) ## vec![x; 1] -> one (assumed contract)
//@rewrite self\.vec\[channel\]\.resize\(length, 0\.0\) => resize_to(&mut self.vec[channel], length) ## Vec::resize with zeros -> resize_to (assumed contract)
//@rewrite push<T: ConstantFrame<Sample = f32>>\(&mut self, frame: T\) => push(&mut self, frame: &[f32]) ## generic frame -> slice of its samples
//@rewrite let frame = frame\.frame\(\); =>  ## generic frame -> slice of its samples
//@rewrite T::Size::USIZE => frame.len() ## generic frame -> slice of its samples
//@rewrite wave: &Arc<Wave> => wave: &Wave ## Arc -> the wave itself
//@rewrite wave: wave\.clone\(\) => wave: copy_of(wave) ## Arc::clone -> copy_of (assumed contract: the same wave)
//@rewrite _input: &Frame<f32, Self::Inputs> => _input: &[f32] ## frame types
//@rewrite Frame<f32, Self::Outputs> => f32 ## one-channel output frame -> its sample
//@rewrite \[convert\(value\)\]\.into\(\) => value ## one-channel output frame -> its sample
//@rewrite \[0\.0\]\.into\(\) => 0.0f32 ## one-channel output frame -> its sample
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub fn rt_assert(b: bool) requires b { }
pub uninterp spec fn add(a: f32, b: f32) -> f32;
pub uninterp spec fn mul(a: f32, b: f32) -> f32;
#[verifier::external_body]
pub fn fadd(a: f32, b: f32) -> (r: f32) ensures r == add(a, b) { a + b }
#[verifier::external_body]
pub fn fmul(a: f32, b: f32) -> (r: f32) ensures r == mul(a, b) { a * b }
pub trait Num: Sized { spec fn num(self) -> int; }
impl Num for usize { open spec fn num(self) -> int { self as int } }
impl Num for isize { open spec fn num(self) -> int { self as int } }
#[verifier::external_body]
pub fn max<T: Num>(a: T, b: T) -> (r: T) ensures r == a || r == b, r.num() >= a.num(), r.num() >= b.num() { unimplemented!() }
#[verifier::external_body]
pub fn min<T: Num>(a: T, b: T) -> (r: T) ensures r == a || r == b, r.num() <= a.num(), r.num() <= b.num() { unimplemented!() }
#[verifier::external_body]
pub fn to_vec(s: &[f32]) -> (r: Vec<f32>) ensures r@ == s@ { Vec::from(s) }
#[verifier::external_body]
pub fn resize_to(v: &mut Vec<f32>, n: usize) ensures final(v).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)[i] == (if i < old(v).len() { old(v)[i] } else { 0.0f32 }) { v.resize(n, 0.0) }
#[verifier::external_body]
pub fn one(v: Vec<f32>) -> (r: Vec<Vec<f32>>) ensures r@ == seq![v] { vec![v; 1] }
#[verifier::external_body]
pub fn copy_of(w: &Wave) -> (r: Wave) ensures r == *w { unimplemented!() }
//@item src/wave.rs struct Wave
pub struct WavePlayer { pub wave: Wave, pub channel: usize, pub index: usize, pub start_point: usize, pub end_point: usize, pub loop_point: Option<usize> }
pub open spec fn big() -> int { 0x1_0000_0000_0000 }
impl Wave {
    /// Every channel has the length of the wave.
    pub open spec fn wf(&self) -> bool {
        &&& forall|c: int| 0 <= c < self.vec.len() ==> (#[trigger] self.vec[c]).len() == self.len
        &&& self.vec.len() == 0 ==> self.len == 0
    }
    pub open spec fn same_but(&self, o: &Wave, c: int) -> bool { self.vec.len() == o.vec.len() && self.len == o.len && self.sample_rate == o.sample_rate && forall|d: int| 0 <= d < self.vec.len() && d != c ==> #[trigger] self.vec[d] == o.vec[d] }
//@fn src/wave.rs Wave::new
//@ret r
ensures r.wf(), r.vec.len() == channels, r.len == 0, r.sample_rate == sample_rate,
//@loops 1
//@loop 0
invariant vec.len() == _i, forall|c: int| 0 <= c < vec.len() ==> (#[trigger] vec[c]).len() == 0,
//@end
//@fn src/wave.rs Wave::with_capacity
//@ret r
ensures r.wf(), r.vec.len() == channels, r.len == 0, r.sample_rate == sample_rate,
//@loops 1
//@loop 0
invariant vec.len() == _i, forall|c: int| 0 <= c < vec.len() ==> (#[trigger] vec[c]).len() == 0,
//@end
//@fn src/wave.rs Wave::from_samples
//@ret r
ensures r.wf(), r.vec.len() == 1, r.vec[0]@ == samples@, r.sample_rate == sample_rate,
//@end
//@fn src/wave.rs Wave::channels
//@ret r
ensures r == self.vec.len(),
//@end
//@fn src/wave.rs Wave::length
//@ret r
ensures r == self.len,
//@end
//@fn src/wave.rs Wave::len
//@ret r
ensures r == self.len,
//@end
//@fn src/wave.rs Wave::is_empty
//@ret r
ensures r == (self.len == 0),
//@end
//@fn src/wave.rs Wave::channel
//@ret r
requires channel < self.vec.len(),
ensures *r == self.vec[channel as int],
//@end
//@fn src/wave.rs Wave::set_sample_rate
ensures *final(self) == (Wave { sample_rate: sample_rate, ..*old(self) }),
//@end
//@fn src/wave.rs Wave::push_channel
requires old(self).wf(), old(self).vec.len() == 0 || old(self).len == samples.len(), old(self).vec.len() < usize::MAX,
ensures final(self).wf(), final(self).sample_rate == old(self).sample_rate, final(self).vec.len() == old(self).vec.len() + 1, final(self).len == samples.len(),
    final(self).vec[old(self).vec.len() as int]@ == samples@, forall|c: int| 0 <= c < old(self).vec.len() ==> #[trigger] final(self).vec[c] == old(self).vec[c],
//@end
//@fn src/wave.rs Wave::insert_channel
requires old(self).wf(), old(self).vec.len() == 0 || old(self).len == samples.len(), channel <= old(self).vec.len(), old(self).vec.len() < usize::MAX,
ensures final(self).wf(), final(self).sample_rate == old(self).sample_rate, final(self).vec.len() == old(self).vec.len() + 1, final(self).len == samples.len(),
    final(self).vec[channel as int]@ == samples@, forall|c: int| 0 <= c < channel ==> #[trigger] final(self).vec[c] == old(self).vec[c],
    forall|c: int| channel < c < final(self).vec.len() ==> #[trigger] final(self).vec[c] == old(self).vec[c - 1],
//@end
//@fn src/wave.rs Wave::remove_channel
//@ret r
requires old(self).wf(), channel < old(self).vec.len(),
ensures final(self).wf(), final(self).sample_rate == old(self).sample_rate, final(self).vec.len() == old(self).vec.len() - 1, r == old(self).vec[channel as int],
    final(self).vec.len() > 0 ==> final(self).len == old(self).len,
    forall|c: int| 0 <= c < channel ==> #[trigger] final(self).vec[c] == old(self).vec[c],
    forall|c: int| channel <= c < final(self).vec.len() ==> #[trigger] final(self).vec[c] == old(self).vec[c + 1],
//@end
//@fn src/wave.rs Wave::at
//@ret r
requires self.wf(), channel < self.vec.len(), index < self.len,
ensures r == self.vec[channel as int][index as int],
//@end
//@fn src/wave.rs Wave::set
requires old(self).wf(), channel < old(self).vec.len(), index < old(self).len,
ensures final(self).wf(), final(self).same_but(old(self), channel as int), final(self).vec[channel as int]@ == old(self).vec[channel as int]@.update(index as int, value),
//@end
//@fn src/wave.rs Wave::mix
requires old(self).wf(), channel < old(self).vec.len(), index < old(self).len,
ensures final(self).wf(), final(self).same_but(old(self), channel as int), final(self).vec[channel as int]@ == old(self).vec[channel as int]@.update(index as int, add(old(self).vec[channel as int][index as int], value)),
//@end
//@fn src/wave.rs Wave::mix_channel
requires old(self).wf(), channel < old(self).vec.len(), old(self).len < big(), samples.len() < big(), -big() < offset < big(),
ensures final(self).wf(), final(self).same_but(old(self), channel as int),
    // Exactly the samples under the span are mixed into.
    forall|i: int| 0 <= i < old(self).len ==> #[trigger] final(self).vec[channel as int][i] == (if 0 <= i - offset < samples.len() { add(old(self).vec[channel as int][i], samples[i - offset]) } else { old(self).vec[channel as int][i] }),
//@loops 1
//@loop 0
invariant self.wf(), self.same_but(old(self), channel as int), channel < self.vec.len(), old(self).wf(), self.len < big(), samples.len() < big(), -big() < offset < big(), start_0 >= 0, start_0 >= offset, start_0 == 0 || start_0 == offset, start_0 <= end_0 ==> start_0 <= i, end_0 <= self.len, end_0 <= offset + samples.len(),
    forall|k: int| 0 <= k < self.len ==> #[trigger] self.vec[channel as int][k] == (if 0 <= k - offset < samples.len() && start_0 <= end_0 && k < i { add(old(self).vec[channel as int][k], samples[k - offset]) } else { old(self).vec[channel as int][k] }),
//@end
//@fn src/wave.rs Wave::resize
requires old(self).wf(), old(self).vec.len() > 0,
ensures final(self).wf(), final(self).len == length, final(self).sample_rate == old(self).sample_rate, final(self).vec.len() == old(self).vec.len(),
    forall|c: int, i: int| 0 <= c < old(self).vec.len() && 0 <= i < length ==> #[trigger] final(self).vec[c][i] == (if i < old(self).len { old(self).vec[c][i] } else { 0.0f32 }),
//@loops 1
//@loop 0
invariant end_0 == self.vec.len(), old(self).wf(), self.vec.len() == old(self).vec.len(), self.sample_rate == old(self).sample_rate, self.len == old(self).len,
    forall|c: int| channel <= c < self.vec.len() ==> #[trigger] self.vec[c] == old(self).vec[c],
    forall|c: int| 0 <= c < channel ==> (#[trigger] self.vec[c]).len() == length,
    forall|c: int, i: int| 0 <= c < channel && 0 <= i < length ==> #[trigger] self.vec[c][i] == (if i < old(self).len { old(self).vec[c][i] } else { 0.0f32 }),
//@end
//@fn src/wave.rs Wave::append
requires old(self).wf(), source.wf(), old(self).vec.len() == source.vec.len(), old(self).vec.len() > 0, old(self).len < big() / 2, source.len < big() / 2,
ensures final(self).wf(), final(self).len == old(self).len + source.len, final(self).sample_rate == old(self).sample_rate, final(self).vec.len() == old(self).vec.len(),
    forall|c: int, i: int| 0 <= c < old(self).vec.len() && 0 <= i < final(self).len ==> #[trigger] final(self).vec[c][i] == (if i < old(self).len { old(self).vec[c][i] } else { add(0.0f32, source.vec[c][i - old(self).len]) }),
//@loops 1
//@loop 0
invariant end_0 == self.vec.len(), self.wf(), source.wf(), self.vec.len() == source.vec.len(), self.vec.len() == old(self).vec.len(), self.len == old(self).len + source.len, offset == old(self).len, self.len < big(), self.sample_rate == old(self).sample_rate,
    forall|c: int, k: int| 0 <= c < self.vec.len() && 0 <= k < self.len ==> #[trigger] self.vec[c][k] == (if k < old(self).len { old(self).vec[c][k] } else if c < i { add(0.0f32, source.vec[c][k - old(self).len]) } else { 0.0f32 }),
//@end
//@fn src/wave.rs Wave::retain
requires old(self).wf(), old(self).vec.len() > 0, old(self).len < big(), length < big(), -big() < start < big(),
ensures final(self).wf(), final(self).sample_rate == old(self).sample_rate, final(self).vec.len() == old(self).vec.len(),
    // The part of the span that overlaps the wave.
    final(self).len == overlap(old(self).len as int, start as int, length as int),
    forall|c: int, i: int| 0 <= c < old(self).vec.len() && 0 <= i < final(self).len ==> #[trigger] final(self).vec[c][i] == old(self).vec[c][i + (if start > 0 { start as int } else { 0 })],
//@loops 2
//@loop 0
invariant end_0 == self.vec.len(), self.wf(), self.vec.len() == old(self).vec.len(), self.len == old(self).len, self.sample_rate == old(self).sample_rate, i1 <= self.len, i0 == start, start > 0,
    forall|c: int, k: int| 0 <= c < channel && 0 <= k < i1 - i0 ==> #[trigger] self.vec[c][k] == old(self).vec[c][k + i0],
    forall|c: int| channel <= c < self.vec.len() ==> #[trigger] self.vec[c] == old(self).vec[c],
//@before 1
let ghost w = *self;
//@loop 1
invariant end_1 == i1, self.wf(), w.wf(), self.vec.len() == w.vec.len(), self.len == w.len, self.len == old(self).len, self.sample_rate == w.sample_rate, i1 <= self.len, i0 == start, start > 0, channel < self.vec.len(), self.same_but(&w, channel as int),
    i0 <= i1 ==> i0 <= i <= i1, w.vec[channel as int] == old(self).vec[channel as int],
    forall|k: int| i0 <= i1 && 0 <= k < i - i0 ==> #[trigger] self.vec[channel as int][k] == old(self).vec[channel as int][k + i0],
    forall|k: int| i0 <= i1 && i - i0 <= k < self.len ==> #[trigger] self.vec[channel as int][k] == old(self).vec[channel as int][k],
//@end
//@fn src/wave.rs Wave::push
requires old(self).wf(), frame.len() == 1 || frame.len() == old(self).vec.len(), old(self).len < usize::MAX,
ensures final(self).wf(), final(self).sample_rate == old(self).sample_rate, final(self).vec.len() == old(self).vec.len(), old(self).vec.len() > 0 ==> final(self).len == old(self).len + 1,
    forall|c: int| 0 <= c < old(self).vec.len() ==> #[trigger] final(self).vec[c]@ == old(self).vec[c]@.push(if frame.len() == 1 { frame[0] } else { frame[c] }),
//@loops 2
//@loop 0
invariant end_0 == self.vec.len(), old(self).wf(), frame.len() == 1, self.vec.len() == old(self).vec.len(), self.sample_rate == old(self).sample_rate, self.len == old(self).len, forall|c: int| 0 <= c < channel ==> #[trigger] self.vec[c]@ == old(self).vec[c]@.push(frame[0]),
    forall|c: int| channel <= c < self.vec.len() ==> #[trigger] self.vec[c] == old(self).vec[c],
//@loop 1
invariant end_1 == self.vec.len(), old(self).wf(), frame.len() == self.vec.len(), self.vec.len() == old(self).vec.len(), self.sample_rate == old(self).sample_rate, self.len == old(self).len, forall|c: int| 0 <= c < channel ==> #[trigger] self.vec[c]@ == old(self).vec[c]@.push(frame[c]),
    forall|c: int| channel <= c < self.vec.len() ==> #[trigger] self.vec[c] == old(self).vec[c],
//@end
//@fn src/wave.rs Wave::amplify
requires old(self).wf(),
ensures final(self).wf(), final(self).len == old(self).len, final(self).sample_rate == old(self).sample_rate, final(self).vec.len() == old(self).vec.len(),
    forall|c: int, i: int| 0 <= c < old(self).vec.len() && 0 <= i < old(self).len ==> #[trigger] final(self).vec[c][i] == mul(old(self).vec[c][i], amplitude),
//@loops 2
//@loop 0
invariant end_0 == self.vec.len(), self.wf(), self.vec.len() == old(self).vec.len(), self.len == old(self).len, self.sample_rate == old(self).sample_rate,
    forall|c: int, k: int| 0 <= c < channel && 0 <= k < self.len ==> #[trigger] self.vec[c][k] == mul(old(self).vec[c][k], amplitude),
    forall|c: int| channel <= c < self.vec.len() ==> #[trigger] self.vec[c] == old(self).vec[c],
//@before 1
let ghost w = *self;
//@loop 1
invariant end_1 == self.len, self.wf(), w.wf(), self.vec.len() == w.vec.len(), self.len == w.len, self.sample_rate == w.sample_rate, channel < self.vec.len(), self.same_but(&w, channel as int), w.vec[channel as int] == old(self).vec[channel as int],
    forall|k: int| 0 <= k < i ==> #[trigger] self.vec[channel as int][k] == mul(old(self).vec[channel as int][k], amplitude),
    forall|k: int| i <= k < self.len ==> #[trigger] self.vec[channel as int][k] == old(self).vec[channel as int][k],
//@end
}
pub open spec fn overlap(n: int, start: int, length: int) -> int {
    let a = if start > 0 { start } else { 0 };
    let b = if start + length < n { start + length } else { n };
    if b > a { b - a } else { 0 }
}
impl WavePlayer {
    pub open spec fn wf(&self) -> bool { self.wave.wf() && self.channel < self.wave.vec.len() && self.end_point <= self.wave.len }
//@fn src/wave.rs WavePlayer::new
//@ret r
requires wave.wf(), channel < wave.vec.len(), end_point <= wave.len,
ensures r.wf(), r.wave == *wave, r.channel == channel, r.index == start_point, r.start_point == start_point, r.end_point == end_point, r.loop_point == loop_point,
//@end
//@fn src/wave.rs WavePlayer::reset
ensures *final(self) == (WavePlayer { index: old(self).start_point, ..*old(self) }),
//@end
//@fn src/wave.rs WavePlayer::tick
//@ret r
requires old(self).wf(),
ensures final(self).wf(), *final(self) == (WavePlayer { index: final(self).index, ..*old(self) }),
    // The sample at the current position, then on to the next one or back to the loop point.
    old(self).index < old(self).end_point ==> r == old(self).wave.vec[old(self).channel as int][old(self).index as int]
        && final(self).index == (if old(self).index + 1 == old(self).end_point && old(self).loop_point is Some { old(self).loop_point->Some_0 as int } else { old(self).index + 1 }),
    old(self).index >= old(self).end_point ==> r == 0.0f32 && final(self).index == old(self).index,
//@end
}
fn main() {}
}
