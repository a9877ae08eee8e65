// Slot backend: units waiting to be faded in, and the sample rate they run at.
//@rewrite self\.(next|latest)\.take\(\) => take_unit(&mut self.\1) ## Option::take -> take_unit (assumed contract)
//@rewrite sample_rate != self\.sample_rate => rate_differs(sample_rate, self.sample_rate) ## comparison of rates -> rate_differs (assumed contract)
//@rewrite self\.(next|latest)\.as_deref_mut\(\) => &mut self.\1 ## as_deref_mut -> a mutable reference
//@rewrite while let Ok\(message\) = self\.receiver\.try_recv\(\) \{ => loop { let message = match self.receiver.try_recv() { Ok(m) => m, _ => break }; ## while let -> loop with break
//@rewrite while self\.receiver\.try_recv\(\)\.is_ok\(\) \{\} => self.receiver.drain(); ## emptying the return queue -> drain (no observable effect)
//@rewrite sample_rate as f32 => rate32(sample_rate) ## f64 as f32 -> rate32 (opaque)
//@rewrite self\.sample_rate\.value\(\) as f64 => rate64(self.sample_rate.value()) ## f32 as f64 -> rate64 (opaque)
//@rewrite if self\.sender\.try_send\(message\)\.is_ok\(\) \{\} => send_update(&self.sender, message, Ghost(*old(self)), Ghost(u0)); ## sending the update -> send_update, whose contract says what may be sent
use vstd::prelude::*;
verus! {
pub fn rt_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn rt_panic() requires false { panic!() }
#[verifier::external_body]
pub struct Unit { x: u64 }
impl Unit {
    pub uninterp spec fn ins(&self) -> nat;
    pub uninterp spec fn outs(&self) -> nat;
    /// Which unit this is.
    pub uninterp spec fn key(&self) -> int;
    /// The sample rate it was last given.
    pub uninterp spec fn rate(&self) -> f64;
    /// Reset since it was last run.
    pub uninterp spec fn at_start(&self) -> bool;
    #[verifier::external_body]
    pub fn inputs(&self) -> (r: usize) ensures r == self.ins() { unimplemented!() }
    #[verifier::external_body]
    pub fn outputs(&self) -> (r: usize) ensures r == self.outs() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_sample_rate(&mut self, r: f64) ensures same_unit(*final(self), *old(self)), final(self).rate() == r { unimplemented!() }
    #[verifier::external_body]
    pub fn allocate(&mut self) ensures same_unit(*final(self), *old(self)), final(self).rate() == old(self).rate(), final(self).at_start() == old(self).at_start() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures same_unit(*final(self), *old(self)), final(self).rate() == old(self).rate(), final(self).at_start() { unimplemented!() }
}
pub open spec fn same_unit(u: Unit, w: Unit) -> bool { u.ins() == w.ins() && u.outs() == w.outs() && u.key() == w.key() }
#[verifier::external_body]
pub fn take_unit(o: &mut Option<Unit>) -> (r: Option<Unit>) ensures r == *old(o), *final(o) is None { o.take() }
#[verifier::external_body]
pub fn rate_differs(x: f64, y: f64) -> (r: bool) ensures r == (x != y) { x != y }
pub uninterp spec fn r32(x: f64) -> f32;
#[verifier::external_body]
pub fn rate32(x: f64) -> (r: f32) ensures r == r32(x) { x as f32 }
pub uninterp spec fn r64(x: f32) -> f64;
#[verifier::external_body]
pub fn rate64(x: f32) -> (r: f64) ensures r == r64(x) { x as f64 }
#[verifier::external_body]
pub struct BufferVec { x: u64 }
#[verifier::external_body]
pub struct Shared { x: u64 }
impl Shared {
    pub uninterp spec fn val(&self) -> f32;
    #[verifier::external_body]
    pub fn value(&self) -> (r: f32) ensures r == self.val() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_value(&mut self, x: f32) ensures final(self).val() == x { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
pub struct Gone { x: u64 }
impl Sender<SlotMessage> {
    #[verifier::external_body]
    pub fn try_send(&self, m: SlotMessage) -> Result<(), ()> { unimplemented!() }
}
impl Receiver<SlotMessage> {
    /// Messages that have been sent and not yet received, oldest first.
    pub uninterp spec fn view(&self) -> Seq<SlotMessage>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<SlotMessage, Gone>)
        ensures old(self)@.len() == 0 ==> r is Err && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Ok::<SlotMessage, Gone>(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) ensures final(self)@.len() == 0 { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item src/sequencer.rs enum Fade
//@item src/slot.rs enum SlotMessage
//@item src/slot.rs struct Slot
//@item src/slot.rs struct SlotBackend
/// The abstract slot: the unit that plays, the one being faded in and the one after it.
pub struct Wait { pub key: int, pub fade: Fade, pub time: f64 }
impl SlotBackend {
    pub open spec fn wf(&self) -> bool {
        &&& self.latest is Some ==> self.next is Some
        &&& self.current.rate() == self.sample_rate
        &&& self.next is Some ==> self.next->Some_0.rate() == self.sample_rate
        &&& self.latest is Some ==> self.latest->Some_0.rate() == self.sample_rate
    }
    pub open spec fn line(&self) -> Seq<Wait> {
        if self.next is None { Seq::empty() }
        else if self.latest is None { seq![Wait { key: self.next->Some_0.key(), fade: self.fade, time: self.fade_time }] }
        else { seq![Wait { key: self.next->Some_0.key(), fade: self.fade, time: self.fade_time }, Wait { key: self.latest->Some_0.key(), fade: self.latest_fade, time: self.latest_fade_time }] }
    }
    /// The unit that will be playing in the end.
    pub open spec fn target(&self) -> int { if self.line().len() == 0 { self.current.key() } else { self.line().last().key } }
}
/// A new update starts fading in at once if there is none, else it takes the place of the one in waiting.
pub open spec fn join(l: Seq<Wait>, w: Wait) -> Seq<Wait> { if l.len() == 0 { seq![w] } else { seq![l[0], w] } }
pub open spec fn update(m: SlotMessage) -> Wait { Wait { key: m->Update_2.key(), fade: m->Update_0, time: m->Update_1 } }
pub open spec fn queued(l: Seq<Wait>, ms: Seq<SlotMessage>) -> Seq<Wait>
    decreases ms.len()
{
    if ms.len() == 0 { l } else if ms.last() is Update { join(queued(l, ms.drop_last()), update(ms.last())) } else { queued(l, ms.drop_last()) }
}
/// Updates are sent with the rate their unit was given.
pub open spec fn sound(m: SlotMessage) -> bool { m is Update ==> m->Update_2.rate() == m->Update_3 }
impl SlotBackend {
//@fn src/slot.rs SlotBackend::handle_messages
requires old(self).wf(), forall|k: int| 0 <= k < old(self).receiver@.len() ==> sound(#[trigger] old(self).receiver@[k]),
ensures final(self).wf(), final(self).receiver@.len() == 0,
    // The playing unit goes on; the others join the line in the order they were sent.
    final(self).current == old(self).current, final(self).line() == queued(old(self).line(), old(self).receiver@),
    old(self).next is Some ==> final(self).next == old(self).next && final(self).fade_phase == old(self).fade_phase,
    old(self).next is None && final(self).next is Some ==> final(self).fade_phase == 0.0f64,
    final(self).sample_rate == old(self).sample_rate, final(self).shared_sample_rate == old(self).shared_sample_rate, final(self).inputs == old(self).inputs, final(self).outputs == old(self).outputs,
//@loops 1
//@before 0
let ghost q0 = self.receiver@;
let ghost mut done: int = 0;
//@loop 0
invariant_except_break self.receiver@ == q0.skip(done),
invariant 0 <= done <= q0.len(), q0 == old(self).receiver@, self.wf(), self.line() == queued(old(self).line(), q0.take(done)), self.current == old(self).current,
    forall|k: int| 0 <= k < q0.len() ==> sound(#[trigger] q0[k]),
    self.sample_rate == old(self).sample_rate, self.shared_sample_rate == old(self).shared_sample_rate, self.inputs == old(self).inputs, self.outputs == old(self).outputs,
    old(self).next is Some ==> self.next == old(self).next && self.fade_phase == old(self).fade_phase,
    old(self).next is None && self.next is Some ==> self.fade_phase == 0.0f64,
ensures self.receiver@.len() == 0, done == q0.len(),
decreases self.receiver@.len(),
//@in 0
let ghost l0 = self.line();
proof { if done < q0.len() { assert(sound(q0[done])); } }
//@inend 0
proof {
    assert(q0.take(done + 1).drop_last() =~= q0.take(done));
    assert(q0.take(done + 1).last() == q0[done]);
    assert(q0.skip(done).skip(1) =~= q0.skip(done + 1));
    assert(self.line() =~= (if q0[done] is Update { join(l0, update(q0[done])) } else { l0 }));
    done = done + 1;
}
//@after 0
proof { assert(q0.take(q0.len() as int) =~= q0); }
//@end
//@fn src/slot.rs SlotBackend::next_phase
requires old(self).wf(), old(self).next is Some,
ensures final(self).wf(), final(self).current == old(self).next->Some_0, final(self).line() == old(self).line().skip(1), final(self).target() == old(self).target(),
    final(self).next is Some ==> final(self).fade_phase == 0.0f64,
    *final(self) == (SlotBackend { current: final(self).current, next: final(self).next, latest: final(self).latest, fade: final(self).fade, fade_time: final(self).fade_time, fade_phase: final(self).fade_phase, ..*old(self) }),
//@bottom
proof { assert(self.line() =~= old(self).line().skip(1)); }
//@end
//@fn src/slot.rs SlotBackend::reset
requires old(self).wf(),
ensures final(self).wf(), final(self).line().len() == 0, final(self).current.key() == old(self).target(), final(self).current.at_start(),
    *final(self) == (SlotBackend { current: final(self).current, next: final(self).next, latest: final(self).latest, ..*old(self) }),
//@end
//@fn src/slot.rs SlotBackend::set_sample_rate
requires old(self).wf(),
ensures final(self).wf(), final(self).sample_rate == sample_rate, final(self).shared_sample_rate.val() == r32(sample_rate),
    final(self).line() =~= old(self).line(), final(self).current.key() == old(self).current.key(),
    *final(self) == (SlotBackend { current: final(self).current, next: final(self).next, latest: final(self).latest, sample_rate: final(self).sample_rate, shared_sample_rate: final(self).shared_sample_rate, ..*old(self) }),
//@end
//@fn src/slot.rs SlotBackend::allocate
requires old(self).wf(),
ensures final(self).wf(), final(self).line() =~= old(self).line(), final(self).current.key() == old(self).current.key(),
    *final(self) == (SlotBackend { current: final(self).current, next: final(self).next, latest: final(self).latest, ..*old(self) }),
//@end
}
#[verifier::external_body]
pub fn send_update(s: &Sender<SlotMessage>, m: SlotMessage, Ghost(f): Ghost<Slot>, Ghost(u): Ghost<(Fade, f64, Unit)>)
    requires m is Update, sound(m), update(m) == (Wait { key: u.2.key(), fade: u.0, time: u.1 }), m->Update_3 == r64(f.sample_rate.val()) { unimplemented!() }
impl Slot {
//@fn src/slot.rs Slot::set
requires unit.ins() == old(self).inputs, unit.outs() == old(self).outputs,
ensures final(self).inputs == old(self).inputs, final(self).outputs == old(self).outputs, final(self).sample_rate == old(self).sample_rate,
//@top
let ghost u0 = (fade, fade_time, unit);
//@post send_update\(&self\.sender, message, Ghost\(\*old\(self\)\), Ghost\(u0\)\);
//@end
}
fn main() {}
}
