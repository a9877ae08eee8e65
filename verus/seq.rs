// Sequencer: where events are, which unit plays when, and the bookkeeping of IDs.
//@rewrite while let Some\((\w+)\) = (self\.(?:ready|past|active)\.(?:pop|peek)\(\)) \{ => loop { let \1 = match \2 { Some(x) => x, None => break }; ## while let -> loop with break
//@rewrite while receiver\.try_recv\(\)\.is_ok\(\) \{\} => receiver.drain(); ## emptying the return queue -> drain (no observable effect)
//@rewrite if sender\s*\.try_send\((Message.*?)\)\s*\.is_ok\(\)\s*\{\} => sender.send_off(\1); ## sending a message -> send_off (queue not modelled)
//@rewrite let _ = sender\.try_send\((Message::Reset)\); => sender.send_off(\1); ## sending a message -> send_off (queue not modelled)
//@rewrite (event\.start_time|ready\.start_time) < self\.active_threshold => before(\1, self.active_threshold) ## comparison of times -> before (opaque order)
//@rewrite self\.time \+ end_time < self\.active_threshold => before(fadd(self.time, end_time), self.active_threshold) ## comparison of times -> before (opaque order)
//@rewrite \bend_time < self\.active_threshold => before(end_time, self.active_threshold) ## comparison of times -> before (opaque order)
//@rewrite event\.(start_time|end_time) \+= self\.time; => event.\1 = fadd(event.\1, self.time); ## addition of times -> fadd (opaque)
//@rewrite self\.time \+ end_time => fadd(self.time, end_time) ## addition of times -> fadd (opaque)
//@rewrite next_end_time - self\.sample_duration \* 0\.5 => half_before(next_end_time, self.sample_duration) ## half a sample before -> half_before (opaque)
//@rewrite -f64::INFINITY => never() ## minus infinity -> never (opaque)
//@rewrite 1\.0 / sample_rate => inverse(sample_rate) ## reciprocal of the rate -> inverse (opaque)
//@rewrite self\.sample_rate != sample_rate => rate_differs(self.sample_rate, sample_rate) ## comparison of rates -> rate_differs (assumed contract)
//@rewrite sample_rate != self\.sample_rate => rate_differs(self.sample_rate, sample_rate) ## comparison of rates -> rate_differs (assumed contract)
//@rewrite self\.(active_map|edit_map)\[&(\w+(?:\.\w+)*)\] => (*self.\1.at(&\2)) ## HashMap indexing -> at(), the lookup of the stand-in
//@rewrite = &\(\*self\.edit_map\.at\((.*?)\)\) => = self.edit_map.at(\1) ## HashMap indexing -> at(), the lookup of the stand-in
//@rewrite self\.active\.swap_remove\(i\) => swap_remove(&mut self.active, i) ## Vec::swap_remove -> swap_remove (assumed contract)
//@rewrite self\.time \+ self\.sample_duration \* size as f64 => block_end(self.time, self.sample_duration, size) ## end of the block -> block_end (opaque)
//@rewrite self\.time \+ self\.sample_duration; => block_end(self.time, self.sample_duration, 1); ## end of the sample -> block_end (opaque)
//@rewrite self\.active\[i\]\.end_time <= self\.time \+ 0\.5 \* self\.sample_duration => over(self.active[i].end_time, self.time, self.sample_duration) ## whether an event is over -> over (opaque)
//@rewrite for channel in 0\.\.self\.outputs \{\s*output\[channel\] = 0\.0;\s*\} => clear(output); ## clearing the output -> clear (samples not modelled)
//@rewrite for channel in 0\.\.self\.outputs \{\s*output\.channel_mut\(channel\)\[\.\.simd_items\(size\)\]\.fill\(F32x::ZERO\);\s*\} => clear_block(output, size); ## clearing the output -> clear_block (samples not modelled)
//@rewrite let mut buffer_output = self\.buffer\.buffer_mut\(\); =>  ## scratch buffer (samples not modelled)
//@rewrite self\.active\[i\]\.unit\.tick\(input, &mut self\.tick_buffer\);.*?\bi \+= 1; => self.mix(i, input, output); i += 1; ## running, fading and mixing active event i -> mix (samples not modelled)
//@rewrite let start_index = if self\.active\[i\]\.start_time.*?\bi \+= 1; => self.mix_block(i, size, input, output); i += 1; ## running, fading and mixing active event i -> mix_block (samples not modelled)
//@rewrite while let Some\(event\) = (self\.sequencer\.get_\w+_event\(\)) \{\s*if self\.sender\.try_send\(Some\(event\)\)\.is_ok\(\) \{\} => loop { let event = match \1 { Some(x) => x, None => break }; self.sender.send_off(Some(event)); ## while let -> loop with break
//@rewrite while let Ok\(message\) = self\.receiver\.try_recv\(\) \{ => loop { let message = match self.receiver.try_recv() { Ok(m) => m, _ => break }; ## while let -> loop with break
use vstd::prelude::*;
verus! {
pub fn rt_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn rt_panic() requires false { panic!() }
#[verifier::external_body]
pub struct Unit { x: u64 }
impl Unit {
    pub uninterp spec fn outs(&self) -> nat;
    pub uninterp spec fn key(&self) -> int;
    pub uninterp spec fn rate(&self) -> f64;
    pub uninterp spec fn at_start(&self) -> bool;
    /// How many times it was run.
    pub uninterp spec fn runs(&self) -> nat;
    #[verifier::external_body]
    pub fn set_sample_rate(&mut self, r: f64) ensures final(self).key() == old(self).key(), final(self).runs() == old(self).runs(), final(self).rate() == r { unimplemented!() }
    #[verifier::external_body]
    pub fn allocate(&mut self) ensures final(self).key() == old(self).key(), final(self).runs() == old(self).runs(), final(self).rate() == old(self).rate() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self).key() == old(self).key(), final(self).rate() == old(self).rate(), final(self).at_start() { unimplemented!() }
}
// Times and rates: opaque numbers.
pub uninterp spec fn lt(a: f64, b: f64) -> bool;
pub uninterp spec fn add(a: f64, b: f64) -> f64;
pub uninterp spec fn half(a: f64, b: f64) -> f64;
pub uninterp spec fn inv(a: f64) -> f64;
pub uninterp spec fn end_of(a: f64, b: f64, n: nat) -> f64;
pub uninterp spec fn is_over(e: f64, t: f64, d: f64) -> bool;
pub uninterp spec fn minus_inf() -> f64;
#[verifier::external_body]
pub fn before(a: f64, b: f64) -> (r: bool) ensures r == lt(a, b) { a < b }
#[verifier::external_body]
pub fn fadd(a: f64, b: f64) -> (r: f64) ensures r == add(a, b), add(a, b) == add(b, a) { a + b }
#[verifier::external_body]
pub fn half_before(a: f64, b: f64) -> (r: f64) ensures r == half(a, b) { a - b * 0.5 }
#[verifier::external_body]
pub fn inverse(a: f64) -> (r: f64) ensures r == inv(a) { 1.0 / a }
#[verifier::external_body]
pub fn never() -> (r: f64) ensures r == minus_inf() { -f64::INFINITY }
#[verifier::external_body]
pub fn block_end(a: f64, b: f64, n: usize) -> (r: f64) ensures r == end_of(a, b, n as nat) { a + b * n as f64 }
#[verifier::external_body]
pub fn over(e: f64, t: f64, d: f64) -> (r: bool) ensures r == is_over(e, t, d) { e <= t + 0.5 * d }
#[verifier::external_body]
pub fn rate_differs(x: f64, y: f64) -> (r: bool) ensures r == (x != y) { x != y }
#[verifier::external_body]
pub struct BufferVec { x: u64 }
#[verifier::external_body]
pub struct BufferRef { x: u64 }
#[verifier::external_body]
pub struct BufferMut { x: u64 }
#[verifier::external_body]
pub fn clear(o: &mut [f32]) { }
#[verifier::external_body]
pub fn clear_block(o: &mut BufferMut, n: usize) { }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { x: core::marker::PhantomData<T> }
impl<T> Sender<T> {
    #[verifier::external_body]
    pub fn send_off(&mut self, m: T) { unimplemented!() }
}
impl<T> Receiver<T> {
    #[verifier::external_body]
    pub fn drain(&mut self) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<V> HashMap<EventId, V> {
    pub uninterp spec fn view(&self) -> Map<EventId, V>;
    #[verifier::external_body]
    pub fn at(&self, k: &EventId) -> (r: &V) requires self@.contains_key(*k) ensures *r == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: EventId, v: V) -> Option<V> ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &EventId) -> Option<V> ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &EventId) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<EventId, V>::empty() { unimplemented!() }
}
/// A heap of events; its contents are listed in no particular order.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct BinaryHeap<T> { x: core::marker::PhantomData<T> }
pub open spec fn earliest(s: Seq<Event>, k: int) -> bool {
    0 <= k < s.len() && forall|j: int, t: f64| 0 <= j < s.len() && #[trigger] lt(s[j].start_time, t) ==> lt(s[k].start_time, t)
}
impl BinaryHeap<Event> {
    pub uninterp spec fn view(&self) -> Seq<Event>;
    /// Place of the event that comes out next.
    pub uninterp spec fn first(&self) -> int;
    #[verifier::external_body]
    pub fn push(&mut self, e: Event) ensures final(self)@ == old(self)@.push(e) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<Event>)
        ensures old(self)@.len() == 0 ==> r is None && *final(self) == *old(self),
            old(self)@.len() > 0 ==> earliest(old(self)@, old(self).first()) && r == Some(old(self)@[old(self).first()]) && final(self)@ == old(self)@.remove(old(self).first())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&Event>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> earliest(self@, self.first()) && r is Some && *r->Some_0 == self@[self.first()] { unimplemented!() }
}
#[verifier::external_body]
pub fn swap_remove(v: &mut Vec<Event>, i: usize) -> (r: Event)
    requires i < old(v).len()
    ensures r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, old(v)@[old(v).len() - 1]).drop_last() { v.swap_remove(i) }
// ---------------------------------------------------------------- the data, as it is in /repo
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item src/sequencer.rs struct EventId
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item src/sequencer.rs enum Fade
//@item src/sequencer.rs struct Event
//@item src/sequencer.rs struct Edit
//@item src/realseq.rs enum Message
//@item src/sequencer.rs struct Sequencer
// ---------------------------------------------------------------- specification
pub open spec fn uniq(s: Seq<Event>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).id != (#[trigger] s[j]).id }
pub open spec fn apart(s: Seq<Event>, t: Seq<Event>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < t.len() ==> (#[trigger] s[i]).id != (#[trigger] t[j]).id }
pub open spec fn has(s: Seq<Event>, e: Event) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == e }
pub open spec fn holds(s: Seq<Event>, d: EventId) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).id == d }
pub open spec fn map_ok(m: Map<EventId, usize>, s: Seq<Event>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).id) && m[s[i].id] == i
    &&& forall|d: EventId| #[trigger] m.contains_key(d) ==> m[d] < s.len() && s[m[d] as int].id == d
}
/// The same event, its unit in whatever state.
pub open spec fn same_event(e: Event, f: Event) -> bool { e == (Event { unit: e.unit, ..f }) && e.unit.key() == f.unit.key() }
/// Event f after it has been given its turn.
pub open spec fn ran(e: Event, f: Event) -> bool { same_event(e, f) && e.unit.runs() == f.unit.runs() + 1 && e.unit.rate() == f.unit.rate() }
/// Event e with any edit that was waiting for it.
pub open spec fn edited(e: Event, m: Map<EventId, Edit>) -> Event {
    if m.contains_key(e.id) { Event { end_time: m[e.id].end_time, fade_out: m[e.id].fade_out, ..e } } else { e }
}
pub open spec fn rate_ok(s: Seq<Event>, r: f64) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).unit.rate() == r }
impl Sequencer {
    /// Every event is in exactly one place, and the index of active events is exact.
    pub open spec fn wf(&self) -> bool {
        &&& map_ok(self.active_map@, self.active@) && uniq(self.ready@) && uniq(self.past@)
        &&& apart(self.active@, self.ready@) && apart(self.active@, self.past@) && apart(self.ready@, self.past@)
    }
    pub open spec fn rates(&self) -> bool { rate_ok(self.active@, self.sample_rate) && rate_ok(self.ready@, self.sample_rate) && rate_ok(self.past@, self.sample_rate) }
    pub open spec fn fresh(&self, d: EventId) -> bool { !holds(self.active@, d) && !holds(self.ready@, d) && !holds(self.past@, d) }
    pub open spec fn same_but(&self, o: &Sequencer) -> bool {
        self.outputs == o.outputs && self.time == o.time && self.sample_rate == o.sample_rate && self.sample_duration == o.sample_duration && self.replay_events == o.replay_events && self.active_threshold == o.active_threshold
            && self.past@ == o.past@
    }
    #[verifier::external_body]
    fn mix(&mut self, i: usize, input: &[f32], output: &mut [f32])
        requires i < old(self).active.len()
        ensures *final(self) == (Sequencer { active: final(self).active, tick_buffer: final(self).tick_buffer, ..*old(self) }), final(self).active@ == old(self).active@.update(i as int, final(self).active@[i as int]),
            ran(final(self).active@[i as int], old(self).active@[i as int])
    { unimplemented!() }
    #[verifier::external_body]
    fn mix_block(&mut self, i: usize, n: usize, input: &BufferRef, output: &mut BufferMut)
        requires i < old(self).active.len()
        ensures *final(self) == (Sequencer { active: final(self).active, buffer: final(self).buffer, ..*old(self) }), final(self).active@ == old(self).active@.update(i as int, final(self).active@[i as int]),
            ran(final(self).active@[i as int], old(self).active@[i as int])
    { unimplemented!() }
//@fn src/sequencer.rs Sequencer::push_event
requires old(self).wf(), old(self).fresh(event.id),
ensures final(self).wf(), (final(self).front is None) == (old(self).front is None), final(self).same_but(old(self)), final(self).edit_map@ == old(self).edit_map@,
    old(self).front is Some ==> final(self).active@ == old(self).active@ && final(self).ready@ == old(self).ready@,
    // The event is active at once if it has started, else it waits.
    old(self).front is None ==> (if lt(event.start_time, old(self).active_threshold) { final(self).active@ == old(self).active@.push(event) && final(self).ready@ == old(self).ready@ }
        else { final(self).active@ == old(self).active@ && final(self).ready@ == old(self).ready@.push(event) }),
//@end
//@fn src/sequencer.rs Sequencer::push_relative_event
requires old(self).wf(), old(self).fresh(event.id),
ensures final(self).wf(), (final(self).front is None) == (old(self).front is None), final(self).same_but(old(self)), final(self).edit_map@ == old(self).edit_map@,
    old(self).front is Some ==> final(self).active@ == old(self).active@ && final(self).ready@ == old(self).ready@,
    old(self).front is None ==> ({
        let e = Event { start_time: add(event.start_time, old(self).time), end_time: add(event.end_time, old(self).time), ..event };
        if lt(e.start_time, old(self).active_threshold) { final(self).active@ == old(self).active@.push(e) && final(self).ready@ == old(self).ready@ }
        else { final(self).active@ == old(self).active@ && final(self).ready@ == old(self).ready@.push(e) }
    }),
//@end
//@fn src/sequencer.rs Sequencer::edit
requires old(self).wf(),
ensures final(self).wf(), (final(self).front is None) == (old(self).front is None), final(self).same_but(old(self)), final(self).ready@ == old(self).ready@,
    old(self).front is Some ==> final(self).active@ == old(self).active@ && final(self).edit_map@ == old(self).edit_map@,
    old(self).front is None ==> edit_done(*final(self), *old(self), id, end_time, fade_out_time),
//@end
//@fn src/sequencer.rs Sequencer::edit_relative
requires old(self).wf(),
ensures final(self).wf(), (final(self).front is None) == (old(self).front is None), final(self).same_but(old(self)), final(self).ready@ == old(self).ready@,
    old(self).front is Some ==> final(self).active@ == old(self).active@ && final(self).edit_map@ == old(self).edit_map@,
    old(self).front is None ==> edit_done(*final(self), *old(self), id, add(old(self).time, end_time), fade_out_time),
//@end
//@fn src/sequencer.rs Sequencer::adopt_event
requires old(event).unit.rate() == sample_rate,
ensures same_event(*final(event), *old(event)), final(event).unit.rate() == self.sample_rate,
//@end
//@fn src/sequencer.rs Sequencer::ready_to_active
requires old(self).wf(), old(self).rates(),
ensures final(self).wf(), final(self).rates(), readied(*final(self), *old(self), next_end_time),
//@loops 1
//@before 0
let ghost s0 = *self;
//@loop 0
invariant self.wf(), self.rates(), s0.ready@ == old(self).ready@, s0.active@ == old(self).active@, s0.edit_map@ == old(self).edit_map@, s0.wf(), uniq(s0.ready@),
    self.active_threshold == s0.active_threshold, s0.active_threshold == half(next_end_time, old(self).sample_duration),
    s0 == (Sequencer { active_threshold: s0.active_threshold, ..*old(self) }),
    *self == (Sequencer { active: self.active, active_map: self.active_map, ready: self.ready, edit_map: self.edit_map, ..s0 }),
    s0.active.len() <= self.active.len(), forall|k: int| 0 <= k < s0.active.len() ==> #[trigger] self.active@[k] == s0.active@[k],
    self.active.len() + self.ready@.len() == s0.active.len() + s0.ready@.len(),
    edits_left(*self, s0),
    forall|k: int| 0 <= k < self.ready@.len() ==> has(s0.ready@, #[trigger] self.ready@[k]),
    forall|k: int| 0 <= k < self.ready@.len() ==> edited(#[trigger] self.ready@[k], self.edit_map@) == edited(self.ready@[k], s0.edit_map@),
    forall|k: int| s0.active.len() <= k < self.active.len() ==> started(#[trigger] self.active@[k], s0.ready@, s0.edit_map@, s0.active_threshold),
    forall|k: int| 0 <= k < s0.ready@.len() ==> has(self.ready@, #[trigger] s0.ready@[k]) || has(self.active@, edited(s0.ready@[k], s0.edit_map@)),
ensures forall|k: int| 0 <= k < self.ready@.len() ==> !lt((#[trigger] self.ready@[k]).start_time, self.active_threshold),
decreases self.ready@.len(),
//@in 0
let ghost s1 = *self;
let ghost f = self.ready.first();
//@inend 0
proof {
    let e = s1.ready@[f];
    let g = edited(e, s0.edit_map@);
    assert(has(s0.ready@, e));
    assert(self.active@ =~= s1.active@.push(g));
    assert forall|k: int| 0 <= k < self.ready@.len() implies (#[trigger] self.ready@[k]) == s1.ready@[if k < f { k } else { k + 1 }] by { }
    assert forall|k: int| 0 <= k < self.ready@.len() implies edited(#[trigger] self.ready@[k], self.edit_map@) == edited(self.ready@[k], s0.edit_map@) by {
        let j = if k < f { k } else { k + 1 };
        assert(s1.ready@[j].id != s1.ready@[f].id);
    }
    let src = choose|k: int| 0 <= k < s0.ready@.len() && #[trigger] s0.ready@[k] == e;
    assert(started(self.active@[s1.active.len() as int], s0.ready@, s0.edit_map@, s0.active_threshold));
    assert forall|k: int| 0 <= k < s0.ready@.len() implies has(self.ready@, #[trigger] s0.ready@[k]) || has(self.active@, edited(s0.ready@[k], s0.edit_map@)) by {
        let x = s0.ready@[k];
        if has(s1.ready@, x) {
            let j = choose|j: int| 0 <= j < s1.ready@.len() && #[trigger] s1.ready@[j] == x;
            if j == f { assert(self.active@[s1.active.len() as int] == edited(x, s0.edit_map@)); }
            else if j < f { assert(self.ready@[j] == x); } else { assert(self.ready@[j - 1] == x); }
        } else {
            let j = choose|j: int| 0 <= j < s1.active@.len() && #[trigger] s1.active@[j] == edited(x, s0.edit_map@);
            assert(self.active@[j] == edited(x, s0.edit_map@));
        }
    }
}
//@end
//@fn src/sequencer.rs Sequencer::get_past_event
//@ret r
requires old(self).wf(),
ensures final(self).wf(), old(self).past.len() == 0 ==> r is None && final(self).past@ == old(self).past@, old(self).past.len() > 0 ==> r is Some && final(self).past@ == old(self).past@.drop_last(),
    *final(self) == (Sequencer { past: final(self).past, ..*old(self) }),
//@end
//@fn src/sequencer.rs Sequencer::get_active_event
//@ret r
requires old(self).wf(),
ensures final(self).wf(), old(self).active.len() == 0 ==> r is None && final(self).active@ == old(self).active@ && final(self).active_map == old(self).active_map, old(self).active.len() > 0 ==> r is Some && final(self).active@ == old(self).active@.drop_last(),
    *final(self) == (Sequencer { active: final(self).active, active_map: final(self).active_map, ..*old(self) }),
//@end
//@fn src/sequencer.rs Sequencer::reset
requires old(self).wf(),
ensures final(self).wf(), (final(self).front is None) == (old(self).front is None), old(self).rates() ==> final(self).rates(), old(self).front is None ==> final(self).time == 0.0f64 && final(self).active_threshold == minus_inf() && final(self).active@.len() == 0 && final(self).past@.len() == 0,
    final(self).sample_rate == old(self).sample_rate, final(self).outputs == old(self).outputs, final(self).replay_events == old(self).replay_events,
    // All events wait to be played again from the start, or are gone.
    forall|d: EventId| #[trigger] old(self).fresh(d) ==> final(self).fresh(d),
    old(self).front is None && old(self).replay_events ==> final(self).ready@.len() == old(self).active@.len() + old(self).ready@.len() + old(self).past@.len()
        && (forall|e: Event| (has(old(self).active@, e) || has(old(self).ready@, e) || has(old(self).past@, e)) ==> #[trigger] kept(final(self).ready@, e)) && (forall|k: int| 0 <= k < final(self).ready@.len() ==> (#[trigger] final(self).ready@[k]).unit.at_start())
        && final(self).edit_map@ == old(self).edit_map@,
    old(self).front is None && !old(self).replay_events ==> final(self).ready@.len() == 0 && final(self).edit_map@ == Map::<EventId, Edit>::empty(),
    old(self).front is Some ==> final(self).active@ == old(self).active@ && final(self).ready@ == old(self).ready@ && final(self).past@ == old(self).past@,
//@loops 7
//@before 0
let ghost s0 = *self;
proof { lemma_self(s0.active@, s0.ready@); }
//@loop 0
invariant s0.wf(), *self == (Sequencer { active: self.active, ready: self.ready, ..s0 }), uniq(self.active@), uniq(self.ready@), apart(self.active@, self.ready@), apart(self.active@, self.past@), apart(self.ready@, self.past@),
    self.active.len() + self.ready@.len() == s0.active.len() + s0.ready@.len(),
    forall|e: Event| #[trigger] either(s0.active@, s0.ready@, e) ==> either(self.active@, self.ready@, e), sub(self.active@, s0.active@, s0.ready@), sub(self.ready@, s0.active@, s0.ready@),
ensures self.ready@.len() == 0,
decreases self.ready@.len(),
//@in 0
let ghost s1 = *self;
let ghost f = self.ready.first();
//@inend 0
proof { lemma_moved(s1.ready@, f, s1.active@, self.ready@, self.active@); lemma_sub(s1.ready@, f, s1.active@, self.ready@, self.active@, s0.active@, s0.ready@); }
//@before 1
let ghost s2 = *self;
proof { lemma_self(s2.active@, s2.past@); }
//@loop 1
invariant *self == (Sequencer { active: self.active, past: self.past, ..s2 }), self.ready@.len() == 0, uniq(self.active@), uniq(self.past@), apart(self.active@, self.past@),
    self.active.len() + self.past.len() == s2.active.len() + s2.past.len(),
    forall|e: Event| #[trigger] either(s2.active@, s2.past@, e) ==> either(self.active@, self.past@, e), sub(self.active@, s2.active@, s2.past@), sub(self.past@, s2.active@, s2.past@),
ensures self.past@.len() == 0,
decreases self.past@.len(),
//@in 1
let ghost s3 = *self;
//@inend 1
proof { assert(self.past@ =~= s3.past@.remove(s3.past.len() - 1)); lemma_moved(s3.past@, s3.past.len() - 1, s3.active@, self.past@, self.active@); lemma_sub(s3.past@, s3.past.len() - 1, s3.active@, self.past@, self.active@, s2.active@, s2.past@); }
//@before 2
let ghost s4 = *self;
//@loop 2
invariant end_2 == s4.active.len(), s4.ready@.len() == 0, *self == (Sequencer { active: self.active, ..s4 }), uniq(s4.active@), self.active.len() == s4.active.len(), 
    forall|k: int| 0 <= k < s4.active.len() ==> same_event(#[trigger] self.active@[k], s4.active@[k]),
    forall|k: int| 0 <= k < s4.active.len() ==> (#[trigger] self.active@[k]).unit.rate() == s4.active@[k].unit.rate(),
    forall|k: int| 0 <= k < i ==> (#[trigger] self.active@[k]).unit.at_start(),
//@before 3
let ghost s5 = *self;
proof { assert(uniq(s5.active@)) by { assert forall|a: int, b: int| 0 <= a < s5.active.len() && 0 <= b < s5.active.len() && a != b implies (#[trigger] s5.active@[a]).id != (#[trigger] s5.active@[b]).id by { assert(same_event(s5.active@[a], s4.active@[a]) && same_event(s5.active@[b], s4.active@[b])); assert(s4.active@[a].id != s4.active@[b].id); } } }
//@loop 3
invariant *self == (Sequencer { active: self.active, ready: self.ready, ..s5 }), uniq(self.active@), uniq(self.ready@), apart(self.active@, self.ready@),
    self.active.len() + self.ready@.len() == s5.active.len() + s5.ready@.len(),
    forall|e: Event| #[trigger] has(s5.active@, e) ==> either(self.active@, self.ready@, e),
    forall|k: int| 0 <= k < self.active.len() ==> has(s5.active@, #[trigger] self.active@[k]),
    forall|k: int| 0 <= k < self.ready@.len() ==> has(s5.active@, #[trigger] self.ready@[k]),
ensures self.active@.len() == 0,
decreases self.active@.len(),
//@in 3
let ghost s6 = *self;
//@inend 3
proof { assert(self.active@ =~= s6.active@.remove(s6.active.len() - 1)); lemma_moved(s6.active@, s6.active.len() - 1, s6.ready@, self.active@, self.ready@); }
//@after 3
let ghost s7 = *self;
proof {
    assert forall|e: Event| (has(old(self).active@, e) || has(old(self).ready@, e) || has(old(self).past@, e)) implies #[trigger] kept(s7.ready@, e) by {
        assert(either(s0.active@, s0.ready@, e) || has(s0.past@, e));
        assert(either(s0.active@, s0.ready@, e) ==> either(s2.active@, s2.ready@, e));
        assert(either(s2.active@, s2.past@, e));
        assert(has(s4.active@, e));
        let k = choose|k: int| 0 <= k < s4.active@.len() && #[trigger] s4.active@[k] == e;
        let g = s5.active@[k];
        assert(same_event(g, e));
        assert(has(s5.active@, g));
        assert(either(s7.active@, s7.ready@, g));
        assert(has(s7.ready@, g));
    }
    assert forall|k: int| 0 <= k < s7.ready@.len() implies (#[trigger] s7.ready@[k]).unit.at_start() by {
        let g = s7.ready@[k];
        assert(has(s5.active@, g));
    }
    if old(self).rates() {
        assert forall|k: int| 0 <= k < s7.ready@.len() implies (#[trigger] s7.ready@[k]).unit.rate() == old(self).sample_rate by {
            assert(has(s5.active@, s7.ready@[k]));
            let j = choose|j: int| 0 <= j < s5.active@.len() && #[trigger] s5.active@[j] == s7.ready@[k];
            assert(s5.active@[j].unit.rate() == s4.active@[j].unit.rate());
            assert(either(s2.active@, s2.past@, s4.active@[j]));
            if has(s2.active@, s4.active@[j]) {
                let i = choose|i: int| 0 <= i < s2.active@.len() && #[trigger] s2.active@[i] == s4.active@[j];
                assert(either(s0.active@, s0.ready@, s2.active@[i]));
            }
        }
    }
    assert forall|d: EventId| #[trigger] old(self).fresh(d) implies !holds(s7.ready@, d) by {
        if holds(s7.ready@, d) {
            let k = choose|k: int| 0 <= k < s7.ready@.len() && (#[trigger] s7.ready@[k]).id == d;
            assert(has(s5.active@, s7.ready@[k]));
            let j = choose|j: int| 0 <= j < s5.active@.len() && #[trigger] s5.active@[j] == s7.ready@[k];
            assert(same_event(s5.active@[j], s4.active@[j]));
            assert(either(s2.active@, s2.past@, s4.active@[j]));
            lemma_holds(s2.active@, s4.active@[j]); lemma_holds(s2.past@, s4.active@[j]);
            if has(s2.active@, s4.active@[j]) {
                let i = choose|i: int| 0 <= i < s2.active@.len() && #[trigger] s2.active@[i] == s4.active@[j];
                assert(either(s0.active@, s0.ready@, s2.active@[i]));
                lemma_holds(s0.active@, s2.active@[i]); lemma_holds(s0.ready@, s2.active@[i]);
            }
        }
    }
}
//@loop 4
invariant *self == (Sequencer { ready: self.ready, ..*old(self) }),
ensures self.ready@.len() == 0,
decreases self.ready@.len(),
//@loop 5
invariant *self == (Sequencer { ready: self.ready, past: self.past, ..*old(self) }), self.ready@.len() == 0,
ensures self.past@.len() == 0,
decreases self.past@.len(),
//@loop 6
invariant *self == (Sequencer { ready: self.ready, past: self.past, active: self.active, ..*old(self) }), self.ready@.len() == 0, self.past@.len() == 0,
ensures self.active@.len() == 0,
decreases self.active@.len(),
//@end
//@fn src/sequencer.rs Sequencer::set_sample_rate
requires old(self).wf(), old(self).rates(),
ensures final(self).wf(), final(self).rates(), final(self).sample_rate == sample_rate,
    final(self).time == old(self).time, final(self).outputs == old(self).outputs, final(self).replay_events == old(self).replay_events, final(self).edit_map@ == old(self).edit_map@, final(self).front == old(self).front,
    forall|d: EventId| #[trigger] old(self).fresh(d) ==> final(self).fresh(d),
    // No event is lost; they are sorted anew before the next sample.
    sample_rate != old(self).sample_rate ==> final(self).sample_duration == inv(sample_rate) && final(self).active_threshold == minus_inf() && final(self).active@.len() == 0 && final(self).past@.len() == 0
        && final(self).ready@.len() == old(self).active@.len() + old(self).ready@.len() + old(self).past@.len()
        && (forall|e: Event| (has(old(self).active@, e) || has(old(self).ready@, e) || has(old(self).past@, e)) ==> #[trigger] kept(final(self).ready@, e)),
    sample_rate == old(self).sample_rate ==> *final(self) == *old(self),
//@loops 4
//@before 0
let ghost s0 = *self;
proof { lemma_self(s0.active@, s0.ready@); }
//@loop 0
invariant s0.wf(), *self == (Sequencer { active: self.active, ready: self.ready, ..s0 }), uniq(self.active@), uniq(self.ready@), apart(self.active@, self.ready@), apart(self.active@, self.past@), apart(self.ready@, self.past@),
    self.active.len() + self.ready@.len() == s0.active.len() + s0.ready@.len(),
    forall|e: Event| #[trigger] either(s0.active@, s0.ready@, e) ==> either(self.active@, self.ready@, e), sub(self.active@, s0.active@, s0.ready@), sub(self.ready@, s0.active@, s0.ready@),
ensures self.ready@.len() == 0,
decreases self.ready@.len(),
//@in 0
let ghost s1 = *self;
let ghost f = self.ready.first();
//@inend 0
proof { lemma_moved(s1.ready@, f, s1.active@, self.ready@, self.active@); lemma_sub(s1.ready@, f, s1.active@, self.ready@, self.active@, s0.active@, s0.ready@); }
//@before 1
let ghost s2 = *self;
proof { lemma_self(s2.active@, s2.past@); }
//@loop 1
invariant *self == (Sequencer { active: self.active, past: self.past, ..s2 }), self.ready@.len() == 0, uniq(self.active@), uniq(self.past@), apart(self.active@, self.past@),
    self.active.len() + self.past.len() == s2.active.len() + s2.past.len(),
    forall|e: Event| #[trigger] either(s2.active@, s2.past@, e) ==> either(self.active@, self.past@, e), sub(self.active@, s2.active@, s2.past@), sub(self.past@, s2.active@, s2.past@),
ensures self.past@.len() == 0,
decreases self.past@.len(),
//@in 1
let ghost s3 = *self;
//@inend 1
proof { assert(self.past@ =~= s3.past@.remove(s3.past.len() - 1)); lemma_moved(s3.past@, s3.past.len() - 1, s3.active@, self.past@, self.active@); lemma_sub(s3.past@, s3.past.len() - 1, s3.active@, self.past@, self.active@, s2.active@, s2.past@); }
//@before 2
let ghost s4 = *self;
//@loop 2
invariant end_2 == s4.active.len(), s4.ready@.len() == 0, *self == (Sequencer { active: self.active, ..s4 }), uniq(s4.active@), self.active.len() == s4.active.len(), 
    forall|k: int| 0 <= k < s4.active.len() ==> same_event(#[trigger] self.active@[k], s4.active@[k]),
    forall|k: int| 0 <= k < i ==> (#[trigger] self.active@[k]).unit.rate() == sample_rate,
//@before 3
let ghost s5 = *self;
proof { assert(uniq(s5.active@)) by { assert forall|a: int, b: int| 0 <= a < s5.active.len() && 0 <= b < s5.active.len() && a != b implies (#[trigger] s5.active@[a]).id != (#[trigger] s5.active@[b]).id by { assert(same_event(s5.active@[a], s4.active@[a]) && same_event(s5.active@[b], s4.active@[b])); assert(s4.active@[a].id != s4.active@[b].id); } } }
//@loop 3
invariant *self == (Sequencer { active: self.active, ready: self.ready, ..s5 }), uniq(self.active@), uniq(self.ready@), apart(self.active@, self.ready@),
    self.active.len() + self.ready@.len() == s5.active.len() + s5.ready@.len(),
    forall|e: Event| #[trigger] has(s5.active@, e) ==> either(self.active@, self.ready@, e),
    forall|k: int| 0 <= k < self.active.len() ==> has(s5.active@, #[trigger] self.active@[k]),
    forall|k: int| 0 <= k < self.ready@.len() ==> has(s5.active@, #[trigger] self.ready@[k]),
ensures self.active@.len() == 0,
decreases self.active@.len(),
//@in 3
let ghost s6 = *self;
//@inend 3
proof { assert(self.active@ =~= s6.active@.remove(s6.active.len() - 1)); lemma_moved(s6.active@, s6.active.len() - 1, s6.ready@, self.active@, self.ready@); }
//@after 3
let ghost s7 = *self;
proof {
    assert forall|e: Event| (has(old(self).active@, e) || has(old(self).ready@, e) || has(old(self).past@, e)) implies #[trigger] kept(s7.ready@, e) by {
        assert(either(s0.active@, s0.ready@, e) || has(s0.past@, e));
        assert(either(s0.active@, s0.ready@, e) ==> either(s2.active@, s2.ready@, e));
        assert(either(s2.active@, s2.past@, e));
        assert(has(s4.active@, e));
        let k = choose|k: int| 0 <= k < s4.active@.len() && #[trigger] s4.active@[k] == e;
        let g = s5.active@[k];
        assert(same_event(g, e));
        assert(has(s5.active@, g));
        assert(either(s7.active@, s7.ready@, g));
        assert(has(s7.ready@, g));
    }
    assert forall|k: int| 0 <= k < s7.ready@.len() implies (#[trigger] s7.ready@[k]).unit.rate() == sample_rate by {
        let g = s7.ready@[k];
        assert(has(s5.active@, g));
    }
    assert forall|d: EventId| #[trigger] old(self).fresh(d) implies !holds(s7.ready@, d) by {
        if holds(s7.ready@, d) {
            let k = choose|k: int| 0 <= k < s7.ready@.len() && (#[trigger] s7.ready@[k]).id == d;
            assert(has(s5.active@, s7.ready@[k]));
            let j = choose|j: int| 0 <= j < s5.active@.len() && #[trigger] s5.active@[j] == s7.ready@[k];
            assert(same_event(s5.active@[j], s4.active@[j]));
            assert(either(s2.active@, s2.past@, s4.active@[j]));
            lemma_holds(s2.active@, s4.active@[j]); lemma_holds(s2.past@, s4.active@[j]);
            if has(s2.active@, s4.active@[j]) {
                let i = choose|i: int| 0 <= i < s2.active@.len() && #[trigger] s2.active@[i] == s4.active@[j];
                assert(either(s0.active@, s0.ready@, s2.active@[i]));
                lemma_holds(s0.active@, s2.active@[i]); lemma_holds(s0.ready@, s2.active@[i]);
            }
        }
    }
}
//@end
//@fn src/sequencer.rs Sequencer::tick
requires old(self).wf(), old(self).rates(),
ensures final(self).wf(), final(self).rates(), final(self).time == end_of(old(self).time, old(self).sample_duration, 1), 
    final(self).sample_rate == old(self).sample_rate, final(self).sample_duration == old(self).sample_duration, final(self).replay_events == old(self).replay_events, final(self).outputs == old(self).outputs, final(self).front == old(self).front,
    // Events that start are activated; every active event is over and past, or is given exactly one turn.
    exists|m: Sequencer| #[trigger] turn(m, *final(self), *old(self), end_of(old(self).time, old(self).sample_duration, 1)),
//@loops 2
//@loop 0
invariant *self == (Sequencer { past: self.past, ..*old(self) }), self.wf(), self.rates(),
ensures self.past@.len() == 0,
decreases self.past@.len(),
//@pre self\.ready_to_active\(end_time\)
let ghost x = *self;
proof { if !old(self).replay_events { assert(x.past@ =~= Seq::<Event>::empty()); } }
//@before 1
let ghost m = *self;
let ghost e0 = end_time;
//@loop 1
invariant readied(m, x, e0), x == (Sequencer { past: x.past, ..*old(self) }), x.past@ == (if old(self).replay_events { old(self).past@ } else { Seq::<Event>::empty() }), m.wf(), self.wf(), self.rates(), i <= self.active.len(), *self == (Sequencer { active: self.active, active_map: self.active_map, past: self.past, tick_buffer: self.tick_buffer, ..m }),
    self.active.len() + self.past.len() == m.active.len() + m.past.len(),
    forall|k: int| 0 <= k < m.past.len() ==> #[trigger] self.past@[k] == m.past@[k], m.past.len() <= self.past.len(),
    forall|j: int| 0 <= j < self.active.len() ==> m.active_map@.contains_key((#[trigger] self.active@[j]).id),
    forall|k: int| 0 <= k < m.active.len() ==> turned(#[trigger] m.active@[k], *self, i as int, m.time, m.sample_duration),
decreases self.active.len() - i,
//@in 1
let ghost s1 = *self;
let ghost i1 = i as int;
proof { assert(m.active_map@.contains_key(s1.active@[i1].id)); }
//@inend 1
proof {
    let a1 = s1.active@;
    let z = m.active@[m.active_map@[a1[i1].id] as int];
    assert(turned(z, s1, i1, m.time, m.sample_duration));
    assert(a1[i1] == z);
    if self.active.len() < s1.active.len() {
        assert(self.past@ =~= s1.past@.push(a1[i1]));
        assert forall|j: int| 0 <= j < self.active.len() implies #[trigger] self.active@[j] == (if j == i1 { a1[a1.len() - 1] } else { a1[j] }) by { }
        assert forall|k: int| 0 <= k < m.active.len() implies turned(#[trigger] m.active@[k], *self, i as int, m.time, m.sample_duration) by {
            let e = m.active@[k];
            assert(turned(e, s1, i1, m.time, m.sample_duration));
            if e.id == z.id { assert(self.past@[s1.past.len() as int] == e); }
            else if has(s1.past@, e) { let q = choose|q: int| 0 <= q < s1.past@.len() && #[trigger] s1.past@[q] == e; assert(self.past@[q] == e); }
        }
    } else {
        assert forall|k: int| 0 <= k < m.active.len() implies turned(#[trigger] m.active@[k], *self, i as int, m.time, m.sample_duration) by {
            assert(turned(m.active@[k], s1, i1, m.time, m.sample_duration));
        }
    }
}
//@bottom
proof {
    assert forall|k: int| 0 <= k < m.active.len() implies finished(#[trigger] m.active@[k], *self, m.time, m.sample_duration) by {
        assert(turned(m.active@[k], *self, self.active.len() as int, m.time, m.sample_duration));
    }
    assert(turn(m, *self, *old(self), e0));
}
//@end
//@fn src/sequencer.rs Sequencer::process
requires old(self).wf(), old(self).rates(),
ensures final(self).wf(), final(self).rates(), final(self).time == end_of(old(self).time, old(self).sample_duration, size as nat), 
    final(self).sample_rate == old(self).sample_rate, final(self).sample_duration == old(self).sample_duration, final(self).replay_events == old(self).replay_events, final(self).outputs == old(self).outputs, final(self).front == old(self).front,
    // Events that start are activated; every active event is over and past, or is given exactly one turn.
    exists|m: Sequencer| #[trigger] turn(m, *final(self), *old(self), end_of(old(self).time, old(self).sample_duration, size as nat)),
//@loops 2
//@loop 0
invariant *self == (Sequencer { past: self.past, ..*old(self) }), self.wf(), self.rates(),
ensures self.past@.len() == 0,
decreases self.past@.len(),
//@pre self\.ready_to_active\(end_time\)
let ghost x = *self;
proof { if !old(self).replay_events { assert(x.past@ =~= Seq::<Event>::empty()); } }
//@before 1
let ghost m = *self;
let ghost e0 = end_time;
//@loop 1
invariant readied(m, x, e0), x == (Sequencer { past: x.past, ..*old(self) }), x.past@ == (if old(self).replay_events { old(self).past@ } else { Seq::<Event>::empty() }), m.wf(), self.wf(), self.rates(), i <= self.active.len(), *self == (Sequencer { active: self.active, active_map: self.active_map, past: self.past, buffer: self.buffer, ..m }),
    self.active.len() + self.past.len() == m.active.len() + m.past.len(),
    forall|k: int| 0 <= k < m.past.len() ==> #[trigger] self.past@[k] == m.past@[k], m.past.len() <= self.past.len(),
    forall|j: int| 0 <= j < self.active.len() ==> m.active_map@.contains_key((#[trigger] self.active@[j]).id),
    forall|k: int| 0 <= k < m.active.len() ==> turned(#[trigger] m.active@[k], *self, i as int, m.time, m.sample_duration),
decreases self.active.len() - i,
//@in 1
let ghost s1 = *self;
let ghost i1 = i as int;
proof { assert(m.active_map@.contains_key(s1.active@[i1].id)); }
//@inend 1
proof {
    let a1 = s1.active@;
    let z = m.active@[m.active_map@[a1[i1].id] as int];
    assert(turned(z, s1, i1, m.time, m.sample_duration));
    assert(a1[i1] == z);
    if self.active.len() < s1.active.len() {
        assert(self.past@ =~= s1.past@.push(a1[i1]));
        assert forall|j: int| 0 <= j < self.active.len() implies #[trigger] self.active@[j] == (if j == i1 { a1[a1.len() - 1] } else { a1[j] }) by { }
        assert forall|k: int| 0 <= k < m.active.len() implies turned(#[trigger] m.active@[k], *self, i as int, m.time, m.sample_duration) by {
            let e = m.active@[k];
            assert(turned(e, s1, i1, m.time, m.sample_duration));
            if e.id == z.id { assert(self.past@[s1.past.len() as int] == e); }
            else if has(s1.past@, e) { let q = choose|q: int| 0 <= q < s1.past@.len() && #[trigger] s1.past@[q] == e; assert(self.past@[q] == e); }
        }
    } else {
        assert forall|k: int| 0 <= k < m.active.len() implies turned(#[trigger] m.active@[k], *self, i as int, m.time, m.sample_duration) by {
            assert(turned(m.active@[k], s1, i1, m.time, m.sample_duration));
        }
    }
}
//@bottom
proof {
    assert forall|k: int| 0 <= k < m.active.len() implies finished(#[trigger] m.active@[k], *self, m.time, m.sample_duration) by {
        assert(turned(m.active@[k], *self, self.active.len() as int, m.time, m.sample_duration));
    }
    assert(turn(m, *self, *old(self), e0));
}
//@end
}
/// Effect of an edit: on an active event at once, on a waiting one when it starts; too late otherwise.
pub open spec fn edit_done(n: Sequencer, o: Sequencer, d: EventId, end: f64, fade: f64) -> bool {
    if o.active_map@.contains_key(d) {
        &&& n.edit_map@ == o.edit_map@ && n.active.len() == o.active.len()
        &&& forall|k: int| 0 <= k < o.active.len() ==> #[trigger] n.active@[k] == (if o.active@[k].id == d { Event { end_time: end, fade_out: fade, ..o.active@[k] } } else { o.active@[k] })
    } else {
        &&& n.active@ == o.active@
        &&& n.edit_map@ == (if lt(end, o.active_threshold) { o.edit_map@ } else { o.edit_map@.insert(d, Edit { end_time: end, fade_out: fade }) })
    }
}
pub open spec fn started(e: Event, ready: Seq<Event>, m: Map<EventId, Edit>, t: f64) -> bool {
    exists|k: int| 0 <= k < ready.len() && lt((#[trigger] ready[k]).start_time, t) && e == edited(ready[k], m)
}
/// Sequencer o after the events that start before the end of the block have been activated.
pub open spec fn readied(n: Sequencer, o: Sequencer, end: f64) -> bool {
    &&& n.active_threshold == half(end, o.sample_duration)
    &&& n == (Sequencer { active: n.active, active_map: n.active_map, active_threshold: n.active_threshold, ready: n.ready, edit_map: n.edit_map, ..o })
    // Active events stay; the waiting events that have started, and only those, become active, with their edits.
    &&& o.active.len() <= n.active.len() && forall|k: int| 0 <= k < o.active.len() ==> #[trigger] n.active@[k] == o.active@[k]
    &&& n.active.len() + n.ready@.len() == o.active.len() + o.ready@.len()
    &&& forall|k: int| 0 <= k < n.ready@.len() ==> !lt((#[trigger] n.ready@[k]).start_time, n.active_threshold) && has(o.ready@, n.ready@[k])
    &&& forall|k: int| o.active.len() <= k < n.active.len() ==> started(#[trigger] n.active@[k], o.ready@, o.edit_map@, n.active_threshold)
    &&& forall|k: int| 0 <= k < o.ready@.len() ==> has(n.ready@, #[trigger] o.ready@[k]) || has(n.active@, edited(o.ready@[k], o.edit_map@))
    // Edits are used up by the events they were for.
    &&& edits_left(n, o)
}
pub open spec fn edits_left(n: Sequencer, o: Sequencer) -> bool {
    &&& forall|d: EventId| #[trigger] n.edit_map@.contains_key(d) ==> o.edit_map@.contains_key(d) && n.edit_map@[d] == o.edit_map@[d]
    &&& forall|k: int| o.active.len() <= k < n.active.len() ==> !n.edit_map@.contains_key((#[trigger] n.active@[k]).id)
    &&& forall|d: EventId| #[trigger] o.edit_map@.contains_key(d) && !n.edit_map@.contains_key(d) ==> n.active_map@.contains_key(d)
}
/// State of event e (active at the start) when the first i active events have been given a turn.
pub open spec fn turned(e: Event, s: Sequencer, i: int, t: f64, d: f64) -> bool {
    if s.active_map@.contains_key(e.id) {
        let j = s.active_map@[e.id] as int;
        if j < i { !is_over(e.end_time, t, d) && ran(s.active@[j], e) } else { s.active@[j] == e }
    } else { is_over(e.end_time, t, d) && has(s.past@, e) }
}
/// Event e after the block.
pub open spec fn finished(e: Event, s: Sequencer, t: f64, d: f64) -> bool {
    if is_over(e.end_time, t, d) { has(s.past@, e) && !s.active_map@.contains_key(e.id) }
    else { s.active_map@.contains_key(e.id) && ran(s.active@[s.active_map@[e.id] as int], e) }
}
/// One turn from o to n; m is the state when events have been activated.
pub open spec fn turn(m: Sequencer, n: Sequencer, o: Sequencer, end: f64) -> bool {
    &&& exists|x: Sequencer| #[trigger] readied(m, x, end) && x == (Sequencer { past: x.past, ..o }) && x.past@ == (if o.replay_events { o.past@ } else { Seq::<Event>::empty() })
    &&& n.ready@ == m.ready@ && n.edit_map@ == m.edit_map@ && n.active_threshold == m.active_threshold
    &&& n.active.len() + n.past.len() == m.active.len() + m.past.len()
    &&& m.past.len() <= n.past.len() && forall|k: int| 0 <= k < m.past.len() ==> #[trigger] n.past@[k] == m.past@[k]
    &&& forall|k: int| 0 <= k < m.active.len() ==> finished(#[trigger] m.active@[k], n, o.time, o.sample_duration)
}
/// Event e is still there, its unit in whatever state.
pub open spec fn kept(s: Seq<Event>, e: Event) -> bool { exists|k: int| 0 <= k < s.len() && same_event(#[trigger] s[k], e) }
pub open spec fn either(s: Seq<Event>, t: Seq<Event>, e: Event) -> bool { has(s, e) || has(t, e) }
pub open spec fn sub(a: Seq<Event>, s: Seq<Event>, t: Seq<Event>) -> bool { forall|k: int| 0 <= k < a.len() ==> either(s, t, #[trigger] a[k]) }
pub proof fn lemma_self(s: Seq<Event>, t: Seq<Event>) ensures sub(s, s, t), sub(t, s, t)
{ assert forall|k: int| 0 <= k < s.len() implies either(s, t, #[trigger] s[k]) by { assert(has(s, s[k])); } assert forall|k: int| 0 <= k < t.len() implies either(s, t, #[trigger] t[k]) by { assert(has(t, t[k])); } }
pub proof fn lemma_holds(s: Seq<Event>, e: Event) ensures has(s, e) ==> holds(s, e.id)
{ if has(s, e) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == e; assert(s[k].id == e.id); } }
pub proof fn lemma_sub(s: Seq<Event>, f: int, t: Seq<Event>, s2: Seq<Event>, t2: Seq<Event>, x: Seq<Event>, y: Seq<Event>)
    requires 0 <= f < s.len(), s2 == s.remove(f), t2 == t.push(s[f]), sub(s, x, y), sub(t, x, y)
    ensures sub(s2, x, y), sub(t2, x, y)
{
    assert forall|k: int| 0 <= k < s2.len() implies either(x, y, #[trigger] s2[k]) by { assert(s2[k] == s[if k < f { k } else { k + 1 }]); }
    assert forall|k: int| 0 <= k < t2.len() implies either(x, y, #[trigger] t2[k]) by { if k < t.len() { assert(t2[k] == t[k]); } else { assert(either(x, y, s[f])); } }
}
/// Event f of s moved to the end of t.
pub proof fn lemma_moved(s: Seq<Event>, f: int, t: Seq<Event>, s2: Seq<Event>, t2: Seq<Event>)
    requires 0 <= f < s.len(), s2 == s.remove(f), t2 == t.push(s[f]), uniq(s), uniq(t), apart(s, t)
    ensures uniq(s2), uniq(t2), apart(s2, t2), apart(t2, s2), s2.len() == s.len() - 1, t2.len() == t.len() + 1,
        forall|e: Event| #[trigger] either(s, t, e) ==> either(s2, t2, e), forall|e: Event| #[trigger] either(t, s, e) ==> either(t2, s2, e),
        forall|k: int| 0 <= k < s2.len() ==> has(s, #[trigger] s2[k]),
        forall|k: int| 0 <= k < t2.len() ==> has(t, #[trigger] t2[k]) || t2[k] == s[f],
{
    assert forall|k: int| 0 <= k < s2.len() implies #[trigger] s2[k] == s[if k < f { k } else { k + 1 }] by { }
    assert forall|e: Event| #[trigger] either(s, t, e) implies either(s2, t2, e) by {
        if has(t, e) { let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == e; assert(t2[k] == e); }
        else {
            let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == e;
            if k == f { assert(t2[t.len() as int] == e); } else if k < f { assert(s2[k] == e); } else { assert(s2[k - 1] == e); }
        }
    }
    assert forall|e: Event| #[trigger] either(t, s, e) implies either(t2, s2, e) by { assert(either(s, t, e)); }
    assert forall|k: int| 0 <= k < t2.len() implies has(t, #[trigger] t2[k]) || t2[k] == s[f] by { if k < t.len() { assert(t[k] == t2[k]); } }
}
// ---------------------------------------------------------------- the backend
#[verifier::external_body]
pub struct Gone { x: u64 }
impl Receiver<Message> {
    pub uninterp spec fn view(&self) -> Seq<Message>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<Message, Gone>)
        ensures old(self)@.len() == 0 ==> r is Err && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Ok::<Message, Gone>(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
}
impl Sequencer {
//@fn src/sequencer.rs Sequencer::replay_events
//@ret r
ensures r == self.replay_events,
//@end
//@fn src/sequencer.rs Sequencer::get_ready_event
//@ret r
requires old(self).wf(),
ensures final(self).wf(), old(self).ready@.len() == 0 ==> r is None && *final(self) == *old(self), old(self).ready@.len() > 0 ==> r is Some && 0 <= old(self).ready.first() < old(self).ready@.len() && final(self).ready@ == old(self).ready@.remove(old(self).ready.first()),
    *final(self) == (Sequencer { ready: final(self).ready, ..*old(self) }),
//@end
}
pub open spec fn pushes(m: Message) -> bool { m is Push || m is PushRelative }
pub open spec fn event_of(m: Message) -> Event { if m is Push { m->Push_0 } else { m->PushRelative_0 } }
pub open spec fn rate_of(m: Message) -> f64 { if m is Push { m->Push_1 } else { m->PushRelative_1 } }
/// New events in the queue have IDs of their own and come with the rate of their unit.
pub open spec fn queue_ok(s: Sequencer, q: Seq<Message>, from: int) -> bool {
    &&& forall|k: int| from <= k < q.len() && pushes(#[trigger] q[k]) ==> s.fresh(event_of(q[k]).id) && event_of(q[k]).unit.rate() == rate_of(q[k])
    &&& forall|j: int, k: int| from <= j < q.len() && from <= k < q.len() && j != k && pushes(#[trigger] q[j]) && pushes(#[trigger] q[k]) ==> event_of(q[j]).id != event_of(q[k]).id
}
/// The effect of one message.
pub open spec fn took(n: Sequencer, o: Sequencer, m: Message) -> bool {
    match m {
        Message::Reset => true,
        Message::Push(e, r) => exists|f: Event| same_event(f, e) && f.unit.rate() == o.sample_rate && #[trigger] pushed(n, o, f),
        Message::PushRelative(e, r) => exists|f: Event| same_event(f, e) && f.unit.rate() == o.sample_rate && #[trigger] pushed(n, o, Event { start_time: add(f.start_time, o.time), end_time: add(f.end_time, o.time), ..f }),
        Message::Edit(d, e) => n.ready@ == o.ready@ && n.past@ == o.past@ && edit_done(n, o, d, e.end_time, e.fade_out),
        Message::EditRelative(d, e) => n.ready@ == o.ready@ && n.past@ == o.past@ && edit_done(n, o, d, add(o.time, e.end_time), e.fade_out),
    }
}
pub open spec fn pushed(n: Sequencer, o: Sequencer, e: Event) -> bool {
    &&& n.past@ == o.past@ && n.edit_map@ == o.edit_map@
    &&& if lt(e.start_time, o.active_threshold) { n.active@ == o.active@.push(e) && n.ready@ == o.ready@ } else { n.active@ == o.active@ && n.ready@ == o.ready@.push(e) }
}
//@item src/realseq.rs struct SequencerBackend
impl SequencerBackend {
//@fn src/realseq.rs SequencerBackend::handle_messages
requires old(self).sequencer.wf(), old(self).sequencer.rates(), old(self).sequencer.front is None, queue_ok(old(self).sequencer, old(self).receiver@, 0),
ensures final(self).sequencer.wf(), final(self).sequencer.rates(), final(self).sequencer.front is None, final(self).receiver@.len() == 0, final(self).sequencer.sample_rate == old(self).sequencer.sample_rate,
//@loops 1
//@before 0
let ghost q0 = self.receiver@;
let ghost mut done: int = 0;
//@loop 0
invariant_except_break self.receiver@ == q0.skip(done),
invariant 0 <= done <= q0.len(), self.sequencer.wf(), self.sequencer.rates(), self.sequencer.front is None, queue_ok(self.sequencer, q0, done), self.sequencer.sample_rate == old(self).sequencer.sample_rate,
ensures self.receiver@.len() == 0,
decreases self.receiver@.len(),
//@in 0
let ghost s1 = self.sequencer;
//@pre self\.sequencer\.push_event\(event\)
let ghost f = event;
proof { assert(s1.fresh(event_of(q0[done]).id)); }
//@post self\.sequencer\.push_event\(event\);
proof { assert(pushed(self.sequencer, s1, f)); assert(same_event(f, q0[done]->Push_0)); }
//@pre self\.sequencer\.push_relative_event\(event\)
let ghost f = event;
proof { assert(s1.fresh(event_of(q0[done]).id)); }
//@post self\.sequencer\.push_relative_event\(event\);
proof { assert(pushed(self.sequencer, s1, Event { start_time: add(f.start_time, s1.time), end_time: add(f.end_time, s1.time), ..f })); assert(same_event(f, q0[done]->PushRelative_0)); }
//@inend 0
proof {
    assert(q0.skip(done).skip(1) =~= q0.skip(done + 1));
    assert(took(self.sequencer, s1, q0[done]));
    done = done + 1;
}
//@end
//@fn src/realseq.rs SequencerBackend::reset_sequencer
requires old(self).sequencer.wf(), old(self).sequencer.rates(), old(self).sequencer.front is None,
ensures final(self).sequencer.wf(), final(self).sequencer.rates(), final(self).sequencer.front is None, final(self).sequencer.sample_rate == old(self).sequencer.sample_rate,
    final(self).receiver@ == old(self).receiver@, forall|d: EventId| #[trigger] old(self).sequencer.fresh(d) ==> final(self).sequencer.fresh(d),
    final(self).sequencer.active@.len() == 0, final(self).sequencer.past@.len() == 0, final(self).sequencer.time == 0.0f64,
    old(self).sequencer.replay_events ==> final(self).sequencer.ready@.len() == old(self).sequencer.active@.len() + old(self).sequencer.ready@.len() + old(self).sequencer.past@.len(),
    !old(self).sequencer.replay_events ==> final(self).sequencer.ready@.len() == 0,
//@loops 3
//@loop 0
invariant self.sequencer.wf(), self.sequencer.rates(), forall|d: EventId| #[trigger] old(self).sequencer.fresh(d) ==> self.sequencer.fresh(d), self.receiver@ == old(self).receiver@, !self.sequencer.replay_events, !old(self).sequencer.replay_events, self.sequencer.front is None, self.sequencer.sample_rate == old(self).sequencer.sample_rate,
ensures self.sequencer.past@.len() == 0,
decreases self.sequencer.past@.len(),
//@loop 1
invariant self.sequencer.wf(), self.sequencer.rates(), forall|d: EventId| #[trigger] old(self).sequencer.fresh(d) ==> self.sequencer.fresh(d), self.receiver@ == old(self).receiver@, !self.sequencer.replay_events, !old(self).sequencer.replay_events, self.sequencer.front is None, self.sequencer.sample_rate == old(self).sequencer.sample_rate,
decreases self.sequencer.ready@.len(),
//@loop 2
invariant self.sequencer.wf(), self.sequencer.rates(), forall|d: EventId| #[trigger] old(self).sequencer.fresh(d) ==> self.sequencer.fresh(d), self.receiver@ == old(self).receiver@, !self.sequencer.replay_events, !old(self).sequencer.replay_events, self.sequencer.front is None, self.sequencer.sample_rate == old(self).sequencer.sample_rate,
decreases self.sequencer.active@.len(),
//@end
}
fn main() {}
}
