// Crossfades of a vertex, and the migration of running units into a committed network.
//@rewrite self\.(next|latest)\.unit\.take\(\) => take_unit(&mut self.\1.unit) ## Option::take -> take_unit (assumed contract)
//@rewrite for \(id, &index\) in self\.node_index\.iter\(\) => let entries = self.node_index.entries(); for nth in 0..entries.len() ## iteration over the map -> over the vector of its entries (assumed contract: each entry once)
//@rewrite if let Some\(&new_index\) = new\.node_index\.get\(id\) => let id = &entries[nth].0; let index = entries[nth].1; if let Some(new_index) = new.node_index.get_at(id) ## HashMap::get -> get_at (assumed contract)
//@rewrite for edit in self\.edit_queue\.iter_mut\(\) \{ => for nth in 0..self.edit_queue.len() { let edit = &mut self.edit_queue[nth]; ## iter_mut -> indices
//@rewrite (edit)\.unit\.take\(\) => take_unit(&mut \1.unit) ## Option::take -> take_unit (assumed contract)
//@rewrite Some\(&index\) = self\.node_index\.get\((&edit\.id)\) => Some(index) = self.node_index.get_at(\1) ## HashMap::get -> get_at (assumed contract)
//@rewrite for edit in net\.edit_queue\.iter\(\) \{ => for nth in 0..net.edit_queue.len() { let edit = &net.edit_queue[nth]; ## iteration over a vector -> indices
//@rewrite #\[allow\([^)]*\)\] =>  ## lint attributes dropped
//@rewrite if sender\.try_send\(NetMessage::Net\(net\)\)\.is_ok\(\) \{\} => send_net(sender, net, Ghost(*old(self))); ## sending the new version -> send_net, whose contract says what may be sent
//@rewrite self\.vertex\.clone\(\) => verts_clone(&self.vertex) ## Vec<Vertex>::clone -> verts_clone (assumed contract)
//@rewrite self\.order\.clone\(\) => order_clone(&self.order) ## clone of the order -> order_clone (assumed contract)
//@rewrite self\.error\.clone\(\) => self.error ## NetError is copied
//@rewrite for vertex in self\.vertex\.iter_mut\(\) \{\s*vertex\.allocate\(\); => for nth in 0..self.vertex.len() { self.vertex[nth].allocate(); ## iter_mut -> indices
//@rewrite => drop\((\w+)\), => => forget(\1), ## drop -> forget (no observable effect)
//@rewrite let sample_rate = sample_rate as f32; => let sample_rate = rate32(sample_rate); ## f64 as f32 -> rate32 (opaque)
//@rewrite if self\.sample_rate != sample_rate => if rate_differs(self.sample_rate, sample_rate) ## comparison of rates -> rate_differs (assumed contract)
//@rewrite (?<!\.)\bsample_rate as f64 => rate64(sample_rate) ## f32 as f64 -> rate64 (opaque)
//@rewrite for vertex in &mut self\.vertex \{ => for nth in 0..self.vertex.len() { let vertex = &mut self.vertex[nth]; ## iteration by mutable reference -> indices
//@include net_pre.rs
#[verifier::external_body]
pub fn take_unit(o: &mut Option<Unit>) -> (r: Option<Unit>) ensures r == *old(o), *final(o) is None { o.take() }
impl Sender<NetReturn> {
    #[verifier::external_body]
    pub fn try_send(&self, m: NetReturn) -> Result<(), ()> { unimplemented!() }
}
impl HashMap<NodeId, NodeIndex> {
    #[verifier::external_body]
    pub fn entries(&self) -> (r: Vec<(NodeId, NodeIndex)>)
        ensures forall|k: int| 0 <= k < r.len() ==> self@.contains_key((#[trigger] r[k]).0) && self@[r[k].0] == r[k].1,
            forall|d: NodeId| #[trigger] self@.contains_key(d) ==> exists|k: int| 0 <= k < r.len() && (#[trigger] r[k]).0 == d,
            forall|j: int, k: int| 0 <= j < r.len() && 0 <= k < r.len() && j != k ==> (#[trigger] r[j]).0 != (#[trigger] r[k]).0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_at(&self, k: &NodeId) -> (r: Option<NodeIndex>) ensures self@.contains_key(*k) ==> r == Some(self@[*k]), !self@.contains_key(*k) ==> r is None { unimplemented!() }
}
/// The unit a vertex is heading for: the latest edit wins.
pub open spec fn target(v: Vertex) -> Unit {
    if v.latest.unit is Some { v.latest.unit->Some_0 } else if v.next.unit is Some { v.next.unit->Some_0 } else { v.unit }
}
pub open spec fn fade_ok(v: Vertex) -> bool { v.latest.unit is Some ==> v.next.unit is Some }
/// Only the fading state differs.
pub open spec fn same_wiring(v: Vertex, w: Vertex) -> bool {
    v == (Vertex { unit: v.unit, next: v.next, latest: v.latest, fade_phase: v.fade_phase, ..w })
}
impl Vertex {
//@fn src/vertex.rs Vertex::allocate
ensures *final(self) == (Vertex { unit: final(self).unit, ..*old(self) }), final(self).unit.ins() == old(self).unit.ins(), final(self).unit.outs() == old(self).unit.outs(), final(self).unit.key() == old(self).unit.key(), final(self).unit.rate() == old(self).unit.rate(),
//@end
//@fn src/vertex.rs Vertex::next_phase
requires old(self).next.unit is Some, fade_ok(*old(self)),
ensures same_wiring(*final(self), *old(self)), fade_ok(*final(self)), target(*final(self)) == target(*old(self)),
    final(self).unit == old(self).next.unit->Some_0, final(self).next.unit == old(self).latest.unit, final(self).latest.unit is None,
    old(self).latest.unit is Some ==> final(self).next.fade == old(self).latest.fade && final(self).next.fade_time == old(self).latest.fade_time && final(self).fade_phase == 0.0f32,
//@end
//@fn src/vertex.rs Vertex::enqueue
requires fade_ok(*old(self)), old(edit).unit is Some,
ensures same_wiring(*final(self), *old(self)), fade_ok(*final(self)), target(*final(self)) == old(edit).unit->Some_0,
    // The unit that is playing, and the one it is fading to, are left alone.
    final(self).unit == old(self).unit, old(self).next.unit is Some ==> final(self).next == old(self).next && final(self).fade_phase == old(self).fade_phase && final(self).latest == *old(edit),
    old(self).next.unit is None ==> final(self).next == *old(edit) && final(self).fade_phase == 0.0f32,
//@end
}
impl Unit {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Unit) ensures r.ins() == self.ins(), r.outs() == self.outs(), r.key() == self.key(), r.rate() == self.rate() { unimplemented!() }
}
#[verifier::external_body]
pub struct Gone { x: u64 }
#[verifier::external_body]
pub fn forget<T>(x: T) { }
impl Receiver<NetReturn> {
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<NetReturn, Gone>) ensures r is Ok ==> final(self).left() < old(self).left() { unimplemented!() }
}
/// Vertex n of the new network is given the running state of vertex o.
pub open spec fn takes_over(n: Vertex, o: Vertex, n0: Vertex) -> bool {
    n == (Vertex { unit: o.unit, next: o.next, latest: o.latest, fade_phase: o.fade_phase, ..n0 })
}
pub open spec fn migrates(me: Net, new: Net, d: NodeId) -> bool {
    me.has(d) && new.has(d) && new.vertex[new.node_index@[d] as int].changed <= me.revision
}
impl Net {
//@fn src/net.rs Net::migrate
requires old(self).ids_ok(), old(new).ids_ok(),
ensures *final(new) == (Net { vertex: final(new).vertex, ..*old(new) }), final(new).vertex.len() == old(new).vertex.len(), final(new).ids_ok(),
    // Nodes that were not changed since the last commit go on as they were, in mid-fade too.
    forall|d: NodeId| #[trigger] migrates(*old(self), *old(new), d) ==> takes_over(final(new).vertex[old(new).node_index@[d] as int], old(self).vertex[old(self).node_index@[d] as int], old(new).vertex[old(new).node_index@[d] as int]),
    // All others are as the frontend sent them.
    forall|d: NodeId| #[trigger] old(new).has(d) && !migrates(*old(self), *old(new), d) ==> final(new).vertex[old(new).node_index@[d] as int] == old(new).vertex[old(new).node_index@[d] as int],
//@loops 1
//@top
let ghost s0 = *self;
let ghost n0 = *new;
//@loop 0
invariant end_0 == entries.len(), s0 == *old(self), n0 == *old(new), s0.ids_ok(), n0.ids_ok(),
    forall|k: int| 0 <= k < entries.len() ==> s0.node_index@.contains_key((#[trigger] entries[k]).0) && s0.node_index@[entries[k].0] == entries[k].1,
    forall|d: NodeId| #[trigger] s0.node_index@.contains_key(d) ==> exists|k: int| 0 <= k < entries.len() && (#[trigger] entries[k]).0 == d,
    forall|j: int, k: int| 0 <= j < entries.len() && 0 <= k < entries.len() && j != k ==> (#[trigger] entries[j]).0 != (#[trigger] entries[k]).0,
    *self == (Net { vertex: self.vertex, ..s0 }), self.vertex.len() == s0.vertex.len(), *new == (Net { vertex: new.vertex, ..n0 }), new.vertex.len() == n0.vertex.len(), new.ids_ok(),
    forall|k: int| nth <= k < entries.len() ==> self.vertex[(#[trigger] entries[k]).1 as int] == s0.vertex[entries[k].1 as int],
    forall|k: int| nth <= k < entries.len() && n0.has((#[trigger] entries[k]).0) ==> new.vertex[n0.node_index@[entries[k].0] as int] == n0.vertex[n0.node_index@[entries[k].0] as int],
    forall|k: int| 0 <= k < nth && n0.has((#[trigger] entries[k]).0) ==>
        (if migrates(s0, n0, entries[k].0) { takes_over(new.vertex[n0.node_index@[entries[k].0] as int], s0.vertex[entries[k].1 as int], n0.vertex[n0.node_index@[entries[k].0] as int]) }
         else { new.vertex[n0.node_index@[entries[k].0] as int] == n0.vertex[n0.node_index@[entries[k].0] as int] }),
    forall|d: NodeId| #[trigger] n0.has(d) && !s0.has(d) ==> new.vertex[n0.node_index@[d] as int] == n0.vertex[n0.node_index@[d] as int],
//@in 0
let ghost s1 = *self;
let ghost n1 = *new;
proof {
    let e = entries[nth as int];
    assert(s0.vertex[s0.node_index@[e.0] as int].id == e.0);
    if n0.has(e.0) { assert(n0.vertex[n0.node_index@[e.0] as int].id == e.0); }
}
//@inend 0
proof {
    let e = entries[nth as int];
    assert forall|j: int| 0 <= j < new.vertex.len() implies (#[trigger] new.vertex[j]).id == n0.vertex[j].id by { assert(n1.vertex[j].id == n0.vertex[j].id) by { assert(n1.node_index@.contains_key(n1.vertex[j].id)); assert(n0.node_index@.contains_key(n0.vertex[j].id)); assert(n1.vertex[n1.node_index@[n0.vertex[j].id] as int].id == n0.vertex[j].id); } }
    assert forall|k: int| 0 <= k < entries.len() && k != nth implies (#[trigger] entries[k]).1 != e.1 by { assert(s0.vertex[s0.node_index@[entries[k].0] as int].id == entries[k].0); }
    assert forall|k: int| 0 <= k < entries.len() && k != nth && n0.has((#[trigger] entries[k]).0) && n0.has(e.0) implies n0.node_index@[entries[k].0] != n0.node_index@[e.0] by {
        assert(n0.vertex[n0.node_index@[entries[k].0] as int].id == entries[k].0);
        assert(n0.vertex[n0.node_index@[e.0] as int].id == e.0);
    }
    assert forall|d: NodeId| #[trigger] n0.has(d) && !s0.has(d) implies new.vertex[n0.node_index@[d] as int] == n0.vertex[n0.node_index@[d] as int] by {
        assert(n0.vertex[n0.node_index@[d] as int].id == d);
        assert(s0.has(e.0));
    }
}
//@end
//@fn src/net.rs Net::apply_edits
requires forall|k: int| 0 <= k < old(self).edit_queue.len() ==> (#[trigger] old(self).edit_queue[k]).index < old(self).vertex.len() && old(self).edit_queue[k].unit is Some,
    forall|j: int| 0 <= j < old(self).vertex.len() ==> fade_ok(#[trigger] old(self).vertex[j]),
ensures final(self).edit_queue.len() == 0, final(self).vertex.len() == old(self).vertex.len(), *final(self) == (Net { vertex: final(self).vertex, edit_queue: final(self).edit_queue, ..*old(self) }),
    forall|j: int| 0 <= j < final(self).vertex.len() ==> fade_ok(#[trigger] final(self).vertex[j]) && same_wiring(final(self).vertex[j], old(self).vertex[j]) && final(self).vertex[j].unit == old(self).vertex[j].unit,
    // Each vertex heads for the unit of the last edit made to it; without edits it is left alone.
    forall|j: int| 0 <= j < old(self).vertex.len() ==> applied(#[trigger] final(self).vertex[j], old(self).vertex[j], old(self).edit_queue@, j),
//@loops 1
//@top
let ghost v0 = self.vertex@;
let ghost q0 = self.edit_queue@;
//@loop 0
invariant end_0 == q0.len(), v0 == old(self).vertex@, q0 == old(self).edit_queue@, self.vertex.len() == v0.len(), self.edit_queue.len() == q0.len(), *self == (Net { vertex: self.vertex, edit_queue: self.edit_queue, ..*old(self) }),
    forall|k: int| 0 <= k < q0.len() ==> (#[trigger] q0[k]).index < v0.len() && q0[k].unit is Some,
    forall|k: int| nth <= k < q0.len() ==> #[trigger] self.edit_queue[k] == q0[k],
    forall|j: int| 0 <= j < v0.len() ==> fade_ok(#[trigger] self.vertex[j]) && same_wiring(self.vertex[j], v0[j]) && self.vertex[j].unit == v0[j].unit,
    forall|j: int| 0 <= j < v0.len() ==> applied(#[trigger] self.vertex[j], v0[j], q0.take(nth as int), j),
//@in 0
let ghost v1 = self.vertex@;
//@inend 0
proof {
    let e = q0[nth as int];
    assert forall|j: int| 0 <= j < v0.len() implies applied(#[trigger] self.vertex[j], v0[j], q0.take(nth + 1), j) by {
        assert(applied(v1[j], v0[j], q0.take(nth as int), j));
        assert(q0.take(nth + 1) =~= q0.take(nth as int).push(e));
        assert(q0.take(nth + 1).drop_last() =~= q0.take(nth as int));
    }
}
//@after 0
proof { assert(q0.take(q0.len() as int) =~= q0); }
//@end
//@assume net_edit src/net.rs Net::inputs
//@assume net_edit src/net.rs Net::outputs
//@fn src/net.rs Net::is_ordered
//@ret r
ensures r == (self.order is Some),
//@end
    /// Contract of net_order, without the order itself.
    #[verifier::external_body]
    fn determine_order(&mut self)
        ensures same_edges(final(self).vertex@, old(self).vertex@), *final(self) == (Net { vertex: final(self).vertex, order: final(self).order, error: final(self).error, ..*old(self) }), final(self).order is Some
    { unimplemented!() }
//@fn src/net.rs Net::clone
//@ret r
ensures clone_of(r, *self),
//@end
//@fn src/net.rs Net::allocate
requires forall|k: int| 0 <= k < old(self).vertex.len() ==> v_ok(#[trigger] old(self).vertex[k]),
ensures same_edges(final(self).vertex@, old(self).vertex@), *final(self) == (Net { vertex: final(self).vertex, order: final(self).order, error: final(self).error, ..*old(self) }), final(self).order is Some,
//@loops 1
//@before 0
let ghost s0 = *self;
//@loop 0
invariant end_0 == s0.vertex.len(), same_edges(self.vertex@, s0.vertex@), *self == (Net { vertex: self.vertex, ..s0 }),
//@end
//@fn src/net.rs Net::commit
requires old(self).wf(), old(self).front is Some, old(self).ins() == old(self).backend_inputs, old(self).outs() == old(self).backend_outputs, old(self).revision < u64::MAX,
    edits_fit(old(self).edit_queue@, *old(self)), rates_ok(*old(self)),
ensures final(self).wf(), rates_ok(*final(self)), final(self).sample_rate == old(self).sample_rate,
    final(self).order is Some, final(self).edit_queue.len() == 0, final(self).revision == old(self).revision + 1, final(self).front is Some,
    // The frontend keeps the same graph; edited nodes now hold (copies of) the units of their last edits.
    final(self).ins() == old(self).ins() && final(self).outs() == old(self).outs() && final(self).node_index@ == old(self).node_index@ && final(self).output_edge@ == old(self).output_edge@,
    final(self).vertex.len() == old(self).vertex.len(),
    forall|k: int| 0 <= k < final(self).vertex.len() ==> (#[trigger] final(self).vertex[k]).source@ == old(self).vertex[k].source@ && final(self).vertex[k].changed == old(self).vertex[k].changed
        && final(self).vertex[k].unit.key() == newest(kept(old(self).edit_queue@, old(self).node_index@), k, old(self).vertex[k].unit.key()),
//@loops 3
//@top
let ghost s0 = *self;
let ghost m = self.node_index@;
let ghost q0 = self.edit_queue@;
//@before 0
let ghost n0 = net;
let ghost s1 = *self;
//@loop 0
invariant end_0 == q0.len(), q0 == s0.edit_queue@, m == s0.node_index@, s1.node_index@ == m, *self == (Net { edit_queue: self.edit_queue, ..s1 }), self.edit_queue.len() == q0.len(), net == (Net { edit_queue: net.edit_queue, ..n0 }),
    forall|k: int| nth <= k < q0.len() ==> #[trigger] self.edit_queue[k] == q0[k],
    net.edit_queue@ == kept(q0.take(nth as int), m),
//@inend 0
proof {
    assert(q0.take(nth + 1).drop_last() =~= q0.take(nth as int));
    assert(q0.take(nth + 1).last() == q0[nth as int]);
}
//@after 0
proof { assert(q0.take(q0.len() as int) =~= q0); lemma_kept(q0, s0, r64(s0.sample_rate)); }
//@before 1
let ghost s2 = *self;
//@loop 1
invariant end_1 == net.edit_queue.len(), net.edit_queue@ == kept(q0, m), *self == (Net { vertex: self.vertex, ..s2 }), self.vertex.len() == s2.vertex.len(),
    s0.ids_ok(), m == s0.node_index@, s2.vertex.len() == s0.vertex.len(),
    forall|k: int| 0 <= k < net.edit_queue.len() ==> e_rate(#[trigger] net.edit_queue[k], r64(s0.sample_rate)),
    forall|k: int| 0 <= k < net.edit_queue.len() ==> (#[trigger] net.edit_queue[k]).unit is Some && m.contains_key(net.edit_queue[k].id) && net.edit_queue[k].index == m[net.edit_queue[k].id]
        && net.edit_queue[k].unit->Some_0.ins() == s0.unit_of(net.edit_queue[k].id).ins() && net.edit_queue[k].unit->Some_0.outs() == s0.unit_of(net.edit_queue[k].id).outs(),
    forall|k: int| 0 <= k < s2.vertex.len() ==> #[trigger] self.vertex[k] == (Vertex { unit: self.vertex[k].unit, ..s2.vertex[k] }) && self.vertex[k].unit.key() == newest(kept(q0, m).take(nth as int), k, s2.vertex[k].unit.key())
        && v_rate(self.vertex[k], r64(s0.sample_rate)) && self.vertex[k].unit.ins() == s0.vertex[k].unit.ins() && self.vertex[k].unit.outs() == s0.vertex[k].unit.outs(),
//@inend 1
proof {
    let q = kept(q0, m);
    assert(q.take(nth + 1).drop_last() =~= q.take(nth as int));
    assert(q.take(nth + 1).last() == q[nth as int]);
}
//@after 1
proof { assert(kept(q0, m).take(kept(q0, m).len() as int) =~= kept(q0, m)); }
//@before 2
let ghost s3 = (sender, receiver);
//@loop 2
invariant true,
decreases receiver.left(),
//@pre if let Some\(\(sender, receiver\)\) = &mut self\.front
let ghost na = net;
proof {
    assert(na.edit_queue@ == kept(q0, m));
    assert forall|k: int| 0 <= k < na.vertex.len() implies v_rate(#[trigger] na.vertex[k], r64(na.sample_rate)) by { assert(v_rate(s0.vertex[k], r64(s0.sample_rate))); }
}
//@post send_net\(sender, net, Ghost\(\*old\(self\)\)\);
//@end
//@fn src/net.rs Net::set_sample_rate
requires rates_ok(*old(self)),
ensures rates_ok(*final(self)), final(self).sample_rate == r32(sample_rate),
    kept_all(final(self).vertex@, old(self).vertex@), final(self).edit_queue.len() == old(self).edit_queue.len(),
    *final(self) == (Net { vertex: final(self).vertex, edit_queue: final(self).edit_queue, order: final(self).order, error: final(self).error, sample_rate: final(self).sample_rate, ..*old(self) }),
    forall|k: int| 0 <= k < old(self).edit_queue.len() ==> same_edit(#[trigger] final(self).edit_queue[k], old(self).edit_queue[k]),
    // A change of rate reaches the backend with the next commit.
    final(self).sample_rate != old(self).sample_rate ==> forall|k: int| 0 <= k < old(self).vertex.len() ==> (#[trigger] final(self).vertex[k]).changed == old(self).revision,
//@loops 2
//@before 0
let ghost s0 = *self;
//@loop 0
invariant end_0 == s0.vertex.len(), kept_all(self.vertex@, s0.vertex@), *self == (Net { vertex: self.vertex, ..s0 }), s0.sample_rate == sample_rate,
    forall|k: int| 0 <= k < nth ==> v_rate(#[trigger] self.vertex[k], r64(sample_rate)) && self.vertex[k].changed == s0.revision,
//@before 1
let ghost s1 = *self;
//@loop 1
invariant end_1 == s1.edit_queue.len(), *self == (Net { edit_queue: self.edit_queue, ..s1 }), s1.sample_rate == sample_rate, self.edit_queue.len() == s1.edit_queue.len(),
    forall|k: int| 0 <= k < s1.edit_queue.len() ==> same_edit(#[trigger] self.edit_queue[k], s1.edit_queue[k]),
    forall|k: int| 0 <= k < nth ==> e_rate(#[trigger] self.edit_queue[k], r64(sample_rate)),
//@end
//@fn src/net.rs Net::reset
ensures kept_all(final(self).vertex@, old(self).vertex@), *final(self) == (Net { vertex: final(self).vertex, order: final(self).order, error: final(self).error, ..*old(self) }),
    // Every unit is reset and goes to the backend with the next commit.
    forall|k: int| 0 <= k < old(self).vertex.len() ==> (#[trigger] final(self).vertex[k]).changed == old(self).revision && final(self).vertex[k].unit.rate() == old(self).vertex[k].unit.rate(),
//@loops 1
//@before 0
let ghost s0 = *self;
//@loop 0
invariant end_0 == s0.vertex.len(), s0 == *old(self), kept_all(self.vertex@, s0.vertex@), *self == (Net { vertex: self.vertex, ..s0 }),
    forall|k: int| 0 <= k < nth ==> (#[trigger] self.vertex[k]).changed == s0.revision,
    forall|k: int| 0 <= k < s0.vertex.len() ==> (#[trigger] self.vertex[k]).unit.rate() == s0.vertex[k].unit.rate(),
//@end
//@fn src/net.rs Net::backend
//@ret r
requires old(self).wf(), rates_ok(*old(self)), old(self).front is None, old(self).revision < u64::MAX, old(self).edit_queue.len() == 0,
ensures final(self).wf(), rates_ok(*final(self)), final(self).front is Some, final(self).backend_inputs == old(self).ins(), final(self).backend_outputs == old(self).outs(),
    // The backend starts as the network was; later changes are newer than its revision.
    new_version(r.net, *old(self)), r.sender is Some, final(self).revision == r.net.revision + 1,
    verts_same(final(self).vertex@, old(self).vertex@), final(self).node_index@ == old(self).node_index@, final(self).output_edge@ == old(self).output_edge@, final(self).edit_queue.len() == 0,
//@pre self\.revision \+= 1
proof {
    assert(net.edit_queue@ =~= kept(old(self).edit_queue@, old(self).node_index@));
    assert forall|k: int| 0 <= k < net.vertex.len() implies v_rate(#[trigger] net.vertex[k], r64(net.sample_rate)) by { assert(v_rate(old(self).vertex[k], r64(old(self).sample_rate))); }
}
//@end
//@assume net_compose src/net.rs Net::has_backend
//@fn src/net.rs Net::crossfade
requires old(self).wf(), old(self).has(node), unit.ins() == old(self).unit_of(node).ins(), unit.outs() == old(self).unit_of(node).outs(),
    forall|j: int| 0 <= j < old(self).vertex.len() ==> fade_ok(#[trigger] old(self).vertex[j]),
ensures final(self).vertex.len() == old(self).vertex.len(), *final(self) == (Net { vertex: final(self).vertex, edit_queue: final(self).edit_queue, ..*old(self) }),
    // With a backend the edit waits for the commit; without one it starts at once. Either way it is last in line.
    old(self).front is Some ==> final(self).vertex@ == old(self).vertex@ && final(self).edit_queue.len() == old(self).edit_queue.len() + 1
        && final(self).edit_queue@.drop_last() == old(self).edit_queue@ && edit_is(final(self).edit_queue@[old(self).edit_queue.len() as int], node, unit, old(self).sample_rate, fade, fade_time)
        && final(self).edit_queue@[old(self).edit_queue.len() as int].index == old(self).node_index@[node],
    old(self).front is None ==> final(self).edit_queue@ == old(self).edit_queue@
        && target(final(self).vertex[old(self).node_index@[node] as int]).key() == unit.key() && target(final(self).vertex[old(self).node_index@[node] as int]).rate() == r64(old(self).sample_rate)
        && final(self).unit_of(node) == old(self).unit_of(node),
    forall|j: int| 0 <= j < final(self).vertex.len() ==> fade_ok(#[trigger] final(self).vertex[j]) && same_wiring(final(self).vertex[j], old(self).vertex[j])
        && (j != old(self).node_index@[node] ==> final(self).vertex[j] == old(self).vertex[j]),
//@bottom
proof { if old(self).front is Some { assert(self.edit_queue@.drop_last() =~= old(self).edit_queue@); } }
//@end
}
/// Clones run at the same rate.
#[verifier::external_body]
pub fn verts_clone(v: &Vec<Vertex>) -> (r: Vec<Vertex>) ensures verts_same(r@, v@) { unimplemented!() }
#[verifier::external_body]
pub fn order_clone(v: &Option<Vec<usize>>) -> (r: Option<Vec<usize>>) ensures r == *v { unimplemented!() }
impl HashMap<NodeId, NodeIndex> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn verts_same(vs: Seq<Vertex>, ws: Seq<Vertex>) -> bool {
    vs.len() == ws.len() && forall|k: int| 0 <= k < vs.len() ==> (#[trigger] vs[k]).source@ == ws[k].source@ && vs[k].id == ws[k].id && vs[k].tick_input@ == ws[k].tick_input@
        && vs[k].tick_output@ == ws[k].tick_output@ && vs[k].changed == ws[k].changed && (v_rate(ws[k], ws[k].unit.rate()) ==> v_rate(vs[k], ws[k].unit.rate()))
        && vs[k].unit.ins() == ws[k].unit.ins() && vs[k].unit.outs() == ws[k].unit.outs() && vs[k].unit.key() == ws[k].unit.key()
}
/// Same graph; units may have changed state (never their arity).
pub open spec fn same_edges(vs: Seq<Vertex>, ws: Seq<Vertex>) -> bool {
    vs.len() == ws.len() && forall|k: int| 0 <= k < vs.len() ==> (#[trigger] vs[k]).source == ws[k].source && vs[k].id == ws[k].id && vs[k].tick_input == ws[k].tick_input
        && vs[k].tick_output == ws[k].tick_output && vs[k].changed == ws[k].changed && vs[k].next == ws[k].next && vs[k].latest == ws[k].latest && vs[k].fade_phase == ws[k].fade_phase
        && vs[k].unit.ins() == ws[k].unit.ins() && vs[k].unit.outs() == ws[k].unit.outs() && vs[k].unit.key() == ws[k].unit.key() && vs[k].unit.rate() == ws[k].unit.rate()
}
pub open spec fn clone_of(n: Net, o: Net) -> bool {
    &&& n.front is None && n.edit_queue.len() == 0 && verts_same(n.vertex@, o.vertex@) && n.node_index@ == o.node_index@ && n.output_edge@ == o.output_edge@
    &&& n.ins() == o.ins() && n.outs() == o.outs() && n.order == o.order && n.sample_rate == o.sample_rate && n.revision == o.revision && n.error == o.error
    &&& n.backend_inputs == o.backend_inputs && n.backend_outputs == o.backend_outputs
}
/// Edits of nodes that are still there, in the order they were made, with current indices.
pub open spec fn kept(q: Seq<NodeEdit>, m: Map<NodeId, NodeIndex>) -> Seq<NodeEdit>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() }
    else if m.contains_key(q.last().id) { kept(q.drop_last(), m).push(NodeEdit { index: m[q.last().id], ..q.last() }) }
    else { kept(q.drop_last(), m) }
}
/// Edits hold units that fit the nodes they are for.
pub open spec fn edits_fit(q: Seq<NodeEdit>, f: Net) -> bool {
    forall|k: int| 0 <= k < q.len() ==> (#[trigger] q[k]).unit is Some
        && (f.has(q[k].id) ==> q[k].unit->Some_0.ins() == f.unit_of(q[k].id).ins() && q[k].unit->Some_0.outs() == f.unit_of(q[k].id).outs())
}
pub proof fn lemma_kept(q: Seq<NodeEdit>, f: Net, r: f64)
    requires edits_fit(q, f), forall|k: int| 0 <= k < q.len() ==> e_rate(#[trigger] q[k], r)
    ensures edits_fit(kept(q, f.node_index@), f), forall|k: int| 0 <= k < kept(q, f.node_index@).len() ==> e_rate(#[trigger] kept(q, f.node_index@)[k], r),
        forall|k: int| 0 <= k < kept(q, f.node_index@).len() ==> f.has((#[trigger] kept(q, f.node_index@)[k]).id) && kept(q, f.node_index@)[k].index == f.node_index@[kept(q, f.node_index@)[k].id]
    decreases q.len()
{
    if q.len() > 0 { assert forall|k: int| 0 <= k < q.len() - 1 implies #[trigger] q.drop_last()[k] == q[k] by { } lemma_kept(q.drop_last(), f, r); assert(q[q.len() - 1].unit is Some); }
}
pub open spec fn newest(q: Seq<NodeEdit>, j: int, key: int) -> int
    decreases q.len()
{
    if q.len() == 0 { key } else if q.last().index == j { q.last().unit->Some_0.key() } else { newest(q.drop_last(), j, key) }
}
/// What may be sent to the backend as the new version of frontend f.
pub open spec fn new_version(n: Net, f: Net) -> bool {
    &&& n.front is None && n.order is Some && n.revision == f.revision && n.node_index@ == f.node_index@ && n.output_edge@ == f.output_edge@ && n.ins() == f.ins() && n.outs() == f.outs()
    // The original units go to the backend, with all edits of remaining nodes.
    &&& same_edges(n.vertex@, f.vertex@) && n.edit_queue@ == kept(f.edit_queue@, f.node_index@)
    &&& n.wf() && rates_ok(n) && n.sample_rate == f.sample_rate
}
#[verifier::external_body]
pub fn send_net(s: &mut Sender<NetMessage>, n: Net, Ghost(f): Ghost<Net>) requires new_version(n, f) { unimplemented!() }
pub uninterp spec fn r32(x: f64) -> f32;
#[verifier::external_body]
pub fn rate32(x: f64) -> (r: f32) ensures r == r32(x) { x as f32 }
#[verifier::external_body]
pub fn rate_differs(x: f32, y: f32) -> (r: bool) ensures r == (x != y) { x != y }
pub open spec fn e_rate(e: NodeEdit, r: f64) -> bool { e.unit is Some ==> e.unit->Some_0.rate() == r }
pub open spec fn v_rate(v: Vertex, r: f64) -> bool { v.unit.rate() == r && e_rate(v.next, r) && e_rate(v.latest, r) }
/// Every unit - playing, fading in, waiting or yet to be committed - runs at the rate of the network.
pub open spec fn rates_ok(n: Net) -> bool {
    &&& forall|k: int| 0 <= k < n.vertex.len() ==> v_rate(#[trigger] n.vertex[k], r64(n.sample_rate))
    &&& forall|k: int| 0 <= k < n.edit_queue.len() ==> e_rate(#[trigger] n.edit_queue[k], r64(n.sample_rate))
}
pub open spec fn same_edit(e: NodeEdit, f: NodeEdit) -> bool {
    &&& e == (NodeEdit { unit: e.unit, ..f })
    &&& (e.unit is Some) == (f.unit is Some) && (e.unit is Some ==> same_unit(e.unit->Some_0, f.unit->Some_0))
}
pub open spec fn same_unit(u: Unit, w: Unit) -> bool { u.ins() == w.ins() && u.outs() == w.outs() && u.key() == w.key() }
/// Same graph and the same units, in whatever state.
pub open spec fn kept_all(vs: Seq<Vertex>, ws: Seq<Vertex>) -> bool {
    vs.len() == ws.len() && forall|k: int| 0 <= k < vs.len() ==> (#[trigger] vs[k]).source == ws[k].source && vs[k].id == ws[k].id && vs[k].tick_input == ws[k].tick_input
        && vs[k].tick_output == ws[k].tick_output && same_edit(vs[k].next, ws[k].next) && same_edit(vs[k].latest, ws[k].latest) && vs[k].fade_phase == ws[k].fade_phase && same_unit(vs[k].unit, ws[k].unit)
}
impl Unit {
    #[verifier::external_body]
    pub fn reset(&mut self)
        ensures final(self).rate() == old(self).rate(), final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs(), final(self).key() == old(self).key() { unimplemented!() }
}
// ---------------------------------------------------------------- the backend
impl Receiver<NetMessage> {
    /// Messages that have been sent and not yet received, oldest first.
    pub uninterp spec fn view(&self) -> Seq<NetMessage>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<NetMessage, Gone>)
        ensures old(self)@.len() == 0 ==> r is Err && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Ok::<NetMessage, Gone>(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
}
impl Net {
    #[verifier::external_body]
    pub fn set(&mut self, setting: Setting)
        ensures set_to(*final(self), *old(self), setting)
    { unimplemented!() }
}
/// Effect of a setting: it only concerns the state of units.
pub open spec fn set_to(n: Net, o: Net, s: Setting) -> bool {
    &&& n == (Net { vertex: n.vertex, ..o }) && kept_all(n.vertex@, o.vertex@) && set_effect(n, o, s)
    &&& forall|k: int| 0 <= k < o.vertex.len() ==> (#[trigger] n.vertex[k]).next == o.vertex[k].next && n.vertex[k].latest == o.vertex[k].latest && n.vertex[k].unit.rate() == o.vertex[k].unit.rate()
}
pub uninterp spec fn set_effect(n: Net, o: Net, s: Setting) -> bool;
/// m is the new version n with the running state of o.
pub open spec fn migrated(m: Net, n: Net, o: Net) -> bool {
    &&& m == (Net { vertex: m.vertex, ..n }) && m.vertex.len() == n.vertex.len()
    &&& forall|d: NodeId| #[trigger] migrates(o, n, d) ==> takes_over(m.vertex[n.node_index@[d] as int], o.vertex[o.node_index@[d] as int], n.vertex[n.node_index@[d] as int])
    &&& forall|d: NodeId| #[trigger] n.has(d) && !migrates(o, n, d) ==> m.vertex[n.node_index@[d] as int] == n.vertex[n.node_index@[d] as int]
}
/// n is m with its edits begun.
pub open spec fn begun(n: Net, m: Net) -> bool {
    &&& n.edit_queue.len() == 0 && n.vertex.len() == m.vertex.len() && n == (Net { vertex: n.vertex, edit_queue: n.edit_queue, ..m })
    &&& forall|j: int| 0 <= j < m.vertex.len() ==> fade_ok(#[trigger] n.vertex[j]) && same_wiring(n.vertex[j], m.vertex[j]) && n.vertex[j].unit == m.vertex[j].unit && applied(n.vertex[j], m.vertex[j], m.edit_queue@, j)
}
pub open spec fn fades_ok(n: Net) -> bool { forall|j: int| 0 <= j < n.vertex.len() ==> fade_ok(#[trigger] n.vertex[j]) }
pub open spec fn step(a: Net, m: NetMessage, b: Net) -> bool {
    match m {
        NetMessage::Null => b == a,
        NetMessage::Setting(s) => set_to(b, a, s),
        NetMessage::Net(n) => exists|x: Net| migrated(x, n, a) && #[trigger] begun(b, x),
    }
}
/// The network after the messages, each taken in turn.
pub open spec fn after(a: Net, ms: Seq<NetMessage>, b: Net) -> bool
    decreases ms.len()
{
    if ms.len() == 0 { b == a } else { exists|x: Net| after(a, ms.drop_last(), x) && #[trigger] step(x, ms.last(), b) }
}
/// A new version that can be taken over.
pub open spec fn version_ok(n: Net) -> bool {
    &&& n.ids_ok() && fades_ok(n)
    &&& forall|k: int| 0 <= k < n.edit_queue.len() ==> (#[trigger] n.edit_queue[k]).index < n.vertex.len() && n.edit_queue[k].unit is Some
}
#[verifier::external_body]
pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) { unimplemented!() }
//@item src/realnet.rs struct NetBackend
impl NetBackend {
//@fn src/realnet.rs NetBackend::new
//@ret r
ensures r.sender == Some(sender), r.receiver == receiver, r.net == net,
//@end
//@fn src/realnet.rs NetBackend::handle_messages
requires old(self).net.ids_ok(), fades_ok(old(self).net), old(self).sender is Some,
    forall|k: int| 0 <= k < old(self).receiver@.len() && (#[trigger] old(self).receiver@[k]) is Net ==> version_ok(old(self).receiver@[k]->Net_0),
ensures final(self).net.ids_ok(), fades_ok(final(self).net), final(self).sender is Some,
    // All messages are handled, in the order they were sent.
    final(self).receiver@.len() == 0, after(old(self).net, old(self).receiver@, final(self).net),
//@loops 1
//@before 0
let ghost q0 = self.receiver@;
let ghost a0 = self.net;
let ghost mut done: int = 0;
//@loop 0
invariant_except_break self.receiver@ == q0.skip(done),
invariant 0 <= done <= q0.len(), q0 == old(self).receiver@, a0 == old(self).net, self.net.ids_ok(), fades_ok(self.net), self.sender is Some, after(a0, q0.take(done), self.net),
    forall|k: int| 0 <= k < q0.len() && (#[trigger] q0[k]) is Net ==> version_ok(q0[k]->Net_0),
ensures self.receiver@.len() == 0, done == q0.len(),
decreases self.receiver@.len(),
//@in 0
let ghost x = self.net;
//@pre self\.net\.apply_edits
let ghost y = self.net;
proof {
    let n = q0[done]->Net_0;
    assert(migrated(y, n, x));
    assert forall|j: int| 0 <= j < y.vertex.len() implies fade_ok(#[trigger] y.vertex[j]) by {
        let d = n.vertex[j].id;
        assert(n.has(d) && n.node_index@[d] == j);
        assert(fade_ok(n.vertex[j]));
        if migrates(x, n, d) { assert(takes_over(y.vertex[j], x.vertex[x.node_index@[d] as int], n.vertex[j])); assert(fade_ok(x.vertex[x.node_index@[d] as int])); }
        else { assert(y.vertex[j] == n.vertex[j]); }
    }
}
//@post self\.net\.apply_edits\(&self\.sender\);
proof { assert(begun(self.net, y)); assert(step(x, q0[done], self.net)); }
//@inend 0
proof {
    let m = q0[done];
    assert(step(x, m, self.net));
    assert(q0.take(done + 1).drop_last() =~= q0.take(done));
    assert(q0.take(done + 1).last() == m);
    assert(q0.skip(done).skip(1) =~= q0.skip(done + 1));
    done = done + 1;
}
//@after 0
proof { assert(q0.take(q0.len() as int) =~= q0); }
//@end
}
pub open spec fn edit_is(e: NodeEdit, d: NodeId, u: Unit, rate: f32, fade: Fade, time: f32) -> bool {
    e.unit is Some && e.unit->Some_0.key() == u.key() && e.unit->Some_0.rate() == r64(rate) && e.id == d && e.fade == fade && e.fade_time == time
}
pub open spec fn applied(v: Vertex, v0: Vertex, q: Seq<NodeEdit>, j: int) -> bool
    decreases q.len()
{
    if q.len() == 0 { v == v0 }
    else if q.last().index == j { target(v) == q.last().unit->Some_0 }
    else { applied(v, v0, q.drop_last(), j) }
}
fn main() {}
}
