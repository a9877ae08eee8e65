// Composition of networks: what the graph operators build.
//@rewrite pub fn binary<.*?>\( => pub fn binary<B>( ## bounds of the operator type of Net::binary (the operator itself is opaque)
//@include net_pre.rs
pub open spec fn tr(p: Port, off: int, inoff: int, sub: Seq<Edge>, piped: bool) -> Port {
    match p {
        Port::Zero => Port::Zero,
        Port::Local(a, q) => Port::Local((a + off) as usize, q),
        Port::Global(g) => if piped { sub[g as int].source } else { Port::Global((g + inoff) as usize) },
    }
}
/// Vertex w of the second network, moved to index k with its sources translated up to channel `upto`.
pub open spec fn moved_to(v: Vertex, w: Vertex, k: int, upto: int, off: int, inoff: int, sub: Seq<Edge>, piped: bool) -> bool {
    &&& v == (Vertex { source: v.source, ..w })
    &&& v.source.len() == w.source.len()
    &&& forall|c: int| 0 <= c < v.source.len() ==> #[trigger] v.source[c] == (if c < upto {
            Edge { source: tr(w.source[c].source, off, inoff, sub, piped), target: Port::Local(k as usize, c as usize) } } else { w.source[c] })
}
/// The first `upto` vertices are indexed exactly.
pub open spec fn ids_upto(n: Net, upto: int) -> bool {
    &&& forall|i: int| 0 <= i < upto ==> n.node_index@.contains_key(#[trigger] n.vertex[i].id) && n.node_index@[n.vertex[i].id] == i
    &&& forall|d: NodeId| #[trigger] n.node_index@.contains_key(d) ==> n.node_index@[d] < upto && n.vertex[n.node_index@[d] as int].id == d
}
pub open spec fn disjoint_ids(a: Net, b: Net) -> bool { forall|i: int| 0 <= i < b.vertex.len() ==> !a.has(#[trigger] b.vertex[i].id) }
/// Same network up to IDs that the other network has.
pub open spec fn but_ids(b: Net, n2: Net, a: Net) -> bool {
    &&& b == (Net { vertex: b.vertex, node_index: b.node_index, ..n2 })
    &&& b.vertex.len() == n2.vertex.len()
    &&& forall|i: int| 0 <= i < b.vertex.len() ==> #[trigger] b.vertex[i] == (Vertex { id: b.vertex[i].id, ..n2.vertex[i] })
    &&& forall|i: int| 0 <= i < b.vertex.len() && !a.has(n2.vertex[i].id) ==> (#[trigger] b.vertex[i]).id == n2.vertex[i].id
}
/// State of the join of a and b before vertex `node` is translated.
pub open spec fn joining(j: Net, a: Net, b: Net, node: int, inoff: int, sub: Seq<Edge>, piped: bool) -> bool {
    let off = a.vertex.len() as int;
    &&& j.vertex.len() == off + b.vertex.len()
    &&& ids_upto(j, node)
    &&& forall|k: int| 0 <= k < off ==> #[trigger] j.vertex[k] == a.vertex[k]
    &&& forall|k: int| off <= k < node ==> moved_to(#[trigger] j.vertex[k], b.vertex[k - off], k, b.vertex[k - off].source.len() as int, off, inoff, sub, piped)
    &&& forall|k: int| node <= k < j.vertex.len() ==> #[trigger] j.vertex[k] == b.vertex[k - off]
}
/// What the user gets: the vertices of n1 as they were, then those of n2 with their sources translated.
pub open spec fn composed(r: Net, n1: Net, n2: Net, inoff: int, sub: Seq<Edge>, piped: bool) -> bool {
    let off = n1.vertex.len() as int;
    &&& r.vertex.len() >= off + n2.vertex.len()
    &&& forall|k: int| 0 <= k < off ==> #[trigger] r.vertex[k] == n1.vertex[k]
    &&& forall|k: int| 0 <= k < n2.vertex.len() ==> #[trigger] part(r, n1, n2, k, inoff, sub, piped)
}
pub open spec fn part(r: Net, n1: Net, n2: Net, k: int, inoff: int, sub: Seq<Edge>, piped: bool) -> bool {
    let off = n1.vertex.len() as int;
    keeps_id(r, n1, n2, k) && moved_to(Vertex { id: n2.vertex[k].id, ..r.vertex[off + k] }, n2.vertex[k], off + k, n2.vertex[k].source.len() as int, off, inoff, sub, piped)
}
pub open spec fn keeps_id(r: Net, n1: Net, n2: Net, k: int) -> bool {
    !n1.has(n2.vertex[k].id) ==> r.vertex[n1.vertex.len() + k].id == n2.vertex[k].id
}
/// Appending the renamed second network.
pub proof fn lemma_start(j: Net, a: Net, b: Net, n2: Net, inoff: int, sub: Seq<Edge>, piped: bool)
    requires a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), j.vertex@ == a.vertex@ + b.vertex@, j.node_index == a.node_index,
    ensures joining(j, a, b, a.vertex.len() as int, inoff, sub, piped)
{ }
/// The map after the ID of vertex `node` was entered.
pub proof fn lemma_enter(j: Net, a: Net, b: Net, node: int, m: Map<NodeId, NodeIndex>, inoff: int, sub: Seq<Edge>, piped: bool)
    requires joining(j, a, b, node, inoff, sub, piped), a.ids_ok(), b.ids_ok(), disjoint_ids(a, b), a.vertex.len() <= node < j.vertex.len(), m == j.node_index@.insert(j.vertex[node].id, node as usize),
    ensures forall|i: int| 0 <= i < node + 1 ==> m.contains_key(#[trigger] j.vertex[i].id) && m[j.vertex[i].id] == i,
        forall|d: NodeId| #[trigger] m.contains_key(d) ==> m[d] < node + 1 && j.vertex[m[d] as int].id == d,
{
    let off = a.vertex.len() as int;
    let d = j.vertex[node].id;
    assert(d == b.vertex[node - off].id);
    assert(!a.has(d));
    assert forall|i: int| 0 <= i < node implies (#[trigger] j.vertex[i]).id != d by {
        if i < off { assert(j.vertex[i] == a.vertex[i]); assert(a.has(a.vertex[i].id)); }
        else { assert(j.vertex[i].id == b.vertex[i - off].id); assert(b.node_index@[b.vertex[i - off].id] == i - off); assert(b.node_index@[b.vertex[node - off].id] == node - off); }
    }
}
/// The finished join is well formed and is what `composed` says.
pub proof fn lemma_join(j: Net, a: Net, b: Net, n2: Net, inoff: int, sub: Seq<Edge>, piped: bool)
    requires a.wf(), n2.wf(), but_ids(b, n2, a), joining(j, a, b, j.vertex.len() as int, inoff, sub, piped), j.vertex.len() <= usize::MAX,
        piped ==> sub.len() == n2.ins() && j.ins() == a.ins() && forall|g: int| 0 <= g < sub.len() ==> p_ok(a.vertex@, a.ins(), (#[trigger] sub[g]).source),
        !piped ==> j.ins() >= n2.ins() + inoff && j.ins() >= a.ins() && inoff >= 0 && j.ins() <= usize::MAX,
    ensures j.ids_ok(), composed(j, a, n2, inoff, sub, piped),
        forall|i: int| 0 <= i < j.vertex.len() ==> v_ok(#[trigger] j.vertex[i]),
        forall|i: int, c: int| 0 <= i < j.vertex.len() && 0 <= c < j.vertex[i].source.len() ==>
            p_ok(j.vertex@, j.ins(), (#[trigger] j.vertex[i].source[c]).source) && not_self(j.vertex[i].source[c].source, i)
                && j.vertex[i].source[c].target == Port::Local(i as usize, c as usize),
        forall|p: Port| p_ok(a.vertex@, a.ins(), p) ==> #[trigger] p_ok(j.vertex@, j.ins(), p),
        forall|p: Port| #[trigger] p_ok(n2.vertex@, n2.ins(), p) ==> p_ok(j.vertex@, j.ins(), tr(p, a.vertex.len() as int, inoff, sub, piped)),
{
    let off = a.vertex.len() as int;
    assert forall|k: int| 0 <= k < n2.vertex.len() implies #[trigger] part(j, a, n2, k, inoff, sub, piped) by {
        let v = j.vertex[off + k];
        assert(moved_to(v, b.vertex[off + k - off], off + k, b.vertex[k].source.len() as int, off, inoff, sub, piped));
        assert(b.vertex[k] == (Vertex { id: b.vertex[k].id, ..n2.vertex[k] }));
    }
    assert forall|p: Port| p_ok(a.vertex@, a.ins(), p) implies #[trigger] p_ok(j.vertex@, j.ins(), p) by {
        if let Port::Local(x, q) = p { assert(j.vertex[x as int] == a.vertex[x as int]); }
    }
    assert forall|p: Port| #[trigger] p_ok(n2.vertex@, n2.ins(), p) implies p_ok(j.vertex@, j.ins(), tr(p, off, inoff, sub, piped)) by {
        match p {
            Port::Local(x, q) => {
                assert(moved_to(j.vertex[off + x], b.vertex[off + x - off], off + x, b.vertex[x as int].source.len() as int, off, inoff, sub, piped));
                assert(b.vertex[x as int] == (Vertex { id: b.vertex[x as int].id, ..n2.vertex[x as int] }));
            }
            Port::Global(g) => { if piped { assert(p_ok(a.vertex@, a.ins(), sub[g as int].source)); assert(p_ok(j.vertex@, j.ins(), sub[g as int].source)); } }
            _ => {}
        }
    }
    assert forall|i: int| 0 <= i < j.vertex.len() implies v_ok(#[trigger] j.vertex[i]) by {
        if i < off { assert(j.vertex[i] == a.vertex[i]); assert(v_ok(a.vertex[i])); }
        else { assert(b.vertex[i - off] == (Vertex { id: b.vertex[i - off].id, ..n2.vertex[i - off] })); assert(v_ok(n2.vertex[i - off])); }
    }
    assert forall|i: int, c: int| 0 <= i < j.vertex.len() && 0 <= c < j.vertex[i].source.len() implies
            p_ok(j.vertex@, j.ins(), (#[trigger] j.vertex[i].source[c]).source) && not_self(j.vertex[i].source[c].source, i)
                && j.vertex[i].source[c].target == Port::Local(i as usize, c as usize) by {
        if i < off {
            assert(j.vertex[i] == a.vertex[i]); let e = a.vertex[i].source[c];
            assert(p_ok(a.vertex@, a.ins(), e.source)); assert(p_ok(j.vertex@, j.ins(), e.source));
        } else {
            let w = n2.vertex[i - off];
            assert(b.vertex[i - off] == (Vertex { id: b.vertex[i - off].id, ..w }));
            assert(moved_to(j.vertex[i], b.vertex[i - off], i, w.source.len() as int, off, inoff, sub, piped));
            let e = w.source[c];
            assert(p_ok(n2.vertex@, n2.ins(), e.source));
            assert(p_ok(j.vertex@, j.ins(), tr(e.source, off, inoff, sub, piped)));
            if let Port::Global(g) = e.source { if piped { assert(p_ok(a.vertex@, a.ins(), sub[g as int].source)); } }
        }
    }
}
pub open spec fn out_ok(j: Net, a: Net, n2: Net, upto: int, inoff: int) -> bool {
    forall|c: int| 0 <= c < j.output_edge.len() ==> #[trigger] j.output_edge[c] == (if c < a.outs() { a.output_edge[c] } else if c < upto {
        Edge { source: tr(n2.output_edge[c - a.outs()].source, a.vertex.len() as int, inoff, Seq::<Edge>::empty(), false), target: Port::Global(c as usize) } } else { n2.output_edge[c - a.outs()] })
}
pub open spec fn adder(v: Vertex, k: int, s0: Port, s1: Port) -> bool {
    v_ok(v) && v.unit.ins() == 2 && v.unit.outs() == 1 && v.source[0] == (Edge { source: s0, target: Port::Local(k as usize, 0) }) && v.source[1] == (Edge { source: s1, target: Port::Local(k as usize, 1) })
}
pub open spec fn adders(n: Net, j: Net, add: int, cnt: int, o1: Seq<Edge>, d1: int, o2: Seq<Edge>, d2: int, off: int, inoff: int) -> bool {
    &&& n.vertex.len() == add + cnt
    &&& forall|k: int| 0 <= k < add ==> #[trigger] n.vertex[k] == j.vertex[k]
    &&& forall|k: int| add <= k < add + cnt ==> adder(#[trigger] n.vertex[k], k, if k - add < d1 { o1[k - add].source } else { Port::Zero }, if k - add < d2 { tr(o2[k - add].source, off, inoff, Seq::<Edge>::empty(), false) } else { Port::Zero })
}
pub proof fn lemma_adder(k0: Net, n: Net, j: Net, add: int, cnt: int, o1: Seq<Edge>, d1: int, o2: Seq<Edge>, d2: int, off: int, inoff: int, first: bool)
    requires adders(k0, j, add, cnt, o1, d1, o2, d2, off, inoff), 0 <= add, 0 <= cnt, n.vertex.len() == k0.vertex.len(), k0.ids_ok(), n.node_index == k0.node_index, first ==> 0 <= d1 < cnt && d2 == 0, !first ==> 0 <= d2 < cnt && d1 == cnt,
        add + cnt <= usize::MAX,
        ({
            let i = if first { d1 } else { d2 };
            let s = if first { o1[i].source } else { tr(o2[i].source, off, inoff, Seq::<Edge>::empty(), false) };
            let p: int = if first { 0 } else { 1 };
            &&& forall|k: int| 0 <= k < n.vertex.len() && k != add + i ==> #[trigger] n.vertex[k] == k0.vertex[k]
            &&& n.vertex[add + i] == (Vertex { source: n.vertex[add + i].source, ..k0.vertex[add + i] })
            &&& n.vertex[add + i].source@ == k0.vertex[add + i].source@.update(p, Edge { source: s, target: Port::Local((add + i) as usize, p as usize) })
        }),
    ensures adders(n, j, add, cnt, o1, if first { d1 + 1 } else { d1 }, o2, if first { d2 } else { d2 + 1 }, off, inoff), n.ids_ok()
{
    let i = if first { d1 } else { d2 };
    assert forall|k: int| 0 <= k < n.vertex.len() implies (#[trigger] n.vertex[k]).id == k0.vertex[k].id by { if k != add + i { assert(n.vertex[k] == k0.vertex[k]); } }
    assert forall|k: int| 0 <= k < add implies #[trigger] n.vertex[k] == j.vertex[k] by { assert(n.vertex[k] == k0.vertex[k]); }
    assert(adder(k0.vertex[add + i], add + i, if i < d1 { o1[i].source } else { Port::Zero }, if i < d2 { tr(o2[i].source, off, inoff, Seq::<Edge>::empty(), false) } else { Port::Zero }));
    let d1b = if first { d1 + 1 } else { d1 };
    let d2b = if first { d2 } else { d2 + 1 };
    assert forall|k: int| add <= k < add + cnt implies adder(#[trigger] n.vertex[k], k, if k - add < d1b { o1[k - add].source } else { Port::Zero }, if k - add < d2b { tr(o2[k - add].source, off, inoff, Seq::<Edge>::empty(), false) } else { Port::Zero }) by {
        if k != add + i { assert(n.vertex[k] == k0.vertex[k]); }
    }
}
pub proof fn lemma_finish(n: Net, j: Net, a: Net, n2: Net, add: int, off: int, inoff: int)
    requires j.wf(), a.wf(), n2.wf(), composed(j, a, n2, inoff, Seq::<Edge>::empty(), false), off == a.vertex.len(), add == j.vertex.len(), add == off + n2.vertex.len(), n.ids_ok(), n.ins() == j.ins(), n.outs() == j.outs(), a.outs() == n2.outs(), a.outs() == j.outs(),
        n.output_edge.len() == n.outs(), n.vertex.len() <= usize::MAX,
        adders(n, j, add, j.outs() as int, a.output_edge@, a.outs() as int, n2.output_edge@, a.outs() as int, off, inoff),
        forall|c: int| 0 <= c < n.output_edge.len() ==> #[trigger] n.output_edge[c] == (Edge { source: Port::Local((add + c) as usize, 0), target: Port::Global(c as usize) }),
        forall|p: Port| p_ok(a.vertex@, a.ins(), p) ==> #[trigger] p_ok(j.vertex@, j.ins(), p),
        forall|p: Port| #[trigger] p_ok(n2.vertex@, n2.ins(), p) ==> p_ok(j.vertex@, j.ins(), tr(p, off, inoff, Seq::<Edge>::empty(), false)),
    ensures n.wf(), composed(n, a, n2, inoff, Seq::<Edge>::empty(), false),
        forall|c: int| 0 <= c < a.outs() ==> #[trigger] adder(n.vertex[add + c], add + c, a.output_edge[c].source, tr(n2.output_edge[c].source, off, inoff, Seq::<Edge>::empty(), false)),
{
    assert forall|p: Port| #[trigger] p_ok(j.vertex@, j.ins(), p) implies p_ok(n.vertex@, n.ins(), p) by { if let Port::Local(x, q) = p { assert(n.vertex[x as int] == j.vertex[x as int]); } }
    assert forall|i: int| 0 <= i < n.vertex.len() implies v_ok(#[trigger] n.vertex[i]) by { if i < add { assert(n.vertex[i] == j.vertex[i]); } }
    assert forall|i: int, c: int| 0 <= i < n.vertex.len() && 0 <= c < n.vertex[i].source.len() implies
            p_ok(n.vertex@, n.ins(), (#[trigger] n.vertex[i].source[c]).source) && not_self(n.vertex[i].source[c].source, i)
                && n.vertex[i].source[c].target == Port::Local(i as usize, c as usize) by {
        if i < add { assert(n.vertex[i] == j.vertex[i]); let e = j.vertex[i].source[c]; assert(p_ok(j.vertex@, j.ins(), e.source)); }
        else {
            let x = i - add;
            assert(adder(n.vertex[i], i, a.output_edge[x].source, tr(n2.output_edge[x].source, off, inoff, Seq::<Edge>::empty(), false)));
            assert(p_ok(a.vertex@, a.ins(), a.output_edge[x].source));
            assert(p_ok(j.vertex@, j.ins(), a.output_edge[x].source));
            assert(p_ok(n2.vertex@, n2.ins(), n2.output_edge[x].source));
            assert(p_ok(j.vertex@, j.ins(), tr(n2.output_edge[x].source, off, inoff, Seq::<Edge>::empty(), false)));
            assert(c == 0 || c == 1);
        }
    }
    assert forall|k: int| 0 <= k < n2.vertex.len() implies #[trigger] part(n, a, n2, k, inoff, Seq::<Edge>::empty(), false) by { assert(part(j, a, n2, k, inoff, Seq::<Edge>::empty(), false)); assert(n.vertex[off + k] == j.vertex[off + k]); }
    assert forall|k: int| 0 <= k < off implies #[trigger] n.vertex[k] == a.vertex[k] by { assert(n.vertex[k] == j.vertex[k]); }
    assert forall|c: int| 0 <= c < n.output_edge.len() implies p_ok(n.vertex@, n.ins(), (#[trigger] n.output_edge[c]).source) by { assert(v_ok(n.vertex[add + c])); }
}
impl Net {
//@assume net_edit src/net.rs Net::inputs
//@assume net_edit src/net.rs Net::outputs
//@assume net_edit src/net.rs Net::size
//@assume net_edit src/net.rs Net::invalidate_order
//@assume net_edit src/net.rs Net::push
//@assume net_edit src/net.rs Net::new
//@assume net_edit src/net.rs Net::pipe_input
//@assume net_edit src/net.rs Net::pipe_output
//@assume net_edit src/net.rs Net::connect_index
//@assume net_edit src/net.rs Net::connect_input_index
//@assume net_edit src/net.rs Net::connect_output_index
//@fn src/net.rs Net::has_backend
//@ret r
ensures r == (self.front is Some),
//@end
//@fn src/net.rs Net::resolve_frontend
requires !(old(self).front is Some && old(other).front is Some),
ensures *final(self) == (Net { front: final(self).front, edit_queue: final(self).edit_queue, backend_inputs: final(self).backend_inputs, backend_outputs: final(self).backend_outputs, revision: final(self).revision, ..*old(self) }),
    // The combination is the frontend of whichever part was.
    old(other).front is Some ==> final(self).front == old(other).front && final(self).edit_queue == old(other).edit_queue && final(self).revision == old(other).revision
        && final(self).backend_inputs == old(other).backend_inputs && final(self).backend_outputs == old(other).backend_outputs,
    old(other).front is None ==> *final(self) == *old(self),
//@end
//@fn src/net.rs Net::disambiguate_ids
requires old(self).wf(),
ensures final(self).ids_ok(), disjoint_ids(*other, *final(self)), but_ids(*final(self), *old(self), *other),
//@loops 1
//@loop 0
invariant end_0 == old(self).vertex.len(), old(self).wf(), self.ids_ok(), but_ids(*self, *old(self), *other),
    forall|k: int| 0 <= k < i ==> !other.has(#[trigger] self.vertex[k].id),
    forall|k: int| i <= k < self.vertex.len() ==> (#[trigger] self.vertex[k]).id == old(self).vertex[k].id,
//@in 0
let ghost s0 = *self;
//@inend 0
proof {
    assert forall|k: int| 0 <= k < self.vertex.len() implies self.node_index@.contains_key(#[trigger] self.vertex[k].id) && self.node_index@[self.vertex[k].id] == k by {
        assert(s0.node_index@.contains_key(s0.vertex[k].id) && s0.node_index@[s0.vertex[k].id] == k);
        assert(s0.node_index@[s0.vertex[i as int].id] == i);
    }
    assert forall|d: NodeId| #[trigger] self.node_index@.contains_key(d) implies self.node_index@[d] < self.vertex.len() && self.vertex[self.node_index@[d] as int].id == d by {
        if s0.node_index@.contains_key(d) { assert(s0.vertex[s0.node_index@[d] as int].id == d); }
    }
}
//@end
//@fn src/net.rs Net::wrap
//@ret r
ensures r.wf(), r.ins() == unit.ins(), r.outs() == unit.outs(), exists|d: NodeId| #[trigger] r.has(d) && r.unit_of(d).key() == unit.key() && r.vertex.len() == 1
    && (forall|c: int| #![trigger r.src(d, c)] 0 <= c < unit.ins() ==> r.src(d, c) == Source::Global(c as usize))
    && (forall|c: int| #![trigger r.osrc(c)] 0 <= c < unit.outs() ==> r.osrc(c) == Source::Local(d, c as usize)),
//@top
let ghost u0 = unit;
//@tail
proof {
    assert(r.has(id)); assert(r.vertex.len() == 1);
    assert forall|c: int| #![trigger r.src(id, c)] 0 <= c < u0.ins() implies r.src(id, c) == Source::Global(c as usize) by { assert(c % r.ins() as int == c) by (nonlinear_arith) requires 0 <= c < r.ins() {} }
    assert forall|c: int| #![trigger r.osrc(c)] 0 <= c < u0.outs() implies r.osrc(c) == Source::Local(id, c as usize) by { assert(c % r.outs() as int == c) by (nonlinear_arith) requires 0 <= c < r.outs() {} }
}
//@end
//@fn src/net.rs Net::thru
//@ret r
requires net.wf(),
ensures r.wf(), r.ins() == net.ins(), r.outs() == net.ins(), r.vertex == net.vertex, r.node_index == net.node_index, r.order is None,
    forall|c: int| 0 <= c < net.ins() ==> (#[trigger] r.output_edge[c]).source == (if c < net.outs() { net.output_edge[c].source } else { Port::Global(c as usize) }),
//@loops 1
//@top
let ghost a = net;
//@loop 0
invariant end_0 == a.ins(), a.wf(), outputs == a.outs(), net == (Net { output: net.output, output_edge: net.output_edge, ..a }), net.ins() == a.ins(), net.outs() == a.ins(), net.output_edge.len() == a.ins(),
    forall|c: int| 0 <= c < net.output_edge.len() && (c < i || outputs >= a.ins()) ==> #[trigger] net.output_edge[c] == (if c < outputs { a.output_edge[c] } else { Edge { source: Port::Global(c as usize), target: Port::Global(c as usize) } }),
//@after 0
proof { assert(net.wf()); }
//@end
//@fn src/net.rs Net::branch
//@ret r
requires net1.wf(), net2.wf(), net1.ins() + net2.ins() <= usize::MAX, net1.outs() + net2.outs() <= usize::MAX, net1.vertex.len() + net2.vertex.len() + net1.outs() < usize::MAX,
    !(net1.front is Some && net2.front is Some), net1.ins() == net2.ins(),
ensures r.wf(), r.ins() == net1.ins(), r.outs() == net1.outs() + net2.outs(), r.order is None, r.vertex.len() == net1.vertex.len() + net2.vertex.len(),
    composed(r, net1, net2, 0, Seq::<Edge>::empty(), false),
    forall|c: int| 0 <= c < r.outs() ==> (#[trigger] r.output_edge[c]).source == (if c < net1.outs() { net1.output_edge[c].source } else { tr(net2.output_edge[c - net1.outs()].source, net1.vertex.len() as int, 0, Seq::<Edge>::empty(), false) }),
//@loops 3
//@top
let ghost a = net1;
let ghost n2 = net2;
let ghost input_off: int = 0;
//@post net2\.disambiguate_ids\(&net1\);
let ghost b = net2;
//@loop 0
invariant end_0 == a.outs() + n2.outs(), a.wf(), n2.wf(), offset == a.vertex.len(), output_offset == a.outs(), a.ins() + n2.ins() <= usize::MAX, but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b),
    net1.vertex@ == a.vertex@ + b.vertex@, net1.node_index == a.node_index, net1.ins() == a.ins(), net1.outs() == a.outs() + n2.outs(), net1.output_edge.len() == net1.outs(), input_off == 0,
    net1 == (Net { vertex: net1.vertex, input: net1.input, output: net1.output, output_edge: net1.output_edge, ..a }), offset + n2.vertex.len() <= usize::MAX, 
    out_ok(net1, a, n2, i as int, input_off), output_offset <= i,
//@in 0
proof { let e = n2.output_edge[i - a.outs()]; assert(net1.output_edge[i as int] == e); assert(p_ok(n2.vertex@, n2.ins(), e.source)); }
//@before 1
proof { lemma_start(net1, a, b, n2, input_off, Seq::<Edge>::empty(), false); }
//@loop 1
invariant a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b), offset == a.vertex.len(), end_1 == a.vertex.len() + b.vertex.len(), net1.ins() == a.ins(), net1.outs() == a.outs() + n2.outs(), net1.output_edge.len() == net1.outs(), net1 == (Net { vertex: net1.vertex, node_index: net1.node_index, input: net1.input, output: net1.output, output_edge: net1.output_edge, ..a }), input_off == 0, a.ins() + n2.ins() <= usize::MAX, out_ok(net1, a, n2, net1.output_edge.len() as int, input_off),
    joining(net1, a, b, node as int, input_off, Seq::<Edge>::empty(), false), offset <= node,
//@in 1
let ghost j0 = net1;
proof { lemma_enter(net1, a, b, node as int, net1.node_index@.insert(net1.vertex[node as int].id, node), input_off, Seq::<Edge>::empty(), false); assert(v_ok(n2.vertex[node - offset])); assert(b.vertex[node - offset] == (Vertex { id: b.vertex[node - offset].id, ..n2.vertex[node - offset] })); }
//@loop 2
invariant a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b), offset == a.vertex.len(), end_1 == a.vertex.len() + b.vertex.len(), net1.ins() == a.ins(), net1.outs() == a.outs() + n2.outs(), net1.output_edge.len() == net1.outs(), net1 == (Net { vertex: net1.vertex, node_index: net1.node_index, input: net1.input, output: net1.output, output_edge: net1.output_edge, ..a }), input_off == 0, a.ins() + n2.ins() <= usize::MAX, out_ok(net1, a, n2, net1.output_edge.len() as int, input_off),
    offset <= node < end_1, end_2 == n2.vertex[node - offset].source.len(), j0.vertex.len() == end_1,
    joining(j0, a, b, node as int, input_off, Seq::<Edge>::empty(), false),
    net1.vertex.len() == j0.vertex.len(), ids_upto(net1, node + 1),
    forall|k: int| 0 <= k < j0.vertex.len() && k != node ==> #[trigger] net1.vertex[k] == j0.vertex[k],
    moved_to(net1.vertex[node as int], b.vertex[node - offset], node as int, port as int, offset as int, input_off, Seq::<Edge>::empty(), false),
//@in 2
proof { assert(b.vertex[node - offset] == (Vertex { id: b.vertex[node - offset].id, ..n2.vertex[node - offset] })); assert(v_ok(n2.vertex[node - offset]));
    let e = n2.vertex[node - offset].source[port as int];
    assert(p_ok(n2.vertex@, n2.ins(), e.source));
    assert(net1.vertex[node as int].source[port as int] == e); }
//@tail
proof {
    let j = net1;
    assert(r.vertex@ == j.vertex@);
}
//@post Port::Zero\s*=>\s*\{\s*net1\.vertex\[node\]\.source\[port\] = edge\(Port::Zero, Port::Local\(node, port\)\);\s*\}\s*\}\s*\}\s*\}
proof {
    lemma_join(net1, a, b, n2, input_off, Seq::<Edge>::empty(), false);
    assert forall|c: int| 0 <= c < net1.output_edge.len() implies p_ok(net1.vertex@, net1.ins(), (#[trigger] net1.output_edge[c]).source) && net1.output_edge[c].target == Port::Global(c as usize) by {
        if c < a.outs() { assert(net1.output_edge[c] == a.output_edge[c]); assert(p_ok(a.vertex@, a.ins(), a.output_edge[c].source)); }
        else { let e = n2.output_edge[c - a.outs()]; assert(p_ok(n2.vertex@, n2.ins(), e.source)); assert(p_ok(net1.vertex@, net1.ins(), tr(e.source, a.vertex.len() as int, input_off, Seq::<Edge>::empty(), false))); }
    }
    assert(net1.wf());
}
//@end
//@fn src/net.rs Net::stack
//@ret r
requires net1.wf(), net2.wf(), net1.ins() + net2.ins() <= usize::MAX, net1.outs() + net2.outs() <= usize::MAX, net1.vertex.len() + net2.vertex.len() + net1.outs() < usize::MAX,
    !(net1.front is Some && net2.front is Some),
ensures r.wf(), r.ins() == net1.ins() + net2.ins(), r.outs() == net1.outs() + net2.outs(), r.order is None, r.vertex.len() == net1.vertex.len() + net2.vertex.len(),
    composed(r, net1, net2, net1.ins() as int, Seq::<Edge>::empty(), false),
    forall|c: int| 0 <= c < r.outs() ==> (#[trigger] r.output_edge[c]).source == (if c < net1.outs() { net1.output_edge[c].source } else { tr(net2.output_edge[c - net1.outs()].source, net1.vertex.len() as int, net1.ins() as int, Seq::<Edge>::empty(), false) }),
//@loops 3
//@top
let ghost a = net1;
let ghost n2 = net2;
let ghost input_off: int = a.ins() as int;
//@post net2\.disambiguate_ids\(&net1\);
let ghost b = net2;
//@loop 0
invariant end_0 == a.outs() + n2.outs(), a.wf(), n2.wf(), offset == a.vertex.len(), output_offset == a.outs(), a.ins() + n2.ins() <= usize::MAX, but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b),
    net1.vertex@ == a.vertex@ + b.vertex@, net1.node_index == a.node_index, net1.ins() == a.ins() + n2.ins(), net1.outs() == a.outs() + n2.outs(), net1.output_edge.len() == net1.outs(), input_off == a.ins() as int,
    net1 == (Net { vertex: net1.vertex, input: net1.input, output: net1.output, output_edge: net1.output_edge, ..a }), offset + n2.vertex.len() <= usize::MAX, input_offset == a.ins(),
    out_ok(net1, a, n2, i as int, input_off), output_offset <= i,
//@in 0
proof { let e = n2.output_edge[i - a.outs()]; assert(net1.output_edge[i as int] == e); assert(p_ok(n2.vertex@, n2.ins(), e.source)); }
//@before 1
proof { lemma_start(net1, a, b, n2, input_off, Seq::<Edge>::empty(), false); }
//@loop 1
invariant a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b), offset == a.vertex.len(), end_1 == a.vertex.len() + b.vertex.len(), net1.ins() == a.ins() + n2.ins(), net1.outs() == a.outs() + n2.outs(), net1.output_edge.len() == net1.outs(), net1 == (Net { vertex: net1.vertex, node_index: net1.node_index, input: net1.input, output: net1.output, output_edge: net1.output_edge, ..a }), input_off == a.ins() as int, input_offset == a.ins(), a.ins() + n2.ins() <= usize::MAX, out_ok(net1, a, n2, net1.output_edge.len() as int, input_off),
    joining(net1, a, b, node as int, input_off, Seq::<Edge>::empty(), false), offset <= node,
//@in 1
let ghost j0 = net1;
proof { lemma_enter(net1, a, b, node as int, net1.node_index@.insert(net1.vertex[node as int].id, node), input_off, Seq::<Edge>::empty(), false); assert(v_ok(n2.vertex[node - offset])); assert(b.vertex[node - offset] == (Vertex { id: b.vertex[node - offset].id, ..n2.vertex[node - offset] })); }
//@loop 2
invariant a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b), offset == a.vertex.len(), end_1 == a.vertex.len() + b.vertex.len(), net1.ins() == a.ins() + n2.ins(), net1.outs() == a.outs() + n2.outs(), net1.output_edge.len() == net1.outs(), net1 == (Net { vertex: net1.vertex, node_index: net1.node_index, input: net1.input, output: net1.output, output_edge: net1.output_edge, ..a }), input_off == a.ins() as int, input_offset == a.ins(), a.ins() + n2.ins() <= usize::MAX, out_ok(net1, a, n2, net1.output_edge.len() as int, input_off),
    offset <= node < end_1, end_2 == n2.vertex[node - offset].source.len(), j0.vertex.len() == end_1,
    joining(j0, a, b, node as int, input_off, Seq::<Edge>::empty(), false),
    net1.vertex.len() == j0.vertex.len(), ids_upto(net1, node + 1),
    forall|k: int| 0 <= k < j0.vertex.len() && k != node ==> #[trigger] net1.vertex[k] == j0.vertex[k],
    moved_to(net1.vertex[node as int], b.vertex[node - offset], node as int, port as int, offset as int, input_off, Seq::<Edge>::empty(), false),
//@in 2
proof { assert(b.vertex[node - offset] == (Vertex { id: b.vertex[node - offset].id, ..n2.vertex[node - offset] })); assert(v_ok(n2.vertex[node - offset]));
    let e = n2.vertex[node - offset].source[port as int];
    assert(p_ok(n2.vertex@, n2.ins(), e.source));
    assert(net1.vertex[node as int].source[port as int] == e); }
//@tail
proof {
    let j = net1;
    assert(r.vertex@ == j.vertex@);
}
//@post Port::Zero\s*=>\s*\{\s*net1\.vertex\[node\]\.source\[port\] = edge\(Port::Zero, Port::Local\(node, port\)\);\s*\}\s*\}\s*\}\s*\}
proof {
    lemma_join(net1, a, b, n2, input_off, Seq::<Edge>::empty(), false);
    assert forall|c: int| 0 <= c < net1.output_edge.len() implies p_ok(net1.vertex@, net1.ins(), (#[trigger] net1.output_edge[c]).source) && net1.output_edge[c].target == Port::Global(c as usize) by {
        if c < a.outs() { assert(net1.output_edge[c] == a.output_edge[c]); assert(p_ok(a.vertex@, a.ins(), a.output_edge[c].source)); }
        else { let e = n2.output_edge[c - a.outs()]; assert(p_ok(n2.vertex@, n2.ins(), e.source)); assert(p_ok(net1.vertex@, net1.ins(), tr(e.source, a.vertex.len() as int, input_off, Seq::<Edge>::empty(), false))); }
    }
    assert(net1.wf());
}
//@end
//@fn src/net.rs Net::pipe
//@ret r
requires net1.wf(), net2.wf(), net1.ins() + net2.ins() <= usize::MAX, net1.outs() + net2.outs() <= usize::MAX, net1.vertex.len() + net2.vertex.len() + net1.outs() < usize::MAX,
    !(net1.front is Some && net2.front is Some), net1.outs() == net2.ins(),
ensures r.wf(), r.ins() == net1.ins(), r.outs() == net2.outs(), r.order is None, r.vertex.len() == net1.vertex.len() + net2.vertex.len(),
    // Inputs of the second network are the outputs of the first.
    composed(r, net1, net2, 0, net1.output_edge@, true),
    forall|c: int| 0 <= c < r.outs() ==> (#[trigger] r.output_edge[c]).source == tr(net2.output_edge[c].source, net1.vertex.len() as int, 0, net1.output_edge@, true),
//@loops 3
//@top
let ghost a = net1;
let ghost n2 = net2;
//@post net2\.disambiguate_ids\(&net1\);
let ghost b = net2;
//@before 0
proof { lemma_start(net1, a, b, n2, 0int, a.output_edge@, true); }
//@loop 0
invariant a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b), offset == a.vertex.len(), end_0 == a.vertex.len() + b.vertex.len(), a.outs() == n2.ins(), net1 == (Net { vertex: net1.vertex, node_index: net1.node_index, ..a }),
    joining(net1, a, b, node as int, 0int, a.output_edge@, true), offset <= node,
//@in 0
let ghost j0 = net1;
proof { lemma_enter(net1, a, b, node as int, net1.node_index@.insert(net1.vertex[node as int].id, node), 0int, a.output_edge@, true); assert(v_ok(n2.vertex[node - offset])); assert(b.vertex[node - offset] == (Vertex { id: b.vertex[node - offset].id, ..n2.vertex[node - offset] })); }
//@loop 1
invariant a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b), offset == a.vertex.len(), end_0 == a.vertex.len() + b.vertex.len(), a.outs() == n2.ins(), net1 == (Net { vertex: net1.vertex, node_index: net1.node_index, ..a }),
    offset <= node < end_0, end_1 == n2.vertex[node - offset].source.len(), j0.vertex.len() == end_0,
    joining(j0, a, b, node as int, 0int, a.output_edge@, true),
    net1.vertex.len() == j0.vertex.len(), ids_upto(net1, node + 1),
    forall|k: int| 0 <= k < j0.vertex.len() && k != node ==> #[trigger] net1.vertex[k] == j0.vertex[k],
    moved_to(net1.vertex[node as int], b.vertex[node - offset], node as int, port as int, offset as int, 0int, a.output_edge@, true),
//@in 1
proof { assert(b.vertex[node - offset] == (Vertex { id: b.vertex[node - offset].id, ..n2.vertex[node - offset] })); assert(v_ok(n2.vertex[node - offset]));
    let e = n2.vertex[node - offset].source[port as int];
    assert(p_ok(n2.vertex@, n2.ins(), e.source));
    assert(net1.vertex[node as int].source[port as int] == e); }
//@after 0
let ghost j = net1;
proof { lemma_join(net1, a, b, n2, 0, a.output_edge@, true); }
//@loop 2
invariant end_2 == n2.outs(), a.wf(), n2.wf(), offset == a.vertex.len(), a.outs() == n2.ins(), output_edge1@ == a.output_edge@, offset + n2.vertex.len() <= usize::MAX,
    net1 == (Net { output: net1.output, output_edge: net1.output_edge, ..j }), net1.output_edge.len() == n2.outs(), net1.outs() == n2.outs(),
    forall|c: int| 0 <= c < net1.output_edge.len() ==> #[trigger] net1.output_edge[c] == (if c < output_port {
        Edge { source: tr(n2.output_edge[c].source, offset as int, 0, a.output_edge@, true), target: Port::Global(c as usize) } } else { n2.output_edge[c] }),
//@in 2
proof { let e = n2.output_edge[output_port as int]; assert(net1.output_edge[output_port as int] == e); assert(p_ok(n2.vertex@, n2.ins(), e.source)); }
//@after 2
proof {
    assert forall|c: int| 0 <= c < net1.output_edge.len() implies p_ok(net1.vertex@, net1.ins(), (#[trigger] net1.output_edge[c]).source) && net1.output_edge[c].target == Port::Global(c as usize) by {
        let e = n2.output_edge[c]; assert(p_ok(n2.vertex@, n2.ins(), e.source)); assert(p_ok(j.vertex@, j.ins(), tr(e.source, a.vertex.len() as int, 0, a.output_edge@, true)));
    }
    assert(net1.wf());
}
//@end
//@fn src/net.rs Net::bus
//@ret r
requires net1.wf(), net2.wf(), net1.ins() + net2.ins() <= usize::MAX, net1.outs() + net2.outs() <= usize::MAX, net1.vertex.len() + net2.vertex.len() + net1.outs() < usize::MAX,
    !(net1.front is Some && net2.front is Some), net1.outs() == net2.outs(), net1.ins() == net2.ins(),
ensures r.wf(), r.ins() == net1.ins(), r.outs() == net1.outs(), r.order is None, r.vertex.len() == net1.vertex.len() + net2.vertex.len() + net1.outs(),
    composed(r, net1, net2, 0, Seq::<Edge>::empty(), false),
    // Output c is a two-input unit that is fed output c of both networks.
    forall|c: int| 0 <= c < r.outs() ==> (#[trigger] r.output_edge[c]).source == Port::Local((net1.vertex.len() + net2.vertex.len() + c) as usize, 0),
    forall|c: int| 0 <= c < net1.outs() ==> #[trigger] adder(r.vertex[net1.vertex.len() + net2.vertex.len() + c], net1.vertex.len() + net2.vertex.len() + c, net1.output_edge[c].source,
        tr(net2.output_edge[c].source, net1.vertex.len() as int, 0, Seq::<Edge>::empty(), false)),
//@loops 5
//@top
let ghost a = net1;
let ghost n2 = net2;
let ghost input_off: int = 0;
//@post net2\.disambiguate_ids\(&net1\);
let ghost b = net2;
//@before 0
proof { lemma_start(net1, a, b, n2, input_off, Seq::<Edge>::empty(), false); }
//@loop 0
invariant a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b), offset == a.vertex.len(), end_0 == a.vertex.len() + b.vertex.len(), net1 == (Net { vertex: net1.vertex, node_index: net1.node_index, input: net1.input, ..a }), net1.ins() == a.ins(), input_off == 0, a.ins() + n2.ins() <= usize::MAX, a.outs() == n2.outs(), output1@ == a.output_edge@, output2@ == n2.output_edge@, a.ins() == n2.ins(),
    joining(net1, a, b, node as int, input_off, Seq::<Edge>::empty(), false), offset <= node,
//@in 0
let ghost j0 = net1;
proof { lemma_enter(net1, a, b, node as int, net1.node_index@.insert(net1.vertex[node as int].id, node), input_off, Seq::<Edge>::empty(), false); assert(v_ok(n2.vertex[node - offset])); assert(b.vertex[node - offset] == (Vertex { id: b.vertex[node - offset].id, ..n2.vertex[node - offset] })); }
//@loop 1
invariant a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b), offset == a.vertex.len(), end_0 == a.vertex.len() + b.vertex.len(), net1 == (Net { vertex: net1.vertex, node_index: net1.node_index, input: net1.input, ..a }), net1.ins() == a.ins(), input_off == 0, a.ins() + n2.ins() <= usize::MAX, a.outs() == n2.outs(), output1@ == a.output_edge@, output2@ == n2.output_edge@, a.ins() == n2.ins(),
    offset <= node < end_0, end_1 == n2.vertex[node - offset].source.len(), j0.vertex.len() == end_0,
    joining(j0, a, b, node as int, input_off, Seq::<Edge>::empty(), false),
    net1.vertex.len() == j0.vertex.len(), ids_upto(net1, node + 1),
    forall|k: int| 0 <= k < j0.vertex.len() && k != node ==> #[trigger] net1.vertex[k] == j0.vertex[k],
    moved_to(net1.vertex[node as int], b.vertex[node - offset], node as int, port as int, offset as int, input_off, Seq::<Edge>::empty(), false),
//@in 1
proof { assert(b.vertex[node - offset] == (Vertex { id: b.vertex[node - offset].id, ..n2.vertex[node - offset] })); assert(v_ok(n2.vertex[node - offset]));
    let e = n2.vertex[node - offset].source[port as int];
    assert(p_ok(n2.vertex@, n2.ins(), e.source));
    assert(net1.vertex[node as int].source[port as int] == e); }
//@after 0
let ghost j = net1;
proof { lemma_join(net1, a, b, n2, input_off, Seq::<Edge>::empty(), false);
    assert forall|c: int| 0 <= c < net1.output_edge.len() implies p_ok(net1.vertex@, net1.ins(), (#[trigger] net1.output_edge[c]).source) by { assert(p_ok(a.vertex@, a.ins(), a.output_edge[c].source)); }
    assert(net1.wf()); }
//@loop 2
invariant end_2 == j.outs(), a.wf(), n2.wf(), j.wf(), input_off == 0, offset == a.vertex.len(), add_offset == a.vertex.len() + n2.vertex.len(), j.vertex.len() == add_offset, a.outs() == n2.outs(), a.outs() == j.outs(), net1.outs() == j.outs(), net1.ins() == j.ins(), net1.front == a.front, output1@ == a.output_edge@, output2@ == n2.output_edge@, net1.ids_ok(), net1.output_edge.len() == j.outs(), add_offset + j.outs() < usize::MAX, a.ins() == n2.ins(), j.ins() == a.ins(), net1.wf(),
    adders(net1, j, add_offset as int, i as int, a.output_edge@, 0, n2.output_edge@, 0, offset as int, input_off),
    forall|c: int| 0 <= c < i ==> #[trigger] net1.output_edge[c] == (Edge { source: Port::Local((add_offset + c) as usize, 0), target: Port::Global(c as usize) }),
    forall|c: int| i <= c < net1.output_edge.len() ==> #[trigger] net1.output_edge[c] == j.output_edge[c],
//@in 2
let ghost k0 = net1;
//@inend 2
proof {
    let add = add_offset as int;
    assert forall|k: int| 0 <= k < add implies #[trigger] net1.vertex[k] == j.vertex[k] by { assert(net1.vertex[k] == net1.vertex@.drop_last()[k]); assert(k0.vertex[k] == j.vertex[k]); }
    assert forall|k: int| add <= k < add + i + 1 implies adder(#[trigger] net1.vertex[k], k, Port::Zero, Port::Zero) by {
        if k < add + i { assert(net1.vertex[k] == net1.vertex@.drop_last()[k]); assert(adder(k0.vertex[k], k, Port::Zero, Port::Zero)); }
        else { let v = net1.vertex[k]; assert(v_ok(v)); }
    }
    assert(net1.wf());
}
//@after 2
let ghost oe = net1.output_edge@;
//@loop 3
invariant end_3 == a.outs(), a.wf(), n2.wf(), j.wf(), input_off == 0, offset == a.vertex.len(), add_offset == a.vertex.len() + n2.vertex.len(), j.vertex.len() == add_offset, a.outs() == n2.outs(), a.outs() == j.outs(), net1.outs() == j.outs(), net1.ins() == j.ins(), net1.front == a.front, output1@ == a.output_edge@, output2@ == n2.output_edge@, net1.ids_ok(), net1.output_edge.len() == j.outs(), add_offset + j.outs() < usize::MAX, a.ins() == n2.ins(), j.ins() == a.ins(), net1.output_edge@ == oe, 
    adders(net1, j, add_offset as int, j.outs() as int, a.output_edge@, i as int, n2.output_edge@, 0, offset as int, input_off),
//@in 3
let ghost k0 = net1;
proof { assert(p_ok(a.vertex@, a.ins(), a.output_edge[i as int].source)); assert(adder(k0.vertex[add_offset + i], add_offset + i, Port::Zero, Port::Zero)); }
//@inend 3
proof {
    if a.output_edge[i as int].source is Zero { assert(net1.vertex[add_offset + i].source@ =~= k0.vertex[add_offset + i].source@.update(0, Edge { source: Port::Zero, target: Port::Local((add_offset + i) as usize, 0) })); }
    lemma_adder(k0, net1, j, add_offset as int, j.outs() as int, a.output_edge@, i as int, n2.output_edge@, 0, offset as int, input_off, true); }
//@loop 4
invariant end_4 == a.outs(), a.wf(), n2.wf(), j.wf(), input_off == 0, offset == a.vertex.len(), add_offset == a.vertex.len() + n2.vertex.len(), j.vertex.len() == add_offset, a.outs() == n2.outs(), a.outs() == j.outs(), net1.outs() == j.outs(), net1.ins() == j.ins(), net1.front == a.front, output1@ == a.output_edge@, output2@ == n2.output_edge@, net1.ids_ok(), net1.output_edge.len() == j.outs(), add_offset + j.outs() < usize::MAX, a.ins() == n2.ins(), j.ins() == a.ins(), net1.output_edge@ == oe, 
    adders(net1, j, add_offset as int, j.outs() as int, a.output_edge@, a.outs() as int, n2.output_edge@, i as int, offset as int, input_off),
//@in 4
let ghost k0 = net1;
proof { assert(p_ok(n2.vertex@, n2.ins(), n2.output_edge[i as int].source)); assert(adder(k0.vertex[add_offset + i], add_offset + i, a.output_edge[i as int].source, Port::Zero)); }
//@inend 4
proof {
    if n2.output_edge[i as int].source is Zero { assert(net1.vertex[add_offset + i].source@ =~= k0.vertex[add_offset + i].source@.update(1, Edge { source: Port::Zero, target: Port::Local((add_offset + i) as usize, 1) })); }
    lemma_adder(k0, net1, j, add_offset as int, j.outs() as int, a.output_edge@, a.outs() as int, n2.output_edge@, i as int, offset as int, input_off, false); }
//@after 4
proof {
    let add = add_offset as int;
    lemma_finish(net1, j, a, n2, add, offset as int, input_off);
}
//@end
//@fn src/net.rs Net::binary
//@ret r
requires net1.wf(), net2.wf(), net1.ins() + net2.ins() <= usize::MAX, net1.outs() + net2.outs() <= usize::MAX, net1.vertex.len() + net2.vertex.len() + net1.outs() < usize::MAX,
    !(net1.front is Some && net2.front is Some), net1.outs() == net2.outs(),
ensures r.wf(), r.ins() == net1.ins() + net2.ins(), r.outs() == net1.outs(), r.order is None, r.vertex.len() == net1.vertex.len() + net2.vertex.len() + net1.outs(),
    composed(r, net1, net2, net1.ins() as int, Seq::<Edge>::empty(), false),
    // Output c is a two-input unit that is fed output c of both networks.
    forall|c: int| 0 <= c < r.outs() ==> (#[trigger] r.output_edge[c]).source == Port::Local((net1.vertex.len() + net2.vertex.len() + c) as usize, 0),
    forall|c: int| 0 <= c < net1.outs() ==> #[trigger] adder(r.vertex[net1.vertex.len() + net2.vertex.len() + c], net1.vertex.len() + net2.vertex.len() + c, net1.output_edge[c].source,
        tr(net2.output_edge[c].source, net1.vertex.len() as int, net1.ins() as int, Seq::<Edge>::empty(), false)),
//@loops 5
//@top
let ghost a = net1;
let ghost n2 = net2;
let ghost input_off: int = a.ins() as int;
//@post net2\.disambiguate_ids\(&net1\);
let ghost b = net2;
//@before 0
proof { lemma_start(net1, a, b, n2, input_off, Seq::<Edge>::empty(), false); }
//@loop 0
invariant a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b), offset == a.vertex.len(), end_0 == a.vertex.len() + b.vertex.len(), net1 == (Net { vertex: net1.vertex, node_index: net1.node_index, input: net1.input, ..a }), net1.ins() == a.ins() + n2.ins(), input_off == a.ins() as int, a.ins() + n2.ins() <= usize::MAX, a.outs() == n2.outs(), output1@ == a.output_edge@, output2@ == n2.output_edge@, input_offset == a.ins(),
    joining(net1, a, b, node as int, input_off, Seq::<Edge>::empty(), false), offset <= node,
//@in 0
let ghost j0 = net1;
proof { lemma_enter(net1, a, b, node as int, net1.node_index@.insert(net1.vertex[node as int].id, node), input_off, Seq::<Edge>::empty(), false); assert(v_ok(n2.vertex[node - offset])); assert(b.vertex[node - offset] == (Vertex { id: b.vertex[node - offset].id, ..n2.vertex[node - offset] })); }
//@loop 1
invariant a.wf(), n2.wf(), but_ids(b, n2, a), b.ids_ok(), disjoint_ids(a, b), offset == a.vertex.len(), end_0 == a.vertex.len() + b.vertex.len(), net1 == (Net { vertex: net1.vertex, node_index: net1.node_index, input: net1.input, ..a }), net1.ins() == a.ins() + n2.ins(), input_off == a.ins() as int, a.ins() + n2.ins() <= usize::MAX, a.outs() == n2.outs(), output1@ == a.output_edge@, output2@ == n2.output_edge@, input_offset == a.ins(),
    offset <= node < end_0, end_1 == n2.vertex[node - offset].source.len(), j0.vertex.len() == end_0,
    joining(j0, a, b, node as int, input_off, Seq::<Edge>::empty(), false),
    net1.vertex.len() == j0.vertex.len(), ids_upto(net1, node + 1),
    forall|k: int| 0 <= k < j0.vertex.len() && k != node ==> #[trigger] net1.vertex[k] == j0.vertex[k],
    moved_to(net1.vertex[node as int], b.vertex[node - offset], node as int, port as int, offset as int, input_off, Seq::<Edge>::empty(), false),
//@in 1
proof { assert(b.vertex[node - offset] == (Vertex { id: b.vertex[node - offset].id, ..n2.vertex[node - offset] })); assert(v_ok(n2.vertex[node - offset]));
    let e = n2.vertex[node - offset].source[port as int];
    assert(p_ok(n2.vertex@, n2.ins(), e.source));
    assert(net1.vertex[node as int].source[port as int] == e); }
//@after 0
let ghost j = net1;
proof { lemma_join(net1, a, b, n2, input_off, Seq::<Edge>::empty(), false);
    assert forall|c: int| 0 <= c < net1.output_edge.len() implies p_ok(net1.vertex@, net1.ins(), (#[trigger] net1.output_edge[c]).source) by { assert(p_ok(a.vertex@, a.ins(), a.output_edge[c].source)); }
    assert(net1.wf()); }
//@loop 2
invariant end_2 == j.outs(), a.wf(), n2.wf(), j.wf(), input_off == a.ins() as int, offset == a.vertex.len(), add_offset == a.vertex.len() + n2.vertex.len(), j.vertex.len() == add_offset, a.outs() == n2.outs(), a.outs() == j.outs(), net1.outs() == j.outs(), net1.ins() == j.ins(), net1.front == a.front, output1@ == a.output_edge@, output2@ == n2.output_edge@, net1.ids_ok(), net1.output_edge.len() == j.outs(), add_offset + j.outs() < usize::MAX, input_offset == a.ins(), j.ins() == a.ins() + n2.ins(), a.ins() + n2.ins() <= usize::MAX, net1.wf(),
    adders(net1, j, add_offset as int, i as int, a.output_edge@, 0, n2.output_edge@, 0, offset as int, input_off),
    forall|c: int| 0 <= c < i ==> #[trigger] net1.output_edge[c] == (Edge { source: Port::Local((add_offset + c) as usize, 0), target: Port::Global(c as usize) }),
    forall|c: int| i <= c < net1.output_edge.len() ==> #[trigger] net1.output_edge[c] == j.output_edge[c],
//@in 2
let ghost k0 = net1;
//@inend 2
proof {
    let add = add_offset as int;
    assert forall|k: int| 0 <= k < add implies #[trigger] net1.vertex[k] == j.vertex[k] by { assert(net1.vertex[k] == net1.vertex@.drop_last()[k]); assert(k0.vertex[k] == j.vertex[k]); }
    assert forall|k: int| add <= k < add + i + 1 implies adder(#[trigger] net1.vertex[k], k, Port::Zero, Port::Zero) by {
        if k < add + i { assert(net1.vertex[k] == net1.vertex@.drop_last()[k]); assert(adder(k0.vertex[k], k, Port::Zero, Port::Zero)); }
        else { let v = net1.vertex[k]; assert(v_ok(v)); }
    }
    assert(net1.wf());
}
//@after 2
let ghost oe = net1.output_edge@;
//@loop 3
invariant end_3 == a.outs(), a.wf(), n2.wf(), j.wf(), input_off == a.ins() as int, offset == a.vertex.len(), add_offset == a.vertex.len() + n2.vertex.len(), j.vertex.len() == add_offset, a.outs() == n2.outs(), a.outs() == j.outs(), net1.outs() == j.outs(), net1.ins() == j.ins(), net1.front == a.front, output1@ == a.output_edge@, output2@ == n2.output_edge@, net1.ids_ok(), net1.output_edge.len() == j.outs(), add_offset + j.outs() < usize::MAX, input_offset == a.ins(), j.ins() == a.ins() + n2.ins(), a.ins() + n2.ins() <= usize::MAX, net1.output_edge@ == oe, 
    adders(net1, j, add_offset as int, j.outs() as int, a.output_edge@, i as int, n2.output_edge@, 0, offset as int, input_off),
//@in 3
let ghost k0 = net1;
proof { assert(p_ok(a.vertex@, a.ins(), a.output_edge[i as int].source)); assert(adder(k0.vertex[add_offset + i], add_offset + i, Port::Zero, Port::Zero)); }
//@inend 3
proof {
    if a.output_edge[i as int].source is Zero { assert(net1.vertex[add_offset + i].source@ =~= k0.vertex[add_offset + i].source@.update(0, Edge { source: Port::Zero, target: Port::Local((add_offset + i) as usize, 0) })); }
    lemma_adder(k0, net1, j, add_offset as int, j.outs() as int, a.output_edge@, i as int, n2.output_edge@, 0, offset as int, input_off, true); }
//@loop 4
invariant end_4 == a.outs(), a.wf(), n2.wf(), j.wf(), input_off == a.ins() as int, offset == a.vertex.len(), add_offset == a.vertex.len() + n2.vertex.len(), j.vertex.len() == add_offset, a.outs() == n2.outs(), a.outs() == j.outs(), net1.outs() == j.outs(), net1.ins() == j.ins(), net1.front == a.front, output1@ == a.output_edge@, output2@ == n2.output_edge@, net1.ids_ok(), net1.output_edge.len() == j.outs(), add_offset + j.outs() < usize::MAX, input_offset == a.ins(), j.ins() == a.ins() + n2.ins(), a.ins() + n2.ins() <= usize::MAX, net1.output_edge@ == oe, 
    adders(net1, j, add_offset as int, j.outs() as int, a.output_edge@, a.outs() as int, n2.output_edge@, i as int, offset as int, input_off),
//@in 4
let ghost k0 = net1;
proof { assert(p_ok(n2.vertex@, n2.ins(), n2.output_edge[i as int].source)); assert(adder(k0.vertex[add_offset + i], add_offset + i, a.output_edge[i as int].source, Port::Zero)); }
//@inend 4
proof {
    if n2.output_edge[i as int].source is Zero { assert(net1.vertex[add_offset + i].source@ =~= k0.vertex[add_offset + i].source@.update(1, Edge { source: Port::Zero, target: Port::Local((add_offset + i) as usize, 1) })); }
    lemma_adder(k0, net1, j, add_offset as int, j.outs() as int, a.output_edge@, a.outs() as int, n2.output_edge@, i as int, offset as int, input_off, false); }
//@after 4
proof {
    let add = add_offset as int;
    lemma_finish(net1, j, a, n2, add, offset as int, input_off);
}
//@end
}
fn main() {}
}
