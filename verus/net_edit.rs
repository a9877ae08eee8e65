//@include net_pre.rs

/// Same vertex up to its edges.
pub open spec fn vsame(v: Vertex, w: Vertex) -> bool {
    v == (Vertex { source: v.source, ..w }) && v.source.len() == w.source.len()
}
/// Source p of vertex i (or of an output, i < 0) after vertex n is bypassed.
pub open spec fn sub(o: Net, n: usize, link: bool, i: int, p: Port) -> Port {
    match p {
        Port::Local(a, q) => if a == n {
            if !link { Port::Zero } else {
                let t = o.vertex[n as int].source[q as int].source;
                if not_self(t, i) { t } else { Port::Zero }
            }
        } else { p },
        _ => p,
    }
}
pub open spec fn ren(last: usize, n: usize, p: Port) -> Port {
    match p { Port::Local(a, q) => if a == last { Port::Local(n, q) } else { p }, _ => p }
}
/// What a source becomes when node n is removed.
pub open spec fn redirect(o: &Net, n: NodeId, link: bool, s: Source, d: Option<NodeId>) -> Source {
    match s {
        Source::Local(m, q) => if m == n {
            if !link { Source::Zero } else {
                let t = o.src(n, q as int);
                match t { Source::Local(k, _) => if Some(k) == d { Source::Zero } else { t }, _ => t }
            }
        } else { s },
        _ => s,
    }
}

/// Vertices and outputs after the node has been bypassed (stage 1).
pub open spec fn bypassed(o: Net, m: Net, node: NodeId, n: usize, link: bool) -> bool {
    &&& m.vertex.len() == o.vertex.len() && m.output_edge.len() == o.output_edge.len() && m.input == o.input && m.output == o.output
    &&& forall|c: int| 0 <= c < m.output_edge.len() ==> (#[trigger] m.output_edge[c]) == (Edge { source: sub(o, n, link, -1, o.output_edge[c].source), target: Port::Global(c as usize) })
    &&& forall|j: int| 0 <= j < m.vertex.len() ==> vsame(#[trigger] m.vertex[j], o.vertex[j])
    &&& forall|j: int, c: int| 0 <= j < m.vertex.len() && 0 <= c < o.vertex[j].source.len() ==> (#[trigger] m.vertex[j].source[c]) == (Edge {
        source: sub(o, n, link, j, o.vertex[j].source[c].source), target: Port::Local(j as usize, c as usize) })
}
/// The last vertex has been moved to n and dropped (stage 2).
pub open spec fn moved(m: Net, f: Net, node: NodeId, n: usize) -> bool {
    let last = (m.vertex.len() - 1) as usize;
    let back = |j: int| if j == n { last as int } else { j };
    &&& f.vertex.len() == last && f.output_edge.len() == m.output_edge.len() && f.input == m.input && f.output == m.output
    &&& f.node_index@ == (if n == last { m.node_index@.remove(node) } else { m.node_index@.remove(node).insert(m.vertex[last as int].id, n) })
    &&& forall|c: int| 0 <= c < f.output_edge.len() ==> (#[trigger] f.output_edge[c]) == (Edge { source: ren(last, n, m.output_edge[c].source), target: m.output_edge[c].target })
    &&& forall|j: int| 0 <= j < f.vertex.len() ==> vsame(#[trigger] f.vertex[j], m.vertex[back(j)])
    &&& forall|j: int, c: int| 0 <= j < f.vertex.len() && 0 <= c < m.vertex[back(j)].source.len() ==> (#[trigger] f.vertex[j].source[c]) == (Edge {
        source: ren(last, n, m.vertex[back(j)].source[c].source), target: Port::Local(j as usize, c as usize) })
}
pub proof fn lemma_removed(o: Net, m: Net, f: Net, node: NodeId, n: usize, link: bool)
    requires o.wf(), o.has(node), n == o.node_index@[node], link ==> o.unit_of(node).ins() == o.unit_of(node).outs(),
        bypassed(o, m, node, n, link), m.node_index@ == o.node_index@, moved(m, f, node, n),
    ensures f.wf(),
        forall|d: NodeId| #[trigger] f.has(d) == (o.has(d) && d != node),
        forall|d: NodeId| #[trigger] f.has(d) ==> f.unit_of(d) == o.unit_of(d),
        forall|d: NodeId, c: int| #![trigger f.src(d, c)] f.has(d) && 0 <= c < o.unit_of(d).ins() ==>
            f.src(d, c) == redirect(&o, node, link, o.src(d, c), Some(d)),
        forall|c: int| #![trigger f.osrc(c)] 0 <= c < o.outs() ==> f.osrc(c) == redirect(&o, node, link, o.osrc(c), None),
{
    let last = (m.vertex.len() - 1) as usize;
    assert(o.vertex[n as int].id == node);
    assert(o.vertex[last as int].id == m.vertex[last as int].id);
    assert(forall|j: int| 0 <= j < f.vertex.len() && j != n ==> (#[trigger] f.vertex[j]).id == o.vertex[j].id && f.vertex[j].unit == o.vertex[j].unit);
    if n < last { assert(f.vertex[n as int].id == o.vertex[last as int].id && f.vertex[n as int].unit == o.vertex[last as int].unit); }
    assert(f.ids_ok()) by {
        assert forall|i: int| 0 <= i < f.vertex.len() implies f.node_index@.contains_key(#[trigger] f.vertex[i].id) && f.node_index@[f.vertex[i].id] == i by {
            if i != n { assert(o.node_index@[o.vertex[i].id] == i); assert(o.node_index@[o.vertex[last as int].id] == last); }
        }
        assert forall|d: NodeId| #[trigger] f.node_index@.contains_key(d) implies f.node_index@[d] < f.vertex.len() && f.vertex[f.node_index@[d] as int].id == d by {
            assert(o.node_index@.contains_key(o.vertex[last as int].id));
            assert(d != node);
            assert(o.node_index@.contains_key(d));
        }
    }
    // Where a port of the old network is found in the new one.
    assert forall|p: Port| p_ok(o.vertex@, o.ins(), p) && not_self(p, n as int) implies
        p_ok(f.vertex@, f.ins(), #[trigger] ren(last, n, p)) && f.port(ren(last, n, p)) == o.port(p) by { }
    assert forall|j: int, c: int| 0 <= j < f.vertex.len() && 0 <= c < f.vertex[j].source.len() implies
        p_ok(f.vertex@, f.ins(), (#[trigger] f.vertex[j].source[c]).source) && not_self(f.vertex[j].source[c].source, j)
            && f.vertex[j].source[c].target == Port::Local(j as usize, c as usize)
            && f.port(f.vertex[j].source[c].source) == redirect(&o, node, link, o.port(o.vertex[if j == n { last as int } else { j }].source[c].source), Some(f.vertex[j].id)) by {
        let b = if j == n { last as int } else { j };
        assert(m.vertex[b].source[c].source == sub(o, n, link, b, o.vertex[b].source[c].source));
        let p = o.vertex[b].source[c].source;
        assert(p_ok(o.vertex@, o.ins(), p) && not_self(p, b));
        lemma_sub(o, node, n, link, b, p);
        let q = sub(o, n, link, b, p);
        assert(f.vertex[j].source[c].source == ren(last, n, q));
        assert(f.vertex[j].id == o.vertex[b].id);
        assert(not_self(q, b));
    }
    assert forall|c: int| 0 <= c < f.output_edge.len() implies
        p_ok(f.vertex@, f.ins(), (#[trigger] f.output_edge[c]).source) && f.output_edge[c].target == Port::Global(c as usize)
            && f.port(f.output_edge[c].source) == redirect(&o, node, link, o.port(o.output_edge[c].source), None) by {
        let p = o.output_edge[c].source;
        assert(m.output_edge[c].source == sub(o, n, link, -1, p));
        lemma_sub(o, node, n, link, -1, p);
        assert(f.output_edge[c].source == ren(last, n, sub(o, n, link, -1, p)));
    }
    assert forall|j: int| 0 <= j < f.vertex.len() implies v_ok(#[trigger] f.vertex[j]) by {
        let b = if j == n { last as int } else { j };
        assert(v_ok(o.vertex[b]));
        assert(vsame(m.vertex[b], o.vertex[b]));
    }
    assert(f.edges_ok());
    assert forall|d: NodeId| #[trigger] f.has(d) == (o.has(d) && d != node) by {
        assert(o.node_index@.contains_key(o.vertex[last as int].id));
        assert(o.node_index@[o.vertex[last as int].id] == last);
        assert(o.node_index@[node] == n);
    }
    assert forall|d: NodeId| #[trigger] f.has(d) implies f.unit_of(d) == o.unit_of(d) by {
        assert(o.has(d)); 
        let j = f.node_index@[d] as int;
        assert(f.vertex[j].id == d);
    }
    assert forall|d: NodeId, c: int| #![trigger f.src(d, c)] f.has(d) && 0 <= c < o.unit_of(d).ins() implies
            f.src(d, c) == redirect(&o, node, link, o.src(d, c), Some(d)) by {
        assert(o.has(d) == o.node_index@.contains_key(d));
        let j = f.node_index@[d] as int;
        assert(f.vertex[j].id == d);
        let b = if j == n { last as int } else { j };
        assert(o.vertex[b].id == d);
        assert(o.node_index@[d] == b);
        assert(v_ok(o.vertex[b]));
        assert(f.vertex[j].source[c].target == f.vertex[j].source[c].target);
    }
}
/// Bypassing a node keeps ports valid and means what redirect says.
pub proof fn lemma_sub(o: Net, node: NodeId, n: usize, link: bool, i: int, p: Port)
    requires o.wf(), o.has(node), n == o.node_index@[node], link ==> o.unit_of(node).ins() == o.unit_of(node).outs(),
        p_ok(o.vertex@, o.ins(), p), -1 <= i < o.vertex.len(), i != n, not_self(p, i),
    ensures p_ok(o.vertex@, o.ins(), sub(o, n, link, i, p)), not_self(sub(o, n, link, i, p), n as int), not_self(sub(o, n, link, i, p), i),
        o.port(sub(o, n, link, i, p)) == redirect(&o, node, link, o.port(p), if i >= 0 { Some(o.vertex[i].id) } else { None }),
{
    assert(v_ok(o.vertex[n as int]));
    match p {
        Port::Local(a, q) => {
            if a == n {
                if link {
                    let e = o.vertex[n as int].source[q as int];
                    assert(p_ok(o.vertex@, o.ins(), e.source) && not_self(e.source, n as int));
                    match e.source {
                        Port::Local(x, _) => { assert(o.node_index@[o.vertex[x as int].id] == x); if i >= 0 { assert(o.node_index@[o.vertex[i].id] == i); } },
                        _ => {},
                    }
                }
            } else {
                assert(o.node_index@[o.vertex[a as int].id] == a);
                assert(o.vertex[n as int].id == node);
            }
        },
        _ => {},
    }
}
impl Net {
//@fn src/net.rs Net::inputs
//@ret r
ensures r == self.ins(),
//@end
//@fn src/net.rs Net::outputs
//@ret r
ensures r == self.outs(),
//@end
//@fn src/net.rs Net::size
//@ret r
ensures r == self.vertex.len(),
//@end
//@fn src/net.rs Net::invalidate_order
ensures *final(self) == (Net { order: None, ..*old(self) }),
//@end
//@fn src/net.rs Net::contains
//@ret r
ensures r == self.has(node),
//@end
//@fn src/net.rs Net::source
//@ret r
requires self.wf(), self.has(node), channel < self.unit_of(node).ins(),
ensures r == self.src(node, channel as int), self.source_ok(r), 
//@end
//@fn src/net.rs Net::output_source
//@ret r
requires self.wf(), channel < self.outs(),
ensures r == self.osrc(channel as int), self.source_ok(r),
//@end
//@fn src/net.rs Net::inputs_in
//@ret r
requires self.wf(), self.has(node),
ensures r == self.unit_of(node).ins(),
//@end
//@fn src/net.rs Net::outputs_in
//@ret r
requires self.wf(), self.has(node),
ensures r == self.unit_of(node).outs(),
//@end
//@fn src/net.rs Net::set_source
requires old(self).wf(), old(self).has(node), channel < old(self).unit_of(node).ins(), old(self).source_ok(source),
    source matches Source::Local(d, _) ==> d != node,
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_src_but(old(self), node, channel as int, channel + 1),
    final(self).same_osrc(old(self)), final(self).src(node, channel as int) == source, final(self).order is None,
//@end
//@fn src/net.rs Net::set_output_source
requires old(self).wf(), channel < old(self).outs(), old(self).source_ok(source),
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_src(old(self)),
    final(self).same_osrc_but(old(self), channel as int, channel + 1), final(self).osrc(channel as int) == source, final(self).order is None,
//@end
//@fn src/net.rs Net::disconnect
requires old(self).wf(), old(self).has(node), port < old(self).unit_of(node).ins(),
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_src_but(old(self), node, port as int, port + 1),
    final(self).same_osrc(old(self)), final(self).src(node, port as int) == Source::Zero, final(self).order is None,
//@end
//@fn src/net.rs Net::connect_index
requires target < old(self).vertex.len(), target_port < old(self).vertex[target as int].source.len(),
ensures ({
    let e = Edge { source: Port::Local(source, source_port), target: Port::Local(target, target_port) };
    let v = old(self).vertex[target as int];
    &&& final(self).vertex.len() == old(self).vertex.len()
    &&& final(self).vertex[target as int].source@ == v.source@.update(target_port as int, e)
    &&& final(self).vertex[target as int] == (Vertex { source: final(self).vertex[target as int].source, ..v })
    &&& final(self).vertex@ == old(self).vertex@.update(target as int, final(self).vertex[target as int])
    &&& *final(self) == (Net { vertex: final(self).vertex, order: None, ..*old(self) })
}),
//@end
//@fn src/net.rs Net::connect_input_index
requires target < old(self).vertex.len(), target_port < old(self).vertex[target as int].source.len(),
ensures ({
    let e = Edge { source: Port::Global(global_input), target: Port::Local(target, target_port) };
    let v = old(self).vertex[target as int];
    &&& final(self).vertex.len() == old(self).vertex.len()
    &&& final(self).vertex[target as int].source@ == v.source@.update(target_port as int, e)
    &&& final(self).vertex[target as int] == (Vertex { source: final(self).vertex[target as int].source, ..v })
    &&& final(self).vertex@ == old(self).vertex@.update(target as int, final(self).vertex[target as int])
    &&& *final(self) == (Net { vertex: final(self).vertex, order: None, ..*old(self) })
}),
//@end
//@fn src/net.rs Net::connect_output_index
requires global_output < old(self).output_edge.len(),
ensures
    final(self).output_edge@ == old(self).output_edge@.update(global_output as int, Edge { source: Port::Local(source, source_port), target: Port::Global(global_output) }),
    *final(self) == (Net { output_edge: final(self).output_edge, order: None, ..*old(self) }),
//@end
//@fn src/net.rs Net::connect
requires old(self).wf(), old(self).has(source), old(self).has(target), source != target,
    source_port < old(self).unit_of(source).outs(), target_port < old(self).unit_of(target).ins(),
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_src_but(old(self), target, target_port as int, target_port + 1),
    final(self).same_osrc(old(self)), final(self).src(target, target_port as int) == Source::Local(source, source_port), final(self).order is None,
//@end
//@fn src/net.rs Net::connect_input
requires old(self).wf(), old(self).has(target), global_input < old(self).ins(), target_port < old(self).unit_of(target).ins(),
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_src_but(old(self), target, target_port as int, target_port + 1),
    final(self).same_osrc(old(self)), final(self).src(target, target_port as int) == Source::Global(global_input), final(self).order is None,
//@end
//@fn src/net.rs Net::connect_output
requires old(self).wf(), old(self).has(source), source_port < old(self).unit_of(source).outs(), global_output < old(self).outs(),
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_src(old(self)),
    final(self).same_osrc_but(old(self), global_output as int, global_output + 1), final(self).osrc(global_output as int) == Source::Local(source, source_port), final(self).order is None,
//@end
//@fn src/net.rs Net::disconnect_output
requires old(self).wf(), output < old(self).outs(),
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_src(old(self)),
    final(self).same_osrc_but(old(self), output as int, output + 1), final(self).osrc(output as int) == Source::Zero, final(self).order is None,
//@end
//@fn src/net.rs Net::pass_through
requires old(self).wf(), output < old(self).outs(), input < old(self).ins(),
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_src(old(self)),
    final(self).same_osrc_but(old(self), output as int, output + 1), final(self).osrc(output as int) == Source::Global(input), final(self).order is None,
//@end
//@fn src/net.rs Net::pipe_input
requires old(self).wf(), old(self).has(target),
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_src_but(old(self), target, 0, old(self).unit_of(target).ins() as int),
    final(self).same_osrc(old(self)), final(self).order is None,
    forall|c: int| #![trigger final(self).src(target, c)] 0 <= c < old(self).unit_of(target).ins() ==> final(self).src(target, c) ==
        (if old(self).ins() == 0 { Source::Zero } else { Source::Global((c % old(self).ins() as int) as usize) }),
//@loop 0
invariant end_0 == old(self).unit_of(target).ins(), target_index == old(self).node_index@[target], old(self).wf(), old(self).has(target), global_inputs == old(self).ins(),
    *self == (Net { vertex: self.vertex, ..*old(self) }), self.vertex.len() == old(self).vertex.len(),
    forall|j: int| 0 <= j < self.vertex.len() && j != target_index ==> #[trigger] self.vertex[j] == old(self).vertex[j],
    self.vertex[target_index as int] == (Vertex { source: self.vertex[target_index as int].source, ..old(self).vertex[target_index as int] }),
    self.vertex[target_index as int].source.len() == old(self).vertex[target_index as int].source.len(),
    forall|c: int| 0 <= c < self.vertex[target_index as int].source.len() ==> #[trigger] self.vertex[target_index as int].source[c] == (if c < channel {
        Edge { source: if global_inputs == 0 { Port::Zero } else { Port::Global((c % (global_inputs as int)) as usize) }, target: Port::Local(target_index, c as usize) }
    } else { old(self).vertex[target_index as int].source[c] }),
//@end
//@fn src/net.rs Net::pipe_output
requires old(self).wf(), old(self).has(source),
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_src(old(self)), final(self).order is None,
    forall|c: int| #![trigger final(self).osrc(c)] 0 <= c < old(self).outs() ==> final(self).osrc(c) ==
        (if old(self).unit_of(source).outs() == 0 { Source::Zero } else { Source::Local(source, (c % old(self).unit_of(source).outs() as int) as usize) }),
//@loop 0
invariant end_0 == old(self).outs(), source_index == old(self).node_index@[source], old(self).wf(), old(self).has(source), node_outputs == old(self).unit_of(source).outs(),
    *self == (Net { output_edge: self.output_edge, ..*old(self) }), self.output_edge.len() == old(self).output_edge.len(),
    forall|c: int| 0 <= c < self.output_edge.len() ==> #[trigger] self.output_edge[c] == (if c < channel {
        Edge { source: if node_outputs == 0 { Port::Zero } else { Port::Local(source_index, (c % (node_outputs as int)) as usize) }, target: Port::Global(c as usize) }
    } else { old(self).output_edge[c] }),
//@end
//@fn src/net.rs Net::pipe_all
requires old(self).wf(), old(self).has(source), old(self).has(target),
ensures final(self).wf(), final(self).same_nodes(old(self)), final(self).same_osrc(old(self)),
    source == target ==> *final(self) == *old(self),
    source != target ==> final(self).same_src_but(old(self), target, 0, old(self).unit_of(target).ins() as int) && final(self).order is None,
    source != target ==> forall|c: int| #![trigger final(self).src(target, c)] 0 <= c < old(self).unit_of(target).ins() ==> final(self).src(target, c) ==
        (if old(self).unit_of(source).outs() == 0 { Source::Zero } else { Source::Local(source, (c % old(self).unit_of(source).outs() as int) as usize) }),
//@loop 0
invariant end_0 == old(self).unit_of(target).ins(), target_index == old(self).node_index@[target], source_index == old(self).node_index@[source], old(self).wf(), old(self).has(target), old(self).has(source), source != target,
    outputs == old(self).unit_of(source).outs(),
    *self == (Net { vertex: self.vertex, ..*old(self) }), self.vertex.len() == old(self).vertex.len(),
    forall|j: int| 0 <= j < self.vertex.len() && j != target_index ==> #[trigger] self.vertex[j] == old(self).vertex[j],
    self.vertex[target_index as int] == (Vertex { source: self.vertex[target_index as int].source, ..old(self).vertex[target_index as int] }),
    self.vertex[target_index as int].source.len() == old(self).vertex[target_index as int].source.len(),
    forall|c: int| 0 <= c < self.vertex[target_index as int].source.len() ==> #[trigger] self.vertex[target_index as int].source[c] == (if c < channel {
        Edge { source: if outputs == 0 { Port::Zero } else { Port::Local(source_index, (c % (outputs as int)) as usize) }, target: Port::Local(target_index, c as usize) }
    } else { old(self).vertex[target_index as int].source[c] }),
//@end

//@fn src/net.rs Net::remove_2
//@ret r
requires old(self).wf(), old(self).has(node), link ==> old(self).unit_of(node).ins() == old(self).unit_of(node).outs(),
ensures final(self).wf(), final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs(), final(self).order is None,
    r == old(self).unit_of(node),
    forall|d: NodeId| #[trigger] final(self).has(d) == (old(self).has(d) && d != node),
    forall|d: NodeId| #[trigger] final(self).has(d) ==> final(self).unit_of(d) == old(self).unit_of(d),
    forall|d: NodeId, c: int| #![trigger final(self).src(d, c)] final(self).has(d) && 0 <= c < old(self).unit_of(d).ins() ==>
        final(self).src(d, c) == redirect(old(self), node, link, old(self).src(d, c), Some(d)),
    forall|c: int| #![trigger final(self).osrc(c)] 0 <= c < old(self).outs() ==> final(self).osrc(c) == redirect(old(self), node, link, old(self).osrc(c), None),
//@before 0
assert(forall|c: int| 0 <= c < old(self).vertex[node_index as int].source.len() ==> sub(*old(self), node_index, link, node_index as int, (#[trigger] old(self).vertex[node_index as int].source[c]).source) == old(self).vertex[node_index as int].source[c].source);
//@loop 0
invariant end_0 == old(self).output_edge.len(), *self == (Net { vertex: self.vertex, output_edge: self.output_edge, ..*old(self) }),
    self.vertex.len() == old(self).vertex.len(), old(self).wf(), old(self).has(node), node_index == old(self).node_index@[node],
    link ==> old(self).unit_of(node).ins() == old(self).unit_of(node).outs(),
    self.vertex@ == old(self).vertex@, self.output_edge.len() == old(self).output_edge.len(),
    forall|c: int| 0 <= c < self.output_edge.len() ==> (#[trigger] self.output_edge[c]) == (Edge { source: if c < channel { sub(*old(self), node_index, link, -1, old(self).output_edge[c].source) } else { old(self).output_edge[c].source }, target: Port::Global(c as usize) }),
//@loop 1
invariant end_1 == old(self).vertex.len(), *self == (Net { vertex: self.vertex, output_edge: self.output_edge, ..*old(self) }),
    self.vertex.len() == old(self).vertex.len(), old(self).wf(), old(self).has(node), node_index == old(self).node_index@[node],
    link ==> old(self).unit_of(node).ins() == old(self).unit_of(node).outs(),
self.output_edge.len() == old(self).output_edge.len(),
    forall|c: int| 0 <= c < self.output_edge.len() ==> (#[trigger] self.output_edge[c]) == (Edge { source: sub(*old(self), node_index, link, -1, old(self).output_edge[c].source), target: Port::Global(c as usize) }),
forall|j: int| 0 <= j < self.vertex.len() ==> vsame(#[trigger] self.vertex[j], old(self).vertex[j]),
    self.vertex[node_index as int].source@ == old(self).vertex[node_index as int].source@,
    forall|j: int, c: int| 0 <= j < self.vertex.len() && 0 <= c < old(self).vertex[j].source.len() ==> (#[trigger] self.vertex[j].source[c]) == (Edge {
        source: if j < vertex { sub(*old(self), node_index, link, j, old(self).vertex[j].source[c].source) } else { old(self).vertex[j].source[c].source }, target: Port::Local(j as usize, c as usize) }),
//@loop 2
invariant end_2 == old(self).vertex[vertex as int].source.len(), vertex < self.vertex.len(), *self == (Net { vertex: self.vertex, output_edge: self.output_edge, ..*old(self) }),
    self.vertex.len() == old(self).vertex.len(), old(self).wf(), old(self).has(node), node_index == old(self).node_index@[node],
    link ==> old(self).unit_of(node).ins() == old(self).unit_of(node).outs(),
self.output_edge.len() == old(self).output_edge.len(),
    forall|c: int| 0 <= c < self.output_edge.len() ==> (#[trigger] self.output_edge[c]) == (Edge { source: sub(*old(self), node_index, link, -1, old(self).output_edge[c].source), target: Port::Global(c as usize) }),
forall|j: int| 0 <= j < self.vertex.len() ==> vsame(#[trigger] self.vertex[j], old(self).vertex[j]),
    self.vertex[node_index as int].source@ == old(self).vertex[node_index as int].source@,
    forall|j: int, c: int| 0 <= j < self.vertex.len() && 0 <= c < old(self).vertex[j].source.len() ==> (#[trigger] self.vertex[j].source[c]) == (Edge {
        source: if j < vertex || (j == vertex && c < channel) { sub(*old(self), node_index, link, j, old(self).vertex[j].source[c].source) } else { old(self).vertex[j].source[c].source }, target: Port::Local(j as usize, c as usize) }),
//@after 2
//@after 1
let ghost mid = *self;
assert(bypassed(*old(self), mid, node, node_index, link));
//@before 3
let ghost mid2 = *self;
//@loop 3
invariant end_3 == mid2.output_edge.len(), mid2.vertex.len() == old(self).vertex.len(), self.vertex.len() == mid2.vertex.len(), node_index < last_index, last_index == self.vertex.len() - 1, self.ins() == old(self).ins(), self.outs() == old(self).outs(),
    *self == (Net { vertex: self.vertex, output_edge: self.output_edge, ..mid2 }), mid2.output_edge.len() == self.output_edge.len(), self.outs() == self.output_edge.len(),
    forall|j: int| 0 <= j < mid2.vertex.len() ==> v_ok(#[trigger] mid2.vertex[j]),
    self.vertex@ == mid2.vertex@,
forall|c: int| 0 <= c < self.output_edge.len() ==> (#[trigger] self.output_edge[c]) == (Edge { source: if c < channel { ren(last_index, node_index, mid2.output_edge[c].source) } else { mid2.output_edge[c].source }, target: mid2.output_edge[c].target }),
//@loop 4
invariant end_4 == self.vertex.len() - 1, mid2.vertex.len() == old(self).vertex.len(), self.vertex.len() == mid2.vertex.len(), node_index < last_index, last_index == self.vertex.len() - 1, self.ins() == old(self).ins(), self.outs() == old(self).outs(),
    *self == (Net { vertex: self.vertex, output_edge: self.output_edge, ..mid2 }), mid2.output_edge.len() == self.output_edge.len(), self.outs() == self.output_edge.len(),
    forall|j: int| 0 <= j < mid2.vertex.len() ==> v_ok(#[trigger] mid2.vertex[j]),
forall|c: int| 0 <= c < self.output_edge.len() ==> (#[trigger] self.output_edge[c]) == (Edge { source: if true { ren(last_index, node_index, mid2.output_edge[c].source) } else { mid2.output_edge[c].source }, target: mid2.output_edge[c].target }),
forall|j: int| 0 <= j < self.vertex.len() ==> vsame(#[trigger] self.vertex[j], mid2.vertex[j]),
    forall|j: int, c: int| 0 <= j < self.vertex.len() && 0 <= c < mid2.vertex[j].source.len() ==> (#[trigger] self.vertex[j].source[c]) == (Edge {
        source: if j < vertex { ren(last_index, node_index, mid2.vertex[j].source[c].source) } else { mid2.vertex[j].source[c].source }, target: mid2.vertex[j].source[c].target }),
//@loop 5
invariant end_5 == mid2.vertex[vertex as int].source.len(), vertex < self.vertex.len() - 1, mid2.vertex.len() == old(self).vertex.len(), self.vertex.len() == mid2.vertex.len(), node_index < last_index, last_index == self.vertex.len() - 1, self.ins() == old(self).ins(), self.outs() == old(self).outs(),
    *self == (Net { vertex: self.vertex, output_edge: self.output_edge, ..mid2 }), mid2.output_edge.len() == self.output_edge.len(), self.outs() == self.output_edge.len(),
    forall|j: int| 0 <= j < mid2.vertex.len() ==> v_ok(#[trigger] mid2.vertex[j]),
forall|c: int| 0 <= c < self.output_edge.len() ==> (#[trigger] self.output_edge[c]) == (Edge { source: if true { ren(last_index, node_index, mid2.output_edge[c].source) } else { mid2.output_edge[c].source }, target: mid2.output_edge[c].target }),
forall|j: int| 0 <= j < self.vertex.len() ==> vsame(#[trigger] self.vertex[j], mid2.vertex[j]),
    forall|j: int, c: int| 0 <= j < self.vertex.len() && 0 <= c < mid2.vertex[j].source.len() ==> (#[trigger] self.vertex[j].source[c]) == (Edge {
        source: if j < vertex || (j == vertex && c < channel) { ren(last_index, node_index, mid2.vertex[j].source[c].source) } else { mid2.vertex[j].source[c].source }, target: mid2.vertex[j].source[c].target }),
//@loop 6
invariant end_6 == mid2.vertex[node_index as int].source.len(), mid2.vertex.len() == old(self).vertex.len(), self.vertex.len() == mid2.vertex.len(), node_index < last_index, last_index == self.vertex.len() - 1, self.ins() == old(self).ins(), self.outs() == old(self).outs(),
    *self == (Net { vertex: self.vertex, output_edge: self.output_edge, ..mid2 }), mid2.output_edge.len() == self.output_edge.len(), self.outs() == self.output_edge.len(),
    forall|j: int| 0 <= j < mid2.vertex.len() ==> v_ok(#[trigger] mid2.vertex[j]),
forall|c: int| 0 <= c < self.output_edge.len() ==> (#[trigger] self.output_edge[c]) == (Edge { source: if true { ren(last_index, node_index, mid2.output_edge[c].source) } else { mid2.output_edge[c].source }, target: mid2.output_edge[c].target }),
forall|j: int| 0 <= j < self.vertex.len() ==> vsame(#[trigger] self.vertex[j], mid2.vertex[j]),
    forall|j: int, c: int| 0 <= j < self.vertex.len() && 0 <= c < mid2.vertex[j].source.len() ==> (#[trigger] self.vertex[j].source[c]) == (Edge {
        source: if j < self.vertex.len() - 1 { ren(last_index, node_index, mid2.vertex[j].source[c].source) } else { mid2.vertex[j].source[c].source }, target: if j == node_index && c < channel { Port::Local(node_index, c as usize) } else { mid2.vertex[j].source[c].target } }),
//@tail
proof {
    assert(bypassed(*old(self), mid, node, node_index, link));
    assert(moved(mid, *self, node, node_index)) by {
        if last_index != node_index { }
    }
    lemma_removed(*old(self), mid, *self, node, node_index, link);
}
//@end
//@fn src/net.rs Net::remove
//@ret r
requires old(self).wf(), old(self).has(node), false ==> old(self).unit_of(node).ins() == old(self).unit_of(node).outs(),
ensures final(self).wf(), final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs(), final(self).order is None,
    r == old(self).unit_of(node),
    forall|d: NodeId| #[trigger] final(self).has(d) == (old(self).has(d) && d != node),
    forall|d: NodeId| #[trigger] final(self).has(d) ==> final(self).unit_of(d) == old(self).unit_of(d),
    forall|d: NodeId, c: int| #![trigger final(self).src(d, c)] final(self).has(d) && 0 <= c < old(self).unit_of(d).ins() ==>
        final(self).src(d, c) == redirect(old(self), node, false, old(self).src(d, c), Some(d)),
    forall|c: int| #![trigger final(self).osrc(c)] 0 <= c < old(self).outs() ==> final(self).osrc(c) == redirect(old(self), node, false, old(self).osrc(c), None),
//@end
//@fn src/net.rs Net::remove_link
//@ret r
requires old(self).wf(), old(self).has(node), true ==> old(self).unit_of(node).ins() == old(self).unit_of(node).outs(),
ensures final(self).wf(), final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs(), final(self).order is None,
    r == old(self).unit_of(node),
    forall|d: NodeId| #[trigger] final(self).has(d) == (old(self).has(d) && d != node),
    forall|d: NodeId| #[trigger] final(self).has(d) ==> final(self).unit_of(d) == old(self).unit_of(d),
    forall|d: NodeId, c: int| #![trigger final(self).src(d, c)] final(self).has(d) && 0 <= c < old(self).unit_of(d).ins() ==>
        final(self).src(d, c) == redirect(old(self), node, true, old(self).src(d, c), Some(d)),
    forall|c: int| #![trigger final(self).osrc(c)] 0 <= c < old(self).outs() ==> final(self).osrc(c) == redirect(old(self), node, true, old(self).osrc(c), None),
//@end

//@fn src/net.rs Net::new
//@ret r
ensures r.wf(), r.ins() == inputs, r.outs() == outputs, r.vertex.len() == 0, forall|d: NodeId| !#[trigger] r.has(d),
    forall|c: int| #![trigger r.osrc(c)] 0 <= c < outputs ==> r.osrc(c) == Source::Zero,
//@loop 0
invariant end_0 == outputs, net.output_edge.len() == channel, net.vertex.len() == 0, net.node_index@ == Map::<NodeId, NodeIndex>::empty(),
    net.input.chan() == inputs, net.output.chan() == outputs,
    forall|c: int| 0 <= c < channel ==> #[trigger] net.output_edge[c] == (Edge { source: Port::Zero, target: Port::Global(c as usize) }),
//@end
//@fn src/net.rs Net::push
//@ret r
requires old(self).wf(), old(self).vertex.len() < usize::MAX,
ensures final(self).wf(), final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs(), final(self).order is None,
    !old(self).has(r), forall|d: NodeId| #![trigger final(self).has(d)] #![trigger old(self).has(d)] final(self).has(d) == (old(self).has(d) || d == r),
    final(self).unit_of(r).ins() == unit.ins() && final(self).unit_of(r).outs() == unit.outs() && final(self).unit_of(r).key() == unit.key(),
    forall|d: NodeId| #[trigger] old(self).has(d) ==> final(self).unit_of(d) == old(self).unit_of(d),
    // The unit runs at the sample rate of the network.
    final(self).unit_of(r).rate() == r64(old(self).sample_rate), final(self).sample_rate == old(self).sample_rate,
    final(self).same_src(old(self)), final(self).same_osrc(old(self)),
    forall|c: int| #![trigger final(self).src(r, c)] 0 <= c < unit.ins() ==> final(self).src(r, c) == Source::Zero,
    final(self).vertex.len() == old(self).vertex.len() + 1, final(self).node_index@ == old(self).node_index@.insert(r, old(self).vertex.len()),
    final(self).vertex@.drop_last() == old(self).vertex@, final(self).output_edge == old(self).output_edge,
    final(self).front == old(self).front, final(self).vertex@[old(self).vertex.len() as int].source.len() == unit.ins(),
    forall|c: int| 0 <= c < unit.ins() ==> #[trigger] final(self).vertex@[old(self).vertex.len() as int].source[c] == (Edge { source: Port::Zero, target: Port::Local(old(self).vertex.len(), c as usize) }),
//@end
//@fn src/net.rs Net::replace
//@ret r
requires old(self).wf(), old(self).has(node), unit.ins() == old(self).unit_of(node).ins(), unit.outs() == old(self).unit_of(node).outs(),
ensures final(self).wf(), r == old(self).unit_of(node), final(self).unit_of(node).key() == unit.key(), final(self).unit_of(node).ins() == unit.ins(), final(self).unit_of(node).outs() == unit.outs(),
    final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs(),
    forall|d: NodeId| #[trigger] final(self).has(d) == old(self).has(d),
    forall|d: NodeId| #[trigger] old(self).has(d) && d != node ==> final(self).unit_of(d) == old(self).unit_of(d),
    final(self).same_src(old(self)), final(self).same_osrc(old(self)),
    // The replacement is sent over by the next commit.
    final(self).vertex[old(self).node_index@[node] as int].changed == old(self).revision,
    final(self).unit_of(node).rate() == r64(old(self).sample_rate),
//@end
//@fn src/net.rs Net::chain
//@ret r
requires old(self).wf(), old(self).vertex.len() < usize::MAX,
ensures final(self).wf(), final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs(), final(self).order is None,
    !old(self).has(r), forall|d: NodeId| #[trigger] final(self).has(d) == (old(self).has(d) || d == r),
    final(self).unit_of(r).key() == unit.key(),
    forall|d: NodeId| #[trigger] old(self).has(d) ==> final(self).unit_of(d) == old(self).unit_of(d),
    final(self).same_src(old(self)),
    // First unit: network inputs are piped to it; later units: former network outputs are.
    forall|c: int| #![trigger final(self).src(r, c)] 0 <= c < unit.ins() ==> final(self).src(r, c) == (
        if old(self).vertex.len() == 0 { if old(self).ins() == 0 { Source::Zero } else { Source::Global((c % old(self).ins() as int) as usize) } }
        else if old(self).outs() == 0 { Source::Zero } else { old(self).osrc(c % old(self).outs() as int) }),
    forall|c: int| #![trigger final(self).osrc(c)] 0 <= c < old(self).outs() ==> final(self).osrc(c) ==
        (if unit.outs() == 0 { Source::Zero } else { Source::Local(r, (c % unit.outs() as int) as usize) }),
//@loops 1
//@after 0
proof { assert(self.wf()); assert(self.same_nodes(&pushed)); }
//@tail
proof { assert(self.has(r)); }
//@before 0
let ghost pushed = *self;
//@loop 0
invariant end_0 == unit_inputs, unit_inputs == unit.ins(), pushed.wf(), pushed.has(id), index == pushed.node_index@[id], index == pushed.vertex.len() - 1, global_outputs == pushed.outs(),
    old(self).wf(), pushed.output_edge == old(self).output_edge, pushed.vertex@.drop_last() == old(self).vertex@, pushed.ins() == old(self).ins(), pushed.outs() == old(self).outs(),
    pushed.unit_of(id).ins() == unit.ins(),
    *self == (Net { vertex: self.vertex, ..pushed }), self.vertex.len() == pushed.vertex.len(),
    forall|j: int| 0 <= j < self.vertex.len() && j != index ==> #[trigger] self.vertex[j] == pushed.vertex[j],
    self.vertex[index as int] == (Vertex { source: self.vertex[index as int].source, ..pushed.vertex[index as int] }),
    self.vertex[index as int].source.len() == pushed.vertex[index as int].source.len(),
    forall|c: int| 0 <= c < self.vertex[index as int].source.len() ==> #[trigger] self.vertex[index as int].source[c] == (if c < i {
        Edge { source: if global_outputs == 0 { Port::Zero } else { old(self).output_edge[c % (global_outputs as int)].source }, target: Port::Local(index, c as usize) }
    } else { pushed.vertex[index as int].source[c] }),
//@end

}
fn main() {}
}
