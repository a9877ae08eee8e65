// Order determination: the order in which the vertices of a network run.
//@rewrite order\.reverse\(\) => vec_reverse(order) ## Vec::reverse -> vec_reverse (assumed contract)
//@rewrite fn propagate\(net: &mut Net, i: usize, order: &mut Vec<NodeIndex>\) => fn propagate(net: &mut Net, i: usize, order: &mut Vec<NodeIndex>, Ghost(up): Ghost<Seq<int>>) ## propagate gets a ghost parameter (erased)
//@rewrite propagate\(net, j, order\) => Self::propagate(net, j, order, Ghost(u)) ## calls of propagate pass the ghost parameter
//@rewrite propagate\(self, i, order\) => Self::propagate(self, i, order, Ghost(u)) ## calls of propagate pass the ghost parameter
//@rewrite AttoHash::new\(ID\) => AttoHash::new() ## hash values are opaque
//@rewrite let mut order = match self\.order\.take\(\) => let mut order = match opt_take(&mut self.order) ## Option::take -> opt_take (assumed contract)
//@include net_pre.rs
#[verifier::external_body]
pub struct AttoHash { x: u64 }
impl AttoHash {
    #[verifier::external_body]
    pub fn new() -> AttoHash { unimplemented!() }
}
#[verifier::external_body]
pub fn opt_take(o: &mut Option<Vec<usize>>) -> (r: Option<Vec<usize>>) ensures r == *old(o), *final(o) is None { o.take() }
#[verifier::external_body]
pub fn vec_reverse(v: &mut Vec<usize>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }

/// Input c of vertex k is connected to vertex j.
pub open spec fn hit(s: Seq<Edge>, c: int, j: int) -> bool { s[c].source is Local && s[c].source->Local_0 == j }
pub open spec fn is_edge(vs: Seq<Vertex>, k: int, c: int, j: int) -> bool {
    0 <= k < vs.len() && 0 <= c < vs[k].source.len() && hit(vs[k].source@, c, j)
}
/// Number of inputs from channel `from` on that are connected to vertex j.
pub open spec fn row(s: Seq<Edge>, from: int, j: int) -> nat
    decreases s.len() - from
{
    if from < 0 || from >= s.len() { 0 } else { row(s, from + 1, j) + (if hit(s, from, j) { 1nat } else { 0 }) }
}
/// Number of inputs of the first n vertices, not yet accounted for, that are connected to vertex j.
pub open spec fn total(vs: Seq<Vertex>, up: Seq<int>, j: int, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { total(vs, up, j, n - 1) + row(vs[n - 1].source@, up[n - 1], j) }
}
pub open spec fn all_inputs(vs: Seq<Vertex>, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { all_inputs(vs, n - 1) + vs[n - 1].source@.len() }
}
/// The graph is the same; only the working fields differ.
pub open spec fn same_graph(vs: Seq<Vertex>, ws: Seq<Vertex>) -> bool {
    vs.len() == ws.len() && forall|k: int| 0 <= k < vs.len() ==> #[trigger] vs[k] == (Vertex { unplugged: vs[k].unplugged, ordered: vs[k].ordered, ..ws[k] })
}
pub proof fn lemma_row_le(s: Seq<Edge>, from: int, j: int)
    requires 0 <= from <= s.len()
    ensures row(s, from, j) <= s.len() - from
    decreases s.len() - from
{ if from < s.len() { lemma_row_le(s, from + 1, j); } }
pub proof fn lemma_row_hit(s: Seq<Edge>, from: int, c: int, j: int)
    requires 0 <= from <= c < s.len(), hit(s, c, j)
    ensures row(s, from, j) > 0
    decreases c - from
{ if from < c { lemma_row_hit(s, from + 1, c, j); } }
pub proof fn lemma_row_some(s: Seq<Edge>, from: int, j: int)
    requires 0 <= from <= s.len(), row(s, from, j) > 0
    ensures exists|c: int| from <= c < s.len() && #[trigger] hit(s, c, j)
    decreases s.len() - from
{ if from < s.len() && !hit(s, from, j) { lemma_row_some(s, from + 1, j); } }
pub proof fn lemma_total_le(vs: Seq<Vertex>, up: Seq<int>, j: int, n: int)
    requires n <= vs.len(), up.len() == vs.len(), forall|k: int| 0 <= k < vs.len() ==> 0 <= #[trigger] up[k] <= vs[k].source.len()
    ensures total(vs, up, j, n) <= all_inputs(vs, n)
    decreases n
{ if n > 0 { lemma_total_le(vs, up, j, n - 1); lemma_row_le(vs[n - 1].source@, up[n - 1], j); } }
pub proof fn lemma_all_mono(vs: Seq<Vertex>, m: int, n: int)
    requires m <= n <= vs.len()
    ensures all_inputs(vs, m) <= all_inputs(vs, n)
    decreases n - m
{ if m < n { lemma_all_mono(vs, m, n - 1); } }
pub proof fn lemma_total_hit(vs: Seq<Vertex>, up: Seq<int>, j: int, n: int, k: int, c: int)
    requires n <= vs.len(), 0 <= k < n, 0 <= up[k] <= c, is_edge(vs, k, c, j)
    ensures total(vs, up, j, n) > 0
    decreases n
{ if k == n - 1 { lemma_row_hit(vs[k].source@, up[k], c, j); } else { lemma_total_hit(vs, up, j, n - 1, k, c); } }
pub proof fn lemma_total_some(vs: Seq<Vertex>, up: Seq<int>, j: int, n: int)
    requires n <= vs.len(), total(vs, up, j, n) > 0, forall|k: int| 0 <= k < n ==> 0 <= #[trigger] up[k] <= vs[k].source.len()
    ensures exists|k: int, c: int| 0 <= k < n && up[k] <= c && #[trigger] is_edge(vs, k, c, j)
    decreases n
{
    if n > 0 {
        if row(vs[n - 1].source@, up[n - 1], j) > 0 {
            lemma_row_some(vs[n - 1].source@, up[n - 1], j);
            let c = choose|c: int| up[n - 1] <= c < vs[n - 1].source@.len() && #[trigger] hit(vs[n - 1].source@, c, j);
            assert(is_edge(vs, n - 1, c, j));
        } else {
            lemma_total_some(vs, up, j, n - 1);
        }
    }
}
pub proof fn lemma_total_step(vs: Seq<Vertex>, up: Seq<int>, j: int, n: int, i: int)
    requires n <= vs.len(), 0 <= i < vs.len(), up.len() == vs.len(), 0 <= up[i] < vs[i].source.len()
    ensures total(vs, up, j, n) == total(vs, up.update(i, up[i] + 1), j, n) + (if i < n && hit(vs[i].source@, up[i], j) { 1nat } else { 0 })
    decreases n
{ if n > 0 { lemma_total_step(vs, up, j, n - 1, i); } }
pub proof fn lemma_total_same(vs: Seq<Vertex>, ws: Seq<Vertex>, up: Seq<int>, j: int, n: int)
    requires same_graph(vs, ws), n <= vs.len()
    ensures total(vs, up, j, n) == total(ws, up, j, n)
    decreases n
{ if n > 0 { lemma_total_same(vs, ws, up, j, n - 1); assert(vs[n - 1].source == ws[n - 1].source); } }
pub proof fn lemma_all_same(vs: Seq<Vertex>, ws: Seq<Vertex>, n: int)
    requires same_graph(vs, ws), n <= vs.len()
    ensures all_inputs(vs, n) == all_inputs(ws, n)
    decreases n
{ if n > 0 { lemma_all_same(vs, ws, n - 1); assert(vs[n - 1].source == ws[n - 1].source); } }
/// Distinct numbers below n are at most n many.
pub proof fn lemma_distinct(s: Seq<usize>, n: int)
    requires s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < n, n >= 0
    ensures s.len() <= n
    decreases n
{
    if n == 0 {
        if s.len() > 0 { assert(s[0] < 0); }
    } else if s.contains((n - 1) as usize) {
        let p = s.index_of((n - 1) as usize);
        let t = s.remove(p);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < n - 1 by {
            let i2 = if i < p { i } else { i + 1 };
            assert(t[i] == s[i2]);
            assert(s[i2] != s[p]);
        }
        assert(t.no_duplicates()) by {
            assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by {
                let a2 = if a < p { a } else { a + 1 };
                let b2 = if b < p { b } else { b + 1 };
                assert(t[a] == s[a2] && t[b] == s[b2]);
            }
        }
        lemma_distinct(t, n - 1);
    } else {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] < n - 1 by { assert(s.contains(s[i])); }
        lemma_distinct(s, n - 1);
    }
}
/// n distinct numbers below n are all of them.
pub proof fn lemma_onto(s: Seq<usize>, n: int, k: int)
    requires s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < n, s.len() == n, 0 <= k < n, n <= usize::MAX
    ensures s.contains(k as usize)
{
    if !s.contains(k as usize) {
        let t = s.push(k as usize);
        assert(t.no_duplicates());
        assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < n);
        lemma_distinct(t, n);
    }
}
/// Consumers of the vertex at position p are before p (the order is still reversed).
pub open spec fn topo(vs: Seq<Vertex>, order: Seq<usize>) -> bool {
    forall|p: int, k: int, c: int| #![trigger is_edge(vs, k, c, order[p] as int)] 0 <= p < order.len() && is_edge(vs, k, c, order[p] as int)
        ==> exists|q: int| 0 <= q < p && order[q] == k
}
/// Invariant of the algorithm: up[k] inputs of vertex k have been accounted for.
pub open spec fn inv(vs: Seq<Vertex>, order: Seq<usize>, up: Seq<int>) -> bool {
    &&& up.len() == vs.len()
    &&& forall|k: int| 0 <= k < vs.len() ==> 0 <= #[trigger] up[k] <= vs[k].source.len()
    &&& order.no_duplicates()
    &&& forall|p: int| 0 <= p < order.len() ==> #[trigger] order[p] < vs.len()
    &&& forall|k: int| 0 <= k < vs.len() ==> #[trigger] vs[k].ordered == order.contains(k as usize)
    &&& forall|k: int| 0 <= k < vs.len() && !vs[k].ordered ==> #[trigger] up[k] == 0
    &&& forall|j: int| 0 <= j < vs.len() ==> #[trigger] vs[j].unplugged == total(vs, up, j, vs.len() as int)
    &&& forall|j: int| 0 <= j < vs.len() && vs[j].ordered ==> #[trigger] vs[j].unplugged == 0
    &&& topo(vs, order)
}
pub open spec fn prefix(a: Seq<usize>, b: Seq<usize>) -> bool {
    a.len() <= b.len() && forall|p: int| 0 <= p < a.len() ==> #[trigger] b[p] == a[p]
}
/// Work left by a call on vertex i: inputs of i and of the vertices that were newly ordered are accounted for.
pub open spec fn advanced(vs: Seq<Vertex>, o0: Seq<usize>, o1: Seq<usize>, up: Seq<int>, u: Seq<int>, i: int, done: int) -> bool {
    &&& u.len() == up.len()
    &&& u[i] == done
    &&& forall|k: int| 0 <= k < vs.len() && k != i ==> #[trigger] u[k] ==
        (if o1.contains(k as usize) && !o0.contains(k as usize) { vs[k].source.len() as int } else { up[k] })
}
/// No vertex was left with all its outputs accounted for but not ordered.
pub open spec fn none_left(v0: Seq<Vertex>, v1: Seq<Vertex>) -> bool {
    forall|k: int| 0 <= k < v1.len() && !(#[trigger] v1[k]).ordered && v1[k].unplugged == 0 ==> v0[k].unplugged == 0
}
pub open spec fn ports_ok(vs: Seq<Vertex>) -> bool {
    &&& forall|i: int| 0 <= i < vs.len() ==> (#[trigger] vs[i]).source.len() == vs[i].tick_input.len()
    &&& forall|i: int, c: int| 0 <= i < vs.len() && 0 <= c < vs[i].source.len() ==>
        ((#[trigger] vs[i].source[c]).source is Local ==> vs[i].source[c].source->Local_0 < vs.len())
}
/// Vertex k feeds a vertex of the set s.
pub open spec fn feeds(vs: Seq<Vertex>, s: Seq<bool>, k: int) -> bool {
    exists|i: int, c: int| 0 <= i < s.len() && s[i] && #[trigger] is_edge(vs, i, c, k)
}
/// There is a nonempty set of vertices each of which feeds a vertex of the set.
pub open spec fn cycle_in(vs: Seq<Vertex>, s: Seq<bool>) -> bool {
    s.len() == vs.len() && s.contains(true) && forall|k: int| 0 <= k < s.len() && s[k] ==> #[trigger] feeds(vs, s, k)
}
pub open spec fn cyclic(vs: Seq<Vertex>) -> bool { exists|s: Seq<bool>| #[trigger] cycle_in(vs, s) }

/// Ordering a vertex all of whose consumers are ordered keeps the invariant.
pub proof fn lemma_push(va: Seq<Vertex>, oa: Seq<usize>, u: Seq<int>, vb: Seq<Vertex>, j: usize)
    requires va.len() <= usize::MAX, inv(va, oa, u), j < va.len(), !va[j as int].ordered, va[j as int].unplugged == 0, ports_ok(va),
        vb =~= va.update(j as int, Vertex { ordered: true, ..va[j as int] }),
    ensures inv(vb, oa.push(j), u), same_graph(vb, va), ports_ok(vb), oa.push(j).len() <= va.len(), u[j as int] == 0, oa.push(j).contains(j), !oa.contains(j),
        forall|k: usize| #[trigger] oa.push(j).contains(k) == (oa.contains(k) || k == j),
{
    let ob = oa.push(j);
    assert(!oa.contains(j));
    assert forall|k: usize| #[trigger] ob.contains(k) == (oa.contains(k) || k == j) by {
        if oa.contains(k as usize) { let q = oa.index_of(k as usize); assert(ob[q] == k as usize); }
        if k as usize == j { assert(ob[ob.len() - 1] == j); }
    }
    assert forall|x: int| 0 <= x < vb.len() implies #[trigger] vb[x].unplugged == total(vb, u, x, vb.len() as int) by {
        lemma_total_same(vb, va, u, x, vb.len() as int);
        assert(vb[x].unplugged == va[x].unplugged);
    }
    assert(topo(vb, ob)) by {
        assert forall|p: int, k: int, c: int| #![trigger is_edge(vb, k, c, ob[p] as int)] 0 <= p < ob.len() && is_edge(vb, k, c, ob[p] as int)
            implies exists|q: int| 0 <= q < p && ob[q] == k by {
            assert(vb[k].source == va[k].source);
            assert(is_edge(va, k, c, ob[p] as int));
            if p < oa.len() {
                let q = choose|q: int| 0 <= q < p && oa[q] == k;
                assert(ob[q] == k);
            } else {
                // All consumers of j have been accounted for.
                if c >= u[k] { lemma_total_hit(va, u, j as int, va.len() as int, k, c); }
                assert(u[k] > 0);
                assert(va[k].ordered);
                let q = oa.index_of(k as usize);
                assert(ob[q] == k);
            }
        }
    }
    assert(inv(vb, ob, u));
    lemma_distinct(ob, vb.len() as int);
    assert(ob.contains(j));
    lemma_ports(va, vb);
}
pub proof fn lemma_ports(va: Seq<Vertex>, vb: Seq<Vertex>)
    requires ports_ok(va), same_graph(vb, va)
    ensures ports_ok(vb)
{
    assert forall|a: int| 0 <= a < vb.len() implies (#[trigger] vb[a]).source.len() == vb[a].tick_input.len() by { assert(vb[a].source == va[a].source); assert(va[a].source.len() == va[a].tick_input.len()); }
    assert forall|a: int, c: int| 0 <= a < vb.len() && 0 <= c < vb[a].source.len() implies
        (((#[trigger] vb[a].source[c]).source is Local) ==> vb[a].source[c].source->Local_0 < vb.len()) by { assert(vb[a].source == va[a].source); assert(vb[a].source[c] == va[a].source[c]); }
}
/// What the order says once nothing more can be ordered.
pub proof fn lemma_conclude(v0: Seq<Vertex>, vd: Seq<Vertex>, od: Seq<usize>, u: Seq<int>)
    requires inv(vd, od, u), same_graph(vd, v0), v0.len() <= usize::MAX,
        forall|k: int| 0 <= k < v0.len() && (#[trigger] vd[k]).ordered ==> u[k] == v0[k].source.len(),
        forall|k: int| 0 <= k < v0.len() && !(#[trigger] vd[k]).ordered ==> vd[k].unplugged > 0,
    ensures od.len() <= v0.len(),
        od.len() == v0.len() ==> forall|p: int, k: int, c: int| #![trigger is_edge(v0, k, c, od.reverse()[p] as int)] 0 <= p < v0.len() && is_edge(v0, k, c, od.reverse()[p] as int)
            ==> exists|q: int| p < q < v0.len() && od.reverse()[q] == k,
        od.len() < v0.len() ==> cyclic(v0),
{
    let n = v0.len() as int;
    lemma_distinct(od, n);
    if od.len() == n {
        assert forall|p: int, k: int, c: int| #![trigger is_edge(v0, k, c, od.reverse()[p] as int)] 0 <= p < n && is_edge(v0, k, c, od.reverse()[p] as int)
            implies exists|q: int| p < q < n && od.reverse()[q] == k by {
            assert(od.reverse()[p] == od[n - 1 - p]);
            assert(vd[k].source == v0[k].source);
            assert(is_edge(vd, k, c, od[n - 1 - p] as int));
            let q = choose|q: int| 0 <= q < n - 1 - p && od[q] == k;
            assert(od.reverse()[n - 1 - q] == k);
        }
    } else {
        let s = Seq::new(v0.len(), |k: int| !vd[k].ordered);
        assert(s.contains(true)) by {
            if !s.contains(true) {
                assert forall|k: int| 0 <= k < n implies #[trigger] od.contains(k as usize) by { if s[k] { assert(s.contains(true)); } assert(vd[k].ordered); }
                lemma_all_in2(od, n);
            }
        }
        assert forall|k: int| 0 <= k < s.len() && s[k] implies #[trigger] feeds(v0, s, k) by {
            assert(!vd[k].ordered);
            assert(vd[k].unplugged > 0);
            assert(vd[k].unplugged == total(vd, u, k, n));
            lemma_total_some(vd, u, k, n);
            let (a, c) = choose|a: int, c: int| 0 <= a < n && u[a] <= c && #[trigger] is_edge(vd, a, c, k);
            assert(vd[a].source == v0[a].source);
            assert(is_edge(v0, a, c, k));
            if vd[a].ordered { assert(u[a] == v0[a].source.len()); }
            assert(s[a]);
        }
        assert(cycle_in(v0, s));
        assert(cyclic(v0));
    }
}
/// State of the outer loop after a call of propagate.
pub proof fn lemma_called(v0: Seq<Vertex>, va: Seq<Vertex>, oa: Seq<usize>, ub: Seq<int>, vb: Seq<Vertex>, vc: Seq<Vertex>, oc: Seq<usize>, u: Seq<int>, i: usize)
    requires va.len() <= usize::MAX, same_graph(va, v0), same_graph(vb, va), same_graph(vc, vb), inv(va, oa, ub), i < v0.len(), !oa.contains(i), inv(vb, oa.push(i), ub), inv(vc, oc, u),
        advanced(vb, oa.push(i), oc, ub, u, i as int, vb[i as int].source.len() as int), prefix(oa.push(i), oc), none_left(vb, vc),
        forall|k: int| 0 <= k < va.len() ==> #[trigger] vb[k].unplugged == va[k].unplugged,
        forall|k: usize| #[trigger] oa.push(i).contains(k) == (oa.contains(k) || k == i),
        forall|k: int| 0 <= k < v0.len() && (#[trigger] va[k]).ordered ==> ub[k] == v0[k].source.len(),
        forall|k: int| 0 <= k < i && !(#[trigger] va[k]).ordered ==> va[k].unplugged > 0,
    ensures same_graph(vc, v0),
        forall|k: int| 0 <= k < v0.len() && (#[trigger] vc[k]).ordered ==> u[k] == v0[k].source.len(),
        forall|k: int| 0 <= k < i + 1 && !(#[trigger] vc[k]).ordered ==> vc[k].unplugged > 0,
{
    let ob = oa.push(i);
    assert(same_graph(vc, v0));
    assert forall|k: int| 0 <= k < v0.len() && (#[trigger] vc[k]).ordered implies u[k] == v0[k].source.len() by {
        assert(vb[k].source == v0[k].source);
        if k != i {
            if ob.contains(k as usize) { assert(oa.contains(k as usize)); assert(va[k].ordered); assert(u[k] == ub[k]); }
        }
    }
    assert forall|k: int| 0 <= k < i + 1 && !(#[trigger] vc[k]).ordered implies vc[k].unplugged > 0 by {
        if k == i { assert(ob[ob.len() - 1] == i); assert(oc[ob.len() - 1] == i); assert(oc.contains(i)); }
        else {
            if vc[k].unplugged == 0 {
                assert(vb[k].unplugged == 0);
                assert(va[k].unplugged == 0);
                assert(va[k].ordered);
                let q = oa.index_of(k as usize); assert(ob[q] == k as usize); assert(oc[q] == k as usize); assert(oc.contains(k as usize));
            }
        }
    }
}
/// All inputs come from successive outputs of vertex a, beginning from output q.
pub open spec fn successive(v: Vertex, a: usize, q: usize) -> bool {
    v.source.len() > 0 && forall|c: int| 0 <= c < v.source.len() ==> (#[trigger] v.source[c]).source == Port::Local(a, (q + c) as usize)
}
pub open spec fn shortcut_ok(v: Vertex) -> bool {
    match v.source_vertex {
        Some((a, q)) => successive(v, a, q),
        None => forall|a: usize, q: usize| !(#[trigger] successive(v, a, q)) || q + v.source.len() > usize::MAX,
    }
}
/// Same graph; units may have changed state (never their arity).
pub open spec fn same_edges(vs: Seq<Vertex>, ws: Seq<Vertex>) -> bool {
    vs.len() == ws.len() && forall|k: int| 0 <= k < vs.len() ==> (#[trigger] vs[k]).source == ws[k].source && vs[k].id == ws[k].id && vs[k].tick_input == ws[k].tick_input
        && vs[k].tick_output == ws[k].tick_output && vs[k].changed == ws[k].changed && vs[k].next == ws[k].next && vs[k].latest == ws[k].latest && vs[k].fade_phase == ws[k].fade_phase
        && vs[k].unit.ins() == ws[k].unit.ins() && vs[k].unit.outs() == ws[k].unit.outs() && vs[k].unit.key() == ws[k].unit.key() && vs[k].unit.rate() == ws[k].unit.rate()
}
pub open spec fn small_ports(vs: Seq<Vertex>) -> bool {
    forall|k: int, c: int| 0 <= k < vs.len() && 0 <= c < vs[k].source.len() && (#[trigger] vs[k].source[c]).source is Local ==> vs[k].source[c].source->Local_1 + vs[k].source.len() <= usize::MAX
}
pub open spec fn order_ok(vs: Seq<Vertex>, order: Seq<usize>) -> bool {
    &&& order.no_duplicates() && order.len() == vs.len() && forall|p: int| 0 <= p < order.len() ==> #[trigger] order[p] < vs.len()
}
pub open spec fn topo_ok(vs: Seq<Vertex>, order: Seq<usize>) -> bool {
    forall|p: int, k: int, c: int| #![trigger is_edge(vs, k, c, order[p] as int)]
        0 <= p < order.len() && is_edge(vs, k, c, order[p] as int) ==> exists|q: int| p < q < order.len() && order[q] == k
}
pub proof fn lemma_carry(vs: Seq<Vertex>, ws: Seq<Vertex>, order: Seq<usize>)
    requires same_edges(vs, ws)
    ensures order_ok(vs, order) ==> order_ok(ws, order), topo_ok(vs, order) ==> topo_ok(ws, order), cyclic(vs) ==> cyclic(ws)
{
    if topo_ok(vs, order) {
        assert forall|p: int, k: int, c: int| #![trigger is_edge(ws, k, c, order[p] as int)] 0 <= p < order.len() && is_edge(ws, k, c, order[p] as int)
            implies exists|q: int| p < q < order.len() && order[q] == k by { assert(vs[k].source == ws[k].source); assert(is_edge(vs, k, c, order[p] as int)); }
    }
    if cyclic(vs) {
        let s = choose|s: Seq<bool>| #[trigger] cycle_in(vs, s);
        assert forall|k: int| 0 <= k < s.len() && s[k] implies #[trigger] feeds(ws, s, k) by {
            assert(feeds(vs, s, k));
            let (i, c) = choose|i: int, c: int| 0 <= i < s.len() && s[i] && #[trigger] is_edge(vs, i, c, k);
            assert(vs[i].source == ws[i].source);
            assert(is_edge(ws, i, c, k));
        }
        assert(cycle_in(ws, s));
    }
}
pub proof fn lemma_all_edges(vs: Seq<Vertex>, ws: Seq<Vertex>, n: int)
    requires same_edges(vs, ws), n <= vs.len()
    ensures all_inputs(vs, n) == all_inputs(ws, n)
    decreases n
{ if n > 0 { lemma_all_edges(vs, ws, n - 1); assert(vs[n - 1].source == ws[n - 1].source); } }
pub proof fn lemma_ports_edges(va: Seq<Vertex>, vb: Seq<Vertex>)
    requires ports_ok(va), same_edges(vb, va)
    ensures ports_ok(vb)
{
    assert forall|a: int| 0 <= a < vb.len() implies (#[trigger] vb[a]).source.len() == vb[a].tick_input.len() by { assert(vb[a].source == va[a].source); assert(va[a].source.len() == va[a].tick_input.len()); }
    assert forall|a: int, c: int| 0 <= a < vb.len() && 0 <= c < vb[a].source.len() implies
        (((#[trigger] vb[a].source[c]).source is Local) ==> vb[a].source[c].source->Local_0 < vb.len()) by { assert(vb[a].source == va[a].source); assert(vb[a].source[c] == va[a].source[c]); }
}
impl Vertex {
//@fn src/vertex.rs Vertex::update_source_vertex
requires old(self).source.len() == old(self).tick_input.len(),
    forall|c: int| 0 <= c < old(self).source.len() && (#[trigger] old(self).source[c]).source is Local ==> old(self).source[c].source->Local_1 + old(self).source.len() <= usize::MAX,
ensures *final(self) == (Vertex { source_vertex: final(self).source_vertex, ..*old(self) }),
    // The shortcut is there only if all inputs come from successive outputs of the one vertex it names, and whenever they do.
    shortcut_ok(*final(self)),
//@loops 1
//@loop 0
invariant end_0 == self.source.len(), self.source.len() > 0, *self == (Vertex { source_vertex: None, ..*old(self) }), self.source.len() == self.tick_input.len(),
    i > 0 ==> self.source[0].source == Port::Local(source_node, source_port),
    forall|c: int| 0 <= c < i ==> (#[trigger] self.source[c]).source == Port::Local(source_node, (source_port + c) as usize),
    forall|c: int| 0 <= c < old(self).source.len() && (#[trigger] old(self).source[c]).source is Local ==> old(self).source[c].source->Local_1 + old(self).source.len() <= usize::MAX,
//@inend 0
assert(self.source[i as int].source == Port::Local(source_node, (source_port + i) as usize));
//@end
}
impl Net {
//@fn src/net.rs Net::determine_order_in/propagate
requires inv(old(net).vertex@, old(order)@, up), i < old(net).vertex.len(), old(order)@.contains(i), up[i as int] == 0, ports_ok(old(net).vertex@),
ensures same_graph(final(net).vertex@, old(net).vertex@), *final(net) == (Net { vertex: final(net).vertex, ..*old(net) }),
    prefix(old(order)@, final(order)@),
    none_left(old(net).vertex@, final(net).vertex@),
    exists|u: Seq<int>| #[trigger] inv(final(net).vertex@, final(order)@, u)
        && advanced(old(net).vertex@, old(order)@, final(order)@, up, u, i as int, old(net).vertex[i as int].source.len() as int),
decreases old(net).vertex.len() - old(order).len()
//@loops 1
//@top
let ghost mut u = up;
let ghost v0 = net.vertex@;
let ghost o0 = order@;
proof { lemma_distinct(o0, v0.len() as int); }
//@loop 0
invariant end_0 == v0[i as int].source.len(), v0 == old(net).vertex@, o0 == old(order)@, i < v0.len(), ports_ok(v0), inv(v0, o0, up), o0.contains(i),
    same_graph(net.vertex@, v0), *net == (Net { vertex: net.vertex, ..*old(net) }), prefix(o0, order@), none_left(v0, net.vertex@),
    inv(net.vertex@, order@, u), advanced(v0, o0, order@, up, u, i as int, channel as int), up[i as int] == 0,
    o0.len() <= v0.len(),
//@in 0
let ghost v1 = net.vertex@;
let ghost o1 = order@;
let ghost u1 = u;
proof {
    assert(v1[i as int].source == v0[i as int].source);
    assert(v1[i as int].tick_input == v0[i as int].tick_input);
    assert forall|j: int| 0 <= j < v1.len() implies total(v1, u1, j, v1.len() as int) == #[trigger] total(v1, u1.update(i as int, channel + 1), j, v1.len() as int) + (if hit(v1[i as int].source@, channel as int, j) { 1nat } else { 0 }) by {
        lemma_total_step(v1, u1, j, v1.len() as int, i as int);
    }
    u = u1.update(i as int, channel + 1);
    assert(o0.contains(i)); assert(o1.contains(i)) by { let p = o0.index_of(i); assert(o1[p] == i); }
    if !(v1[i as int].source[channel as int].source is Local) {
        assert(inv(v1, o1, u));
    }
}
//@pre net\.vertex\[j\]\.unplugged -= 1;
proof {
    assert(v1[i as int].source[channel as int].source is Local);
    assert(hit(v1[i as int].source@, channel as int, j as int));
    assert(is_edge(v1, i as int, channel as int, j as int));
    assert(u1[i as int] == channel);
    lemma_total_hit(v1, u1, j as int, v1.len() as int, i as int, channel as int);
    assert(v1[j as int].unplugged == total(v1, u1, j as int, v1.len() as int));
    assert(!v1[j as int].ordered);
}
//@post net\.vertex\[j\]\.unplugged -= 1;
let ghost v2 = net.vertex@;
proof {
    assert(same_graph(v2, v1));
    assert forall|x: int| 0 <= x < v2.len() implies #[trigger] v2[x].unplugged == total(v2, u, x, v2.len() as int) by {
        lemma_total_same(v2, v1, u, x, v2.len() as int);
        assert(total(v1, u, x, v1.len() as int) == total(v1, u1, x, v1.len() as int) - (if hit(v1[i as int].source@, channel as int, x) { 1int } else { 0 }));
    }
    assert(topo(v2, o1)) by {
        assert forall|p: int, k: int, c: int| #![trigger is_edge(v2, k, c, o1[p] as int)] 0 <= p < o1.len() && is_edge(v2, k, c, o1[p] as int)
            implies exists|q: int| 0 <= q < p && o1[q] == k by { assert(v2[k].source == v1[k].source); assert(is_edge(v1, k, c, o1[p] as int)); }
    }
    assert(inv(v2, o1, u));
}
//@post order\.push\(j\);
let ghost v3 = net.vertex@;
let ghost o3 = order@;
proof { lemma_ports(v0, v2); lemma_push(v2, o1, u, v3, j); }
//@post Self::propagate\(net, j, order, Ghost\(u\)\);
let ghost v4 = net.vertex@;
let ghost o4 = order@;
proof {
    let u3 = u;
    u = choose|w: Seq<int>| #[trigger] inv(v4, o4, w) && advanced(v3, o3, o4, u3, w, j as int, v3[j as int].source.len() as int);
    assert(prefix(o0, o4));
    assert forall|k: int| 0 <= k < v0.len() && k != i implies #[trigger] u[k] ==
        (if o4.contains(k as usize) && !o0.contains(k as usize) { v0[k].source.len() as int } else { up[k] }) by {
        assert(v3[k].source == v0[k].source);
        assert(o3.contains(k as usize) == (o1.contains(k as usize) || k as usize == j));
        if o3.contains(k as usize) { let q = o3.index_of(k as usize); assert(o4[q] == k as usize); }
        if o0.contains(k as usize) { let q = o0.index_of(k as usize); assert(o1[q] == k as usize); }
        assert(u1[k] == (if o1.contains(k as usize) && !o0.contains(k as usize) { v0[k].source.len() as int } else { up[k] }));
    }
    assert(o3.contains(i)) by { let p = o0.index_of(i); assert(o1[p] == i); assert(o3[p] == i); }
    assert(u[i as int] == channel + 1);
    assert(same_graph(v4, v0));
    assert(none_left(v0, v4)) by {
        assert forall|k: int| 0 <= k < v4.len() && !(#[trigger] v4[k]).ordered && v4[k].unplugged == 0 implies v0[k].unplugged == 0 by {
            assert(v3[k].unplugged == 0);
            if k == j { assert(v3[k].ordered); let q = o3.index_of(j); assert(o4[q] == j); assert(o4.contains(j)); }
            assert(v1[k].unplugged == 0);
            if v3[k].ordered { let q = o3.index_of(k as usize); assert(o4[q] == k as usize); assert(o4.contains(k as usize)); }
            assert(!v1[k].ordered);
        }
    }
}
//@inend 0
proof {
    assert(same_graph(net.vertex@, v0));
    assert(none_left(v0, net.vertex@));
    assert(inv(net.vertex@, order@, u));
}
//@end
//@fn src/net.rs Net::determine_order_in
//@ret r
requires ports_ok(old(self).vertex@), all_inputs(old(self).vertex@, old(self).vertex.len() as int) <= usize::MAX,
ensures same_graph(final(self).vertex@, old(self).vertex@), *final(self) == (Net { vertex: final(self).vertex, ..*old(self) }),
    // Every vertex runs exactly once.
    final(order)@.no_duplicates(), final(order).len() == old(self).vertex.len(), forall|p: int| 0 <= p < final(order).len() ==> #[trigger] final(order)[p] < old(self).vertex.len(),
    // Success: every vertex runs after all the vertices it is connected to.
    r ==> forall|p: int, k: int, c: int| #![trigger is_edge(old(self).vertex@, k, c, final(order)[p] as int)]
        0 <= p < final(order).len() && is_edge(old(self).vertex@, k, c, final(order)[p] as int) ==> exists|q: int| p < q < final(order).len() && final(order)[q] == k,
    // Failure is reported only if there is a cycle.
    !r ==> cyclic(old(self).vertex@),
//@loops 5
//@top
let ghost v0 = self.vertex@;
let ghost n = self.vertex.len() as int;
let ghost z = Seq::new(self.vertex.len() as nat, |k: int| 0int);
//@loop 0
invariant end_0 == v0.len(), same_graph(self.vertex@, v0), *self == (Net { vertex: self.vertex, ..*old(self) }), order.len() == 0, v0 == old(self).vertex@,
    forall|k: int| 0 <= k < i ==> (#[trigger] self.vertex[k]).unplugged == 0 && !self.vertex[k].ordered,
//@after 0
let ghost v1 = self.vertex@;
proof { assert forall|j: int| total(v1, z, j, 0) == 0 by { } }
//@loop 1
invariant end_1 == v0.len(), same_graph(self.vertex@, v0), *self == (Net { vertex: self.vertex, ..*old(self) }), order.len() == 0, v0 == old(self).vertex@, ports_ok(v0), z.len() == v0.len(),
    n == v0.len(), z == Seq::new(v0.len() as nat, |k: int| 0int), all_inputs(v0, n) <= usize::MAX,
    forall|k: int| 0 <= k < self.vertex.len() ==> (#[trigger] self.vertex[k]).unplugged == total(v0, z, k, i as int) && !self.vertex[k].ordered,
//@in 1
proof { assert(self.vertex[i as int].tick_input == v0[i as int].tick_input); }
//@loop 2
invariant end_2 == v0[i as int].source.len(), i < v0.len(), same_graph(self.vertex@, v0), *self == (Net { vertex: self.vertex, ..*old(self) }), order.len() == 0, v0 == old(self).vertex@, ports_ok(v0), z.len() == v0.len(),
    n == v0.len(), z == Seq::new(v0.len() as nat, |k: int| 0int), all_inputs(v0, n) <= usize::MAX,
    forall|k: int| 0 <= k < self.vertex.len() ==> (#[trigger] self.vertex[k]).unplugged + row(v0[i as int].source@, channel as int, k) == total(v0, z, k, i + 1) && !self.vertex[k].ordered,
//@in 2
proof {
    assert(self.vertex[i as int].source == v0[i as int].source);
    assert forall|k: int| 0 <= k < v0.len() implies #[trigger] row(v0[i as int].source@, channel as int, k) == row(v0[i as int].source@, channel + 1, k) + (if hit(v0[i as int].source@, channel as int, k) { 1nat } else { 0 }) by { }
    assert(v0[i as int].source[channel as int].source is Local ==> v0[i as int].source[channel as int].source->Local_0 < v0.len());
    assert forall|k: int| 0 <= k < v0.len() implies #[trigger] self.vertex[k].unplugged <= usize::MAX - (if hit(v0[i as int].source@, channel as int, k) { 1int } else { 0 }) by {
        lemma_total_le(v0, z, k, i + 1);
        lemma_all_mono(v0, i + 1, n);
        assert(row(v0[i as int].source@, channel as int, k) >= (if hit(v0[i as int].source@, channel as int, k) { 1nat } else { 0 }));
    }
}
//@after 1
let ghost mut u = z;
proof {
    assert forall|j: int| 0 <= j < self.vertex.len() implies #[trigger] self.vertex[j].unplugged == total(self.vertex@, u, j, n) by { lemma_total_same(self.vertex@, v0, u, j, n); }
    assert(order@.no_duplicates());
    assert(inv(self.vertex@, order@, u));
}
//@loop 3
invariant end_3 == v0.len(), n == v0.len(), same_graph(self.vertex@, v0), *self == (Net { vertex: self.vertex, ..*old(self) }), v0 == old(self).vertex@, ports_ok(v0),
    inv(self.vertex@, order@, u),
    // Ordered vertices are completely accounted for.
    forall|k: int| 0 <= k < v0.len() && (#[trigger] self.vertex[k]).ordered ==> u[k] == v0[k].source.len(),
    // Vertices below i are ordered or have consumers that are not.
    forall|k: int| 0 <= k < i && !(#[trigger] self.vertex[k]).ordered ==> self.vertex[k].unplugged > 0,
//@in 3
let ghost va = self.vertex@;
let ghost oa = order@;
let ghost ua = u;
//@post order\.push\(i\);(?=\s*Self)
let ghost vb = self.vertex@;
proof { lemma_ports(v0, va); lemma_push(va, oa, u, vb, i); }
//@post Self::propagate\(self, i, order, Ghost\(u\)\);
proof {
    let w = choose|w: Seq<int>| #[trigger] inv(self.vertex@, order@, w) && advanced(vb, oa.push(i), order@, u, w, i as int, vb[i as int].source.len() as int);
    lemma_called(v0, va, oa, u, vb, self.vertex@, order@, w, i);
    u = w;
}
//@after 3
let ghost vd = self.vertex@;
let ghost od = order@;
proof { lemma_conclude(v0, vd, od, u); lemma_rev(od); }
//@loop 4
invariant end_4 == v0.len(), n == v0.len(), self.vertex@ == vd, vd.len() == n, *self == (Net { vertex: self.vertex, ..*old(self) }), v0 == old(self).vertex@, same_graph(vd, v0),
    order@.no_duplicates(), forall|p: int| 0 <= p < order.len() ==> #[trigger] order[p] < n,
    forall|k: int| 0 <= k < n ==> #[trigger] vd[k].ordered == od.contains(k as usize),
    forall|k: int| 0 <= k < n ==> #[trigger] order@.contains(k as usize) == (vd[k].ordered || k < i),
//@in 4
let ghost oe = order@;
//@inend 4
proof {
    assert forall|k: int| 0 <= k < n implies #[trigger] order@.contains(k as usize) == (vd[k].ordered || k < i + 1) by {
        if oe.contains(k as usize) { let q = oe.index_of(k as usize); assert(order@[q] == k as usize); }
        if k == i && !vd[k].ordered { assert(order@[order@.len() - 1] == k as usize); }
        if order@.contains(k as usize) { let q = order@.index_of(k as usize); if q < oe.len() { assert(oe[q] == k as usize); } }
    }
    assert(oe.contains(i as usize) == vd[i as int].ordered);
}
//@after 4
proof {
    lemma_all_in2(order@, n);
    assert(order@.len() == n);
    lemma_rev(order@);
}
//@end
    #[verifier::external_body]
    fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash
        ensures same_edges(final(self).vertex@, old(self).vertex@), *final(self) == (Net { vertex: final(self).vertex, ..*old(self) }),
            forall|k: int| 0 <= k < old(self).vertex.len() ==> (#[trigger] final(self).vertex[k]).source_vertex == old(self).vertex[k].source_vertex
    { unimplemented!() }
//@fn src/net.rs Net::determine_order
requires ports_ok(old(self).vertex@), small_ports(old(self).vertex@), all_inputs(old(self).vertex@, old(self).vertex.len() as int) <= usize::MAX,
ensures same_edges(final(self).vertex@, old(self).vertex@), *final(self) == (Net { vertex: final(self).vertex, order: final(self).order, error: final(self).error, ..*old(self) }),
    final(self).order is Some, order_ok(old(self).vertex@, final(self).order->Some_0@),
    // Either every vertex runs after the vertices it is connected to, or a cycle is reported and there is one.
    final(self).error is None ==> topo_ok(old(self).vertex@, final(self).order->Some_0@),
    final(self).error is Some ==> cyclic(old(self).vertex@),
    forall|k: int| 0 <= k < final(self).vertex.len() ==> shortcut_ok(#[trigger] final(self).vertex[k]),
//@loops 1
//@top
let ghost v0 = self.vertex@;
//@loop 0
invariant end_0 == v0.len(), v0 == old(self).vertex@, ports_ok(v0), small_ports(v0), *self == (Net { vertex: self.vertex, ..*old(self) }), self.vertex.len() == v0.len(),
    forall|k: int| 0 <= k < v0.len() ==> #[trigger] self.vertex[k] == (Vertex { source_vertex: self.vertex[k].source_vertex, ..v0[k] }),
    forall|k: int| 0 <= k < j ==> shortcut_ok(#[trigger] self.vertex[k]),
//@in 0
proof {
    assert(self.vertex[j as int].source == v0[j as int].source);
    assert(v0[j as int].source.len() == v0[j as int].tick_input.len());
    assert forall|c: int| 0 <= c < v0[j as int].source.len() && (#[trigger] self.vertex[j as int].source[c]).source is Local implies self.vertex[j as int].source[c].source->Local_1 + v0[j as int].source.len() <= usize::MAX by { assert(self.vertex[j as int].source[c] == v0[j as int].source[c]); }
}
//@after 0
let ghost v1 = self.vertex@;
//@post self\.ping\(false, hash\);
let ghost v2 = self.vertex@;
proof {
    assert(same_edges(v1, v0));
    assert(same_edges(v2, v0)) by { assert forall|k: int| 0 <= k < v2.len() implies (#[trigger] v2[k]).source == v0[k].source && v2[k].id == v0[k].id && v2[k].tick_input == v0[k].tick_input
        && v2[k].tick_output == v0[k].tick_output && v2[k].changed == v0[k].changed && v2[k].unit.ins() == v0[k].unit.ins() && v2[k].unit.outs() == v0[k].unit.outs() && v2[k].unit.key() == v0[k].unit.key() by { assert(v1[k].source == v0[k].source); } }
    lemma_all_edges(v2, v0, v0.len() as int);
    lemma_ports_edges(v0, v2);
    assert forall|k: int| 0 <= k < v2.len() implies shortcut_ok(#[trigger] v2[k]) by { lemma_shortcut(v1[k], v2[k]); }
}
//@bottom
proof {
    let v3 = self.vertex@;
    lemma_carry(v2, v0, self.order->Some_0@);
    assert(same_edges(v3, v0));
    assert forall|k: int| 0 <= k < v3.len() implies shortcut_ok(#[trigger] v3[k]) by { lemma_shortcut(v2[k], v3[k]); }
}
//@end
}
pub proof fn lemma_shortcut(a: Vertex, b: Vertex)
    requires shortcut_ok(a), a.source == b.source, a.source_vertex == b.source_vertex
    ensures shortcut_ok(b)
{
    if a.source_vertex is None {
        assert forall|x: usize, q: usize| !(#[trigger] successive(b, x, q)) || q + b.source.len() > usize::MAX by { assert(successive(a, x, q) == successive(b, x, q)); }
    }
}
proof fn lemma_rev(s: Seq<usize>)
    requires s.no_duplicates()
    ensures s.reverse().no_duplicates(), s.reverse().len() == s.len(), forall|p: int| 0 <= p < s.len() ==> #[trigger] s.reverse()[p] == s[s.len() - 1 - p]
{ }
/// A list of distinct numbers below n that has all of them has n of them.
proof fn lemma_all_in2(s: Seq<usize>, n: int)
    requires s.no_duplicates(), 0 <= n <= usize::MAX + 1, forall|p: int| 0 <= p < s.len() ==> #[trigger] s[p] < n, forall|k: int| 0 <= k < n ==> #[trigger] s.contains(k as usize)
    ensures s.len() == n
    decreases n
{
    if n == 0 { if s.len() > 0 { assert(s[0] < 0); } }
    else {
        assert(s.contains((n - 1) as usize));
        let p = s.index_of((n - 1) as usize);
        let t = s.remove(p);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] < n - 1 by {
            let i2 = if i < p { i } else { i + 1 };
            assert(t[i] == s[i2]);
            assert(s[i2] != s[p]);
        }
        assert(t.no_duplicates()) by {
            assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by {
                let a2 = if a < p { a } else { a + 1 };
                let b2 = if b < p { b } else { b + 1 };
                assert(t[a] == s[a2] && t[b] == s[b2]);
            }
        }
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] t.contains(k as usize) by {
            assert(s.contains(k as usize));
            let q = s.index_of(k as usize);
            let q2 = if q < p { q } else { q - 1 };
            assert(t[q2] == s[q]);
        }
        lemma_all_in2(t, n - 1);
    }
}
fn main() {}
}
