// Stand-ins for what Net is built on, and the abstraction its contracts speak about.
//@rewrite node_index\[&((?:[\w.]|\[\w+\])+)\] => node_index.at(&\1) ## HashMap indexing -> at(), the lookup of the stand-in
//@rewrite (\w+(?:\.\w+)*)\.vertex\.swap\( => vec_swap(&mut \1.vertex,  ## slice swap -> vec_swap (assumed contract)
//@rewrite (\w+)\.output_edge\.clone\(\) => edges_clone(&\1.output_edge) ## Vec<Edge>::clone -> edges_clone (assumed contract)
//@rewrite (\w+)\.output_edge\.clone_from\(&(\w+)\.output_edge\); => \1.output_edge = edges_clone(&\2.output_edge); ## clone_from -> edges_clone (assumed contract)
//@rewrite (\w+)\.output_edge\s*\.resize\( => \1.output_edge.resize_edges( ## Vec::resize -> resize_edges (assumed contract)
//@rewrite let id = NodeId::new\(\); => let id = NodeId::fresh(&self.node_index); ## globally unique IDs -> an ID fresh for the map (assumed contract of IdGenerator)
//@rewrite let new_id = NodeId::new\(\); => let new_id = NodeId::fresh2(&self.node_index, &other.node_index); ## globally unique IDs -> an ID fresh for both maps (assumed contract of IdGenerator)
//@rewrite Box::new\(An\(Binop.*?\)\)\)\); => binop_unit()); ## the boxed operator unit -> binop_unit() with two inputs and one output
//@rewrite self\.sample_rate as f64 => rate64(self.sample_rate) ## f32 as f64 -> rate64 (opaque)
//@rewrite DEFAULT_SR as f32 => default_rate() ## the default sample rate constant -> opaque
//@rewrite \bvec!\[0\.0; (\w+)\] => zeros(\1) ## vec![0.0; n] -> zeros(n) (assumed contract)
use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- stand-ins (assumed)
pub fn rt_assert(b: bool) requires b { }
#[verifier::external_body]
pub fn rt_panic() requires false { panic!() }
#[verifier::external_body]
pub struct Unit { x: u64 }
impl Unit {
    pub uninterp spec fn ins(&self) -> nat;
    pub uninterp spec fn outs(&self) -> nat;
    /// Which unit this is.
    pub uninterp spec fn key(&self) -> int;
    /// The sample rate it was last given.
    pub uninterp spec fn rate(&self) -> f64;
    #[verifier::external_body]
    pub fn inputs(&self) -> (r: usize) ensures r == self.ins() { unimplemented!() }
    #[verifier::external_body]
    pub fn outputs(&self) -> (r: usize) ensures r == self.outs() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_sample_rate(&mut self, r: f64)
        ensures final(self).rate() == r, final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs(), final(self).key() == old(self).key() { unimplemented!() }
    #[verifier::external_body]
    pub fn allocate(&mut self)
        ensures final(self).rate() == old(self).rate(), final(self).ins() == old(self).ins(), final(self).outs() == old(self).outs(), final(self).key() == old(self).key() { unimplemented!() }
}
#[verifier::external_body]
pub fn binop_unit() -> (r: Unit) ensures r.ins() == 2, r.outs() == 1 { unimplemented!() }
pub uninterp spec fn r64(x: f32) -> f64;
#[verifier::external_body]
pub fn rate64(x: f32) -> (r: f64) ensures r == r64(x) { x as f64 }
#[verifier::external_body]
pub fn default_rate() -> f32 { 44100.0 }
#[verifier::external_body]
pub struct BufferVec { x: u64 }
impl BufferVec {
    pub uninterp spec fn chan(&self) -> nat;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: BufferVec) ensures r.chan() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn channels(&self) -> (r: usize) ensures r == self.chan() { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize) ensures final(self).chan() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: BufferVec) ensures r.chan() == self.chan() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl HashMap<NodeId, NodeIndex> {
    pub uninterp spec fn view(&self) -> Map<NodeId, NodeIndex>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<NodeId, NodeIndex>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, k: &NodeId) -> (r: NodeIndex) requires self@.contains_key(*k) ensures r == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: NodeId, v: NodeIndex) -> Option<NodeIndex> ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &NodeId) -> Option<NodeIndex> ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &NodeId) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Sender<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Receiver<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body]
pub struct Setting { x: u64 }
//@item src/realnet.rs enum NetMessage
//@item src/realnet.rs enum NetReturn
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item src/sequencer.rs enum Fade
//@item src/net.rs struct NodeEdit
impl NodeEdit {
    #[verifier::external_body]
    pub fn default() -> (r: NodeEdit) ensures r.unit is None { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item src/net.rs enum NetError
#[verifier::external_body]
pub fn zeros(n: usize) -> (r: Vec<f32>) ensures r.len() == n { vec![0.0; n] }
#[verifier::external_body]
pub fn vec_swap(v: &mut Vec<Vertex>, i: usize, j: usize)
    requires i < old(v).len(), j < old(v).len()
    ensures final(v)@ == old(v)@.update(i as int, old(v)@[j as int]).update(j as int, old(v)@[i as int]) { v.swap(i, j) }
#[verifier::external_body]
pub fn edges_clone(v: &Vec<Edge>) -> (r: Vec<Edge>) ensures r@ == v@ { v.clone() }
pub trait EdgesExt {
    spec fn edges(&self) -> Seq<Edge>;
    fn resize_edges(&mut self, n: usize, e: Edge)
        ensures final(self).edges().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(self).edges()[i] == (if i < old(self).edges().len() { old(self).edges()[i] } else { e });
}
impl EdgesExt for Vec<Edge> {
    open spec fn edges(&self) -> Seq<Edge> { self@ }
    #[verifier::external_body]
    fn resize_edges(&mut self, n: usize, e: Edge) { self.resize(n, e) }
}

// ---------------------------------------------------------------- the data, as it is in /repo
//@item src/net.rs type NodeIndex
//@item src/net.rs type PortIndex
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item src/net.rs struct NodeId
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item src/net.rs enum Port
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
//@item src/net.rs enum Source
#[derive(Clone, Copy)]
//@item src/net.rs struct Edge
//@item src/vertex.rs struct Vertex
//@item src/net.rs struct Net

impl NodeId {
    #[verifier::external_body]
    pub fn fresh(m: &HashMap<NodeId, NodeIndex>) -> (r: NodeId) ensures !m@.contains_key(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn fresh2(m: &HashMap<NodeId, NodeIndex>, n: &HashMap<NodeId, NodeIndex>) -> (r: NodeId) ensures !m@.contains_key(r), !n@.contains_key(r) { unimplemented!() }
}
// ---------------------------------------------------------------- specification
pub open spec fn v_ok(v: Vertex) -> bool {
    &&& v.source.len() == v.unit.ins() && v.tick_input.len() == v.unit.ins()
    &&& v.tick_output.len() == v.unit.outs()
}
/// Ports that a source may name in a network of n vertices.
pub open spec fn p_ok(vs: Seq<Vertex>, ins: nat, p: Port) -> bool {
    match p {
        Port::Zero => true,
        Port::Global(g) => g < ins,
        Port::Local(a, q) => a < vs.len() && q < vs[a as int].unit.outs(),
    }
}
pub open spec fn not_self(p: Port, i: int) -> bool {
    match p { Port::Local(a, _) => a != i, _ => true }
}
/// Well-formed network: the index map is the exact inverse of the vertex IDs,
/// every connection names existing ports, there are no self connections.
impl Net {
    pub open spec fn ins(&self) -> nat { self.input.chan() }
    pub open spec fn outs(&self) -> nat { self.output.chan() }
    pub open spec fn ids_ok(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.vertex.len() ==> self.node_index@.contains_key(#[trigger] self.vertex[i].id) && self.node_index@[self.vertex[i].id] == i
        &&& forall|d: NodeId| #[trigger] self.node_index@.contains_key(d) ==> self.node_index@[d] < self.vertex.len() && self.vertex[self.node_index@[d] as int].id == d
    }
    pub open spec fn edges_ok(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.vertex.len() ==> v_ok(#[trigger] self.vertex[i])
        &&& forall|i: int, c: int| 0 <= i < self.vertex.len() && 0 <= c < self.vertex[i].source.len() ==>
            p_ok(self.vertex@, self.ins(), (#[trigger] self.vertex[i].source[c]).source) && not_self(self.vertex[i].source[c].source, i)
                && self.vertex[i].source[c].target == Port::Local(i as usize, c as usize)
        &&& self.output_edge.len() == self.outs()
        &&& forall|c: int| 0 <= c < self.output_edge.len() ==>
            p_ok(self.vertex@, self.ins(), (#[trigger] self.output_edge[c]).source) && self.output_edge[c].target == Port::Global(c as usize)
    }
    pub open spec fn wf(&self) -> bool { self.ids_ok() && self.edges_ok() }
    // The abstract graph: nodes by ID, the source of each input and of each output.
    pub open spec fn has(&self, d: NodeId) -> bool { self.node_index@.contains_key(d) }
    pub open spec fn unit_of(&self, d: NodeId) -> Unit { self.vertex[self.node_index@[d] as int].unit }
    pub open spec fn port(&self, p: Port) -> Source {
        match p {
            Port::Zero => Source::Zero,
            Port::Global(g) => Source::Global(g),
            Port::Local(a, q) => Source::Local(self.vertex[a as int].id, q),
        }
    }
    pub open spec fn src(&self, d: NodeId, c: int) -> Source { self.port(self.vertex[self.node_index@[d] as int].source[c].source) }
    pub open spec fn osrc(&self, c: int) -> Source { self.port(self.output_edge[c].source) }
    pub open spec fn source_ok(&self, s: Source) -> bool {
        match s {
            Source::Zero => true,
            Source::Global(g) => g < self.ins(),
            Source::Local(d, q) => self.has(d) && q < self.unit_of(d).outs(),
        }
    }
    /// Same nodes with the same units, same arity.
    pub open spec fn same_nodes(&self, o: &Net) -> bool {
        &&& self.ins() == o.ins() && self.outs() == o.outs() && self.vertex.len() == o.vertex.len()
        &&& forall|d: NodeId| #![trigger self.has(d)] #![trigger o.has(d)] self.has(d) == o.has(d)
        &&& forall|d: NodeId| #![trigger o.has(d)] #![trigger self.unit_of(d)] #![trigger o.unit_of(d)] o.has(d) ==> self.unit_of(d) == o.unit_of(d)
    }
    /// Sources of all inputs are unchanged except possibly those of node t for channels in f..g.
    pub open spec fn same_src_but(&self, o: &Net, t: NodeId, f: int, g: int) -> bool {
        forall|d: NodeId, c: int| #![trigger self.src(d, c)] o.has(d) && 0 <= c < o.unit_of(d).ins() && !(d == t && f <= c < g) ==> self.src(d, c) == o.src(d, c)
    }
    pub open spec fn same_src(&self, o: &Net) -> bool {
        forall|d: NodeId, c: int| #![trigger self.src(d, c)] o.has(d) && 0 <= c < o.unit_of(d).ins() ==> self.src(d, c) == o.src(d, c)
    }
    pub open spec fn same_osrc_but(&self, o: &Net, f: int, g: int) -> bool {
        forall|c: int| #![trigger self.osrc(c)] 0 <= c < o.outs() && !(f <= c < g) ==> self.osrc(c) == o.osrc(c)
    }
    pub open spec fn same_osrc(&self, o: &Net) -> bool {
        forall|c: int| #![trigger self.osrc(c)] 0 <= c < o.outs() ==> self.osrc(c) == o.osrc(c)
    }
}
//@fn src/net.rs -::edge
//@ret r
ensures r.source == source, r.target == target,
//@end
impl Vertex {
//@fn src/vertex.rs Vertex::new
//@ret r
ensures v_ok(r), r.unit == unit, r.id == id, r.source_vertex is None, r.changed == 0,
    forall|c: int| 0 <= c < r.source.len() ==> #[trigger] r.source[c] == (Edge { source: Port::Zero, target: Port::Local(index, c as usize) }),
//@loop 0
invariant end_0 == inputs, inputs == unit.ins(), outputs == unit.outs(), vertex.source.len() == i, vertex.unit == unit, vertex.id == id, vertex.source_vertex is None, vertex.changed == 0,
    vertex.tick_input.len() == inputs, vertex.tick_output.len() == outputs,
    forall|c: int| 0 <= c < i ==> #[trigger] vertex.source[c] == (Edge { source: Port::Zero, target: Port::Local(index, c as usize) }),
//@end
//@fn src/vertex.rs Vertex::inputs
//@ret r
ensures r == self.tick_input.len(),
//@end
//@fn src/vertex.rs Vertex::outputs
//@ret r
ensures r == self.tick_output.len(),
//@end
}
