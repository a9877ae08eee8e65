//! Bounded contracts of `Net`: every history of edits and compositions against a reference graph.
use crate::cell::*;
use crate::gen::*;
use crate::nzoo::{run_blocks, run_ticks};
use fundsp::audiounit::AudioUnit;
use fundsp::net::*;
use fundsp::prelude::Fade;
use fundsp::setting::*;
use fvh::nd::{any, assume, below, same};

/// Reference source of an input: node number, network input or zero.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Src {
    Node(u64, usize),
    Input(usize),
    Zero,
}
#[derive(Clone, Debug)]
enum Kind {
    Cell(Cell),
    Add,
    Sub,
    Mul,
    Const(f32),
}
#[derive(Clone, Debug)]
struct Nd {
    key: u64,
    id: Option<NodeId>,
    kind: Kind,
    src: Vec<Src>,
    /// Replaced, reset or given another sample rate since the last commit.
    changed: bool,
}
impl Nd {
    fn ins(&self) -> usize {
        match &self.kind { Kind::Cell(c) => c.ins, Kind::Const(_) => 0, _ => 2 }
    }
    fn outs(&self) -> usize {
        match &self.kind { Kind::Cell(c) => c.outs, _ => 1 }
    }
}
#[derive(Clone, Debug)]
pub struct Model {
    ins: usize,
    out: Vec<Src>,
    nodes: Vec<Nd>,
    rate: f64,
}
thread_local! { static KEY: std::cell::Cell<u64> = std::cell::Cell::new(0); }
fn key() -> u64 {
    KEY.with(|k| { k.set(k.get() + 1); k.get() })
}
impl Model {
    fn new(ins: usize, outs: usize) -> Self {
        Model { ins, out: vec![Src::Zero; outs], nodes: vec![], rate: 44100.0 }
    }
    fn at(&self, key: u64) -> &Nd {
        self.nodes.iter().find(|n| n.key == key).unwrap()
    }
    fn by(&mut self, key: u64) -> &mut Nd {
        self.nodes.iter_mut().find(|n| n.key == key).unwrap()
    }
    fn key_of(&self, id: NodeId) -> u64 {
        self.nodes.iter().find(|n| n.id == Some(id)).unwrap().key
    }
    fn push(&mut self, id: Option<NodeId>, kind: Kind) -> u64 {
        let k = key();
        let mut n = Nd { key: k, id, kind, src: vec![], changed: true };
        n.src = vec![Src::Zero; n.ins()];
        if let Kind::Cell(c) = &mut n.kind { c.rate = self.rate; }
        self.nodes.push(n);
        k
    }
    /// Fresh keys, for combining a network with its own clone.
    fn rekey(&mut self) {
        let map: Vec<(u64, u64)> = self.nodes.iter().map(|n| (n.key, key())).collect();
        let f = |k: u64| map.iter().find(|m| m.0 == k).unwrap().1;
        for n in self.nodes.iter_mut() {
            n.key = f(n.key);
            for s in n.src.iter_mut() { if let Src::Node(k, _) = s { *k = f(*k); } }
        }
        for s in self.out.iter_mut() { if let Src::Node(k, _) = s { *k = f(*k); } }
    }
    /// Dataflow order, or nothing if there is a cycle.
    fn order(&self) -> Option<Vec<u64>> {
        let mut done: Vec<u64> = vec![];
        loop {
            let next = self.nodes.iter().find(|n| {
                !done.contains(&n.key) && n.src.iter().all(|s| match s { Src::Node(k, _) => done.contains(k), _ => true })
            });
            match next {
                Some(n) => done.push(n.key),
                None => return if done.len() == self.nodes.len() { Some(done) } else { None },
            }
        }
    }
    fn tick(&mut self, x: &[f32]) -> Vec<f32> {
        let order = self.order().unwrap();
        let mut val: Vec<(u64, Vec<f32>)> = vec![];
        let get = |val: &Vec<(u64, Vec<f32>)>, s: Src| match s {
            Src::Zero => 0.0,
            Src::Input(i) => x[i],
            Src::Node(k, p) => val.iter().find(|v| v.0 == k).unwrap().1[p],
        };
        for k in order {
            let n = self.by(k);
            let i: Vec<f32> = n.src.iter().map(|s| get(&val, *s)).collect();
            let mut o = vec![0.0; n.outs()];
            match &mut n.kind {
                Kind::Cell(c) => c.step(&i, &mut o),
                Kind::Add => o[0] = i[0] + i[1],
                Kind::Sub => o[0] = i[0] - i[1],
                Kind::Mul => o[0] = i[0] * i[1],
                Kind::Const(v) => o[0] = *v,
            }
            val.push((k, o));
        }
        self.out.clone().iter().map(|s| get(&val, *s)).collect()
    }
    fn ticks(&mut self, x: &[Vec<f32>], a: usize, b: usize) -> Vec<Vec<f32>> {
        let mut y = vec![vec![]; self.out.len()];
        for i in a..b {
            let f: Vec<f32> = x.iter().map(|c| c[i]).collect();
            for (c, v) in self.tick(&f).into_iter().enumerate() { y[c].push(v); }
        }
        y
    }
}
fn ext(m: &Model, s: Src) -> Source {
    match s {
        Src::Zero => Source::Zero,
        Src::Input(i) => Source::Global(i),
        Src::Node(k, p) => Source::Local(m.at(k).id.unwrap(), p),
    }
}
/// The network has exactly the structure of the reference.
fn structure(net: &mut Net, m: &Model) {
    net.check();
    assert!(net.size() == m.nodes.len(), "network has {} nodes instead of {}", net.size(), m.nodes.len());
    assert!(net.inputs() == m.ins && net.outputs() == m.out.len(), "arity of the network changed");
    assert!(net.ids().count() == m.nodes.len(), "number of IDs");
    for n in &m.nodes {
        let id = n.id.unwrap();
        assert!(net.contains(id) && net.ids().any(|x| *x == id), "a node is not contained");
        assert!(net.inputs_in(id) == n.ins() && net.outputs_in(id) == n.outs(), "arity of a node");
        assert!(net.node(id).inputs() == n.ins() && net.node(id).outputs() == n.outs(), "another unit behind the ID");
        for c in 0..n.ins() {
            assert!(net.source(id, c) == ext(m, n.src[c]), "source of a node input: {:?} instead of {:?}", net.source(id, c), ext(m, n.src[c]));
        }
    }
    for c in 0..m.out.len() {
        assert!(net.output_source(c) == ext(m, m.out[c]), "source of an output: {:?} instead of {:?}", net.output_source(c), ext(m, m.out[c]));
    }
    let cyclic = m.order().is_none();
    assert!(net.error().is_some() == cyclic, "cycle error {:?} where cycles are {}", net.error(), cyclic);
}
fn signal(chs: usize, n: usize, s: &mut Stream) -> Vec<Vec<f32>> {
    (0..chs).map(|_| (0..n).map(|_| s.upto(200) as f32 - 100.0).collect()).collect()
}
/// The unit computes what the reference computes, in ticks and blocks in any mixture.
fn meaning(net: &mut dyn AudioUnit, m: &mut Model, s: &mut Stream) {
    if m.order().is_none() { return; }
    let n = 1 + s.upto(80);
    let x = signal(m.ins, n, s);
    let k = s.upto(n + 1);
    let mut got = if s.upto(2) == 0 { run_ticks(net, &x, 0, k) } else { run_blocks(net, &x, 0, k, s) };
    let rest = if s.upto(2) == 0 { run_ticks(net, &x, k, n) } else { run_blocks(net, &x, k, n, s) };
    for c in 0..got.len() { got[c].extend_from_slice(&rest[c]); }
    let want = m.ticks(&x, 0, n);
    for c in 0..want.len() {
        for i in 0..n {
            assert!(same(got[c][i], want[c][i]), "output {} sample {}: {} instead of {}", c, i, got[c][i], want[c][i]);
        }
    }
}
fn some(m: &Model, s: &mut Stream) -> Option<u64> {
    if m.nodes.is_empty() { None } else { Some(m.nodes[s.upto(m.nodes.len())].key) }
}
fn random_src(m: &Model, s: &mut Stream, not: Option<u64>) -> Src {
    match s.upto(4) {
        0 => Src::Zero,
        1 if m.ins > 0 => Src::Input(s.upto(m.ins)),
        _ => match some(m, s) {
            Some(k) if Some(k) != not && m.at(k).outs() > 0 => Src::Node(k, s.upto(m.at(k).outs())),
            _ => Src::Zero,
        },
    }
}
fn new_cell(s: &mut Stream) -> Cell {
    let (i, o) = (s.upto(4), s.upto(4));
    cell(i, o, s.upto(1000) as i64)
}
/// One random edit, applied to both.
fn edit(net: &mut Net, m: &mut Model, s: &mut Stream, front: bool) {
    let id = |m: &Model, k: u64| m.at(k).id.unwrap();
    match s.upto(if front { 17 } else { 19 }) {
        0 | 1 => {
            if m.nodes.len() >= 7 { return; }
            let c = new_cell(s);
            let i = net.push(Box::new(c.clone()));
            m.push(Some(i), Kind::Cell(c));
        }
        2 => if let Some(k) = some(m, s) {
            let link = s.upto(2) == 0 && m.at(k).ins() == m.at(k).outs();
            let u = if link { net.remove_link(id(m, k)) } else { net.remove(id(m, k)) };
            assert!(u.inputs() == m.at(k).ins() && u.outputs() == m.at(k).outs(), "another unit was removed");
            let gone = m.at(k).clone();
            m.nodes.retain(|n| n.key != k);
            let fix = |x: &mut Src, me: Option<u64>| if let Src::Node(j, p) = *x {
                if j == k {
                    *x = if link { gone.src[p] } else { Src::Zero };
                    // Self connections are prohibited.
                    if let (Src::Node(a, _), Some(b)) = (*x, me) { if a == b { *x = Src::Zero; } }
                }
            };
            for n in m.nodes.iter_mut() { let me = Some(n.key); for x in n.src.iter_mut() { fix(x, me); } }
            for x in m.out.iter_mut() { fix(x, None); }
        },
        3 => if let Some(k) = some(m, s) {
            let c = cell(m.at(k).ins(), m.at(k).outs(), s.upto(1000) as i64);
            let old = net.replace(id(m, k), Box::new(c.clone()));
            assert!(old.inputs() == c.ins && old.outputs() == c.outs);
            let rate = m.rate;
            let n = m.by(k);
            n.kind = Kind::Cell(Cell { rate, ..c });
            n.changed = true;
        },
        4 | 5 => if let (Some(a), Some(b)) = (some(m, s), some(m, s)) {
            if a == b || m.at(a).outs() == 0 || m.at(b).ins() == 0 { return; }
            let (p, q) = (s.upto(m.at(a).outs()), s.upto(m.at(b).ins()));
            net.connect(id(m, a), p, id(m, b), q);
            m.by(b).src[q] = Src::Node(a, p);
        },
        6 => if let Some(k) = some(m, s) {
            if m.at(k).ins() == 0 { return; }
            let p = s.upto(m.at(k).ins());
            net.disconnect(id(m, k), p);
            m.by(k).src[p] = Src::Zero;
        },
        7 => if let Some(k) = some(m, s) {
            if m.at(k).ins() == 0 || m.ins == 0 { return; }
            let (g, p) = (s.upto(m.ins), s.upto(m.at(k).ins()));
            net.connect_input(g, id(m, k), p);
            m.by(k).src[p] = Src::Input(g);
        },
        8 => if let Some(k) = some(m, s) {
            net.pipe_input(id(m, k));
            let g = m.ins;
            for (i, x) in m.by(k).src.iter_mut().enumerate() { *x = if g > 0 { Src::Input(i % g) } else { Src::Zero }; }
        },
        9 => if let Some(k) = some(m, s) {
            if m.at(k).outs() == 0 || m.out.is_empty() { return; }
            let (p, o) = (s.upto(m.at(k).outs()), s.upto(m.out.len()));
            net.connect_output(id(m, k), p, o);
            m.out[o] = Src::Node(k, p);
        },
        10 => if !m.out.is_empty() {
            let o = s.upto(m.out.len());
            net.disconnect_output(o);
            m.out[o] = Src::Zero;
        },
        11 => if let Some(k) = some(m, s) {
            net.pipe_output(id(m, k));
            let n = m.at(k).outs();
            for (i, x) in m.out.iter_mut().enumerate() { *x = if n > 0 { Src::Node(k, i % n) } else { Src::Zero }; }
        },
        12 => if m.ins > 0 && !m.out.is_empty() {
            let (i, o) = (s.upto(m.ins), s.upto(m.out.len()));
            net.pass_through(i, o);
            m.out[o] = Src::Input(i);
        },
        13 => if let (Some(a), Some(b)) = (some(m, s), some(m, s)) {
            net.pipe_all(id(m, a), id(m, b));
            if a == b { return; }
            let n = m.at(a).outs();
            for (i, x) in m.by(b).src.iter_mut().enumerate() { *x = if n > 0 { Src::Node(a, i % n) } else { Src::Zero }; }
        },
        14 => {
            if m.nodes.len() >= 7 { return; }
            let c = new_cell(s);
            let i = net.chain(Box::new(c.clone()));
            let k = m.push(Some(i), Kind::Cell(c.clone()));
            let first = m.nodes.len() == 1;
            let (g, out) = (m.ins, m.out.clone());
            for (i, x) in m.by(k).src.iter_mut().enumerate() {
                *x = if first { if g > 0 { Src::Input(i % g) } else { Src::Zero } } else if !out.is_empty() { out[i % out.len()] } else { Src::Zero };
            }
            for (i, x) in m.out.iter_mut().enumerate() { *x = if c.outs > 0 { Src::Node(k, i % c.outs) } else { Src::Zero }; }
        }
        15 => if let Some(k) = some(m, s) {
            if m.at(k).ins() == 0 { return; }
            let (p, x) = (s.upto(m.at(k).ins()), random_src(m, s, Some(k)));
            net.set_source(id(m, k), p, ext(m, x));
            m.by(k).src[p] = x;
        },
        16 => if !m.out.is_empty() {
            let (o, x) = (s.upto(m.out.len()), random_src(m, s, None));
            net.set_output_source(o, ext(m, x));
            m.out[o] = x;
        },
        17 => if let Some(k) = some(m, s) {
            let v = s.upto(50) as f32;
            net.set(Setting::value(v).node(id(m, k)));
            if let Kind::Cell(c) = &mut m.by(k).kind { c.param = v; }
        },
        _ => {
            if s.upto(3) == 0 {
                net.reset();
                for n in m.nodes.iter_mut() { if let Kind::Cell(c) = &mut n.kind { c.count = 0; } }
            } else {
                let r = [44100.0, 22050.0, 48000.0][s.upto(3)];
                net.set_sample_rate(r);
                m.rate = r;
                for n in m.nodes.iter_mut() { if let Kind::Cell(c) = &mut n.kind { c.rate = r; } }
            }
        }
    }
}
fn fresh(s: &mut Stream, ins: usize, outs: usize) -> (Net, Model) {
    let _ = s;
    (Net::new(ins, outs), Model::new(ins, outs))
}
/// Acyclic random network: rewires until there is no cycle.
fn random(s: &mut Stream, ins: usize, outs: usize, edits: usize) -> (Net, Model) {
    let (mut net, mut m) = fresh(s, ins, outs);
    let (c0, o0) = (net.clone(), m.clone());
    let (mut gn, mut gm) = (c0, o0);
    for _ in 0..edits {
        edit(&mut net, &mut m, s, true);
        if m.order().is_some() {
            gn = net.clone();
            gm = m.clone();
        }
    }
    (gn, gm)
}
/// Histories of edits with evaluation in between.
fn n06_edits() {
    let mut s = stream();
    let (i, o) = (s.upto(4), s.upto(4));
    let (mut net, mut m) = fresh(&mut s, i, o);
    let steps = 1 + s.upto(40);
    let every = 1 + s.upto(4);
    for k in 0..steps {
        edit(&mut net, &mut m, &mut s, false);
        if s.upto(3) > 0 { structure(&mut net, &m); }
        if k % every == 0 { meaning(&mut net, &mut m, &mut s); }
        if s.upto(8) == 0 {
            let mut other = net.clone();
            let mut om = m.clone();
            meaning(&mut other, &mut om, &mut s);
        }
    }
    structure(&mut net, &m);
    meaning(&mut net, &mut m, &mut s);
}
/// The three ways to denote a node.
fn adopt(m: &mut Model, net: &Net) {
    // IDs of nodes made by the library are found through the structure.
    for o in 0..m.out.len() { adopt_src(m, m.out[o], net.output_source(o)); }
    let mut again = true;
    while again {
        again = false;
        let keys: Vec<u64> = m.nodes.iter().filter(|n| n.id.is_some()).map(|n| n.key).collect();
        for k in keys {
            for c in 0..m.at(k).ins() {
                let (a, b) = (m.at(k).src[c], net.source(m.at(k).id.unwrap(), c));
                again |= adopt_src(m, a, b);
            }
        }
    }
}
fn adopt_src(m: &mut Model, a: Src, b: Source) -> bool {
    if let (Src::Node(k, _), Source::Local(id, _)) = (a, b) {
        if m.at(k).id.is_none() {
            m.by(k).id = Some(id);
            return true;
        }
    }
    false
}
fn shift_out(m: &Model, by: usize) -> Vec<Src> {
    m.out.iter().map(|s| match s { Src::Input(i) => Src::Input(i + by), x => *x }).collect()
}
fn shift_nodes(m: &Model, by: usize) -> Vec<Nd> {
    m.nodes.iter().map(|n| { let mut n = n.clone(); for s in n.src.iter_mut() { if let Src::Input(i) = s { *i += by; } } n }).collect()
}
/// `shared`: both operands have the same inputs.
fn m_bin(a: &Model, b: &Model, kind: Kind, shared: bool) -> Model {
    let mut r = a.clone();
    let by = if shared { 0 } else { a.ins };
    r.ins = if shared { a.ins } else { a.ins + b.ins };
    r.nodes.extend(shift_nodes(b, by));
    let bo = shift_out(b, by);
    for i in 0..a.out.len() {
        let k = r.push(None, kind.clone());
        r.by(k).src = vec![a.out[i], bo[i]];
        r.out[i] = Src::Node(k, 0);
    }
    r
}
fn m_pipe(a: &Model, b: &Model) -> Model {
    let mut m = a.clone();
    for mut n in b.nodes.clone() {
        for x in n.src.iter_mut() { if let Src::Input(i) = *x { *x = a.out[i]; } }
        m.nodes.push(n);
    }
    m.out = b.out.iter().map(|x| match x { Src::Input(i) => a.out[*i], x => *x }).collect();
    m
}
/// Composition of networks means composition of what they compute; clones of a network may be combined with it.
fn n07_compose() {
    let mut s = stream();
    let (i, o) = (s.upto(3), s.upto(4));
    let e = s.upto(14);
    let (mut net, mut m) = random(&mut s, i, o, e);
    for _ in 0..1 + s.upto(3) {
        if m.nodes.len() > 24 || m.ins > 8 || m.out.len() > 8 { break; }
        let op = s.upto(11);
        // An operand of fitting arity: another network or a clone of this one.
        let (bi, bo) = match op {
            1 => (m.ins, s.upto(3)),
            2 => (s.upto(3), s.upto(3)),
            3 => (m.out.len(), s.upto(3)),
            4 => (m.ins, m.out.len()),
            5..=7 => (s.upto(3), m.out.len()),
            _ => (0, 0),
        };
        let e = s.upto(10);
        let (b, mut bm) = if bi == m.ins && bo == m.out.len() && s.upto(2) == 0 { (net.clone(), m.clone()) } else { random(&mut s, bi, bo, e) };
        let own: Vec<NodeId> = m.nodes.iter().filter_map(|n| n.id).collect();
        bm.rekey();
        for n in bm.nodes.iter_mut() {
            if n.id.map_or(false, |x| own.contains(&x)) { n.id = None; }
        }
        let a = m.clone();
        match op {
            0 => {
                net = !net;
                m.out.truncate(m.ins);
                for i in m.out.len()..m.ins { m.out.push(Src::Input(i)); }
            }
            1 => {
                net = net ^ b;
                m.nodes.extend(bm.nodes.clone());
                m.out.extend(bm.out.clone());
            }
            2 => {
                net = net | b;
                m.nodes.extend(shift_nodes(&bm, a.ins));
                m.out.extend(shift_out(&bm, a.ins));
                m.ins += bm.ins;
            }
            3 => {
                net = net >> b;
                m = m_pipe(&a, &bm);
            }
            4 => { net = net & b; m = m_bin(&a, &bm, Kind::Add, true); }
            5 => { net = net + b; m = m_bin(&a, &bm, Kind::Add, false); }
            6 => { net = net - b; m = m_bin(&a, &bm, Kind::Sub, false); }
            7 => { net = net * b; m = m_bin(&a, &bm, Kind::Mul, false); }
            _ => {
                // Constants of the same width.
                let v = s.upto(5) as f32;
                let w = a.out.len();
                let mut c = Model::new(0, w);
                let k = c.push(None, Kind::Const(if op == 10 { 0.0 } else { v }));
                c.out = vec![Src::Node(k, 0); w];
                let first = s.upto(2) == 0;
                match op {
                    8 => { let kind = [Kind::Add, Kind::Sub, Kind::Mul][s.upto(3)].clone();
                        net = match (&kind, first) {
                            (Kind::Add, true) => v + net, (Kind::Add, _) => net + v,
                            (Kind::Sub, true) => v - net, (Kind::Sub, _) => net - v,
                            (_, true) => v * net, _ => net * v };
                        m = if first { m_bin(&c, &a, kind, false) } else { m_bin(&a, &c, kind, false) }; }
                    9 => { net = v + net; m = m_bin(&c, &a, Kind::Add, false); }
                    _ => { net = -net; m = m_bin(&c, &a, Kind::Sub, false); }
                }
            }
        }
        m.rate = 44100.0;
        net.check();
        assert!(net.size() == m.nodes.len(), "composition has {} nodes instead of {}", net.size(), m.nodes.len());
        adopt(&mut m, &net);
        meaning(&mut net, &mut m, &mut s);
        if m.nodes.iter().all(|n| n.id.is_some()) { structure(&mut net, &m); }
        let mut ids: Vec<u64> = net.ids().map(|x| x.value()).collect();
        ids.sort();
        ids.dedup();
        assert!(ids.len() == net.size(), "IDs are not unique");
    }
    meaning(&mut net, &mut m, &mut s);
}
/// A frontend and its backend: edits become audible exactly at commits, and unchanged units keep their state.
fn n08_commit() {
    let mut s = stream();
    let (i, o) = (s.upto(3), 1 + s.upto(3));
    let e = s.upto(12);
    let (mut net, mut m) = random(&mut s, i, o, e);
    if s.upto(2) == 0 { meaning(&mut net, &mut m, &mut s); }
    for n in m.nodes.iter_mut() { n.changed = false; }
    let mut back = net.backend();
    let mut b = m.clone();
    let adopt_commit = |m: &mut Model, b: &mut Model| {
        let mut c = m.clone();
        for n in c.nodes.iter_mut() {
            if !n.changed { if let Some(o) = b.nodes.iter().find(|o| o.key == n.key) { n.kind = o.kind.clone(); } }
        }
        for n in m.nodes.iter_mut() { n.changed = false; }
        *b = c;
    };
    for _ in 0..1 + s.upto(12) {
        match s.upto(9) {
            0 | 1 => for _ in 0..1 + s.upto(4) { edit(&mut net, &mut m, &mut s, true); },
            8 => {
                // Crossfades, then other edits, then a commit; judged once the fades are over.
                let mut fades: Vec<(u64, Cell)> = vec![];
                for _ in 0..1 + s.upto(2) {
                    let Some(k) = some(&m, &mut s) else { continue };
                    if fades.iter().any(|f| f.0 == k) || !matches!(m.at(k).kind, Kind::Cell(_)) { continue; }
                    let c = cell(m.at(k).ins(), m.at(k).outs(), s.upto(1000) as i64);
                    let fade = if s.upto(2) == 0 { Fade::Power } else { Fade::Smooth };
                    net.crossfade(m.at(k).id.unwrap(), fade, (s.upto(60) as f64 / m.rate) as f32, Box::new(c.clone()));
                    fades.push((k, Cell { rate: m.rate, ..c }));
                }
                let before = m.clone();
                for _ in 0..s.upto(5) { edit(&mut net, &mut m, &mut s, true); }
                // A node that is given another unit directly as well: not judged here.
                let kind = |m: &Model, k: u64| m.nodes.iter().find(|n| n.key == k).map(|n| format!("{:?}", n.kind));
                if fades.iter().any(|f| kind(&m, f.0).is_some() && kind(&m, f.0) != kind(&before, f.0)) { return; }
                if m.order().is_none() { return; }
                net.commit();
                adopt_commit(&mut m, &mut b);
                for (k, c) in fades {
                    if m.nodes.iter().any(|n| n.key == k) {
                        m.by(k).kind = Kind::Cell(c.clone());
                        b.by(k).kind = Kind::Cell(c);
                    }
                }
                let x = signal(b.ins, 130, &mut s);
                if s.upto(2) == 0 { run_ticks(&mut back, &x, 0, 130); } else { run_blocks(&mut back, &x, 0, 130, &mut s); }
                b.ticks(&x, 0, 130);
            }
            7 => {
                // A frontend composed with another network remains the frontend.
                if m.nodes.len() > 12 || m.rate != 44100.0 { continue; }
                let before = s.upto(2) == 0;
                let w = if before { i } else { o };
                let e = s.upto(6);
                let (other, om) = random(&mut s, w, w, e);
                let mine = core::mem::replace(&mut net, Net::new(0, 0));
                if before {
                    net = other >> mine;
                    m = m_pipe(&om, &m);
                } else {
                    net = mine >> other;
                    m = m_pipe(&m, &om);
                }
                assert!(net.has_backend(), "the frontend was lost in a composition");
                structure(&mut net, &m);
            }
            2 | 3 => {
                if m.order().is_none() { continue; }
                net.commit();
                adopt_commit(&mut m, &mut b);
            }
            4 => {
                // Settings pass through the frontend right away.
                if let Some(k) = some(&m, &mut s) {
                    let v = s.upto(50) as f32;
                    net.set(Setting::value(v).node(m.at(k).id.unwrap()));
                    if let Kind::Cell(c) = &mut m.by(k).kind { c.param = v; }
                    if b.nodes.iter().any(|n| n.key == k) { if let Kind::Cell(c) = &mut b.by(k).kind { c.param = v; } }
                }
            }
            5 => if s.upto(3) == 0 {
                net.reset();
                for n in m.nodes.iter_mut() { n.changed = true; if let Kind::Cell(c) = &mut n.kind { c.count = 0; } }
            } else if s.upto(2) == 0 {
                let r = [44100.0, 22050.0, 48000.0][s.upto(3)];
                net.set_sample_rate(r);
                if r != m.rate {
                    m.rate = r;
                    for n in m.nodes.iter_mut() { n.changed = true; if let Kind::Cell(c) = &mut n.kind { c.rate = r; } }
                }
            },
            _ => meaning(&mut back, &mut b, &mut s),
        }
        if s.upto(2) == 0 { meaning(&mut back, &mut b, &mut s); }
    }
    net.check();
    meaning(&mut back, &mut b, &mut s);
}
fn curve(f: &Fade, x: f64) -> f64 {
    let x = x.clamp(0.0, 1.0);
    match f { Fade::Power => (x * std::f64::consts::FRAC_PI_2).sin(), Fade::Smooth => x * x * x * (x * (x * 6.0 - 15.0) + 10.0) }
}
/// Crossfades: a weighted mixture for the fade time and then the new unit alone; in a network and across a commit.
fn n08_crossfade() {
    let mut s = stream();
    let ch = 1 + s.upto(3);
    let mut net = Net::new(0, ch);
    let fade_in = s.upto(3) == 0;
    let use_back: bool = s.upto(2) == 0;
    let sr = [44100.0, 1000.0][s.upto(2)];
    net.set_sample_rate(sr);
    let len = [0.5, 10.0, 63.0, 64.0, 65.0, 100.0, 200.0][s.upto(7)];
    let fade = || if len as usize % 2 == 0 { Fade::Power } else { Fade::Smooth };
    let mut old = Cell { rate: sr, ..cell(0, ch, 7) };
    let new = cell(0, ch, 900);
    let mut now = Cell { rate: sr, ..new.clone() };
    let id;
    let mut back: Box<dyn AudioUnit>;
    if fade_in {
        id = net.fade_in(fade(), (len / sr) as f32, Box::new(new));
        net.pipe_output(id);
        back = if use_back { let b = net.backend(); net.commit(); Box::new(b) } else { Box::new(net.clone()) };
    } else {
        id = net.push(Box::new(old.clone()));
        net.pipe_output(id);
        if use_back {
            let b = net.backend();
            net.crossfade(id, fade(), (len / sr) as f32, Box::new(new));
            net.commit();
            back = Box::new(b);
        } else {
            net.crossfade(id, fade(), (len / sr) as f32, Box::new(new));
            back = Box::new(net.clone());
        }
    }
    if use_back && s.upto(2) == 0 { net.commit(); }
    let n = 40 + s.upto(300);
    let blocks = s.upto(2) == 0;
    let got = if blocks { run_blocks(&mut *back, &[], 0, n, &mut s) } else { run_ticks(&mut *back, &[], 0, n) };
    let (mut a, mut b) = (vec![0.0; ch], vec![0.0; ch]);
    for i in 0..n {
        if fade_in { a.fill(0.0); } else { old.step(&[], &mut a); }
        now.step(&[], &mut b);
        let p = (i as f64 / len).min(1.0);
        for c in 0..ch {
            let want = a[c] as f64 * curve(&fade(), 1.0 - p) + b[c] as f64 * curve(&fade(), p);
            // The last sample of the fade may be taken as finished.
            let last = i as f64 + 1.01 >= len;
            let ok = (got[c][i] as f64 - want).abs() <= 16.0 || (last && got[c][i] == b[c]);
            assert!(ok, "crossfade sample {} of {}: {} instead of {}", i, len, got[c][i], want);
            if i as f64 >= len + 1.0 { assert!(got[c][i] == b[c], "after the crossfade the new unit is heard alone"); }
        }
    }
}
/// A crossfade during a crossfade waits, only the latest of the waiting units gets its turn.
fn n08_crossfade_latest() {
    let mut s = stream();
    let mut net = Net::new(0, 1);
    let use_back: bool = s.upto(2) == 0;
    let id = net.push(Box::new(cell(0, 1, 1)));
    net.pipe_output(id);
    let mut front = net;
    let mut back: Option<NetBackend2> = if use_back { Some(Box::new(front.backend())) } else { None };
    let k = 1 + s.upto(4);
    let len = 50.0;
    for j in 0..k {
        front.crossfade(id, Fade::Smooth, (len / 44100.0) as f32, Box::new(cell(0, 1, 100 + j as i64)));
        if use_back { front.commit(); }
        if s.upto(2) == 0 {
            let u: &mut dyn AudioUnit = match &mut back { Some(b) => &mut **b, None => &mut front };
            run_ticks(u, &[], 0, 1 + s.upto(20));
        }
    }
    let u: &mut dyn AudioUnit = match &mut back { Some(b) => &mut **b, None => &mut front };
    // Both remaining fades pass.
    run_blocks(u, &[], 0, 300, &mut s);
    let got = run_ticks(u, &[], 0, 1);
    let ok = (0..2000).any(|c| { let mut x = Cell { count: c, ..cell(0, 1, 100 + k as i64 - 1) }; let mut y = [0.0]; x.step(&[], &mut y); y[0] == got[0][0] });
    assert!(ok, "the latest unit did not take over");
    // What the frontend holds agrees with what is heard: a reset of the node is of the latest unit.
    if use_back {
        front.reset();
        front.commit();
        let u: &mut dyn AudioUnit = &mut **back.as_mut().unwrap();
        let got = run_ticks(u, &[], 0, 1);
        let mut y = [0.0];
        cell(0, 1, 100 + k as i64 - 1).step(&[], &mut y);
        assert!(got[0][0] == y[0], "after a reset of the frontend the backend plays {} instead of {}", got[0][0], y[0]);
    }
}
type NetBackend2 = Box<dyn AudioUnit>;
/// Lifecycle calls reach units waiting in crossfades.
fn n08_crossfade_rate() {
    let mut s = stream();
    let mut net = Net::new(0, 1);
    let id = net.push(Box::new(cell(0, 1, 1)));
    net.pipe_output(id);
    net.crossfade(id, Fade::Smooth, 0.001, Box::new(cell(0, 1, 2)));
    let twice = s.upto(2) == 0;
    if twice { net.crossfade(id, Fade::Smooth, 0.001, Box::new(cell(0, 1, 2))); }
    let use_back = s.upto(2) == 0;
    net.set_sample_rate(48000.0);
    let mut u: Box<dyn AudioUnit> = if use_back { Box::new(net.backend()) } else { Box::new(net) };
    run_blocks(&mut *u, &[], 0, 500, &mut s);
    let got = run_ticks(&mut *u, &[], 0, 1);
    // The parameter is not touched by the fade.
    let ok = (if twice { 300..500 } else { 500..501 }).any(|c| { let mut x = Cell { count: c, rate: 48000.0, ..cell(0, 1, 2) }; let mut y = [0.0]; x.step(&[], &mut y); y[0] == got[0][0] });
    assert!(ok, "the unit that was faded in runs at a stale sample rate");
}
pub const LIST: &[(&str, fn())] = &[
    ("n06_edits", n06_edits),
    ("n07_compose", n07_compose),
    ("n08_commit", n08_commit),
    ("n08_crossfade", n08_crossfade),
    ("n08_crossfade_latest", n08_crossfade_latest),
    ("n08_crossfade_rate", n08_crossfade_rate),
];
#[allow(dead_code)]
fn unused(m: &Model, id: NodeId) -> u64 { m.key_of(id) }
