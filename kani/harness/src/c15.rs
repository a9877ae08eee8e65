//! C15: signal flow analysis. Component contract: `route` maps a frame of exactly its
//! inputs to a frame of exactly its outputs. Values are small integers (exact arithmetic).
use crate::common::*;
use crate::nd::*;
use core::marker::PhantomData;
use num_complex::Complex64;

fn int() -> f64 {
    any::<i8>() as f64
}
fn lat() -> f64 {
    any::<u8>() as f64
}
fn cx() -> Complex64 {
    Complex64::new(int(), int())
}
/// Any signal.
fn sig() -> Signal {
    let k: u8 = any();
    assume(k < 4);
    match k {
        0 => Signal::Unknown,
        1 => Signal::Value(int()),
        2 => Signal::Latency(lat()),
        _ => Signal::Response(cx(), lat()),
    }
}
/// A distinguishable signal, for operators that only move signals around.
fn tag() -> Signal {
    Signal::Latency(f64::from_bits(any::<u64>()))
}
fn same_tag(a: Signal, b: Signal) -> bool {
    matches!((a, b), (Signal::Latency(x), Signal::Latency(y)) if x.to_bits() == y.to_bits())
}
fn eq(a: Signal, b: Signal) -> bool {
    match (a, b) {
        (Signal::Unknown, Signal::Unknown) => true,
        (Signal::Value(x), Signal::Value(y)) => x == y,
        (Signal::Latency(x), Signal::Latency(y)) => x == y,
        (Signal::Response(r, x), Signal::Response(q, y)) => r.re == q.re && r.im == q.im && x == y,
        _ => false,
    }
}
/// Latency of a signal, if it depends on an input or generator.
fn l(s: Signal) -> Option<f64> {
    match s {
        Signal::Latency(x) | Signal::Response(_, x) => Some(x),
        _ => None,
    }
}
fn known(s: Signal) -> Option<Complex64> {
    match s {
        Signal::Response(r, _) => Some(r),
        Signal::Value(_) => Some(Complex64::new(0.0, 0.0)),
        _ => None,
    }
}
fn earliest(a: Signal, b: Signal) -> Option<f64> {
    match (l(a), l(b)) {
        (Some(x), Some(y)) => Some(if x < y { x } else { y }),
        (Some(x), None) | (None, Some(x)) => Some(x),
        _ => None,
    }
}
fn some(x: Option<f64>, d: f64) -> Signal {
    match x {
        Some(x) => Signal::Latency(x + d),
        None => Signal::Unknown,
    }
}
/// Specification of a linear combination x + k y.
fn linear(a: Signal, b: Signal, k: f64, d: f64) -> Signal {
    if let (Signal::Value(x), Signal::Value(y)) = (a, b) {
        return Signal::Value(x + k * y);
    }
    match (known(a), known(b), earliest(a, b)) {
        (Some(r), Some(q), Some(x)) => Signal::Response(Complex64::new(r.re + k * q.re, r.im + k * q.im), x + d),
        (_, _, e) => some(e, d),
    }
}
/// Specification of a product.
fn product(a: Signal, b: Signal) -> Signal {
    match (a, b) {
        (Signal::Value(x), Signal::Value(y)) => Signal::Value(x * y),
        (Signal::Response(r, x), Signal::Value(v)) | (Signal::Value(v), Signal::Response(r, x)) => {
            Signal::Response(Complex64::new(r.re * v, r.im * v), x)
        }
        _ => some(earliest(a, b), 0.0),
    }
}
fn scaled(a: Signal, k: f64) -> Signal {
    match a {
        Signal::Value(v) => Signal::Value(v * k),
        Signal::Response(r, x) => Signal::Response(Complex64::new(r.re * k, r.im * k), x),
        s => s,
    }
}

/// Component with arbitrary but fixed outputs per input tag.
#[derive(Clone)]
struct Leaf<I, O> {
    /// Output signals.
    o: [Signal; 4],
    /// Inputs seen.
    seen: [Signal; 4],
    freq: f64,
    calls: u32,
    _m: PhantomData<(I, O)>,
}
fn leaf<I: Size<f32>, O: Size<f32>>() -> Leaf<I, O> {
    Leaf { o: [sig(), sig(), sig(), sig()], seen: [Signal::Unknown; 4], freq: 0.0, calls: 0, _m: PhantomData }
}
fn tagged<I: Size<f32>, O: Size<f32>>() -> Leaf<I, O> {
    Leaf { o: [tag(), tag(), tag(), tag()], seen: [Signal::Unknown; 4], freq: 0.0, calls: 0, _m: PhantomData }
}
impl<I: Size<f32>, O: Size<f32>> AudioNode for Leaf<I, O> {
    const ID: u64 = 1002;
    type Inputs = I;
    type Outputs = O;
    fn tick(&mut self, _input: &Frame<f32, I>) -> Frame<f32, O> {
        Frame::default()
    }
    fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
        ensure!(input.len() == I::USIZE, "a component is routed exactly its own inputs");
        self.calls += 1;
        self.freq = frequency;
        for i in 0..I::USIZE {
            self.seen[i] = input.at(i);
        }
        let mut o = SignalFrame::new(O::USIZE);
        for j in 0..O::USIZE {
            o.set(j, self.o[j]);
        }
        o
    }
}
fn frame_of(s: &[Signal]) -> SignalFrame {
    let mut f = SignalFrame::new(s.len());
    for i in 0..s.len() {
        f.set(i, s[i]);
    }
    f
}
/// `$k` was routed the signals `$want`.
macro_rules! saw {
    ($k:expr, $want:expr, $f:expr) => { saw!($k, $want, $f, eq) };
    ($k:expr, $want:expr, $f:expr, $eq:ident) => {
        let w = $want;
        ensure!($k.calls == 1 && $k.freq == $f, "each component is routed once at the asked frequency");
        for i in 0..w.len() {
            ensure!($eq($k.seen[i], w[i]), "a component sees the signals of its own inputs");
        }
    };
}
macro_rules! gives {
    ($o:expr, $want:expr) => { gives!($o, $want, eq) };
    ($o:expr, $want:expr, $eq:ident) => {
        let o = $o;
        let w = $want;
        ensure!(o.len() == w.len(), "one signal per output");
        for i in 0..w.len() {
            ensure!($eq(o.at(i), w[i]), "outputs are assembled as the operator is defined");
        }
    };
}
const F: f64 = 440.0;

contracts! {
    fn c15_linear [4] {
        let (a, b, d) = (sig(), sig(), lat());
        ensure!(eq(a.combine_linear(b, d, |x, y| x + y, |x, y| x + y), linear(a, b, 1.0, d)), "linear mix");
        ensure!(eq(a.combine_linear(b, d, |x, y| x - y, |x, y| x - y), linear(a, b, -1.0, d)), "linear difference");
    }
    fn c15_nonlinear [4] {
        let (a, b, d) = (sig(), sig(), lat());
        ensure!(eq(a.combine_nonlinear(b, d), some(earliest(a, b), d)), "nonlinear combination keeps only the earliest latency");
        ensure!(eq(a.distort(d), some(l(a), d)), "distortion keeps only latency");
    }
    fn c15_delay_filter [4] {
        let (a, d) = (sig(), lat());
        let w = match a { Signal::Latency(x) => Signal::Latency(x + d), Signal::Response(r, x) => Signal::Response(r, x + d), s => s };
        ensure!(eq(a.delay(d), w), "delay adds latency only");
        // A response function that needs no arithmetic to be told apart.
        let w = match a { Signal::Latency(x) => Signal::Latency(x + d), Signal::Response(r, x) => Signal::Response(Complex64::new(r.im, -r.re), x + d), _ => Signal::Unknown };
        ensure!(eq(a.filter(d, |r| Complex64::new(r.im, -r.re)), w), "filter shapes the response");
    }
    fn c15_scale [4] {
        let a = sig();
        ensure!(eq(a.scale(0.5), scaled(a, 0.5)), "scaling");
        ensure!(eq(a.scale(-4.0), scaled(a, -4.0)), "scaling");
    }
    fn c15_binop_signals [6] {
        let (a, b) = (sig(), sig());
        ensure!(eq(FrameBinop::<U1>::route(&FrameAdd::new(), a, b), linear(a, b, 1.0, 0.0)), "sum");
        ensure!(eq(FrameBinop::<U1>::route(&FrameSub::new(), a, b), linear(a, b, -1.0, 0.0)), "difference");
    }
    /// Products: constant operands are 4 or -0.5, everything else is arbitrary.
    fn c15_product [6] {
        let konst = |s: Signal, v: f64| if let Signal::Value(_) = s { Signal::Value(v) } else { s };
        let (a, b) = (konst(sig(), 4.0), konst(sig(), -0.5));
        ensure!(eq(FrameBinop::<U1>::route(&FrameMul::new(), a, b), product(a, b)), "product");
    }
    fn c15_unop_signals [6] {
        let a = sig();
        let k = -4.0f32;
        ensure!(eq(FrameUnop::<U1>::route(&FrameNeg::new(), a), scaled(a, -1.0)), "negation");
        ensure!(eq(FrameUnop::<U1>::route(&FrameId::new(), a), a), "identity");
        ensure!(eq(FrameUnop::<U1>::route(&FrameMulScalar::new(k), a), scaled(a, k as f64)), "scaling by a constant");
        let plus = |s: Signal, k: f64| match s { Signal::Value(v) => Signal::Value(v + k), s => s };
        ensure!(eq(FrameUnop::<U1>::route(&FrameAddScalar::new(k), a), plus(a, k as f64)), "offset by a constant");
        ensure!(eq(FrameUnop::<U1>::route(&FrameNegAddScalar::new(k), a), plus(scaled(a, -1.0), k as f64)), "constant minus signal");
    }
    fn c15_arbitrary [18] {
        let i = [sig(), sig(), sig()];
        let d = lat();
        let o = Routing::Arbitrary(d).route(&frame_of(&i), 2);
        let mut e = l(i[0]);
        for k in 1..3 {
            e = match (e, l(i[k])) { (Some(x), Some(y)) => Some(if x < y { x } else { y }), (Some(x), None) | (None, Some(x)) => Some(x), _ => None };
        }
        gives!(o, [some(e, d), some(e, d)]);
    }
    fn c15_split_reverse [18] {
        let i = [tag(), tag()];
        gives!(Routing::Split.route(&frame_of(&i), 6), [i[0], i[1], i[0], i[1], i[0], i[1]], same_tag);
        gives!(Routing::Reverse.route(&frame_of(&i), 2), [i[1], i[0]], same_tag);
    }
    fn c15_join [18] {
        let v = [int(), int(), int(), int()];
        let i = [Signal::Value(v[0]), Signal::Value(v[1]), Signal::Value(v[2]), Signal::Value(v[3])];
        gives!(Routing::Join.route(&frame_of(&i), 2), [Signal::Value((v[0] + v[2]) * 0.5), Signal::Value((v[1] + v[3]) * 0.5)]);
    }
    fn c15_generator [18] {
        let d = lat();
        gives!(Routing::Generator(d).route(&frame_of(&[sig()]), 2), [Signal::Latency(d), Signal::Latency(d)]);
        gives!(Routing::Generator(d).route(&frame_of(&[]), 2), [Signal::Latency(d), Signal::Latency(d)]);
    }
    fn c15_leaves [18] {
        let i = [tag(), tag()];
        gives!(pass().route(&frame_of(&i[..1]), F), [i[0]], same_tag);
        gives!(multipass::<U2>().route(&frame_of(&i), F), i, same_tag);
        gives!(reverse::<U2>().route(&frame_of(&i), F), [i[1], i[0]], same_tag);
        gives!(split::<U3>().route(&frame_of(&i[..1]), F), [i[0], i[0], i[0]], same_tag);
        ensure!(sink().route(&frame_of(&i[..1]), F).len() == 0, "sink has no outputs");
    }
    fn c15_constant [18] {
        let v = any::<i8>() as f32;
        gives!(dc((v, 3.0)).route(&frame_of(&[]), F), [Signal::Value(v as f64), Signal::Value(3.0)]);
    }
    fn c15_join2 [18] {
        let i = [sig(), Signal::Response(Complex64::new(3.0, -5.0), 7.0)];
        gives!(join::<U2>().route(&frame_of(&i), F), [scaled(linear(i[0], i[1], 1.0, 0.0), 0.5)]);
    }
    fn c15_pipe [18] {
        let (x, y) = (tagged::<U2, U1>(), tagged::<U1, U2>());
        let (xo, yo) = (x.o, y.o);
        let mut g = Pipe::new(x, y);
        let i = [tag(), tag()];
        let o = g.route(&frame_of(&i), F);
        saw!(g.left(), i, F, same_tag);
        saw!(g.right(), [xo[0]], F, same_tag);
        gives!(o, [yo[0], yo[1]], same_tag);
    }
    fn c15_stack [18] {
        let (x, y) = (tagged::<U2, U1>(), tagged::<U1, U2>());
        let (xo, yo) = (x.o, y.o);
        let mut g = Stack::new(x, y);
        let i = [tag(), tag(), tag()];
        let o = g.route(&frame_of(&i), F);
        saw!(g.left(), [i[0], i[1]], F, same_tag);
        saw!(g.right(), [i[2]], F, same_tag);
        gives!(o, [xo[0], yo[0], yo[1]], same_tag);
    }
    fn c15_branch [18] {
        let (x, y) = (tagged::<U2, U1>(), tagged::<U2, U2>());
        let (xo, yo) = (x.o, y.o);
        let mut g = Branch::new(x, y);
        let i = [tag(), tag()];
        let o = g.route(&frame_of(&i), F);
        saw!(g.left(), i, F, same_tag);
        saw!(g.right(), i, F, same_tag);
        gives!(o, [xo[0], yo[0], yo[1]], same_tag);
    }
    fn c15_bus [18] {
        let (x, y) = (leaf::<U2, U2>(), leaf::<U2, U2>());
        let (xo, yo) = (x.o, y.o);
        let mut g = Bus::new(x, y);
        let i = [sig(), sig()];
        let o = g.route(&frame_of(&i), F);
        saw!(g.left(), i, F);
        saw!(g.right(), i, F);
        gives!(o, [linear(xo[0], yo[0], 1.0, 0.0), linear(xo[1], yo[1], 1.0, 0.0)]);
    }
    fn c15_binop [18] {
        let (x, y) = (leaf::<U1, U2>(), leaf::<U2, U2>());
        let (xo, yo) = (x.o, y.o);
        let mut g = Binop::new(FrameSub::new(), x, y);
        let i = [sig(), sig(), sig()];
        let o = g.route(&frame_of(&i), F);
        saw!(g.left(), [i[0]], F);
        saw!(g.right(), [i[1], i[2]], F);
        gives!(o, [linear(xo[0], yo[0], -1.0, 0.0), linear(xo[1], yo[1], -1.0, 0.0)]);
    }
    fn c15_unop [18] {
        let x = leaf::<U1, U2>();
        let xo = x.o;
        let mut g = Unop::new(x, FrameNeg::<U2>::new());
        let o = g.route(&frame_of(&[sig()]), F);
        gives!(o, [scaled(xo[0], -1.0), scaled(xo[1], -1.0)]);
    }
    fn c15_thru [18] {
        let x = tagged::<U3, U1>();
        let xo = x.o;
        let mut g = Thru::new(x);
        let i = [tag(), tag(), tag()];
        gives!(g.route(&frame_of(&i), F), [xo[0], i[1], i[2]], same_tag);
        let y = tagged::<U1, U2>();
        let yo = y.o;
        let mut g = Thru::new(y);
        gives!(g.route(&frame_of(&i[..1]), F), [yo[0]], same_tag);
    }
    fn c15_multistack [18] {
        let (x, y) = (tagged::<U2, U1>(), tagged::<U2, U1>());
        let (xo, yo) = (x.o, y.o);
        let a = [x, y];
        let mut g = MultiStack::<U2, _>::new(Frame::generate(|i| a[i].clone()));
        let i = [tag(), tag(), tag(), tag()];
        let o = g.route(&frame_of(&i), F);
        saw!(g.node(0), [i[0], i[1]], F, same_tag);
        saw!(g.node(1), [i[2], i[3]], F, same_tag);
        gives!(o, [xo[0], yo[0]], same_tag);
    }
    fn c15_multibranch [18] {
        let (x, y) = (tagged::<U1, U2>(), tagged::<U1, U2>());
        let (xo, yo) = (x.o, y.o);
        let a = [x, y];
        let mut g = MultiBranch::<U2, _>::new(Frame::generate(|i| a[i].clone()));
        let i = [tag()];
        let o = g.route(&frame_of(&i), F);
        saw!(g.node(0), i, F, same_tag);
        saw!(g.node(1), i, F, same_tag);
        gives!(o, [xo[0], xo[1], yo[0], yo[1]], same_tag);
    }
    fn c15_multibus [18] {
        let (x, y) = (leaf::<U1, U2>(), leaf::<U1, U2>());
        let (xo, yo) = (x.o, y.o);
        let a = [x, y];
        let mut g = MultiBus::<U2, _>::new(Frame::generate(|i| a[i].clone()));
        let i = [sig()];
        let o = g.route(&frame_of(&i), F);
        saw!(g.node(0), i, F);
        saw!(g.node(1), i, F);
        gives!(o, [linear(xo[0], yo[0], 1.0, 0.0), linear(xo[1], yo[1], 1.0, 0.0)]);
    }
    fn c15_chain [18] {
        let (x, y) = (tagged::<U2, U2>(), tagged::<U2, U2>());
        let (xo, yo) = (x.o, y.o);
        let a = [x, y];
        let mut g = Chain::<U2, _>::new(Frame::generate(|i| a[i].clone()));
        let i = [tag(), tag()];
        let o = g.route(&frame_of(&i), F);
        saw!(g.node(0), i, F, same_tag);
        saw!(g.node(1), [xo[0], xo[1]], F, same_tag);
        gives!(o, [yo[0], yo[1]], same_tag);
    }
    fn c15_reduce [18] {
        let (x, y) = (leaf::<U1, U2>(), leaf::<U1, U2>());
        let (xo, yo) = (x.o, y.o);
        let a = [x, y];
        let mut g = Reduce::<U2, _, _>::new(Frame::generate(|i| a[i].clone()), FrameSub::<U2>::new());
        let i = [sig(), sig()];
        let o = g.route(&frame_of(&i), F);
        saw!(g.node(0), [i[0]], F);
        saw!(g.node(1), [i[1]], F);
        gives!(o, [linear(xo[0], yo[0], -1.0, 0.0), linear(xo[1], yo[1], -1.0, 0.0)]);
    }
    /// `latency` is the earliest latency over all outputs, measured from undelayed inputs.
    fn c15_latency [18] {
        let x = leaf::<U2, U3>();
        let xo = x.o;
        let mut g = An(x);
        let d = AudioNode::latency(&mut g.0);
        let mut e: Option<f64> = None;
        for k in 0..3 {
            if let Signal::Latency(x) = xo[k] {
                e = match e { Some(y) if y <= x => Some(y), _ => Some(x) };
            }
        }
        ensure!(d == e, "latency is the earliest over the outputs");
        ensure!(g.0.calls == 1 && eq(g.0.seen[0], Signal::Latency(0.0)) && eq(g.0.seen[1], Signal::Latency(0.0)), "inputs are undelayed");
        let e2 = AudioUnit::latency(&mut g);
        ensure!(e2 == d, "nodes and units agree");
    }
    fn c15_response [18] {
        let x = leaf::<U2, U3>();
        let xo = x.o;
        let mut g = An(x);
        let k = below(3);
        let r = AudioNode::response(&mut g.0, k, F);
        let one = Signal::Response(Complex64::new(1.0, 0.0), 0.0);
        ensure!(eq(g.0.seen[0], one) && eq(g.0.seen[1], one) && g.0.freq == F, "inputs have unit response");
        let r2 = AudioUnit::response(&mut g, k, F);
        match xo[k] {
            Signal::Response(q, _) => ensure!(r == Some(q) && r2 == Some(q), "the response of the asked output"),
            _ => ensure!(r.is_none() && r2.is_none(), "no response where there is none"),
        }
    }
}
