//! C05: settings reach exactly the addressed component, with the value intact and one
//! address level consumed per structural level.
use crate::common::*;
use crate::nd::*;

/// An arbitrary address: 0 none, 1 left, 2 right, 3 index i.
fn addressed(v: f32, kind: u8, i: usize) -> Setting {
    match kind {
        0 => Setting::value(v),
        1 => Setting::value(v).left(),
        2 => Setting::value(v).right(),
        _ => Setting::value(v).index(i),
    }
}
fn fam<I: Size<f32>, O: Size<f32>>(_: u64) -> Op<I, O> {
    op::<I, O>()
}
macro_rules! got {
    ($k:expr, $hit:expr, $v:ident) => {
        if $hit {
            ensure!($k.sets == 1, "the addressed component receives the setting once");
            ensure!(bits($k.set_value, $v), "the setting keeps its value");
            ensure!($k.set_null, "exactly the consumed address level is removed");
        } else {
            ensure!($k.sets == 0, "no other component receives the setting");
        }
        ensure!($k.resets == 0 && $k.ticks == 0 && $k.blocks == 0 && $k.rates == 0, "a setting does nothing else");
    };
}
/// Binary operation: left and right.
macro_rules! binary {
    ($g:expr) => {{
        let mut g = $g;
        let v: f32 = any();
        let kind: u8 = any();
        assume(kind < 4);
        let i = below(3);
        g.set(addressed(v, kind, i));
        got!(g.left(), kind == 1, v);
        got!(g.right(), kind == 2, v);
    }};
}
/// Indexed structure of three.
macro_rules! indexed {
    ($g:expr) => {{
        let mut g = $g;
        let v: f32 = any();
        let kind: u8 = any();
        assume(kind < 4);
        let i = below(3);
        g.set(addressed(v, kind, i));
        got!(g.node(0), kind == 3 && i == 0, v);
        got!(g.node(1), kind == 3 && i == 1, v);
        got!(g.node(2), kind == 3 && i == 2, v);
    }};
}
/// A wrapper with no address level of its own passes any setting on unchanged.
macro_rules! passes {
    ($g:expr, $r:ident) => {{
        let mut g = $g;
        let v: f32 = any();
        let kind: u8 = any();
        assume(kind < 4);
        let i = below(3);
        let b = ld(&$r.sets);
        g.set(addressed(v, kind, i));
        ensure!(ld(&$r.sets) == b + 1, "the wrapped component receives the setting once");
        ensure!(ld(&$r.set_value) == v.to_bits(), "the setting keeps its value");
        ensure!(ld(&$r.set_levels) == (kind != 0) as u32, "no address level is consumed");
        ensure!(ld(&$r.resets) == 0 && ld(&$r.ticks) == 0, "a setting does nothing else");
    }};
}
type O11 = Op<U1, U1>;

contracts! {
    fn c05_pipe [8] { binary!(Pipe::new(op::<U1, U1>(), op::<U1, U1>())); }
    fn c05_stack [8] { binary!(Stack::new(op::<U1, U1>(), op::<U1, U1>())); }
    fn c05_branch [8] { binary!(Branch::new(op::<U1, U1>(), op::<U1, U1>())); }
    fn c05_bus [8] { binary!(Bus::new(op::<U1, U1>(), op::<U1, U1>())); }
    fn c05_binop [8] { binary!(Binop::new(FrameAdd::new(), op::<U1, U1>(), op::<U1, U1>())); }
    fn c05_multibus [8] { indexed!(MultiBus::<U3, O11>::new(Frame::generate(|i| fam(i as u64)))); }
    fn c05_multistack [8] { indexed!(MultiStack::<U3, O11>::new(Frame::generate(|i| fam(i as u64)))); }
    fn c05_multibranch [8] { indexed!(MultiBranch::<U3, O11>::new(Frame::generate(|i| fam(i as u64)))); }
    fn c05_chain [8] { indexed!(Chain::<U3, O11>::new(Frame::generate(|i| fam(i as u64)))); }
    fn c05_reduce [8] { indexed!(Reduce::<U3, O11, FrameAdd<U1>>::new(Frame::generate(|i| fam(i as u64)), FrameAdd::new())); }

    /// Four nested levels of mixed structure.
    fn c05_nested [8] {
        let mut g = An(op::<U1, U2>()) >> (An(op::<U1, U1>()) | (An(op::<U1, U2>()) & (An(op::<U1, U1>()) ^ An(op::<U1, U1>()))));
        let v: f32 = any();
        let k: u8 = any();
        assume(k < 5);
        match k {
            0 => g.set(Setting::value(v).left()),
            1 => g.set(Setting::value(v).right().left()),
            2 => g.set(Setting::value(v).right().right().left()),
            3 => g.set(Setting::value(v).right().right().right().left()),
            _ => g.set(Setting::value(v).right().right().right().right()),
        }
        got!(g.left(), k == 0, v);
        got!(g.right().left(), k == 1, v);
        got!(g.right().right().left(), k == 2, v);
        got!(g.right().right().right().left(), k == 3, v);
        got!(g.right().right().right().right(), k == 4, v);
    }
    /// Mixed indices and sides.
    fn c05_nested_index [8] {
        let mut g = An(MultiBus::<U2, Pipe<O11, O11>>::new(Frame::generate(|_| Pipe::new(op::<U1, U1>(), op::<U1, U1>()))));
        let v: f32 = any();
        let i = below(2);
        let left: bool = any();
        let s = Setting::value(v).index(i);
        g.set(if left { s.left() } else { s.right() });
        got!(g.node(0).left(), i == 0 && left, v);
        got!(g.node(0).right(), i == 0 && !left, v);
        got!(g.node(1).left(), i == 1 && left, v);
        got!(g.node(1).right(), i == 1 && !left, v);
    }
    fn c05_thru [8] { let x = spy::<U2, U1>(); let r = x.r; passes!(Thru::new(x), r); }
    fn c05_unop [8] { let x = spy::<U1, U1>(); let r = x.r; passes!(-An(x), r); }
    fn c05_scalar [8] { let x = spy::<U1, U1>(); let r = x.r; passes!(An(x) * 2.0, r); }
    fn c05_system [8] { let x = spy::<U1, U1>(); let r = x.r; passes!(System::new(An(x), 0.1, |_: f32, _: f32, _: &mut Spy<U1, U1>| ()), r); }
    fn c05_listen_direct [70] { let x = spy::<U1, U1>(); let r = x.r; let (_s, g) = listen(An(x)); passes!(g, r); }
    fn c05_unit [8] { let x = spy::<U1, U1>(); let r = x.r; passes!(Unit::<U1, U1>::new(Box::new(An(x))), r); }
    fn c05_feedback [8] { let x = spy::<U1, U1>(); let r = x.r; passes!(Feedback::new(x, FrameId::new()), r); }
    fn c05_feedback2 [8] {
        let (x, y) = (spy::<U1, U1>(), spy::<U1, U1>());
        let (r, q) = (x.r, y.r);
        let mut g = Feedback2::new(x, y, FrameId::new());
        let v: f32 = any();
        let kind: u8 = any();
        assume(kind < 4);
        let i = below(3);
        g.set(addressed(v, kind, i));
        ensure!(ld(&r.sets) == (kind == 1) as u32 && ld(&q.sets) == (kind == 2) as u32, "only the addressed side receives the setting");
        if kind == 1 || kind == 2 {
            let k = if kind == 1 { r } else { q };
            ensure!(ld(&k.set_value) == v.to_bits() && ld(&k.set_levels) == 0, "value kept, one level consumed");
        }
    }
    fn c05_oversampler [134] { let x = spy::<U1, U1>(); let r = x.r; passes!(Oversampler::new(44100.0, x), r); }
    fn c05_resampler [134] { let x = spy::<U0, U1>(); let r = x.r; passes!(Resampler::new(44100.0, x), r); }
    fn c05_bigblock [70] { let x = spy::<U1, U1>(); let r = x.r; passes!(BigBlockAdapter::new(Box::new(An(x))), r); }
    fn c05_blockrate [70] { let x = spy::<U0, U1>(); let r = x.r; passes!(BlockRateAdapter::new(Box::new(An(x))), r); }
    fn c05_feedbackunit [20] { let x = spy::<U1, U1>(); let r = x.r; passes!(FeedbackUnit::new(0.0, Box::new(An(x))), r); }

    /// Settings sent to a listener are applied, in order, before the next sample.
    fn c05_listen_tick [70] {
        let x = spy::<U1, U1>();
        let r = x.r;
        let (sender, mut g) = listen(An(x));
        let a: f32 = any();
        ensure!(sender.try_send(Setting::value(a).left()).is_ok(), "an empty queue accepts");
        g.tick(&frame::<U1>());
        ensure!(ld(&r.sets) == 1, "every sent setting is applied before the sample");
        ensure!(ld(&r.set_value) == a.to_bits() && ld(&r.set_levels) == 1, "the setting arrives intact");
        ensure!(ld(&r.ticks) == 1, "one sample");
    }
    fn c05_listen_order [70] {
        let x = spy::<U1, U1>();
        let r = x.r;
        let (sender, mut g) = listen(An(x));
        let (a, b): (f32, f32) = (any(), any());
        ensure!(sender.try_send(Setting::value(a)).is_ok(), "an empty queue accepts");
        ensure!(sender.try_send(Setting::value(b)).is_ok(), "the queue accepts");
        g.tick(&Frame::default());
        ensure!(ld(&r.sets) == 2, "every sent setting is applied before the sample");
        ensure!(ld(&r.set_value) == b.to_bits(), "settings are applied in the order sent");
    }
    fn c05_listen_other [70] {
        let x = spy::<U1, U1>();
        let r = x.r;
        let (sender, mut g) = listen(An(x));
        let a: f32 = any();
        let how: u8 = any();
        assume(how < 3);
        let _ = sender.try_send(Setting::value(a));
        match how {
            0 => g.reset(),
            1 => g.set_sample_rate(48000.0),
            _ => { let f = SignalFrame::new(1); g.route(&f, 440.0); }
        }
        ensure!(ld(&r.sets) == 1 && ld(&r.set_value) == a.to_bits(), "the setting is applied first");
        ensure!(ld(&r.resets) == (how == 0) as u32 && ld(&r.rates) == (how == 1) as u32 && ld(&r.routes) == (how == 2) as u32, "the call itself is forwarded");
    }
    fn c05_listen_block [70] {
        let x = spy::<U0, U0>();
        let r = x.r;
        let (sender, mut g) = listen(An(x));
        let a: f32 = any();
        let _ = sender.try_send(Setting::value(a));
        g.process(1, &BufferRef::empty(), &mut BufferMut::empty());
        ensure!(ld(&r.sets) == 1 && ld(&r.set_value) == a.to_bits(), "the setting is applied before the block");
    }
    /// The value setting of a constant reaches every channel, other parameters none.
    fn c05_constant [8] {
        let v: [f32; 3] = [any(), any(), any()];
        let mut g = dc((v[0], v[1], v[2]));
        let w: f32 = any();
        let kind: u8 = any();
        assume(kind < 3);
        match kind {
            0 => g.set(Setting::value(w)),
            1 => g.set(Setting::center(w)),
            _ => g.set(Setting::time(w)),
        }
        let o = g.tick(&Frame::default());
        for i in 0..3 {
            ensure!(bits(o[i], if kind == 0 { w } else { v[i] }), "value sets all channels");
        }
    }
    /// Address levels: up to four are kept in order, `peel` removes the outermost.
    fn c05_address [8] {
        let v: f32 = any();
        let mut s = Setting::value(v);
        let n = below(5);
        let mut want = [0u8; 4];
        let i = below(100);
        for k in 0..4 {
            if k < n {
                let d: u8 = any();
                assume(d < 3);
                want[k] = d + 1;
                s = match d { 0 => s.left(), 1 => s.right(), _ => s.index(i) };
            }
        }
        for k in 0..5 {
            let d = match s.direction() { Address::Null => 0, Address::Left => 1, Address::Right => 2, Address::Index(j) => { ensure!(j == i, "index kept"); 3 }, _ => 9 };
            ensure!(d == if k < n && k < 4 { want[k] } else { 0 }, "levels come out in the order given");
            s = s.peel();
            ensure!(matches!(s.parameter(), Parameter::Value(x) if x.to_bits() == v.to_bits()), "peeling keeps the parameter");
        }
    }
}
