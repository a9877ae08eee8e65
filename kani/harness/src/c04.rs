//! C04: reset, sample rate, allocation and hashing reach every component of a graph
//! exactly once, and construction gives every component its location hash.
use crate::common::*;
use crate::nd::*;
use core::sync::atomic::Ordering;

fn fam<I: Size<f32>, O: Size<f32>>(i: u64) -> Op<I, O> {
    let mut o = op::<I, O>();
    o.s ^= i as u32;
    o
}
fn clear<I, O>(x: &mut Op<I, O>) {
    x.hashes = 0;
    x.probes = 0;
}
macro_rules! exactly {
    ($k:expr, $h:ident, $rate:ident) => {
        ensure!($k.resets == 1, "reset reaches each component exactly once");
        ensure!($k.rates == 1 && $k.rate.to_bits() == $rate.to_bits(), "the sample rate reaches each component exactly once");
        ensure!($k.allocs == 1, "allocate reaches each component exactly once");
        ensure!($k.ticks == 0 && $k.blocks == 0 && $k.sets == 0, "nothing else happens to the component");
        ensure!($k.hashes == 1 && $k.probes == 1, "ping reaches each component exactly once, setting the hash only if not a probe");
    };
}
/// Drive the graph through the lifecycle; `$kids` are accessors of the components in ping order.
macro_rules! life {
    ($g:expr, [$($kid:tt)*], $id:expr) => {{
        let mut g = $g;
        // Construction pings each component twice: probe, then set.
        $( ensure!(life!(@at g $kid).hashes == 1 && life!(@at g $kid).probes == 1, "construction gives each component one hash");
           clear(life!(@mut g $kid)); )*
        let rate: f64 = any();
        g.reset();
        g.set_sample_rate(rate);
        g.allocate();
        let seed: u64 = 0x1234_5678_9abc_def1;
        let p = g.ping(true, AttoHash::new(seed));
        let q = g.ping(false, AttoHash::new(seed));
        ensure!(p.state() == q.state(), "probing and setting compute the same hash");
        // Each component is given the running hash, which then includes it.
        let mut h = AttoHash::new(seed).hash($id);
        $( ensure!(life!(@at g $kid).hash == h.state(), "the hash of a component depends on what precedes it");
           h = h.hash(1000); )*
        ensure!(q.state() == h.state(), "the graph hash includes every component");
        $( exactly!(life!(@at g $kid), h, rate); )*
        g
    }};
    (@at $g:ident left) => { $g.left() };
    (@at $g:ident right) => { $g.right() };
    (@at $g:ident $n:literal) => { $g.node($n) };
    (@mut $g:ident left) => { $g.left_mut() };
    (@mut $g:ident right) => { $g.right_mut() };
    (@mut $g:ident $n:literal) => { $g.node_mut($n) };
}
/// Lifecycle of a wrapper whose components are spies `$r`, in ping order.
/// `$factor` relates the inner sample rate to the outer one.
macro_rules! wrapped {
    ($g:expr, [$($r:expr),*], $factor:expr) => {{
        let mut g = $g;
        let before = [$( (ld(&$r.resets), ld(&$r.rates), ld(&$r.allocs), ld(&$r.probes), ld(&$r.hashes), ld(&$r.ticks), ld(&$r.sets)) ),*];
        let k: u16 = any();
        let rate = 1.0 + k as f64;
        assume(k != 44099); // a wrapper may skip a sample rate it already has
        g.reset();
        g.allocate();
        g.set_sample_rate(rate);
        let seed: u64 = 0x1234_5678_9abc_def1;
        let p = g.ping(true, AttoHash::new(seed));
        let q = g.ping(false, AttoHash::new(seed));
        ensure!(p.state() == q.state(), "probing and setting compute the same hash");
        let mut i = 0;
        let mut last = None;
        $( let b = before[i]; i += 1;
           ensure!(ld(&$r.resets) == b.0 + 1, "reset reaches the wrapped component exactly once");
           ensure!(ld(&$r.rates) == b.1 + 1, "the sample rate reaches the wrapped component exactly once");
           ensure!($r.rate.load(Ordering::Relaxed) == (rate * $factor).to_bits(), "the wrapped component gets the right sample rate");
           ensure!(ld(&$r.allocs) == b.2 + 1, "allocate reaches the wrapped component exactly once");
           ensure!(ld(&$r.probes) == b.3 + 1 && ld(&$r.hashes) == b.4 + 1, "ping reaches the wrapped component, setting the hash only if not a probe");
           ensure!(ld(&$r.ticks) == b.5 && ld(&$r.sets) == b.6, "nothing else happens to the component");
           let h = $r.hash.load(Ordering::Relaxed);
           ensure!(last != Some(h), "components in different places get different hashes");
           last = Some(h); )*
        let _ = i;
        g
    }};
}
macro_rules! id_of {
    ($t:ty) => { <$t as AudioNode>::ID };
}
type O11 = Op<U1, U1>;

contracts! {
    fn c04_pipe [8] { let g = Pipe::new(op::<U1, U1>(), op::<U1, U1>()); life!(g, [left right], id_of!(Pipe<O11, O11>)); }
    fn c04_stack [8] { let g = Stack::new(op::<U1, U1>(), op::<U1, U1>()); life!(g, [left right], id_of!(Stack<O11, O11>)); }
    fn c04_branch [8] { let g = Branch::new(op::<U1, U1>(), op::<U1, U1>()); life!(g, [left right], id_of!(Branch<O11, O11>)); }
    fn c04_bus [8] { let g = Bus::new(op::<U1, U1>(), op::<U1, U1>()); life!(g, [left right], id_of!(Bus<O11, O11>)); }
    fn c04_binop [8] {
        let g = Binop::new(FrameAdd::new(), op::<U1, U1>(), op::<U1, U1>());
        life!(g, [left right], id_of!(Binop<FrameAdd<U1>, O11, O11>));
    }
    fn c04_multibus [8] { let g = MultiBus::<U3, O11>::new(Frame::generate(|i| fam(i as u64))); life!(g, [0 1 2], id_of!(MultiBus<U3, O11>)); }
    fn c04_multistack [8] { let g = MultiStack::<U3, O11>::new(Frame::generate(|i| fam(i as u64))); life!(g, [0 1 2], id_of!(MultiStack<U3, O11>)); }
    fn c04_multibranch [8] { let g = MultiBranch::<U3, O11>::new(Frame::generate(|i| fam(i as u64))); life!(g, [0 1 2], id_of!(MultiBranch<U3, O11>)); }
    fn c04_chain [8] { let g = Chain::<U3, O11>::new(Frame::generate(|i| fam(i as u64))); life!(g, [0 1 2], id_of!(Chain<U3, O11>)); }
    fn c04_reduce [8] {
        let g = Reduce::<U3, O11, FrameAdd<U1>>::new(Frame::generate(|i| fam(i as u64)), FrameAdd::new());
        life!(g, [0 1 2], id_of!(Reduce<U3, O11, FrameAdd<U1>>));
    }

    fn c04_thru [8] { let x = spy::<U2, U1>(); let r = x.r; wrapped!(Thru::new(x), [r], 1.0); }
    fn c04_unop [8] { let x = spy::<U1, U2>(); let r = x.r; wrapped!(Unop::<_, FrameNeg<U2>>::new(x, FrameNeg::new()), [r], 1.0); }
    fn c04_an_unop [8] { let x = spy::<U1, U1>(); let r = x.r; wrapped!(-An(x), [r], 1.0); }
    fn c04_system [8] { let x = spy::<U1, U1>(); let r = x.r; wrapped!(System::new(An(x), 0.1, |_: f32, _: f32, _: &mut Spy<U1, U1>| ()), [r], 1.0); }
    fn c04_listen [70] { let x = spy::<U1, U1>(); let r = x.r; let (_s, g) = listen(An(x)); wrapped!(g, [r], 1.0); }
    fn c04_unit [8] { let x = spy::<U1, U1>(); let r = x.r; wrapped!(Unit::<U1, U1>::new(Box::new(An(x))), [r], 1.0); }
    fn c04_unit_dyn [8] { let x = spy::<U1, U1>(); let r = x.r; let g: Box<dyn AudioUnit> = Box::new(An(x)); wrapped!(g, [r], 1.0); }
    fn c04_feedback [8] { let x = spy::<U1, U1>(); let r = x.r; wrapped!(Feedback::new(x, FrameId::new()), [r], 1.0); }
    fn c04_feedback2 [8] {
        let (x, y) = (spy::<U1, U1>(), spy::<U1, U1>());
        let (r, q) = (x.r, y.r);
        wrapped!(Feedback2::new(x, y, FrameId::new()), [r, q], 1.0);
    }
    fn c04_oversampler [134] { let x = spy::<U1, U1>(); let r = x.r; wrapped!(Oversampler::new(44100.0, x), [r], 2.0); }
    fn c04_resampler [134] { let x = spy::<U0, U1>(); let r = x.r; wrapped!(Resampler::new(44100.0, x), [r], 1.0); }
    fn c04_bigblock [70] { let x = spy::<U1, U1>(); let r = x.r; wrapped!(BigBlockAdapter::new(Box::new(An(x))), [r], 1.0); }
    fn c04_blockrate [70] { let x = spy::<U0, U1>(); let r = x.r; wrapped!(BlockRateAdapter::new(Box::new(An(x))), [r], 1.0); }
    fn c04_feedbackunit [20] { let x = spy::<U1, U1>(); let r = x.r; wrapped!(FeedbackUnit::new(0.0, Box::new(An(x))), [r], 1.0); }
    fn c04_an [8] { let x = spy::<U1, U1>(); let r = x.r; wrapped!(An(x), [r], 1.0); }
}
