//! C02: graph operators compute one sample as specified, for any component nodes.
use crate::common::*;
use crate::nd::*;

/// Components of a symbolic family: member `i` starts from state `s ^ i * 0x1234567`.
fn fam<I: Size<f32>, O: Size<f32>>(base: &Op<I, O>, i: u64) -> Op<I, O> {
    let mut o = base.clone();
    o.s ^= (i as u32).wrapping_mul(0x0123_4567);
    o
}
fn sfam<I: Size<f32>, O: Size<f32>>(base: &Small<I, O>, i: u64) -> Small<I, O> {
    let mut o = base.clone();
    o.s ^= (i as u8).wrapping_mul(0x35);
    o
}
/// The same, indexed by a fraction.
fn famf<I: Size<f32>, O: Size<f32>>(base: &Op<I, O>, t: f64) -> Op<I, O> {
    let mut o = base.clone();
    o.s ^= (t as f32).to_bits();
    o
}
/// Exact scalar arithmetic on small integers: 8-bit magnitudes.
fn small() -> f32 {
    any::<i8>() as f32
}
/// A component with small integer output, for arithmetic operators.
#[derive(Clone)]
pub struct Small<I, O> {
    s: u8,
    runs: u32,
    _m: core::marker::PhantomData<(I, O)>,
}
impl<I: Size<f32>, O: Size<f32>> AudioNode for Small<I, O> {
    const ID: u64 = 1001;
    type Inputs = I;
    type Outputs = O;
    fn tick(&mut self, input: &Frame<f32, I>) -> Frame<f32, O> {
        let mut acc = self.s;
        for i in 0..I::USIZE {
            acc = acc.rotate_left(3) ^ (input[i].to_bits() as u8);
        }
        self.s = acc ^ 0x5b;
        self.runs += 1;
        Frame::generate(|j| acc.rotate_left(j as u32) as i8 as f32)
    }
}
fn sm<I: Size<f32>, O: Size<f32>>() -> Small<I, O> {
    Small { s: any(), runs: 0, _m: core::marker::PhantomData }
}

/// Check `$g` against the reference closure on two successive samples.
macro_rules! agree {
    ($g:expr, $ni:ty, $same:ident, $f:expr) => {{
        let mut g = $g;
        let mut f = $f;
        for _ in 0..2 {
            let i = frame::<$ni>();
            let o = g.tick(&i);
            let q = f(&i);
            ensure!($same(&o, &q), "operator output equals its definition");
        }
        ensure!(g.inputs() == <$ni as fundsp::numeric_array::typenum::Unsigned>::USIZE, "input arity");
        g
    }};
}
fn add2<N: Size<f32>>(a: Frame<f32, N>, b: Frame<f32, N>) -> Frame<f32, N> {
    Frame::generate(|i| a[i] + b[i])
}
fn mul2<N: Size<f32>>(a: Frame<f32, N>, b: Frame<f32, N>) -> Frame<f32, N> {
    Frame::generate(|i| a[i] * b[i])
}
fn sub2<N: Size<f32>>(a: Frame<f32, N>, b: Frame<f32, N>) -> Frame<f32, N> {
    Frame::generate(|i| a[i] - b[i])
}
type F1 = Frame<f32, U1>;
type F2 = Frame<f32, U2>;
type F3 = Frame<f32, U3>;

macro_rules! surface {
    ($m:ident, $base:ident, $body:expr) => {
        pub mod $m {
            use super::*;
            use fundsp::$base as api;
            $body
        }
    };
}

contracts! {
    fn c02_pipe [8] {
        let (x, y) = (op::<U2, U3>(), op::<U3, U1>());
        let (mut rx, mut ry) = (x.clone(), y.clone());
        let g = agree!(An(x) >> An(y), U2, frame_bits, |i: &F2| ry.tick(&rx.tick(i)));
        ensure!(g.left().ticks == 2 && g.right().ticks == 2, "each component runs once per sample");
    }
    fn c02_stack [8] {
        let (x, y) = (op::<U1, U2>(), op::<U2, U1>());
        let (mut rx, mut ry) = (x.clone(), y.clone());
        let g = agree!(An(x) | An(y), U3, frame_bits, |i: &F3| {
            let a = rx.tick(&fr(&[i[0]]));
            let b = ry.tick(&fr(&[i[1], i[2]]));
            fr::<U3>(&[a[0], a[1], b[0]])
        });
        ensure!(g.left().ticks == 2 && g.right().ticks == 2, "each component runs once per sample");
    }
    fn c02_branch [8] {
        let (x, y) = (op::<U2, U2>(), op::<U2, U1>());
        let (mut rx, mut ry) = (x.clone(), y.clone());
        let g = agree!(An(x) ^ An(y), U2, frame_bits, |i: &F2| {
            let (a, b) = (rx.tick(i), ry.tick(i));
            fr::<U3>(&[a[0], a[1], b[0]])
        });
        ensure!(g.left().ticks == 2 && g.right().ticks == 2, "each component runs once per sample");
    }
    fn c02_bus [8] {
        let (x, y) = (sm::<U2, U2>(), sm::<U2, U2>());
        let (mut rx, mut ry) = (x.clone(), y.clone());
        let g = agree!(An(x) & An(y), U2, frame_same, |i: &F2| add2(rx.tick(i), ry.tick(i)));
        ensure!(g.left().runs == 2 && g.right().runs == 2, "each component runs once per sample");
    }
    fn c02_add [8] {
        let (x, y) = (sm::<U1, U2>(), sm::<U2, U2>());
        let (mut rx, mut ry) = (x.clone(), y.clone());
        let g = agree!(An(x) + An(y), U3, frame_same, |i: &F3| add2(rx.tick(&fr(&[i[0]])), ry.tick(&fr(&[i[1], i[2]]))));
        ensure!(g.left().runs == 2 && g.right().runs == 2, "each component runs once per sample");
    }
    fn c02_sub [8] {
        let (x, y) = (sm::<U1, U2>(), sm::<U2, U2>());
        let (mut rx, mut ry) = (x.clone(), y.clone());
        agree!(An(x) - An(y), U3, frame_same, |i: &F3| sub2(rx.tick(&fr(&[i[0]])), ry.tick(&fr(&[i[1], i[2]]))));
    }
    fn c02_mul [8] {
        let (x, y) = (sm::<U1, U2>(), sm::<U2, U2>());
        let (mut rx, mut ry) = (x.clone(), y.clone());
        agree!(An(x) * An(y), U3, frame_same, |i: &F3| mul2(rx.tick(&fr(&[i[0]])), ry.tick(&fr(&[i[1], i[2]]))));
    }
    fn c02_float_bus_add_sub [8] {
        let (x, y) = (op::<U1, U1>(), op::<U1, U1>());
        let (mut rx, mut ry) = (x.clone(), y.clone());
        let i = frame::<U2>();
        let (a, b) = (rx.clone().tick(&fr(&[i[0]]))[0], ry.clone().tick(&fr(&[i[1]]))[0]);
        ensure!(same((An(x.clone()) + An(y.clone())).tick(&i)[0], a + b), "sum of any two samples");
        ensure!(same((An(x.clone()) - An(y.clone())).tick(&i)[0], a - b), "difference of any two samples");
        let c = ry.tick(&fr(&[i[0]]))[0];
        ensure!(same((An(x) & An(y)).tick(&fr(&[i[0]]))[0], a + c), "bus of any two samples");
    }
    fn c02_float_scalar [8] {
        let (x, k) = (op::<U1, U1>(), any::<f32>());
        let mut rx = x.clone();
        let i = frame::<U1>();
        let a = rx.tick(&i)[0];
        ensure!(same((An(x.clone()) + k).tick(&i)[0], a + k), "scalar sum of any sample");
        ensure!(same((An(x.clone()) * k).tick(&i)[0], a * k), "scalar product of any sample");
        ensure!(same((An(x) - k).tick(&i)[0], a - k), "scalar difference of any sample");
    }
    fn c02_neg [8] {
        let x = op::<U1, U2>();
        let mut rx = x.clone();
        agree!(-An(x), U1, frame_same, |i: &F1| { let a = rx.tick(i); fr::<U2>(&[-a[0], -a[1]]) });
    }
    fn c02_thru_more_inputs [8] {
        let x = op::<U3, U1>();
        let mut rx = x.clone();
        let g = agree!(!An(x), U3, frame_bits, |i: &F3| { let a = rx.tick(i); fr::<U3>(&[a[0], i[1], i[2]]) });
        ensure!(g.outputs() == 3, "thru has as many outputs as inputs");
    }
    fn c02_thru_more_outputs [8] {
        let x = op::<U1, U3>();
        let mut rx = x.clone();
        let g = agree!(!An(x), U1, frame_bits, |i: &F1| { let a = rx.tick(i); fr::<U1>(&[a[0]]) });
        ensure!(g.outputs() == 1, "thru has as many outputs as inputs");
    }
    fn c02_scalar_add [8] {
        let (x, k) = (sm::<U1, U2>(), small());
        let (mut r1, mut r2, y) = (x.clone(), x.clone(), x.clone());
        agree!(An(x) + k, U1, frame_same, |i: &F1| { let a = r1.tick(i); fr::<U2>(&[a[0] + k, a[1] + k]) });
        agree!(k + An(y), U1, frame_same, |i: &F1| { let a = r2.tick(i); fr::<U2>(&[k + a[0], k + a[1]]) });
    }
    fn c02_scalar_sub [8] {
        let (x, k) = (sm::<U1, U2>(), small());
        let (mut r1, mut r2, y) = (x.clone(), x.clone(), x.clone());
        agree!(An(x) - k, U1, frame_same, |i: &F1| { let a = r1.tick(i); fr::<U2>(&[a[0] - k, a[1] - k]) });
        agree!(k - An(y), U1, frame_same, |i: &F1| { let a = r2.tick(i); fr::<U2>(&[k - a[0], k - a[1]]) });
    }
    fn c02_scalar_mul [8] {
        let (x, k) = (sm::<U1, U2>(), small());
        let (mut r1, mut r2, y) = (x.clone(), x.clone(), x.clone());
        agree!(An(x) * k, U1, frame_same, |i: &F1| { let a = r1.tick(i); fr::<U2>(&[a[0] * k, a[1] * k]) });
        agree!(k * An(y), U1, frame_same, |i: &F1| { let a = r2.tick(i); fr::<U2>(&[k * a[0], k * a[1]]) });
    }
    fn c02_multibus [8] {
        let x = sm::<U2, U2>();
        let mut r: [Small<U2, U2>; 3] = [sfam(&x, 0), sfam(&x, 1), sfam(&x, 2)];
        let g = agree!(busi::<U3, _, _>(|i| An(sfam(&x, i))), U2, frame_same, |i: &F2| {
            let (a, b, c) = (r[0].tick(i), r[1].tick(i), r[2].tick(i));
            add2(add2(a, b), c)
        });
        ensure!(g.node(0).runs == 2 && g.node(1).runs == 2 && g.node(2).runs == 2, "each component runs once per sample");
    }
    fn c02_multistack [10] {
        let x = op::<U2, U1>();
        let mut r: [Op<U2, U1>; 3] = [fam(&x, 0), fam(&x, 1), fam(&x, 2)];
        let g = agree!(stacki::<U3, _, _>(|i| An(fam(&x, i))), U6, frame_bits, |i: &Frame<f32, U6>| {
            let a = r[0].tick(&fr(&[i[0], i[1]]));
            let b = r[1].tick(&fr(&[i[2], i[3]]));
            let c = r[2].tick(&fr(&[i[4], i[5]]));
            fr::<U3>(&[a[0], b[0], c[0]])
        });
        ensure!(g.node(0).ticks == 2 && g.node(1).ticks == 2 && g.node(2).ticks == 2, "each component runs once per sample");
    }
    fn c02_multistack_outputs [10] {
        let x = op::<U1, U2>();
        let mut r: [Op<U1, U2>; 3] = [fam(&x, 0), fam(&x, 1), fam(&x, 2)];
        agree!(stacki::<U3, _, _>(|i| An(fam(&x, i))), U3, frame_bits, |i: &F3| {
            let (a, b, c) = (r[0].tick(&fr(&[i[0]])), r[1].tick(&fr(&[i[1]])), r[2].tick(&fr(&[i[2]])));
            fr::<U6>(&[a[0], a[1], b[0], b[1], c[0], c[1]])
        });
    }
    fn c02_multibranch [10] {
        let x = op::<U2, U2>();
        let mut r: [Op<U2, U2>; 3] = [fam(&x, 0), fam(&x, 1), fam(&x, 2)];
        let g = agree!(branchi::<U3, _, _>(|i| An(fam(&x, i))), U2, frame_bits, |i: &F2| {
            let (a, b, c) = (r[0].tick(i), r[1].tick(i), r[2].tick(i));
            fr::<U6>(&[a[0], a[1], b[0], b[1], c[0], c[1]])
        });
        ensure!(g.node(0).ticks == 2 && g.node(1).ticks == 2 && g.node(2).ticks == 2, "each component runs once per sample");
    }
    fn c02_chain [8] {
        let x = op::<U2, U2>();
        let mut r: [Op<U2, U2>; 3] = [fam(&x, 0), fam(&x, 1), fam(&x, 2)];
        let g = agree!(pipei::<U3, _, _>(|i| An(fam(&x, i))), U2, frame_bits, |i: &F2| {
            let a = r[0].tick(i);
            let b = r[1].tick(&a);
            r[2].tick(&b)
        });
        ensure!(g.node(0).ticks == 2 && g.node(1).ticks == 2 && g.node(2).ticks == 2, "each component runs once per sample");
    }
    fn c02_reduce [10] {
        let x = sm::<U1, U2>();
        let mut r: [Small<U1, U2>; 3] = [sfam(&x, 0), sfam(&x, 1), sfam(&x, 2)];
        let g = agree!(sumi::<U3, _, _>(|i| An(sfam(&x, i))), U3, frame_same, |i: &F3| {
            let (a, b, c) = (r[0].tick(&fr(&[i[0]])), r[1].tick(&fr(&[i[1]])), r[2].tick(&fr(&[i[2]])));
            add2(add2(a, b), c)
        });
        ensure!(g.node(0).runs == 2 && g.node(1).runs == 2 && g.node(2).runs == 2, "each component runs once per sample");
    }
    fn c02_single_member [8] {
        let x = op::<U2, U2>();
        let (mut a, mut b, mut c, mut d, mut e) = (x.clone(), x.clone(), x.clone(), x.clone(), x.clone());
        agree!(busi::<U1, _, _>(|i| An(fam(&x, i))), U2, frame_same, |i: &F2| a.tick(i));
        agree!(stacki::<U1, _, _>(|i| An(fam(&x, i))), U2, frame_bits, |i: &F2| b.tick(i));
        agree!(branchi::<U1, _, _>(|i| An(fam(&x, i))), U2, frame_bits, |i: &F2| c.tick(i));
        agree!(pipei::<U1, _, _>(|i| An(fam(&x, i))), U2, frame_bits, |i: &F2| d.tick(i));
        agree!(sumi::<U1, _, _>(|i| An(fam(&x, i))), U2, frame_same, |i: &F2| e.tick(i));
    }
    fn c02_pass_sink_zero [8] {
        agree!(pass(), U1, frame_bits, |i: &F1| i.clone());
        agree!(multipass::<U3>(), U3, frame_bits, |i: &F3| i.clone());
        agree!(sink(), U1, frame_bits, |_i: &F1| Frame::<f32, U0>::default());
        agree!(multisink::<U3>(), U3, frame_bits, |_i: &F3| Frame::<f32, U0>::default());
        agree!(zero(), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U1>(&[0.0]));
        agree!(multizero::<U3>(), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U3>(&[0.0, 0.0, 0.0]));
    }
    fn c02_constants [12] {
        let (a, b, c) = (any::<f32>(), any::<f32>(), any::<f32>());
        agree!(dc(a), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U1>(&[a]));
        agree!(dc((a, b)), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U2>(&[a, b]));
        agree!(constant((a, b, c)), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U3>(&[a, b, c]));
        agree!(dc((a, b, c, a)), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U4>(&[a, b, c, a]));
        agree!(dc((c, b, a, b, c)), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U5>(&[c, b, a, b, c]));
        agree!(dc((a, b, c, a, c, b)), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U6>(&[a, b, c, a, c, b]));
    }
    fn c02_constants_wide [12] {
        let (a, b, c, d, e) = (any::<f32>(), any::<f32>(), any::<f32>(), any::<f32>(), any::<f32>());
        agree!(dc((a, b, c, d, e, a, b)), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U7>(&[a, b, c, d, e, a, b]));
        agree!(dc((a, b, c, d, e, c, b, a)), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U8>(&[a, b, c, d, e, c, b, a]));
        agree!(dc((a, b, c, d, e, a, e, b, d)), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U9>(&[a, b, c, d, e, a, e, b, d]));
        agree!(dc((a, b, c, d, e, e, d, c, b, a)), U0, frame_bits, |_i: &Frame<f32, U0>| fr::<U10>(&[a, b, c, d, e, e, d, c, b, a]));
    }
    fn c02_split_reverse [12] {
        agree!(split::<U3>(), U1, frame_bits, |i: &F1| fr::<U3>(&[i[0], i[0], i[0]]));
        agree!(multisplit::<U2, U3>(), U2, frame_bits, |i: &F2| fr::<U6>(&[i[0], i[1], i[0], i[1], i[0], i[1]]));
        agree!(multisplit::<U3, U2>(), U3, frame_bits, |i: &F3| fr::<U6>(&[i[0], i[1], i[2], i[0], i[1], i[2]]));
        agree!(reverse::<U3>(), U3, frame_bits, |i: &F3| fr::<U3>(&[i[2], i[1], i[0]]));
        agree!(reverse::<U2>(), U2, frame_bits, |i: &F2| fr::<U2>(&[i[1], i[0]]));
    }
    fn c02_join [12] {
        // Sums of small integers and division by a power of two are exact in any order.
        let i = int_frame::<U4>();
        let o = join::<U4>().tick(&i);
        ensure!(o[0] == (i[0] + i[1] + i[2] + i[3]) / 4.0, "join averages");
        let o = multijoin::<U2, U2>().tick(&i);
        ensure!(o[0] == (i[0] + i[2]) / 2.0 && o[1] == (i[1] + i[3]) / 2.0, "multijoin averages corresponding channels of the branches");
        let o = multijoin::<U1, U4>().tick(&i);
        ensure!(o[0] == (i[0] + i[1] + i[2] + i[3]) / 4.0, "multijoin averages");
        let o = multijoin::<U4, U1>().tick(&i);
        ensure!(frame_same(&o, &i), "multijoin of one branch is the identity");
    }
    fn c02_join_three [12] {
        let mut i: F3 = { let f: F3 = fr(&[small(), small(), small()]); f };
        // A third of a multiple of three is exact.
        for k in 0..3 { i[k] *= 3.0; }
        let o = join::<U3>().tick(&i);
        ensure!(o[0] == (i[0] + i[1] + i[2]) / 3.0, "join averages");
        let j: Frame<f32, U6> = fr(&[i[0], i[1], i[2], i[1], i[2], i[0]]);
        let o = multijoin::<U2, U3>().tick(&j);
        ensure!(o[0] == (j[0] + j[2] + j[4]) / 3.0 && o[1] == (j[1] + j[3] + j[5]) / 3.0, "multijoin averages corresponding channels of the branches");
    }
    fn c02_impulse [8] {
        let mut g = impulse::<U2>();
        let o = g.tick(&Frame::default());
        ensure!(o[0] == 1.0 && o[1] == 1.0, "impulse starts with one sample of 1");
        for _ in 0..3 {
            let o = g.tick(&Frame::default());
            ensure!(o[0] == 0.0 && o[1] == 0.0, "impulse is then silent");
        }
        g.reset();
        let o = g.tick(&Frame::default());
        ensure!(o[0] == 1.0 && o[1] == 1.0, "reset rewinds the impulse");
    }
    fn c02_map [8] {
        agree!(map(|i: &F2| (i[1], i[0], i[1])), U2, frame_bits, |i: &F2| fr::<U3>(&[i[1], i[0], i[1]]));
    }
    fn c02_const_ops [8] {
        let (a, b) = (any::<f32>(), any::<f32>());
        let i = frame::<U2>();
        let o = add((a, b)).tick(&i);
        ensure!(same(o[0], i[0] + a) && same(o[1], i[1] + b), "add");
        let o = sub((a, b)).tick(&i);
        ensure!(same(o[0], i[0] - a) && same(o[1], i[1] - b), "sub");
    }
    fn c02_const_mul [8] {
        let (a, b) = (small(), small());
        let i: F2 = fr(&[small(), small()]);
        let o = mul((a, b)).tick(&i);
        ensure!(o[0] == i[0] * a && o[1] == i[1] * b, "mul scales each channel by its constant");
    }
    fn c02_named [8] {
        // Named forms are identical with the operators.
        let (x, y) = (sm::<U2, U2>(), sm::<U2, U2>());
        let i = frame::<U2>();
        let j = frame::<U4>();
        let (cx, cy) = (|| An(x.clone()), || An(y.clone()));
        ensure!(frame_same(&bus(cx(), cy()).tick(&i), &(cx() & cy()).tick(&i)), "bus");
        ensure!(frame_bits(&stack(cx(), cy()).tick(&j), &(cx() | cy()).tick(&j)), "stack");
        ensure!(frame_bits(&branch(cx(), cy()).tick(&i), &(cx() ^ cy()).tick(&i)), "branch");
        ensure!(frame_bits(&pipe(cx(), cy()).tick(&i), &(cx() >> cy()).tick(&i)), "pipe");
        ensure!(frame_bits(&thru(cx()).tick(&i), &(!cx()).tick(&i)), "thru");
        ensure!(frame_same(&sum(cx(), cy()).tick(&j), &(cx() + cy()).tick(&j)), "sum");
    }
    fn c02_named_product [8] {
        let (x, y) = (sm::<U1, U1>(), sm::<U1, U1>());
        let i = frame::<U2>();
        ensure!(frame_same(&product(An(x.clone()), An(y.clone())).tick(&i), &(An(x) * An(y)).tick(&i)), "product");
    }
    fn c02_fractional [8] {
        let x = op::<U1, U1>();
        let (mut r0, mut r1, mut r2) = (famf(&x, 0.0), famf(&x, 0.5), famf(&x, 1.0));
        let i = frame::<U1>();
        let j = frame::<U3>();
        let (a, b, c) = (r0.clone().tick(&i)[0], r1.clone().tick(&i)[0], r2.clone().tick(&i)[0]);
        let (d, e, f) = (r0.clone().tick(&fr(&[j[0]]))[0], r1.clone().tick(&fr(&[j[1]]))[0], r2.clone().tick(&fr(&[j[2]]))[0]);
        let o = stackf::<U3, _, _>(|t| An(famf(&x, t as f64))).tick(&j);
        ensure!(bits(o[0], d) && bits(o[1], e) && bits(o[2], f), "stackf");
        let o = branchf::<U3, _, _>(|t| An(famf(&x, t as f64))).tick(&i);
        ensure!(bits(o[0], a) && bits(o[1], b) && bits(o[2], c), "branchf");
        let o = pipef::<U3, _, _>(|t| An(famf(&x, t as f64))).tick(&i);
        ensure!(bits(o[0], r2.tick(&r1.tick(&r0.tick(&i)))[0]), "pipef");
        let mut h = famf(&x, 0.5);
        ensure!(bits(pipef::<U1, _, _>(|t| An(famf(&x, t as f64))).tick(&i)[0], h.tick(&i)[0]), "a single fractional member is at one half");
    }
    fn c02_fractional_sums [8] {
        let x = sm::<U1, U1>();
        let g = |t: f32| { let mut o = x.clone(); o.s ^= (t * 128.0) as u8; o };
        let (mut r0, mut r1, mut r2) = (g(0.0), g(0.5), g(1.0));
        let i = frame::<U1>();
        let j = frame::<U3>();
        let (a, b, c) = (r0.clone().tick(&i)[0], r1.clone().tick(&i)[0], r2.clone().tick(&i)[0]);
        let (d, e, f) = (r0.tick(&fr(&[j[0]]))[0], r1.tick(&fr(&[j[1]]))[0], r2.tick(&fr(&[j[2]]))[0]);
        ensure!(busf::<U3, _, _>(|t| An(g(t as f32))).tick(&i)[0] == a + b + c, "busf");
        ensure!(sumf::<U3, _, _>(|t| An(g(t as f32))).tick(&j)[0] == d + e + f, "sumf");
    }
    fn c02_mixer [8] {
        // One symbolic coefficient at a time: the rest are distinct constants.
        let mut m = [[2.0f32, 3.0], [5.0, 7.0], [11.0, 13.0]];
        let i: F2 = fr(&[small(), small()]);
        let rows: Frame<F2, U3> = Frame::generate(|k| fr(&m[k]));
        let o = Mixer::<U2, U3>::new(rows).tick(&i);
        for k in 0..3 {
            ensure!(o[k] == m[k][0] * i[0] + m[k][1] * i[1], "mixer output is the matrix row times the input");
        }
    }
    fn c02_mono_stereo [8] {
        let x = op::<U0, U2>();
        let mut r = x.clone();
        let o = r.tick(&Frame::default());
        ensure!(same(An(x.clone()).get_mono(), (o[0] + o[1]) / 2.0), "get_mono averages two channels");
        let (l, rr) = An(x).get_stereo();
        ensure!(bits(l, o[0]) && bits(rr, o[1]), "get_stereo");
        let x = op::<U0, U1>();
        let mut r = x.clone();
        let o = r.tick(&Frame::default());
        ensure!(bits(An(x.clone()).get_mono(), o[0]), "get_mono");
        let (l, rr) = An(x).get_stereo();
        ensure!(bits(l, o[0]) && bits(rr, o[0]), "get_stereo duplicates one channel");
    }
    fn c02_filter_mono_stereo [8] {
        let (a, b) = (any::<f32>(), any::<f32>());
        let x = op::<U1, U1>();
        let mut r = x.clone();
        ensure!(bits(An(x).filter_mono(a), r.tick(&fr(&[a]))[0]), "filter_mono");
        let x = op::<U2, U2>();
        let mut r = x.clone();
        let o = r.tick(&fr(&[a, b]));
        let (l, rr) = An(x).filter_stereo(a, b);
        ensure!(bits(l, o[0]) && bits(rr, o[1]), "filter_stereo");
    }
    fn c02_nested [8] {
        // An expression exercising several operators at once.
        let (x, y, z) = (op::<U1, U1>(), op::<U1, U2>(), op::<U2, U1>());
        let (mut rx, mut ry, mut rz) = (x.clone(), y.clone(), z.clone());
        agree!((An(x) ^ pass()) >> (reverse::<U2>()) >> (pass() | (An(y) >> An(z))), U1, frame_bits, |i: &F1| {
            let a = rx.tick(i);
            let b = rz.tick(&ry.tick(&a));
            fr::<U2>(&[i[0], b[0]])
        });
    }
}
