//! C03: processing a block of n samples equals n single-sample ticks.
//!
//! Components obey the block contract at one symbolic witness sample `t` (see `Op::process`)
//! and may do anything at all other samples; the combinator's output at `t` must then be
//! what its single-sample definition gives, for every block size n <= 64 and every t < n.
use crate::common::*;
use crate::nd::*;
use fundsp::{F32x, MAX_BUFFER_SIZE, SIMD_N};

/// Any block size that contains sample 13.
fn n_after_13() -> usize {
    let n = below(MAX_BUFFER_SIZE + 1);
    assume(n > 13);
    n
}
fn sizes() -> (usize, usize) {
    let n = below(MAX_BUFFER_SIZE + 1);
    let t = below(MAX_BUFFER_SIZE);
    assume(t < n);
    (n, t)
}

/// Run `$g` on one block and compare the witness sample with the single-sample result.
macro_rules! block {
    ($g:expr, $r:expr, $ni:ty, $no:ty, $n:ident, $t:ident, $same:ident, $frame:ident) => {{
        let mut g = $g;
        let mut r = $r;
        let i = $frame::<$ni>();
        let mut ib = BufferArray::<$ni>::new();
        let mut ob = BufferArray::<$no>::new();
        for c in 0..<$ni as fundsp::numeric_array::typenum::Unsigned>::USIZE {
            ib.set_f32(c, $t, i[c]);
        }
        g.process($n, &ib.buffer_ref(), &mut ob.buffer_mut());
        let q = r.tick(&i);
        let o: Frame<f32, $no> = Frame::generate(|c| ob.at_f32(c, $t));
        ensure!($same(&o, &q), "block output equals single-sample output at every position");
        g
    }};
}
macro_rules! once {
    ($x:expr, $n:ident) => {
        ensure!($x.blocks == 1 && $x.block_size == $n && $x.ticks == 0, "each component processes the block exactly once");
    };
}

/// Member `i` of a family of components with unrelated states.
fn fam(t: usize, i: u32) -> Op<U1, U2> {
    let mut o = op_at::<U1, U2>(t);
    o.s ^= i.wrapping_mul(0x0123_4567);
    o
}
fn fam1(t: usize, i: u32) -> Op<U1, U1> {
    let mut o = op_at::<U1, U1>(t);
    o.s ^= i.wrapping_mul(0x0123_4567);
    o
}
fn fams(t: usize, i: u32) -> Op<U1, U1> {
    let mut o = fam1(t, i);
    o.small = true;
    o
}
/// A memoryless node that relies on the default block processing.
#[derive(Clone)]
struct Plain(u32);
impl AudioNode for Plain {
    const ID: u64 = 1002;
    type Inputs = U2;
    type Outputs = U2;
    fn tick(&mut self, input: &Frame<f32, U2>) -> Frame<f32, U2> {
        out_of(mix(self.0, input))
    }
}
/// A node counting its ticks, relying on default processing and `process_remainder`.
#[derive(Clone)]
struct Count(u32, bool);
impl AudioNode for Count {
    const ID: u64 = 1003;
    type Inputs = U1;
    type Outputs = U1;
    fn tick(&mut self, input: &Frame<f32, U1>) -> Frame<f32, U1> {
        self.0 += 1;
        [f32::from_bits(input[0].to_bits().rotate_left(7) ^ self.0)].into()
    }
}

fn b_pipe(n: usize, t: usize) {
    let g = An(op_at::<U2, U2>(t)) >> An(op_at::<U2, U1>(t));
    let g = block!(g.clone(), g, U2, U1, n, t, frame_bits, frame);
    once!(g.left(), n);
    once!(g.right(), n);
}
fn b_stack(n: usize, t: usize) {
    let g = An(op_at::<U1, U2>(t)) | An(op_at::<U2, U1>(t));
    let g = block!(g.clone(), g, U3, U3, n, t, frame_bits, frame);
    once!(g.left(), n);
    once!(g.right(), n);
}
fn b_branch(n: usize, t: usize) {
    let g = An(op_at::<U2, U1>(t)) ^ An(op_at::<U2, U2>(t));
    let g = block!(g.clone(), g, U2, U3, n, t, frame_bits, frame);
    once!(g.left(), n);
    once!(g.right(), n);
}
fn b_multistack(n: usize, t: usize) {
    let g = stacki::<U3, _, _>(|i| An(fam(t, i as u32)) );
    let g = block!(g.clone(), g, U3, U6, n, t, frame_bits, frame);
    once!(g.node(0), n);
    once!(g.node(1), n);
    once!(g.node(2), n);
}
fn b_multibranch(n: usize, t: usize) {
    let g = branchi::<U3, _, _>(|i| An(fam(t, i as u32)));
    let g = block!(g.clone(), g, U1, U6, n, t, frame_bits, frame);
    once!(g.node(0), n);
    once!(g.node(1), n);
    once!(g.node(2), n);
}
fn b_chain(n: usize, t: usize) {
    let g = pipei::<U3, _, _>(|i| An(fam1(t, i as u32)));
    let g = block!(g.clone(), g, U1, U1, n, t, frame_bits, frame);
    once!(g.node(0), n);
    once!(g.node(1), n);
    once!(g.node(2), n);
}
fn b_chain_even(n: usize, t: usize) {
    let g = pipei::<U4, _, _>(|i| An(fam1(t, i as u32)));
    let g = block!(g.clone(), g, U1, U1, n, t, frame_bits, frame);
    once!(g.node(0), n);
    once!(g.node(1), n);
    once!(g.node(2), n);
    once!(g.node(3), n);
}
fn b_bus(n: usize, t: usize) {
    let g = An(ops_at::<U1, U1>(t)) & An(ops_at::<U1, U1>(t));
    let g = block!(g.clone(), g, U1, U1, n, t, frame_same, frame);
    once!(g.left(), n);
    once!(g.right(), n);
}
fn b_bus_stereo(n: usize, t: usize) {
    let g = An(ops_at::<U1, U2>(t)) & An(ops_at::<U1, U2>(t));
    let g = block!(g.clone(), g, U1, U2, n, t, frame_same, frame);
    once!(g.left(), n);
    once!(g.right(), n);
}
fn b_add(n: usize, t: usize) {
    let g = An(ops_at::<U1, U1>(t)) + An(ops_at::<U1, U1>(t));
    let g = block!(g.clone(), g, U2, U1, n, t, frame_same, frame);
    once!(g.left(), n);
    once!(g.right(), n);
}
fn b_sub(n: usize, t: usize) {
    let g = An(ops_at::<U1, U1>(t)) - An(ops_at::<U1, U1>(t));
    let g = block!(g.clone(), g, U2, U1, n, t, frame_same, frame);
    once!(g.left(), n);
    once!(g.right(), n);
}
fn b_mul(n: usize, t: usize) {
    let g = An(ops_at::<U1, U1>(t)) * An(ops_at::<U1, U1>(t));
    let g = block!(g.clone(), g, U2, U1, n, t, frame_same, frame);
    once!(g.left(), n);
    once!(g.right(), n);
}
fn b_neg(n: usize, t: usize) {
    let g = -An(ops_at::<U1, U2>(t));
    let g = block!(g.clone(), g, U1, U2, n, t, frame_same, frame);
}
fn b_add_scalar(n: usize, t: usize) {
    let k = any::<i8>() as f32;
    let g = An(ops_at::<U1, U1>(t)) + k;
    let g = block!(g.clone(), g, U1, U1, n, t, frame_same, frame);
}
fn b_sub_scalar(n: usize, t: usize) {
    let k = any::<i8>() as f32;
    let g = An(ops_at::<U1, U1>(t)) - k;
    let g = block!(g.clone(), g, U1, U1, n, t, frame_same, frame);
}
fn b_scalar_sub(n: usize, t: usize) {
    let k = any::<i8>() as f32;
    let g = k - An(ops_at::<U1, U1>(t));
    let g = block!(g.clone(), g, U1, U1, n, t, frame_same, frame);
}
fn b_mul_scalar(n: usize, t: usize) {
    let k = any::<i8>() as f32;
    let g = An(ops_at::<U1, U1>(t)) * k;
    let g = block!(g.clone(), g, U1, U1, n, t, frame_same, frame);
}
fn b_thru(n: usize, t: usize) {
    let g = !An(op_at::<U3, U1>(t));
    let g = block!(g.clone(), g, U3, U3, n, t, frame_bits, frame);
}
fn b_thru_cut(n: usize, t: usize) {
    let g = !An(op_at::<U1, U3>(t));
    let g = block!(g.clone(), g, U1, U1, n, t, frame_bits, frame);
}
fn b_multibus(n: usize, t: usize) {
    let g = busi::<U3, _, _>(|i| An(fams(t, i as u32)));
    let g = block!(g.clone(), g, U1, U1, n, t, frame_same, frame);
    once!(g.node(0), n);
    once!(g.node(1), n);
    once!(g.node(2), n);
}
fn b_reduce(n: usize, t: usize) {
    let g = sumi::<U3, _, _>(|i| An(fams(t, i as u32)));
    let g = block!(g.clone(), g, U3, U1, n, t, frame_same, frame);
    once!(g.node(0), n);
    once!(g.node(1), n);
    once!(g.node(2), n);
}
fn b_multipass(n: usize, t: usize) {
    let g = multipass::<U2>();
    let g = block!(g.clone(), g, U2, U2, n, t, frame_bits, frame);
}
fn b_pass(n: usize, t: usize) {
    let g = pass();
    let g = block!(g.clone(), g, U1, U1, n, t, frame_bits, frame);
}
fn b_dc(n: usize, t: usize) {
    let k: f32 = any();
    let g = dc((k, 2.0));
    let g = block!(g.clone(), g, U0, U2, n, t, frame_bits, frame);
}
fn b_split(n: usize, t: usize) {
    let g = split::<U3>();
    let g = block!(g.clone(), g, U1, U3, n, t, frame_bits, frame);
}
fn b_multisplit(n: usize, t: usize) {
    let g = multisplit::<U2, U2>();
    let g = block!(g.clone(), g, U2, U4, n, t, frame_bits, frame);
}
fn b_reverse(n: usize, t: usize) {
    let g = reverse::<U3>();
    let g = block!(g.clone(), g, U3, U3, n, t, frame_bits, frame);
}
fn b_join(n: usize, t: usize) {
    let g = join::<U2>();
    let g = block!(g.clone(), g, U2, U1, n, t, frame_same, int_frame);
}
fn b_multijoin(n: usize, t: usize) {
    let g = multijoin::<U2, U2>();
    let g = block!(g.clone(), g, U4, U2, n, t, frame_same, int_frame);
}
fn b_map(n: usize, t: usize) {
    let g = map(|i: &Frame<f32, U2>| (i[1], i[0]));
    let g = block!(g.clone(), g, U2, U2, n, t, frame_bits, frame);
}
fn b_default_process(n: usize, t: usize) {
    let k: f32 = any();
    let g = An(Plain(k.to_bits()));
    let g = block!(g.clone(), g, U2, U2, n, t, frame_bits, frame);
}
contracts! {
    fn c03_pipe_all [10] { let (n, t) = sizes(); b_pipe(n, t) }
    fn c03_stack_all [10] { let (n, t) = sizes(); b_stack(n, t) }
    fn c03_branch_all [10] { let (n, t) = sizes(); b_branch(n, t) }
    fn c03_multistack_all [10] { let (n, t) = sizes(); b_multistack(n, t) }
    fn c03_multibranch_all [10] { let (n, t) = sizes(); b_multibranch(n, t) }
    fn c03_chain_n [12] { b_chain(n_after_13(), 13) }
    fn c03_chain_last [12] { b_chain(64, 63) }
    fn x03_chain_first [12] { b_chain(1, 0) }
    fn c03_chain_ninth [12] { b_chain(9, 8) }
    fn c03_chain_even_n [12] { b_chain_even(n_after_13(), 13) }
    fn c03_chain_even_last [12] { b_chain_even(64, 63) }
    fn x03_chain_even_first [12] { b_chain_even(1, 0) }
    fn c03_chain_even_ninth [12] { b_chain_even(9, 8) }
    fn c03_bus_n [12] { b_bus(n_after_13(), 13) }
    fn c03_bus_last [12] { b_bus(64, 63) }
    fn x03_bus_first [12] { b_bus(1, 0) }
    fn c03_bus_ninth [12] { b_bus(9, 8) }
    fn x03_bus_stereo_n [12] { b_bus_stereo(n_after_13(), 13) }
    fn c03_bus_stereo_last [12] { b_bus_stereo(64, 63) }
    fn x03_bus_stereo_first [12] { b_bus_stereo(1, 0) }
    fn c03_bus_stereo_ninth [12] { b_bus_stereo(9, 8) }
    fn c03_add_n [12] { b_add(n_after_13(), 13) }
    fn c03_add_last [12] { b_add(64, 63) }
    fn x03_add_first [12] { b_add(1, 0) }
    fn c03_add_ninth [12] { b_add(9, 8) }
    fn c03_sub_n [12] { b_sub(n_after_13(), 13) }
    fn c03_sub_last [12] { b_sub(64, 63) }
    fn x03_sub_first [12] { b_sub(1, 0) }
    fn c03_sub_ninth [12] { b_sub(9, 8) }
    fn c03_mul_n [12] { b_mul(n_after_13(), 13) }
    fn c03_mul_last [12] { b_mul(64, 63) }
    fn x03_mul_first [12] { b_mul(1, 0) }
    fn c03_mul_ninth [12] { b_mul(9, 8) }
    fn c03_neg_n [12] { b_neg(n_after_13(), 13) }
    fn c03_neg_last [12] { b_neg(64, 63) }
    fn x03_neg_first [12] { b_neg(1, 0) }
    fn c03_neg_ninth [12] { b_neg(9, 8) }
    fn c03_add_scalar_n [12] { b_add_scalar(n_after_13(), 13) }
    fn c03_add_scalar_last [12] { b_add_scalar(64, 63) }
    fn x03_add_scalar_first [12] { b_add_scalar(1, 0) }
    fn c03_add_scalar_ninth [12] { b_add_scalar(9, 8) }
    fn c03_sub_scalar_n [12] { b_sub_scalar(n_after_13(), 13) }
    fn c03_sub_scalar_last [12] { b_sub_scalar(64, 63) }
    fn x03_sub_scalar_first [12] { b_sub_scalar(1, 0) }
    fn c03_sub_scalar_ninth [12] { b_sub_scalar(9, 8) }
    fn x03_scalar_sub_n [12] { b_scalar_sub(n_after_13(), 13) }
    fn c03_scalar_sub_last [12] { b_scalar_sub(64, 63) }
    fn x03_scalar_sub_first [12] { b_scalar_sub(1, 0) }
    fn c03_scalar_sub_ninth [12] { b_scalar_sub(9, 8) }
    fn c03_mul_scalar_n [12] { b_mul_scalar(n_after_13(), 13) }
    fn c03_mul_scalar_last [12] { b_mul_scalar(64, 63) }
    fn x03_mul_scalar_first [12] { b_mul_scalar(1, 0) }
    fn c03_mul_scalar_ninth [12] { b_mul_scalar(9, 8) }
    fn c03_thru_n [12] { b_thru(n_after_13(), 13) }
    fn c03_thru_last [12] { b_thru(64, 63) }
    fn x03_thru_first [12] { b_thru(1, 0) }
    fn c03_thru_ninth [12] { b_thru(9, 8) }
    fn c03_thru_cut_n [12] { b_thru_cut(n_after_13(), 13) }
    fn c03_thru_cut_last [12] { b_thru_cut(64, 63) }
    fn x03_thru_cut_first [12] { b_thru_cut(1, 0) }
    fn c03_thru_cut_ninth [12] { b_thru_cut(9, 8) }
    fn x03_multibus_n [12] { b_multibus(n_after_13(), 13) }
    fn c03_multibus_last [12] { b_multibus(64, 63) }
    fn x03_multibus_first [12] { b_multibus(1, 0) }
    fn c03_multibus_ninth [12] { b_multibus(9, 8) }
    fn x03_reduce_n [12] { b_reduce(n_after_13(), 13) }
    fn c03_reduce_last [12] { b_reduce(64, 63) }
    fn x03_reduce_first [12] { b_reduce(1, 0) }
    fn c03_reduce_ninth [12] { b_reduce(9, 8) }
    fn c03_multipass_n [12] { b_multipass(n_after_13(), 13) }
    fn c03_multipass_last [12] { b_multipass(64, 63) }
    fn x03_multipass_first [12] { b_multipass(1, 0) }
    fn c03_multipass_ninth [12] { b_multipass(9, 8) }
    fn c03_pass_n [12] { b_pass(n_after_13(), 13) }
    fn c03_pass_last [12] { b_pass(64, 63) }
    fn x03_pass_first [12] { b_pass(1, 0) }
    fn c03_pass_ninth [12] { b_pass(9, 8) }
    fn c03_dc_n [12] { b_dc(n_after_13(), 13) }
    fn c03_dc_last [12] { b_dc(64, 63) }
    fn x03_dc_first [12] { b_dc(1, 0) }
    fn c03_dc_ninth [12] { b_dc(9, 8) }
    fn x03_split_n [12] { b_split(n_after_13(), 13) }
    fn c03_split_last [12] { b_split(64, 63) }
    fn x03_split_first [12] { b_split(1, 0) }
    fn c03_split_ninth [12] { b_split(9, 8) }
    fn x03_multisplit_n [12] { b_multisplit(n_after_13(), 13) }
    fn c03_multisplit_last [12] { b_multisplit(64, 63) }
    fn x03_multisplit_first [12] { b_multisplit(1, 0) }
    fn c03_multisplit_ninth [12] { b_multisplit(9, 8) }
    fn c03_reverse_n [12] { b_reverse(n_after_13(), 13) }
    fn c03_reverse_last [12] { b_reverse(64, 63) }
    fn x03_reverse_first [12] { b_reverse(1, 0) }
    fn c03_reverse_ninth [12] { b_reverse(9, 8) }
    fn x03_join_n [12] { b_join(n_after_13(), 13) }
    fn c03_join_last [12] { b_join(64, 63) }
    fn x03_join_first [12] { b_join(1, 0) }
    fn c03_join_ninth [12] { b_join(9, 8) }
    fn x03_multijoin_n [12] { b_multijoin(n_after_13(), 13) }
    fn c03_multijoin_last [12] { b_multijoin(64, 63) }
    fn x03_multijoin_first [12] { b_multijoin(1, 0) }
    fn c03_multijoin_ninth [12] { b_multijoin(9, 8) }
    fn x03_map_n [66] { let n = below(17); assume(n > 13); b_map(n, 13) }
    fn c03_map_last [66] { b_map(64, 63) }
    fn x03_map_first [66] { b_map(1, 0) }
    fn c03_map_ninth [66] { b_map(9, 8) }
    fn x03_default_process_n [66] { let n = below(17); assume(n > 13); b_default_process(n, 13) }
    fn c03_default_process_last [66] { b_default_process(64, 63) }
    fn x03_default_process_first [66] { b_default_process(1, 0) }
    fn c03_default_process_ninth [66] { b_default_process(9, 8) }
    fn c03_default_order [18] {
        // Default processing ticks once per sample, in order.
        let s: u8 = any();
        let n = below(17);
        let mut g = Count(s as u32, false);
        let mut r = g.clone();
        let mut ib = BufferArray::<U1>::new();
        let mut ob = BufferArray::<U1>::new();
        for i in 0..16 { ib.set_f32(0, i, any()); }
        g.process(n, &ib.buffer_ref(), &mut ob.buffer_mut());
        for i in 0..16 {
            if i < n {
                ensure!(bits(ob.at_f32(0, i), r.tick(&[ib.at_f32(0, i)].into())[0]), "samples are processed in order");
            } else {
                ensure!(ob.at_f32(0, i).to_bits() == 0, "samples past the block are untouched");
            }
        }
        ensure!(g.0 == r.0, "state after the block is the state after n ticks");
    }
    fn c03_remainder [18] {
        // process_remainder handles exactly the samples after the last full vector.
        let s: u8 = any();
        let n = below(17);
        let mut g = Count(s as u32, false);
        let mut r = g.clone();
        let mut ib = BufferArray::<U1>::new();
        let mut ob = BufferArray::<U1>::new();
        for i in 0..16 { ib.set_f32(0, i, any()); }
        g.process_remainder(n, &ib.buffer_ref(), &mut ob.buffer_mut());
        let first = n / SIMD_N * SIMD_N;
        for i in 0..16 {
            if i >= first && i < n {
                ensure!(bits(ob.at_f32(0, i), r.tick(&[ib.at_f32(0, i)].into())[0]), "remaining samples are processed in order");
            } else {
                ensure!(ob.at_f32(0, i).to_bits() == 0, "other samples are untouched");
            }
        }
        ensure!(g.0 == r.0, "state after the remainder");
    }
}
