//! C01: sample buffers behave as independent channels of 64 samples.
use crate::common::*;
use crate::nd::*;
use fundsp::{F32x, MAX_BUFFER_SIZE, SIMD_LEN, SIMD_N};

const L: usize = MAX_BUFFER_SIZE;

/// Scalar write, then scalar and vector reads at an unrelated position.
macro_rules! rw_scalar {
    ($b:ident, $n:expr) => {{
        let (c0, i0, v) = (below($n), below(L), any::<f32>());
        $b.set_f32(c0, i0, v);
        let (c, i) = (below($n), below(L));
        let want = if c == c0 && i == i0 { v } else { 0.0 };
        ensure!(bits($b.at_f32(c, i), want), "a sample reads back the last value written to its channel and index, all others are unchanged");
        (c, i, want)
    }};
}
/// Vector write, then reads.
macro_rules! rw_vector {
    ($b:ident, $n:expr) => {{
        let a: [f32; 8] = [any(), any(), any(), any(), any(), any(), any(), any()];
        let (c0, j0) = (below($n), below(SIMD_LEN));
        $b.set(c0, j0, F32x::new(a));
        let (c, i) = (below($n), below(L));
        let want = if c == c0 && i / SIMD_N == j0 { a[i % SIMD_N] } else { 0.0 };
        ensure!(bits($b.at_f32(c, i), want), "writing a vector changes exactly its eight samples");
        (c, i, want)
    }};
}
fn vec_at(x: &[F32x], i: usize) -> f32 {
    x[i / SIMD_N].to_array()[i % SIMD_N]
}
fn subset_ref(first: usize, n: usize) {
    let mut b = BufferVec::new(4);
    let (c0, i0, v) = (below(4), below(L), any::<f32>());
    b.set_f32(c0, i0, v);
    let r = b.buffer_ref();
    let s = r.subset(first, n);
    ensure!(s.channels() == n, "subset channels");
    let (c, i) = (below(n), below(L));
    let want = if c + first == c0 && i == i0 { v } else { 0.0 };
    ensure!(bits(s.at_f32(c, i), want), "a subset shows exactly its channels of the parent");
}
fn subset_mut(first: usize, n: usize) {
    let mut b = BufferVec::new(4);
    let (k, i, v) = (below(n), below(L), any::<f32>());
    {
        let mut m = b.buffer_mut();
        let mut s = m.subset(first, n);
        ensure!(s.channels() == n, "subset channels");
        s.set_f32(k, i, v);
    }
    let (c, j) = (below(4), below(L));
    let want = if c == first + k && j == i { v } else { 0.0 };
    ensure!(bits(b.at_f32(c, j), want), "a subset writes exactly its channels of the parent");
}

contracts! {

    fn c01_vec_scalar [67] {
        let mut b = BufferVec::new(3);
        ensure!(b.channels() == 3, "channels");
        ensure!(b.len() == SIMD_LEN && b.length() == SIMD_LEN, "length is the block size in vectors");
        rw_scalar!(b, 3);
    }
    fn c01_vec_vector [67] {
        let mut b = BufferVec::new(3);
        rw_vector!(b, 3);
    }
    fn c01_vec_read_vector [67] {
        let mut b = BufferVec::new(3);
        let (c, i, want) = rw_scalar!(b, 3);
        ensure!(bits(b.at(c, i / SIMD_N).to_array()[i % SIMD_N], want), "a vector item holds eight consecutive samples of its channel");
    }
    fn c01_vec_slices [67] {
        let mut b = BufferVec::new(3);
        let (c0, i0, v) = (below(3), below(L), any::<f32>());
        b.set_f32(c0, i0, v);
        let (c, i) = (below(3), below(L));
        let want = if c == c0 && i == i0 { v } else { 0.0 };
        ensure!(b.channel_f32(c).len() == L && b.channel(c).len() == SIMD_LEN && b.channel_mut(c).len() == SIMD_LEN, "channel slice length");
        ensure!(bits(b.channel_f32(c)[i], want), "channel slice");
        ensure!(bits(vec_at(b.channel(c), i), want), "channel vectors");
    }
    fn c01_vec_slices_mut [67] {
        let mut b = BufferVec::new(3);
        let (c0, i0, v) = (below(3), below(L), any::<f32>());
        ensure!(b.channel_f32_mut(c0).len() == L, "channel slice length");
        b.channel_f32_mut(c0)[i0] = v;
        let (c, i) = (below(3), below(L));
        let want = if c == c0 && i == i0 { v } else { 0.0 };
        ensure!(bits(b.at_f32(c, i), want), "mutable channel slice writes its channel");
        let a: [f32; 8] = [any(), any(), any(), any(), any(), any(), any(), any()];
        b.channel_mut(c0)[i0 / SIMD_N] = F32x::new(a);
        let want = if c == c0 && i / SIMD_N == i0 / SIMD_N { a[i % SIMD_N] } else { 0.0 };
        ensure!(bits(b.at_f32(c, i), want), "mutable channel vectors write their channel");
    }
    fn c01_vec_clear [67] {
        let mut b = BufferVec::new(3);
        b.set_f32(below(3), below(L), any());
        b.clear();
        ensure!(b.at_f32(below(3), below(L)).to_bits() == 0, "clear zeroes every sample");
    }
    fn c01_vec_views [67] {
        let mut b = BufferVec::new(3);
        ensure!(b.buffer_ref().channels() == 3 && b.buffer_mut().channels() == 3, "channels");
        let (c0, i0, v) = (below(3), below(L), any::<f32>());
        b.buffer_mut().set_f32(c0, i0, v);
        let (c, i) = (below(3), below(L));
        let want = if c == c0 && i == i0 { v } else { 0.0 };
        ensure!(bits(b.at_f32(c, i), want), "the mutable view writes through");
        ensure!(bits(b.buffer_ref().at_f32(c, i), want), "the reference view reads through");
        ensure!(bits(b.buffer_mut().buffer_ref().at_f32(c, i), want), "reborrow as reference view");
    }

    fn c01_array_scalar [67] {
        let mut b = BufferArray::<U3>::new();
        ensure!(b.channels() == 3, "channels");
        ensure!(b.len() == SIMD_LEN && b.length() == SIMD_LEN, "length is the block size in vectors");
        rw_scalar!(b, 3);
    }
    fn c01_array_vector [67] {
        let mut b = BufferArray::<U3>::new();
        rw_vector!(b, 3);
    }
    fn c01_array_read_vector [67] {
        let mut b = BufferArray::<U3>::new();
        let (c, i, want) = rw_scalar!(b, 3);
        ensure!(bits(b.at(c, i / SIMD_N).to_array()[i % SIMD_N], want), "a vector item holds eight consecutive samples of its channel");
    }
    fn c01_array_slices [67] {
        let mut b = BufferArray::<U3>::new();
        let (c0, i0, v) = (below(3), below(L), any::<f32>());
        b.set_f32(c0, i0, v);
        let (c, i) = (below(3), below(L));
        let want = if c == c0 && i == i0 { v } else { 0.0 };
        ensure!(b.channel_f32(c).len() == L && b.channel(c).len() == SIMD_LEN && b.channel_mut(c).len() == SIMD_LEN, "channel slice length");
        ensure!(bits(b.channel_f32(c)[i], want), "channel slice");
        ensure!(bits(vec_at(b.channel(c), i), want), "channel vectors");
    }
    fn c01_array_slices_mut [67] {
        let mut b = BufferArray::<U3>::new();
        let (c0, i0, v) = (below(3), below(L), any::<f32>());
        ensure!(b.channel_f32_mut(c0).len() == L, "channel slice length");
        b.channel_f32_mut(c0)[i0] = v;
        let (c, i) = (below(3), below(L));
        let want = if c == c0 && i == i0 { v } else { 0.0 };
        ensure!(bits(b.at_f32(c, i), want), "mutable channel slice writes its channel");
        let a: [f32; 8] = [any(), any(), any(), any(), any(), any(), any(), any()];
        b.channel_mut(c0)[i0 / SIMD_N] = F32x::new(a);
        let want = if c == c0 && i / SIMD_N == i0 / SIMD_N { a[i % SIMD_N] } else { 0.0 };
        ensure!(bits(b.at_f32(c, i), want), "mutable channel vectors write their channel");
    }
    fn c01_array_clear [67] {
        let mut b = BufferArray::<U3>::new();
        b.set_f32(below(3), below(L), any());
        b.clear();
        ensure!(b.at_f32(below(3), below(L)).to_bits() == 0, "clear zeroes every sample");
    }
    fn c01_array_views [67] {
        let mut b = BufferArray::<U3>::new();
        ensure!(b.buffer_ref().channels() == 3 && b.buffer_mut().channels() == 3, "channels");
        let (c0, i0, v) = (below(3), below(L), any::<f32>());
        b.buffer_mut().set_f32(c0, i0, v);
        let (c, i) = (below(3), below(L));
        let want = if c == c0 && i == i0 { v } else { 0.0 };
        ensure!(bits(b.at_f32(c, i), want), "the mutable view writes through");
        ensure!(bits(b.buffer_ref().at_f32(c, i), want), "the reference view reads through");
        ensure!(bits(b.buffer_mut().buffer_ref().at_f32(c, i), want), "reborrow as reference view");
    }

    fn c01_mut_scalar [67] {
        let mut b = BufferVec::new(3);
        let mut m = b.buffer_mut();
        let (c, i, want) = rw_scalar!(m, 3);
        ensure!(bits(m.at(c, i / SIMD_N).to_array()[i % SIMD_N], want), "vector");
    }
    fn c01_mut_vector [67] {
        let mut b = BufferVec::new(3);
        let mut m = b.buffer_mut();
        rw_vector!(m, 3);
    }
    fn c01_mut_at_mut [67] {
        let mut b = BufferVec::new(3);
        let mut m = b.buffer_mut();
        let a: [f32; 8] = [any(), any(), any(), any(), any(), any(), any(), any()];
        let (c0, j0) = (below(3), below(SIMD_LEN));
        *m.at_mut(c0, j0) = F32x::new(a);
        let (c, i) = (below(3), below(L));
        let want = if c == c0 && i / SIMD_N == j0 { a[i % SIMD_N] } else { 0.0 };
        ensure!(bits(m.at_f32(c, i), want), "at_mut addresses its vector");
    }
    fn c01_mut_add [67] {
        let mut b = BufferVec::new(2);
        let mut m = b.buffer_mut();
        let (c0, j0) = (below(2), below(SIMD_LEN));
        let p = below(100);
        m.set(c0, j0, F32x::splat(p as f32));
        let (c1, j1) = (below(2), below(SIMD_LEN));
        let q = below(100);
        m.add(c1, j1, F32x::splat(q as f32));
        let (c, i) = (below(2), below(L));
        let want = (if c == c0 && i / SIMD_N == j0 { p } else { 0 }) + (if c == c1 && i / SIMD_N == j1 { q } else { 0 });
        ensure!(m.at_f32(c, i) == want as f32, "add accumulates into its vector");
    }
    fn c01_mut_slices [67] {
        let mut b = BufferVec::new(3);
        let mut m = b.buffer_mut();
        let (c0, i0, v) = (below(3), below(L), any::<f32>());
        ensure!(m.channel_f32_mut(c0).len() == L && m.channel_mut(c0).len() == SIMD_LEN, "channel slice length");
        m.channel_f32_mut(c0)[i0] = v;
        let (c, i) = (below(3), below(L));
        let want = if c == c0 && i == i0 { v } else { 0.0 };
        ensure!(bits(m.channel_f32(c)[i], want) && m.channel_f32(c).len() == L, "channel slice");
        ensure!(bits(vec_at(m.channel(c), i), want), "channel vectors");
    }
    fn c01_ref [67] {
        let mut b = BufferVec::new(3);
        let (c0, i0, v) = (below(3), below(L), any::<f32>());
        b.set_f32(c0, i0, v);
        let r = b.buffer_ref();
        let (c, i) = (below(3), below(L));
        let want = if c == c0 && i == i0 { v } else { 0.0 };
        ensure!(bits(r.at_f32(c, i), want), "sample");
        ensure!(bits(r.at(c, i / SIMD_N).to_array()[i % SIMD_N], want), "vector");
    }
    fn c01_ref_slices [67] {
        let mut b = BufferVec::new(3);
        let (c0, i0, v) = (below(3), below(L), any::<f32>());
        b.set_f32(c0, i0, v);
        let r = b.buffer_ref();
        let (c, i) = (below(3), below(L));
        let want = if c == c0 && i == i0 { v } else { 0.0 };
        ensure!(bits(r.channel_f32(c)[i], want) && r.channel_f32(c).len() == L, "channel slice");
        ensure!(bits(vec_at(r.channel(c), i), want), "channel vectors");
    }
    fn c01_ref_subset_1_2 [67] { subset_ref(1, 2) }
    fn c01_ref_subset_0_3 [67] { subset_ref(0, 3) }
    fn c01_ref_subset_3_1 [67] { subset_ref(3, 1) }
    fn c01_ref_subset_2_2 [67] { subset_ref(2, 2) }
    fn c01_mut_subset_1_2 [67] { subset_mut(1, 2) }
    fn c01_mut_subset_0_3 [67] { subset_mut(0, 3) }
    fn c01_mut_subset_3_1 [67] { subset_mut(3, 1) }
    fn c01_mut_subset_2_2 [67] { subset_mut(2, 2) }
    fn c01_resize [100] {
        let mut b = BufferVec::new(2);
        let (c, i) = (below(2), below(L));
        let v: f32 = any();
        b.set_f32(c, i, v);
        b.resize(3);
        ensure!(b.channels() == 3, "channels after growing");
        ensure!(bits(b.at_f32(c, i), v), "growing keeps samples");
        let j = below(L);
        ensure!(b.at_f32(2, j) == 0.0, "new channel is silent");
        b.resize(1);
        ensure!(b.channels() == 1, "channels after shrinking");
        let want = if c == 0 && i == j { v } else { 0.0 };
        ensure!(bits(b.at_f32(0, j), want), "shrinking keeps the first channels");
    }
    fn c01_sizes [67] {
        ensure!(BufferRef::empty().channels() == 0, "empty");
        ensure!(BufferMut::empty().channels() == 0, "empty");
        let n: usize = any();
        assume(n <= L);
        ensure!(fundsp::simd_items(n) * SIMD_N >= n && fundsp::simd_items(n) * SIMD_N < n + SIMD_N, "simd_items rounds up");
        ensure!(fundsp::full_simd_items(n) * SIMD_N <= n && fundsp::full_simd_items(n) * SIMD_N + SIMD_N > n, "full_simd_items rounds down");
    }
}
