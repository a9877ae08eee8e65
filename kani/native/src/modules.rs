pub fn all() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = Vec::new();
    v.extend_from_slice(fvh::c01::LIST);
    v.extend_from_slice(fvh::c02::LIST);
    v.extend_from_slice(fvh::c03::LIST);
    v.extend_from_slice(fvh::c04::LIST);
    v.extend_from_slice(fvh::c05::LIST);
    v.extend_from_slice(fvh::c15::LIST);
    v.extend_from_slice(crate::nzoo::LIST);
    v.extend_from_slice(crate::nnet::LIST);
    v.extend_from_slice(crate::nseq::LIST);
    v.extend_from_slice(crate::nwave::LIST);
    v.extend_from_slice(crate::ndelay::LIST);
    v
}
