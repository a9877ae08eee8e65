// Reset puts every state variable of a leaf node back to where it starts and keeps its parameters.
//@rewrite \b(struct \w+)<F, M>\s*where[^{]*\{ => \1 { ## number type, mode and arity parameters -> opaque types F, M
//@rewrite \b(struct \w+)<[^{]*?>\s*(where[^{]*)?\{ => \1 { ## number type, mode, shape and arity parameters -> opaque types F, M, S
//@rewrite pub _marker: [\w:]*PhantomData<[NI]>,? =>  ## markers dropped
//@rewrite (SvfParams|SvfCoefs|BiquadCoefs|BiquadParams|Biquad|DCBlock|Fir|Allpole)<[^>]*> => \1 ## number type parameter dropped
//@rewrite Svf<F, PeakMode<F>> => Svf ## number type and mode parameters dropped
//@rewrite convert\(rnd1\(self\.hash\)\) => phase_from(self.hash) ## pseudorandom phase from the hash -> phase_from (opaque)
//@rewrite lerp\(0\.0, 1\.0, rnd1\(self\.hash\) as f32\) => start_from(self.hash) ## pseudorandom start from the hash -> start_from (opaque)
//@rewrite Frame<f32, (?:N|R::Size)> => FrameN ## frames -> opaque
//@rewrite Frame::default\(\) => FrameN::default() ## frames -> opaque
//@rewrite Arc<Wavetable> => Wavetable ## shared table -> opaque
//@rewrite \bOption<f32>, => Option<F>, ## phases -> opaque number type
//@rewrite pub phase: f32, => pub phase: F, ## phases -> opaque number type
//@rewrite self\.seed\.or\(self\.hash\) => opt_or(self.seed, self.hash) ## Option::or -> opt_or (assumed contract)
//@rewrite self\.seed\.unwrap_or\(self\.hash\) => opt_unwrap_or(self.seed, self.hash) ## Option::unwrap_or -> opt_unwrap_or (assumed contract)
use vstd::prelude::*;
verus! {
pub fn rt_assert(b: bool) requires b { }
/// Numbers: opaque.
#[verifier::external_body]
pub struct F { x: u64 }
impl Copy for F {}
impl Clone for F { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub uninterp spec fn zero() -> F;
pub uninterp spec fn one() -> F;
impl F {
    #[verifier::external_body]
    pub fn zero() -> (r: F) ensures r == zero() { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: F) ensures r == one() { unimplemented!() }
}
#[verifier::external_body]
pub struct E { x: u64 }
#[verifier::external_body]
pub struct M { x: u64 }
#[verifier::external_body]
pub struct SvfParams { x: u64 }
#[verifier::external_body]
pub struct SvfCoefs { x: u64 }
#[verifier::external_body]
pub struct BiquadCoefs { x: u64 }
#[verifier::external_body]
pub struct BiquadParams { x: u64 }
#[verifier::external_body]
pub struct Wavetable { x: u64 }
#[verifier::external_body]
pub struct Rnd { x: u64 }
pub uninterp spec fn rnd_of(h: u64) -> Rnd;
impl Rnd { #[verifier::external_body] pub fn from_u64(h: u64) -> (r: Rnd) ensures r == rnd_of(h) { unimplemented!() } }
#[verifier::external_body]
pub struct FrameN { x: u64 }
pub uninterp spec fn zero_frame() -> FrameN;
impl FrameN { #[verifier::external_body] pub fn default() -> (r: FrameN) ensures r == zero_frame() { unimplemented!() } }
/// A shaper: opaque; its reset is trusted to do the same.
#[verifier::external_body]
pub struct S { x: u64 }
impl S { pub uninterp spec fn at_start(&self) -> bool; #[verifier::external_body] pub fn reset(&mut self) ensures final(self).at_start() { unimplemented!() } }
pub uninterp spec fn phase_of(h: u64) -> F;
#[verifier::external_body]
pub fn phase_from(h: u64) -> (r: F) ensures r == phase_of(h) { unimplemented!() }
pub uninterp spec fn start_of(h: u64) -> f32;
#[verifier::external_body]
pub fn start_from(h: u64) -> (r: f32) ensures r == start_of(h) { unimplemented!() }
#[verifier::external_body]
pub fn opt_or(a: Option<u64>, b: Option<u64>) -> (r: Option<u64>) ensures r == (if a is Some { a } else { b }) { a.or(b) }
#[verifier::external_body]
pub fn opt_unwrap_or(a: Option<u64>, b: u64) -> (r: u64) ensures r == (if a is Some { a->0 } else { b }) { a.unwrap_or(b) }

//@item src/filter.rs struct Lowpole
impl Lowpole {
    pub open spec fn fresh(&self) -> bool { self.value == zero() }
//@fn src/filter.rs Lowpole::reset
ensures final(self).fresh(), final(self).coeff == old(self).coeff, final(self).cutoff == old(self).cutoff, final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/filter.rs struct DCBlock
impl DCBlock {
    pub open spec fn fresh(&self) -> bool { self.x1 == zero() && self.y1 == zero() }
//@fn src/filter.rs DCBlock::reset
ensures final(self).fresh(), final(self).coeff == old(self).coeff, final(self).cutoff == old(self).cutoff, final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/filter.rs struct Pinkpass
impl Pinkpass {
    pub open spec fn fresh(&self) -> bool { self.b0 == zero() && self.b1 == zero() && self.b2 == zero() && self.b3 == zero() && self.b4 == zero() && self.b5 == zero() && self.b6 == zero() }
//@fn src/filter.rs Pinkpass::reset
ensures final(self).fresh(), final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/filter.rs struct Allpole
impl Allpole {
    pub open spec fn fresh(&self) -> bool { self.x1 == zero() && self.y1 == zero() }
//@fn src/filter.rs Allpole::reset
ensures final(self).fresh(), final(self).eta == old(self).eta, final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/filter.rs struct Highpole
impl Highpole {
    pub open spec fn fresh(&self) -> bool { self.x1 == zero() && self.y1 == zero() }
//@fn src/filter.rs Highpole::reset
ensures final(self).fresh(), final(self).coeff == old(self).coeff, final(self).cutoff == old(self).cutoff, final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/svf.rs struct Svf
impl Svf {
    pub open spec fn fresh(&self) -> bool { self.ic1eq == zero() && self.ic2eq == zero() && self.counter == 0 }
//@fn src/svf.rs Svf::reset
ensures final(self).fresh(), final(self).mode == old(self).mode, final(self).params == old(self).params, final(self).coefs == old(self).coefs, final(self).period == old(self).period,
//@end
}
//@item src/svf.rs struct FixedSvf
impl FixedSvf {
    pub open spec fn fresh(&self) -> bool { self.ic1eq == zero() && self.ic2eq == zero() }
//@fn src/svf.rs FixedSvf::reset
ensures final(self).fresh(), final(self).mode == old(self).mode, final(self).params == old(self).params, final(self).coefs == old(self).coefs,
//@end
}
//@item src/svf.rs struct Morph
impl Morph {
    pub open spec fn fresh(&self) -> bool { self.filter.fresh() }
//@fn src/svf.rs Morph::reset
ensures final(self).fresh(), final(self).filter.mode == old(self).filter.mode, final(self).filter.params == old(self).filter.params, final(self).filter.coefs == old(self).filter.coefs, final(self).morph == old(self).morph,
//@end
}
//@item src/biquad.rs struct Biquad
impl Biquad {
    pub open spec fn fresh(&self) -> bool { self.x1 == zero() && self.x2 == zero() && self.y1 == zero() && self.y2 == zero() }
//@fn src/biquad.rs Biquad::reset
ensures final(self).fresh(), final(self).coefs == old(self).coefs, final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/biquad.rs struct ButterLowpass
impl ButterLowpass {
    pub open spec fn fresh(&self) -> bool { self.biquad.fresh() }
//@fn src/biquad.rs ButterLowpass::reset
ensures final(self).fresh(), final(self).sample_rate == old(self).sample_rate, final(self).biquad.coefs == old(self).biquad.coefs, final(self).cutoff == old(self).cutoff,
//@end
}
//@item src/biquad.rs struct Resonator
impl Resonator {
    pub open spec fn fresh(&self) -> bool { self.biquad.fresh() }
//@fn src/biquad.rs Resonator::reset
ensures final(self).fresh(), final(self).sample_rate == old(self).sample_rate, final(self).biquad.coefs == old(self).biquad.coefs, final(self).center == old(self).center, final(self).q == old(self).q,
//@end
}
//@item src/biquad.rs struct FbBiquad
impl FbBiquad {
    pub open spec fn fresh(&self) -> bool { self.s1 == zero() && self.s2 == zero() && self.shape.at_start() }
//@fn src/biquad.rs FbBiquad::reset
ensures final(self).fresh(), final(self).mode == old(self).mode, final(self).coefs == old(self).coefs, final(self).params == old(self).params,
//@end
}
//@item src/biquad.rs struct FixedFbBiquad
impl FixedFbBiquad {
    pub open spec fn fresh(&self) -> bool { self.s1 == zero() && self.s2 == zero() && self.shape.at_start() }
//@fn src/biquad.rs FixedFbBiquad::reset
ensures final(self).fresh(), final(self).mode == old(self).mode, final(self).coefs == old(self).coefs, final(self).params == old(self).params,
//@end
}
//@item src/biquad.rs struct DirtyBiquad
impl DirtyBiquad {
    pub open spec fn fresh(&self) -> bool { self.s1 == zero() && self.s2 == zero() && self.shape1.at_start() && self.shape2.at_start() }
//@fn src/biquad.rs DirtyBiquad::reset
ensures final(self).fresh(), final(self).mode == old(self).mode, final(self).coefs == old(self).coefs, final(self).params == old(self).params,
//@end
}
//@item src/biquad.rs struct FixedDirtyBiquad
impl FixedDirtyBiquad {
    pub open spec fn fresh(&self) -> bool { self.s1 == zero() && self.s2 == zero() && self.shape1.at_start() && self.shape2.at_start() }
//@fn src/biquad.rs FixedDirtyBiquad::reset
ensures final(self).fresh(), final(self).mode == old(self).mode, final(self).coefs == old(self).coefs, final(self).params == old(self).params,
//@end
}
//@item src/biquad_bank.rs struct BiquadBank
impl BiquadBank {
    pub open spec fn fresh(&self) -> bool { self.x1 == zero() && self.x2 == zero() && self.y1 == zero() && self.y2 == zero() }
//@fn src/biquad_bank.rs BiquadBank::reset
ensures final(self).fresh(), final(self).coefs == old(self).coefs, final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/moog.rs struct Moog
impl Moog {
    pub open spec fn fresh(&self) -> bool { self.s0 == zero() && self.s1 == zero() && self.s2 == zero() && self.s3 == zero() && self.px == zero() && self.ps0 == zero() && self.ps1 == zero() && self.ps2 == zero() }
//@fn src/moog.rs Moog::reset
ensures final(self).fresh(), final(self).q == old(self).q, final(self).cutoff == old(self).cutoff, final(self).sample_rate == old(self).sample_rate, final(self).rez == old(self).rez, final(self).p == old(self).p, final(self).k == old(self).k,
//@end
}
//@item src/rez.rs struct Rez
impl Rez {
    pub open spec fn fresh(&self) -> bool { self.buf0 == zero() && self.buf1 == zero() }
//@fn src/rez.rs Rez::reset
ensures final(self).fresh(), final(self).f == old(self).f, final(self).fb == old(self).fb, final(self).cutoff == old(self).cutoff, final(self).q == old(self).q, final(self).sample_rate == old(self).sample_rate, final(self).bandpass == old(self).bandpass,
//@end
}
//@item src/fir.rs struct Fir
impl Fir {
    pub open spec fn fresh(&self) -> bool { self.v == zero_frame() }
//@fn src/fir.rs Fir::reset
ensures final(self).fresh(), final(self).w == old(self).w, final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/follow.rs struct Follow
impl Follow {
    pub open spec fn fresh(&self) -> bool { self.v1 == zero() && self.v2 == zero() && self.v3 == zero() && self.coeff_now == one() }
//@fn src/follow.rs Follow::reset
ensures final(self).fresh(), final(self).coeff == old(self).coeff, final(self).response_time == old(self).response_time, final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/follow.rs struct AFollow
impl AFollow {
    pub open spec fn fresh(&self) -> bool { self.v1 == zero() && self.v2 == zero() && self.v3 == zero() && self.acoeff_now == one() && self.rcoeff_now == one() }
//@fn src/follow.rs AFollow::reset
ensures final(self).fresh(), final(self).acoeff == old(self).acoeff, final(self).rcoeff == old(self).rcoeff, final(self).atime == old(self).atime, final(self).rtime == old(self).rtime, final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/dynamics.rs struct Declick
impl Declick {
    pub open spec fn fresh(&self) -> bool { self.t == zero() }
//@fn src/dynamics.rs Declick::reset
ensures final(self).fresh(), final(self).duration == old(self).duration, final(self).sample_duration == old(self).sample_duration, final(self).sample_rate == old(self).sample_rate,
//@end
}
//@item src/noise.rs struct Noise
impl Noise {
    pub open spec fn fresh(&self) -> bool { self.state == { let h: u64 = if self.seed is Some { self.seed->0 } else { self.hash }; (h ^ (h >> 32)) as u32 } }
//@fn src/noise.rs Noise::reset
ensures final(self).fresh(), final(self).seed == old(self).seed, final(self).hash == old(self).hash,
//@end
}
pub open spec fn seeded(n: u32, seed: u32) -> MlsState { MlsState { n, s: (1 + seed as int % ((1u32 << n) - 1)) as u32 } }
//@item src/noise.rs struct MlsState
impl Copy for MlsState {}
impl Clone for MlsState { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl MlsState {
//@fn src/noise.rs MlsState::new_with_seed
//@ret r
requires 1 <= n <= 31,
ensures r == seeded(n, seed),
//@top
assert(1u32 << n >= 2 && 1u32 << n <= 0x8000_0000) by(bit_vector) requires 1 <= n <= 31;
//@end
}
//@item src/noise.rs struct Mls
impl Mls {
    pub open spec fn fresh(&self) -> bool { self.mls == { let h: Option<u64> = if self.seed is Some { self.seed } else { self.hash }; if h is Some { seeded(self.mls.n, (h->0 ^ (h->0 >> 32)) as u32) } else { self.initial } } }
//@fn src/noise.rs Mls::reset
requires 1 <= old(self).mls.n <= 31,
ensures final(self).fresh(), final(self).seed == old(self).seed, final(self).hash == old(self).hash, final(self).initial == old(self).initial,
//@end
}
//@item src/noise.rs struct Hold
impl Hold {
    pub open spec fn fresh(&self) -> bool { self.rnd == rnd_of(self.hash) && self.t == 0.0f64 && self.next_t == 0.0f64 }
//@fn src/noise.rs Hold::reset
ensures final(self).fresh(), final(self).hash == old(self).hash, final(self).sample_duration == old(self).sample_duration, final(self).variability == old(self).variability,
//@end
}
//@item src/envelope.rs struct EnvelopeIn
impl EnvelopeIn {
    pub open spec fn fresh(&self) -> bool { self.t == zero() && self.t_0 == zero() && self.t_1 == zero() && self.t_hash == self.hash }
//@fn src/envelope.rs EnvelopeIn::reset
ensures final(self).fresh(), final(self).envelope == old(self).envelope, final(self).interval == old(self).interval, final(self).sample_duration == old(self).sample_duration, final(self).hash == old(self).hash,
//@end
}
//@item src/oscillator.rs struct Sine
impl Sine {
    pub open spec fn fresh(&self) -> bool { self.phase == (if self.initial_phase is Some { self.initial_phase->0 } else { phase_of(self.hash) }) }
//@fn src/oscillator.rs Sine::reset
ensures final(self).fresh(), final(self).hash == old(self).hash, final(self).initial_phase == old(self).initial_phase, final(self).sample_duration == old(self).sample_duration,
//@end
}
//@item src/oscillator.rs struct Ramp
impl Ramp {
    pub open spec fn fresh(&self) -> bool { self.phase == (if self.initial_phase is Some { self.initial_phase->0 } else { phase_of(self.hash) }) }
//@fn src/oscillator.rs Ramp::reset
ensures final(self).fresh(), final(self).hash == old(self).hash, final(self).initial_phase == old(self).initial_phase, final(self).sample_duration == old(self).sample_duration,
//@end
}
//@item src/oscillator.rs struct PolySaw
impl PolySaw {
    pub open spec fn fresh(&self) -> bool { self.phase == (if self.initial_phase is Some { self.initial_phase->0 } else { phase_of(self.hash) }) }
//@fn src/oscillator.rs PolySaw::reset
ensures final(self).fresh(), final(self).hash == old(self).hash, final(self).initial_phase == old(self).initial_phase, final(self).sample_duration == old(self).sample_duration,
//@end
}
//@item src/oscillator.rs struct PolySquare
impl PolySquare {
    pub open spec fn fresh(&self) -> bool { self.phase == (if self.initial_phase is Some { self.initial_phase->0 } else { phase_of(self.hash) }) }
//@fn src/oscillator.rs PolySquare::reset
ensures final(self).fresh(), final(self).hash == old(self).hash, final(self).initial_phase == old(self).initial_phase, final(self).sample_duration == old(self).sample_duration,
//@end
}
//@item src/oscillator.rs struct PolyPulse
impl PolyPulse {
    pub open spec fn fresh(&self) -> bool { self.phase == (if self.initial_phase is Some { self.initial_phase->0 } else { phase_of(self.hash) }) }
//@fn src/oscillator.rs PolyPulse::reset
ensures final(self).fresh(), final(self).hash == old(self).hash, final(self).initial_phase == old(self).initial_phase, final(self).sample_duration == old(self).sample_duration,
//@end
}
//@item src/oscillator.rs struct Dsf
impl Dsf {
    pub open spec fn fresh(&self) -> bool { self.phase == (if self.initial_phase is Some { self.initial_phase->0 } else { phase_of(self.hash) }) }
//@fn src/oscillator.rs Dsf::reset
ensures final(self).fresh(), final(self).hash == old(self).hash, final(self).initial_phase == old(self).initial_phase, final(self).sample_duration == old(self).sample_duration, final(self).roughness == old(self).roughness, final(self).harmonic_spacing == old(self).harmonic_spacing,
//@end
}
//@item src/oscillator.rs struct Rossler
impl Rossler {
    pub open spec fn fresh(&self) -> bool { self.x == start_of(self.hash) && self.y == 1.0f32 && self.z == 1.0f32 }
//@fn src/oscillator.rs Rossler::reset
ensures final(self).fresh(), final(self).hash == old(self).hash, final(self).sr == old(self).sr,
//@end
}
//@item src/oscillator.rs struct Lorenz
impl Lorenz {
    pub open spec fn fresh(&self) -> bool { self.x == start_of(self.hash) && self.y == 1.0f32 && self.z == 1.0f32 }
//@fn src/oscillator.rs Lorenz::reset
ensures final(self).fresh(), final(self).hash == old(self).hash, final(self).sr == old(self).sr,
//@end
}
//@item src/oscillator.rs struct Pluck
impl Pluck {
    pub open spec fn fresh(&self) -> bool { self.damping.fresh() && !self.initialized }
//@fn src/oscillator.rs Pluck::reset
ensures final(self).fresh(), final(self).gain == old(self).gain, final(self).hash == old(self).hash, final(self).frequency == old(self).frequency, final(self).damping.w == old(self).damping.w,
//@end
}
//@item src/wavetable.rs struct WaveSynth
impl WaveSynth {
    pub open spec fn fresh(&self) -> bool { self.phase == (if self.initial_phase is Some { self.initial_phase->0 } else { phase_of(self.hash) }) }
//@fn src/wavetable.rs WaveSynth::reset
ensures final(self).fresh(), final(self).hash == old(self).hash, final(self).initial_phase == old(self).initial_phase, final(self).sample_duration == old(self).sample_duration, final(self).sample_rate == old(self).sample_rate, final(self).table == old(self).table,
//@end
}
//@item src/wavetable.rs struct PhaseSynth
impl PhaseSynth {
    pub open spec fn fresh(&self) -> bool { !self.phase_ready }
//@fn src/wavetable.rs PhaseSynth::reset
ensures final(self).fresh(), final(self).table == old(self).table, final(self).sample_rate == old(self).sample_rate,
//@end
}
fn main() {}
}
