//! Opcodes of the three preludes, as constructors of boxed units, with the kinds of their inputs.
use fundsp::audiounit::AudioUnit;
use fundsp::numeric_array::typenum::*;
use std::sync::Arc;

pub struct Entry {
    pub name: &'static str,
    /// One letter per input: a audio, f frequency, q Q, g gain, p pan, d delay time, r roughness,
    /// v speed, w width, m morph, k coefficient.
    pub ins: &'static str,
    pub make: fn() -> Box<dyn AudioUnit>,
    /// Tick and block processing agree only approximately by design (envelopes, control-rate updates).
    pub control: bool,
}
pub type F32 = f32;

pub fn test_wave() -> Arc<fundsp::wave::Wave> {
    let mut w = fundsp::wave::Wave::new(2, 44100.0);
    for i in 0..300 {
        w.push((((i * 37) % 101) as f32 / 101.0, ((i * 53) % 97) as f32 / 97.0 - 0.5));
    }
    Arc::new(w)
}

macro_rules! zoo {
    ($fname:ident, $m:ident, [$($t:tt)*], [$($u:tt)*], $real:ty) => {
        pub fn $fname() -> Vec<Entry> {
            use fundsp::$m as m;
            use fundsp::$m::*;
            #[allow(unused_macros)]
            macro_rules! e {
                ($n:literal, $i:literal, $x:expr) => { Entry { name: $n, ins: $i, make: || Box::new($x), control: false } };
                ($n:literal, $i:literal, $x:expr, control) => { Entry { name: $n, ins: $i, make: || Box::new($x), control: true } };
            }
            vec![
                e!("dc", "", m::dc((0.5, -2.0))),
                e!("zero", "", m::zero()),
                e!("pass", "a", m::pass()),
                e!("multipass", "aaa", m::multipass::<U3>()),
                e!("reverse", "aaa", m::reverse::<U3>()),
                e!("add", "aa", m::add((1.0, 2.0))),
                e!("sub", "aa", m::sub((1.0, 2.0))),
                e!("mul", "aa", m::mul((3.0, 2.0))),
                e!("sine", "f", m::sine $($t)* ()),
                e!("sine_hz", "", m::sine_hz $($t)* (440.0)),
                e!("ramp", "f", m::ramp $($t)* ()),
                e!("ramp_hz", "", m::ramp_hz $($t)* (440.0)),
                e!("rossler", "f", m::rossler()),
                e!("lorenz", "f", m::lorenz()),
                e!("butterpass", "af", m::butterpass $($t)* ()),
                e!("butterpass_hz", "a", m::butterpass_hz $($t)* (1000.0)),
                e!("lowpole", "af", m::lowpole $($t)* ()),
                e!("lowpole_hz", "a", m::lowpole_hz $($t)* (1000.0)),
                e!("allpole", "ak", m::allpole $($t)* ()),
                e!("allpole_delay", "a", m::allpole_delay $($t)* (0.7)),
                e!("highpole", "af", m::highpole $($t)* ()),
                e!("highpole_hz", "a", m::highpole_hz $($t)* (1000.0)),
                e!("resonator", "afq", m::resonator $($t)* ()),
                e!("resonator_hz", "a", m::resonator_hz $($t)* (1000.0, 2.0)),
                e!("biquad", "a", m::biquad $($t)* (0.1, 0.2, 0.3, 0.4, 0.5)),
                e!("moog", "afq", m::moog $($t)* ()),
                e!("moog_q", "af", m::moog_q $($t)* (0.5)),
                e!("moog_hz", "a", m::moog_hz $($t)* (1000.0, 0.5)),
                e!("mls_bits", "", m::mls_bits(10)),
                e!("mls", "", m::mls()),
                e!("noise", "", m::noise()),
                e!("white", "", m::white()),
                e!("hold", "af", m::hold(0.5)),
                e!("hold_hz", "a", m::hold_hz(1000.0, 0.5)),
                e!("fir", "a", m::fir((0.5, 0.25, 0.125, -1.0))),
                e!("fir3", "a", m::fir3(0.5)),
                e!("tick", "a", m::tick()),
                e!("multitick", "aa", m::multitick::<U2>()),
                e!("delay", "a", m::delay(0.0005)),
                e!("delay_long", "a", m::delay(0.003)),
                e!("tap", "ad", m::tap(0.001, 0.02)),
                e!("multitap", "add", m::multitap::<U2>(0.001, 0.02)),
                e!("tap_linear", "ad", m::tap_linear(0.001, 0.02)),
                e!("multitap_linear", "add", m::multitap_linear::<U2>(0.001, 0.02)),
                e!("tap_zero", "ad", m::tap(0.0, 0.02)),
                e!("tap_linear_zero", "ad", m::tap_linear(0.0, 0.02)),
                e!("tap_tight", "ad", m::tap(0.0, 0.0012)),
                e!("tap_linear_tight", "ad", m::tap_linear(0.0, 0.0014)),
                e!("multitap_linear_tight", "add", m::multitap_linear::<U2>(0.0, 0.0014)),
                e!("oversample", "a", m::oversample(m::shape_fn(|x: f32| x * x))),
                e!("resample", "v", m::resample(m::sine_hz $($t)* (440.0))),
                e!("feedback", "a", m::feedback(m::delay(0.001) * 0.5)),
                e!("feedback2", "a", m::feedback2(m::pass(), m::delay(0.001) * 0.5)),
                e!("allnest_c", "a", m::allnest_c(0.5, m::tick())),
                e!("allnest", "ak", m::allnest(m::tick())),
                e!("map", "aa", m::map(|i: &Frame<f32, U2>| (i[0] + i[1], i[0] - i[1]))),
                e!("dcblock_hz", "a", m::dcblock_hz $($t)* (20.0)),
                e!("dcblock", "a", m::dcblock $($t)* ()),
                e!("declick", "a", m::declick $($t)* ()),
                e!("declick_s", "a", m::declick_s $($t)* (0.002)),
                e!("shape_fn", "a", m::shape_fn(|x: f32| x * 0.5 + 0.1)),
                e!("shape_tanh", "a", m::shape(Tanh(2.0))),
                e!("shape_atan", "a", m::shape(Atan(2.0))),
                e!("shape_softsign", "a", m::shape(Softsign(2.0))),
                e!("shape_clip", "a", m::shape(Clip(2.0))),
                e!("shape_crush", "a", m::shape(Crush(5.0))),
                e!("shape_softcrush", "a", m::shape(SoftCrush(5.0))),
                e!("shape_adaptive", "a", m::shape(Adaptive::new(0.01, Tanh(1.0)))),
                e!("clip", "a", m::clip()),
                e!("clip_to", "a", m::clip_to(-0.3, 0.2)),
                e!("panner", "ap", m::panner()),
                e!("pan", "a", m::pan(0.3)),
                e!("follow", "a", m::follow $($t)* (0.01)),
                e!("afollow", "a", m::afollow $($t)* (0.01, 0.02)),
                e!("limiter", "a", m::limiter(0.002, 0.01)),
                e!("limiter_stereo", "aa", m::limiter_stereo(0.002, 0.01)),
                e!("pinkpass", "a", m::pinkpass $($t)* ()),
                e!("pink", "", m::pink $($t)* ()),
                e!("brown", "", m::brown $($t)* ()),
                e!("fdn", "aaaa", m::fdn::<U4, _>(m::stacki::<U4, _, _>(|i| m::delay([0.0005, 0.001, 0.0015, 0.002][i as usize]) * 0.5))),
                e!("fdn2", "aaaa", m::fdn2::<U4, _, _>(m::stacki::<U4, _, _>(|i| m::delay([0.0005, 0.001, 0.0015, 0.002][i as usize]) * 0.5), m::stacki::<U4, _, _>(|_| m::tick()))),
                e!("bus", "a", m::bus(m::pass(), m::tick())),
                e!("stack", "aa", m::stack(m::pass(), m::tick())),
                e!("branch", "a", m::branch(m::pass(), m::tick())),
                e!("product", "aa", m::product(m::pass(), m::tick())),
                e!("sum", "aa", m::sum(m::pass(), m::tick())),
                e!("pipe", "a", m::pipe(m::pass(), m::tick())),
                e!("thru", "aa", m::thru(m::tick() + m::pass())),
                e!("busi", "a", m::busi::<U3, _, _>(|i| m::mul(i as f32 + 1.0))),
                e!("stacki", "aaa", m::stacki::<U3, _, _>(|i| m::mul(i as f32 + 1.0))),
                e!("branchi", "a", m::branchi::<U3, _, _>(|i| m::mul(i as f32 + 1.0))),
                e!("sumi", "aaa", m::sumi::<U3, _, _>(|i| m::mul(i as f32 + 1.0))),
                e!("pipei", "a", m::pipei::<U3, _, _>(|i| m::mul(i as f32 + 1.0))),
                e!("split", "a", m::split::<U3>()),
                e!("multisplit", "aa", m::multisplit::<U2, U3>()),
                e!("join", "aaa", m::join::<U3>()),
                e!("multijoin", "aaaaaa", m::multijoin::<U2, U3>()),
                e!("reverb_stereo", "aa", m::reverb_stereo(10.0, 1.0, 0.5)),
                e!("reverb2_stereo", "aa", m::reverb2_stereo(10.0, 1.0, 0.5, 1.0, m::lowpole_hz $($t)* (1600.0))),
                e!("reverb3_stereo", "aa", m::reverb3_stereo(1.0, 0.5, m::lowpole_hz $($t)* (1600.0))),
                e!("reverb4_stereo", "aa", m::reverb4_stereo(10.0, 1.0)),
                e!("dsf_saw", "fr", m::dsf_saw()),
                e!("dsf_saw_r", "f", m::dsf_saw_r(0.5)),
                e!("dsf_square", "fr", m::dsf_square()),
                e!("dsf_square_r", "f", m::dsf_square_r(0.5)),
                e!("pluck", "a", m::pluck(440.0, 0.5, 0.5)),
                e!("saw", "F", m::saw()),
                e!("square", "F", m::square()),
                e!("triangle", "F", m::triangle()),
                e!("organ", "F", m::organ()),
                e!("soft_saw", "F", m::soft_saw()),
                e!("hammond", "F", m::hammond()),
                e!("saw_hz", "", m::saw_hz(440.0)),
                e!("square_hz", "", m::square_hz(440.0)),
                e!("triangle_hz", "", m::triangle_hz(440.0)),
                e!("organ_hz", "", m::organ_hz(440.0)),
                e!("soft_saw_hz", "", m::soft_saw_hz(440.0)),
                e!("hammond_hz", "", m::hammond_hz(440.0)),
                e!("lowpass", "afq", m::lowpass $($t)* ()),
                e!("lowpass_hz", "a", m::lowpass_hz $($t)* (1000.0, 2.0)),
                e!("lowpass_q", "af", m::lowpass_q $($t)* (2.0)),
                e!("highpass", "afq", m::highpass $($t)* ()),
                e!("highpass_hz", "a", m::highpass_hz $($t)* (1000.0, 2.0)),
                e!("highpass_q", "af", m::highpass_q $($t)* (2.0)),
                e!("bandpass", "afq", m::bandpass $($t)* ()),
                e!("bandpass_hz", "a", m::bandpass_hz $($t)* (1000.0, 2.0)),
                e!("bandpass_q", "af", m::bandpass_q $($t)* (2.0)),
                e!("notch", "afq", m::notch $($t)* ()),
                e!("notch_hz", "a", m::notch_hz $($t)* (1000.0, 2.0)),
                e!("notch_q", "af", m::notch_q $($t)* (2.0)),
                e!("peak", "afq", m::peak $($t)* ()),
                e!("peak_hz", "a", m::peak_hz $($t)* (1000.0, 2.0)),
                e!("peak_q", "af", m::peak_q $($t)* (2.0)),
                e!("allpass", "afq", m::allpass $($t)* ()),
                e!("allpass_hz", "a", m::allpass_hz $($t)* (1000.0, 2.0)),
                e!("allpass_q", "af", m::allpass_q $($t)* (2.0)),
                e!("bell", "afqg", m::bell $($t)* ()),
                e!("bell_hz", "a", m::bell_hz $($t)* (1000.0, 2.0, 2.0)),
                e!("bell_q", "af", m::bell_q $($t)* (2.0, 2.0)),
                e!("lowshelf", "afqg", m::lowshelf $($t)* ()),
                e!("lowshelf_hz", "a", m::lowshelf_hz $($t)* (1000.0, 2.0, 2.0)),
                e!("lowshelf_q", "af", m::lowshelf_q $($t)* (2.0, 2.0)),
                e!("highshelf", "afqg", m::highshelf $($t)* ()),
                e!("highshelf_hz", "a", m::highshelf_hz $($t)* (1000.0, 2.0, 2.0)),
                e!("highshelf_q", "af", m::highshelf_q $($t)* (2.0, 2.0)),
                e!("lowrez", "afq", m::lowrez $($t)* ()),
                e!("lowrez_hz", "a", m::lowrez_hz $($t)* (1000.0, 0.5)),
                e!("lowrez_q", "af", m::lowrez_q $($t)* (0.5)),
                e!("bandrez", "afq", m::bandrez $($t)* ()),
                e!("bandrez_hz", "a", m::bandrez_hz $($t)* (1000.0, 0.5)),
                e!("bandrez_q", "af", m::bandrez_q $($t)* (0.5)),
                e!("pulse", "Fw", m::pulse()),
                e!("morph", "afqm", m::morph $($t)* ()),
                e!("morph_hz", "a", m::morph_hz $($t)* (1000.0, 1.0, 0.3)),
                e!("wavech", "", m::wavech(&test_wave(), 1, Some(20))),
                e!("wavech_none", "", m::wavech(&test_wave(), 0, None)),
                e!("wavech_at", "", m::wavech_at(&test_wave(), 1, 10, 100, Some(20))),
                e!("chorus", "a", m::chorus(1, 0.015, 0.005, 0.5)),
                e!("flanger", "a", m::flanger(0.5, 0.005, 0.010, |t| 0.0075 + 0.0025 * (t * 20.0).sin())),
                e!("phaser", "a", m::phaser(0.5, |t| 0.5 + 0.4 * (t * 20.0).sin())),
                e!("impulse", "", m::impulse::<U2>()),
                e!("rotate", "aa", m::rotate(0.5, 0.9)),
                e!("dbell", "afqg", m::dbell $($u)* (Tanh(0.5))),
                e!("dbell_hz", "a", m::dbell_hz $($u)* (Tanh(0.5), 1000.0, 2.0, 2.0)),
                e!("fbell", "afqg", m::fbell $($u)* (Tanh(0.5))),
                e!("fbell_hz", "a", m::fbell_hz $($u)* (Tanh(0.5), 1000.0, 2.0, 2.0)),
                e!("dhighpass", "afq", m::dhighpass $($u)* (Tanh(0.5))),
                e!("dhighpass_hz", "a", m::dhighpass_hz $($u)* (Tanh(0.5), 1000.0, 2.0)),
                e!("fhighpass", "afq", m::fhighpass $($u)* (Tanh(0.5))),
                e!("fhighpass_hz", "a", m::fhighpass_hz $($u)* (Tanh(0.5), 1000.0, 2.0)),
                e!("dlowpass", "afq", m::dlowpass $($u)* (Tanh(0.5))),
                e!("dlowpass_hz", "a", m::dlowpass_hz $($u)* (Tanh(0.5), 1000.0, 2.0)),
                e!("flowpass", "afq", m::flowpass $($u)* (Tanh(0.5))),
                e!("flowpass_hz", "a", m::flowpass_hz $($u)* (Tanh(0.5), 1000.0, 2.0)),
                e!("dresonator", "afq", m::dresonator $($u)* (Tanh(0.5))),
                e!("dresonator_hz", "a", m::dresonator_hz $($u)* (Tanh(0.5), 1000.0, 2.0)),
                e!("fresonator", "afq", m::fresonator $($u)* (Tanh(0.5))),
                e!("fresonator_hz", "a", m::fresonator_hz $($u)* (Tanh(0.5), 1000.0, 2.0)),
                e!("poly_saw", "f", m::poly_saw $($t)* ()),
                e!("poly_saw_hz", "", m::poly_saw_hz $($t)* (440.0)),
                e!("poly_square", "f", m::poly_square $($t)* ()),
                e!("poly_square_hz", "", m::poly_square_hz $($t)* (440.0)),
                e!("poly_pulse", "fw", m::poly_pulse $($t)* ()),
                e!("poly_pulse_hz", "", m::poly_pulse_hz $($t)* (440.0, 0.3)),
                e!("resynth", "a", m::resynth::<U1, U1, _>(64, |fft| for i in 0..fft.bins() { fft.set(0, i, fft.at(0, i)); })),
                e!("envelope", "", m::envelope(|t: $real| (t * 30.0, t * t)), control),
                e!("lfo", "", m::lfo(|t: $real| t * 30.0 + 0.5), control),
                e!("envelope_in", "a", m::envelope_in(|t: $real, i: &Frame<f32, U1>| t * 3.0 + i[0] as $real), control),
                e!("lfo_in", "a", m::lfo_in(|t: $real, i: &Frame<f32, U1>| t * 3.0 + i[0] as $real), control),
                e!("envelope2", "a", m::envelope2(|t: $real, x: $real| t * 3.0 + x), control),
                e!("lfo2", "a", m::lfo2(|t: $real, x: $real| t * 3.0 + x), control),
                e!("envelope3", "aa", m::envelope3(|t: $real, x: $real, y: $real| t * 3.0 + x - 2.0 * y), control),
                e!("lfo3", "aa", m::lfo3(|t: $real, x: $real, y: $real| t * 3.0 + x - 2.0 * y), control),
                e!("adsr_live", "w", m::adsr_live(0.001, 0.002, 0.6, 0.003), control),
                e!("update", "a", m::update(m::mul(1.0), 0.0005, |t, _dt, x| x.right_mut().set(fundsp::setting::Setting::value(t))), control),
            ]
        }
    };
}
zoo!(hacker32, hacker32, [], [], f32);
zoo!(hacker, hacker, [], [], f64);
zoo!(prelude32, prelude, [::<f32>], [::<f32, _>], f32);
