//! Nondeterminism: one source of inputs for the verifier and for native replay.
//!
//! Under Kani `any` is a fully symbolic value, `assume` restricts the explored
//! inputs (the precondition of a contract) and `ensure` is a proof obligation (the
//! postcondition). Natively the same contract runs on one concrete input, taken
//! from a recorded counterexample or from a pseudorandom stream.

#[cfg(kani)]
mod imp {
    pub trait Arb: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Arb for T {}
    #[inline(always)]
    pub fn any<T: Arb>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(b: bool) {
        kani::assume(b)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub struct Discard;
    pub struct Source {
        /// Recorded draws of a counterexample; used up front to back.
        pub tape: Option<std::vec::IntoIter<Vec<u8>>>,
        pub rng: u64,
        pub log: Vec<Vec<u8>>,
        pub style: u64,
    }
    thread_local! {
        pub static SOURCE: RefCell<Source> = RefCell::new(Source { tape: None, rng: 1, log: Vec::new(), style: 0 });
    }
    impl Source {
        fn next(&mut self) -> u64 {
            self.rng = self.rng.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = self.rng;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        fn draw(&mut self, size: usize, kind: Kind) -> Vec<u8> {
            let bytes: Vec<u8> = if let Some(t) = &mut self.tape {
                match t.next() {
                    Some(mut b) => {
                        b.resize(size, 0);
                        b
                    }
                    None => vec![0; size],
                }
            } else {
                let r = self.next();
                let r2 = self.next();
                let v: u64 = match kind {
                    // Small integers most of the time: contracts bound their integers.
                    Kind::Int => match r % 8 {
                        0 => r2,
                        1 => r2 % 256,
                        2 | 3 => r2 % 67,
                        4 | 5 => r2 % 10,
                        _ => r2 % 4,
                    },
                    Kind::Bool => r2 & 1,
                    Kind::F32 => match (r % 8, self.style % 2) {
                        (0, 0) => r2 & 0xffff_ffff,
                        (1, 0) => *[0u32, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000]
                            .get((r2 % 7) as usize)
                            .unwrap() as u64,
                        (2 | 3, _) => ((r2 % 2001) as f32 * 0.001 - 1.0).to_bits() as u64,
                        (4, _) => ((r2 % 64) as f32 - 16.0).to_bits() as u64,
                        _ => ((r2 % 2_000_003) as f32 / 1_000_001.5 - 1.0).to_bits() as u64,
                    },
                    Kind::F64 => match (r % 8, self.style % 2) {
                        (0, 0) => r2,
                        (1, 0) => (*[0.0f64, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]
                            .get((r2 % 7) as usize)
                            .unwrap())
                        .to_bits(),
                        (4, _) => ((r2 % 64) as f64 - 16.0).to_bits(),
                        _ => ((r2 % 2_000_003) as f64 / 1_000_001.5 - 1.0).to_bits(),
                    },
                };
                v.to_le_bytes()[..size].to_vec()
            };
            self.log.push(bytes.clone());
            bytes
        }
    }
    #[derive(Clone, Copy)]
    pub enum Kind {
        Int,
        Bool,
        F32,
        F64,
    }
    pub trait Arb {
        fn arb() -> Self;
    }
    macro_rules! arb_int {
        ($($t:ty),*) => { $( impl Arb for $t {
            fn arb() -> Self {
                let b = SOURCE.with(|s| s.borrow_mut().draw(core::mem::size_of::<$t>(), Kind::Int));
                let mut a = [0u8; core::mem::size_of::<$t>()];
                a.copy_from_slice(&b);
                <$t>::from_le_bytes(a)
            }
        } )* }
    }
    arb_int! { u8, u16, u32, u64, usize, i8, i16, i32, i64 }
    impl Arb for bool {
        fn arb() -> Self {
            SOURCE.with(|s| s.borrow_mut().draw(1, Kind::Bool))[0] & 1 == 1
        }
    }
    impl Arb for f32 {
        fn arb() -> Self {
            let b = SOURCE.with(|s| s.borrow_mut().draw(4, Kind::F32));
            f32::from_le_bytes([b[0], b[1], b[2], b[3]])
        }
    }
    impl Arb for f64 {
        fn arb() -> Self {
            let b = SOURCE.with(|s| s.borrow_mut().draw(8, Kind::F64));
            let mut a = [0u8; 8];
            a.copy_from_slice(&b);
            f64::from_le_bytes(a)
        }
    }
    pub fn any<T: Arb>() -> T {
        T::arb()
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(Discard);
        }
    }
}

pub use imp::*;

/// A proof obligation.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $m:expr) => {
        assert!($c, $m)
    };
}

/// End of a contract: must be reachable, otherwise the precondition was vacuous.
#[macro_export]
macro_rules! reached {
    () => {{
        #[cfg(kani)]
        kani::cover!(true, "reached");
    }};
}

/// Symbolic integer below `n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    #[cfg(kani)]
    {
        let x: usize = any();
        assume(x < n);
        x
    }
    #[cfg(not(kani))]
    {
        let x: usize = any();
        if x < n {
            x
        } else {
            // Natively a draw outside the range is folded into it.
            x % n
        }
    }
}

/// Sample equality: equal as numbers, or both NaN.
#[inline(always)]
pub fn same(a: f32, b: f32) -> bool {
    a == b || (a != a && b != b)
}
#[inline(always)]
pub fn same64(a: f64, b: f64) -> bool {
    a == b || (a != a && b != b)
}
/// Bitwise equality.
#[inline(always)]
pub fn bits(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}

/// Declare contracts: each becomes a Kani proof and an entry of `LIST` for native runs.
#[macro_export]
macro_rules! contracts {
    ($( $(#[doc = $d:expr])* fn $name:ident [$u:expr] $body:block )*) => {
        $( $(#[doc = $d])*
           #[cfg_attr(kani, kani::proof)]
           #[cfg_attr(kani, kani::unwind($u))]
           pub fn $name() { $body; $crate::reached!(); } )*
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
