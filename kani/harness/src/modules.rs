// One module per property. Under Kani only the selected property is compiled.
#[cfg(any(not(kani), feature = "c01"))]
pub mod c01;
#[cfg(any(not(kani), feature = "c02"))]
pub mod c02;
#[cfg(any(not(kani), feature = "c03"))]
pub mod c03;
#[cfg(any(not(kani), feature = "c04"))]
pub mod c04;
#[cfg(any(not(kani), feature = "c05"))]
pub mod c05;
#[cfg(any(not(kani), feature = "c15"))]
pub mod c15;
