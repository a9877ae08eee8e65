//! Contracts on the real fundsp code. See /verif/DESIGN.md.
#![allow(dead_code, unused_imports, unused_macros, unused_variables, unused_mut)]
#![allow(clippy::all)]
#[macro_use]
pub mod nd;
pub mod common;
include!("modules.rs");
