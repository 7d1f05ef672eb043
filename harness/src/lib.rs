//! Bounded exhaustive exploration of the `revision` crate: reference format, value domains, catalogue
//! of types and run infrastructure shared by the checks (one binary per property in `src/bin`).
#![allow(clippy::all)]
#[macro_use]
pub mod model;
pub mod catalog;
pub mod derived;
pub mod rep;
pub mod wire;
pub mod bytesgen;
pub mod io;
pub mod walk;
pub mod forced;
pub mod hist;
