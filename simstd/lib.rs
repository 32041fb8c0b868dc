//! `simstd`: a drop-in `std` whose locks, atomics, threads and clocks are owned by the simulator.
//!
//! The crates of /repo are built with `--cfg verif_sim`, under which their crate root says
//! `extern crate simstd as std;`: every `std::sync`, `std::thread` and `std::time` path in them
//! (whatever primitive a change may pick) then resolves to the modules below; everything else is
//! the real standard library.
//!
//! Threads are real threads, parked and released one at a time; the only thread allowed to run is
//! the one the seeded scheduler in `rt` chose.
#![allow(clippy::all)]
#![allow(dead_code)]

pub use std::*;

pub mod mpsc;
pub mod rt;
pub mod sync;
pub mod thread;
pub mod time;
