//! Deterministic simulation kernel for programs written against std.
//! Every call that std makes into libc for threads, time, sockets, files and
//! randomness is redirected here (see `shim`); a seeded scheduler decides the rest.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]
pub mod case;
pub mod coord;
pub mod fs;
pub mod kernel;
pub mod net;
pub mod raw;
pub mod rng;
pub mod run;
pub mod shim;
pub mod wire;
pub mod worlds;
