//! Symbolic harnesses for puck.  Each exported `h_*` function is one entry point of the engine.
#![allow(clippy::all)]
pub mod core;
pub mod host;
pub mod http;
pub mod sys;
pub mod ws;
