//! Symbolic harnesses for puck_liveview: a component, its session and a model of the browser.
#![allow(clippy::all, static_mut_refs, dead_code)]
#[path = "../../harness/src/host.rs"]
pub mod host;
#[path = "../../harness/src/sys.rs"]
pub mod sys;
mod browser;
mod pages;
mod view;
mod wrap;
