//! Harness for changesets, which needs the feature `apply` of puck_liveview.
#![allow(clippy::all, static_mut_refs, dead_code)]
#[path = "../../harness/src/host.rs"]
pub mod host;
#[path = "../../harness/src/sys.rs"]
pub mod sys;
mod apply;
#[path = "../../lv/src/browser.rs"]
mod browser;
#[path = "../../lv/src/view.rs"]
mod view;
