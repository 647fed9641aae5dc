//! Generated per property: one `#[kani::proof]` per harness, see check.py.
#![allow(unexpected_cfgs)]
include!(concat!(env!("LAYA_VERIF_DIR"), "/harness.rs"));
