#![cfg(any(kani, test))]
#![cfg_attr(kani, feature(allocator_api, step_trait))]
#![allow(dead_code, unused_imports, unused_macros)]

#[cfg(not(kani))]
#[path = "../../common/native.rs"]
mod kani;

#[macro_use]
#[path = "../../common/support.rs"]
mod support;

mod points;
mod read;
mod scalar;
mod vec;
mod write;
mod induct;
#[cfg(all(kani, rpcl2_verif))]
mod looped;
#[cfg(rpcl2_verif)]
mod state;
#[cfg(rpcl2_verif)]
mod contracts;
#[cfg(not(kani))]
mod search;
