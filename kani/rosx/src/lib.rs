#![cfg(any(kani, test))]
#![cfg_attr(kani, feature(allocator_api))]
#![allow(dead_code, unused_imports, unused_macros)]

#[cfg(not(kani))]
#[path = "../../common/native.rs"]
mod kani;

#[macro_use]
#[path = "../../common/support.rs"]
mod support;

mod convert;
