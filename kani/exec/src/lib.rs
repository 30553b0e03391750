#![cfg(test)]
#![allow(dead_code, unused_imports, unused_macros)]

#[path = "../../common/native.rs"]
mod kani;

#[macro_use]
#[path = "../../common/support.rs"]
mod support;

mod exec;
