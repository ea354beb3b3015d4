//! The price generator of the repository as it is, over the file-capturing standard library.
#![no_std]
#[macro_use]
extern crate shim as std;

mod program {
    #![allow(dead_code, unused_imports, unused_must_use)]
    use std::prelude::rust_2021::*;
    include!("/repo/src/circuit_pricing_generator/main.rs");
    pub fn run() {
        let _ = main();
    }
}
pub fn run() {
    program::run()
}
