//! The command line tool, compiled from its source against `clistd`.
#![no_std]
#[macro_use]
extern crate clistd as std;

mod tool {
    #[allow(unused_imports)]
    use std::prelude::v1::*;
    include!(concat!(env!("OUT_DIR"), "/tool.rs"));
    pub fn start() -> i32 {
        use std::process::{ExitCode, Termination};
        (Termination::report(main()) != ExitCode::SUCCESS) as i32
    }
}
pub fn start() -> i32 {
    tool::start()
}
