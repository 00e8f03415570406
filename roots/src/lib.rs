#![allow(dead_code, unused, clippy::all)]
//! Concrete uses of the public API. The driver takes every non-generic function here as a root.
//! `Rd` and `Wr` stand for any reader and writer: their methods are the I/O primitives of the
//! analyses and have no analysed behaviour.

pub mod io;
pub mod probes;
pub mod roots_data;
pub mod roots_conv;
pub mod roots_lib;

#[path = "/repo/ssbh_data_json/src/main.rs"]
pub mod cli_data_json;
#[path = "/repo/ssbh_lib_json/src/main.rs"]
pub mod cli_lib_json;
#[path = "/repo/ssbh_test/src/main.rs"]
pub mod cli_test;
