#![allow(dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/shim.rs"));

pub fn run_start() {
    start()
}
