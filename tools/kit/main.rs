#![allow(dead_code)]
mod chain;
mod demo;
mod kit;
mod stubs;
mod util;

fn main() {
    demo::run();
    kit::good()
}
