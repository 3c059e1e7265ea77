//! A property harness: one file of properties (VX_PROP) together with the runtime and the reference models.
//! Compiled to LLVM IR for the symbolic engine, and natively (cfg vx_native) to replay inputs.
#![allow(dead_code, unused_imports, unexpected_cfgs)]
#[macro_use]
mod rt;
mod model;
mod rx;

mod props {
    use crate::model::*;
    use crate::rt::*;
    use crate::rx::*;
    include!(env!("VX_PROP"));
}

#[cfg(not(vx_native))]
fn main() {
    props::anchor();
}

#[cfg(vx_native)]
fn main() {
    rt::native::main(props::entry)
}
