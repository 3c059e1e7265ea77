//! A property harness: one file of properties (VX_PROP) together with the runtime and the reference models.
//! Compiled to LLVM IR for the symbolic engine, and natively (cfg vx_native) to replay inputs.
#![allow(dead_code, unused_imports, unexpected_cfgs)]
#[macro_use]
#[path = "../../harness/src/rt.rs"]
mod rt;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/rx.rs"]
mod rx;
#[path = "../../harness/src/text.rs"]
mod text;

mod props {
    use crate::model::*;
    use crate::rt::*;
    use crate::rx::*;
    use crate::text::*;
    include!(env!("VX_PROP"));
}

#[cfg(not(vx_native))]
fn main() {
    props::anchor();
}

#[cfg(vx_native)]
fn main() {
    rt::native::main(props::entry)
}
