//! std itself, under the name the verification hook expects: used to replay counterexamples with std's own
//! hash containers.
pub use ::std::*;
pub mod order {
    pub fn set(_: usize) {}
    pub fn get() -> usize {
        0
    }
}

include!("files.rs");
