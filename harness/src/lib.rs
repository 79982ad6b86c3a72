//! Harnesses: the repository's `store` module, compiled from its current source,
//! plus the entry points (`h_*`, in ../hooks) that drive it with symbolic inputs.
#![allow(warnings)]

macro_rules! chk {
    ($c:expr) => {
        crate::nd::check($c, (FID << 20) | line!() as u64)
    };
}
macro_rules! reach {
    ($n:expr) => {
        crate::nd::reach((FID << 20) | $n as u64)
    };
}

pub mod nd;

include!(concat!(env!("OUT_DIR"), "/store_mod.rs"));
