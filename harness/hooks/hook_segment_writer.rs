// Included in a child module of store::segment_writer (cfg meerkat_verif).
use super::*;
use crate::nd;
#[cfg(feature = "c15")]
mod c15 {
    use super::*;
    include!("c15.rs");
}
#[cfg(feature = "c16")]
mod c16 {
    use super::*;
    include!("c16.rs");
}
#[cfg(feature = "c17")]
mod c17 {
    use super::*;
    include!("c17.rs");
}
#[cfg(feature = "c21")]
mod c21 {
    use super::*;
    include!("c21.rs");
}
#[cfg(feature = "c25")]
mod c25 {
    use super::*;
    include!("c25.rs");
}
#[cfg(feature = "c27")]
mod c27 {
    use super::*;
    include!("c27.rs");
}
#[cfg(feature = "c14")]
mod c14 {
    use super::*;
    include!("c14_seg.rs");
}
#[cfg(feature = "c28")]
mod c28 {
    use super::*;
    include!("c28_seg.rs");
}
#[cfg(any(feature = "c28", feature = "c27", feature = "c14", feature = "c15", feature = "c16", feature = "c17", feature = "c21", feature = "c25"))]
pub mod seg {
    use super::*;
    include!("seg.rs");
}
