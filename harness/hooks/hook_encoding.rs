// Included in a child module of store::encoding (cfg meerkat_verif).
use super::*;
use crate::nd;
#[cfg(feature = "c01")]
mod c01 {
    use super::*;
    include!("c01.rs");
}
#[cfg(feature = "c02")]
mod c02 {
    use super::*;
    include!("c02.rs");
}
#[cfg(feature = "c03")]
mod c03 {
    use super::*;
    include!("c03.rs");
}
#[cfg(feature = "c04")]
mod c04 {
    use super::*;
    include!("c04.rs");
}
#[cfg(feature = "c05")]
mod c05 {
    use super::*;
    include!("c05.rs");
}
#[cfg(feature = "c06")]
mod c06 {
    use super::*;
    include!("c06.rs");
}
#[cfg(feature = "c07")]
mod c07 {
    use super::*;
    include!("c07.rs");
}
#[cfg(feature = "c08")]
mod c08 {
    use super::*;
    include!("c08.rs");
}
#[cfg(feature = "c09")]
mod c09 {
    use super::*;
    include!("c09.rs");
}
#[cfg(feature = "c10")]
mod c10 {
    use super::*;
    include!("c10.rs");
}
#[cfg(feature = "c11")]
mod c11 {
    use super::*;
    include!("c11.rs");
}
#[cfg(feature = "c12")]
mod c12 {
    use super::*;
    include!("c12.rs");
}
#[cfg(feature = "c13")]
mod c13 {
    use super::*;
    include!("c13.rs");
}
#[cfg(feature = "c14")]
mod c14 {
    use super::*;
    include!("c14_enc.rs");
}
#[cfg(feature = "c20")]
mod c20 {
    use super::*;
    include!("c20.rs");
}
#[cfg(feature = "c26")]
mod c26 {
    use super::*;
    include!("c26.rs");
}
#[cfg(feature = "c28")]
mod c28 {
    use super::*;
    include!("c28_enc.rs");
}
#[cfg(any(feature = "c28", feature = "c26", feature = "c09", feature = "c10", feature = "c11", feature = "c12", feature = "c13", feature = "c14", feature = "c20", feature = "c25"))]
pub mod col {
    use super::*;
    include!("col.rs");
}
