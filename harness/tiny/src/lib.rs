//! The circuits and MiMC of /repo compiled over a field of seven elements, with a chosen number of
//! challenge bits.
#![allow(warnings)]
#[path = "/repo/proof_of_space/src/circuit/mod.rs"]
pub mod circuit;
#[path = "/repo/proof_of_space/src/mimc/mod.rs"]
pub mod mimc;
pub mod proof_of_space {
    #[path = "/repo/proof_of_space/src/proof_of_space/convert.rs"]
    pub mod convert;
    pub mod pospace {
        #[cfg(feature = "n256")]
        pub const N: usize = 256;
        #[cfg(feature = "n20")]
        pub const N: usize = 20;
        #[cfg(feature = "n3")]
        pub const N: usize = 3;
        pub const RESPONSE_COUNT: usize = 50;
        pub const CHALLENGE_COUNT: usize = 100;
    }
}
