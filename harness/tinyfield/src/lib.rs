//! Stands in for ark-bls12-381 where only the scalar field matters: the field of seven elements.
#[path = "../../common/tinyfp.rs"]
mod tinyfp;
pub type Fr = tinyfp::F7;
