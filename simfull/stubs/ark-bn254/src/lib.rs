//! Stand-in for ark-bn254.
pub type Bn254 = ark_ec::pairing::StandIn<ark_ec::pairing::Bn254Config>;
pub type Fr = ark_ff::Fp;
pub use ark_ec::{G1Affine, G1Projective, G2Affine, G2Projective};
