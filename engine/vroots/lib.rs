//! Concrete types at which the analysis instantiates the generic functions of /repo.
#![allow(dead_code)]
extern crate algebraic;
extern crate algebraic_gpu;
extern crate fields;
extern crate groth16;
extern crate recursion;
extern crate dsl_compile;
extern crate eigen_zkit;
extern crate recursion_gnark_cli;
extern crate recursion_gnark_ffi;
extern crate starky;
pub type Gl = fields::field_gl::Fr;
pub type F3 = starky::f3g::F3G;
pub type F5 = starky::f5g::F5G;
pub type FrBn = starky::field_bn128::Fr;
pub type TGl = starky::transcript::TranscriptGL;
pub type TBn = starky::transcript_bn128::TranscriptBN128;
pub type TBls = starky::transcript_bls12381::TranscriptBLS128;
pub type MGl = starky::merklehash::MerkleTreeGL;
pub type MBn = starky::merklehash_bn128::MerkleTreeBN128;
pub type MBls = starky::merklehash_bls12381::MerkleTreeBLS12381;
pub type EBn = algebraic::bellman_ce::bn256::Bn256;
pub type EBls = algebraic::bellman_ce::bls12_381::Bls12;
pub type SBls = blstrs::Scalar;
pub type File = std::fs::File;
pub mod sd;
pub mod cs;
pub mod wc;
pub mod gk;
#[cfg(not(no_g16))]
pub mod g16;
pub type VSer = sd::VSer;
pub type VDe = sd::VDe;
pub type VSeq = sd::VSeq;
pub type VErr = sd::VErr;
pub type ABls = ark_bls12_381::Bls12_381;
pub type ABlsFr = ark_bls12_381::Fr;
