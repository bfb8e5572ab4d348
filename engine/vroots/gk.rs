//! The SNARK bridge at its curve.
use crate::{ABls, ABlsFr, File};
use ark_ec::pairing::Pairing;
use ark_serialize::SerializationError;
use recursion_gnark_ffi::traits::{ArkworksPairingBridge as B, ArkworksPrimeFieldBridge as Q, CheckElement};
type R<T> = Result<T, SerializationError>;
type G1 = <ABls as Pairing>::G1Affine;
type G2 = <ABls as Pairing>::G2Affine;
type Fq = <ABls as Pairing>::BaseField;
pub fn yes() -> CheckElement { CheckElement::Yes }
pub fn no() -> CheckElement { CheckElement::No }
pub fn g1_bytes(b: &[u8], c: CheckElement) -> R<G1> { ABls::g1_from_bytes(b, c) }
pub fn g2_bytes(b: &[u8], c: CheckElement) -> R<G2> { ABls::g2_from_bytes(b, c) }
pub fn g1_reader(f: File, c: CheckElement) -> R<G1> { ABls::g1_from_reader(f, c) }
pub fn g2_reader(f: File, c: CheckElement) -> R<G2> { ABls::g2_from_reader(f, c) }
pub fn g1_vec(f: File, n: usize, c: CheckElement) -> R<Vec<G1>> { ABls::g1_vec_from_reader(f, n, c) }
pub fn g2_vec(f: File, n: usize, c: CheckElement) -> R<Vec<G2>> { ABls::g2_vec_from_reader(f, n, c) }
pub fn fq_reader(f: File) -> R<Fq> { Fq::from_reader(f) }
pub fn fr_reader(f: File) -> R<ABlsFr> { <ABlsFr as Q>::from_reader(f) }
pub fn fq_mont(f: File) -> R<Fq> { Fq::montgomery_bigint_from_reader(f) }
pub fn fr_mont(f: File) -> R<ABlsFr> { <ABlsFr as Q>::montgomery_bigint_from_reader(f) }
pub fn fq_zkey(f: File) -> R<Fq> { Fq::from_reader_for_groth16_zkey(f) }
pub fn fr_zkey(f: File) -> R<ABlsFr> { <ABlsFr as Q>::from_reader_for_groth16_zkey(f) }
pub fn name() -> String { ABls::get_arkworks_name() }
pub fn g1_str(x: &str, y: &str, z: &str, c: CheckElement) -> R<G1> { ABls::g1_from_strings_projective(x, y, z, c) }
pub fn g2_str(x: [&str; 2], y: [&str; 2], z: [&str; 2], c: CheckElement) -> R<G2> { ABls::g2_from_strings_projective(x[0], x[1], y[0], y[1], z[0], z[1], c) }
