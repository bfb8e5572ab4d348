//! Witness calculators at concrete argument types.
use num_bigint::BigInt;
macro_rules! wc { ($m:ident, $c:ident, $e:ty) => { pub mod $m {
    use super::*;
    use $c::witness::WitnessCalculator as W;
    pub fn open(p: &str) -> W { W::from_file(p).unwrap() }
    pub fn calc(w: &mut W, i: Vec<(String, Vec<BigInt>)>, s: bool) -> Vec<BigInt> { w.calculate_witness(i, s).unwrap() }
    pub fn calc_bin(w: &mut W, i: Vec<(String, Vec<BigInt>)>, s: bool) -> Vec<u32> { w.calculate_witness_bin(i, s).unwrap() }
    pub fn save(w: &mut W, f: crate::File, v: &Vec<u32>) { w.save_witness_from_bin_writer::<$e, _>(f, v).unwrap() }
    pub fn save_to(w: &mut W, f: &str, v: &Vec<u32>) { w.save_witness_to_bin_file::<$e>(f, v).unwrap() }
    pub fn inputs(f: &str) -> std::collections::HashMap<String, Vec<BigInt>> { $c::witness::load_input_for_witness(f) }
} } }
wc!(gpu, algebraic_gpu, blstrs::Scalar);
wc!(bn, algebraic, crate::EBn);
wc!(bls, algebraic, crate::EBls);
