//! Type-only stand-in for franklin_crypto / bellman_ce: the signatures /repo uses, without bodies.
//! The analysis treats every function here as an opaque external operation.
#![allow(unused, non_camel_case_types)]
#[macro_use]
pub extern crate ff;
pub mod bellman {
    pub use crate::ff;
    pub use crate::ff::*;
    pub mod pairing {
        pub use crate::ff;
        use crate::ff::*;
        use crate::ff::ScalarEngine;
        pub trait CurveProjective: Sized + Copy + Clone + Send + Sync + std::fmt::Debug + PartialEq + 'static {}
        pub trait EncodedPoint: Sized {}
        #[derive(Debug)] pub enum GroupDecodingError { NotOnCurve, NotInSubgroup }
        impl std::fmt::Display for GroupDecodingError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
        impl std::error::Error for GroupDecodingError {}
        pub trait CurveAffine: Copy + Clone + Sized + Send + Sync + std::fmt::Debug + std::fmt::Display + PartialEq + Eq + 'static {
            type Engine: Engine; type Scalar: PrimeField; type Base: SqrtField;
            fn zero() -> Self; fn one() -> Self; fn is_zero(&self) -> bool; fn negate(&mut self);
            fn as_xy(&self) -> (&Self::Base, &Self::Base);
            fn into_xy_unchecked(self) -> (Self::Base, Self::Base);
            fn from_xy_unchecked(x: Self::Base, y: Self::Base) -> Self;
            fn from_xy_checked(x: Self::Base, y: Self::Base) -> Result<Self, GroupDecodingError>;
        }
        pub trait Engine: ScalarEngine {
            type G1: CurveProjective; type G2: CurveProjective;
            type G1Affine: CurveAffine<Base = Self::Fq, Scalar = Self::Fr, Engine = Self>;
            type G2Affine: CurveAffine<Base = Self::Fqe, Scalar = Self::Fr, Engine = Self>;
            type Fq: PrimeField + SqrtField; type Fqe: SqrtField; type Fqk: Field;
        }
        macro_rules! curve { ($m:ident, $e:ident, $r:expr, $rg:expr, $q:expr, $qg:expr) => {
            pub mod $m {
                use super::*; use crate::ff::*;
                mod fr { use crate::ff::*; #[derive(crate::ff::PrimeField)] #[PrimeFieldModulus = $r] #[PrimeFieldGenerator = $rg] pub struct Fr(FrRepr); }
                mod fq { use crate::ff::*; #[derive(crate::ff::PrimeField)] #[PrimeFieldModulus = $q] #[PrimeFieldGenerator = $qg] pub struct Fq(FqRepr); }
                pub use fr::*; pub use fq::*;
                #[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)] pub struct Fq2 { pub c0: Fq, pub c1: Fq }
                impl std::fmt::Display for Fq2 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
                impl rand::Rand for Fq2 { fn rand<R: rand::Rng>(_: &mut R) -> Self { unimplemented!() } }
                impl Field for Fq2 {
                    fn zero() -> Self { unimplemented!() } fn one() -> Self { unimplemented!() } fn is_zero(&self) -> bool { unimplemented!() }
                    fn square(&mut self) {} fn double(&mut self) {} fn negate(&mut self) {} fn add_assign(&mut self, _: &Self) {} fn sub_assign(&mut self, _: &Self) {} fn mul_assign(&mut self, _: &Self) {}
                    fn inverse(&self) -> Option<Self> { unimplemented!() } fn frobenius_map(&mut self, _: usize) {}
                }
                impl SqrtField for Fq2 { fn legendre(&self) -> LegendreSymbol { unimplemented!() } fn sqrt(&self) -> Option<Self> { unimplemented!() } }
                #[derive(Copy, Clone, Debug, PartialEq)] pub struct G1; #[derive(Copy, Clone, Debug, PartialEq)] pub struct G2;
                impl CurveProjective for G1 {} impl CurveProjective for G2 {}
                macro_rules! aff { ($n:ident, $b:ty) => {
                    #[derive(Copy, Clone, Debug, PartialEq, Eq)] pub struct $n { pub x: $b, pub y: $b, pub infinity: bool }
                    impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
                    impl CurveAffine for $n { type Engine = $e; type Scalar = Fr; type Base = $b;
                        fn zero() -> Self { unimplemented!() } fn one() -> Self { unimplemented!() } fn is_zero(&self) -> bool { unimplemented!() } fn negate(&mut self) {}
                        fn as_xy(&self) -> (&$b, &$b) { unimplemented!() } fn into_xy_unchecked(self) -> ($b, $b) { unimplemented!() }
                        fn from_xy_unchecked(x: $b, y: $b) -> Self { unimplemented!() } fn from_xy_checked(x: $b, y: $b) -> Result<Self, GroupDecodingError> { unimplemented!() } }
                } }
                aff!(G1Affine, Fq); aff!(G2Affine, Fq2);
                #[derive(Copy, Clone, Debug)] pub struct $e;
                impl ScalarEngine for $e { type Fr = Fr; }
                impl Engine for $e { type G1 = G1; type G2 = G2; type G1Affine = G1Affine; type G2Affine = G2Affine; type Fq = Fq; type Fqe = Fq2; type Fqk = Fq2; }
            }
        } }
        curve!(bn256, Bn256, "21888242871839275222246405745257275088548364400416034343698204186575808495617", "7",
            "21888242871839275222246405745257275088696311157297823662689037894645226208583", "3");
        curve!(bls12_381, Bls12, "52435875175126190479447740508185965837690552500527637822603658699938581184513", "7",
            "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787", "2");
    }
    pub use pairing::*;
    #[derive(Debug)] pub enum SynthesisError { AssignmentMissing, Unsatisfiable }
    impl std::fmt::Display for SynthesisError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl std::error::Error for SynthesisError {}
    #[derive(Copy, Clone, PartialEq, Debug, Eq, Hash)] pub enum Index { Input(usize), Aux(usize) }
    #[derive(Copy, Clone, PartialEq, Debug)] pub struct Variable(Index);
    impl Variable { pub fn new_unchecked(idx: Index) -> Variable { Variable(idx) } pub fn get_unchecked(&self) -> Index { self.0 } }
    #[derive(Clone, Debug)] pub struct LinearCombination<E: ScalarEngine>(pub Vec<(Variable, E::Fr)>);
    impl<E: ScalarEngine> LinearCombination<E> { pub fn zero() -> Self { unimplemented!() } }
    impl<E: ScalarEngine> std::ops::Add<(E::Fr, Variable)> for LinearCombination<E> { type Output = Self; fn add(self, _: (E::Fr, Variable)) -> Self { unimplemented!() } }
    impl<E: ScalarEngine> std::ops::Sub<(E::Fr, Variable)> for LinearCombination<E> { type Output = Self; fn sub(self, _: (E::Fr, Variable)) -> Self { unimplemented!() } }
    pub trait Circuit<E: Engine> { fn synthesize<CS: ConstraintSystem<E>>(self, cs: &mut CS) -> Result<(), SynthesisError>; }
    pub trait ConstraintSystem<E: Engine>: Sized {
        fn alloc<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<E::Fr, SynthesisError>, A: FnOnce() -> AR, AR: Into<String>;
        fn alloc_input<F, A, AR>(&mut self, a: A, f: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<E::Fr, SynthesisError>, A: FnOnce() -> AR, AR: Into<String>;
        fn enforce<A, AR, LA, LB, LC>(&mut self, a: A, la: LA, lb: LB, lc: LC) where A: FnOnce() -> AR, AR: Into<String>,
            LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>, LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>, LC: FnOnce(LinearCombination<E>) -> LinearCombination<E>;
    }
    pub mod kate_commitment {
        use super::*;
        pub struct CrsForLagrangeForm; pub struct CrsForMonomialForm;
        pub struct Crs<E: Engine, T>(std::marker::PhantomData<(E, T)>);
        impl<E: Engine, T> Crs<E, T> { pub fn read<R: std::io::Read>(r: R) -> Result<Self, std::io::Error> { unimplemented!() } }
    }
    pub mod groth16 {
        use super::*; use std::io;
        #[derive(Clone, Debug)] pub struct Proof<E: Engine> { pub a: E::G1Affine, pub b: E::G2Affine, pub c: E::G1Affine }
        #[derive(Clone, Debug)] pub struct VerifyingKey<E: Engine> { pub alpha_g1: E::G1Affine, pub beta_g1: E::G1Affine, pub beta_g2: E::G2Affine, pub gamma_g2: E::G2Affine, pub delta_g1: E::G1Affine, pub delta_g2: E::G2Affine, pub ic: Vec<E::G1Affine> }
        #[derive(Clone, Debug)] pub struct Parameters<E: Engine> { pub vk: VerifyingKey<E> }
        impl<E: Engine> Parameters<E> { pub fn write<W: io::Write>(&self, w: W) -> io::Result<()> { unimplemented!() } pub fn read<R: io::Read>(r: R, checked: bool) -> io::Result<Self> { unimplemented!() } }
        impl<E: Engine> VerifyingKey<E> { pub fn write<W: io::Write>(&self, w: W) -> io::Result<()> { unimplemented!() } pub fn read<R: io::Read>(r: R) -> io::Result<Self> { unimplemented!() } }
        pub struct PreparedVerifyingKey<E: Engine>(E);
        pub fn prepare_verifying_key<E: Engine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> { unimplemented!() }
        pub fn verify_proof<'a, E: Engine>(pvk: &'a PreparedVerifyingKey<E>, proof: &Proof<E>, public_inputs: &[E::Fr]) -> Result<bool, SynthesisError> { unimplemented!() }
        pub fn generate_random_parameters<E: Engine, C: Circuit<E>, R: rand::Rng>(circuit: C, rng: &mut R) -> Result<Parameters<E>, SynthesisError> { unimplemented!() }
        pub fn create_random_proof<E: Engine, C: Circuit<E>, R: rand::Rng, P>(circuit: C, params: P, rng: &mut R) -> Result<Proof<E>, SynthesisError> { unimplemented!() }
    }
}
pub mod plonk { pub mod circuit { pub mod bigint {
    pub mod bigint {
        use num_bigint::BigUint; use crate::ff::PrimeField;
        pub fn biguint_to_fe<F: PrimeField>(v: BigUint) -> F { unimplemented!() }
        pub fn fe_to_biguint<F: PrimeField>(v: &F) -> BigUint { unimplemented!() }
    }
    pub mod field {
        use num_bigint::BigUint; use crate::ff::PrimeField; use crate::bellman::Engine;
        pub struct BP { pub limb_size_bits: usize, pub limb_max_value: BigUint } pub struct RC { pub minimal_multiple: usize }
        pub struct RnsParameters<E: Engine, F: PrimeField> { pub num_limbs_for_in_field_representation: usize, pub num_binary_limbs: usize, pub binary_limbs_params: BP, pub range_check_info: RC,
            pub binary_limbs_bit_widths: Vec<usize>, pub binary_limbs_max_values: Vec<BigUint>, pub _p: std::marker::PhantomData<(E, F)> }
        impl<E: Engine, F: PrimeField> RnsParameters<E, F> { pub fn can_allocate_from_double_limb_witness(&self) -> bool { unimplemented!() } }
    }
} } }
