//! Constraint systems that only record what a circuit asks of them (hooks give the tape_* functions their meaning).
use std::hint::black_box;
#[inline(never)] pub fn cs_alloc(input: bool) -> usize { black_box(input) as usize }
#[inline(never)] pub fn cs_value<T>(input: bool, value: T) { black_box((input, value)); }
#[inline(never)] pub fn cs_enforce<T>(a: T, b: T, c: T) { black_box((a, b, c)); }
#[inline(never)] pub fn cs_witness() -> bool { black_box(true) }
pub struct VCs;
mod gpu {
    use super::*;
    use bellperson::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable};
    pub type S = blstrs::Scalar;
    impl ConstraintSystem<S> for VCs {
        type Root = VCs;
        fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<S, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
            if cs_witness() { cs_value(false, f()?); }
            Ok(Variable::new_unchecked(Index::Aux(cs_alloc(false))))
        }
        fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<S, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
            if cs_witness() { cs_value(true, f()?); }
            Ok(Variable::new_unchecked(Index::Input(cs_alloc(true))))
        }
        fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC) where A: FnOnce() -> AR, AR: Into<String>,
            LA: FnOnce(LinearCombination<S>) -> LinearCombination<S>, LB: FnOnce(LinearCombination<S>) -> LinearCombination<S>, LC: FnOnce(LinearCombination<S>) -> LinearCombination<S> {
            cs_enforce(a(LinearCombination::zero()), b(LinearCombination::zero()), c(LinearCombination::zero()))
        }
        fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
        fn pop_namespace(&mut self) {}
        fn get_root(&mut self) -> &mut Self::Root { self }
    }
    pub fn synth_gpu(c: algebraic_gpu::circom_circuit::CircomCircuit<S>) -> Result<(), SynthesisError> { Circuit::synthesize(c, &mut VCs) }
}
mod cpu {
    use super::*;
    use algebraic::bellman_ce::{Circuit, ConstraintSystem, Index, LinearCombination, SynthesisError, Variable, Engine};
    impl<E: Engine> ConstraintSystem<E> for VCs {
        fn alloc<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<E::Fr, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
            if cs_witness() { cs_value(false, f()?); }
            Ok(Variable::new_unchecked(Index::Aux(cs_alloc(false))))
        }
        fn alloc_input<F, A, AR>(&mut self, _: A, f: F) -> Result<Variable, SynthesisError> where F: FnOnce() -> Result<E::Fr, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
            if cs_witness() { cs_value(true, f()?); }
            Ok(Variable::new_unchecked(Index::Input(cs_alloc(true))))
        }
        fn enforce<A, AR, LA, LB, LC>(&mut self, _: A, a: LA, b: LB, c: LC) where A: FnOnce() -> AR, AR: Into<String>,
            LA: FnOnce(LinearCombination<E>) -> LinearCombination<E>, LB: FnOnce(LinearCombination<E>) -> LinearCombination<E>, LC: FnOnce(LinearCombination<E>) -> LinearCombination<E> {
            cs_enforce(a(LinearCombination::zero()), b(LinearCombination::zero()), c(LinearCombination::zero()))
        }
    }
    pub fn synth_bn(c: algebraic::circom_circuit::CircomCircuit<crate::EBn>) -> Result<(), SynthesisError> { c.synthesize(&mut VCs) }
    pub fn synth_bls(c: algebraic::circom_circuit::CircomCircuit<crate::EBls>) -> Result<(), SynthesisError> { c.synthesize(&mut VCs) }
}
pub use cpu::*; pub use gpu::*;
