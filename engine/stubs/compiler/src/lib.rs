//! stand-in for circom's compiler (signatures only)
pub mod hir { pub mod very_concrete_program { pub struct VCP; } }
pub mod compiler_interface {
    pub use crate::hir::very_concrete_program::VCP;
    pub struct Circuit;
    pub struct Config { pub debug_output: bool, pub produce_input_log: bool, pub wat_flag: bool }
    pub fn run_compiler(_: VCP, _: Config, _: &str) -> Result<Circuit, ()> { unimplemented!() }
    pub fn write_wasm(_: &Circuit, _: &str, _: &str, _: &str) -> Result<(), ()> { unimplemented!() }
    pub fn write_c(_: &Circuit, _: &str, _: &str, _: &str, _: &str) -> Result<(), ()> { unimplemented!() }
}
