//! stand-in for circom's constraint_generation (signatures only)
use compiler::hir::very_concrete_program::VCP;
use constraint_writers::ConstraintExporter;
use program_structure::program_archive::ProgramArchive;
pub struct BuildConfig {
    pub no_rounds: usize, pub flag_json_sub: bool, pub json_substitutions: String, pub flag_s: bool, pub flag_f: bool, pub flag_p: bool,
    pub flag_verbose: bool, pub flag_old_heuristics: bool, pub inspect_constraints: bool, pub prime: String,
}
pub type ConstraintWriter = Box<dyn ConstraintExporter>;
pub fn build_circuit(_: ProgramArchive, _: BuildConfig) -> Result<(ConstraintWriter, VCP), ()> { unimplemented!() }
