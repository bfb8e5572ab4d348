//! stand-in for circom's type_analysis (signatures only)
pub mod check_types {
    use program_structure::{error_definition::ReportCollection, program_archive::ProgramArchive};
    pub fn check_types(_: &mut ProgramArchive) -> Result<ReportCollection, ReportCollection> { unimplemented!() }
}
