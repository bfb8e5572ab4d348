//! stand-in for circom's parser (signatures only)
use program_structure::{error_definition::ReportCollection, file_definition::FileLibrary, program_archive::ProgramArchive};
use std::path::PathBuf;
pub fn run_parser(_: String, _: &str, _: Vec<PathBuf>) -> Result<(ProgramArchive, ReportCollection), (FileLibrary, ReportCollection)> { unimplemented!() }
