//! stand-in for circom's program_structure (signatures only)
pub mod file_definition { pub struct FileLibrary; }
pub mod error_definition {
    pub struct Report;
    pub type ReportCollection = Vec<Report>;
    impl Report { pub fn print_reports(_: &[Report], _: &crate::file_definition::FileLibrary) { unimplemented!() } }
}
pub mod program_archive {
    use crate::file_definition::FileLibrary;
    pub struct ProgramArchive { pub file_library: FileLibrary }
    impl ProgramArchive { pub fn get_file_library(&self) -> &FileLibrary { &self.file_library } }
}
