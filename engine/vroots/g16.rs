//! Roots for the documents of the groth16 crate.
use crate::sd::VErr;
macro_rules! roots { ($($s:ident $d:ident $t:ty),*) => { $(
    pub fn $s(x: &$t) -> Result<(), VErr> { crate::sd::ser(x) }
    pub fn $d() -> Result<$t, VErr> { crate::sd::de() } )* } }
roots! { ser_vkf de_vkf groth16::json_utils::VerifyingKeyFile, ser_pff de_pff groth16::json_utils::ProofFile }
