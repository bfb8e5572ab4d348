//! Roots of the analysis of the code behind vector target features.
extern crate fields;
extern crate starky;
#[cfg(not(target_feature = "avx512f"))]
pub type Packed = fields::arch::x86_64::avx2_field_gl::Avx2GoldilocksField;
#[cfg(target_feature = "avx512f")]
pub type Packed = fields::arch::x86_64::avx512_field_gl::Avx512GoldilocksField;
pub type Gl = fields::field_gl::Fr;
pub fn ones() -> Packed { <Packed as fields::packed::PackedField>::ONES }
pub fn zeros() -> Packed { <Packed as fields::packed::PackedField>::ZEROS }
pub fn width() -> usize { <Packed as fields::packed::PackedField>::WIDTH }
pub fn pack(s: &[fields::field_gl::FrRepr]) -> &[Packed] { <Packed as fields::packed::PackedField>::pack_slice(s) }
