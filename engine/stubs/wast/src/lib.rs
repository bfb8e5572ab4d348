//! stand-in for wast (signatures only)
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl std::error::Error for Error {}
pub mod parser {
    pub struct ParseBuffer<'a>(&'a str);
    impl<'a> ParseBuffer<'a> { pub fn new(_: &'a str) -> Result<ParseBuffer<'a>, crate::Error> { unimplemented!() } }
    pub trait Parse<'a>: Sized {}
    pub fn parse<'a, T: Parse<'a>>(_: &'a ParseBuffer<'a>) -> Result<T, crate::Error> { unimplemented!() }
}
pub struct Module<'a>(&'a str);
impl<'a> Module<'a> { pub fn encode(&mut self) -> Result<Vec<u8>, Error> { unimplemented!() } }
pub struct Wat<'a> { pub module: Module<'a> }
impl<'a> parser::Parse<'a> for Wat<'a> {}
