//! What every feature combination must offer. Only type checked.
#![no_std]
extern crate alloc;
use alloc::vec::Vec;
use barcoders::error::{Error, Result};
use barcoders::sym::{codabar::Codabar, code11::{Code11, USD8}, code128::Code128, code39::Code39, code93::Code93, ean13::{Bookland, EAN13, JAN}, ean8::EAN8, ean_supp::EANSUPP, tf::TF, upca::UPCA};

macro_rules! symbology { ($name:ident, $ty:ty, $($ctor:ident),+) => {
    pub fn $name(s: &str) -> Result<Vec<u8>> { $( let _b: Result<$ty> = <$ty>::$ctor(s); )+ let mut v = Vec::new(); $( v.extend(<$ty>::$ctor(s)?.encode()); )+ Ok(v) }
} }
symbology!(codabar, Codabar, new);
symbology!(code11, Code11, new);
symbology!(usd8, USD8, new);
symbology!(code128, Code128, new);
symbology!(code39, Code39, new, with_checksum);
symbology!(code93, Code93, new);
symbology!(ean13, EAN13, new);
symbology!(jan, JAN, new);
symbology!(bookland, Bookland, new);
symbology!(ean8, EAN8, new);
symbology!(ean_supp, EANSUPP, new);
symbology!(tf, TF, interleaved, standard);
symbology!(upca, UPCA, new);

pub fn errors(e: Error) -> impl core::fmt::Display { match e { Error::Character | Error::Length | Error::Generate | Error::Checksum => e } }

#[cfg(feature = "ascii")]
pub fn ascii(m: &[u8]) -> Result<alloc::string::String> { let mut a = barcoders::generators::ascii::ASCII::new(); a.height = 3; a.xdim = 2; a.generate(m) }
#[cfg(feature = "json")]
pub fn json(m: &[u8]) -> Result<alloc::string::String> { let mut a = barcoders::generators::json::JSON::new(); a.height = 3; a.xdim = 2; a.generate(m) }
#[cfg(feature = "svg")]
pub fn svg(m: &[u8]) -> Result<alloc::string::String> { barcoders::generators::svg::SVG::new(4).xdim(2).xmlns(alloc::string::String::new()).foreground(barcoders::generators::svg::Color::black()).background(barcoders::generators::svg::Color::new([1, 2, 3, 4])).generate(m) }
#[cfg(all(feature = "image", feature = "std"))]
pub fn image(m: &[u8]) -> Result<Vec<u8>> { use barcoders::generators::image::{Color, Image, Rotation}; let _ = (Color::white(), Rotation::Ninety); Image::gif(3).generate(m)?; Image::png(3).generate(m)?; let _ = Image::image_buffer(4).generate_buffer(m)?; Image::webp(3).generate(m) }
#[cfg(feature = "std")]
pub fn std_error(e: Error) -> alloc::boxed::Box<dyn core::error::Error + Send + Sync> { alloc::boxed::Box::new(e) }
