pub mod ean;
pub mod linear;
pub mod c128;
pub mod accept;
pub mod shape;
pub mod relate;
pub mod inject;
#[cfg(all(feature = "ascii", feature = "json", feature = "svg"))]
pub mod gen;
pub mod misc;
#[cfg(feature = "img")]
pub mod raster;
#[cfg(feature = "img")]
pub mod agree;
