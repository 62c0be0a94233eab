//! C26 / C30 witnesses: every line must type-check. Compiled against the library with all features.
#![allow(dead_code)]
use barcoders::error::Error;
use barcoders::generators::{ascii::ASCII, image, json::JSON, svg};
use barcoders::sym::{codabar::Codabar, code11::{Code11, USD8}, code128::Code128, code39::Code39, code93::Code93, ean13::{Bookland, EAN13, JAN}, ean8::EAN8, ean_supp::EANSUPP, tf::TF, upca::UPCA};
fn shared<T: Send + Sync + Unpin + 'static>() {}
fn cloneable<T: Clone>() {}
fn plain_copy<T: Copy + PartialEq>() {}
macro_rules! each { ($($i:ident: $ty:ty),+ $(,)?) => { $( mod $i { use super::*; fn w() { shared::<$ty>(); } } )+ } }
each!(
    w_codabar: Codabar, w_code11: Code11, w_usd8: USD8, w_code128: Code128, w_code39: Code39, w_code93: Code93, w_ean13: EAN13, w_bookland: Bookland,
    w_jan: JAN, w_ean8: EAN8, w_ean_supp: EANSUPP, w_tf: TF, w_upca: UPCA, w_ascii: ASCII, w_json: JSON, w_svg: svg::SVG, w_svg_color: svg::Color,
    w_image: image::Image, w_image_color: image::Color, w_rotation: image::Rotation, w_error: Error,
);
fn w_result() { shared::<barcoders::error::Result<Code39>>(); shared::<barcoders::error::Result<String>>(); }
fn w_clone_ascii() { cloneable::<ASCII>(); }
fn w_clone_json() { cloneable::<JSON>(); }
fn w_clone_svg() { cloneable::<svg::SVG>(); }
fn w_clone_svg_color() { cloneable::<svg::Color>(); }
fn w_clone_image() { cloneable::<image::Image>(); }
fn w_clone_image_color() { cloneable::<image::Color>(); }
fn w_clone_rotation() { cloneable::<image::Rotation>(); }
fn w_copy_error() { plain_copy::<Error>(); }
macro_rules! encode { ($($f:ident: $ty:ty),+ $(,)?) => { $( fn $f(b: &$ty) -> Vec<u8> { b.encode() } )+ } }
encode!(e_codabar: Codabar, e_code11: Code11, e_code128: Code128, e_code39: Code39, e_code93: Code93, e_ean13: EAN13, e_ean8: EAN8, e_ean_supp: EANSUPP, e_tf: TF, e_upca: UPCA);
fn g_ascii(g: &ASCII, m: &[u8]) -> Result<String, Error> { g.generate(m) }
fn g_json(g: &JSON, m: &[u8]) -> Result<String, Error> { g.generate(m) }
fn g_svg(g: &svg::SVG, m: &[u8]) -> Result<String, Error> { g.generate(m) }
fn g_image(g: &image::Image, m: &[u8]) -> Result<Vec<u8>, Error> { g.generate(m) }
fn g_buffer(g: &image::Image, m: &[u8]) { let _ = g.generate_buffer(m); }
fn t_std_error() { fn f<T: std::error::Error + Send + Sync + 'static>() {} f::<Error>(); }
fn t_display() { fn f<T: core::fmt::Display>() {} f::<Error>(); }
fn threads(b: std::sync::Arc<Code128>, g: std::sync::Arc<svg::SVG>) { std::thread::spawn(move || g.generate(b.encode())); }
