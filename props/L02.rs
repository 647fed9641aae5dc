//! L02 image request paths
//@ crate laya
//@ note Request paths are concrete templates; each segment's own grammar (property L01) is replaced by an arbitrary outcome, the identifier is symbolic bytes.
//@ assume each parameter parser returns an arbitrary accepted value or an error of its own kind (its own behaviour is property L01); replay writes the outcome back as real text
//@ assume core::slice::memchr::memchr is replaced by a plain search loop with the same contract
//@ stubs segs <laya::verif::http::Region as core::str::FromStr>::from_str=>laya::verif::http::region,<laya::verif::http::Size as core::str::FromStr>::from_str=>laya::verif::http::size,<laya::verif::http::Rotation as core::str::FromStr>::from_str=>laya::verif::http::rotation,<laya::verif::http::Quality as core::str::FromStr>::from_str=>laya::verif::http::quality,<laya::verif::http::Format as core::str::FromStr>::from_str=>laya::verif::http::format
//@ stubs std core::slice::memchr::memchr=>laya::verif::http::memchr
//@ module http
pub use crate::iiif::{Format, Quality, Region, Rotation, Size};
use crate::iiif::Scale;
use crate::iiif::parse::ParseError as PE;
pub fn memchr(x: u8, text: &[u8]) -> Option<usize> { let mut i = 0; while i < text.len() { if text[i] == x { return Some(i); } i += 1; } None }

/// Outcome number per parameter: 0 is an error, others select a value.
static mut N: [u8; 5] = [0; 5];
const TXT: [[&str; 4]; 5] = [["sqare", "full", "square", "1,2,3,4"], ["1", "max", "^max", "pct:7"], ["x", "0", "!0", "90"],
    ["blue", "color", "gray", "default"], ["bmp", "jpg", "png", "webp"]];
fn e(k: usize) -> PE {
    let s = String::new();
    match k { 0 => PE::RegionSelectorCount(s), 1 => PE::SizeMissingComma(s), 2 => PE::RotationAngleUnparsable(s), 3 => PE::UnrecognisedQuality(s), _ => PE::UnrecognisedFormat(s) }
}
fn kind(x: &PE) -> usize {
    match x {
        PE::RegionSelectorUnparsable { .. } | PE::RegionSelectorOutOfBounds { .. } | PE::RegionPercentageOutOfBounds { .. } | PE::RegionSelectorCount(_) => 0,
        PE::RotationAngleUnparsable(_) | PE::RotationOutOfBounds(_) => 2,
        PE::UnrecognisedQuality(_) => 3,
        PE::UnrecognisedFormat(_) => 4,
        _ => 1,
    }
}
fn r(n: u8) -> Region { match n { 1 => Region::Full, 2 => Region::Square, _ => Region::Absolute { x: 1, y: 2, width: 3, height: 4 } } }
fn s(n: u8) -> Size { match n { 1 => Size::new(Scale::Max), 2 => Size::upscaled(Scale::Max), _ => Size::new(Scale::Percentage(7.0)) } }
fn o(n: u8) -> Rotation { match n { 1 => Rotation::new(0.0), 2 => Rotation::mirrored(0.0), _ => Rotation::new(90.0) } }
fn q(n: u8) -> Quality { match n { 1 => Quality::Color, 2 => Quality::Gray, _ => Quality::Default } }
fn f(n: u8) -> Format { match n { 1 => Format::Jpg, 2 => Format::Png, _ => Format::Webp } }
fn tok(t: &str, k: usize, c: u8) -> bool { t.len() == 1 && t.as_bytes()[0] == c && unsafe { N[k] != 0 } }
pub fn region(t: &str) -> Result<Region, PE> { if tok(t, 0, b'R') { Ok(r(unsafe { N[0] })) } else { Err(e(0)) } }
pub fn size(t: &str) -> Result<Size, PE> { if tok(t, 1, b'S') { Ok(s(unsafe { N[1] })) } else { Err(e(1)) } }
pub fn rotation(t: &str) -> Result<Rotation, PE> { if tok(t, 2, b'O') { Ok(o(unsafe { N[2] })) } else { Err(e(2)) } }
pub fn quality(t: &str) -> Result<Quality, PE> { if tok(t, 3, b'Q') { Ok(q(unsafe { N[3] })) } else { Err(e(3)) } }
pub fn format(t: &str) -> Result<Format, PE> { if tok(t, 4, b'F') { Ok(f(unsafe { N[4] })) } else { Err(e(4)) } }

fn outcomes() -> [u8; 5] {
    let n = [vh::u8_in(0, 3), vh::u8_in(0, 3), vh::u8_in(0, 3), vh::u8_in(0, 3), vh::u8_in(0, 3)];
    unsafe { N = n; }
    n
}
#[cfg(kani)]
fn path(t: &'static str) -> &'static str { t }
#[cfg(not(kani))]
fn path(t: &'static str) -> &'static str {
    let mut out = std::string::String::new();
    for c in t.chars() {
        match "RSOQF".find(c) { Some(k) => out.push_str(TXT[k][unsafe { N[k] } as usize]), None => out.push(c) }
    }
    out.leak()
}
/// (missing element, not UTF-8, parse error of parameter k)
#[derive(PartialEq, Clone, Copy)]
enum E { Missing(u8), NotUtf8, Parse(usize) }
fn element(n: &str) -> u8 {
    let b = n.as_bytes();
    if b.is_empty() { return 0 }
    if b.len() == 10 { b'i' } else if b.len() == 6 { if b[0] == b'r' { b'R' } else { b'F' } } else if b.len() == 4 { b'S' } else if b.len() == 8 { b'O' } else { b'Q' }
}
fn decode(p: &str) -> Result<ImageRequest, E> {
    match decode_image_request(p) {
        Ok(v) => Ok(v),
        Err(x) => {
            let k = match &x {
                ImageRequestError::UriMissingElement(n) => E::Missing(element(n)),
                ImageRequestError::UriNotUtf8(n) => { assert!(element(n) == b'i'); E::NotUtf8 }
                ImageRequestError::ParseError(pe) => E::Parse(kind(pe)),
            };
            core::mem::forget(x);
            Err(k)
        }
    }
}
fn is(a: &str, b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < b.len() { if a.as_bytes()[i] != b[i] { return false; } i += 1; }
    true
}
//@ proof unwind=16 stubs=segs+std bounds="a complete path, every combination of parameter outcomes"
pub fn complete_path() {
    let n = outcomes();
    let got = decode(path("/ab/R/S/O/Q.F"));
    match got {
        Ok(q_) => {
            assert!(n[0] != 0 && n[1] != 0 && n[2] != 0 && n[3] != 0 && n[4] != 0);
            assert!(is(q_.identifier(), b"ab"));
            assert!(*q_.region() == r(n[0]));
            assert!(q_.size() == s(n[1]));
            assert!(q_.rotation() == o(n[2]));
            assert!(q_.quality() == q(n[3]));
            assert!(q_.format() == f(n[4]));
            kani::cover!(true, "a request is decoded");
            core::mem::forget(q_);
        }
        Err(x) => {
            let k = if n[0] == 0 { 0 } else if n[1] == 0 { 1 } else if n[2] == 0 { 2 } else if n[3] == 0 { 3 } else { 4 };
            assert!(n[k] == 0);
            assert!(x == E::Parse(k));
            kani::cover!(k == 4, "only the format is wrong");
        }
    }
}
//@ proof unwind=16 stubs=segs+std profile=nodebug bounds="the same, compiled without debug assertions as release builds are"
pub fn complete_path_release() { complete_path() }

/// A path whose parameters are all well formed, as the solver's tokens.
fn fails(t: &'static str, want: E) {
    unsafe { N = [1; 5]; }
    let any: bool = kani::any();
    assert!(decode(path(t)).err() == Some(want));
    kani::cover!(any, "reached");
}
//@ proof unwind=18 stubs=segs+std bounds="the path /ab/R/S/O/Q with every parameter (R,S,O,Q,F) well formed"
pub fn no_format() { fails("/ab/R/S/O/Q", E::Missing(b'F')); }
//@ proof unwind=18 stubs=segs+std bounds="the path /ab/R/S/O with every parameter (R,S,O,Q,F) well formed"
pub fn no_quality() { fails("/ab/R/S/O", E::Missing(b'Q')); }
//@ proof unwind=18 stubs=segs+std bounds="the path /ab/R/S with every parameter (R,S,O,Q,F) well formed"
pub fn no_rotation() { fails("/ab/R/S", E::Missing(b'O')); }
//@ proof unwind=18 stubs=segs+std bounds="the path /ab/R with every parameter (R,S,O,Q,F) well formed"
pub fn no_size() { fails("/ab/R", E::Missing(b'S')); }
//@ proof unwind=18 stubs=segs+std bounds="the path /ab with every parameter (R,S,O,Q,F) well formed"
pub fn no_region() { fails("/ab", E::Missing(b'R')); }
//@ proof unwind=18 stubs=segs+std bounds="the path /ab//S/O/Q.F with every parameter (R,S,O,Q,F) well formed"
pub fn empty_region() { fails("/ab//S/O/Q.F", E::Parse(0)); }
//@ proof unwind=18 stubs=segs+std bounds="the path /ab/R//O/Q.F with every parameter (R,S,O,Q,F) well formed"
pub fn empty_size() { fails("/ab/R//O/Q.F", E::Parse(1)); }
//@ proof unwind=18 stubs=segs+std bounds="the path /ab/R/S//Q.F with every parameter (R,S,O,Q,F) well formed"
pub fn empty_rotation() { fails("/ab/R/S//Q.F", E::Parse(2)); }
//@ proof unwind=18 stubs=segs+std bounds="the path /ab/R/S/O/.F with every parameter (R,S,O,Q,F) well formed"
pub fn empty_quality() { fails("/ab/R/S/O/.F", E::Parse(3)); }
//@ proof unwind=18 stubs=segs+std bounds="the path /ab/R/S/O/Q. with every parameter (R,S,O,Q,F) well formed"
pub fn empty_format() { fails("/ab/R/S/O/Q.", E::Parse(4)); }
//@ proof unwind=18 stubs=segs+std bounds="the path /ab/R/S/O/Q.F.F with every parameter (R,S,O,Q,F) well formed"
pub fn two_formats() { fails("/ab/R/S/O/Q.F.F", E::Parse(4)); }
//@ proof unwind=18 stubs=segs+std bounds="the path /a%ff/R/S/O/Q.F with every parameter (R,S,O,Q,F) well formed"
pub fn not_utf8() { fails("/a%ff/R/S/O/Q.F", E::NotUtf8); }

/// Identifiers: percent-decoding happens after the path is split, once, and keeps every byte.
fn ident(t: &'static str, want: &[u8]) {
    unsafe { N = [1; 5]; }
    let any: bool = kani::any();
    match decode(path(t)) {
        Ok(v) => { assert!(is(v.identifier(), want)); assert!(v.quality() == q(1) && v.format() == f(1)); core::mem::forget(v); }
        Err(_) => assert!(false),
    }
    kani::cover!(any, "reached");
}
//@ proof unwind=22 stubs=segs+std bounds="one concrete identifier with an encoded slash"
pub fn encoded_slash() { ident("/a%2Fb/R/S/O/Q.F", b"a/b"); }
//@ proof unwind=22 stubs=segs+std bounds="one concrete identifier with an encoded percent sign"
pub fn encoded_percent() { ident("/%252F/R/S/O/Q.F", b"%2F"); }
//@ proof unwind=22 stubs=segs+std bounds="one concrete identifier: plus, dot, lower-case hex"
pub fn plain_kept() { ident("/a+.%c3%a9/R/S/O/Q.F", b"a+.\xc3\xa9"); }
