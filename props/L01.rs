//! L01 IIIF image-request parameters
//@ crate laya
//@ note Texts are concrete templates whose numeric tokens are symbolic (every u32, every f32 including NaN, infinities and signed zero, and "not a number"), plus fully symbolic short byte strings.
//@ assume std's integer and float parsers (`<u32 as FromStr>`, `<f32 as FromStr>`) are replaced by a table lookup that yields an arbitrary outcome per token; replay formats the outcome back into digits for the real parser
//@ assume number formatting and copying of text into error values (String::from, Display for f32/u32) is replaced by empty bodies: the text carried by an error is outside the claim
//@ assume core::slice::memchr::memchr is replaced by a plain search loop with the same contract
//@ stubs std <u32 as core::str::FromStr>::from_str=>laya::verif::parse::u32_from_str,<f32 as core::str::FromStr>::from_str=>laya::verif::parse::f32_from_str,<f32 as core::fmt::Display>::fmt=>laya::verif::parse::f32_fmt,<u32 as core::fmt::Display>::fmt=>laya::verif::parse::u32_fmt,core::slice::memchr::memchr=>laya::verif::parse::memchr,<std::string::String as core::convert::From<&str>>::from=>laya::verif::parse::string_from
//@ module parse
use core::fmt;

// ---- models of std (symbolic build only) ------------------------------------------------
static mut U: [Option<u32>; 6] = [None; 6];
static mut F: [Option<f32>; 6] = [None; 6];
fn token(s: &str) -> Option<usize> {
    let b = s.as_bytes();
    if b.len() == 1 && b[0] >= b'0' && b[0] <= b'5' { Some((b[0] - b'0') as usize) } else { None }
}
pub fn u32_from_str(s: &str) -> Result<u32, core::num::ParseIntError> {
    match token(s) { Some(i) => unsafe { U[i].ok_or(int_err()) }, None => Err(int_err()) }
}
pub fn f32_from_str(s: &str) -> Result<f32, core::num::ParseFloatError> {
    match token(s) { Some(i) => unsafe { F[i].ok_or(float_err()) }, None => Err(float_err()) }
}
fn int_err() -> core::num::ParseIntError { unsafe { core::mem::transmute(1u8) } }
fn float_err() -> core::num::ParseFloatError { unsafe { core::mem::transmute(1u8) } }
pub fn f32_fmt(v: &f32, f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
pub fn u32_fmt(v: &u32, f: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
pub fn memchr(x: u8, text: &[u8]) -> Option<usize> { let mut i = 0; while i < text.len() { if text[i] == x { return Some(i); } i += 1; } None }
pub fn string_from<'a>(s: &'a str) -> String where 'a: 'a { String::new() }

/// Arbitrary outcomes for the tokens 0..=4 (5 never parses).
fn any_ints() -> [Option<u32>; 6] {
    let mut t = [None; 6];
    let mut i = 0;
    while i < 5 { let ok: bool = kani::any(); let v: u32 = kani::any(); if ok { t[i] = Some(v); } i += 1; }
    unsafe { U = t; }
    t
}
fn any_floats() -> [Option<f32>; 6] {
    let mut t = [None; 6];
    let mut i = 0;
    while i < 5 { let ok: bool = kani::any(); let v: u32 = kani::any(); if ok { t[i] = Some(f32::from_bits(v)); } i += 1; }
    unsafe { F = t; }
    t
}
/// Every token parses, to an arbitrary acceptable value: only the shape of the text can be wrong.
fn good_numbers() {
    let v: u32 = kani::any();
    kani::assume(v > 0);
    let p: f32 = f32::from_bits(kani::any());
    kani::assume(p > 0.0 && p <= 100.0);
    let mut i = 0;
    while i < 5 { unsafe { U[i] = Some(v); F[i] = Some(p); } i += 1; }
}
/// The text of a template: itself for the solver; natively, tokens are written out.
#[cfg(kani)]
fn text(t: &'static str, float: bool) -> &'static str { t }
#[cfg(not(kani))]
fn text(t: &'static str, float: bool) -> &'static str {
    let mut s = std::string::String::new();
    for c in t.chars() {
        match c.to_digit(10) {
            Some(d) if float => match unsafe { F[d as usize] } { Some(v) => s.push_str(&std::format!("{v:?}")), None => s.push('x') },
            Some(d) => match unsafe { U[d as usize] } { Some(v) => s.push_str(&std::format!("{v}")), None => s.push('x') },
            None => s.push(c),
        }
    }
    s.leak()
}
/// What an error reports, without its text (and without running destructors of error values).
#[derive(Clone, Copy, PartialEq)]
enum K { RegionUnparsable(usize), RegionBounds(usize), RegionPercent(usize), RegionCount, SizeBounds, SizeUnparsable, SizePercentBounds,
    SizePercentUnparsable, RotationBounds, RotationUnparsable, Other }
fn p<T: FromStr<Err = ParseError>>(s: &str) -> Result<T, K> {
    match s.parse::<T>() {
        Ok(v) => Ok(v),
        Err(e) => {
            let k = match &e {
                ParseError::RegionSelectorUnparsable { index, .. } => { selector_name(*index); K::RegionUnparsable(*index) }
                ParseError::RegionSelectorOutOfBounds { index, .. } => { selector_name(*index); K::RegionBounds(*index) }
                ParseError::RegionPercentageOutOfBounds { index, .. } => { selector_name(*index); K::RegionPercent(*index) }
                ParseError::RegionSelectorCount(_) => K::RegionCount,
                ParseError::SizeDimensionOutOfBounds(_) => K::SizeBounds,
                ParseError::SizeDimensionUnparsable(_) => K::SizeUnparsable,
                ParseError::SizePercentageOutOfBounds(_) => K::SizePercentBounds,
                ParseError::SizePercentageUnparsable(_) => K::SizePercentUnparsable,
                ParseError::RotationOutOfBounds(_) => K::RotationBounds,
                ParseError::RotationAngleUnparsable(_) => K::RotationUnparsable,
                _ => K::Other,
            };
            core::mem::forget(e);
            Err(k)
        }
    }
}
fn good_pct(v: f32) -> bool { v > 0.0 && v.is_finite() }

// ---- regions ----------------------------------------------------------------------------
//@ proof unwind=20 stubs=std bounds="x,y,w,h with every outcome of each number"
pub fn region_absolute_values() {
    let u = any_ints();
    let r = p::<Region>(text("0,1,2,3", false));
    let mut first_bad = 4;
    let mut i = 4;
    while i > 0 { i -= 1; match u[i] { None => first_bad = i, Some(v) => if i >= 2 && v == 0 { first_bad = i } } }
    match r {
        Ok(Region::Absolute { x, y, width, height }) => {
            assert!(first_bad == 4);
            assert!(u[0] == Some(x) && u[1] == Some(y) && u[2] == Some(width) && u[3] == Some(height));
            kani::cover!(x == u32::MAX && y == 0, "extreme offsets accepted");
        }
        Ok(_) => assert!(false),
        Err(K::RegionUnparsable(index)) => { assert!(index == first_bad && u[index].is_none()); }
        Err(K::RegionBounds(index)) => { assert!(index == first_bad && u[index] == Some(0)); kani::cover!(index == 3, "zero height"); }
        Err(_) => assert!(false),
    }
}

//@ proof unwind=20 stubs=std bounds="pct:x,y,w,h with every outcome of each number"
pub fn region_percent_values() {
    let t = any_floats();
    let r = p::<Region>(text("pct:0,1,2,3", true));
    let mut first_bad = 4;
    let mut i = 4;
    while i > 0 { i -= 1; if !t[i].map_or(false, good_pct) { first_bad = i; } }
    match r {
        Ok(Region::Percentage { x, y, width, height }) => {
            assert!(first_bad == 4);
            assert!(t[0] == Some(x) && t[1] == Some(y) && t[2] == Some(width) && t[3] == Some(height));
            kani::cover!(x == 5.5, "accepted");
        }
        Ok(_) => assert!(false),
        Err(K::RegionUnparsable(index)) => { assert!(index == first_bad && t[index].is_none()); }
        Err(K::RegionPercent(index)) => { assert!(index == first_bad && t[index].is_some()); kani::cover!(t[index] == Some(f32::INFINITY), "infinite"); }
        Err(_) => assert!(false),
    }
}

//@ proof unwind=15 stubs=std bounds="4 keyword or malformed templates, every valid value of the numbers"
pub fn region_shapes_0() {
    good_numbers();
    assert!(p::<Region>(text("full", false)) == Ok(Region::Full));
    assert!(p::<Region>(text("0,1", false)).is_err());
    assert!(p::<Region>(text("x,0,1,2", false)).is_err());
    assert!(p::<Region>(text("pct:0,1,2,3,4", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}
//@ proof unwind=12 stubs=std bounds="4 keyword or malformed templates, every valid value of the numbers"
pub fn region_shapes_1() {
    good_numbers();
    assert!(p::<Region>(text("square", false)) == Ok(Region::Square));
    assert!(p::<Region>(text("0,1,2", false)).is_err());
    assert!(p::<Region>(text(" 0,1,2,3", false)).is_err());
    assert!(p::<Region>(text("pct:0,1,2,", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}
//@ proof unwind=13 stubs=std bounds="4 keyword or malformed templates, every valid value of the numbers"
pub fn region_shapes_2() {
    good_numbers();
    assert!(p::<Region>(text("", false)).is_err());
    assert!(p::<Region>(text("0,1,2,3,4", false)).is_err());
    assert!(p::<Region>(text("0;1;2;3", false)).is_err());
    assert!(p::<Region>(text("PCT:0,1,2,3", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}
//@ proof unwind=17 stubs=std bounds="4 keyword or malformed templates, every valid value of the numbers"
pub fn region_shapes_3() {
    good_numbers();
    assert!(p::<Region>(text("full,", false)).is_err());
    assert!(p::<Region>(text("0,1,2,3,", false)).is_err());
    assert!(p::<Region>(text("0,1,2,-3", false)).is_err());
    assert!(p::<Region>(text("pct:pct:0,1,2,3", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}
//@ proof unwind=10 stubs=std bounds="4 keyword or malformed templates, every valid value of the numbers"
pub fn region_shapes_4() {
    good_numbers();
    assert!(p::<Region>(text("ful", false)).is_err());
    assert!(p::<Region>(text(",0,1,2,3", false)).is_err());
    assert!(p::<Region>(text("pct:", true)).is_err());
    assert!(p::<Region>(text("pct:full", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}
//@ proof unwind=8 stubs=std bounds="3 keyword or malformed templates, every valid value of the numbers"
pub fn region_shapes_5() {
    good_numbers();
    assert!(p::<Region>(text("Full", false)).is_err());
    assert!(p::<Region>(text("0,,2,3", false)).is_err());
    assert!(p::<Region>(text("pct", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}
//@ proof unwind=9 stubs=std bounds="3 keyword or malformed templates, every valid value of the numbers"
pub fn region_shapes_6() {
    good_numbers();
    assert!(p::<Region>(text("squares", false)).is_err());
    assert!(p::<Region>(text("0,1,2,", false)).is_err());
    assert!(p::<Region>(text("pct:0", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}
//@ proof unwind=11 stubs=std bounds="3 keyword or malformed templates, every valid value of the numbers"
pub fn region_shapes_7() {
    good_numbers();
    assert!(p::<Region>(text("0", false)).is_err());
    assert!(p::<Region>(text(",,,", false)).is_err());
    assert!(p::<Region>(text("pct:0,1,2", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}

// ---- sizes ------------------------------------------------------------------------------
fn nz(v: Option<u32>) -> Option<NonZero<u32>> { v.and_then(NonZero::new) }

//@ proof unwind=16 stubs=std bounds="w,h / w, / ,h / !w,h with and without ^, every outcome of each number"
pub fn size_pixels() {
    let u = any_ints();
    let up: bool = kani::any();
    let (w, h) = (nz(u[0]), nz(u[1]));
    let fixed = |s: &'static str, w: Option<Option<NonZero<u32>>>, h: Option<Option<NonZero<u32>>>| {
        // Some(None): given but invalid
        let r = p::<Size>(text(s, false));
        if w == Some(None) || h == Some(None) { assert!(r.is_err()); }
        else {
            let want = Scale::Fixed { width: w.flatten(), height: h.flatten() };
            assert!(r == Ok(if up { Size::upscaled(want) } else { Size::new(want) }));
            kani::cover!(true, "fixed size accepted");
        }
    };
    if up { fixed("^0,1", Some(w), Some(h)); fixed("^0,", Some(w), None); fixed("^,1", None, Some(h)); }
    else { fixed("0,1", Some(w), Some(h)); fixed("0,", Some(w), None); fixed(",1", None, Some(h)); }
    let r = if up { p::<Size>(text("^!0,1", false)) } else { p::<Size>(text("!0,1", false)) };
    match (w, h) {
        (Some(width), Some(height)) => {
            let want = Scale::AspectPreserving { width, height };
            assert!(r == Ok(if up { Size::upscaled(want) } else { Size::new(want) }));
        }
        _ => assert!(r.is_err()),
    }
    kani::cover!(up && r.is_ok(), "upscaled aspect-preserving");
    // a parameter that parses but is zero is out of bounds, not unparsable
    if u[0] == Some(0) { assert!(p::<Size>(text("0,", false)) == Err(K::SizeBounds)); }
    if u[0].is_none() { assert!(p::<Size>(text("0,", false)) == Err(K::SizeUnparsable)); }
}

//@ proof unwind=16 stubs=std bounds="pct:n and ^pct:n for every outcome of the number"
pub fn size_percent() {
    let t = any_floats();
    let a = p::<Size>(text("pct:0", true));
    let b = p::<Size>(text("^pct:0", true));
    match t[0] {
        Some(v) if good_pct(v) => {
            assert!(b == Ok(Size::upscaled(Scale::Percentage(v))));
            if v <= 100.0 { assert!(a == Ok(Size::new(Scale::Percentage(v)))); kani::cover!(v == 100.0, "100%"); }
            else { assert!(a == Err(K::SizePercentBounds)); }
        }
        Some(v) => {
            assert!(a == Err(K::SizePercentBounds));
            assert!(b == Err(K::SizePercentBounds));
            kani::cover!(v == f32::INFINITY, "infinite");
        }
        None => {
            assert!(a == Err(K::SizePercentUnparsable));
            assert!(b == Err(K::SizePercentUnparsable));
        }
    }
}

//@ proof unwind=8 stubs=std bounds="8 keyword or malformed templates, every valid value of the numbers"
pub fn size_shapes_0() {
    good_numbers();
    assert!(p::<Size>(text("max", false)) == Ok(Size::new(Scale::Max)));
    assert!(p::<Size>(text("!", false)).is_err());
    assert!(p::<Size>(text("!,", false)).is_err());
    assert!(p::<Size>(text("!0", false)).is_err());
    assert!(p::<Size>(text("^!,1", false)).is_err());
    assert!(p::<Size>(text("maxx", false)).is_err());
    assert!(p::<Size>(text("x,1", false)).is_err());
    assert!(p::<Size>(text("pct0", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}
//@ proof unwind=8 stubs=std bounds="8 keyword or malformed templates, every valid value of the numbers"
pub fn size_shapes_1() {
    good_numbers();
    assert!(p::<Size>(text("^max", false)) == Ok(Size::upscaled(Scale::Max)));
    assert!(p::<Size>(text("^!", false)).is_err());
    assert!(p::<Size>(text("^!,", false)).is_err());
    assert!(p::<Size>(text("!0,", false)).is_err());
    assert!(p::<Size>(text("0,1,2", false)).is_err());
    assert!(p::<Size>(text("!!0,1", false)).is_err());
    assert!(p::<Size>(text("pct:", true)).is_err());
    assert!(p::<Size>(text("PCT:0", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}
//@ proof unwind=8 stubs=std bounds="7 keyword or malformed templates, every valid value of the numbers"
pub fn size_shapes_2() {
    good_numbers();
    assert!(p::<Size>(text("", false)).is_err());
    assert!(p::<Size>(text(",", false)).is_err());
    assert!(p::<Size>(text("0", false)).is_err());
    assert!(p::<Size>(text("!,1", false)).is_err());
    assert!(p::<Size>(text("!0,1,2", false)).is_err());
    assert!(p::<Size>(text("!^0,1", false)).is_err());
    assert!(p::<Size>(text("!pct:0", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}
//@ proof unwind=9 stubs=std bounds="7 keyword or malformed templates, every valid value of the numbers"
pub fn size_shapes_3() {
    good_numbers();
    assert!(p::<Size>(text("^", false)).is_err());
    assert!(p::<Size>(text("^,", false)).is_err());
    assert!(p::<Size>(text("^0", false)).is_err());
    assert!(p::<Size>(text("^!0,", false)).is_err());
    assert!(p::<Size>(text("!max", false)).is_err());
    assert!(p::<Size>(text("^^0,1", false)).is_err());
    assert!(p::<Size>(text("pct:0,1", true)).is_err());
    kani::cover!(unsafe { U[0] } == Some(7), "numbers parse");
}

// ---- rotation ---------------------------------------------------------------------------
//@ proof unwind=16 stubs=std bounds="n and !n for every outcome of the number; malformed templates"
pub fn rotation() {
    let t = any_floats();
    let a = p::<Rotation>(text("0", true));
    let b = p::<Rotation>(text("!0", true));
    match t[0] {
        Some(v) if v >= 0.0 && v <= 360.0 => {
            assert!(a == Ok(Rotation::new(v)));
            assert!(b == Ok(Rotation::mirrored(v)));
            assert!(!Rotation::new(v).mirror() && Rotation::mirrored(v).mirror());
            kani::cover!(v == 360.0, "full turn");
        }
        Some(v) => {
            assert!(a == Err(K::RotationBounds));
            assert!(b == Err(K::RotationBounds));
            kani::cover!(v.is_nan(), "NaN");
        }
        None => {
            assert!(a == Err(K::RotationUnparsable));
            assert!(b == Err(K::RotationUnparsable));
        }
    }
    assert!(p::<Rotation>(text("", true)).is_err());
    assert!(p::<Rotation>(text("!", true)).is_err());
    assert!(p::<Rotation>(text("!!0", true)).is_err());
    assert!(p::<Rotation>(text("0!", true)).is_err());
    assert!(p::<Rotation>(text("x", true)).is_err());
}

// ---- quality and format: every short byte string -----------------------------------------
fn is(b: &[u8], n: usize, w: &[u8]) -> bool {
    if n != w.len() { return false; }
    let mut i = 0;
    while i < w.len() { if b[i] != w[i] { return false; } i += 1; }
    true
}
//@ proof unwind=12 stub="<std::string::String as core::convert::From<&str>>::from=>laya::verif::parse::string_from" bounds="every string of up to 8 ASCII bytes"
pub fn quality_any() {
    let b: [u8; 8] = vh::bytes();
    let n = vh::usize_in(0, 8);
    let mut i = 0;
    while i < 8 { kani::assume(b[i] < 128); i += 1; }
    let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    let want = if is(&b, n, b"color") { Some(Quality::Color) } else if is(&b, n, b"gray") { Some(Quality::Gray) }
        else if is(&b, n, b"bitonal") { Some(Quality::Bitonal) } else if is(&b, n, b"default") { Some(Quality::Default) } else { None };
    assert!(p::<Quality>(s).ok() == want);
    kani::cover!(want == Some(Quality::Bitonal), "bitonal");
}
//@ proof unwind=12 stub="<std::string::String as core::convert::From<&str>>::from=>laya::verif::parse::string_from" bounds="every string of up to 5 ASCII bytes"
pub fn format_any() {
    let b: [u8; 5] = vh::bytes();
    let n = vh::usize_in(0, 5);
    let mut i = 0;
    while i < 5 { kani::assume(b[i] < 128); i += 1; }
    let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    let want = if is(&b, n, b"jpg") { Some(Format::Jpg) } else if is(&b, n, b"tif") { Some(Format::Tif) }
        else if is(&b, n, b"png") { Some(Format::Png) } else if is(&b, n, b"gif") { Some(Format::Gif) }
        else if is(&b, n, b"jp2") { Some(Format::Jp2) } else if is(&b, n, b"pdf") { Some(Format::Pdf) }
        else if is(&b, n, b"webp") { Some(Format::Webp) } else { None };
    assert!(p::<Format>(s).ok() == want);
    kani::cover!(want == Some(Format::Webp), "webp");
}

// ---- arbitrary short text never panics ----------------------------------------------------
//@ proof unwind=10 stubs=std bounds="every text of up to 3 characters, each any ASCII character or any two-byte character"
pub fn short_text_total() {
    any_ints();
    any_floats();
    let mut b = [0u8; 6];
    let mut n = 0;
    let k = vh::usize_in(0, 3);
    let mut i = 0;
    while i < 3 {
        if i < k {
            let c: u8 = kani::any();
            if c < 128 { b[n] = c; n += 1; } else { b[n] = 0xC4 | (c & 1); b[n + 1] = 0x80 | (c >> 1 & 0x3F); n += 2; }
        }
        i += 1;
    }
    let s = unsafe { core::str::from_utf8_unchecked(&b[..n]) };
    let size = p::<Size>(s).ok();
    let rot = p::<Rotation>(s).ok();
    if let Some(r) = rot { assert!(r.degrees() >= 0.0 && r.degrees() <= 360.0); }
    if let Some(z) = size {
        match z.scale() {
            Scale::Max => assert!(!z.upscale()),
            Scale::Fixed { width, height } => assert!(width.is_some() || height.is_some()),
            _ => assert!(false),
        }
        kani::cover!(!z.upscale(), "a size is accepted");
    }
    kani::cover!(k == 3 && n == 6, "non-ASCII text");
}
