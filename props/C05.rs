//! C05 coordinate arithmetic
//@ crate jp2
//@ note Oracle: the mathematical definitions over 128-bit integers.
//@ assume divisors and powers of two are in the range their callers establish (divisor nonzero, exponent 0..=31); opj_int_abs is not given i32::MIN
//@ module math

//@ proof unwind=34 bounds="every u32/i32 value and every exponent 0..=31"
pub fn pow2_divisions() {
    let (a, s): (u32, i32) = (kani::any(), kani::any());
    let b = vh::u32_in(0, 31);
    let p = 1i128 << b;
    // ceil(a / 2^b) is the only q with (q-1)*2^b < a <= q*2^b
    let q = opj_uint_ceildivpow2(a, b) as i128;
    assert!((q - 1) << b < a as i128 && a as i128 <= q << b);
    let q = opj_int_ceildivpow2(s, b as i32) as i128;
    assert!((q - 1) << b < s as i128 && s as i128 <= q << b);
    let q = opj_uint_floordivpow2(a, b) as i128;
    assert!(q << b <= a as i128 && (a as i128) < (q + 1) << b);
    let q = opj_int_floordivpow2(s, b as i32) as i128;
    assert!(q << b <= s as i128 && (s as i128) < (q + 1) << b);
    kani::cover!(a == u32::MAX && b == 31, "largest");
    kani::cover!(s == i32::MIN && b == 1, "most negative");
    let _ = p;
}
//@ proof unwind=4 bounds="every i64 whose rounded-up quotient fits 32 bits, every exponent 0..=31"
pub fn pow2_division_64() {
    let a: i64 = kani::any();
    let b = vh::i32_in(0, 31);
    kani::assume(a > -(1 << 62) && a < 1 << 62);
    let t = (a as i128 + (1i128 << b) - 1) >> b;
    kani::assume(t >= i32::MIN as i128 && t <= i32::MAX as i128);
    let q = opj_int64_ceildivpow2(a, b) as i128;
    assert!((q - 1) << b < a as i128 && a as i128 <= q << b);
    kani::cover!(a == 1 << 40 && b == 30, "wide value");
}
const DW: u32 = if THOROUGH { 12 } else { 8 };
fn ceil_ok(a: i128, b: i128, q: i128) -> bool { (q - 1) * b < a && a <= q * b }
fn wide(x: u32, shape: u8) -> u32 { if shape == 0 { x } else if shape == 1 { u32::MAX - x } else if shape == 2 { 0x8000_0000 - x } else { 0x8000_0000u32.wrapping_add(x) } }
//@ proof unwind=4 bounds="dividends and divisors within 2^8 (thorough: 2^12) of 0, 2^31 and 2^32, in every combination"
pub fn divisions_unsigned() {
    let (x, y) = (vh::u32_in(0, (1 << DW) - 1), vh::u32_in(0, (1 << DW) - 1));
    let (sa, sb) = (vh::u8_in(0, 3), vh::u8_in(0, 3));
    let (a, b) = (wide(x, sa), wide(y, sb));
    kani::assume(b != 0);
    let q = opj_uint_ceildiv(a, b);
    assert!(ceil_ok(a as i128, b as i128, q as i128));
    kani::cover!(a == u32::MAX && b == u32::MAX, "sum beyond 32 bits");
    kani::cover!(a == 0, "zero");
}
//@ proof unwind=4 bounds="as above with a signed non-negative dividend and a positive divisor"
pub fn divisions_signed() {
    let (x, y) = (vh::u32_in(0, (1 << DW) - 1), vh::u32_in(0, (1 << DW) - 1));
    let (sa, sb): (bool, bool) = (kani::any(), kani::any());
    let a = if sa { 0x7FFF_FFFF - x } else { x } as i32;
    let b = if sb { 0x7FFF_FFFF - y } else { y } as i32;
    kani::assume(b != 0);
    let q = opj_int_ceildiv(a, b);
    assert!(ceil_ok(a as i128, b as i128, q as i128));
    kani::cover!(a == i32::MAX && b == i32::MAX, "sum beyond 32 bits");
}
//@ proof unwind=4 bounds="64-bit dividends within 2^8 (thorough: 2^12) of 0, 2^32 and 2^40 whose quotient fits"
pub fn divisions_64() {
    let (x, y) = (vh::u32_in(0, (1 << DW) - 1), vh::u32_in(0, (1 << DW) - 1));
    let (sa, sb) = (vh::u8_in(0, 2), vh::u8_in(0, 2));
    let base = [0u64, 1 << 32, 1 << 40];
    let a = base[sa as usize] + x as u64;
    let b = base[sb as usize] + y as u64;
    kani::assume(b != 0);
    kani::assume((a + b - 1) / b <= u32::MAX as u64);
    let q = opj_uint64_ceildiv_res_uint32(a, b);
    assert!(ceil_ok(a as i128, b as i128, q as i128));
    kani::cover!(sa == 2 && sb == 1, "wide by wide");
}
//@ proof unwind=34 bounds="every u32 and i32"
pub fn logs() {
    let a: u32 = kani::any();
    let l = opj_uint_floorlog2(a);
    if a == 0 { assert!(l == 0); } else { assert!(l < 32 && a >> l == 1); }
    let s: i32 = kani::any();
    let l = opj_int_floorlog2(s);
    if s <= 0 { assert!(l == 0); } else { assert!(l < 31 && s >> l == 1); }
    kani::cover!(a >= 1 << 31, "top bit");
    kani::cover!(s > 1 << 30, "top bit, signed");
}
//@ proof unwind=4 bounds="every value of every argument"
pub fn saturating_and_clamp() {
    let (a, b): (u32, u32) = (kani::any(), kani::any());
    let (s, t, u): (i32, i32, i32) = (kani::any(), kani::any(), kani::any());
    assert!(opj_uint_adds(a, b) as u64 == core::cmp::min(a as u64 + b as u64, u32::MAX as u64));
    assert!(opj_uint_subs(a, b) == if a > b { a - b } else { 0 });
    assert!(opj_int_add_no_overflow(s, t) as i128 == (s as i128 + t as i128) as i32 as i128);
    assert!(opj_int_sub_no_overflow(s, t) as i128 == (s as i128 - t as i128) as i32 as i128);
    assert!(opj_int_max(s, t) == if s > t { s } else { t } && opj_int_min(s, t) == if s < t { s } else { t });
    assert!(opj_uint_max(a, b) == if a > b { a } else { b } && opj_uint_min(a, b) == if a < b { a } else { b });
    if s != i32::MIN { assert!(opj_int_abs(s) as i64 == if s < 0 { -(s as i64) } else { s as i64 }); }
    kani::assume(s <= t);
    let c = opj_int_clamp(u, s, t);
    assert!(c == if u < s { s } else if u > t { t } else { u });
    let (x, lo, hi): (i64, i64, i64) = (kani::any(), kani::any(), kani::any());
    kani::assume(lo <= hi);
    let c = opj_int64_clamp(x, lo, hi);
    assert!(c == if x < lo { lo } else if x > hi { hi } else { x });
    kani::cover!(a as u64 + b as u64 > u32::MAX as u64, "saturation");
}
//@ proof unwind=4 bounds="every float of magnitude below 2^31"
pub fn rounding() {
    let bits: u32 = kani::any();
    let f = f32::from_bits(bits);
    kani::assume(f.abs() < 2147483648.0);
    let r = opj_lrintf(f);
    // nearest integer, ties to even
    let d = f as f64 - r as f64;
    assert!(d >= -0.5 && d <= 0.5);
    if d == 0.5 || d == -0.5 { assert!(r & 1 == 0); }
    kani::cover!(d == 0.5, "tie");
    kani::cover!(f < -1.0, "negative");
}
