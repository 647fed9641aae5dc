//! C08 component transforms
//@ crate jp2
//@ note Reversible, irreversible and custom multiple-component transforms (src/mct.rs).
//@ assume sample values are below 2^28 in magnitude, so that the transform's sums fit 32 bits (components have at most 38 bits nominally, at most 31 here; the encoder's are shifted to at most 2^27 by the level shift for precisions up to 28)
//@ module mct

const B: i32 = 1 << 28;
fn small(m: i32) -> i32 { vh::i32_in(-m, m) }
//@ proof unwind=6 bounds="0..=2 samples per component, all three components, |v| < 2^28; guard samples after the end"
pub fn reversible_lossless() {
    unsafe {
        let n = vh::usize_in(0, 2);
        let mut c = [[7i32; 3]; 3];
        let mut i = 0;
        while i < 2 { c[0][i] = small(B); c[1][i] = small(B); c[2][i] = small(B); i += 1; }
        let o = c;
        let [a, b, d] = &mut c;
        opj_mct_encode(a.as_mut_ptr(), b.as_mut_ptr(), d.as_mut_ptr(), n);
        let mut i = 0;
        while i < 3 {
            let (r, g, bl) = (o[0][i] as i64, o[1][i] as i64, o[2][i] as i64);
            if i < n {
                assert!(a[i] as i64 == (r + 2 * g + bl).div_euclid(4));
                assert!(b[i] as i64 == bl - g && d[i] as i64 == r - g);
            } else { assert!(a[i] == o[0][i] && b[i] == o[1][i] && d[i] == o[2][i]); }
            i += 1;
        }
        opj_mct_decode(a.as_mut_ptr(), b.as_mut_ptr(), d.as_mut_ptr(), n);
        let mut i = 0;
        while i < 3 { assert!(a[i] == o[0][i] && b[i] == o[1][i] && d[i] == o[2][i]); i += 1; }
        kani::cover!(n == 2 && o[0][0] == -B && o[1][1] == B, "extreme values");
        kani::cover!(n == 0, "empty");
    }
}
//@ proof unwind=6 bounds="0..=2 decoder samples with arbitrary coefficients below 2^28"
pub fn reversible_decode() {
    unsafe {
        let n = vh::usize_in(0, 2);
        let mut c = [[0i32; 3]; 3];
        let mut i = 0;
        while i < 3 { c[0][i] = small(B); c[1][i] = small(B); c[2][i] = small(B); i += 1; }
        let o = c;
        let [a, b, d] = &mut c;
        opj_mct_decode(a.as_mut_ptr(), b.as_mut_ptr(), d.as_mut_ptr(), n);
        let mut i = 0;
        while i < 3 {
            let (y, u, v) = (o[0][i] as i64, o[1][i] as i64, o[2][i] as i64);
            if i < n {
                let g = y - (u + v).div_euclid(4);
                assert!(a[i] as i64 == v + g && b[i] as i64 == g && d[i] as i64 == u + g);
            } else { assert!(a[i] == o[0][i] && b[i] == o[1][i] && d[i] == o[2][i]); }
            i += 1;
        }
        kani::cover!(n == 2, "two samples");
    }
}
fn near(x: f32, num: i32) -> bool { let d = x as f64 * 100000.0 - num as f64; d > -60.0 && d < 60.0 }
const RW: i32 = if THOROUGH { 8191 } else { 255 };
fn one(k: usize) -> ([f32; 2], [f32; 2], [f32; 2], i32) {
    let v = small(RW);
    let z = |j| [if j == k { v as f32 } else { 0.0 }, 77.0];
    (z(0), z(1), z(2), v)
}
const F: [[i32; 3]; 3] = [[29900, 58700, 11400], [-16875, -33126, 50000], [50000, -41869, -8131]];
const I: [[i32; 3]; 3] = [[100000, 0, 140200], [100000, -34413, -71414], [100000, 177200, 0]];
unsafe fn real(k: usize, inverse: bool) {
    let (mut x, mut y, mut z, v) = one(k);
    let m = if inverse { opj_mct_decode_real(x.as_mut_ptr(), y.as_mut_ptr(), z.as_mut_ptr(), 1); I }
        else { opj_mct_encode_real(x.as_mut_ptr(), y.as_mut_ptr(), z.as_mut_ptr(), 1); F };
    assert!(near(x[0], m[0][k] * v) && near(y[0], m[1][k] * v) && near(z[0], m[2][k] * v));
    assert!(x[1] == 77.0 && y[1] == 77.0 && z[1] == 77.0);
    kani::cover!(v == -RW, "extreme");
}
//@ proof unwind=5 bounds="one sample, component 0 any integer within 255 (thorough: 8191), the others zero; coefficients of ISO 15444-1 annex G to 0.0006"
pub fn irreversible_forward_0() { unsafe { real(0, false) } }
//@ proof unwind=5 bounds="one sample, component 1 any integer within 255 (thorough: 8191), the others zero; coefficients of ISO 15444-1 annex G to 0.0006"
pub fn irreversible_forward_1() { unsafe { real(1, false) } }
//@ proof unwind=5 bounds="one sample, component 2 any integer within 255 (thorough: 8191), the others zero; coefficients of ISO 15444-1 annex G to 0.0006"
pub fn irreversible_forward_2() { unsafe { real(2, false) } }
//@ proof unwind=5 bounds="one sample, component 0 any integer within 255 (thorough: 8191), the others zero; coefficients of ISO 15444-1 annex G to 0.0006"
pub fn irreversible_inverse_0() { unsafe { real(0, true) } }
//@ proof unwind=5 bounds="one sample, component 1 any integer within 255 (thorough: 8191), the others zero; coefficients of ISO 15444-1 annex G to 0.0006"
pub fn irreversible_inverse_1() { unsafe { real(1, true) } }
//@ proof unwind=5 bounds="one sample, component 2 any integer within 255 (thorough: 8191), the others zero; coefficients of ISO 15444-1 annex G to 0.0006"
pub fn irreversible_inverse_2() { unsafe { real(2, true) } }
//@ proof unwind=10 bounds="2 components, 0..=2 samples within 1000, integer matrix entries within 3 (thorough: 3 components)"
pub fn custom_forward() {
    unsafe {
        const C: usize = if THOROUGH { 3 } else { 2 };
        let n = vh::usize_in(0, 2);
        let mut m = [0f32; C * C];
        let mut mi = [0i32; C * C];
        let mut i = 0;
        while i < C * C { mi[i] = small(3); m[i] = mi[i] as f32; i += 1; }
        let mut d = [[0i32; 3]; C];
        let mut i = 0;
        while i < C { d[i][0] = small(1000); d[i][1] = small(1000); d[i][2] = small(1000); i += 1; }
        let o = d;
        let mut p = [core::ptr::null_mut::<u8>(); C];
        let mut i = 0;
        while i < C { p[i] = d[i].as_mut_ptr() as *mut u8; i += 1; }
        assert!(opj_mct_encode_custom(m.as_mut_ptr() as *mut u8, n, p.as_mut_ptr(), C as u32, 1) == 1);
        let mut i = 0;
        while i < C {
            let mut s = 0;
            while s < 3 {
                if s < n {
                    let (mut k, mut sum) = (0, 0);
                    while k < C { sum += mi[i * C + k] * o[k][s]; k += 1; }
                    assert!(d[i][s] == sum);
                } else { assert!(d[i][s] == o[i][s]); }
                s += 1;
            }
            i += 1;
        }
        kani::cover!(n == 2 && mi[1] == -3, "two samples");
    }
}
//@ proof unwind=10 bounds="2 components, 0..=2 samples within 15, integer matrix entries within 3"
pub fn custom_inverse() {
    unsafe {
        const C: usize = 2;
        let n = vh::usize_in(0, 2);
        let mut m = [0f32; C * C];
        let mut mi = [0i32; C * C];
        let mut i = 0;
        while i < C * C { mi[i] = small(3); m[i] = mi[i] as f32; i += 1; }
        let mut d = [[0f32; 3]; C];
        let mut o = [[0i32; 3]; C];
        let mut i = 0;
        while i < C { let mut s = 0; while s < 3 { o[i][s] = small(15); d[i][s] = o[i][s] as f32; s += 1; } i += 1; }
        let mut p = [core::ptr::null_mut::<u8>(); C];
        let mut i = 0;
        while i < C { p[i] = d[i].as_mut_ptr() as *mut u8; i += 1; }
        assert!(opj_mct_decode_custom(m.as_mut_ptr() as *mut u8, n, p.as_mut_ptr(), C as u32, 1) == 1);
        let mut i = 0;
        while i < C {
            let mut s = 0;
            while s < 3 {
                if s < n {
                    let (mut k, mut sum) = (0, 0);
                    while k < C { sum += mi[i * C + k] * o[k][s]; k += 1; }
                    assert!(d[i][s] == sum as f32);
                } else { assert!(d[i][s] == o[i][s] as f32); }
                s += 1;
            }
            i += 1;
        }
        kani::cover!(n == 2 && mi[1] == -3, "two samples");
    }
}
