//! C06 reversible wavelet transform
//@ crate jp2
//@ note The 5/3 wavelet transform of a tile component (src/dwt.rs), all resolution levels.
//@ assume coefficients below 2^24 in magnitude and tile-component sizes of a few samples; scratch memory requests succeed; the buffer extends one row past the tile-component (the code forms, and does not use, pointers there)
//@ stubs mem openjp2::malloc::opj_aligned_32_malloc=>openjp2::dwt::verif::amalloc,openjp2::malloc::opj_aligned_malloc=>openjp2::dwt::verif::amalloc,openjp2::malloc::opj_aligned_free=>openjp2::dwt::verif::afree
//@ module dwt

const SCRATCH: usize = 160;
static mut BJ: [i32; SCRATCH] = [0; SCRATCH];
static mut LIVE: bool = false;
pub unsafe fn amalloc(n: usize) -> *mut core::ffi::c_void {
    assert!(!LIVE && n <= 4 * SCRATCH);
    if n == 0 { return core::ptr::null_mut(); }
    LIVE = true;
    &raw mut BJ as *mut _
}
pub unsafe fn afree(p: *mut core::ffi::c_void) { if !p.is_null() { assert!(LIVE && p == &raw mut BJ as *mut _); LIVE = false; } }
fn cdp(a: i32, b: u32) -> i32 { (a + (1 << b) - 1) >> b }
/// One unused entry precedes the resolutions, since the code forms `resolutions - 1` (never read).
const MAXR: usize = 5;
static mut RES: [opj_tcd_resolution_t; MAXR] = unsafe { core::mem::zeroed() };
static mut TC: opj_tcd_tilecomp_t = unsafe { core::mem::zeroed() };
static mut TCD: opj_tcd_t = unsafe { core::mem::zeroed() };
unsafe fn case(x0: i32, y0: i32, w: i32, h: i32, nres: usize, data: *mut i32) {
    let mut r = 0;
    while r < nres {
        let s = (nres - 1 - r) as u32;
        let t = &mut *(&raw mut RES[r + 1]);
        t.x0 = cdp(x0, s); t.y0 = cdp(y0, s); t.x1 = cdp(x0 + w, s); t.y1 = cdp(y0 + h, s);
        r += 1;
    }
    let tc = &mut *(&raw mut TC);
    tc.x0 = x0; tc.y0 = y0; tc.x1 = x0 + w; tc.y1 = y0 + h;
    tc.numresolutions = nres as u32;
    tc.minimum_num_resolutions = nres as u32;
    tc.resolutions = &raw mut RES[1];
    tc.data = data;
    (*(&raw mut TCD)).whole_tile_decoding = 1;
}
/// One-dimensional forward 5/3 transform (ISO 15444-1 F.4.8): samples at coordinates i0..i0+n,
/// result in place still interleaved.  Single samples pass through, doubled at odd coordinates.
fn fwd<const M: usize>(x: &mut [i32; M], i0: i32, n: i32) {
    if n == 1 { if i0 & 1 == 1 { x[0] *= 2; } return; }
    let at = |k: i32| { let k = if k < 0 { -k } else if k >= n { 2 * (n - 1) - k } else { k }; k as usize };
    let mut k = 0;
    while k < n { if (i0 + k) & 1 == 1 { x[k as usize] -= (x[at(k - 1)] + x[at(k + 1)]) >> 1; } k += 1; }
    let mut k = 0;
    while k < n { if (i0 + k) & 1 == 0 { x[k as usize] += (x[at(k - 1)] + x[at(k + 1)] + 2) >> 2; } k += 1; }
}
fn split<const M: usize>(x: &[i32; M], i0: i32, n: i32) -> [i32; M] {
    let mut o = [0; M];
    let mut p = 0;
    let mut k = 0;
    while k < n { if (i0 + k) & 1 == 0 { o[p] = x[k as usize]; p += 1; } k += 1; }
    let mut k = 0;
    while k < n { if (i0 + k) & 1 == 1 { o[p] = x[k as usize]; p += 1; } k += 1; }
    o
}
const M: usize = 10;
fn reference(d: &mut [[i32; M]; M], x0: i32, y0: i32, w: i32, h: i32, nres: usize) {
    let mut l = 0;
    while l + 1 < nres as u32 {
        let (ax, ay) = (cdp(x0, l), cdp(y0, l));
        let (lw, lh) = (cdp(x0 + w, l) - ax, cdp(y0 + h, l) - ay);
        let mut j = 0;
        while j < lw as usize {
            let mut col = [0; M];
            let mut i = 0;
            while i < lh as usize { col[i] = d[i][j]; i += 1; }
            if lh > 0 { fwd(&mut col, ay, lh); }
            let col = split(&col, ay, lh);
            let mut i = 0;
            while i < lh as usize { d[i][j] = col[i]; i += 1; }
            j += 1;
        }
        let mut i = 0;
        while i < lh as usize {
            let mut row = d[i];
            if lw > 0 { fwd(&mut row, ax, lw); }
            let o = split(&row, ax, lw);
            let mut j = 0;
            while j < lw as usize { d[i][j] = o[j]; j += 1; }
            i += 1;
        }
        l += 1;
    }
}
unsafe fn go<const N: usize>(x0: i32, y0: i32, w: i32, h: i32, nres: usize) {
    assert!(N as i32 == w * h + w);
    LIVE = false;
    let mut d = [0i32; N];
    let (mut i, mut j);
    i = 0;
    while i < h as usize { j = 0; while j < w as usize { d[i * w as usize + j] = vh::i32_in(-(1 << 24), 1 << 24); j += 1; } i += 1; }
    j = 0;
    while j < w as usize { d[(w * h) as usize + j] = 7; j += 1; }
    let o = d;
    let mut m = [[0i32; M]; M];
    i = 0;
    while i < h as usize { j = 0; while j < w as usize { m[i][j] = d[i * w as usize + j]; j += 1; } i += 1; }
    case(x0, y0, w, h, nres, d.as_mut_ptr());
    assert!(opj_dwt_encode(&raw mut TC) == 1);
    reference(&mut m, x0, y0, w, h, nres);
    let mut i = 0;
    while i < h as usize { j = 0; while j < w as usize { assert!(m[i][j] == d[i * w as usize + j]); j += 1; } i += 1; }
    kani::cover!((w * h < 3 || nres == 1) || d[0] != o[0], "samples change");
    assert!(opj_dwt_decode(&raw mut TCD, &raw mut TC, nres as u32) == 1);
    let mut i = 0;
    while i < h as usize { j = 0; while j < w as usize { let k = i * w as usize + j; assert!(d[k] == o[k]); j += 1; } i += 1; }
    j = 0;
    while j < w as usize { assert!(d[(w * h) as usize + j] == 7, "sample behind the tile-component changed"); j += 1; }
    assert!(!cfg!(kani) || !LIVE);
}
//@ proof unwind=90 stubs=mem bounds="4x3 samples at (0,0), 1 decomposition levels, every sample below 2^24"
pub fn t_4x3_at_0_0_l1() { unsafe { go::<16>(0, 0, 4, 3, 2) } }
//@ proof unwind=90 stubs=mem bounds="3x4 samples at (1,1), 1 decomposition levels, every sample below 2^24"
pub fn t_3x4_at_1_1_l1() { unsafe { go::<15>(1, 1, 3, 4, 2) } }
//@ proof unwind=90 stubs=mem bounds="1x1 samples at (0,0), 1 decomposition levels, every sample below 2^24"
pub fn t_1x1_at_0_0_l1() { unsafe { go::<2>(0, 0, 1, 1, 2) } }
//@ proof unwind=90 stubs=mem bounds="1x1 samples at (1,1), 1 decomposition levels, every sample below 2^24"
pub fn t_1x1_at_1_1_l1() { unsafe { go::<2>(1, 1, 1, 1, 2) } }
//@ proof unwind=90 stubs=mem bounds="1x3 samples at (1,0), 1 decomposition levels, every sample below 2^24"
pub fn t_1x3_at_1_0_l1() { unsafe { go::<4>(1, 0, 1, 3, 2) } }
//@ proof unwind=90 stubs=mem bounds="4x1 samples at (0,1), 2 decomposition levels, every sample below 2^24"
pub fn t_4x1_at_0_1_l2() { unsafe { go::<8>(0, 1, 4, 1, 3) } }
//@ proof unwind=90 stubs=mem bounds="5x3 samples at (1,2), 2 decomposition levels, every sample below 2^24"
pub fn t_5x3_at_1_2_l2() { unsafe { go::<20>(1, 2, 5, 3, 3) } }
//@ proof unwind=90 stubs=mem bounds="9x2 samples at (0,0), 1 decomposition levels, every sample below 2^24"
pub fn t_9x2_at_0_0_l1() { unsafe { go::<27>(0, 0, 9, 2, 2) } }
//@ proof unwind=90 stubs=mem bounds="2x5 samples at (3,1), 2 decomposition levels, every sample below 2^24"
pub fn t_2x5_at_3_1_l2() { unsafe { go::<12>(3, 1, 2, 5, 3) } }
//@ proof unwind=90 stubs=mem bounds="3x2 samples at (0,0), 0 decomposition levels, every sample below 2^24"
pub fn t_3x2_at_0_0_l0() { unsafe { go::<9>(0, 0, 3, 2, 1) } }
//@ proof unwind=90 stubs=mem tier=thorough bounds="10x2 samples at (1,0), 1 decomposition levels, every sample below 2^24"
pub fn t_10x2_at_1_0_l1() { unsafe { go::<30>(1, 0, 10, 2, 2) } }
//@ proof unwind=90 stubs=mem tier=thorough bounds="6x6 samples at (2,3), 2 decomposition levels, every sample below 2^24"
pub fn t_6x6_at_2_3_l2() { unsafe { go::<42>(2, 3, 6, 6, 3) } }
//@ proof unwind=90 stubs=mem tier=thorough bounds="7x5 samples at (5,3), 3 decomposition levels, every sample below 2^24"
pub fn t_7x5_at_5_3_l3() { unsafe { go::<42>(5, 3, 7, 5, 4) } }
//@ proof unwind=90 stubs=mem tier=thorough bounds="8x8 samples at (0,0), 3 decomposition levels, every sample below 2^24"
pub fn t_8x8_at_0_0_l3() { unsafe { go::<72>(0, 0, 8, 8, 4) } }
//@ proof unwind=90 stubs=mem tier=thorough bounds="9x3 samples at (1,1), 1 decomposition levels, every sample below 2^24"
pub fn t_9x3_at_1_1_l1() { unsafe { go::<36>(1, 1, 9, 3, 2) } }
//@ proof unwind=90 stubs=mem tier=thorough bounds="2x9 samples at (7,7), 2 decomposition levels, every sample below 2^24"
pub fn t_2x9_at_7_7_l2() { unsafe { go::<20>(7, 7, 2, 9, 3) } }
