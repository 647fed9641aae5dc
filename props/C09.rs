//! C09 sparse coefficient array
//@ crate jp2
//@ note The sparse array holding a tile component's coefficients for partial decoding (src/sparse_array.rs).
//@ assume memory requests succeed; buffers extend one line past the region (the code forms, and does not use, a pointer there); memcpy and memset behave as the C library specifies
//@ stubs mem openjp2::malloc::opj_calloc=>openjp2::sparse_array::verif::vcalloc,openjp2::malloc::opj_free=>openjp2::sparse_array::verif::vfree,openjp2::sparse_array::memcpy=>openjp2::sparse_array::verif::mcpy,openjp2::sparse_array::memset=>openjp2::sparse_array::verif::mset
//@ module sparse_array

use core::mem::size_of;
const NB: usize = 12;
const BS: usize = 20;
static mut SA: opj_sparse_array_int32_t = unsafe { core::mem::zeroed() };
static mut PTRS: [*mut i32; NB] = [core::ptr::null_mut(); NB];
static mut POOL: [[i32; BS]; NB] = [[0; BS]; NB];
/// sa live, pointers live, blocks handed out, frees
static mut LIVE: [bool; 2] = [false; 2];
static mut GIVEN: usize = 0;
static mut FREED: [bool; NB] = [false; NB];
pub unsafe fn vcalloc(n: usize, m: usize) -> *mut core::ffi::c_void {
    if m == size_of::<opj_sparse_array_int32_t>() && n == 1 && !LIVE[0] { LIVE[0] = true; return &raw mut SA as *mut _; }
    if n == size_of::<*mut i32>() { assert!(m <= NB && !LIVE[1]); LIVE[1] = true; return &raw mut PTRS as *mut _; }
    assert!(n == 1 && m == BLK && GIVEN < NB);
    GIVEN += 1;
    &raw mut POOL[GIVEN - 1] as *mut _
}
static mut BLK: usize = 0;
pub unsafe fn vfree(p: *mut core::ffi::c_void) {
    if p.is_null() { return; }
    if p == &raw mut SA as *mut _ { assert!(LIVE[0]); LIVE[0] = false; return; }
    if p == &raw mut PTRS as *mut _ { assert!(LIVE[1]); LIVE[1] = false; return; }
    let mut i = 0;
    while i < NB { if p == &raw mut POOL[i] as *mut _ { assert!(!FREED[i] && i < GIVEN); FREED[i] = true; return; } i += 1; }
    panic!("freed something else")
}
pub unsafe extern "C" fn mcpy(d: *mut core::ffi::c_void, s: *const core::ffi::c_void, n: usize) -> *mut core::ffi::c_void {
    assert!(n % 4 == 0);
    let mut i = 0;
    while i < n / 4 { *(d as *mut u32).add(i) = *(s as *const u32).add(i); i += 1; }
    d
}
pub unsafe extern "C" fn mset(d: *mut core::ffi::c_void, v: core::ffi::c_int, n: usize) -> *mut core::ffi::c_void {
    assert!(n % 4 == 0 && v == 0);
    let mut i = 0;
    while i < n / 4 { *(d as *mut u32).add(i) = 0; i += 1; }
    d
}
fn create(w: u32, h: u32, bw: u32, bh: u32) -> *mut opj_sparse_array_int32_t {
    unsafe {
        LIVE = [false; 2];
        GIVEN = 0;
        FREED = [false; NB];
        PTRS = [core::ptr::null_mut(); NB];
        POOL = [[0; BS]; NB];
        BLK = bw as usize * bh as usize * 4;
        opj_sparse_array_int32_create(w, h, bw, bh)
    }
}
fn destroy(sa: *mut opj_sparse_array_int32_t) {
    unsafe {
        opj_sparse_array_int32_free(sa);
        if cfg!(kani) {
            assert!(!LIVE[0] && !LIVE[1]);
            let mut i = 0;
            while i < NB { assert!(FREED[i] == (i < GIVEN)); i += 1; }
        }
    }
}
/// Array of w x h samples in bw x bh blocks; strides cs (column) and ls (line) of the caller's buffer.
#[derive(Clone, Copy)]
struct G { w: usize, h: usize, bw: u32, bh: u32, cs: usize, ls: usize }
/// The caller's buffer with arbitrary samples at the h x w places of the region, 77 elsewhere.
fn fill<const B: usize>(b: &mut [i32; B], g: G) {
    *b = [77; B];
    let mut y = 0;
    while y < g.h { let mut x = 0; while x < g.w { b[y * g.ls + x * g.cs] = kani::any(); x += 1; } y += 1; }
}
/// Writing a region of an array (untouched, or holding arbitrary samples) replaces exactly its samples.
unsafe fn write<const B: usize>(g: G, present: bool, x0: usize, y0: usize, x1: usize, y1: usize) {
    let sa = create(g.w as u32, g.h as u32, g.bw, g.bh);
    let (mut old, mut src, mut got) = ([0i32; B], [77i32; B], [77i32; B]);
    let whole = G { cs: 1, ls: g.w, ..g };
    if present {
        fill(&mut old, whole);
        assert!(opj_sparse_array_int32_write(sa, 0, 0, g.w as u32, g.h as u32, old.as_ptr(), 1, g.w as u32, 0) == 1);
    }
    fill(&mut src, g);
    assert!(opj_sparse_array_int32_write(sa, x0 as u32, y0 as u32, x1 as u32, y1 as u32, src.as_ptr(), g.cs as u32, g.ls as u32, 0) == 1);
    assert!(opj_sparse_array_int32_read(sa, 0, 0, g.w as u32, g.h as u32, got.as_mut_ptr(), 1, g.w as u32, 0) == 1);
    let mut y = 0;
    while y < g.h {
        let mut x = 0;
        while x < g.w {
            let inside = x0 <= x && x < x1 && y0 <= y && y < y1;
            assert!(got[y * g.w + x] == if inside { src[(y - y0) * g.ls + (x - x0) * g.cs] } else { old[y * g.w + x] });
            x += 1;
        }
        y += 1;
    }
    kani::cover!(src[0] == -5, "arbitrary samples");
    destroy(sa);
}
/// Reading a region of an array of which the columns from `from` on were written gives those samples,
/// zero elsewhere, and leaves the rest of the buffer alone.
unsafe fn read<const B: usize>(g: G, sa: *mut opj_sparse_array_int32_t, from: usize, old: &[i32; B], x0: usize, y0: usize, x1: usize, y1: usize) {
    let mut got = [77i32; B];
    assert!(opj_sparse_array_int32_read(sa, x0 as u32, y0 as u32, x1 as u32, y1 as u32, got.as_mut_ptr(), g.cs as u32, g.ls as u32, 0) == 1);
    let mut y = 0;
    while y <= g.h {
        let mut x = 0;
        while x < g.ls {
            let (u, v) = (x0 + x / g.cs, y0 + y);
            let inside = x % g.cs == 0 && u < x1 && v < y1;
            assert!(got[y * g.ls + x] == if !inside { 77 } else if u >= from { old[v * g.w + u - from] } else { 0 });
            x += 1;
        }
        y += 1;
    }
}
fn all(g: G, f: &mut dyn FnMut(usize, usize, usize, usize)) {
    let mut y0 = 0;
    while y0 < g.h { let mut y1 = y0 + 1; while y1 <= g.h {
        let mut x0 = 0;
        while x0 < g.w { let mut x1 = x0 + 1; while x1 <= g.w { f(x0, y0, x1, y1); x1 += 1; } x0 += 1; }
        y1 += 1; } y0 += 1; }
}
fn writes<const B: usize>(g: G, present: bool) { all(g, &mut |x0, y0, x1, y1| unsafe { write::<B>(g, present, x0, y0, x1, y1) }); }
fn reads<const B: usize>(g: G, from: usize) {
    unsafe {
        let sa = create(g.w as u32, g.h as u32, g.bw, g.bh);
        let mut old = [0i32; B];
        fill(&mut old, G { cs: 1, ls: g.w, ..g });
        if from < g.w { assert!(opj_sparse_array_int32_write(sa, from as u32, 0, g.w as u32, g.h as u32, old.as_ptr(), 1, g.w as u32, 0) == 1); }
        all(g, &mut |x0, y0, x1, y1| unsafe { read(g, sa, from, &old, x0, y0, x1, y1) });
        kani::cover!(old[0] == 99, "arbitrary samples");
        destroy(sa);
    }
}
const A: G = G { w: 3, h: 3, bw: 2, bh: 2, cs: 1, ls: 4 };
//@ proof unwind=16 stubs=mem fs=160 bounds="every region of an untouched 3x3 array in 2x2 blocks, all sample values, column stride 1"
pub fn write_fresh() { writes::<16>(A, false); }
//@ proof unwind=16 stubs=mem fs=160 bounds="every region of a 3x2 array in 2x1 blocks holding any samples, column stride 2"
pub fn write_over() { writes::<28>(G { h: 2, bh: 1, cs: 2, ls: 7, ..A }, true); }
//@ proof unwind=16 stubs=mem fs=160 bounds="every region of a 4x3 array in 2x2 blocks, only columns 2.. written, column stride 1"
pub fn read_partial() { reads::<20>(G { w: 4, ls: 5, ..A }, 2); }
//@ proof unwind=16 stubs=mem fs=160 bounds="every region of a 4x3 array in 2x2 blocks, only column 3 written, column stride 2"
pub fn read_strided() { reads::<36>(G { w: 4, cs: 2, ls: 8, ..A }, 3); }
const L: G = G { w: 9, h: 1, bw: 8, bh: 2, cs: 1, ls: 10 };
//@ proof unwind=76 stubs=mem fs=160 bounds="every region of a line of 9 samples in blocks of 8, column stride 1 and 2"
pub fn read_line() { reads::<24>(L, 0); reads::<40>(G { cs: 2, ls: 18, ..L }, 0); }
//@ proof unwind=76 stubs=mem fs=160 bounds="every region of a line of 9 samples in blocks of 8, column stride 8"
pub fn read_line8() { reads::<148>(G { cs: 8, ls: 72, ..L }, 0); }
//@ proof unwind=76 stubs=mem fs=160 bounds="every region of an untouched line of 9 samples in blocks of 8, column stride 8"
pub fn write_line() { writes::<148>(G { cs: 8, ls: 72, ..L }, false); }
//@ proof unwind=16 stubs=mem fs=160 bounds="every region of a 5x1 array in 4x1 blocks holding any samples, column stride 1"
pub fn write_wide() { writes::<20>(G { w: 5, h: 1, bw: 4, bh: 1, cs: 1, ls: 6 }, true); }
//@ proof unwind=16 stubs=mem fs=160 bounds="every region of a 6x2 array in 4x2 and 5x1 blocks, column stride 1"
pub fn read_wide() { let g = G { w: 6, h: 2, bw: 4, bh: 2, cs: 1, ls: 7 }; reads::<24>(g, 1); reads::<24>(G { bw: 5, bh: 1, ..g }, 4); }
//@ proof unwind=16 stubs=mem bounds="every array and block size below 2^32; every region"
pub fn region_valid() {
    unsafe {
        let mut s = opj_sparse_array_int32_t { width: kani::any(), height: kani::any(), block_width: 4, block_height: 4, block_count_hor: 0, block_count_ver: 0, data_blocks: core::ptr::null_mut() };
        kani::assume(s.width > 0 && s.height > 0);
        let (x0, y0, x1, y1): (u32, u32, u32, u32) = (kani::any(), kani::any(), kani::any(), kani::any());
        let want = x0 < x1 && x1 <= s.width && y0 < y1 && y1 <= s.height;
        assert!((opj_sparse_array_is_region_valid(&s, x0, y0, x1, y1) != 0) == want);
        let mut b = [1i32; 1];
        if !want {
            // out-of-bounds requests touch nothing and succeed only if forgiving
            let f: bool = kani::any();
            assert!((opj_sparse_array_int32_read(&s, x0, y0, x1, y1, b.as_mut_ptr(), 1, 1, f as i32) != 0) == f);
            assert!((opj_sparse_array_int32_write(&mut s, x0, y0, x1, y1, b.as_ptr(), 1, 1, f as i32) != 0) == f);
            assert!(b[0] == 1);
        }
        kani::cover!(want && x1 == u32::MAX, "largest array");
        kani::cover!(!want && x0 > x1, "empty region");
    }
}
unsafe fn sizes(w: u32, h: u32, bw: u32, bh: u32) {
    let n = if bw == 0 || bh == 0 { 0 } else { ((w as u64 + bw as u64 - 1) / bw as u64) * ((h as u64 + bh as u64 - 1) / bh as u64) };
    kani::assume(n <= NB as u64 || n > u32::MAX as u64);
    let sa = create(w, h, bw, bh);
    assert!(sa.is_null() == (n == 0 || n > u32::MAX as u64 || bw as u64 * bh as u64 > u32::MAX as u64 / 4));
    if !sa.is_null() {
        assert!((*sa).width == w && (*sa).height == h && (*sa).block_count_hor as u64 * (*sa).block_count_ver as u64 == n);
        let mut i = 0;
        while i < n as usize { assert!((*(*sa).data_blocks.add(i)).is_null()); i += 1; }
        kani::cover!(n == 12, "12 blocks");
    } else { assert!(!cfg!(kani) || (!LIVE[0] && !LIVE[1])); }
    destroy(sa);
}
//@ proof unwind=16 stubs=mem bounds="every width of one to three rows with blocks of 1, 3 or 64 samples a side that needs at most 12 blocks; every width and height beyond 2^30 with blocks of 1; block sizes 0 and 2^15"
pub fn create_sizes() {
    unsafe {
        sizes(kani::any(), 3, 64, 2); sizes(kani::any(), 1, 3, 1); sizes(5, 7, 0, 4); sizes(5, 7, 4, 0); sizes(kani::any(), 3, 1, 3); sizes(40000, 1, 1 << 15, 1 << 15);
        sizes(kani::any::<u32>() | 1 << 31, kani::any::<u32>() | 1 << 30, 1, 1);
    }
}
