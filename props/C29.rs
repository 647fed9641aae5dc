//! C29 image ownership
//@ crate jp2
//@ note Creation, copying, header copying and release of images (src/image.rs).
//@ assume memory requests succeed and go to a stand-in allocator that checks every release; the image struct itself is a Box
//@ stubs mem openjp2::malloc::opj_calloc=>openjp2::image::verif::vcalloc,openjp2::malloc::opj_malloc=>openjp2::image::verif::vmalloc,openjp2::malloc::opj_free=>openjp2::image::verif::vfree,openjp2::openjpeg::opj_image_data_alloc=>openjp2::image::verif::valloc,openjp2::openjpeg::opj_image_data_free=>openjp2::image::verif::vdfree
//@ module image

use core::mem::{size_of, ManuallyDrop, MaybeUninit};
const NB: usize = 8;
const NI: usize = 4;
/// Stand-in allocator: component arrays, sample buffers and profiles, each handed out at most once.
static mut ARR: [[opj_image_comp; 2]; 4] = unsafe { core::mem::zeroed() };
static mut BUF: [[i32; 2]; NB] = [[0; 2]; NB];
static mut ICC: [[u8; 4]; NI] = [[0; 4]; NI];
/// 0 unused, 1 live, 2 freed
static mut AST: [u8; 4] = [0; 4];
static mut BST: [u8; NB] = [0; NB];
static mut IST: [u8; NI] = [0; NI];
unsafe fn arr(n: usize, z: bool) -> *mut core::ffi::c_void {
    assert!(n <= 2);
    let mut k = 0;
    while AST[k] != 0 { k += 1; }
    AST[k] = 1;
    // memory that is not cleared holds pointers nobody owns
    let g = opj_image_comp { data: if z { core::ptr::null_mut() } else { 8 as *mut i32 }, alpha: !z as u16, ..Default::default() };
    let mut i = 0;
    while i < 2 { ARR[k][i] = g; i += 1; }
    &raw mut ARR[k] as *mut _
}
pub unsafe fn vcalloc(n: usize, m: usize) -> *mut core::ffi::c_void {
    assert!(m == size_of::<opj_image_comp>());
    arr(n, true)
}
pub unsafe fn vmalloc(n: usize) -> *mut core::ffi::c_void {
    if n >= size_of::<opj_image_comp>() || n == 0 { assert!(n % size_of::<opj_image_comp>() == 0); return arr(n / size_of::<opj_image_comp>(), false); }
    assert!(n <= 4);
    let mut k = 0;
    while IST[k] != 0 { k += 1; }
    IST[k] = 1;
    &raw mut ICC[k] as *mut _
}
pub unsafe fn valloc(n: usize) -> *mut core::ffi::c_void {
    assert!(n <= 8);
    let mut k = 0;
    while BST[k] != 0 { k += 1; }
    BST[k] = 1;
    BUF[k] = [0x55; 2];
    &raw mut BUF[k] as *mut _
}
pub unsafe fn vfree(p: *mut core::ffi::c_void) {
    let mut i = 0;
    while i < 4 { if p == &raw mut ARR[i] as *mut _ { assert!(AST[i] == 1); AST[i] = 2; return; } i += 1; }
    i = 0;
    while i < NI { if p == &raw mut ICC[i] as *mut _ { assert!(IST[i] == 1); IST[i] = 2; return; } i += 1; }
    assert!(p.is_null());
}
pub unsafe fn vdfree(p: *mut core::ffi::c_void) {
    let mut i = 0;
    while i < NB { if p == &raw mut BUF[i] as *mut _ { assert!(BST[i] == 1); BST[i] = 2; return; } i += 1; }
    assert!(p.is_null());
}
unsafe fn reset() { AST = [0; 4]; BST = [0; NB]; IST = [0; NI]; }
unsafe fn count(s: &[u8]) -> usize { let mut n = 0; let mut i = 0; while i < s.len() { if s[i] == 1 { n += 1; } i += 1; } n }
/// Exactly so many arrays, sample buffers and profiles are held.
unsafe fn held(a: usize, b: usize, i: usize) { assert!(!cfg!(kani) || (count(&*&raw const AST) == a && count(&*&raw const BST) == b && count(&*&raw const IST) == i)); }
unsafe fn live(p: *mut i32) -> bool {
    if !cfg!(kani) { return !p.is_null(); }
    let mut i = 0;
    while i < NB { if p as *mut [i32; 2] == &raw mut BUF[i] { return BST[i] == 1; } i += 1; }
    false
}
unsafe fn samples(c: &opj_image_comp) -> [i32; 2] { assert!(live(c.data)); [*c.data, *c.data.add(1)] }
fn space() -> OPJ_COLOR_SPACE { if kani::any() { OPJ_CLRSPC_SYCC } else { OPJ_CLRSPC_GRAY } }
/// n components of two samples, those of the mask with samples; a profile of l bytes (0: none)
unsafe fn image(n: usize, data: [bool; 2], l: usize) -> opj_image {
    let mut im = opj_image::default();
    im.x0 = kani::any(); im.y0 = kani::any(); im.x1 = kani::any(); im.y1 = kani::any(); im.color_space = space();
    if n > 0 {
        assert!(im.alloc_comps(n as u32, true));
        let c = im.comps_mut().unwrap();
        let mut i = 0;
        while i < n {
            c[i] = opj_image_comp {
                w: 2, h: 1, dx: kani::any(), dy: kani::any(), x0: kani::any(), y0: kani::any(), prec: kani::any(), bpp: kani::any(), sgnd: kani::any(),
                resno_decoded: kani::any(), factor: kani::any(), alpha: kani::any(), data: core::ptr::null_mut(),
            };
            if data[i] { assert!(c[i].alloc_data()); *c[i].data = kani::any(); *c[i].data.add(1) = kani::any(); }
            i += 1;
        }
    }
    if l > 0 { let b: [u8; 4] = [kani::any(), kani::any(), kani::any(), kani::any()]; assert!(im.copy_icc_profile(&b[..l])); }
    im
}
fn same_comp(a: &opj_image_comp, b: &opj_image_comp) -> bool {
    a.w == b.w && a.h == b.h && a.dx == b.dx && a.dy == b.dy && a.x0 == b.x0 && a.y0 == b.y0 && a.prec == b.prec && a.bpp == b.bpp && a.sgnd == b.sgnd
        && a.factor == b.factor && a.resno_decoded == b.resno_decoded && a.alpha == b.alpha
}
/// What an image looks like, apart from where it is stored.
struct Look { b: [u32; 4], cs: OPJ_COLOR_SPACE, n: usize, c: [opj_image_comp; 2], s: [Option<[i32; 2]>; 2], l: usize, p: [u8; 4] }
unsafe fn look(im: &opj_image) -> Look {
    let mut k = Look { b: [im.x0, im.y0, im.x1, im.y1], cs: im.color_space, n: im.numcomps as usize, c: [opj_image_comp::default(); 2], s: [None; 2], l: 0, p: [0; 4] };
    assert!(k.n <= 2);
    let mut i = 0;
    while i < k.n { let c = *im.comps.add(i); k.c[i] = c; if !c.data.is_null() { k.s[i] = Some(samples(&c)); } i += 1; }
    if !im.icc_profile_buf.is_null() { k.l = im.icc_profile_len as usize; i = 0; while i < k.l { k.p[i] = *im.icc_profile_buf.add(i); i += 1; } }
    else { assert!(im.icc_profile_len == 0); }
    k
}
fn same(a: &Look, b: &Look, s: bool) -> bool {
    let mut ok = a.b == b.b && a.cs == b.cs && a.n == b.n && a.l == b.l && a.p == b.p;
    let mut i = 0;
    while i < 2 { ok = ok && (i >= a.n || (same_comp(&a.c[i], &b.c[i]) && (!s || a.s[i] == b.s[i]))); i += 1; }
    ok
}
unsafe fn clones(n: usize, data: [bool; 2], l: usize) {
    reset();
    let im = image(n, data, l);
    let was = look(&im);
    let d = (n > 0 && data[0]) as usize + (n > 1 && data[1]) as usize;
    let mut co = im.clone();
    assert!(same(&look(&im), &was, true));
    let now = look(&co);
    assert!(same(&now, &was, true));
    let mut i = 0;
    while i < n { assert!(data[i] == (now.s[i].is_some()) && (!data[i] || now.c[i].data != was.c[i].data)); i += 1; }
    // a change to one is not seen in the other, and each outlives the other
    if d > 0 && data[0] { *co.comps().unwrap()[0].data = kani::any(); assert!(same(&look(&im), &was, true)); }
    if l > 0 { *co.icc_profile_buf = kani::any(); assert!(same(&look(&im), &was, true)); }
    let late = look(&co);
    held(2 * (n > 0) as usize, 2 * d, 2 * (l > 0) as usize);
    drop(im);
    assert!(same(&look(&co), &late, true));
    held((n > 0) as usize, d, (l > 0) as usize);
    co.clear_icc_profile();
    assert!(look(&co).l == 0);
    drop(co);
    held(0, 0, 0);
    kani::cover!(was.b[0] == 5 && (d == 0 || was.s[0] != late.s[0]), "a copy that was changed");
}
//@ proof unwind=20 stubs=mem bounds="images of 0 to 2 components of two arbitrary samples each (or none) and profiles of 0, 1 and 4 bytes, every field"
pub fn copied() { unsafe { clones(0, [false; 2], 0); clones(1, [true, false], 0); clones(2, [true; 2], 4); clones(2, [false, true], 1); } }

unsafe fn header(n: usize, l: usize, m: usize, k: usize) {
    reset();
    let src = image(n, [true; 2], l);
    let mut dst = image(m, [true; 2], k);
    let was = look(&src);
    opj_copy_image_header(&src, &mut dst);
    assert!(same(&look(&src), &was, true));
    let now = look(&dst);
    assert!(same(&now, &was, false));
    let mut i = 0;
    while i < n { assert!(now.c[i].data.is_null()); i += 1; }
    kani::cover!(was.b[3] == 7, "a header is copied");
    drop(dst);
    assert!(same(&look(&src), &was, true));
    drop(src);
    held(0, 0, 0);
}
//@ proof unwind=20 stubs=mem bounds="from images of 1 and 2 components and profiles of 0, 1 and 4 bytes onto images with 0 to 2 components and profiles of 0 and 3 bytes, every field"
pub fn header_copied() { unsafe { header(1, 0, 0, 0); header(2, 4, 1, 3); header(1, 0, 2, 3); header(2, 1, 2, 0); } }

//@ proof unwind=20 stubs=mem bounds="images of 0 and 2 components, with and without a profile, every field"
pub fn components_taken() {
    unsafe {
        for l in [0, 2] {
            for n in [0, 2] {
                reset();
                let mut im = image(n, [true; 2], l);
                let was = look(&im);
                let t = im.take_comps();
                let now = look(&t);
                assert!(now.n == n && now.b == was.b && now.cs == was.cs && im.comps.is_null() && im.numcomps == 0);
                let mut i = 0;
                while i < n { assert!(same_comp(&now.c[i], &was.c[i]) && now.c[i].data == was.c[i].data && now.s[i] == was.s[i]); i += 1; }
                kani::cover!(was.b[0] == 9, "components are taken");
                drop(im);
                drop(t);
                held(0, 0, 0);
            }
        }
    }
}

unsafe fn makes(n: usize, wh: [(u32, u32); 2], tile: bool) {
    reset();
    let mut ps = [opj_image_cmptparm_t::default(); 2];
    let mut i = 0;
    while i < 2 {
        ps[i] = opj_image_cmptparm_t { w: wh[i].0, h: wh[i].1, dx: kani::any(), dy: kani::any(), x0: kani::any(), y0: kani::any(), prec: kani::any(), bpp: kani::any(), sgnd: kani::any() };
        i += 1;
    }
    let cs = space();
    let im = if tile { opj_image_tile_create(n as u32, ps.as_mut_ptr(), cs) } else { opj_image_create(n as u32, ps.as_mut_ptr(), cs) };
    let fits = tile || (wh[0].0 <= 2 && wh[1].0 <= 2);
    if !fits { assert!(im.is_null()); held(0, 0, 0); return; }
    assert!(!im.is_null() && (*im).numcomps as usize == n && (*im).color_space == cs && (*im).icc_profile_buf.is_null());
    i = 0;
    while i < n {
        let c = *(*im).comps.add(i);
        let p = ps[i];
        assert!(c.w == p.w && c.h == p.h && c.dx == p.dx && c.dy == p.dy && c.x0 == p.x0 && c.y0 == p.y0 && c.prec == p.prec && c.sgnd == p.sgnd && c.alpha == 0 && c.factor == 0);
        if tile { assert!(c.data.is_null()); } else {
            assert!(live(c.data) && *c.data == 0 && (p.w * p.h < 2 || *c.data.add(1) == 0));
            assert!(i == 0 || (*(*im).comps).data != c.data);
        }
        i += 1;
    }
    kani::cover!(n < 2 || ps[1].prec == 12, "an image is created");
    opj_image_destroy(im);
    held(0, 0, 0);
}
//@ proof unwind=20 stubs=mem bounds="images of 1 and 2 components of 2x1, 1x2 and 1x1 samples or of a size that overflows, every other parameter"
pub fn created() {
    unsafe {
        makes(1, [(2, 1), (1, 1)], false); makes(2, [(1, 2), (1, 1)], false); makes(2, [(2, 1), (u32::MAX, u32::MAX)], false);
        makes(2, [(2, 1), (u32::MAX, u32::MAX)], true);
        opj_image_destroy(core::ptr::null_mut());
    }
}

/// c is x / d rounded up
fn ceil(x: u64, d: u64) -> u64 { (x + d - 1) / d }
unsafe fn update(dx: u32, dy: u32, tw: u32, th: u32, max: u32) {
    reset();
    let mut im = image(1, [false; 2], 0);
    let mut cp: ManuallyDrop<opj_cp> = ManuallyDrop::new(MaybeUninit::uninit().assume_init());
    let v: [u32; 4] = [kani::any(), kani::any(), kani::any(), kani::any()];
    kani::assume(v[2] > 0 && v[3] > 0 && v[0] as u64 + (tw as u64 - 1) * (v[2] as u64) < im.x1 as u64 && v[1] as u64 + (th as u64 - 1) * (v[3] as u64) < im.y1 as u64);
    kani::assume(im.x0 < im.x1 && im.y0 < im.y1 && v[0] as u64 + v[2] as u64 > im.x0 as u64 && v[1] as u64 + v[3] as u64 > im.y0 as u64 && v[0] <= im.x0 && v[1] <= im.y0);
    kani::assume(im.x1 <= max && im.y1 <= max);
    cp.tx0 = v[0]; cp.ty0 = v[1]; cp.tdx = v[2]; cp.tdy = v[3]; cp.tw = tw; cp.th = th;
    let f: u32 = kani::any();
    kani::assume(f <= 32 - 1);
    { let c = &mut im.comps_mut().unwrap()[0]; c.dx = dx; c.dy = dy; c.factor = f; }
    let was = look(&im);
    opj_image_comp_header_update(&mut im, &*cp);
    let now = look(&im);
    let c = now.c[0];
    let x1 = core::cmp::min(v[0] as u64 + tw as u64 * v[2] as u64, im.x1 as u64);
    let y1 = core::cmp::min(v[1] as u64 + th as u64 * v[3] as u64, im.y1 as u64);
    let (cx0, cy0, cx1, cy1) = (ceil(im.x0 as u64, dx as u64), ceil(im.y0 as u64, dy as u64), ceil(x1, dx as u64), ceil(y1, dy as u64));
    assert!(c.x0 as u64 == cx0 && c.y0 as u64 == cy0);
    assert!(c.w as u64 == (cx1 - cx0 + (1 << f) - 1) >> f && c.h as u64 == (cy1 - cy0 + (1 << f) - 1) >> f);
    assert!(now.b == was.b && c.dx == dx && c.dy == dy && c.factor == f && c.prec == was.c[0].prec && c.sgnd == was.c[0].sgnd && c.alpha == was.c[0].alpha);
    kani::cover!(x1 > max as u64 / 8 * 7 && f == 5, "a wide image");
    drop(im);
}
//@ proof unwind=20 stubs=mem bounds="every image area, tile grid origin and tile size with 1 or 3 tile columns and 1 or 2 tile rows, subsampling 1, 2 and 4 (3 and 255 for coordinates below 2^10; thorough: 2^16), every reduction factor"
pub fn geometry() { unsafe { update(1, 1, 3, 1, u32::MAX); update(2, 4, 1, 2, u32::MAX); update(3, 255, 1, 2, if THOROUGH { 0xffff } else { 0x3ff }); } }
