//! C17 palettes and channel definitions
//@ crate jp2
//@ note Palette, component mapping and channel definitions applied to a decoded image (src/jp2.rs).
//@ assume memory requests succeed and go to a stand-in allocator that checks every release; no message callback is set
//@ stubs mem openjp2::malloc::opj_calloc=>openjp2::jp2::verif::vcalloc,openjp2::malloc::opj_free=>openjp2::jp2::verif::vfree,openjp2::openjpeg::opj_image_data_alloc=>openjp2::jp2::verif::valloc,openjp2::openjpeg::opj_image_data_free=>openjp2::jp2::verif::vdfree
//@ module jp2

use core::mem::size_of;
const NB: usize = 8;
/// Stand-in allocator: two component arrays and eight sample buffers, each handed out at most once.
static mut ARR: [[opj_image_comp; 3]; 2] = unsafe { core::mem::zeroed() };
static mut BUF: [[i32; 2]; NB] = [[0; 2]; NB];
/// 0 unused, 1 live, 2 freed
static mut AST: [u8; 2] = [0; 2];
static mut BST: [u8; NB] = [0; NB];
pub unsafe fn vcalloc(n: usize, m: usize) -> *mut core::ffi::c_void {
    assert!(m == size_of::<opj_image_comp>() && 1 <= n && n <= 3);
    let k = if AST[0] == 0 { 0 } else { 1 };
    assert!(AST[k] == 0);
    AST[k] = 1;
    let mut i = 0;
    while i < 3 { ARR[k][i] = opj_image_comp::default(); i += 1; }
    &raw mut ARR[k] as *mut _
}
pub unsafe fn valloc(n: usize) -> *mut core::ffi::c_void {
    assert!(n == 8);
    let mut i = 0;
    while i < NB { if BST[i] == 0 { BST[i] = 1; return &raw mut BUF[i] as *mut _; } i += 1; }
    panic!("too many buffers")
}
pub unsafe fn vfree(p: *mut core::ffi::c_void) {
    let mut i = 0;
    while i < 2 { if p == &raw mut ARR[i] as *mut _ { assert!(AST[i] == 1); AST[i] = 2; return; } i += 1; }
    assert!(p.is_null());
}
pub unsafe fn vdfree(p: *mut core::ffi::c_void) {
    let mut i = 0;
    while i < NB { if p == &raw mut BUF[i] as *mut _ { assert!(BST[i] == 1); BST[i] = 2; return; } i += 1; }
    assert!(p.is_null());
}
unsafe fn live(p: *mut i32) -> bool {
    if !cfg!(kani) { return !p.is_null(); }
    let mut i = 0;
    while i < NB { if p as *mut [i32; 2] == &raw mut BUF[i] { return BST[i] == 1; } i += 1; }
    false
}
unsafe fn count(s: &[u8]) -> usize { let mut n = 0; let mut i = 0; while i < s.len() { if s[i] == 1 { n += 1; } i += 1; } n }
/// An image of n components of two samples with arbitrary fields and samples.
unsafe fn image(n: usize) -> opj_image {
    AST = [0; 2]; BST = [0; NB];
    let mut im = opj_image::default();
    assert!(im.alloc_comps(n as u32, true));
    let c = im.comps_mut().unwrap();
    let mut i = 0;
    while i < n {
        c[i].w = 2; c[i].h = 1; c[i].dx = kani::any(); c[i].dy = kani::any(); c[i].x0 = kani::any(); c[i].y0 = kani::any();
        c[i].prec = kani::any(); c[i].sgnd = kani::any(); c[i].factor = kani::any(); c[i].alpha = kani::any(); c[i].resno_decoded = kani::any(); c[i].bpp = kani::any();
        assert!(c[i].alloc_data());
        c[i].data_mut().unwrap()[0] = kani::any();
        c[i].data_mut().unwrap()[1] = kani::any();
        i += 1;
    }
    im
}
unsafe fn sample(c: &opj_image_comp, i: usize) -> i32 { assert!(live(c.data)); *c.data.add(i) }
fn same_head(a: &opj_image_comp, b: &opj_image_comp) -> bool {
    a.w == b.w && a.h == b.h && a.dx == b.dx && a.dy == b.dy && a.x0 == b.x0 && a.y0 == b.y0 && a.factor == b.factor && a.resno_decoded == b.resno_decoded && a.bpp == b.bpp
}
/// Dropping the image releases everything exactly once.
unsafe fn dropped(im: opj_image) {
    drop(im);
    assert!(!cfg!(kani) || (count(&*&raw const AST) == 0 && count(&*&raw const BST) == 0));
}
fn mgr() -> opj_event_mgr { opj_event_mgr::default() }
fn color() -> opj_jp2_color { opj_jp2_color { icc_profile: None, icc_profile_len: 0, jp2_cdef: None, jp2_pclr: None, jp2_has_colr: 0 } }
fn palette(ch: usize, ne: usize) -> opj_jp2_pclr {
    let (mut entries, mut channel) = (Vec::new(), Vec::new());
    for _ in 0..ch * ne { entries.push(kani::any()); }
    for _ in 0..ch { channel.push(Jp2ChannelSign { sign: kani::any::<bool>() as u8, size: kani::any() }); }
    opj_jp2_pclr { entries, channel, cmap: Vec::new(), nr_entries: ne as u16, nr_channels: ch as u8 }
}
/// Mapping an image of n components through a palette of ne entries, channel i taken from component
/// from[i], directly where direct[i].
unsafe fn apply(n: usize, ne: usize, from: &[u16], direct: &[bool]) {
    let mut im = image(n);
    let ch = from.len();
    let mut p = palette(ch, ne);
    for i in 0..ch { p.cmap.push(opj_jp2_cmap_comp { cmp: from[i], mtyp: !direct[i] as u8, pcol: if direct[i] { 0 } else { i as u8 } }); }
    let mut head = [opj_image_comp::default(); 3];
    let mut old = [[0i32; 2]; 3];
    for i in 0..n { head[i] = im.comps().unwrap()[i]; for k in 0..2 { old[i][k] = sample(&head[i], k); } }
    assert!(opj_jp2_apply_pclr(&mut im, &p, &mut mgr()) == 1);
    let c = im.comps().unwrap();
    assert!(c.len() == ch);
    for i in 0..ch {
        assert!(same_head(&c[i], &head[from[i] as usize]) && c[i].prec == p.channel[i].size as u32 && c[i].sgnd == p.channel[i].sign as u32);
        for k in 0..2 {
            let v = old[from[i] as usize][k];
            let e = if v < 0 { 0 } else if v as usize >= ne { ne - 1 } else { v as usize };
            assert!(sample(&c[i], k) == if direct[i] { v } else { p.entries[e * ch + i] as i32 });
        }
        for j in 0..i { assert!(c[i].data != c[j].data); }
    }
    kani::cover!(old[0][0] == -3 && old[0][1] == 200, "indices outside the palette");
    dropped(im);
}
//@ proof unwind=12 stubs=mem bounds="one component to 3 channels, 2 components to 1 and 2 channels, palettes of 1 and 3 entries, palette and direct mapping, every sample, entry and component field"
pub fn palette_applied() {
    unsafe {
        apply(1, 3, &[0, 0, 0], &[false; 3]);
        apply(2, 1, &[1], &[false]);
        apply(2, 3, &[1, 0], &[true, false]);
        apply(2, 3, &[0, 1], &[false, true]);
    }
}
fn info(k: usize) -> Vec<opj_jp2_cdef_info> { let mut v = Vec::new(); for _ in 0..k { v.push(opj_jp2_cdef_info { cn: kani::any(), typ: kani::any(), asoc: kani::any() }); } v }
fn defined(d: &[opj_jp2_cdef_info], nc: usize) -> bool {
    let mut seen = [false; 3];
    for x in d {
        if x.cn as usize >= nc || (x.asoc != 65535 && x.asoc as usize > nc) { return false; }
        seen[x.cn as usize] = true;
    }
    for i in 0..nc { if !seen[i] { return false; } }
    true
}
//@ proof unwind=12 stubs=mem bounds="1 to 3 components with 1 to 3 arbitrary channel definitions"
pub fn definitions_checked() {
    unsafe {
        for (n, k) in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 3)] {
            let mut im = image(n);
            let mut c = color();
            let d = info(k);
            let want = defined(&d, n);
            c.jp2_cdef = Some(opj_jp2_cdef { info: d });
            assert!((opj_jp2_check_color(&mut im, &mut c, &mut mgr()) != 0) == want);
            kani::cover!(k < n || want, "accepted");
            kani::cover!(k >= n || !want, "incomplete");
            dropped(im);
        }
    }
}
//@ proof unwind=12 stubs=mem bounds="every valid assignment of 2 and 3 channels to colours, opacity and nothing"
pub fn definitions_applied() {
    unsafe {
        for n in if THOROUGH { 2usize..4 } else { 2..3 } {
            let mut im = image(n);
            let mut c = color();
            let d = info(n);
            kani::assume(defined(&d, n));
            let mut old = [opj_image_comp::default(); 3];
            for i in 0..n { old[i] = im.comps().unwrap()[i]; }
            let mut i = 0;
            while i < n { let mut j = 0; while j < i { kani::assume(d[i].typ != 0 || d[j].typ != 0 || d[i].asoc != d[j].asoc || d[i].asoc == 0 || d[i].asoc == 65535); j += 1; } i += 1; }
            c.jp2_cdef = Some(opj_jp2_cdef { info: d.clone() });
            opj_jp2_apply_cdef(&mut im, &mut c, &mut mgr());
            assert!(c.jp2_cdef.is_none());
            let z = im.comps().unwrap();
            for i in 0..n {
                let mut at = 9;
                for k in 0..n { if z[k].data == old[d[i].cn as usize].data { at = k; } }
                // nothing is lost, colours end up in order, and every channel carries its kind
                assert!(at < n);
                let coloured = d[i].typ == 0 && d[i].asoc != 0 && d[i].asoc != 65535;
                assert!(!coloured || at + 1 == d[i].asoc as usize);
                let o = &old[d[i].cn as usize];
                assert!(z[at].alpha == d[i].typ && same_head(&z[at], o) && z[at].prec == o.prec && z[at].sgnd == o.sgnd);
            }
            kani::cover!(d[0].cn == 1 && d[0].asoc == 1 && d[1].cn == 0 && d[1].asoc == 2 && d[0].typ == 0 && d[1].typ == 0, "swapped");
            dropped(im);
        }
    }
}
//@ proof unwind=12 stubs=mem bounds="2 arbitrary, also invalid, channel definitions for 3 components"
pub fn definitions_any() {
    unsafe {
        let mut im = image(3);
        let mut c = color();
        c.jp2_cdef = Some(opj_jp2_cdef { info: info(2) });
        let mut old = [core::ptr::null_mut(); 3];
        for i in 0..3 { old[i] = im.comps().unwrap()[i].data; }
        opj_jp2_apply_cdef(&mut im, &mut c, &mut mgr());
        let z = im.comps().unwrap();
        for i in 0..3 { assert!(z[0].data == old[i] || z[1].data == old[i] || z[2].data == old[i]); }
        kani::cover!(z[0].data != old[0], "moved");
        dropped(im);
    }
}
