//! C14 codestream header markers
//@ crate jp2
//@ note Marker-segment readers of the main and tile-part headers (src/j2k.rs) on arbitrary segment bytes and lengths.
//@ assume 1 to 3 components, existing parameters of 4 tiles; the header buffer extends 2 bytes past the segment (the decoder's is never smaller than 1000 bytes); memory requests succeed; no message callback is set; opj_read_bytes behaves as property C04 states and memcpy as the C library specifies
//@ stubs mem openjp2::malloc::opj_calloc=>openjp2::j2k::verif::vcalloc,openjp2::cio::opj_read_bytes=>openjp2::j2k::verif::rb,openjp2::j2k::memcpy=>openjp2::j2k::verif::mcpy
//@ module j2k

use core::mem::{size_of, MaybeUninit};
const NC: usize = 3;
/// References to everything a header reader touches; contents are arbitrary under the solver
/// except where set. Separate objects keep the solver's formulas small.
pub struct World<'a> { z: &'a mut opj_j2k, img: &'a mut opj_image_t, def: &'a mut opj_tcp_t, tcp: &'a mut [opj_tcp_t; 2], a: &'a mut [opj_tccp_t; NC], b: &'a mut [opj_tccp_t; NC] }
#[cfg(kani)]
macro_rules! blank { () => { core::mem::ManuallyDrop::new(unsafe { MaybeUninit::uninit().assume_init() }) } }
#[cfg(not(kani))]
macro_rules! blank { () => { core::mem::ManuallyDrop::new(unsafe { MaybeUninit::zeroed().assume_init() }) } }
macro_rules! world { ($w:ident) => {
    let (mut z, mut img, mut def, mut tcp, mut a, mut b) = (blank!(), blank!(), blank!(), blank!(), blank!(), blank!());
    let $w = &mut World { z: &mut z, img: &mut img, def: &mut def, tcp: &mut tcp, a: &mut a, b: &mut b };
} }
static mut COMPS: *mut opj_image_comp_t = core::ptr::null_mut();
static mut REC: *mut opj_mct_data_t = core::ptr::null_mut();
static mut MCC: *mut opj_simple_mcc_decorrelation_data_t = core::ptr::null_mut();
static mut TCPS: *mut opj_tcp_t = core::ptr::null_mut();
static mut TA: *mut opj_tccp_t = core::ptr::null_mut();
static mut TB: *mut opj_tccp_t = core::ptr::null_mut();
static mut ASKED: [usize; 4] = [0; 4];
pub unsafe fn vcalloc(n: usize, m: usize) -> *mut core::ffi::c_void {
    if m == size_of::<opj_image_comp_t>() { assert!(n <= NC); ASKED[0] = n; return COMPS as *mut _; }
    if m == size_of::<opj_tcp_t>() { assert!(n <= 4); ASKED[1] = n; return TCPS as *mut _; }
    // tile-component parameters of all tiles share one array
    if m == size_of::<opj_tccp_t>() { assert!(n <= NC); ASKED[2] = n; ASKED[3] += 1; return if ASKED[3] == 1 { TA } else { TB } as *mut _; }
    if m == size_of::<opj_mct_data_t>() { assert!(n == 10); return REC as *mut _; }
    if m == size_of::<opj_simple_mcc_decorrelation_data_t>() { assert!(n == 10); return MCC as *mut _; }
    panic!("unexpected request")
}
pub fn rb(p: *const u8, v: *mut u32, n: u32) {
    assert!(1 <= n && n <= 4);
    unsafe {
        let mut x = 0u32;
        let mut i = 0;
        while i < n as usize { x = x << 8 | *p.add(i) as u32; i += 1; }
        *v = x;
    }
}
pub unsafe extern "C" fn mcpy(d: *mut core::ffi::c_void, s: *const core::ffi::c_void, n: usize) -> *mut core::ffi::c_void {
    assert!(n % 4 == 0);
    let mut i = 0;
    while i < n / 4 { *(d as *mut u32).add(i) = *(s as *const u32).add(i); i += 1; }
    d
}
/// A decoder reading the main header, or (tile) the header of tile 1 of 2: the parameters to be
/// changed are in `a`, those to be left alone in `b`.
fn setup(w: &mut World, nc: usize, tile: bool) {
    unsafe {
        w.z.m_is_decoder = 1;
        w.z.m_private_image = w.img;
        w.img.numcomps = nc as u32;
        w.z.m_cp.tcps = w.tcp as *mut _ as *mut opj_tcp_t;
        w.z.m_cp.m_is_decoder = true;
        w.z.m_cp.m_specific_param.m_dec = opj_decoding_param { m_reduce: 0, m_layer: 0 };
        w.z.m_specific_param.m_decoder.m_default_tcp = w.def;
        let (a, b) = (w.a as *mut _ as *mut opj_tccp_t, w.b as *mut _ as *mut opj_tccp_t);
        if tile { w.tcp[1].tccps = a; w.def.tccps = b; } else { w.def.tccps = a; w.tcp[1].tccps = b; }
        w.z.m_current_tile_number = 1;
        w.z.m_specific_param.m_decoder.m_state = if tile { J2KState::TPH } else { J2KState::MH };
        let mut i = 0;
        while i < NC { mark(&mut w.a[i]); mark(&mut w.b[i]); i += 1; }
    }
}
fn mark(t: &mut opj_tccp_t) {
    t.csty = 77; t.numresolutions = 77; t.cblkw = 77; t.cblkh = 77; t.cblksty = 77; t.qmfbid = 77; t.prcw[0] = 77; t.prch[0] = 77;
    t.qntsty = 77; t.numgbits = 77; t.stepsizes[0] = opj_stepsize_t { expn: 77, mant: 77 }; t.roishift = 77;
}
fn marked(t: &opj_tccp_t) -> bool { cmarked(t) && qmarked(t) && t.roishift == 77 }
fn cmarked(t: &opj_tccp_t) -> bool { t.csty == 77 && t.numresolutions == 77 && t.cblkw == 77 && t.cblkh == 77 && t.cblksty == 77 && t.qmfbid == 77 && t.prcw[0] == 77 && t.prch[0] == 77 }
fn qmarked(t: &opj_tccp_t) -> bool { t.qntsty == 77 && t.numgbits == 77 && t.stepsizes[0].expn == 77 && t.stepsizes[0].mant == 77 }
fn be(b: &[u8], at: usize, n: usize) -> u32 { let mut v = 0u32; let mut i = 0; while i < n { v = v << 8 | b[at + i] as u32; i += 1; } v }

/// Coding-style part of COD and COC as ISO 15444-1 A.6.1 lays it out: the number of resolutions if acceptable.
fn spcod(b: &[u8], n: usize, csty: u32, red: u32) -> Option<u32> {
    if n < 5 { return None; }
    let nr = b[0] as u32 + 1;
    if nr > 33 || red >= nr { return None; }
    if b[1] > 8 || b[2] > 8 || b[1] + b[2] > 8 || b[3] & 0x80 != 0 || b[4] > 1 { return None; }
    if csty & 1 == 0 { return if n == 5 { Some(nr) } else { None }; }
    if n != 5 + nr as usize { return None; }
    let mut i = 1;
    while i < n - 5 { if b[5 + i] & 15 == 0 || b[5 + i] >> 4 == 0 { return None; } i += 1; }
    Some(nr)
}
fn spcod_stored(t: &opj_tccp_t, b: &[u8], nr: u32, csty: u32) {
    assert!(t.csty == csty && t.numresolutions == nr);
    assert!(t.cblkw == b[1] as u32 + 2 && t.cblkh == b[2] as u32 + 2 && t.cblksty == b[3] as u32 && t.qmfbid == b[4] as u32);
    let mut i = 0;
    while i < nr as usize {
        let e = if csty & 1 == 0 { 0xff } else { b[5 + i] };
        assert!(t.prcw[i] == (e & 15) as u32 && t.prch[i] == (e >> 4) as u32);
        i += 1;
    }
}
fn cod_case(w: &mut World, tile: bool, nres: u8) {
    setup(w, 2, tile);
    let mut b: [u8; 16] = vh::bytes();
    let n = vh::usize_in(0, 13);
    if nres < 33 { b[5] = nres; } else { kani::assume(b[5] >= 33); }
    let (red, lay) = (vh::u32_in(0, 3), vh::u32_in(0, 3));
    w.z.m_cp.m_specific_param.m_dec = opj_decoding_param { m_reduce: red, m_layer: lay };
    let r = opj_j2k_read_cod(w.z, b.as_mut_ptr(), n as u32, &mut opj_event_mgr::default());
    let csty = b[0] as u32;
    let layers = be(&b, 2, 2);
    let s = if n < 5 || csty > 7 || layers == 0 || b[4] > 1 { None } else { spcod(&b[5..], n - 5, csty, red) };
    assert!((r != 0) == s.is_some());
    if r != 0 {
        let t = if tile { &w.tcp[1] } else { &*w.def };
        assert!(t.cod && t.csty == csty && t.numlayers == layers && t.mct == b[4] as u32);
        assert!(t.prg == if b[1] <= 4 { b[1] as i32 } else { -1 });
        assert!(t.num_layers_to_decode == if lay == 0 { layers } else { lay });
        spcod_stored(&w.a[0], &b[5..], nres as u32 + 1, csty & 1);
        spcod_stored(&w.a[1], &b[5..], nres as u32 + 1, csty & 1);
    }
    assert!(marked(&w.a[2]) && marked(&w.b[0]) && marked(&w.b[1]) && qmarked(&w.a[0]) && qmarked(&w.a[1]));
    kani::cover!(r != 0 && csty & 1 == 1 && b[5] == 2, "precinct sizes");
    kani::cover!(r != 0 && b[1] > 4, "unknown progression");
    kani::cover!(r == 0 && n == 10, "rejected");
}
//@ proof unwind=18 stubs=mem fs=100 bounds="COD segment of 0..=13 bytes in the main header, up to 3 resolutions or more than allowed, 2 of 3 components, reduction 0..=3, layer limit 0..=3"
pub fn cod_main() { world!(w); cod_case(w, false, 0); cod_case(w, false, 1); cod_case(w, false, 2); cod_case(w, false, 33); }
//@ proof unwind=18 stubs=mem fs=100 bounds="COD segment of 0..=13 bytes in a tile-part header, up to 3 resolutions, 2 of 3 components, reduction 0..=3, layer limit 0..=3"
pub fn cod_tile() { world!(w); cod_case(w, true, 0); cod_case(w, true, 1); cod_case(w, true, 2); }
//@ proof unwind=36 stubs=mem fs=100 bounds="COD segment of 10 bytes with 33 resolutions and default precincts"
pub fn cod_all_resolutions() {
    world!(w);
    setup(w, 2, false);
    let mut b: [u8; 12] = vh::bytes();
    b[0] = 0;
    b[5] = 32;
    let r = opj_j2k_read_cod(w.z, b.as_mut_ptr(), 10, &mut opj_event_mgr::default());
    let s = if be(&b, 2, 2) == 0 || b[4] > 1 { None } else { spcod(&b[5..], 5, 0, 0) };
    assert!((r != 0) == s.is_some());
    if r != 0 { spcod_stored(&w.a[0], &b[5..], 33, 0); spcod_stored(&w.a[1], &b[5..], 33, 0); }
    kani::cover!(r != 0, "33 resolutions");
}
fn coc_case(w: &mut World, tile: bool, comp: u8, nres: u8) {
    setup(w, 3, tile);
    let mut b: [u8; 12] = vh::bytes();
    let n = vh::usize_in(0, 10);
    b[0] = comp;
    b[2] = nres;
    let red = vh::u32_in(0, 3);
    w.z.m_cp.m_specific_param.m_dec = opj_decoding_param { m_reduce: red, m_layer: 0 };
    let r = opj_j2k_read_coc(w.z, b.as_mut_ptr(), n as u32, &mut opj_event_mgr::default());
    let s = if n < 2 || b[0] > 2 { None } else { spcod(&b[2..], n - 2, b[1] as u32, red) };
    assert!((r != 0) == s.is_some());
    let mut i = 0;
    while i < 3 {
        if i == comp as usize {
            assert!(qmarked(&w.a[i]) && w.a[i].roishift == 77);
            if r != 0 { spcod_stored(&w.a[i], &b[2..], nres as u32 + 1, b[1] as u32); }
        } else { assert!(marked(&w.a[i])); }
        assert!(marked(&w.b[i]));
        i += 1;
    }
    kani::cover!(comp > 2 || nres > 32 || (r != 0 && b[1] == 1), "precinct sizes");
    kani::cover!(r == 0 && n == 7, "rejected");
}
//@ proof unwind=14 stubs=mem fs=100 bounds="COC segment of 0..=10 bytes for each of 3 components in the main header, 1 to 3 resolutions"
pub fn coc_main() { world!(w); coc_case(w, false, 0, 0); coc_case(w, false, 1, 1); coc_case(w, false, 2, 2); }
//@ proof unwind=14 stubs=mem fs=100 bounds="COC segment of 0..=10 bytes for components 0 and 2 in a tile-part header, 2 or 3 resolutions"
pub fn coc_tile() { world!(w); coc_case(w, true, 0, 2); coc_case(w, true, 2, 1); }
//@ proof unwind=14 stubs=mem fs=100 bounds="COC segment of 0..=10 bytes with an unknown component or too many resolutions"
pub fn coc_bad() { world!(w); coc_case(w, false, 3, 1); coc_case(w, true, 255, 0); coc_case(w, true, 1, 33); }
fn quant(t: &opj_tccp_t, b: &[u8], n: usize, bands: usize) {
    assert!(t.qntsty == (b[0] & 31) as u32 && t.numgbits == (b[0] >> 5) as u32);
    let mut i = 0;
    while i < bands {
        if t.qntsty == 0 {
            if 1 + i < n { assert!(t.stepsizes[i].expn == (b[1 + i] >> 3) as i32 && t.stepsizes[i].mant == 0); }
        } else if t.qntsty != 1 && 2 + 2 * i < n {
            let v = be(b, 1 + 2 * i, 2);
            assert!(t.stepsizes[i].expn == (v >> 11) as i32 && t.stepsizes[i].mant == (v & 0x7ff) as i32);
        }
        i += 1;
    }
}
fn qok(b: &[u8], n: usize) -> bool {
    if n < 1 { return false; }
    match b[0] & 31 { 0 => true, 1 => n == 3, _ => n % 2 == 1 }
}
fn qcd_case(w: &mut World, tile: bool, style: u8, n: usize) {
    setup(w, 2, tile);
    let mut b: [u8; 10] = vh::bytes();
    b[0] = style;
    let r = opj_j2k_read_qcd(w.z, b.as_mut_ptr(), n as u32, &mut opj_event_mgr::default());
    assert!((r != 0) == qok(&b, n));
    if r != 0 { quant(&w.a[0], &b, n, 6); quant(&w.a[1], &b, n, 6); }
    assert!(marked(&w.a[2]) && marked(&w.b[0]) && marked(&w.b[1]) && cmarked(&w.a[0]) && cmarked(&w.a[1]));
    if n == 5 { kani::cover!(r != 0, "step sizes"); }
}
//@ proof unwind=196 stubs=mem fs=100 bounds="QCD segment of 0..=7 bytes, reversible quantization, 2 components, main or tile header; guard bits 0..=7"
pub fn qcd_reversible() { world!(w); qcd_case(w, false, 0, 0); qcd_case(w, false, 0x20, 1); qcd_case(w, true, 0x40, 2); qcd_case(w, false, 0x60, 3); qcd_case(w, true, 0xe0, 5); qcd_case(w, false, 0x80, 7); }
//@ proof unwind=196 stubs=mem fs=100 bounds="QCD segment of 1..=7 bytes, expounded or reserved quantization, 2 components, main or tile header"
pub fn qcd_expounded() { world!(w); qcd_case(w, false, 0xe2, 1); qcd_case(w, true, 0x42, 2); qcd_case(w, false, 0x3f, 3); qcd_case(w, false, 0x22, 4); qcd_case(w, true, 0x83, 5); qcd_case(w, false, 0x62, 7); }
fn derived(w: &mut World, tile: bool, comp: u8, style: u8, n: usize) {
    setup(w, 3, tile);
    let mut b: [u8; 10] = vh::bytes();
    b[0] = comp;
    b[1] = style;
    let r = opj_j2k_read_qcc(w.z, b.as_mut_ptr(), n as u32, &mut opj_event_mgr::default());
    assert!((r != 0) == (n == 4 && comp < 3));
    if r != 0 {
        let t = &w.a[comp as usize];
        let v = be(&b, 2, 2);
        assert!(t.qntsty == 1 && t.numgbits == (b[1] >> 5) as u32);
        let mut i = 0;
        while i < 97 {
            let e = (v >> 11) as i32 - if i == 0 { 0 } else { (i - 1) / 3 };
            let s = t.stepsizes[i as usize];
            assert!(s.mant == (v & 0x7ff) as i32 && s.expn == if e > 0 { e } else { 0 });
            i += 1;
        }
        kani::cover!(v == 0xf801, "derived");
    }
    let mut i = 0;
    while i < 3 { if i != comp as usize { assert!(marked(&w.a[i])); } assert!(marked(&w.b[i])); i += 1; }
}
//@ proof unwind=196 stubs=mem fs=100 bounds="QCC segment of 3 to 5 bytes with one derived step size, 3 components, main or tile header: all 97 bands"
pub fn qcc_derived() { world!(w); derived(w, false, 0, 0x21, 4); derived(w, false, 2, 1, 3); derived(w, false, 1, 0x81, 5); derived(w, true, 2, 0xe1, 4); derived(w, true, 3, 0x21, 4); }
fn qcc_case(w: &mut World, tile: bool, comp: u8, style: u8, n: usize) {
    setup(w, 3, tile);
    let mut b: [u8; 10] = vh::bytes();
    b[0] = comp;
    b[1] = style;
    let r = opj_j2k_read_qcc(w.z, b.as_mut_ptr(), n as u32, &mut opj_event_mgr::default());
    assert!((r != 0) == (n > 1 && comp < 3 && qok(&b[1..], n - 1)));
    let mut i = 0;
    while i < 3 {
        if i == comp as usize { assert!(cmarked(&w.a[i]) && w.a[i].roishift == 77); if r != 0 { quant(&w.a[i], &b[1..], n - 1, 6); } } else { assert!(marked(&w.a[i])); }
        assert!(marked(&w.b[i]));
        i += 1;
    }
    if n == 6 && comp < 3 { kani::cover!(r != 0, "step sizes"); }
}
//@ proof unwind=18 stubs=mem fs=100 bounds="QCC segment of 0..=7 bytes, reversible or expounded quantization, 3 components, main or tile header"
pub fn qcc() {
    world!(w); qcc_case(w, false, 0, 0, 0); qcc_case(w, false, 1, 0, 1); qcc_case(w, true, 0, 0x20, 2); qcc_case(w, false, 2, 0x60, 4); qcc_case(w, true, 1, 0xe0, 7); qcc_case(w, false, 3, 0x40, 4);
    qcc_case(w, true, 2, 0x42, 6); qcc_case(w, false, 1, 0x22, 5); qcc_case(w, false, 0, 0xff, 4);
}
fn poc_case(w: &mut World, tile: bool, old: u32, n: usize) {
    setup(w, 3, tile);
    let mut b: [u8; 16] = vh::bytes();
    let t = if tile { &mut w.tcp[1] } else { &mut *w.def };
    t.numlayers = vh::u32_in(1, 65535);
    t.POC = old > 0;
    t.numpocs = if old > 0 { old - 1 } else { 0 };
    let layers = t.numlayers;
    let mark = kani::any();
    t.pocs[1].layno1 = mark;
    let r = opj_j2k_read_poc(w.z, b.as_mut_ptr(), n as u32, &mut opj_event_mgr::default());
    let new = n / 7;
    assert!((r != 0) == (n > 0 && n % 7 == 0 && old as usize + new < 32));
    let t = if tile { &w.tcp[1] } else { &*w.def };
    if r != 0 {
        assert!(t.POC && t.numpocs as usize + 1 == old as usize + new);
        let mut i = 0;
        while i < new {
            let (p, s) = (&t.pocs[old as usize + i], &b[7 * i..]);
            assert!(p.resno0 == s[0] as u32 && p.compno0 == s[1] as u32 && p.resno1 == s[4] as u32 && p.prg == s[6] as i32);
            assert!(p.layno1 == core::cmp::min(be(s, 2, 2), layers) && p.compno1 == core::cmp::min(s[5] as u32, 3));
            i += 1;
        }
        kani::cover!(new < 2 || p_ok(t), "second change");
    }
    assert!(old < 2 || t.pocs[1].layno1 == mark);
}
fn p_ok(t: &opj_tcp_t) -> bool { let p = &t.pocs[t.numpocs as usize]; p.layno1 > 300 && p.compno1 == 3 }
//@ proof unwind=18 stubs=mem fs=100 bounds="POC segment of 0, 6 and 14 bytes, the first in the main header, 3 components, any number of layers"
pub fn poc_main() { world!(w); poc_case(w, false, 0, 0); poc_case(w, false, 0, 6); poc_case(w, false, 0, 14); }
//@ proof unwind=18 stubs=mem fs=100 bounds="POC segment of 7, 14 and 15 bytes in a tile-part header after none or 2 changes, 3 components, any number of layers"
pub fn poc_tile() { world!(w); poc_case(w, true, 0, 7); poc_case(w, true, 2, 14); poc_case(w, true, 2, 15); }
//@ proof unwind=18 stubs=mem fs=100 bounds="POC segment of 7 or 14 bytes after 29, 30 or 31 earlier changes: at most 31 in all"
pub fn poc_limit() { world!(w); poc_case(w, false, 29, 14); poc_case(w, false, 30, 14); poc_case(w, false, 31, 7); }
//@ proof unwind=7 stubs=mem fs=100 bounds="RGN segment of 0..=5 bytes, CRG of any length, 3 components, main and tile header"
pub fn rgn_crg() {
    world!(w);
    let mut tile = false;
    loop {
        let mut case = 0;
        while case < 4 {
            setup(w, 3, tile);
            let mut b: [u8; 6] = vh::bytes();
            let n = vh::u32_in(0, 5);
            if case < 3 { b[0] = case as u8; } else { kani::assume(b[0] >= 3); }
            let r = opj_j2k_read_rgn(w.z, b.as_mut_ptr(), n, &mut opj_event_mgr::default());
            assert!((r != 0) == (n == 3 && b[0] < 3));
            let mut i = 0;
            while i < 3 {
                if r != 0 && i == b[0] as usize { assert!(w.a[i].roishift == b[2] as i32); } else { assert!(w.a[i].roishift == 77); }
                assert!(marked(&w.b[i]) && cmarked(&w.a[i]) && qmarked(&w.a[i]));
                i += 1;
            }
            kani::cover!(r != 0 && b[2] == 255, "largest shift");
            case += 1;
        }
        if tile { break; }
        tile = true;
    }
    let mut b = [0u8; 4];
    let n = kani::any();
    assert!((opj_j2k_read_crg(w.z, b.as_mut_ptr(), n, &mut opj_event_mgr::default()) != 0) == (n == 12));
}
struct Sot { want: i32, corr: bool, last: bool, w: [u32; 4], cur: i32, parts: u32 }
fn sot_case(w: &mut World, no: u8, n: u32) {
    setup(w, 1, false);
    let mut tiles: core::mem::ManuallyDrop<[opj_tcp_t; 4]> = blank!();
    w.z.m_cp.tcps = &raw mut *tiles as *mut opj_tcp_t;
    let z = &mut *w.z;
    let mut b: [u8; 10] = vh::bytes();
    b[0] = if no > 4 { no } else { 0 };
    b[1] = if no > 4 { 0 } else { no };
    z.m_cp.tw = 2;
    z.m_cp.th = 2;
    let c = Sot { cur: vh::i32_in(-1, 254), parts: vh::u32_in(0, 255), want: vh::i32_in(-1, 3), corr: kani::any(), last: kani::any(), w: [vh::u32_in(0, 2), vh::u32_in(0, 2), vh::u32_in(0, 2), vh::u32_in(0, 2)] };
    if no < 4 { let t = &mut tiles[no as usize]; t.m_current_tile_part_number = c.cur; t.m_nb_tile_parts = c.parts; }
    {
        let d = unsafe { &mut z.m_specific_param.m_decoder };
        d.m_tile_ind_to_dec = c.want;
        d.m_nb_tile_parts_correction = c.corr;
        d.m_last_tile_part = c.last as i32;
        (d.m_start_tile_x, d.m_start_tile_y, d.m_end_tile_x, d.m_end_tile_y) = (c.w[0], c.w[1], c.w[2], c.w[3]);
        d.m_can_decode = false;
    }
    z.cstr_index = core::ptr::null_mut();
    let r = opj_j2k_read_sot(z, b.as_mut_ptr(), n, &mut opj_event_mgr::default());
    let (len, part) = (be(&b, 2, 4), b[6] as u32);
    let num = if b[7] == 0 { 0 } else { b[7] as u32 + c.corr as u32 };
    let ok = n == 8 && no < 4 && !((c.want < 0 || no as i32 == c.want) && c.cur + 1 != part as i32)
        && (len == 0 || len == 12 || len >= 14) && !(c.parts != 0 && part >= c.parts) && !(num != 0 && part >= num);
    assert!((r != 0) == ok);
    kani::cover!(r == 0, "rejected");
    if no > 3 { return; }
    kani::cover!(n != 8 || (r != 0 && c.parts > 3), "accepted");
    if r == 0 { return; }
    let d = unsafe { &z.m_specific_param.m_decoder };
    let t = &tiles[no as usize];
    assert!(z.m_current_tile_number == no as u32 && t.m_current_tile_part_number == part as i32);
    let total = if num != 0 { num } else { c.parts };
    assert!(t.m_nb_tile_parts == total && d.m_can_decode == (total != 0 && part + 1 == total));
    let islast = c.last || len == 0;
    assert!((d.m_last_tile_part != 0) == islast && d.m_sot_length == if islast { 0 } else { len - 12 });
    assert!(d.m_state == J2KState::TPH);
    let (x, y) = (no as u32 % 2, no as u32 / 2);
    let skip = if c.want < 0 { !(c.w[0] <= x && x < c.w[2] && c.w[1] <= y && y < c.w[3]) } else { no as i32 != c.want };
    assert!(d.m_skip_data == skip);
    
}
//@ proof unwind=12 stubs=mem fs=100 bounds="SOT segment of 8 bytes for tiles 0 and 1 of 2x2, any earlier tile-part state of the tile, any selected tile or tile range"
pub fn sot_upper() { world!(w); sot_case(w, 0, 8); sot_case(w, 1, 8); }
//@ proof unwind=12 stubs=mem fs=100 bounds="SOT segment of 8 bytes for tiles 2 and 3 of 2x2, any earlier tile-part state of the tile, any selected tile or tile range"
pub fn sot_lower() { world!(w); sot_case(w, 2, 8); sot_case(w, 3, 8); }
//@ proof unwind=12 stubs=mem fs=100 bounds="SOT segment for tiles 4 and 1280, and of 0, 7 and 9 bytes"
pub fn sot_bad() { world!(w); sot_case(w, 4, 8); sot_case(w, 5, 8); sot_case(w, 1, 0); sot_case(w, 1, 7); sot_case(w, 1, 9); }
//@ proof unwind=8 stubs=mem fs=100 bounds="TLM of any length up to 2^32-1 with arbitrary size field; PLT segment of 0..=5 bytes"
pub fn tlm_plt() {
    world!(w);
    setup(w, 1, false);
    let mut b: [u8; 6] = vh::bytes();
    let n: u32 = kani::any();
    let r = opj_j2k_read_tlm(w.z, b.as_mut_ptr(), n, &mut opj_event_mgr::default());
    let per = ((b[1] >> 4) & 3) as u32 + if b[1] & 0x40 != 0 { 4 } else { 2 };
    assert!((r != 0) == (n >= 2 && (n - 2) % per == 0));
    let n = vh::usize_in(0, 5);
    let r = opj_j2k_read_plt(w.z, b.as_mut_ptr(), n as u32, &mut opj_event_mgr::default());
    // packet lengths are 7-bit groups; the last group must close its packet
    let mut ok = n > 0;
    let mut i = 1;
    let mut len = 0u32;
    while i < n { len |= (b[i] & 0x7f) as u32; if b[i] & 0x80 != 0 { len <<= 7; } else { len = 0; } i += 1; }
    ok = ok && len == 0;
    assert!((r != 0) == ok);
    kani::cover!(r != 0 && n == 5 && b[2] > 127, "long length");
    kani::cover!(r == 0 && n == 4, "open length");
}
