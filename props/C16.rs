//! C16 JP2 box reading and writing
//@ crate jp2
//@ note The JP2 file-format box readers and writers (src/jp2.rs) on arbitrary box contents.
//@ assume memory requests succeed; no message callback is set; error texts are not built (alloc::fmt::format is replaced)
//@ stubs fmt alloc::fmt::format=>openjp2::jp2::verif::nofmt
//@ module jp2

use core::mem::{ManuallyDrop, MaybeUninit};
pub fn nofmt(_: core::fmt::Arguments<'_>) -> String { String::new() }
type W = ManuallyDrop<opj_jp2>;
/// A JP2 codec with no boxes read; every field not set here is arbitrary under the solver.
fn world() -> W {
    #[cfg(kani)]
    let mut z: W = unsafe { MaybeUninit::uninit().assume_init() };
    #[cfg(not(kani))]
    let mut z: W = unsafe { MaybeUninit::zeroed().assume_init() };
    unsafe {
        core::ptr::write(&mut z.cl, Vec::new());
        core::ptr::write(&mut z.comps, Vec::new());
        core::ptr::write(&mut z.color, opj_jp2_color { icc_profile: None, icc_profile_len: 0, jp2_cdef: None, jp2_pclr: None, jp2_has_colr: 0 });
    }
    z
}
fn mgr() -> opj_event_mgr { opj_event_mgr::default() }
fn be(b: &[u8], at: usize, n: usize) -> u32 { let mut v = 0u32; let mut i = 0; while i < n { v = v << 8 | b[at + i] as u32; i += 1; } v }

//@ proof unwind=20 stubs=fmt bounds="every content of image header boxes of 0 to 16 bytes with 0, 1, 3 or more than 16384 components"
pub fn ihdr() {
    let b: [u8; 16] = kani::any();
    let mut n = 0;
    while n <= 16 { if n != 14 { let mut z = world(); assert!(opj_jp2_read_ihdr(&mut z, &b[..n], &mut mgr()) == 0 && z.comps.is_empty()); } n += 1; }
    for nc in [0u16, 1, 3, 16385, 65535] {
        let mut c = b;
        c[8] = (nc >> 8) as u8; c[9] = nc as u8;
        let (h, w) = (be(&c, 0, 4), be(&c, 4, 4));
       
        let mut z = world();
        let r = opj_jp2_read_ihdr(&mut z, &c[..14], &mut mgr());
        assert!((r != 0) == (h > 0 && w > 0 && nc > 0 && nc <= 16384));
        if r != 0 {
            assert!(z.comps.len() == nc as usize && z.h == h && z.w == w && z.bpc == c[10] as u32 && z.C == c[11] as u32 && z.UnkC == c[12] as u32 && z.IPR == c[13] as u32);
            assert!(z.j2k.ihdr_w == w && z.j2k.ihdr_h == h && z.j2k.m_cp.allow_different_bit_depth_sign == (c[10] == 255) && z.has_ihdr == 1);
            // a second box is ignored
            let d: [u8; 14] = kani::any();
            assert!(opj_jp2_read_ihdr(&mut z, &d, &mut mgr()) == 1 && z.comps.len() == nc as usize && z.h == h && z.w == w && z.bpc == c[10] as u32);
        } else { assert!(z.comps.is_empty()); }
        kani::cover!(nc != 3 || r != 0, "three components");
    }
}
//@ proof unwind=8 stubs=fmt bounds="every content of bit-depth boxes of 0 to 4 bytes, 1 to 3 components"
pub fn bpcc() {
    let b: [u8; 4] = kani::any();
    for nc in 1..=3usize {
        for n in 0..=4usize {
            let mut z = world();
            z.bpc = kani::any();
            z.comps = vec![opj_jp2_comps { bpcc: 7 }; nc];
            let r = opj_jp2_read_bpcc(&mut z, &b[..n], &mut mgr());
            assert!((r != 0) == (n == nc) && z.comps.len() == nc);
            for i in 0..nc { assert!(z.comps[i].bpcc == if r != 0 { b[i] as u32 } else { 7 }); }
            kani::cover!(n != 2 || nc != 2 || z.comps[1].bpcc == 0x87, "signed eight bits");
        }
    }
}
/// A palette of ne entries and ch columns in a box of n bytes with the given depths.
fn palette<const N: usize>(ne: usize, ch: usize, d: &[u8]) {
    let mut b: [u8; N] = kani::any();
    b[0] = (ne >> 8) as u8; b[1] = ne as u8; b[2] = ch as u8;
    for i in 0..ch { b[3 + i] = d[i]; }
    let mut z = world();
    let r = opj_jp2_read_pclr(&mut z, &b, &mut mgr());
    let mut need = 3 + ch;
    for i in 0..ch { need += ne * width(d[i]); }
    assert!((r != 0) == (need <= N) && z.color.jp2_pclr.is_some() == (r != 0));
    if r != 0 {
        let p = z.color.jp2_pclr.as_ref().unwrap();
        assert!(p.nr_entries as usize == ne && p.nr_channels as usize == ch && p.channel.len() == ch && p.entries.len() == ne * ch && p.cmap.is_empty());
        let mut at = 3 + ch;
        for e in 0..ne { for i in 0..ch {
            assert!(p.channel[i].size == (d[i] & 0x7f) + 1 && p.channel[i].sign == d[i] >> 7);
            assert!(p.entries[e * ch + i] == be(&b, at, width(d[i])));
            at += width(d[i]);
        } }
        // only one palette per file
        assert!(opj_jp2_read_pclr(&mut z, &b, &mut mgr()) == 0);
    }
    kani::cover!(b[N - 1] == 0x5a, "arbitrary entries");
}
fn width(d: u8) -> usize { let w = ((d & 0x7f) as usize + 8) / 8; if w > 4 { 4 } else { w } }
//@ proof unwind=24 stubs=fmt bounds="palettes of 1 to 3 entries, 1 and 2 columns of 8, 12 and 16 bits, complete, short or with excess bytes; all entry values"
pub fn pclr() {
    palette::<7>(3, 1, &[7]);
    palette::<6>(3, 1, &[0x87]);
    if THOROUGH { palette::<12>(2, 2, &[7, 0x8b]); }
    palette::<10>(2, 2, &[15, 7]);
}
//@ proof unwind=24 stubs=fmt bounds="a palette of one entry in 17 columns, every entry value; entries of 32, 24 and 38 bits"
pub fn pclr_wide() {
    palette::<12>(1, 2, &[31, 0x97]);
    palette::<9>(1, 1, &[37]);
    palette::<37>(1, 17, &[7; 17]);
}
//@ proof unwind=20 stubs=fmt bounds="every content of palette boxes of 0 to 5 bytes with 0, 1025 or 65535 entries, no columns, or too few bytes for 3 or 255 columns"
pub fn pclr_bad() {
    let b: [u8; 5] = kani::any();
    for (ne, ch) in [(0u16, 1u8), (1025, 1), (65535, 1), (1, 0), (1, 3), (2, 255)] {
        let mut c = b;
        c[0] = (ne >> 8) as u8; c[1] = ne as u8; c[2] = ch;
        for n in [0, 2, 3, 5] {
            let mut z = world();
            assert!(opj_jp2_read_pclr(&mut z, &c[..n], &mut mgr()) == 0 && z.color.jp2_pclr.is_none());
        }
    }
    kani::cover!(b[3] == 7, "eight bits");
}
fn pal(ch: usize) -> opj_jp2_pclr { opj_jp2_pclr { entries: vec![0; ch], channel: vec![Jp2ChannelSign { sign: 0, size: 8 }; ch], cmap: Vec::new(), nr_entries: 1, nr_channels: ch as u8 } }
//@ proof unwind=16 stubs=fmt bounds="every content of component mapping boxes of 0 to 9 bytes, no palette or palettes of 1 and 2 columns"
pub fn cmap() {
    let b: [u8; 9] = kani::any();
    let mut z = world();
    assert!(opj_jp2_read_cmap(&mut z, &b, &mut mgr()) == 0 && z.color.jp2_pclr.is_none());
    for ch in 1..=2usize {
        for n in [0, 3, 4, 5, 7, 8, 9] {
            let mut z = world();
            z.color.jp2_pclr = Some(pal(ch));
            let r = opj_jp2_read_cmap(&mut z, &b[..n], &mut mgr());
            assert!((r != 0) == (n >= 4 * ch));
            let m = &z.color.jp2_pclr.as_ref().unwrap().cmap;
            assert!(m.len() == if r != 0 { ch } else { 0 });
            for i in 0..m.len() { assert!(m[i].cmp as u32 == be(&b, 4 * i, 2) && m[i].mtyp == b[4 * i + 2] && m[i].pcol == b[4 * i + 3]); }
            if r != 0 { assert!(opj_jp2_read_cmap(&mut z, &b[..n], &mut mgr()) == 0); }
        }
    }
    kani::cover!(b[0] == 3, "component index above 255");
}
//@ proof unwind=16 stubs=fmt bounds="every content of channel definition boxes of 0 to 15 bytes with 0 to 3, 601 or 65535 channels"
pub fn cdef() {
    let b: [u8; 15] = kani::any();
    for n_ in [0usize, 1, 2, 3, 601, 65535] {
        let mut c = b;
        c[0] = (n_ >> 8) as u8; c[1] = n_ as u8;
        for n in [0, 1, 2, 7, 8, 9, 13, 14, 15] {
            let mut z = world();
            let r = opj_jp2_read_cdef(&mut z, &c[..n], &mut mgr());
            assert!((r != 0) == (n >= 2 && n_ > 0 && n >= 2 + 6 * n_) && z.color.jp2_cdef.is_some() == (r != 0));
            if r != 0 {
                let d = &z.color.jp2_cdef.as_ref().unwrap().info;
                assert!(d.len() == n_);
                for i in 0..n_ { let at = 2 + 6 * i; assert!(d[i].cn as u32 == be(&c, at, 2) && d[i].typ as u32 == be(&c, at + 2, 2) && d[i].asoc as u32 == be(&c, at + 4, 2)); }
                assert!(opj_jp2_read_cdef(&mut z, &c[..n], &mut mgr()) == 0);
            }
        }
    }
    kani::cover!(b[6] == 0xff && b[7] == 0xff, "unassociated");
}
fn word(v: &[u8], i: usize) -> u32 { u32::from_ne_bytes([v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]]) }
fn colour<const N: usize>(cielab: bool) {
    let mut b: [u8; N] = kani::any();
    if cielab { b[0] = 1; b[3] = 0; b[4] = 0; b[5] = 0; b[6] = 14; }
    let mut z = world();
    z.enumcs = 0;
    let r = opj_jp2_read_colr(&mut z, &b, &mut mgr());
    if N < 3 { assert!(r == 0 && z.color.jp2_has_colr == 0 && z.color.icc_profile.is_none()); }
    else { read_ok(&mut z, r, &b, cielab); }
    kani::cover!(N < 7 || cielab || (r != 0 && z.enumcs == 17), "greyscale");
    kani::cover!(N < 3 || cielab || b[0] == 3, "unknown method");
}
fn read_ok<const N: usize>(z: &mut W, r: i32, b: &[u8; N], cielab: bool) {
    assert!((r != 0) == (b[0] != 1 || N >= 7));
    let known = r != 0 && (b[0] == 1 || b[0] == 2);
    assert!(z.color.jp2_has_colr == known as u8);
    if r != 0 { assert!(z.meth == b[0] as u32 && z.precedence == b[1] as u32 && z.approx == b[2] as u32); }
    if known && b[0] == 1 {
        assert!(z.enumcs == be(b, 3, 4));
        assert!(z.color.icc_profile.is_some() == (z.enumcs == 14));
        if let Some(v) = &z.color.icc_profile {
            // colour space, default marker, ranges and offsets of L, a and b, illuminant
            assert!(v.len() == 36 && z.color.icc_profile_len == 0 && word(v, 0) == 14);
            assert!(word(v, 1) == if N == 35 { 0 } else { 0x44454600 });
            let mut i = 0;
            while i < 7 { assert!(word(v, 2 + i) == if N == 35 { be(b, 7 + 4 * i, 4) } else if i == 6 { 0x443530 } else { 0 }); i += 1; }
        }
    }
    if known && b[0] == 2 {
        let v = z.color.icc_profile.as_ref().unwrap();
        assert!(v.len() == N - 3 && z.color.icc_profile_len as usize == N - 3);
        let mut i = 0;
        while i < N - 3 { assert!(v[i] == b[3 + i]); i += 1; }
    }
    if known {
        // only the first specification counts
        let (e, l) = (z.enumcs, z.color.icc_profile_len);
        let c: [u8; 7] = kani::any();
        assert!(opj_jp2_read_colr(z, &c, &mut mgr()) == 1 && z.enumcs == e && z.meth == b[0] as u32 && z.color.icc_profile_len == l);
    }
}
//@ proof unwind=40 stubs=fmt bounds="every content of colour boxes of 0, 2, 3, 6, 7 and 9 bytes"
pub fn colr() { colour::<0>(false); colour::<2>(false); colour::<3>(false); colour::<6>(false); colour::<7>(false); colour::<9>(false); }
//@ proof unwind=40 stubs=fmt bounds="CIELab colour boxes of 7, 9 and 35 bytes, every content"
pub fn cielab() { colour::<7>(true); colour::<9>(true); colour::<35>(true); }
//@ proof unwind=12 stubs=fmt bounds="every content of signature boxes of 0 to 5 bytes and file type boxes of 0 to 17 bytes, every reader state"
pub fn order() {
    let (b, s): ([u8; 17], u32) = (kani::any(), kani::any());
    for n in 0..=5usize {
        let mut z = world();
        z.jp2_state = s;
        let r = opj_jp2_read_jp(&mut z, &b[..n], &mut mgr());
        assert!((r != 0) == (s == 0 && n == 4 && b[0] == 0x0d && b[1] == 0x0a && b[2] == 0x87 && b[3] == 0x0a));
        assert!(z.jp2_state == if r != 0 { 1 } else { s });
        kani::cover!(n != 4 || r != 0, "signature accepted");
    }
    for n in [0, 4, 7, 8, 9, 10, 11, 12, 13, 16, 17] {
        let mut z = world();
        z.jp2_state = s;
        let r = opj_jp2_read_ftyp(&mut z, &b[..n], &mut mgr());
        assert!((r != 0) == (s == 1 && n >= 8 && n % 4 == 0));
        assert!(z.jp2_state == if r != 0 { 3 } else { s });
        if r != 0 {
            assert!(z.brand == be(&b, 0, 4) && z.minversion == be(&b, 4, 4) && z.cl.len() == (n - 8) / 4);
            for i in 0..z.cl.len() { assert!(z.cl[i] == be(&b, 8 + 4 * i, 4)); }
        }
        kani::cover!(n != 16 || r != 0, "file type accepted");
    }
}
//@ proof unwind=10 stubs=fmt bounds="every box header of 0 to 17 bytes with any number of bytes left in the file"
pub fn header() {
    let (b, left): ([u8; 17], usize) = (kani::any(), kani::any());
    for n in [0, 4, 7, 8, 9, 12, 15, 16, 17] {
        let mut h = Jp2BoxHeader::default();
        let mut s = &b[..n];
        let r = h.read(&mut s, left).is_ok();
        let len = be(&b, 0, 4);
        let want = n >= 8 && match len { 0 => left > 0 && left <= u32::MAX as usize, 1 => n >= 16 && be(&b, 8, 4) == 0, _ => true };
        assert!(r == want);
        if r {
            assert!(h.ty_u32() == be(&b, 4, 4));
            assert!(h.header_length == if len == 1 { 16 } else { 8 } && n - s.len() == h.header_length as usize);
            assert!(h.length == match len { 0 => left as u32, 1 => be(&b, 12, 4), _ => len });
        }
        kani::cover!(n < 16 || (r && len == 1), "extended length");
        kani::cover!(n < 8 || (r && h.ty == Jp2BoxType::COLR), "known type");
    }
}
/// Every writer stores the box the matching reader reads back.
fn content<'a>(b: &'a [u8], ty: u32) -> &'a [u8] { assert!(b.len() >= 8 && be(b, 0, 4) as usize == b.len() && be(b, 4, 4) == ty); &b[8..] }
//@ proof unwind=44 stubs=fmt bounds="every value of every field, 1 and 3 components, enumerated colour space or ICC profile of 1 and 5 bytes, 0, 1 and 3 channel definitions"
pub fn written() {
    for nc in [1usize, 3] {
        let (mut z, mut y) = (world(), world());
        z.h = kani::any(); z.w = kani::any();
        kani::assume(z.h > 0 && z.w > 0);
        let (b, c, u, i): (u8, u8, u8, u8) = (kani::any(), kani::any(), kani::any(), kani::any());
        z.bpc = b as u32; z.C = c as u32; z.UnkC = u as u32; z.IPR = i as u32;
        z.comps = vec![opj_jp2_comps { bpcc: 0 }; nc];
        for k in 0..nc { z.comps[k].bpcc = kani::any::<u8>() as u32; }
        let mut v = Vec::new();
        assert!(opj_jp2_write_ihdr(&mut z, &mut v) && v.len() == 22);
        assert!(opj_jp2_read_ihdr(&mut y, content(&v, 0x69686472), &mut mgr()) == 1);
        assert!(y.h == z.h && y.w == z.w && y.bpc == z.bpc && y.C == z.C && y.UnkC == z.UnkC && y.IPR == z.IPR && y.comps.len() == nc);
        let mut v = Vec::new();
        assert!(opj_jp2_write_bpcc(&mut z, &mut v));
        assert!(opj_jp2_read_bpcc(&mut y, content(&v, 0x62706363), &mut mgr()) == 1);
        for k in 0..nc { assert!(y.comps[k].bpcc == z.comps[k].bpcc); }
        let mut v = Vec::new();
        assert!(!opj_jp2_write_cdef(&mut z, &mut v));
        let mut d = Vec::new();
        for k in 0..nc { d.push(opj_jp2_cdef_info { cn: kani::any(), typ: kani::any(), asoc: kani::any() }); }
        z.color.jp2_cdef = Some(opj_jp2_cdef { info: d });
        assert!(opj_jp2_write_cdef(&mut z, &mut v));
        assert!(opj_jp2_read_cdef(&mut y, content(&v, 0x63646566), &mut mgr()) == 1);
        let (p, q) = (z.color.jp2_cdef.as_ref().unwrap(), y.color.jp2_cdef.as_ref().unwrap());
        assert!(p.info.len() == q.info.len());
        for k in 0..nc { assert!(p.info[k].cn == q.info[k].cn && p.info[k].typ == q.info[k].typ && p.info[k].asoc == q.info[k].asoc); }
        kani::cover!(z.bpc == 255, "mixed depths");
    }
}
//@ proof unwind=44 stubs=fmt bounds="every enumerated colour space but CIELab, ICC profiles of 1 and 5 arbitrary bytes, every precedence and approximation"
pub fn written_colr() {
    for n in [0usize, 1, 5] {
        let (mut z, mut y) = (world(), world());
        y.enumcs = 0;
        z.meth = if n == 0 { 1 } else { 2 };
        let (p, a): (u8, u8) = (kani::any(), kani::any());
        z.precedence = p as u32; z.approx = a as u32;
        z.enumcs = kani::any();
        kani::assume(z.enumcs != 14);
        let icc: [u8; 5] = kani::any();
        if n > 0 { z.color.icc_profile = Some(Vec::from(&icc[..n])); z.color.icc_profile_len = n as u32; }
        let mut v = Vec::new();
        assert!(opj_jp2_write_colr(&mut z, &mut v));
        assert!(opj_jp2_read_colr(&mut y, content(&v, 0x636f6c72), &mut mgr()) == 1);
        assert!(y.meth == z.meth && y.precedence == z.precedence && y.approx == z.approx && y.color.jp2_has_colr == 1);
        if n == 0 { assert!(y.enumcs == z.enumcs); } else {
            let q = y.color.icc_profile.as_ref().unwrap();
            assert!(q.len() == n && y.color.icc_profile_len as usize == n);
            for k in 0..n { assert!(q[k] == icc[k]); }
        }
        kani::cover!(p == 0x81, "negative precedence");
    }
}
/// A JP2 header of the given sub-boxes (type, length) with arbitrary content.
fn super_box<const N: usize>(boxes: &[(u32, usize)], cut: usize, state: u32) -> (i32, W, [u8; N]) {
    let mut b: [u8; N] = kani::any();
    let mut at = 0;
    for &(t, n) in boxes {
        let h = [(n as u32).to_be_bytes(), t.to_be_bytes()];
        for k in 0..8 { b[at + k] = h[k / 4][k % 4]; }
        // one to three components
        if t == IHDR { b[at + 16] = 0; b[at + 17] = 2; }
        at += n;
    }
    let mut z = world();
    z.jp2_state = state; z.jp2_img_state = 0; z.has_jp2h = 0; z.enumcs = 0;
    let r = opj_jp2_read_jp2h(&mut z, &b[..cut], &mut mgr());
    assert!(z.jp2_state == if r != 0 { state | 4 } else { state } && (z.has_jp2h == 1) == (r != 0));
    (r, z, b)
}
const IHDR: u32 = 0x69686472;
const COLR: u32 = 0x636f6c72;
//@ proof unwind=20 stubs=fmt bounds="header boxes of an image header, a colour box, a bit-depth box and an unknown box in several orders, complete or cut, all contents, in and out of place"
pub fn jp2h() {
    let (r, z, b) = super_box::<37>(&[(IHDR, 22), (COLR, 15)], 37, 3);
    assert!((r != 0) == (be(&b, 8, 4) > 0 && be(&b, 12, 4) > 0));
    if r != 0 { assert!(z.h == be(&b, 8, 4) && z.comps.len() == 2 && z.meth == b[30] as u32 && (b[30] != 1 || z.enumcs == be(&b, 33, 4))); }
    kani::cover!(r != 0 && z.enumcs == 16, "sRGB");
    let (r, _, _) = super_box::<37>(&[(IHDR, 22), (COLR, 15)], 36, 3);
    assert!(r == 0);
    let (r, _, _) = super_box::<37>(&[(IHDR, 22), (COLR, 15)], 37, 1);
    assert!(r == 0);
    let (r, _, _) = super_box::<15>(&[(COLR, 15)], 15, 3);
    assert!(r == 0);
    let (r, _, _) = super_box::<0>(&[], 0, 3);
    assert!(r == 0);
    let (r, z, b) = super_box::<42>(&[(0x75756964, 10), (IHDR, 22), (0x62706363, 10)], 42, 3);
    assert!((r != 0) == (be(&b, 18, 4) > 0 && be(&b, 22, 4) > 0));
    if r != 0 { assert!(z.comps[0].bpcc == b[40] as u32 && z.comps[1].bpcc == b[41] as u32); }
}
//@ proof unwind=20 stubs=fmt bounds="every content of header boxes of 8 or 9 bytes, sub-box lengths 7, 9, 10 and 2^32 - 1, colour or unknown type"
pub fn jp2h_short() {
    let b: [u8; 9] = kani::any();
    for (len, t) in [(7u32, COLR), (9, COLR), (9, 0), (10, COLR), (u32::MAX, COLR)] {
        let mut c = b;
        let h = [len.to_be_bytes(), t.to_be_bytes()];
        for k in 0..8 { c[k] = h[k / 4][k % 4]; }
        for n in [8usize, 9] {
            let mut z = world();
            z.jp2_state = 3; z.has_jp2h = 0; z.bpc = 8;
            assert!(opj_jp2_read_jp2h(&mut z, &c[..n], &mut mgr()) == 0 && z.jp2_state == 3 && z.has_jp2h == 0);
        }
    }
    kani::cover!(b[8] == 1, "method");
}
