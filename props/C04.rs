//! C04 big-endian byte I/O
//@ note The helpers behind every integer read from or written to a marker segment or box.
//@ crate jp2
//@ module cio

//@ proof unwind=10 bounds="every width 1..=4, every 32-bit value; the buffer is exactly as long as the width, with guard bytes checked"
pub fn bytes_be() {
    unsafe {
        let n = vh::u32_in(1, 4);
        let v: u32 = kani::any();
        let mut buf = [0x5Au8; 6];
        opj_write_bytes(buf.as_mut_ptr().add(1), v, n);
        let mut i = 0;
        while i < 6 {
            if i >= 1 && i <= n as usize { assert!(buf[i] == (v >> (8 * (n as usize - i))) as u8); }
            else { assert!(buf[i] == 0x5A); }
            i += 1;
        }
        let heap = crate::malloc::opj_malloc(n as usize) as *mut u8;
        let mut i = 0;
        while i < 4 { if i < n as usize { *heap.add(i) = buf[i + 1]; } i += 1; }
        let mut r = [0xDEADBEEFu32, 0x12345678, 0xDEADBEEF];
        opj_read_bytes(heap, &mut r[1], n);
        assert!(r[0] == 0xDEADBEEF && r[2] == 0xDEADBEEF);
        assert!(r[1] == if n == 4 { v } else { v & ((1 << (8 * n)) - 1) });
        kani::cover!(n == 3 && v == 0x00FF_0180, "three bytes");
        kani::cover!(n == 4 && v == u32::MAX, "four bytes");
        crate::malloc::opj_free(heap as *mut core::ffi::c_void);
    }
}
//@ proof unwind=10 bounds="every 1..=4 byte content: decoding then encoding gives the same bytes"
pub fn bytes_back() {
    let n = vh::u32_in(1, 4);
    let b: [u8; 4] = vh::bytes();
    let mut out = [0u8; 4];
    let mut v = 0u32;
    opj_read_bytes(b.as_ptr(), &mut v, n);
    opj_write_bytes(out.as_mut_ptr(), v, n);
    let mut i = 0;
    while i < 4 { assert!(out[i] == if i < n as usize { b[i] } else { 0 }); i += 1; }
    kani::cover!(n == 2 && v == 0xFF4F, "a marker");
}
//@ proof unwind=12 bounds="every bit pattern of a float and a double (infinities and NaN payloads included)"
pub fn floats_be() {
    let f: u32 = kani::any();
    let d: u64 = kani::any();
    let mut fb = [0x5Au8; 6];
    let mut db = [0x5Au8; 10];
    unsafe {
        opj_write_float(fb.as_mut_ptr().add(1), f32::from_bits(f));
        opj_write_double(db.as_mut_ptr().add(1), f64::from_bits(d));
    }
    let mut i = 0;
    while i < 10 {
        if i < 6 { assert!(fb[i] == if i >= 1 && i <= 4 { (f >> (8 * (4 - i))) as u8 } else { 0x5A }); }
        assert!(db[i] == if i >= 1 && i <= 8 { (d >> (8 * (8 - i))) as u8 } else { 0x5A });
        i += 1;
    }
    let (mut g, mut e) = (0f32, 0f64);
    unsafe {
        opj_read_float(fb.as_ptr().add(1), &mut g);
        opj_read_double(db.as_ptr().add(1), &mut e);
    }
    assert!(g.to_bits() == f && e.to_bits() == d);
    kani::cover!(g.is_nan(), "NaN payload");
    kani::cover!(e.is_infinite(), "infinity");
}
