//! C01 packet-header bit I/O
//@ crate jp2
//@ note Encoder/decoder of single bits in packet headers (src/bio.rs).
//@ assume values are written with at most as many significant bits as their declared width (the callers' contract)
//@ module bio

/// Reference bit packer (ISO 15444-1 B.10.1): after a 0xFF byte the next byte carries 7 bits.
struct RefBits { out: [u8; 12], n: usize, cur: u32, room: u32 }
impl RefBits {
    fn new() -> Self { RefBits { out: [0; 12], n: 0, cur: 0, room: 8 } }
    fn put(&mut self, b: u32) {
        if self.room == 0 { self.emit(); }
        self.room -= 1;
        self.cur |= b << self.room;
    }
    fn emit(&mut self) {
        self.out[self.n] = self.cur as u8;
        self.n += 1;
        self.room = if self.cur == 0xFF { 7 } else { 8 };
        self.cur = 0;
    }
    fn finish(&mut self) {
        self.emit();
        if self.room == 7 { self.emit(); }
    }
}

const NF: usize = if THOROUGH { 3 } else { 2 };
const W: u32 = if THOROUGH { 13 } else { 12 };
//@ proof unwind=28/44 bounds="2 fields of width 1..=12 (thorough: 3 of 1..=13), widths and values symbolic, roomy buffer"
pub fn bio_roundtrip() {
    unsafe {
        let mut buf = [0u8; 8];
        let mut w: opj_bio_t = core::mem::zeroed();
        let mut r: opj_bio_t = core::mem::zeroed();
        opj_bio_init_enc(&mut w, buf.as_mut_ptr(), 8);
        let mut n = [0u32; NF];
        let mut v = [0u32; NF];
        let mut reference = RefBits::new();
        let mut i = 0;
        while i < NF {
            n[i] = vh::u32_in(1, W);
            v[i] = kani::any();
            kani::assume(v[i] < 1 << n[i]);
            opj_bio_write(&mut w, v[i], n[i]);
            let mut k = n[i];
            while k > 0 { k -= 1; reference.put(v[i] >> k & 1); }
            i += 1;
        }
        assert!(opj_bio_flush(&mut w) == 1);
        reference.finish();
        let len = opj_bio_numbytes(&mut w);
        assert!(len as usize == reference.n);
        let mut i = 0;
        while i < 8 {
            if i < reference.n { assert!(buf[i] == reference.out[i]); }
            if i > 0 && (i as isize) < len { assert!(!(buf[i - 1] == 0xFF && buf[i] > 0x7F)); }
            i += 1;
        }
        assert!(len > 0 && buf[len as usize - 1] != 0xFF);
        kani::cover!(len >= 2 && buf[0] == 0xFF, "a stuffed byte is produced");
        kani::cover!(len == 4, "long header");
        // decode
        opj_bio_init_dec(&mut r, buf.as_mut_ptr(), len as u32);
        let mut i = 0;
        while i < NF { assert!(opj_bio_read(&mut r, n[i]) == v[i]); i += 1; }
        assert!(opj_bio_inalign(&mut r) == 1);
        assert!(opj_bio_numbytes(&mut r) == len);
    }
}

//@ proof unwind=40 bounds="one field of every width 1..=32, any value"
pub fn bio_roundtrip_wide() {
    unsafe {
        let mut buf = [0u8; 8];
        let mut w: opj_bio_t = core::mem::zeroed();
        let mut r: opj_bio_t = core::mem::zeroed();
        opj_bio_init_enc(&mut w, buf.as_mut_ptr(), 8);
        let n = vh::u32_in(1, 32);
        let v: u32 = kani::any();
        kani::assume(n == 32 || v < 1 << n);
        opj_bio_write(&mut w, v, n);
        assert!(opj_bio_flush(&mut w) == 1);
        let len = opj_bio_numbytes(&mut w);
        opj_bio_init_dec(&mut r, buf.as_mut_ptr(), len as u32);
        assert!(opj_bio_read(&mut r, n) == v);
        assert!(opj_bio_inalign(&mut r) == 1);
        assert!(opj_bio_numbytes(&mut r) == len);
        kani::cover!(v == u32::MAX && n == 32, "all ones");
    }
}

//@ proof unwind=40 bounds="up to 30 symbolic bits into a buffer of 0..=4 bytes surrounded by guard bytes"
pub fn bio_write_bounded() {
    unsafe {
        let mut buf = [0xA5u8; 8];
        let cap = vh::u32_in(0, 4);
        let n = vh::u32_in(1, 30);
        let v: u32 = kani::any();
        kani::assume(v < 1 << n);
        let mut reference = RefBits::new();
        let mut k = n;
        while k > 0 { k -= 1; reference.put(v >> k & 1); }
        reference.finish();
        let mut w: opj_bio_t = core::mem::zeroed();
        opj_bio_init_enc(&mut w, buf.as_mut_ptr().add(1), cap);
        opj_bio_write(&mut w, v, n);
        let ok = opj_bio_flush(&mut w);
        // success exactly when the whole header fits, and then it is stored
        assert!((ok == 1) == (reference.n <= cap as usize));
        assert!(ok == 0 || ok == 1);
        assert!(opj_bio_numbytes(&mut w) >= 0 && opj_bio_numbytes(&mut w) <= cap as isize);
        assert!(buf[0] == 0xA5);
        let mut i = 0;
        while i < 7 {
            if i as u32 >= cap { assert!(buf[1 + i] == 0xA5); }
            else if ok == 1 && i < reference.n { assert!(buf[1 + i] == reference.out[i]); }
            i += 1;
        }
        kani::cover!(ok == 0 && cap == 3, "does not fit");
        kani::cover!(ok == 1 && cap == 4 && reference.n == 4, "fits exactly");
    }
}

const RW: u32 = if THOROUGH { 16 } else { 11 };
//@ proof unwind=26/40 bounds="any 3 bytes, exposed length 0..=3, two reads of 1..=11 bits (thorough: 16) then alignment"
pub fn bio_read_any() {
    unsafe {
        let mut buf: [u8; 3] = vh::bytes();
        let len = vh::u32_in(0, 3);
        let n0 = vh::u32_in(1, RW);
        let n1 = vh::u32_in(1, RW);
        let heap = opj_malloc(len as usize + 1) as *mut u8; // the byte after the end is not ours
        core::ptr::copy_nonoverlapping(buf.as_ptr(), heap, len as usize);
        let mut r: opj_bio_t = core::mem::zeroed();
        opj_bio_init_dec(&mut r, heap, len);
        let a = opj_bio_read(&mut r, n0);
        let b = opj_bio_read(&mut r, n1);
        // reference: unstuffed bit sequence, zero bits after the end
        let mut bits = [0u32; 40];
        let mut nb = 0;
        let mut consumed = 0usize; // bytes needed for the bits read
        let mut i = 0;
        let mut prev = 0u8;
        while i < if THOROUGH { 5 } else { 4 } {
            let byte = if i < len as usize { buf[i] } else { 0 };
            if (nb as u32) < n0 + n1 { consumed = i + 1; }
            let mut k = if i > 0 && prev == 0xFF { 7 } else { 8 };
            while k > 0 { k -= 1; bits[nb] = (byte >> k) as u32 & 1; nb += 1; }
            prev = byte;
            i += 1;
        }
        let (mut ra, mut rb) = (0u32, 0u32);
        let mut i = 0usize;
        while i < 2 * RW as usize {
            if i < n0 as usize { ra = ra << 1 | bits[i]; }
            else if i < (n0 + n1) as usize { rb = rb << 1 | bits[i]; }
            i += 1;
        }
        assert!(a == ra && b == rb);
        let used = opj_bio_numbytes(&mut r);
        assert!(used >= 0 && used <= len as isize);
        assert!(used as usize == core::cmp::min(consumed, len as usize));
        // a stuffing byte follows exactly when the last byte read is 0xFF
        let last_ff = consumed <= len as usize && buf[consumed - 1] == 0xFF;
        let ok = opj_bio_inalign(&mut r);
        let after = opj_bio_numbytes(&mut r);
        assert!(ok == !(last_ff && used == len as isize) as i32);
        assert!(after == used + (last_ff && used < len as isize) as isize);
        kani::cover!(ok == 0, "header ends in 0xFF at the end of the data");
        kani::cover!(ok == 1 && after == used + 1, "stuffing byte skipped");
        opj_free(heap as *mut core::ffi::c_void);
    }
}
