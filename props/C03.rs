//! C03 MQ arithmetic coder
//@ crate jp2
//@ note The MQ coder (src/mqc.rs) against the flow charts and Table C.2 of ISO 15444-1 Annex C.
//@ assume encoder registers satisfy 0x8000 <= A < 0x10000 and C + A <= 2^(28-CT) before a step, decoder registers 0x8000 <= A < 0x10000, CT <= 8, the bits of C not yet supplied zero (the invariants each step is shown to preserve)
//@ module mqc

#[rustfmt::skip]
const QE: [u16; 47] = [0x5601,0x3401,0x1801,0x0AC1,0x0521,0x0221,0x5601,0x5401,0x4801,0x3801,0x3001,0x2401,0x1C01,0x1601,0x5601,0x5401,0x5101,0x4801,0x3801,0x3401,0x3001,0x2801,0x2401,0x2201,0x1C01,0x1801,0x1601,0x1401,0x1201,0x1101,0x0AC1,0x09C1,0x08A1,0x0521,0x0441,0x02A1,0x0221,0x0141,0x0111,0x0085,0x0049,0x0025,0x0015,0x0009,0x0005,0x0001,0x5601];
#[rustfmt::skip]
const NM: [u8; 47] = [1,2,3,4,5,38,7,8,9,10,11,12,13,29,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,45,46];
#[rustfmt::skip]
const NL: [u8; 47] = [1,6,9,12,29,33,6,14,14,14,17,18,20,21,14,14,15,16,17,18,19,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,46];
fn sw(i: usize) -> u8 { (i == 0 || i == 6 || i == 14) as u8 }
fn is_state(s: &opj_mqc_state_t, i: usize, mps: u8) -> bool {
    s.qeval == QE[i] as u32 && s.mps == mps && s.nmps == 2 * NM[i] + mps && s.nlps == 2 * NL[i] + (mps ^ sw(i))
}
//@ proof unwind=22 bounds="all 47 states and both MPS senses; all 19 contexts"
pub fn table_c2() {
    let i = vh::usize_in(0, 46);
    let m = vh::u8_in(0, 1);
    let c = vh::u8_in(0, 18);
    let mut q = opj_mqc_t::default();
    opj_mqc_resetstates(&mut q);
    let o = vh::u8_in(0, 18);
    opj_mqc_setstate(&mut q, c, m as u32, i as i32);
    assert!(is_state(q.ctxs[c as usize], i, m));
    if o != c { assert!(is_state(q.ctxs[o as usize], 0, 0)); }
    opj_mqc_setcurctx(&mut q, c);
    assert!(is_state(q.curctx(), i, m));
    opj_mqc_reset_enc(&mut q);
    let want = if o == T1_CTXNO_UNI as u8 { 46 } else if o == T1_CTXNO_AGG as u8 { 3 } else if o == T1_CTXNO_ZC as u8 { 4 } else { 0 };
    assert!(is_state(q.ctxs[o as usize], want, 0));
    assert!(T1_CTXNO_UNI as u8 == 18 && T1_CTXNO_AGG as u8 == 17 && T1_CTXNO_ZC as u8 == 0);
    kani::cover!(i == 45 && m == 1, "last adaptive state");
}
/// Reference coder (ISO 15444-1 C.2/C.3) over an array of bytes.
#[derive(Clone, Copy)]
struct Ref { a: u32, c: u32, ct: u32, i: usize, m: u8, b: [u8; 8], bp: usize }
impl Ref {
    fn byteout(&mut self) {
        if self.b[self.bp] != 0xFF && self.c >= 0x8000000 {
            self.b[self.bp] += 1;
            if self.b[self.bp] == 0xFF { self.c &= 0x7FFFFFF; }
            else { self.bp += 1; self.b[self.bp] = (self.c >> 19) as u8; self.c &= 0x7FFFF; self.ct = 8; return; }
        }
        self.bp += 1;
        if self.b[self.bp - 1] == 0xFF { self.b[self.bp] = (self.c >> 20) as u8; self.c &= 0xFFFFF; self.ct = 7; }
        else { self.b[self.bp] = (self.c >> 19) as u8; self.c &= 0x7FFFF; self.ct = 8; }
    }
    fn renorm_enc(&mut self) {
        let mut k = 0;
        while k < 16 {
            self.a <<= 1; self.c <<= 1; self.ct -= 1;
            if self.ct == 0 { self.byteout(); }
            if self.a & 0x8000 != 0 { break; }
            k += 1;
        }
    }
    fn encode(&mut self, d: u8) {
        let q = QE[self.i] as u32;
        self.a -= q;
        if d == self.m {
            if self.a & 0x8000 == 0 {
                if self.a < q { self.a = q; } else { self.c += q; }
                self.i = NM[self.i] as usize;
                self.renorm_enc();
            } else { self.c += q; }
        } else {
            if self.a < q { self.c += q; } else { self.a = q; }
            self.m ^= sw(self.i);
            self.i = NL[self.i] as usize;
            self.renorm_enc();
        }
    }
    fn flush(&mut self) {
        let t = self.c + self.a;
        self.c |= 0xFFFF;
        if self.c >= t { self.c -= 0x8000; }
        self.c <<= self.ct; self.byteout();
        self.c <<= self.ct; self.byteout();
        if self.b[self.bp] != 0xFF { self.bp += 1; }
    }
    fn bytein(&mut self) {
        if self.b[self.bp] == 0xFF {
            if self.b[self.bp + 1] > 0x8F { self.c += 0xFF00; self.ct = 8; }
            else { self.bp += 1; self.c = self.c.wrapping_add((self.b[self.bp] as u32) << 9); self.ct = 7; }
        } else { self.bp += 1; self.c += (self.b[self.bp] as u32) << 8; self.ct = 8; }
    }
    fn decode(&mut self) -> u8 {
        let q = QE[self.i] as u32;
        self.a -= q;
        let d;
        if self.c >> 16 < q {
            if self.a < q { d = self.m; self.i = NM[self.i] as usize; }
            else { d = 1 - self.m; self.m ^= sw(self.i); self.i = NL[self.i] as usize; }
            self.a = q;
        } else {
            self.c -= q << 16;
            if self.a & 0x8000 != 0 { return self.m; }
            if self.a < q { d = 1 - self.m; self.m ^= sw(self.i); self.i = NL[self.i] as usize; }
            else { d = self.m; self.i = NM[self.i] as usize; }
        }
        let mut k = 0;
        while k < 16 {
            if self.ct == 0 { self.bytein(); }
            self.a <<= 1; self.c <<= 1; self.ct -= 1;
            if self.a & 0x8000 != 0 { break; }
            k += 1;
        }
        d
    }
}
fn any_ref(enc: bool) -> Ref {
    let r = Ref { a: vh::u32_in(0x8000, 0xFFFF), c: kani::any(), ct: kani::any(), i: vh::usize_in(0, 46), m: vh::u8_in(0, 1), b: vh::bytes(), bp: 1 };
    if enc {
        kani::assume(r.ct >= 1 && r.ct <= 12);
        kani::assume(r.c < 1 << 28 && r.c + r.a <= 1 << (28 - r.ct));
        // no byte after 0xFF may be written with its top bit set: a carry cannot enter a byte after 0xFF
        kani::assume(r.b[1] != 0xFF || (r.ct <= 8 && r.c + r.a <= 9 << (24 - r.ct)));
    } else {
        kani::assume(r.ct <= 8 && r.c >> 16 <= r.a);
        // bits below the ones already supplied are zero
        kani::assume(r.c & ((1 << (16 - r.ct)) - 1) == 0);
    }
    r
}
fn load(r: &Ref, buf: &mut [u8; 8]) -> opj_mqc_t {
    *buf = r.b;
    let mut q = opj_mqc_t::default();
    q.a = r.a; q.c = r.c; q.ct = r.ct;
    unsafe { q.bp = buf.as_mut_ptr().add(r.bp); q.start = buf.as_mut_ptr().add(1); q.end = buf.as_mut_ptr().add(6); }
    opj_mqc_setcurctx(&mut q, 5);
    opj_mqc_setstate(&mut q, 5, r.m as u32, r.i as i32);
    q
}
fn same(q: &opj_mqc_t, r: &Ref, buf: &[u8; 8]) {
    assert!(q.a == r.a && q.c == r.c && q.ct == r.ct);
    assert!(unsafe { q.bp.offset_from(buf.as_ptr()) } == r.bp as isize);
    let mut k = 0;
    while k < 8 { assert!(buf[k] == r.b[k]); k += 1; }
}
//@ proof unwind=18 bounds="one decision coded from every valid register and context state and preceding byte; registers, bytes and next state compared, invariants preserved"
pub fn encode_step() {
    let mut r = any_ref(true);
    let mut buf = [0u8; 8];
    let mut q = load(&r, &mut buf);
    let d = vh::u8_in(0, 1);
    opj_mqc_encode(&mut q, d as u32);
    let ct0 = r.ct;
    r.encode(d);
    same(&q, &r, &buf);
    assert!(is_state(q.ctxs[5], r.i, r.m) && q.curctx == 5);
    assert!(r.a >= 0x8000 && r.a <= 0xFFFF && r.ct >= 1 && r.ct <= 12 && r.c + r.a <= 1 << (28 - r.ct));
    assert!(r.b[r.bp] != 0xFF || (r.ct <= 8 && r.c + r.a <= 9 << (24 - r.ct)));
    let mut k = 2;
    while k < 6 { if k <= r.bp && buf[k - 1] == 0xFF { assert!(buf[k] <= 0x8F); } k += 1; }
    kani::cover!(r.bp == 3, "two bytes out");
    kani::cover!(r.bp == 2 && r.b[1] == 0xFF && r.ct == 7, "carry into 0xFE");
    kani::cover!(ct0 == 12 && d != r.m, "first decision");
}
//@ proof unwind=18 bounds="flush from every valid register state and preceding byte"
pub fn flush_step() {
    let mut r = any_ref(true);
    let mut buf = [0u8; 8];
    let mut q = load(&r, &mut buf);
    opj_mqc_flush(&mut q);
    r.flush();
    same(&q, &r, &buf);
    // the flushed segment never ends in 0xFF
    assert!(buf[r.bp - 1] != 0xFF);
    kani::cover!(r.bp == 4, "two bytes");
    kani::cover!(r.bp == 3, "one byte and a dropped 0xFF");
}
//@ proof unwind=18 bounds="one decision decoded from every valid register and context state, any following bytes"
pub fn decode_step() {
    let mut r = any_ref(false);
    let mut buf = [0u8; 8];
    let mut q = load(&r, &mut buf);
    let mut d = 9u32;
    opj_mqc_decode_macro(&mut d, &mut q);
    let e = r.decode();
    assert!(d == e as u32);
    same(&q, &r, &buf);
    assert!(is_state(q.ctxs[5], r.i, r.m) && q.curctx == 5);
    assert!(r.a >= 0x8000 && r.a <= 0xFFFF && r.ct <= 8 && r.c & ((1 << (16 - r.ct)) - 1) == 0);
    kani::cover!(q.end_of_byte_stream_counter == 1 && r.bp == 1, "end of data");
    kani::cover!(r.bp == 3, "two bytes in");
}
//@ proof unwind=10 bounds="segments of 0..=3 arbitrary bytes followed by two bytes belonging to someone else"
pub fn init_dec_edges() {
    let o: [u8; 6] = vh::bytes();
    let mut buf = o;
    let n = vh::usize_in(0, 3);
    let mut q = opj_mqc_t::default();
    opj_mqc_init_dec(&mut q, buf.as_mut_ptr(), n as u32, OPJ_COMMON_CBLK_DATA_EXTRA as u32);
    // Annex C.3.5 with the data extended by 0xFF bytes
    let mut b = [0xFFu8; 8];
    let mut k = 0;
    while k < 3 { if k < n { b[k] = o[k]; } k += 1; }
    let mut r = Ref { a: 0x8000, c: (b[0] as u32) << 16, ct: 0, i: 0, m: 0, b, bp: 0 };
    r.bytein();
    r.c <<= 7; r.ct -= 7;
    assert!(q.a == r.a && q.c == r.c && q.ct == r.ct);
    assert!(unsafe { q.bp.offset_from(buf.as_ptr()) } == r.bp as isize);
    opq_mqc_finish_dec(&mut q);
    let mut k = 0;
    while k < 6 { assert!(buf[k] == o[k]); k += 1; }
    opj_mqc_raw_init_dec(&mut q, buf.as_mut_ptr(), n as u32, OPJ_COMMON_CBLK_DATA_EXTRA as u32);
    let mut cur = (0u32, 0u32, 0usize);
    let mut k = 0;
    while k < 9 {
        // raw bits with stuffing; past the end ones (0xFF then never beyond)
        if cur.1 == 0 {
            let nb = if cur.2 < n { o[cur.2] as u32 } else { 0xFF };
            if cur.0 == 0xFF { if nb > 0x8F { cur.0 = 0xFF; cur.1 = 8; } else { cur.0 = nb; cur.1 = 7; cur.2 += 1; } }
            else { cur.0 = nb; cur.1 = 8; cur.2 += 1; }
        }
        cur.1 -= 1;
        assert!(opj_mqc_raw_decode(&mut q) == cur.0 >> cur.1 & 1);
        k += 1;
    }
    opq_mqc_finish_dec(&mut q);
    let mut k = 0;
    while k < 6 { assert!(buf[k] == o[k]); k += 1; }
    kani::cover!(n == 0, "empty segment");
    kani::cover!(n == 1 && o[0] == 0xFF, "ends in 0xFF");
}
const K: usize = if THOROUGH { 4 } else { 2 };
//@ proof unwind=22 tier=thorough bounds="4 decisions in two symbolic contexts with symbolic initial states, coded, flushed and decoded"
pub fn roundtrip() {
    let mut buf = [0u8; 16];
    let mut q = opj_mqc_t::default();
    let (i0, i1) = (vh::usize_in(0, 46), vh::usize_in(0, 46));
    let mut d = [0u8; K];
    let mut c = [0u8; K];
    let mut k = 0;
    while k < K { d[k] = vh::u8_in(0, 1); c[k] = vh::u8_in(3, 4); k += 1; }
    opj_mqc_setstate(&mut q, 3, 0, i0 as i32);
    opj_mqc_setstate(&mut q, 4, 1, i1 as i32);
    opj_mqc_init_enc(&mut q, unsafe { buf.as_mut_ptr().add(1) });
    let mut k = 0;
    while k < K { opj_mqc_setcurctx(&mut q, c[k]); opj_mqc_encode(&mut q, d[k] as u32); k += 1; }
    opj_mqc_flush(&mut q);
    let n = opj_mqc_numbytes(&mut q);
    assert!(n <= 10);
    let mut e = opj_mqc_t::default();
    opj_mqc_setstate(&mut e, 3, 0, i0 as i32);
    opj_mqc_setstate(&mut e, 4, 1, i1 as i32);
    opj_mqc_init_dec(&mut e, unsafe { buf.as_mut_ptr().add(1) }, n, OPJ_COMMON_CBLK_DATA_EXTRA as u32);
    let mut k = 0;
    while k < K {
        opj_mqc_setcurctx(&mut e, c[k]);
        let mut v = 9;
        opj_mqc_decode_macro(&mut v, &mut e);
        assert!(v == d[k] as u32);
        k += 1;
    }
    kani::cover!(n >= 3, "long");
}
const RB: usize = if THOROUGH { 18 } else { 10 };
//@ proof unwind=20 bounds="0..=10 raw (bypass) bits after a terminated segment, with and without predictable termination (thorough: 18)"
pub fn bypass_roundtrip() {
    let mut buf = [0u8; 10];
    buf[1] = kani::any();
    kani::assume(buf[1] != 0xFF);
    let mut q = opj_mqc_t::default();
    let n = vh::usize_in(0, RB);
    let erterm: bool = kani::any();
    let mut d = [0u8; RB];
    let mut k = 0;
    while k < RB { d[k] = vh::u8_in(0, 1); k += 1; }
    unsafe { q.start = buf.as_mut_ptr().add(1); q.bp = buf.as_mut_ptr().add(2); }
    opj_mqc_bypass_init_enc(&mut q);
    let mut k = 0;
    while k < RB { if k < n { opj_mqc_bypass_enc(&mut q, d[k] as u32); } k += 1; }
    let extra = opj_mqc_bypass_get_extra_bytes(&mut q, erterm as i32);
    let before = opj_mqc_numbytes(&mut q);
    if n > 0 { opj_mqc_bypass_flush_enc(&mut q, erterm as i32); }
    let after = opj_mqc_numbytes(&mut q);
    if n > 0 { assert!(after <= before + extra && (extra == 0 || after == before + 1)); }
    let len = after - 1;
    assert!(len as usize <= RB / 8 + 2);
    let mut e = opj_mqc_t::default();
    opj_mqc_raw_init_dec(&mut e, unsafe { buf.as_mut_ptr().add(2) }, len, OPJ_COMMON_CBLK_DATA_EXTRA as u32);
    let mut k = 0;
    while k < RB { if k < n { assert!(opj_mqc_raw_decode(&mut e) == d[k] as u32); } k += 1; }
    kani::cover!(n == RB && buf[2] == 0xFF, "stuffed");
    kani::cover!(n == 8 && !erterm, "whole byte");
}
//@ proof unwind=22 bounds="two terminated segments of 1 decision (thorough: 2) each: flush or error-resilient termination, restart, decode both"
pub fn termination() {
    const K: usize = if THOROUGH { 2 } else { 1 };
    let mut buf = [0u8; 20];
    let mut q = opj_mqc_t::default();
    let er: bool = kani::any();
    let i0 = vh::usize_in(0, 46);
    let mut d = [[0u8; K]; 2];
    let mut k = 0;
    while k < K { d[0][k] = vh::u8_in(0, 1); d[1][k] = vh::u8_in(0, 1); k += 1; }
    opj_mqc_init_enc(&mut q, unsafe { buf.as_mut_ptr().add(1) });
    let mut len = [0u32; 2];
    let mut s = 0;
    while s < 2 {
        opj_mqc_setstate(&mut q, 0, 0, i0 as i32);
        opj_mqc_setcurctx(&mut q, 0);
        let mut k = 0;
        while k < K { opj_mqc_encode(&mut q, d[s][k] as u32); k += 1; }
        if er { opj_mqc_erterm_enc(&mut q); } else { opj_mqc_flush(&mut q); }
        len[s] = opj_mqc_numbytes(&mut q);
        if s == 0 { opj_mqc_restart_init_enc(&mut q); }
        s += 1;
    }
    assert!(len[0] <= len[1]);
    let mut s = 0;
    while s < 2 {
        let a = if s == 0 { 0 } else { len[0] };
        let mut e = opj_mqc_t::default();
        opj_mqc_setstate(&mut e, 0, 0, i0 as i32);
        opj_mqc_init_dec(&mut e, unsafe { buf.as_mut_ptr().add(1 + a as usize) }, len[s] - a, OPJ_COMMON_CBLK_DATA_EXTRA as u32);
        opj_mqc_setcurctx(&mut e, 0);
        let mut k = 0;
        while k < K { let mut v = 9; opj_mqc_decode_macro(&mut v, &mut e); assert!(v == d[s][k] as u32); k += 1; }
        opq_mqc_finish_dec(&mut e);
        s += 1;
    }
    kani::cover!(er, "error resilient");
}
