//! C02 tag trees
//@ crate jp2
//@ note Tag trees of packet headers (src/tgt.rs), ISO 15444-1 B.10.2.
//@ assume single bits pass through the bit I/O unchanged (decided separately, C01); the bit reader and writer are replaced by a bit queue here
//@ assume memory requests succeed (the node table is a fixed array here; allocation failure returns a null tree by inspection of two lines)
//@ stubs bits openjp2::malloc::opj_calloc=>openjp2::tgt::verif::calloc,openjp2::malloc::opj_free=>openjp2::tgt::verif::free,openjp2::malloc::opj_realloc=>openjp2::tgt::verif::realloc,openjp2::bio::opj_bio_putbit=>openjp2::tgt::verif::putbit,openjp2::bio::opj_bio_read=>openjp2::tgt::verif::getbit
//@ module tgt

const NN: usize = 32;
static mut TREE: opj_tgt_tree_t = opj_tgt_tree_t { numleafsh: 0, numleafsv: 0, numnodes: 0, nodes: core::ptr::null_mut(), nodes_size: 0 };
const ZN: opj_tgt_node_t = opj_tgt_node_t { parent: core::ptr::null_mut(), value: 0, low: 0, known: 0 };
static mut NODES: [[opj_tgt_node_t; NN]; 2] = [[ZN; NN]; 2];
static mut CAP: [usize; 2] = [0; 2];
static mut LIVE: [i32; 3] = [0; 3];
pub unsafe fn calloc(n: usize, s: usize) -> *mut core::ffi::c_void {
    if LIVE[2] == 0 { assert!(n == 1 && s == core::mem::size_of::<opj_tgt_tree_t>()); LIVE[2] += 1; &raw mut TREE as *mut _ }
    else { assert!(s == core::mem::size_of::<opj_tgt_node_t>() && n <= NN && LIVE[0] == 0); LIVE[0] = 1; CAP[0] = n * s; &raw mut NODES[0] as *mut _ }
}
pub unsafe fn realloc(p: *mut core::ffi::c_void, n: usize) -> *mut core::ffi::c_void {
    assert!(p == &raw mut NODES[0] as *mut _ && LIVE[0] == 1 && n <= NN * core::mem::size_of::<opj_tgt_node_t>());
    LIVE[0] = 0; LIVE[1] = 1; CAP[1] = n;
    NODES[1] = NODES[0];
    &raw mut NODES[1] as *mut _
}
pub unsafe fn free(p: *mut core::ffi::c_void) {
    let k = if p == &raw mut TREE as *mut _ { 2 } else if p == &raw mut NODES[0] as *mut _ { 0 } else { assert!(p == &raw mut NODES[1] as *mut _); 1 };
    assert!(LIVE[k] == 1); LIVE[k] = 0;
}
const NQ: usize = 49;
static mut Q: [u8; NQ] = [0; NQ];
static mut QW: usize = 0;
static mut QR: usize = 0;
pub unsafe fn putbit(_b: *mut opj_bio_t, v: u32) { assert!(v <= 1); assert!(QW < NQ); Q[QW] = v as u8; QW += 1; }
pub unsafe fn getbit(_b: *mut opj_bio_t, n: u32) -> u32 { assert!(n == 1); assert!(QR < NQ); let v = Q[QR]; QR += 1; v as u32 }
fn levels(mut w: usize, mut h: usize) -> usize { let mut n = w * h; let mut t = n; while n > 1 { w = (w + 1) / 2; h = (h + 1) / 2; n = w * h; t += n; } t }
unsafe fn check_structure(t: *mut opj_tgt_tree_t, w: usize, h: usize) {
    assert!((*t).numleafsh as usize == w && (*t).numleafsv as usize == h);
    let total = levels(w, h);
    assert!((*t).numnodes as usize == total);
    assert!(!cfg!(kani) || total * core::mem::size_of::<opj_tgt_node_t>() <= CAP[LIVE[1] as usize]);
    assert!((*t).nodes_size as usize >= total * core::mem::size_of::<opj_tgt_node_t>());
    // a symbolic node
    let (mut x, mut y) = (vh::usize_in(0, 31), vh::usize_in(0, 31));
    kani::assume(x < w && y < h);
    let (mut lw, mut lh) = (w, h);
    let mut base = 0;
    loop {
        let n = (*t).nodes.add(base + y * lw + x);
        assert!((*n).value == 999 && (*n).low == 0 && (*n).known == 0);
        if lw * lh == 1 { assert!((*n).parent.is_null()); break; }
        let nb = base + lw * lh;
        let nw = (lw + 1) / 2;
        assert!((*n).parent == (*t).nodes.add(nb + (y / 2) * nw + x / 2));
        base = nb; lw = nw; lh = (lh + 1) / 2; x /= 2; y /= 2;
    }
}

unsafe fn create_case(w: usize, h: usize) {
    let mut m = opj_event_mgr::default();
    LIVE = [0; 3];
    let t = opj_tgt_create(w as u32, h as u32, &mut m);
    if w * h == 0 { assert!(t.is_null()); } else {
        assert!(!t.is_null());
        check_structure(t, w, h);
        opj_tgt_destroy(t);
    }
    assert!(!cfg!(kani) || LIVE == [0; 3]);
}
//@ proof unwind=36 stubs=bits bounds="empty trees and trees of 1x1, 1x3, 2x2, 3x2, 3x3, 4x4, 5x2, 1x9 leaves, every node"
pub fn create_structure() {
    unsafe {
        create_case(0, 3); create_case(3, 0); create_case(1, 1); create_case(1, 3); create_case(2, 2); create_case(3, 2);
        create_case(3, 3); create_case(4, 4); create_case(5, 2); create_case(1, 9);
        kani::cover!(true, "reached");
    }
}
unsafe fn init_case(w: usize, h: usize, w2: usize, h2: usize) {
    let mut m = opj_event_mgr::default();
    LIVE = [0; 3];
    let t = opj_tgt_create(w as u32, h as u32, &mut m);
    opj_tgt_setvalue(t, 0, 5);
    (*(*t).nodes).low = 3;
    (*(*t).nodes).known = 1;
    let u = opj_tgt_init(t, w2 as u32, h2 as u32, &mut m);
    if w2 * h2 == 0 { assert!(u.is_null()); } else {
        assert!(u == t);
        check_structure(t, w2, h2);
        opj_tgt_destroy(u);
    }
    assert!(!cfg!(kani) || LIVE == [0; 3]);
}
//@ proof unwind=36 stubs=bits bounds="re-initialising a used tree to the same, a smaller, a larger, a transposed and an empty shape"
pub fn init_structure() {
    unsafe {
        init_case(3, 2, 3, 2); init_case(3, 3, 2, 2); init_case(2, 2, 4, 4); init_case(2, 3, 3, 2); init_case(4, 1, 1, 4); init_case(2, 2, 0, 2);
        assert!(opj_tgt_init(core::ptr::null_mut(), 1, 1, &mut opj_event_mgr::default()).is_null());
        kani::cover!(true, "reached");
    }
}
/// Reference encoder: per level, the minimum of the covered leaves; bits from the root down.
struct RefTree<const N: usize> { val: [i32; N], low: [i32; N], known: [bool; N] }
static mut RB: [u8; NQ] = [0; NQ];
static mut RN: usize = 0;
unsafe fn emit(b: u8) { RB[RN] = b; RN += 1; }
impl<const N: usize> RefTree<N> {
    fn new(w: usize, h: usize, leaf: &[i32]) -> Self {
        let mut r = RefTree { val: [999; N], low: [0; N], known: [false; N] };
        let mut i = 0;
        while i < w * h {
            let (mut x, mut y, mut lw, mut lh, mut base) = (i % w, i / w, w, h, 0);
            loop {
                let k = base + y * lw + x;
                if leaf[i] < r.val[k] { r.val[k] = leaf[i]; }
                if lw * lh == 1 { break; }
                base += lw * lh; lw = (lw + 1) / 2; lh = (lh + 1) / 2; x /= 2; y /= 2;
            }
            i += 1;
        }
        r
    }
    unsafe fn encode(&mut self, w: usize, h: usize, i: usize, t: i32) {
        let (mut x, mut y, mut lw, mut lh, mut base) = (i % w, i / w, w, h, 0);
        let mut path = [0usize; 6];
        let mut d = 0;
        loop {
            path[d] = base + y * lw + x; d += 1;
            if lw * lh == 1 { break; }
            base += lw * lh; lw = (lw + 1) / 2; lh = (lh + 1) / 2; x /= 2; y /= 2;
        }
        let mut low = 0;
        while d > 0 {
            d -= 1;
            let k = path[d];
            if self.low[k] > low { low = self.low[k]; }
            let mut c = 0;
            while c < TMAX {
                if low < t && !(low >= self.val[k]) { emit(0); low += 1; }
                c += 1;
            }
            if low < t && !self.known[k] { emit(1); self.known[k] = true; }
            self.low[k] = low;
        }
    }
}
const TMAX: i32 = if THOROUGH { 4 } else { 3 };
unsafe fn code<const L: usize, const N: usize>(w: usize, h: usize) {
    LIVE = [0; 3];
    let mut m = opj_event_mgr::default();
    let mut b: opj_bio_t = core::mem::zeroed();
    let t = opj_tgt_create(w as u32, h as u32, &mut m);
    let mut v = [0i32; L];
    let mut i = 0;
    while i < L { v[i] = vh::i32_in(0, TMAX); opj_tgt_setvalue(t, i as u32, v[i]); i += 1; }
    let mut r = RefTree::<N>::new(w, h, &v);
    let mut i = 0;
    while i < N { assert!((*(*t).nodes.add(i)).value == r.val[i]); i += 1; }
    let thr = [vh::i32_in(0, TMAX), vh::i32_in(0, TMAX)];
    QW = 0; QR = 0; RN = 0;
    let mut buf = [0u8; 64];
    #[cfg(not(kani))] opj_bio_init_enc(&mut b, buf.as_mut_ptr(), 64);
    let mut p = 0;
    while p < 2 {
        let mut i = 0;
        while i < L {
            opj_tgt_encode(&mut b, t, i as u32, thr[p]);
            r.encode(w, h, i, thr[p]);
            i += 1;
        }
        p += 1;
    }
    if cfg!(kani) {
        assert!(QW == RN);
        let mut i = 0;
        while i < 7 { let mut j = 0; while j < 7 { let k = i * 7 + j; if k < RN { assert!(k < NQ && Q[k] == RB[k]); } j += 1; } i += 1; }
    } else {
        opj_bio_flush(&mut b);
        opj_bio_init_dec(&mut b, buf.as_mut_ptr(), 64);
        let mut i = 0;
        while i < RN { assert!(opj_bio_read(&mut b, 1) as u8 == RB[i]); i += 1; }
        opj_bio_init_dec(&mut b, buf.as_mut_ptr(), 64);
    }
    let d = opj_tgt_init(t, w as u32, h as u32, &mut m);
    let mut p = 0;
    while p < 2 {
        let mut i = 0;
        while i < L {
            let got = opj_tgt_decode(&mut b, d, i as u32, thr[p]);
            assert!(got == (v[i] < thr[p]) as u32);
            if got == 1 { assert!((*(*d).nodes.add(i)).value == v[i]); }
            i += 1;
        }
        p += 1;
    }
    assert!(!cfg!(kani) || QR == QW);
    kani::cover!(thr[0] == 1 && thr[1] == TMAX && v[0] == TMAX - 1, "refined over two layers");
    kani::cover!(v[0] == 0 && v[L - 1] == TMAX && thr[0] == TMAX, "mixed");
}
//@ proof unwind=8 stubs=bits bounds="2x2 leaves, values 0..=3, two layers of thresholds 0..=3 (thorough: 4)"
pub fn code_2x2() { unsafe { code::<4, 5>(2, 2) } }
//@ proof unwind=8 stubs=bits bounds="3x1 leaves, values 0..=3, two layers of thresholds 0..=3 (thorough: 4)"
pub fn code_3x1() { unsafe { code::<3, 6>(3, 1) } }
//@ proof unwind=9 stubs=bits bounds="1x4 leaves" tier=thorough
pub fn code_1x4() { unsafe { code::<4, 7>(1, 4) } }
//@ proof unwind=11 stubs=bits bounds="3x2 leaves" tier=thorough
pub fn code_3x2() { unsafe { code::<6, 9>(3, 2) } }
