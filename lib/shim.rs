// Native stand-in for the `kani` API used by the harness bodies: values come from the
// counterexample being replayed.
#[cfg(not(kani))]
pub mod kani {
    use std::cell::RefCell;
    std::thread_local! { static VALS: RefCell<std::collections::VecDeque<Vec<u8>>> = RefCell::new(Default::default()); }
    pub fn set(v: Vec<Vec<u8>>) { VALS.with(|c| *c.borrow_mut() = v.into()); }
    pub trait Prim: Sized { fn from_raw(b: &[u8]) -> Self; }
    macro_rules! prim { ($($t:ty),*) => { $(impl Prim for $t { fn from_raw(b: &[u8]) -> Self {
        let mut a = [0u8; core::mem::size_of::<$t>()]; let n = a.len().min(b.len()); a[..n].copy_from_slice(&b[..n]); <$t>::from_le_bytes(a) } })* } }
    prim!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    impl Prim for bool { fn from_raw(b: &[u8]) -> Self { b.first().map_or(false, |x| *x & 1 != 0) } }
    pub fn any<T: Prim>() -> T {
        let v = VALS.with(|c| c.borrow_mut().pop_front()).unwrap_or_default();
        T::from_raw(&v)
    }
    pub fn assume(c: bool) { if !c { std::eprintln!("REPLAY: assumption not met"); std::process::exit(77); } }
    macro_rules! vcover { ($($t:tt)*) => { {} } }
    pub(crate) use vcover as cover;
}

/// Helpers shared by harness bodies.
pub mod vh {
    #[cfg(not(kani))]
    use super::kani;
    pub fn u8_in(lo: u8, hi: u8) -> u8 { let x: u8 = kani::any(); kani::assume(x >= lo && x <= hi); x }
    pub fn u32_in(lo: u32, hi: u32) -> u32 { let x: u32 = kani::any(); kani::assume(x >= lo && x <= hi); x }
    pub fn i32_in(lo: i32, hi: i32) -> i32 { let x: i32 = kani::any(); kani::assume(x >= lo && x <= hi); x }
    pub fn usize_in(lo: usize, hi: usize) -> usize { let x: usize = kani::any(); kani::assume(x >= lo && x <= hi); x }
    pub fn bytes<const N: usize>() -> [u8; N] { let mut a = [0u8; N]; let mut i = 0; while i < N { a[i] = kani::any(); i += 1; } a }
}

// Heap stand-ins used as stubs: same contract as the C allocator, with a null result as one of
// the outcomes only where a harness asks for it.
#[cfg(kani)]
pub mod valloc {
    extern "C" {
        fn malloc(n: usize) -> *mut core::ffi::c_void;
        fn calloc(n: usize, m: usize) -> *mut core::ffi::c_void;
        fn memcpy(d: *mut core::ffi::c_void, s: *const core::ffi::c_void, n: usize) -> *mut core::ffi::c_void;
        fn free(p: *mut core::ffi::c_void);
    }
    pub unsafe fn aligned_alloc(_alignment: usize, size: usize) -> *mut core::ffi::c_void {
        if size == 0 { core::ptr::null_mut() } else { malloc(size) }
    }
}
