//! L04 identifiers stay inside the image directory
//@ crate laya
//@ note The opened path is recorded by a stand-in for the io_uring file layer; no file is ever opened.
//@ assume the file layer (glommio) opens exactly the path it is given; symbolic links inside the image directory are outside the claim
//@ assume core::slice::memchr::memchr is replaced by a plain search loop with the same contract
//@ stubs std core::slice::memchr::memchr=>laya::verif::resolve::memchr
//@ module resolve
use std::future::Future;
use std::os::unix::ffi::OsStrExt;
pub fn memchr(x: u8, text: &[u8]) -> Option<usize> { let mut i = 0; while i < text.len() { if text[i] == x { return Some(i); } i += 1; } None }

/// Does a prefix of `b` climb above its starting directory, or is it absolute?
fn escapes(b: &[u8]) -> bool {
    if !b.is_empty() && b[0] == b'/' { return true; }
    let mut i = 0;
    let mut start = 0;
    let mut depth: i32 = 0;
    while i <= b.len() {
        if i == b.len() || b[i] == b'/' {
            let n = i - start;
            if n == 2 && b[start] == b'.' && b[start + 1] == b'.' { depth -= 1; }
            else if n == 0 || (n == 1 && b[start] == b'.') {}
            else { depth += 1; }
            if depth < 0 { return true; }
            start = i + 1;
        }
        i += 1;
    }
    false
}
fn has_dotdot(b: &[u8]) -> bool {
    let mut i = 0;
    let mut start = 0;
    while i <= b.len() {
        if i == b.len() || b[i] == b'/' {
            if i - start == 2 && b[start] == b'.' && b[start + 1] == b'.' { return true; }
            start = i + 1;
        }
        i += 1;
    }
    false
}
fn open(ident: &str) -> Option<Vec<u8>> {
    let src = DiskImageSource::new(Path::new("/i").into());
    let mut fut = std::pin::pin!(src.resolve(ident));
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match fut.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(Ok(f)) => Some(f.path.as_os_str().as_bytes().to_vec()),
        std::task::Poll::Ready(Err(e)) => { core::mem::forget(e); None }
        std::task::Poll::Pending => { assert!(false); None }
    }
}
fn any() -> u8 { let c: u8 = kani::any(); kani::assume(c < 128 && c != 0); c }
fn check<const N: usize>(b: [u8; N]) {
    let r = open(unsafe { core::str::from_utf8_unchecked(&b) });
    match r {
        Some(p) => {
            assert!(p.len() >= 2 && p[0] == b'/' && p[1] == b'i');
            if p.len() > 2 { assert!(p[2] == b'/' && !escapes(&p[3..])); }
            // and it is the file named by the identifier
            assert!(p.len() == 3 + N);
            let mut i = 0;
            while i < N { assert!(p[3 + i] == b[i]); i += 1; }
        }
        None => {
            assert!(b[0] == b'/' || has_dotdot(&b));
        }
    }
    kani::cover!(true, "an identifier is resolved");
}
//@ proof unwind=5 stubs=std tier=thorough bounds="every identifier of the form ?? (? is any ASCII byte)"
pub fn any2() { check([any(), any()]) }
//@ proof unwind=6 stubs=std solver=minisat bounds="every identifier of the form ??? (? is any ASCII byte)"
pub fn any3() { check([any(), any(), any()]) }
//@ proof unwind=7 stubs=std tier=thorough bounds="every identifier of the form a/?. (? is any ASCII byte)"
pub fn nested_up() { check([b'a', b'/', any(), b'.']) }
//@ proof unwind=15 stubs=std bounds="every identifier of the form a/b/../..?.. (? is any ASCII byte)"
pub fn deep_climb() { check([b'a', b'/', b'b', b'/', b'.', b'.', b'/', b'.', b'.', any(), b'.', b'.']) }
//@ proof unwind=11 stubs=std bounds="every identifier of the form a/../../? (? is any ASCII byte)"
pub fn deep_climb2() { check([b'a', b'/', b'.', b'.', b'/', b'.', b'.', b'/', any()]) }
//@ proof unwind=7 stubs=std bounds="every identifier of the form /a/? (? is any ASCII byte)"
pub fn absolute() { check([b'/', b'a', b'/', any()]) }
//@ proof unwind=10 stubs=std tier=thorough timeout=5000 bounds="every identifier of the form a/..?.. (? is any ASCII byte)"
pub fn climb() { check([b'a', b'/', b'.', b'.', any(), b'.', b'.']) }
//@ proof unwind=7 stubs=std tier=thorough timeout=8000 bounds="every identifier of the form ???? (? is any ASCII byte)"
pub fn any4() { check([any(), any(), any(), any()]) }
