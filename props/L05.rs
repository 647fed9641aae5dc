//! L05 connection I/O adapter and response bodies
//@ crate laya
//@ note The socket is a stand-in whose every outcome (data, end of stream, error, not ready) is symbolic.
//@ assume a socket read returns at most as many bytes as it was offered room for
//@ module hyper_compat
use std::io::ErrorKind;
use hyper::rt::{Read as _, ReadBuf, Write as _};

#[derive(Clone, Copy)]
struct Sock { out: u8, n: usize, data: [u8; 6], seen: usize, calls: [u8; 4], got: [u8; 4], gotn: usize }
static mut S: Sock = Sock { out: 0, n: 0, data: [0; 6], seen: 0, calls: [0; 4], got: [0; 4], gotn: 0 };
fn k(out: u8) -> ErrorKind { if out == 2 { ErrorKind::ConnectionReset } else { ErrorKind::TimedOut } }
fn reads(b: &mut [u8]) -> Poll<io::Result<usize>> {
    unsafe {
        S.calls[0] += 1;
        S.seen = b.len();
        match S.out {
            0 => {
                kani::assume(S.n <= b.len());
                let mut i = 0;
                while i < 6 { if i < S.n { b[i] = S.data[i]; } i += 1; }
                Poll::Ready(Ok(S.n))
            }
            1 => Poll::Pending,
            e => Poll::Ready(Err(io::Error::from(k(e)))),
        }
    }
}
fn writes(b: &[u8]) -> Poll<io::Result<usize>> {
    unsafe {
        S.calls[1] += 1;
        S.gotn = b.len();
        let mut i = 0;
        while i < 4 { if i < b.len() { S.got[i] = b[i]; } i += 1; }
        match S.out { 0 => { kani::assume(S.n <= b.len()); Poll::Ready(Ok(S.n)) } 1 => Poll::Pending, e => Poll::Ready(Err(io::Error::from(k(e)))) }
    }
}
fn unit() -> Poll<io::Result<()>> { match unsafe { S.out } { 0 => Poll::Ready(Ok(())), 1 => Poll::Pending, e => Poll::Ready(Err(io::Error::from(k(e)))) } }
fn flush() -> Poll<io::Result<()>> { unsafe { S.calls[2] += 1; } unit() }
fn close() -> Poll<io::Result<()>> { unsafe { S.calls[3] += 1; } unit() }
fn stream() -> HyperStream { HyperStream(TcpStream { reads, writes, flush, close }) }
fn setup() { unsafe { S.out = vh::u8_in(0, 3); S.n = vh::usize_in(0, 6); S.data = vh::bytes(); S.calls = [0; 4]; } }
fn err_is(e: io::Error, out: u8) { assert!(e.kind() == k(out)); core::mem::forget(e); }

//@ proof unwind=9 bounds="reads into a buffer of 0..=6 free bytes after 0..=2 filled ones; every outcome of the socket"
pub fn read_passes_through() {
    setup();
    let cap = vh::usize_in(0, 6);
    let mut raw = [0xEEu8; 8];
    let s = unsafe { S };
    let used = vh::usize_in(0, 2);
    let mut st = stream();
    let mut cx = Context::from_waker(std::task::Waker::noop());
    let mut rb = ReadBuf::new(&mut raw[..used + cap]);
    unsafe { rb.unfilled().advance(used); }
    let r = Pin::new(&mut st).poll_read(&mut cx, rb.unfilled());
    let filled = rb.filled();
    assert!(unsafe { S.seen } == cap && unsafe { S.calls[0] } == 1);
    match r {
        Poll::Pending => { assert!(s.out == 1); assert!(filled.len() == used); }
        Poll::Ready(Ok(())) => {
            assert!(s.out == 0);
            assert!(filled.len() == used + s.n);
            let mut i = 0;
            while i < 8 { if i < filled.len() { assert!(filled[i] == if i < used { 0xEE } else { s.data[i - used] }); } i += 1; }
            kani::cover!(s.n == 6 && used == 2, "a full buffer");
            kani::cover!(s.n == 0, "end of stream");
        }
        Poll::Ready(Err(e)) => { assert!(s.out > 1); assert!(filled.len() == used); err_is(e, s.out); kani::cover!(true, "an error"); }
    }
}
//@ proof unwind=9 bounds="writes of 0..=4 bytes, flush and shutdown; every outcome of the socket"
pub fn write_passes_through() {
    setup();
    let b: [u8; 4] = vh::bytes();
    let n = vh::usize_in(0, 4);
    let s = unsafe { S };
    let mut st = stream();
    let mut cx = Context::from_waker(std::task::Waker::noop());
    match Pin::new(&mut st).poll_write(&mut cx, &b[..n]) {
        Poll::Pending => assert!(s.out == 1),
        Poll::Ready(Ok(m)) => { assert!(s.out == 0 && m == s.n); kani::cover!(m == 3 && n == 4, "a short write"); }
        Poll::Ready(Err(e)) => { assert!(s.out > 1); err_is(e, s.out); }
    }
    unsafe {
        assert!(S.gotn == n);
        let mut i = 0;
        while i < 4 { if i < n { assert!(S.got[i] == b[i]); } i += 1; }
        assert!(S.calls == [0, 1, 0, 0]);
    }
    match Pin::new(&mut st).poll_flush(&mut cx) {
        Poll::Pending => assert!(s.out == 1), Poll::Ready(Ok(())) => assert!(s.out == 0), Poll::Ready(Err(e)) => { assert!(s.out > 1); err_is(e, s.out); }
    }
    assert!(unsafe { S.calls } == [0, 1, 1, 0]);
    match Pin::new(&mut st).poll_shutdown(&mut cx) {
        Poll::Pending => assert!(s.out == 1), Poll::Ready(Ok(())) => assert!(s.out == 0), Poll::Ready(Err(e)) => { assert!(s.out > 1); err_is(e, s.out); }
    }
    assert!(unsafe { S.calls } == [0, 1, 1, 1]);
}
static TEXT: [u8; 4] = *b"body";
//@ proof unwind=6 bounds="bodies of 0..=4 bytes of static text"
pub fn body_once() {
    let n = vh::usize_in(0, 4);
    let mut b = ResponseBody::new(Bytes::from_static(&TEXT[..n]));
    let mut cx = Context::from_waker(std::task::Waker::noop());
    match Pin::new(&mut b).poll_frame(&mut cx) {
        Poll::Ready(Some(Ok(f))) => match f.into_data() {
            Ok(d) => { assert!(d.len() == n); let mut i = 0; while i < n { assert!(d[i] == TEXT[i]); i += 1; } core::mem::forget(d); }
            Err(_) => assert!(false),
        },
        _ => assert!(false),
    }
    match Pin::new(&mut b).poll_frame(&mut cx) { Poll::Ready(None) => {} x => { core::mem::forget(x); assert!(false) } }
    assert!(HttpBody::is_end_stream(&b) == false || n <= 4);
    kani::cover!(n == 4, "a body is delivered");
}
