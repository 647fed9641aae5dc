//! L03 every request is answered
//@ crate laya
//@ note Request handling from the parsed HTTP request to the status of the response.
//@ assume whether a path decodes to an image request (properties L01, L02) and whether the image file can be opened are arbitrary outcomes
//@ note The dispatch of GET requests for other paths to the image handler is not encoded (dropping hyper's body type inside the suspended future is out of reach); the image handler itself is.
//@ assume core::slice::memchr::memchr is replaced by a plain search loop with the same contract; error texts are outside the claim
//@ stubs std core::slice::memchr::memchr=>laya::verif::http::memchr,<laya::verif::http::ImageRequestError as core::fmt::Display>::fmt=>laya::verif::http::nofmt
//@ stubs dec laya::http::decode_image_request=>laya::verif::http::decoded
//@ stubs noc <std::path::Components<'_> as core::iter::Iterator>::next=>laya::verif::http::no_component,std::path::Path::join=>laya::verif::http::no_join
//@ stubs uri hyper::Uri::path=>laya::verif::http::upath
//@ stubs unw laya::verif::http::pp::cu=>laya::verif::http::no_unwind
//@ module http
pub mod pp { pub use std::panic::catch_unwind as cu; }
pub fn no_unwind<F: FnOnce() -> R + std::panic::UnwindSafe, R>(f: F) -> Result<R, Box<dyn std::any::Any + Send + 'static>> { Ok(f()) }
pub fn no_join<P: AsRef<std::path::Path>>(_: &std::path::Path, _: P) -> std::path::PathBuf { std::path::PathBuf::new() }
pub fn no_component<'a>(_: &mut std::path::Components<'a>) -> Option<std::path::Component<'a>> where 'a: 'a { None }
pub use crate::http::ImageRequestError;
pub use crate::iiif::{Format, Quality, Region, Rotation, Size};
use crate::iiif::Scale;
use hyper::body::Body as _;
pub fn memchr(x: u8, text: &[u8]) -> Option<usize> { let mut i = 0; while i < text.len() { if text[i] == x { return Some(i); } i += 1; } None }
pub fn nofmt(_: &ImageRequestError, _: &mut Formatter<'_>) -> std::fmt::Result { Ok(()) }
static mut GOOD: bool = false;
pub fn decoded(path: &str) -> Result<ImageRequest, ImageRequestError> {
    if unsafe { GOOD } {
        Ok(ImageRequest::new("a", Region::Full, Size::new(Scale::Max), Rotation::new(0.0), Quality::Default, Format::Jpg))
    } else { Err(ImageRequestError::UriMissingElement("region")) }
}
fn run<F: Future<Output = Result<Response<ResponseBody>, Infallible>>>(f: F) -> Response<ResponseBody> {
    let mut fut = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match fut.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(Ok(r)) => r,
        _ => panic!("not answered"),
    }
}
fn source() -> Arc<DiskImageSource> { Arc::new(DiskImageSource::new(std::path::Path::new("/i").into())) }
fn path() -> &'static str {
    #[cfg(kani)]
    return "/p";
    #[cfg(not(kani))]
    return if unsafe { GOOD } { "/a/full/max/0/default.jpg" } else { "/p" };
}
fn answers(good: bool) {
    let fail: bool = kani::any();
    unsafe { GOOD = good; glommio::io::FAIL = fail; }
    let src = source();
    let keep = src.clone();
    let r = run(image_request(path(), src));
    let want = if good && !fail { 200 } else { 400 };
    assert!(r.status().as_u16() == want);
    kani::cover!(!fail, "answered");
    core::mem::forget((r, keep));
}
//@ proof unwind=3 stubs=std+dec+noc bounds="every outcome of opening the file"
pub fn good_request() { answers(true) }
//@ proof unwind=5 stubs=std+dec bounds="every outcome of opening the file"
pub fn bad_parameters() { answers(false) }
//@ proof unwind=12 bounds="info.json"
pub fn info_status() {
    let x: bool = kani::any();
    match info_request("/a/info.json") { Ok(r) => { assert!(r.status().as_u16() == 501); core::mem::forget(r); } Err(_) => {} }
    kani::cover!(x, "ok");
}

fn incoming() -> Incoming {
    // hyper offers no public constructor: its empty body is found by its representation, and checked
    let mut m = std::mem::MaybeUninit::<Incoming>::uninit();
    unsafe {
        std::ptr::write_bytes(m.as_mut_ptr() as *mut u8, 0, std::mem::size_of::<Incoming>());
        let b = m.assume_init();
        if !b.is_end_stream() { eprintln!("not empty"); std::process::exit(78); }
        b
    }
}
static mut WHICH: u8 = 0;
fn wpath() -> &'static str { match unsafe { WHICH } { 0 => path(), 1 => "/a/info.json", _ => "*" } }
pub fn upath(_: &hyper::Uri) -> &str { wpath() }
fn dispatch(which: u8, method: Option<Method>) {
    let fail: bool = kani::any();
    unsafe { GOOD = true; glommio::io::FAIL = fail; WHICH = which; }
    let get = method.is_none();
    let mut req = Request::new(incoming());
    #[cfg(not(kani))]
    { *req.uri_mut() = wpath().parse().unwrap(); }
    if let Some(m) = method { *req.method_mut() = m; }
    let src = source();
    let keep = src.clone();
    let r = run(handle_request(req, src));
    let want = if get && which == 1 { 501 } else { 404 };
    assert!(r.status().as_u16() == want);
    kani::cover!(!fail, "answered");
    core::mem::forget((r, keep));
}
//@ proof unwind=11 stubs=std+dec+noc+unw+uri bounds="POST of the path of an image request"
pub fn dispatch_post() { dispatch(0, Some(Method::POST)) }
//@ proof unwind=11 stubs=std+dec+noc+unw+uri bounds="DELETE of the path of an image request"
pub fn dispatch_delete() { dispatch(0, Some(Method::DELETE)) }
//@ proof unwind=11 stubs=std+dec+noc+unw+uri bounds="GET of an info.json path"
pub fn dispatch_info() { dispatch(1, None) }
//@ proof unwind=11 stubs=std+dec+noc+unw+uri bounds="POST, PUT, DELETE, OPTIONS or PATCH of an info.json path"
pub fn dispatch_info_other_methods() {
    dispatch(1, Some(match vh::u8_in(0, 4) { 0 => Method::POST, 1 => Method::PUT, 2 => Method::DELETE, 3 => Method::OPTIONS, _ => Method::PATCH }))
}
//@ proof unwind=11 stubs=std+dec+noc+unw+uri bounds="GET of *"
pub fn dispatch_star() { dispatch(2, None) }
