//! Environment stub of the glommio API that laya uses (kani only).
use std::io as sio; use std::fmt; use std::future::Future;
#[derive(Debug)]
pub enum GlommioError<T> { IoError(sio::Error), Other(T) }
pub type Result<T, V> = std::result::Result<T, GlommioError<V>>;
impl<T: fmt::Debug> fmt::Display for GlommioError<T> { fn fmt(&self, f:&mut fmt::Formatter<'_>)->fmt::Result{ f.write_str("glommio") } }
impl<T: fmt::Debug> std::error::Error for GlommioError<T> {}
impl<T> From<GlommioError<T>> for sio::Error { fn from(e: GlommioError<T>)->sio::Error { match e { GlommioError::IoError(e)=>e, _=>sio::Error::from(sio::ErrorKind::Other)} } }
#[macro_export]
macro_rules! enclose {
    ( ($( $x:ident ),*) $y:expr ) => {{ $(let $x = $x.clone();)* $y }};
}
pub struct Task<T>(std::marker::PhantomData<T>);
impl<T> Task<T> { pub fn detach(self) {} }
pub fn spawn_local<T>(_f: impl Future<Output=T>+'static)->Task<T> where T:'static { Task(std::marker::PhantomData) }
pub mod io_ {}
pub mod net {
    use std::net::*; use std::pin::Pin; use std::task::*; use futures_lite::{AsyncRead,AsyncWrite};
    pub struct TcpStream { pub reads: fn(&mut [u8])->Poll<std::io::Result<usize>>, pub writes: fn(&[u8])->Poll<std::io::Result<usize>>, pub flush: fn()->Poll<std::io::Result<()>>, pub close: fn()->Poll<std::io::Result<()>> }
    impl TcpStream { pub fn local_addr(&self)->super::Result<SocketAddr,()> { unimplemented!() } }
    impl AsyncRead for TcpStream { fn poll_read(self: Pin<&mut Self>, _:&mut Context<'_>, b:&mut [u8])->Poll<std::io::Result<usize>> { (self.reads)(b) } }
    impl AsyncWrite for TcpStream {
        fn poll_write(self: Pin<&mut Self>, _:&mut Context<'_>, b:&[u8])->Poll<std::io::Result<usize>> { (self.writes)(b) }
        fn poll_flush(self: Pin<&mut Self>, _:&mut Context<'_>)->Poll<std::io::Result<()>> { (self.flush)() }
        fn poll_close(self: Pin<&mut Self>, _:&mut Context<'_>)->Poll<std::io::Result<()>> { (self.close)() }
    }
    pub struct TcpListener;
    impl TcpListener { pub fn bind<A: ToSocketAddrs>(_:A)->super::Result<TcpListener,()> { unimplemented!() }
      pub async fn accept(&self)->super::Result<TcpStream,()> { unimplemented!() } }
}
pub mod sync { pub struct Semaphore; pub struct Permit; impl Semaphore { pub fn new(_:u64)->Self{Semaphore} pub async fn acquire_permit(&self,_:u64)->super::Result<Permit,()>{Ok(Permit)} } }
pub mod io {
    use std::path::{Path,PathBuf};
    #[derive(Debug)]
    pub struct ImmutableFile { pub path: PathBuf }
    pub struct ImmutableFileBuilder { path: PathBuf }
    impl ImmutableFileBuilder { pub fn new<P: AsRef<Path>>(p:P)->Self { Self{path:p.as_ref().to_path_buf()} }
      pub async fn build_existing(self)->super::Result<ImmutableFile,()> { if unsafe { FAIL } { return Err(super::GlommioError::IoError(std::io::Error::from(std::io::ErrorKind::NotFound))) } Ok(ImmutableFile{path:self.path}) }
    }
    pub static mut FAIL: bool = false;
}
pub struct CpuSet; impl CpuSet { pub fn online()->Result<CpuSet,()> { Ok(CpuSet) } }
pub enum PoolPlacement { MaxSpread(usize, Option<CpuSet>) }
pub struct LocalExecutorPoolBuilder; 
impl LocalExecutorPoolBuilder { pub fn new(_:PoolPlacement)->Self{Self}
  pub fn on_all_shards<G,F,T>(self,_:G)->Result<PoolThreadHandles<T>,()> where G: FnOnce()->F + Clone+Send+'static, F: Future<Output=T>+'static, T:Send+'static { unimplemented!() } }
pub struct PoolThreadHandles<T>(std::marker::PhantomData<T>);
impl<T> PoolThreadHandles<T> { pub fn join_all(self)->Vec<Result<T,()>> { unimplemented!() } }
