//! In-memory sockets with explicit buffering, half-close and error injection.
pub use tokio::net::{TcpListener, ToSocketAddrs};
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub struct Pipe { buf: VecDeque<u8>, cap: usize, wclosed: bool, rclosed: bool, err: Option<io::ErrorKind>, rw: Option<Waker>, ww: Option<Waker>, pub total: u64, chunk: usize }
pub type P = Arc<Mutex<Pipe>>;
fn pipe(cap: usize) -> P { Arc::new(Mutex::new(Pipe { buf: VecDeque::new(), cap, wclosed: false, rclosed: false, err: None, rw: None, ww: None, total: 0, chunk: usize::MAX })) }
fn wk(w: Option<Waker>) { if let Some(w) = w { w.wake() } }

#[derive(Clone)]
pub struct RHalf(P);
#[derive(Clone)]
pub struct WHalf(P);
impl RHalf {
    fn poll_read(&self, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        mcrt::sched_point("net.read");
        let mut p = self.0.lock().unwrap();
        if !p.buf.is_empty() {
            let n = out.remaining().min(p.buf.len()).min(p.chunk);
            let v: Vec<u8> = p.buf.drain(..n).collect();
            out.put_slice(&v);
            let w = p.ww.take();
            drop(p);
            wk(w);
            return Poll::Ready(Ok(()));
        }
        if let Some(e) = p.err { return Poll::Ready(Err(e.into())); }
        if p.wclosed { return Poll::Ready(Ok(())); }
        p.rw = Some(cx.waker().clone());
        Poll::Pending
    }
    fn close(&self) { let mut p = self.0.lock().unwrap(); p.rclosed = true; let w = p.ww.take(); drop(p); wk(w); }
}
impl WHalf {
    fn poll_write(&self, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        mcrt::sched_point("net.write");
        let mut p = self.0.lock().unwrap();
        if let Some(e) = p.err { return Poll::Ready(Err(e.into())); }
        if p.rclosed || p.wclosed { return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())); }
        let room = p.cap.saturating_sub(p.buf.len());
        if room == 0 { p.ww = Some(cx.waker().clone()); return Poll::Pending; }
        let n = room.min(b.len());
        p.buf.extend(&b[..n]);
        p.total += n as u64;
        let w = p.rw.take();
        drop(p);
        wk(w);
        Poll::Ready(Ok(n))
    }
    fn close(&self) { let mut p = self.0.lock().unwrap(); p.wclosed = true; let w = p.rw.take(); drop(p); wk(w); }
    fn fail(&self, e: io::ErrorKind) { let mut p = self.0.lock().unwrap(); p.err = Some(e); let (a, b) = (p.rw.take(), p.ww.take()); drop(p); wk(a); wk(b); }
}

pub struct TcpStream { r: RHalf, w: WHalf, split: bool }
impl std::fmt::Debug for TcpStream { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TcpStream") } }
impl TcpStream {
    /// connected pair (server side, client side)
    pub fn mc_pair(cap: usize) -> (TcpStream, TcpStream) {
        let (a, b) = (pipe(cap), pipe(cap));
        (TcpStream { r: RHalf(a.clone()), w: WHalf(b.clone()), split: false }, TcpStream { r: RHalf(b), w: WHalf(a), split: false })
    }
    pub fn into_split(mut self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        self.split = true;
        (tcp::OwnedReadHalf { r: self.r.clone(), w: self.w.clone() }, tcp::OwnedWriteHalf { w: self.w.clone() })
    }
    pub fn set_nodelay(&self, _b: bool) -> io::Result<()> { Ok(()) }
    pub fn peer_addr(&self) -> io::Result<std::net::SocketAddr> { Ok(([127, 0, 0, 1], 1).into()) }
    pub fn local_addr(&self) -> io::Result<std::net::SocketAddr> { Ok(([127, 0, 0, 1], 2).into()) }
    /// both directions fail with `e` from now on (after buffered bytes are read)
    pub fn mc_fail(&self, e: io::ErrorKind) { self.w.fail(e); WHalf(self.r.0.clone()).fail(e); }
    /// maximum bytes handed to the peer per read
    pub fn mc_chunk(&self, n: usize) { self.w.0.lock().unwrap().chunk = n; }
    pub fn mc_close_write(&self) { self.w.close() }
    /// true once the peer dropped its write side and everything was read
    pub fn mc_peer_closed(&self) -> bool { let p = self.r.0.lock().unwrap(); p.wclosed }
    /// take whatever has arrived
    pub fn mc_take(&self) -> Vec<u8> { let mut p = self.r.0.lock().unwrap(); let v: Vec<u8> = p.buf.drain(..).collect(); let w = p.ww.take(); drop(p); wk(w); v }
    /// push bytes regardless of capacity
    pub fn mc_put(&self, b: &[u8]) { let mut p = self.w.0.lock().unwrap(); p.buf.extend(b); let w = p.rw.take(); drop(p); wk(w); }
}
impl Drop for TcpStream { fn drop(&mut self) { if !self.split { self.r.close(); self.w.close(); } } }
impl AsyncRead for TcpStream { fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { self.r.poll_read(cx, b) } }
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.w.poll_write(cx, b) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.w.close(); Poll::Ready(Ok(())) }
}
pub mod tcp {
    use super::*;
    pub struct OwnedReadHalf { pub(super) r: RHalf, pub(super) w: WHalf }
    pub struct OwnedWriteHalf { pub(super) w: WHalf }
    impl std::fmt::Debug for OwnedReadHalf { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("OwnedReadHalf") } }
    impl std::fmt::Debug for OwnedWriteHalf { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("OwnedWriteHalf") } }
    // the socket is shut down for writing when the write half goes, and closed
    // (reads refused) when both are gone; the read half going first is enough
    // for the peer's writes to fail
    impl Drop for OwnedReadHalf { fn drop(&mut self) { self.r.close(); let _ = &self.w; } }
    impl Drop for OwnedWriteHalf { fn drop(&mut self) { self.w.close(); } }
    impl AsyncRead for OwnedReadHalf { fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> { self.r.poll_read(cx, b) } }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> { self.w.poll_write(cx, b) }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.w.close(); Poll::Ready(Ok(())) }
    }
}
