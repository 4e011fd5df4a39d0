//! Asynchronous file access: every operation is a separate blocking job, as in
//! tokio, so that it interleaves with other tasks and survives cancellation.
use crate::task::spawn_blocking;
use std::future::Future;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};

async fn go<T: Send + 'static>(f: impl FnOnce() -> io::Result<T> + Send + 'static) -> io::Result<T> {
    match spawn_blocking(f).await { Ok(r) => r, Err(_) => Err(io::Error::other("background task failed")) }
}
macro_rules! one {
    ($n:ident, $r:ty) => { pub async fn $n(p: impl AsRef<Path>) -> io::Result<$r> { let p = p.as_ref().to_owned(); go(move || std::fs::$n(p)).await } };
}
one!(create_dir_all, ());
one!(create_dir, ());
one!(remove_file, ());
one!(remove_dir_all, ());
one!(remove_dir, ());
one!(metadata, std::fs::Metadata);
one!(symlink_metadata, std::fs::Metadata);
one!(read, Vec<u8>);
one!(read_to_string, String);
one!(canonicalize, PathBuf);
pub async fn write(p: impl AsRef<Path>, c: impl AsRef<[u8]>) -> io::Result<()> { let p = p.as_ref().to_owned(); let c = c.as_ref().to_vec(); go(move || std::fs::write(p, c)).await }
pub async fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> { let a = a.as_ref().to_owned(); let b = b.as_ref().to_owned(); go(move || std::fs::rename(a, b)).await }
pub async fn copy(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<u64> { let a = a.as_ref().to_owned(); let b = b.as_ref().to_owned(); go(move || std::fs::copy(a, b)).await }
pub async fn try_exists(a: impl AsRef<Path>) -> io::Result<bool> { let a = a.as_ref().to_owned(); go(move || a.try_exists()).await }

#[derive(Debug)]
pub struct ReadDir(std::vec::IntoIter<DirEntry>);
#[derive(Debug)]
pub struct DirEntry(std::fs::DirEntry);
pub async fn read_dir(p: impl AsRef<Path>) -> io::Result<ReadDir> {
    let p = p.as_ref().to_owned();
    go(move || {
        let mut v = vec![];
        for e in std::fs::read_dir(p)? { v.push(DirEntry(e?)); }
        v.sort_by_key(|e| e.0.file_name());
        Ok(ReadDir(v.into_iter()))
    }).await
}
impl ReadDir { pub async fn next_entry(&mut self) -> io::Result<Option<DirEntry>> { Ok(self.0.next()) } }
impl DirEntry {
    pub fn path(&self) -> PathBuf { self.0.path() }
    pub fn file_name(&self) -> std::ffi::OsString { self.0.file_name() }
    pub async fn metadata(&self) -> io::Result<std::fs::Metadata> { self.0.metadata() }
    pub async fn file_type(&self) -> io::Result<std::fs::FileType> { self.0.file_type() }
}

#[derive(Clone, Debug)]
pub struct OpenOptions(std::fs::OpenOptions);
impl OpenOptions {
    pub fn new() -> Self { OpenOptions(std::fs::OpenOptions::new()) }
    pub fn read(&mut self, b: bool) -> &mut Self { self.0.read(b); self }
    pub fn write(&mut self, b: bool) -> &mut Self { self.0.write(b); self }
    pub fn append(&mut self, b: bool) -> &mut Self { self.0.append(b); self }
    pub fn truncate(&mut self, b: bool) -> &mut Self { self.0.truncate(b); self }
    pub fn create(&mut self, b: bool) -> &mut Self { self.0.create(b); self }
    pub fn create_new(&mut self, b: bool) -> &mut Self { self.0.create_new(b); self }
    pub async fn open(&self, p: impl AsRef<Path>) -> io::Result<File> { let o = self.0.clone(); let p = p.as_ref().to_owned(); go(move || o.open(p)).await.map(File::from_std) }
}
impl Default for OpenOptions { fn default() -> Self { Self::new() } }

type Fut<T> = Pin<Box<dyn Future<Output = io::Result<T>> + Send>>;
pub struct File { f: Arc<std::fs::File>, wr: Option<Fut<()>>, rd: Option<Fut<Vec<u8>>>, buf: Vec<u8>, at: usize, err: Arc<Mutex<Option<io::Error>>>, seek: Option<u64> }
unsafe impl Sync for File {}
impl std::fmt::Debug for File { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("File") } }
impl File {
    pub fn from_std(f: std::fs::File) -> Self { File { f: Arc::new(f), wr: None, rd: None, buf: vec![], at: 0, err: Default::default(), seek: None } }
    pub async fn open(p: impl AsRef<Path>) -> io::Result<File> { let p = p.as_ref().to_owned(); go(move || std::fs::File::open(p)).await.map(File::from_std) }
    pub async fn create(p: impl AsRef<Path>) -> io::Result<File> { let p = p.as_ref().to_owned(); go(move || std::fs::File::create(p)).await.map(File::from_std) }
    pub async fn create_new(p: impl AsRef<Path>) -> io::Result<File> { let p = p.as_ref().to_owned(); go(move || std::fs::File::create_new(p)).await.map(File::from_std) }
    pub fn options() -> OpenOptions { OpenOptions::new() }
    async fn drain(&mut self) -> io::Result<()> { std::future::poll_fn(|cx| self.poll_drain(cx)).await }
    fn poll_drain(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if let Some(w) = self.wr.as_mut() {
            match w.as_mut().poll(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(r) => { self.wr = None; r? } }
        }
        Poll::Ready(Ok(()))
    }
    pub async fn sync_all(&self) -> io::Result<()> { let f = self.f.clone(); go(move || f.sync_all()).await }
    pub async fn sync_data(&self) -> io::Result<()> { let f = self.f.clone(); go(move || f.sync_data()).await }
    pub async fn set_len(&self, n: u64) -> io::Result<()> { let f = self.f.clone(); go(move || f.set_len(n)).await }
    pub async fn metadata(&self) -> io::Result<std::fs::Metadata> { let f = self.f.clone(); go(move || f.metadata()).await }
    pub async fn try_clone(&self) -> io::Result<File> { Ok(File::from_std(self.f.try_clone()?)) }
    pub async fn into_std(mut self) -> std::fs::File { let _ = self.drain().await; self.f.try_clone().unwrap() }
}
impl AsyncWrite for File {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        // like tokio: accept the bytes, write them in the background, report errors later
        match self.poll_drain(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(r) => r? }
        let n = b.len().min(2 * 1024 * 1024);
        let data = b[..n].to_vec();
        let f = self.f.clone();
        let h = spawn_blocking(move || (&*f).write_all(&data));
        self.wr = Some(Box::pin(async move { match h.await { Ok(r) => r, Err(_) => Err(io::Error::other("background task failed")) } }));
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.poll_drain(cx) }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.poll_drain(cx) }
}
impl AsyncRead for File {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        loop {
            if self.at < self.buf.len() {
                let n = out.remaining().min(self.buf.len() - self.at);
                let at = self.at;
                out.put_slice(&self.buf[at..at + n]);
                self.at += n;
                return Poll::Ready(Ok(()));
            }
            if let Some(r) = self.rd.as_mut() {
                match r.as_mut().poll(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(r) => { self.rd = None; let v = r?; if v.is_empty() { return Poll::Ready(Ok(())); } self.buf = v; self.at = 0; continue; }
                }
            }
            match self.poll_drain(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(r) => r? }
            let n = out.remaining().min(2 * 1024 * 1024);
            let f = self.f.clone();
            let h = spawn_blocking(move || { let mut v = vec![0u8; n]; let k = (&*f).read(&mut v)?; v.truncate(k); Ok(v) });
            self.rd = Some(Box::pin(async move { match h.await { Ok(r) => r, Err(_) => Err(io::Error::other("background task failed")) } }));
        }
    }
}
impl AsyncSeek for File {
    fn start_seek(mut self: Pin<&mut Self>, mut p: SeekFrom) -> io::Result<()> {
        if let SeekFrom::Current(x) = p { let left = (self.buf.len() - self.at) as i64; p = SeekFrom::Current(x - left); }
        self.buf.clear(); self.at = 0;
        let r = (&*self.f).seek(p)?;
        self.seek = Some(r);
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        match self.poll_drain(cx) { Poll::Pending => return Poll::Pending, Poll::Ready(r) => r? }
        let p = match self.seek.take() { Some(p) => p, None => (&*self.f).stream_position()? };
        Poll::Ready(Ok(p))
    }
}
