//! AIO against the simulated disks.  Operations are submitted by the first
//! poll, and a synchronous EAGAIN leaves the future ready to be polled again,
//! as with the real crate.
use simrt::{IoFut, IoReq};
use std::future::Future;
use std::io::{self, IoSlice, IoSliceMut};
use std::os::fd::{AsRawFd, BorrowedFd};
use std::pin::Pin;
use std::task::{Context, Poll};

const IOV_MAX: usize = 1024;

fn e(x: i32) -> io::Error { io::Error::from_raw_os_error(x) }

// The simulator is single threaded; the raw pointers never leave it.
pub struct ReadAt<'a> { buf: &'a mut [u8], io: Wrap }
pub struct ReadvAt<'a> { ptrs: Vec<(usize, usize)>, io: Wrap, _p: std::marker::PhantomData<&'a mut [u8]> }
pub struct WriteAt<'a> { len: usize, io: Wrap, _p: std::marker::PhantomData<&'a [u8]> }
pub struct WritevAt<'a> { len: usize, io: Wrap, toolong: bool, _p: std::marker::PhantomData<&'a [u8]> }
pub struct SyncAll<'a> { io: Wrap, _p: std::marker::PhantomData<&'a ()> }

struct Wrap(IoFut);
unsafe impl Send for Wrap {}
unsafe impl Sync for Wrap {}

impl Future for ReadAt<'_> {
    type Output = io::Result<usize>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        match this.io.0.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(x)) => Poll::Ready(Err(e(x))),
            Poll::Ready(Ok(v)) => {
                this.buf[..v.len()].copy_from_slice(&v);
                Poll::Ready(Ok(v.len()))
            }
        }
    }
}

impl Future for ReadvAt<'_> {
    type Output = io::Result<usize>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        if this.ptrs.len() > IOV_MAX { return Poll::Ready(Err(e(22))); }
        match this.io.0.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(x)) => Poll::Ready(Err(e(x))),
            Poll::Ready(Ok(v)) => {
                let mut o = 0;
                for (p, l) in &this.ptrs {
                    // Safe because the caller keeps the buffers alive
                    unsafe { std::ptr::copy_nonoverlapping(v[o..o + l].as_ptr(), *p as *mut u8, *l); }
                    o += l;
                }
                Poll::Ready(Ok(v.len()))
            }
        }
    }
}

impl Future for WriteAt<'_> {
    type Output = io::Result<usize>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        let l = this.len;
        this.io.0.poll(cx).map(|r| r.map(|_| l).map_err(e))
    }
}

impl Future for WritevAt<'_> {
    type Output = io::Result<usize>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        if this.toolong { return Poll::Ready(Err(e(22))); }
        let l = this.len;
        this.io.0.poll(cx).map(|r| r.map(|_| l).map_err(e))
    }
}

impl Future for SyncAll<'_> {
    type Output = io::Result<()>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        this.io.0.poll(cx).map(|r| r.map(|_| ()).map_err(e))
    }
}

pub trait AioFileExt: AsRawFd {
    fn read_at<'a>(&self, buf: &'a mut [u8], off: u64) -> io::Result<ReadAt<'a>> {
        let len = buf.len();
        Ok(ReadAt { buf, io: Wrap(IoFut::New(self.as_raw_fd(), Some(IoReq::Read { off, len }))) })
    }
    fn readv_at<'a>(&self, bufs: &mut [IoSliceMut<'a>], off: u64) -> io::Result<ReadvAt<'a>> {
        let ptrs: Vec<_> = bufs.iter_mut().map(|b| (b.as_mut_ptr() as usize, b.len())).collect();
        let len = ptrs.iter().map(|p| p.1).sum();
        Ok(ReadvAt { ptrs, io: Wrap(IoFut::New(self.as_raw_fd(), Some(IoReq::Read { off, len }))),
            _p: std::marker::PhantomData })
    }
    fn write_at<'a>(&self, buf: &'a [u8], off: u64) -> io::Result<WriteAt<'a>> {
        Ok(WriteAt { len: buf.len(), _p: std::marker::PhantomData,
            io: Wrap(IoFut::New(self.as_raw_fd(), Some(IoReq::Write { off, data: buf.to_vec() }))) })
    }
    fn writev_at<'a>(&self, bufs: &[IoSlice<'a>], off: u64) -> io::Result<WritevAt<'a>> {
        let mut data = Vec::with_capacity(bufs.iter().map(|b| b.len()).sum());
        for b in bufs { data.extend_from_slice(b); }
        Ok(WritevAt { len: data.len(), toolong: bufs.len() > IOV_MAX, _p: std::marker::PhantomData,
            io: Wrap(IoFut::New(self.as_raw_fd(), Some(IoReq::Write { off, data }))) })
    }
    fn sync_all(&self) -> io::Result<SyncAll<'_>> {
        Ok(SyncAll { io: Wrap(IoFut::New(self.as_raw_fd(), Some(IoReq::Sync))), _p: std::marker::PhantomData })
    }
}
impl AioFileExt for std::fs::File {}
impl AioFileExt for BorrowedFd<'_> {}
