//! A modelled TCP socket. It behaves like tokio's: readiness-based, reads take
//! what has arrived up to the buffer's size, an empty read means end of stream.
use crate::model::{link, world, Link};
use bytes::BufMut;
use std::future::Future;
use std::io;
use std::net::{IpAddr, SocketAddr};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

pub mod tcp {
    pub use crate::halves::*;
}

pub struct TcpStream {
    pub link: usize,
}

impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpStream")
    }
}

pub trait ToSocketAddrs {
    fn to_addr(&self) -> SocketAddr;
}

impl ToSocketAddrs for (IpAddr, u16) {
    fn to_addr(&self) -> SocketAddr {
        SocketAddr::new(self.0, self.1)
    }
}

impl ToSocketAddrs for (std::net::Ipv4Addr, u16) {
    fn to_addr(&self) -> SocketAddr {
        SocketAddr::new(self.0.into(), self.1)
    }
}

impl ToSocketAddrs for (std::net::Ipv6Addr, u16) {
    fn to_addr(&self) -> SocketAddr {
        SocketAddr::new(self.0.into(), self.1)
    }
}

impl ToSocketAddrs for SocketAddr {
    fn to_addr(&self) -> SocketAddr {
        *self
    }
}

impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn to_addr(&self) -> SocketAddr {
        (**self).to_addr()
    }
}

struct Ready {
    link: usize,
    write: bool,
}

impl Future for Ready {
    type Output = io::Result<()>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let l = link(self.link);
        if self.write {
            if l.stalled() {
                l.write_wakers.push(cx.waker().clone());
                return Poll::Pending;
            }
            // Room for at least one byte, as the script says.
            if l.accept.front() == Some(&0) {
                l.accept.pop_front();
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            return Poll::Ready(Ok(()));
        }
        if l.read_ready() {
            Poll::Ready(Ok(()))
        } else {
            l.read_wakers.push(cx.waker().clone());
            Poll::Pending
        }
    }
}

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let addr = addr.to_addr();
        let w = world();
        let n = w.attempts.len();
        w.attempts.push(addr);
        if w.refuse_from.map_or(false, |r| n >= r) {
            return Err(io::Error::from(io::ErrorKind::ConnectionRefused));
        }
        let i = crate::model::new_link();
        link(i).addr = Some(addr);
        Ok(TcpStream { link: i })
    }

    /// A socket on an existing modelled link.
    pub fn on(link: usize) -> TcpStream {
        TcpStream { link }
    }

    fn l(&self) -> &'static mut Link {
        link(self.link)
    }

    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.l().addr.ok_or_else(|| io::Error::from(io::ErrorKind::NotConnected))
    }

    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }

    pub async fn readable(&self) -> io::Result<()> {
        Ready { link: self.link, write: false }.await
    }

    pub async fn writable(&self) -> io::Result<()> {
        Ready { link: self.link, write: true }.await
    }

    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut Ready { link: self.link, write: false }).poll(cx)
    }

    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut Ready { link: self.link, write: true }).poll(cx)
    }

    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        match self.l().take(buf.len()) {
            None => Err(io::Error::from(io::ErrorKind::WouldBlock)),
            Some(Err(e)) => Err(e),
            Some(Ok(v)) => {
                buf[..v.len()].copy_from_slice(&v);
                Ok(v.len())
            }
        }
    }

    pub fn try_read_buf<B: BufMut>(&self, buf: &mut B) -> io::Result<usize> {
        let room = buf.chunk_mut().len();
        match self.l().take(room) {
            None => Err(io::Error::from(io::ErrorKind::WouldBlock)),
            Some(Err(e)) => Err(e),
            Some(Ok(v)) => {
                buf.put_slice(&v);
                Ok(v.len())
            }
        }
    }

    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        match self.l().accept_write(buf) {
            None => Err(io::Error::from(io::ErrorKind::WouldBlock)),
            Some(r) => r,
        }
    }
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        if let Some(l) = world().links.get_mut(self.link) {
            l.closed = true;
        }
    }
}

impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let l = self.l();
        match l.take(buf.remaining()) {
            None => {
                l.read_wakers.push(cx.waker().clone());
                Poll::Pending
            }
            Some(Err(e)) => Poll::Ready(Err(e)),
            Some(Ok(v)) => {
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
        }
    }
}

impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let l = self.l();
        match l.accept_write(buf) {
            None if l.stalled() => {
                l.write_wakers.push(cx.waker().clone());
                Poll::Pending
            }
            None => {
                // The script's "not now": the link takes data again right after.
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(r) => Poll::Ready(r),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.l().flushes += 1;
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.l().shutdowns += 1;
        Poll::Ready(Ok(()))
    }
}
