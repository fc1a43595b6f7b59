//! The two halves of a modelled socket.
use crate::model::world;
use crate::net::TcpStream;
use bytes::BufMut;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};

/// Closes the link once both halves are gone.
struct Whole(TcpStream);

fn view(s: &TcpStream) -> std::mem::ManuallyDrop<TcpStream> {
    std::mem::ManuallyDrop::new(TcpStream::on(s.link))
}

macro_rules! read_half {
    ($name:ident $(<$l:lifetime>)?) => {
        impl $(<$l>)? $name $(<$l>)? {
            pub async fn readable(&self) -> io::Result<()> {
                self.0 .0.readable().await
            }
            pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
                self.0 .0.try_read(buf)
            }
            pub fn try_read_buf<B: BufMut>(&self, buf: &mut B) -> io::Result<usize> {
                self.0 .0.try_read_buf(buf)
            }
            pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                self.0 .0.peer_addr()
            }
        }
        impl $(<$l>)? AsyncRead for $name $(<$l>)? {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
                Pin::new(&mut *view(&self.0 .0)).poll_read(cx, buf)
            }
        }
    };
}
macro_rules! write_half {
    ($name:ident $(<$l:lifetime>)?) => {
        impl $(<$l>)? $name $(<$l>)? {
            pub async fn writable(&self) -> io::Result<()> {
                self.0 .0.writable().await
            }
            pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
                self.0 .0.try_write(buf)
            }
            pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                self.0 .0.peer_addr()
            }
        }
        impl $(<$l>)? AsyncWrite for $name $(<$l>)? {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                Pin::new(&mut *view(&self.0 .0)).poll_write(cx, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                Pin::new(&mut *view(&self.0 .0)).poll_flush(cx)
            }
            fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                Pin::new(&mut *view(&self.0 .0)).poll_shutdown(cx)
            }
        }
    };
}

pub struct OwnedReadHalf(Arc<Whole>);
pub struct OwnedWriteHalf(Arc<Whole>);

impl Drop for OwnedWriteHalf {
    fn drop(&mut self) {
        // as tokio does: the peer sees the end of what is written
        if let Some(l) = world().links.get_mut(self.0 .0.link) {
            l.shutdowns += 1;
        }
    }
}
impl std::fmt::Debug for OwnedReadHalf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("OwnedReadHalf")
    }
}
impl std::fmt::Debug for OwnedWriteHalf {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("OwnedWriteHalf")
    }
}
read_half!(OwnedReadHalf);
write_half!(OwnedWriteHalf);

struct Part<'a>(&'a TcpStream);
pub struct ReadHalf<'a>(Part<'a>);
pub struct WriteHalf<'a>(Part<'a>);
read_half!(ReadHalf<'a>);
write_half!(WriteHalf<'a>);

impl TcpStream {
    pub fn into_split(self) -> (OwnedReadHalf, OwnedWriteHalf) {
        let w = Arc::new(Whole(self));
        (OwnedReadHalf(w.clone()), OwnedWriteHalf(w))
    }
    pub fn split(&mut self) -> (ReadHalf<'_>, WriteHalf<'_>) {
        (ReadHalf(Part(self)), WriteHalf(Part(self)))
    }
}
