//! Stand-in for tokio-serial: a port is a modelled link.
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::net::TcpStream;

pub type Result<T> = std::io::Result<T>;

pub struct SerialPortBuilder(String, u32);

pub fn new<'a>(path: impl Into<std::borrow::Cow<'a, str>>, baud: u32) -> SerialPortBuilder {
    SerialPortBuilder(path.into().into_owned(), baud)
}

pub struct SerialStream(TcpStream);

impl std::fmt::Debug for SerialStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("SerialStream")
    }
}

impl SerialStream {
    pub fn open(b: &SerialPortBuilder) -> Result<SerialStream> {
        let l = tokio::model::new_link();
        let w = tokio::model::world();
        w.ports.push((b.0.clone(), b.1, l));
        if w.no_port {
            return Err(std::io::Error::from(std::io::ErrorKind::NotFound));
        }
        Ok(SerialStream(TcpStream::on(l)))
    }
    pub fn set_exclusive(&mut self, _: bool) -> Result<()> {
        Ok(())
    }
}

impl AsyncRead for SerialStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}

impl AsyncWrite for SerialStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}
