//! Stand-in for tokio: everything that is pure computation (channels, io
//! traits and combinators, `select!`) is the real tokio 1.14.0; sockets and
//! task spawning are replaced by a model the harness drives.
pub use tokio_real::*;

mod halves;
pub mod model;
pub mod net;
pub mod task;
pub mod time;
pub use task::spawn;
pub use sx_macros::main;

pub mod io {
    pub use tokio_real::io::*;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    /// What the user types.
    #[derive(Debug)]
    pub struct Stdin(());
    pub fn stdin() -> Stdin {
        Stdin(())
    }
    impl AsyncRead for Stdin {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
            let l = &mut crate::model::world().typed;
            match l.take(buf.remaining()) {
                None => {
                    l.read_wakers.push(cx.waker().clone());
                    Poll::Pending
                }
                Some(Err(e)) => Poll::Ready(Err(e)),
                Some(Ok(v)) => {
                    buf.put_slice(&v);
                    Poll::Ready(Ok(()))
                }
            }
        }
    }
}
