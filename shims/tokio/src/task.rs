use std::any::Any;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

struct Shared<T> {
    value: Option<T>,
    gone: bool,
    waker: Option<Waker>,
}

pub struct JoinHandle<T> {
    shared: Arc<Mutex<Shared<T>>>,
    id: usize,
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        crate::model::kill(self.id);
        let mut s = self.shared.lock().unwrap();
        s.gone = true;
        if let Some(w) = s.waker.take() {
            w.wake();
        }
    }
    pub fn is_finished(&self) -> bool {
        crate::model::finished(self.id)
    }
}

impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("JoinHandle").finish()
    }
}

pub struct JoinError(());

impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        true
    }
    pub fn is_panic(&self) -> bool {
        false
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        Box::new(())
    }
}

impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinError::Cancelled")
    }
}

impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("cancelled")
    }
}

impl std::error::Error for JoinError {}

impl<T> Unpin for JoinHandle<T> {}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.shared.lock().unwrap();
        if let Some(v) = s.value.take() {
            return Poll::Ready(Ok(v));
        }
        if s.gone {
            return Poll::Ready(Err(JoinError(())));
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let shared = Arc::new(Mutex::new(Shared { value: None, gone: false, waker: None }));
    let s2 = shared.clone();
    let id = crate::model::add_task(Box::pin(async move {
        let v = future.await;
        let mut s = s2.lock().unwrap();
        s.value = Some(v);
        if let Some(w) = s.waker.take() {
            w.wake();
        }
    }));
    JoinHandle { shared, id }
}

struct YieldNow(bool);

impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub async fn yield_now() {
    YieldNow(false).await
}
