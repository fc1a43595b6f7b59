// A small executor over the modelled world.
use super::sx;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tokio::model;

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

/// A future of the user's, polled when it was woken.
pub struct Local<'a, T> {
    fut: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
    flag: Arc<Flag>,
    pub out: Option<T>,
    pub polls: usize,
}

impl<'a, T> Local<'a, T> {
    pub fn new(f: impl Future<Output = T> + 'a) -> Self {
        Local { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))), out: None, polls: 0 }
    }
    pub fn runnable(&self) -> bool {
        self.fut.is_some() && self.flag.0.load(Ordering::SeqCst)
    }
    pub fn done(&self) -> bool {
        self.fut.is_none()
    }
    pub fn poll(&mut self) -> bool {
        if let Some(f) = self.fut.as_mut() {
            self.flag.0.store(false, Ordering::SeqCst);
            self.polls += 1;
            let w = Waker::from(self.flag.clone());
            let mut cx = Context::from_waker(&w);
            if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                self.fut = None;
                self.out = Some(v);
            }
        }
        self.done()
    }
    pub fn cancel(&mut self) {
        self.fut = None;
    }
}

/// Polls that may be made before everything has to be at rest.
pub const PATIENCE: usize = 400;

/// All is at rest: if the code waits for a timer, it may go off (a few times).
pub fn time_passes() -> bool {
    if !model::timer_set() || model::world().moved >= 3 {
        return false;
    }
    if sx::pick(2) == 0 {
        return false;
    }
    model::pass_time();
    true
}

/// Runs everything that has been woken, spawned tasks first, until all wait.
/// With `any`, which of those that can run runs next is open.
pub fn settle_with<T>(locals: &mut [&mut Local<T>], any: bool) {
    let mut polls = 0;
    loop {
        let tasks = model::runnable_tasks();
        let mine: Vec<usize> = (0..locals.len()).filter(|&i| locals[i].runnable()).collect();
        let n = tasks.len() + mine.len();
        if n == 0 {
            if time_passes() {
                continue;
            }
            return;
        }
        let k = if any { sx::pick(n as u32) } else { 0 };
        if k < tasks.len() {
            model::poll_task(tasks[k]);
        } else {
            locals[mine[k - tasks.len()]].poll();
        }
        polls += 1;
        if polls > PATIENCE {
            sx::check(false, "everything comes to rest: no task spins");
            return;
        }
    }
}

/// Runs up to `n` steps, each of anything that can run.
pub fn steps<T>(l: &mut Local<T>, n: usize) {
    for _ in 0..n {
        let tasks = model::runnable_tasks();
        let all = tasks.len() + l.runnable() as usize;
        if all == 0 {
            return;
        }
        let k = sx::pick(all as u32);
        if k < tasks.len() {
            model::poll_task(tasks[k]);
        } else {
            l.poll();
        }
    }
}

pub fn settle() {
    settle_with::<()>(&mut [], false)
}

/// Runs one future of the user's as far as it goes.
pub fn run<T>(l: &mut Local<T>) -> bool {
    settle_with(&mut [l], false);
    l.done()
}

/// Runs a future that has everything it needs.
pub fn now<'a, T>(f: impl Future<Output = T> + 'a) -> Option<T> {
    let mut l = Local::new(f);
    run(&mut l);
    l.out
}

/// A failure of some kind.
pub fn failure() -> Option<std::io::ErrorKind> {
    use std::io::ErrorKind::*;
    [None, Some(TimedOut), Some(BrokenPipe), Some(ConnectionAborted), Some(Other), Some(NotConnected)][sx::pick(6)]
}

/// Leaves open which branch of a `select!` is looked at first only for the next `n`.
pub fn free_selects(n: u32) {
    extern "C" {
        static mut SX_FREE_SELECTS: u32;
    }
    unsafe { SX_FREE_SELECTS = n }
}
