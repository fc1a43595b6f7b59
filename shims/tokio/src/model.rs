//! The modelled outside world: scripted byte links and a run queue.
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// One direction pair of a modelled link.
#[derive(Default)]
pub struct Link {
    /// Address this link was connected to.
    pub addr: Option<SocketAddr>,
    /// Bytes that have arrived, chunk by chunk: one read never crosses a chunk.
    pub inbound: VecDeque<Vec<u8>>,
    /// The peer has closed: end of stream after `inbound`.
    pub eof: bool,
    /// Reading fails after `inbound`.
    pub read_error: bool,
    /// Writing fails.
    pub write_error: bool,
    /// What kind of failure those are, if not the usual.
    pub error: Option<io::ErrorKind>,
    /// Everything the code has written.
    pub written: Vec<u8>,
    /// Sizes of the individual accepted writes still scripted; empty = accept everything.
    pub accept: VecDeque<usize>,
    /// Bytes taken before the peer stalls; nothing = it never does.
    pub room: Option<usize>,
    /// Number of read attempts (poll_read / try_read) made so far.
    pub reads: usize,
    pub flushes: usize,
    pub shutdowns: usize,
    pub closed: bool,
    pub read_wakers: Vec<Waker>,
    pub write_wakers: Vec<Waker>,
}

impl Link {
    pub fn push(&mut self, chunk: Vec<u8>) {
        if !chunk.is_empty() {
            self.inbound.push_back(chunk);
            self.wake_readers();
        }
    }
    pub fn close(&mut self) {
        self.eof = true;
        self.wake_readers();
        self.wake_writers();
    }
    pub fn fail_reads(&mut self) {
        self.read_error = true;
        self.wake_readers();
    }
    pub fn fail_writes(&mut self) {
        self.write_error = true;
        self.wake_writers();
    }
    /// The peer takes nothing more for now.
    pub fn stalled(&self) -> bool {
        self.room == Some(0) && !self.write_error
    }
    /// From now on the peer takes this much more, or everything.
    pub fn make_room(&mut self, room: Option<usize>) {
        self.room = room;
        self.wake_writers();
    }
    pub fn wake_readers(&mut self) {
        for w in self.read_wakers.drain(..) {
            w.wake();
        }
    }
    pub fn wake_writers(&mut self) {
        for w in self.write_wakers.drain(..) {
            w.wake();
        }
    }
    pub fn read_ready(&self) -> bool {
        !self.inbound.is_empty() || self.eof || self.read_error
    }
    /// Takes at most `max` bytes of the first chunk.
    pub fn take(&mut self, max: usize) -> Option<io::Result<Vec<u8>>> {
        self.reads += 1;
        if max == 0 {
            return Some(Ok(Vec::new()));
        }
        if let Some(mut front) = self.inbound.pop_front() {
            if front.len() > max {
                let rest = front.split_off(max);
                self.inbound.push_front(rest);
            }
            return Some(Ok(front));
        }
        if self.read_error {
            return Some(Err(io::Error::from(self.error.unwrap_or(io::ErrorKind::ConnectionReset))));
        }
        if self.eof {
            return Some(Ok(Vec::new()));
        }
        None
    }
    /// Accepts a prefix of `data` as the script says.
    pub fn accept_write(&mut self, data: &[u8]) -> Option<io::Result<usize>> {
        if self.write_error {
            return Some(Err(io::Error::from(self.error.unwrap_or(io::ErrorKind::BrokenPipe))));
        }
        if self.stalled() {
            return None;
        }
        let mut n = match self.accept.pop_front() {
            None => data.len(),
            Some(0) => return None,
            Some(n) => n.min(data.len()),
        };
        if let Some(room) = self.room.as_mut() {
            n = n.min(*room);
            *room -= n;
        }
        self.written.extend_from_slice(&data[..n]);
        Some(Ok(n))
    }
}

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

pub struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
    pub polls: usize,
}

#[derive(Default)]
pub struct World {
    pub links: Vec<Link>,
    pub tasks: Vec<Task>,
    /// Connection attempts from this number on are refused.
    pub refuse_from: Option<usize>,
    pub attempts: Vec<SocketAddr>,
    /// Serial ports opened: path, speed, link.
    pub ports: Vec<(String, u32, usize)>,
    /// There is no such serial port.
    pub no_port: bool,
    /// Modelled time, and the timers that are set.
    pub now: u64,
    pub timers: Vec<(u64, Waker)>,
    /// Times it has moved on.
    pub moved: usize,
    /// What the user types.
    pub typed: Link,
}

static mut WORLD: Option<World> = None;

#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { WORLD.get_or_insert_with(World::default) }
}

pub fn reset() {
    // tasks hold sockets: they go first
    drop(std::mem::take(&mut world().tasks));
    unsafe { WORLD = Some(World::default()) }
}

pub fn link(i: usize) -> &'static mut Link {
    &mut world().links[i]
}

pub fn new_link() -> usize {
    let w = world();
    w.links.push(Link::default());
    w.links.len() - 1
}

/// Adds a task to the run queue, runnable at once.
pub fn add_task(fut: Pin<Box<dyn Future<Output = ()>>>) -> usize {
    let w = world();
    w.tasks.push(Task { fut: Some(fut), flag: Arc::new(Flag(AtomicBool::new(true))), polls: 0 });
    w.tasks.len() - 1
}

pub fn finished(i: usize) -> bool {
    world().tasks[i].fut.is_none()
}

pub fn kill(i: usize) {
    let t = world().tasks[i].fut.take();
    drop(t);
}

pub fn runnable(i: usize) -> bool {
    let t = &world().tasks[i];
    t.fut.is_some() && t.flag.0.load(Ordering::SeqCst)
}

/// Tasks that have been woken since they were last polled.
pub fn runnable_tasks() -> Vec<usize> {
    (0..world().tasks.len()).filter(|&i| runnable(i)).collect()
}

/// Whether any timer is set.
pub fn timer_set() -> bool {
    !world().timers.is_empty()
}

/// Lets time pass up to the next timer.
pub fn pass_time() {
    let w = world();
    w.moved += 1;
    if let Some(t) = w.timers.iter().map(|t| t.0).min() {
        w.now = w.now.max(t);
    }
    let now = w.now;
    let mut due = Vec::new();
    let mut i = 0;
    while i < w.timers.len() {
        if w.timers[i].0 <= now {
            due.push(w.timers.swap_remove(i).1);
        } else {
            i += 1;
        }
    }
    for t in due {
        t.wake();
    }
}

/// Polls one task once. Returns true if it is finished.
pub fn poll_task(i: usize) -> bool {
    let (mut fut, flag) = {
        let t = &mut world().tasks[i];
        t.polls += 1;
        match t.fut.take() {
            None => return true,
            Some(f) => (f, t.flag.clone()),
        }
    };
    flag.0.store(false, Ordering::SeqCst);
    let waker = Waker::from(flag);
    let mut cx = Context::from_waker(&waker);
    match fut.as_mut().poll(&mut cx) {
        Poll::Ready(()) => {
            drop(fut);
            true
        }
        Poll::Pending => {
            world().tasks[i].fut = Some(fut);
            false
        }
    }
}
