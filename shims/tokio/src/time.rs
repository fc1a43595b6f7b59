//! Modelled time: it stands still while anything can run; whether the next
//! timer goes off when all is at rest is up to the harness.
use crate::model::world;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

/// Nanoseconds since the world began.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);

fn nanos(d: Duration) -> u64 {
    d.as_secs().saturating_mul(1_000_000_000).saturating_add(d.subsec_nanos() as u64)
}

impl Instant {
    pub fn now() -> Instant {
        Instant(world().now)
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(earlier.0))
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.duration_since(earlier)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        Some(*self + d)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(nanos(d)))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.saturating_sub(nanos(d)))
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, other: Instant) -> Duration {
        self.duration_since(other)
    }
}

#[derive(Debug)]
pub struct Sleep {
    until: u64,
}

impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.until)
    }
    pub fn is_elapsed(&self) -> bool {
        world().now >= self.until
    }
    pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
        self.until = deadline.0
    }
}

impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let w = world();
        if w.now >= self.until {
            return Poll::Ready(());
        }
        w.timers.push((self.until, cx.waker().clone()));
        Poll::Pending
    }
}

pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep { until: deadline.0 }
}

pub fn sleep(d: Duration) -> Sleep {
    sleep_until(Instant::now() + d)
}

pub mod error {
    #[derive(Debug, PartialEq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> std::io::Error {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

pub async fn timeout_at<F: Future>(deadline: Instant, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = Box::pin(f);
    let mut s = sleep_until(deadline);
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        Pin::new(&mut s).poll(cx).map(|()| Err(error::Elapsed(())))
    })
    .await
}

pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    timeout_at(Instant::now() + d, f).await
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}

#[derive(Debug)]
pub struct Interval {
    next: Instant,
    period: Duration,
}

pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}

pub fn interval_at(start: Instant, period: Duration) -> Interval {
    Interval { next: start, period }
}

impl Interval {
    pub async fn tick(&mut self) -> Instant {
        sleep_until(self.next).await;
        let at = self.next;
        self.next += self.period;
        at
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period
    }
}
