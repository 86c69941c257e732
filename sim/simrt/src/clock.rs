use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Weak;
use std::task::{Context, Poll};
use std::time::Duration;

use crate::world::{current, World};

/// simulated ns since the start of the run
pub fn now() -> u64 {
    current().map_or(0, |(w, _)| w.now_ns())
}

pub struct Sleep {
    at: u64,
    key: Option<(u64, u64)>,
    world: Weak<World>,
}
impl Sleep {
    pub fn new(d: Duration) -> Self {
        Self::until_ns(now().saturating_add(d.as_nanos().min(u64::MAX as u128) as u64))
    }
    pub fn until_ns(at: u64) -> Self {
        Self { at, key: None, world: current().map(|(w, _)| std::sync::Arc::downgrade(&w)).unwrap_or_default() }
    }
    pub fn reset_in(&mut self, d: Duration) {
        self.clear();
        self.at = now().saturating_add(d.as_nanos() as u64);
    }
    pub fn is_elapsed(&self) -> bool {
        now() >= self.at
    }
    fn clear(&mut self) {
        if let (Some(k), Some(w)) = (self.key.take(), self.world.upgrade()) {
            w.del_timer(&k)
        }
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        self.clear()
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let Some((w, _)) = current() else { return Poll::Pending };
        if w.now_ns() >= self.at {
            self.clear();
            return Poll::Ready(());
        }
        match self.key {
            Some(k) => w.set_timer_waker(&k, cx.waker()),
            None => self.key = Some(w.add_timer(self.at, cx.waker().clone())),
        }
        Poll::Pending
    }
}

pub fn sleep(d: Duration) -> Sleep {
    Sleep::new(d)
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Elapsed(());
impl fmt::Display for Elapsed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("deadline has elapsed")
    }
}
impl std::error::Error for Elapsed {}

pub struct Timeout<F> {
    fut: Pin<Box<F>>,
    sleep: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.fut.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut self.sleep).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    Timeout { fut: Box::pin(f), sleep: Sleep::new(d) }
}
pub fn timeout_at<F: Future>(at: Instant, f: F) -> Timeout<F> {
    Timeout { fut: Box::pin(f), sleep: Sleep::until_ns(at.0) }
}

/// tokio::time::Instant look-alike on the simulated clock
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(pub(crate) u64);
impl Instant {
    pub fn now() -> Self {
        Instant(now())
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_nanos(now().saturating_sub(self.0))
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(d.as_nanos() as u64))
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
pub fn sleep_until(at: Instant) -> Sleep {
    Sleep::until_ns(at.0)
}

pub struct Interval {
    period: Duration,
    next: u64,
}
pub fn interval(period: Duration) -> Interval {
    Interval { period, next: now() }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        let at = self.next;
        Sleep::until_ns(at).await;
        self.next = at + self.period.as_nanos() as u64;
        Instant(at)
    }
}
