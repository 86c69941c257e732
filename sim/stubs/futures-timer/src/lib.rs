//! futures_timer::Delay on the simulated clock.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

pub struct Delay(simrt::Sleep);
impl Delay {
    pub fn new(d: Duration) -> Delay {
        Delay(simrt::Sleep::new(d))
    }
    pub fn reset(&mut self, d: Duration) {
        self.0.reset_in(d)
    }
}
impl Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx)
    }
}
