use std::any::Any;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use crate::world::{current, Fail, World};

pub struct JoinError {
    panic: Option<Mutex<Box<dyn Any + Send>>>,
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    pub fn into_panic(self) -> Box<dyn Any + Send> {
        self.panic.expect("not a panic").into_inner().unwrap()
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinError::{}", if self.is_panic() { "Panic" } else { "Cancelled" })
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "task {}", if self.is_panic() { "panicked" } else { "was cancelled" })
    }
}
impl std::error::Error for JoinError {}

struct Shared<T> {
    out: Mutex<(Option<Result<T, JoinError>>, Option<Waker>)>,
}
impl<T> Shared<T> {
    fn put(&self, r: Result<T, JoinError>) {
        let w = {
            let mut g = self.out.lock().unwrap();
            g.0 = Some(r);
            g.1.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    }
}

pub struct JoinHandle<T> {
    shared: Arc<Shared<T>>,
    task: Option<(std::sync::Weak<World>, usize)>,
}
#[derive(Clone)]
pub struct AbortHandle(Option<(std::sync::Weak<World>, usize)>);
impl AbortHandle {
    pub fn abort(&self) {
        if let Some((w, id)) = &self.0 {
            if let Some(w) = w.upgrade() {
                w.abort_task(*id)
            }
        }
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        self.abort_handle().abort()
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle(self.task.clone())
    }
    pub fn is_finished(&self) -> bool {
        match &self.task {
            Some((w, id)) => w.upgrade().map_or(true, |w| w.task_done(*id)),
            None => true,
        }
    }
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut g = self.shared.out.lock().unwrap();
        if let Some(r) = g.0.take() {
            return Poll::Ready(r);
        }
        g.1 = Some(cx.waker().clone());
        Poll::Pending
    }
}

pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_named("task", fut)
}
pub fn spawn_named<F>(name: &str, fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let shared = Arc::new(Shared { out: Mutex::new((None, None)) });
    let Some((w, _)) = current() else {
        // only reached while the futures of a finished run are being dropped
        drop(fut);
        shared.put(Err(JoinError { panic: None }));
        return JoinHandle { shared, task: None };
    };
    let (s1, s2) = (shared.clone(), shared.clone());
    let id = w.spawn_raw(
        name.to_string(),
        Box::pin(async move {
            let r = fut.await;
            s1.put(Ok(r));
        }),
        Some(Box::new(move |f| {
            s2.put(Err(JoinError {
                panic: match f {
                    Fail::Cancelled => None,
                    Fail::Panic(p) => Some(Mutex::new(p)),
                },
            }))
        })),
    );
    crate::world::sched_point(0x59);
    JoinHandle { shared, task: Some((Arc::downgrade(&w), id)) }
}
pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    spawn_named("blocking", async move { f() })
}

pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await
}
