//! tokio as tailcall sees it in the simulation: tasks and time are simulated,
//! channels and macros are tokio's own.
pub use tokio::{join, pin, select, try_join};
pub use simrt::task::spawn;

pub mod task {
    pub use simrt::task::{spawn, spawn_blocking, yield_now, AbortHandle, JoinError, JoinHandle};
    pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
        f()
    }
}
pub mod time {
    pub use simrt::clock::{
        interval, sleep, sleep_until, timeout, timeout_at, Instant, Interval, Sleep, Timeout,
    };
    pub use std::time::Duration;
    pub mod error {
        pub use simrt::clock::Elapsed;
    }
}
pub mod sync {
    pub use tokio::sync::*;
}
/// A runtime of one's own with one thread, as for JavaScript: what it runs takes
/// place on that thread, at the moment the simulator schedules the task.
pub mod runtime {
    use std::any::Any;
    use std::future::Future;
    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
    use std::sync::mpsc::{channel, Sender};
    use std::task::{Context, Poll, Wake, Waker};

    struct Noop;
    impl Wake for Noop {
        fn wake(self: std::sync::Arc<Self>) {}
    }

    type Job = Box<dyn FnOnce() + Send>;
    pub struct Builder(());
    impl Builder {
        pub fn new_multi_thread() -> Self {
            Builder(())
        }
        pub fn new_current_thread() -> Self {
            Builder(())
        }
        pub fn worker_threads(&mut self, n: usize) -> &mut Self {
            assert_eq!(n, 1, "the simulated runtime has one thread");
            self
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            let (tx, rx) = channel::<Job>();
            std::thread::spawn(move || {
                while let Ok(job) = rx.recv() {
                    job()
                }
            });
            Ok(Runtime(tx))
        }
    }
    pub struct Runtime(Sender<Job>);
    impl Runtime {
        pub fn spawn<F>(&self, fut: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            let tx = self.0.clone();
            simrt::task::spawn_named("runtime", async move {
                let out: Result<F::Output, Box<dyn Any + Send>> = {
                    let (a, b) = channel();
                    let job: Job = Box::new(move || {
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let mut fut = Box::pin(fut);
                            match fut.as_mut().poll(&mut Context::from_waker(&Waker::from(std::sync::Arc::new(Noop)))) {
                                Poll::Ready(x) => x,
                                Poll::Pending => panic!("nothing waits in the simulated runtime"),
                            }
                        }));
                        let _ = a.send(r);
                    });
                    tx.send(job).unwrap();
                    b.recv().unwrap()
                };
                match out {
                    Ok(x) => x,
                    Err(p) => resume_unwind(p),
                }
            })
        }
        pub fn shutdown_background(self) {}
    }
}
#[cfg(feature = "fs")]
pub mod fs {
    pub use tokio::fs::*;
}
pub mod io {
    pub use tokio::io::*;
}
