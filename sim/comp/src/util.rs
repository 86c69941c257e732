use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use simrt::world;

pub fn us(n: u64) -> Duration {
    Duration::from_micros(n)
}

/// shared, append-only record of a run
pub struct Log<T>(Arc<Mutex<Vec<T>>>);
impl<T> Clone for Log<T> {
    fn clone(&self) -> Self {
        Log(self.0.clone())
    }
}
impl<T> Default for Log<T> {
    fn default() -> Self {
        Log(Arc::new(Mutex::new(vec![])))
    }
}
impl<T> Log<T> {
    pub fn push(&self, t: T) -> usize {
        let mut g = self.0.lock().unwrap();
        g.push(t);
        g.len() - 1
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut Vec<T>) -> R) -> R {
        f(&mut self.0.lock().unwrap())
    }
    pub fn take(&self) -> Vec<T> {
        std::mem::take(&mut self.0.lock().unwrap())
    }
}

/// (global event number, simulated ns)
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct At {
    pub s: u64,
    pub t: u64,
}
pub fn at() -> At {
    At { s: world::stamp(), t: simrt::now() }
}

/// Runs `fut` in a task of its own and cancels it (drops it, as a disconnecting
/// client does) once `cancel` has elapsed.
pub async fn cancellable<T: Send + 'static>(
    fut: impl Future<Output = T> + Send + 'static,
    cancel: Option<u64>,
) -> Result<T, simrt::JoinError> {
    let h = simrt::task::spawn_named("client", fut);
    if let Some(c) = cancel {
        let a = h.abort_handle();
        simrt::task::spawn_named("canceller", async move {
            simrt::sleep(us(c)).await;
            a.abort();
        });
    }
    h.await
}

pub type Faults = Arc<Mutex<BTreeMap<String, u64>>>;
pub fn fault(f: &Faults, k: &str) {
    *f.lock().unwrap().entry(k.to_string()).or_default() += 1;
}
pub type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;

/// Wing & Gong linearizability of one object. `ops`: (invoke, return) event
/// numbers; `apply(state, op index)` gives the next state or None if the recorded
/// result is impossible there. Pending operations have return == u64::MAX and may
/// be left out.
pub fn linearizable<S: Clone + Ord>(ops: &[(u64, u64)], init: S, apply: &dyn Fn(&S, usize) -> Option<S>) -> bool {
    use std::collections::BTreeSet;
    assert!(ops.len() <= 60);
    let full: u64 = (0..ops.len()).filter(|i| ops[*i].1 != u64::MAX).fold(0, |m, i| m | 1 << i);
    let mut seen: BTreeSet<(u64, S)> = BTreeSet::new();
    let mut stack = vec![(0u64, init)];
    while let Some((done, st)) = stack.pop() {
        if done & full == full {
            return true;
        }
        if seen.len() > 200_000 {
            return true; // give up rather than accuse
        }
        if !seen.insert((done, st.clone())) {
            continue;
        }
        let min_ret = (0..ops.len()).filter(|i| done & (1 << i) == 0).map(|i| ops[i].1).min().unwrap();
        for i in 0..ops.len() {
            if done & (1 << i) == 0 && ops[i].0 <= min_ret {
                if let Some(n) = apply(&st, i) {
                    stack.push((done | 1 << i, n));
                }
            }
        }
    }
    false
}
