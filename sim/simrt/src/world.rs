use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};

use crate::rng::{mix, Rng};

pub type TaskId = usize;
type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;

thread_local! {
    static CURRENT: RefCell<Option<(Arc<World>, usize)>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// How the scheduler of a run decides.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct SchedCfg {
    /// seed of the schedule PRNG and of the hash seeds
    pub seed: u64,
    /// simulated OS threads polling tasks
    pub workers: usize,
    /// probability of a preemption at a synchronisation operation, in 1/1000
    pub preempt_pm: u32,
    /// probability that time moves to the next timer although work is ready, 1/1000
    pub slip_pm: u32,
    /// such a slip never moves more than this
    pub slip_max_us: u64,
    /// 0: uniform among the ready; 1: FIFO mostly; 2: LIFO mostly
    pub policy: u8,
    pub max_steps: u64,
}
impl Default for SchedCfg {
    fn default() -> Self {
        Self { seed: 1, workers: 1, preempt_pm: 0, slip_pm: 0, slip_max_us: 0, policy: 0, max_steps: 400_000 }
    }
}
impl SchedCfg {
    /// a swarm-style draw
    pub fn draw(rng: &mut Rng, max_workers: usize) -> Self {
        let workers = if max_workers <= 1 || rng.chance(0.35) { 1 } else { 2 + rng.below(max_workers as u64 - 1) as usize };
        SchedCfg {
            seed: rng.next() >> 12,
            workers,
            preempt_pm: if workers == 1 { 0 } else { *rng.pick(&[20, 100, 300, 600]) },
            slip_pm: *rng.pick(&[0, 0, 5, 50]),
            slip_max_us: *rng.pick(&[500, 5_000]),
            policy: *rng.pick(&[0, 0, 0, 1, 2]),
            max_steps: 400_000,
        }
    }
}

pub(crate) enum Sched {
    Random(Rng),
    Replay(Vec<u32>, usize),
}

#[derive(Clone, Copy, PartialEq)]
enum W {
    Idle,
    Running(TaskId),
    Blocked(TaskId, usize),
}

struct Slot {
    name: String,
    fut: Option<BoxFut>,
    queued: bool,
    running: bool,
    woken: bool,
    aborted: bool,
    done: bool,
    waker: Waker,
    /// runs when the task is cancelled or panicked, to complete its JoinHandle
    fail: Option<Box<dyn FnOnce(Fail) + Send>>,
}

pub enum Fail {
    Cancelled,
    Panic(Box<dyn Any + Send>),
}

struct Inner {
    tasks: Vec<Slot>,
    ready: Vec<TaskId>,
    timers: BTreeMap<(u64, u64), Waker>,
    seq: u64,
    workers: Vec<W>,
    sched: Sched,
    trace: Vec<u32>,
    trace_hash: u64,
    log_hash: u64,
    steps: u64,
    switches: u64,
    choices: u64,
    timer_fires: u64,
    panics: Vec<String>,
    events: Vec<String>,
    probes: BTreeMap<String, u64>,
    finishing: bool,
    end: Option<RunEnd>,
    root_done: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RunEnd {
    Done,
    /// nothing can ever run again and the root task is not finished
    Stuck(String),
    StepLimit,
    /// the root task itself panicked
    RootPanic(String),
}

#[derive(Debug, Default, Clone)]
pub struct RunReport {
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub choices: u64,
    pub timer_fires: u64,
    pub trace: Vec<u32>,
    pub trace_hash: u64,
    pub log_hash: u64,
    pub panics: Vec<String>,
    pub events: Vec<String>,
    pub probes: BTreeMap<String, u64>,
    pub tasks: usize,
}

pub struct World {
    inner: Mutex<Inner>,
    now: AtomicU64,
    skew: AtomicI64,
    cfg: SchedCfg,
    batons: Vec<(Mutex<bool>, Condvar)>,
    over: (Mutex<bool>, Condvar),
    quiet: AtomicBool,
}

struct TaskWaker {
    world: std::sync::Weak<World>,
    id: TaskId,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if let Some(w) = self.world.upgrade() {
            w.wake(self.id)
        }
    }
}

pub fn in_sim() -> bool {
    CURRENT.try_with(|c| c.borrow().is_some()).unwrap_or(false)
}
pub(crate) fn current() -> Option<(Arc<World>, usize)> {
    CURRENT.try_with(|c| c.borrow().clone()).ok().flatten()
}
/// A point where another simulated thread may run.
pub fn sched_point(tag: u32) {
    if std::thread::panicking() {
        return;
    }
    if let Some((w, id)) = current() {
        w.preempt(id, tag)
    }
}
/// Appends to the history of the run (and to its hash).
pub fn event(s: impl FnOnce() -> String) {
    if let Some((w, _)) = current() {
        let mut i = w.lock();
        let s = format!("{:>12} {}", w.now.load(SeqCst), s());
        i.log_hash = crate::rng::hash_bytes(i.log_hash, s.as_bytes());
        if i.events.len() < 20_000 {
            i.events.push(s);
        }
    }
}
pub fn note(s: &str) {
    event(|| s.to_string())
}
pub fn probe(name: &str) {
    if let Some((w, _)) = current() {
        let mut i = w.lock();
        if let Some(n) = i.probes.get_mut(name) {
            *n += 1
        } else {
            i.probes.insert(name.to_string(), 1);
        }
    }
}
/// global event sequence number of the simulation
pub fn stamp() -> u64 {
    match current() {
        Some((w, _)) => {
            let mut i = w.lock();
            i.seq += 1;
            i.seq
        }
        None => 0,
    }
}
/// A decision drawn from the schedule (recorded, replayed and minimised with it).
pub fn decide(n: usize) -> usize {
    match current() {
        Some((w, _)) => w.lock().choose(n, Kind::Free, &w.cfg),
        None => 0,
    }
}

pub(crate) enum Kind {
    Task,
    Preempt,
    Slip,
    Free,
}

impl Inner {
    fn choose(&mut self, n: usize, kind: Kind, cfg: &SchedCfg) -> usize {
        if n <= 1 {
            return 0;
        }
        self.choices += 1;
        let c = match &mut self.sched {
            Sched::Random(r) => match kind {
                Kind::Task => match cfg.policy {
                    1 if r.chance(0.8) => 0,
                    2 if r.chance(0.8) => n - 1,
                    _ => r.below(n as u64) as usize,
                },
                Kind::Preempt => {
                    if r.below(1000) < cfg.preempt_pm as u64 {
                        1 + r.below(n as u64 - 1) as usize
                    } else {
                        0
                    }
                }
                Kind::Slip => (r.below(1000) < cfg.slip_pm as u64) as usize,
                Kind::Free => r.below(n as u64) as usize,
            },
            Sched::Replay(v, p) => {
                let c = v.get(*p).copied().unwrap_or(0) as usize;
                *p += 1;
                c.min(n - 1)
            }
        };
        self.trace.push(c as u32);
        self.trace_hash = mix(self.trace_hash ^ ((n as u64) << 32 | c as u64));
        c
    }
}

impl World {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn now_ns(&self) -> u64 {
        self.now.load(SeqCst)
    }
    pub fn wall_skew_ns(&self) -> i64 {
        self.skew.load(SeqCst)
    }

    pub(crate) fn wake(&self, id: TaskId) {
        let mut i = self.lock();
        let t = &mut i.tasks[id];
        if t.done || t.queued {
            return;
        }
        if t.running {
            t.woken = true;
            return;
        }
        t.queued = true;
        i.ready.push(id);
    }

    pub(crate) fn add_timer(&self, at: u64, w: Waker) -> (u64, u64) {
        let mut i = self.lock();
        i.seq += 1;
        let k = (at, i.seq);
        i.timers.insert(k, w);
        k
    }
    pub(crate) fn set_timer_waker(&self, k: &(u64, u64), w: &Waker) {
        let mut i = self.lock();
        if let Some(t) = i.timers.get_mut(k) {
            if !t.will_wake(w) {
                *t = w.clone();
            }
        }
    }
    pub(crate) fn del_timer(&self, k: &(u64, u64)) {
        let w = self.lock().timers.remove(k);
        drop(w);
    }

    pub(crate) fn spawn_raw(
        self: &Arc<Self>,
        name: String,
        fut: BoxFut,
        fail: Option<Box<dyn FnOnce(Fail) + Send>>,
    ) -> TaskId {
        let mut i = self.lock();
        let id = i.tasks.len();
        let waker = Waker::from(Arc::new(TaskWaker { world: Arc::downgrade(self), id }));
        i.tasks.push(Slot { name, fut: Some(fut), queued: true, running: false, woken: false, aborted: false, done: false, waker, fail });
        i.ready.push(id);
        id
    }
    pub(crate) fn abort_task(&self, id: TaskId) {
        let mut i = self.lock();
        let t = &mut i.tasks[id];
        if t.done {
            return;
        }
        t.aborted = true;
        if t.running {
            t.woken = true;
        } else if !t.queued {
            t.queued = true;
            i.ready.push(id);
        }
    }
    pub(crate) fn task_done(&self, id: TaskId) -> bool {
        self.lock().tasks[id].done
    }

    fn give(&self, id: usize) {
        let (m, c) = &self.batons[id];
        *m.lock().unwrap() = true;
        c.notify_one();
    }
    fn wait(&self, id: usize) {
        let (m, c) = &self.batons[id];
        let mut g = m.lock().unwrap();
        while !*g {
            g = c.wait(g).unwrap();
        }
        *g = false;
    }
    fn finish(&self, end: RunEnd) {
        let mut i = self.lock();
        if i.end.is_none() {
            i.end = Some(end);
        }
    }
    fn signal_over(&self) {
        *self.over.0.lock().unwrap() = true;
        self.over.1.notify_one();
    }
    /// never returns: the thread is leaked (only after Stuck with blocked workers)
    fn leak(&self) -> ! {
        self.signal_over();
        loop {
            std::thread::park();
        }
    }

    /// fires the earliest timers; false if there are none
    fn advance(&self, i: &mut Inner) -> Vec<Waker> {
        let Some(&(at, _)) = i.timers.keys().next() else { return vec![] };
        if at > self.now.load(SeqCst) {
            self.now.store(at, SeqCst);
        }
        let mut out = vec![];
        while let Some((&k, _)) = i.timers.iter().next() {
            if k.0 > at {
                break;
            }
            out.push(i.timers.remove(&k).unwrap());
            i.timer_fires += 1;
        }
        out
    }

    fn preempt(&self, me: usize, tag: u32) {
        let next = {
            let mut i = self.lock();
            i.steps += 1;
            i.log_hash = mix(i.log_hash ^ (tag as u64) << 8 ^ me as u64);
            if i.finishing || self.cfg.workers <= 1 || self.quiet.load(SeqCst) {
                return;
            }
            let opts = self.others(&i, me);
            let c = i.choose(1 + opts.len(), Kind::Preempt, &self.cfg);
            if c == 0 {
                return;
            }
            i.switches += 1;
            opts[c - 1]
        };
        self.give(next);
        self.wait(me);
    }
    /// workers other than `me` that could make progress
    fn others(&self, i: &Inner, me: usize) -> Vec<usize> {
        let mut v: Vec<usize> =
            (0..i.workers.len()).filter(|w| *w != me && matches!(i.workers[*w], W::Running(_))).collect();
        if !i.ready.is_empty() {
            if let Some(w) = (0..i.workers.len()).find(|w| *w != me && i.workers[*w] == W::Idle) {
                v.push(w);
            }
        }
        v
    }
    /// blocks the calling worker on `addr` until `unblock(addr)`
    pub(crate) fn block(&self, me: usize, addr: usize) {
        loop {
            let next = {
                let mut i = self.lock();
                i.steps += 1;
                if let W::Running(t) = i.workers[me] {
                    i.workers[me] = W::Blocked(t, addr);
                }
                let opts = self.others(&i, me);
                if opts.is_empty() {
                    let idle = i.workers.iter().any(|w| *w == W::Idle);
                    let fired = if idle { self.advance(&mut i) } else { vec![] };
                    if fired.is_empty() {
                        let s = self.describe(&i);
                        drop(i);
                        self.finish(RunEnd::Stuck(format!("deadlock: {s}")));
                        self.leak();
                    }
                    drop(i);
                    fired.into_iter().for_each(|w| w.wake());
                    continue;
                }
                let c = i.choose(opts.len(), Kind::Task, &self.cfg);
                i.switches += 1;
                opts[c]
            };
            self.give(next);
            self.wait(me);
            let i = self.lock();
            if matches!(i.workers[me], W::Running(_)) {
                return;
            }
        }
    }
    pub(crate) fn unblock(&self, addr: usize) {
        let mut i = self.lock();
        for w in i.workers.iter_mut() {
            if let W::Blocked(t, a) = *w {
                if a == addr {
                    *w = W::Running(t);
                }
            }
        }
    }
    fn describe(&self, i: &Inner) -> String {
        let b = i.workers.iter().filter(|w| matches!(w, W::Blocked(..))).count();
        let p: Vec<_> = i.tasks.iter().filter(|t| !t.done).map(|t| t.name.clone()).take(8).collect();
        format!("{b} workers blocked on locks; unfinished tasks: {}", p.join(", "))
    }

    fn worker(self: &Arc<Self>, me: usize) {
        enum Do {
            Poll(TaskId),
            Switch(usize),
            Fire(Vec<Waker>),
            Exit,
        }
        self.wait(me);
        loop {
            let act = {
                let mut i = self.lock();
                i.steps += 1;
                if i.steps > self.cfg.max_steps && !i.finishing {
                    i.finishing = true;
                    i.end.get_or_insert(RunEnd::StepLimit);
                }
                let running: Vec<usize> =
                    (0..i.workers.len()).filter(|w| *w != me && matches!(i.workers[*w], W::Running(_))).collect();
                if i.finishing {
                    match running.first() {
                        Some(w) => Do::Switch(*w),
                        None => Do::Exit,
                    }
                } else {
                    let n = running.len() + i.ready.len();
                    if n == 0 {
                        let f = self.advance(&mut i);
                        if f.is_empty() {
                            let s = self.describe(&i);
                            i.end.get_or_insert(RunEnd::Stuck(s));
                            i.finishing = true;
                            Do::Exit
                        } else {
                            Do::Fire(f)
                        }
                    } else {
                        let slip = self.cfg.slip_pm > 0
                            && !self.quiet.load(SeqCst)
                            && i.timers.keys().next().is_some_and(|k| {
                                k.0.saturating_sub(self.now_ns()) <= self.cfg.slip_max_us * 1000
                            })
                            && i.choose(2, Kind::Slip, &self.cfg) == 1;
                        if slip {
                            Do::Fire(self.advance(&mut i))
                        } else {
                            let c = i.choose(n, Kind::Task, &self.cfg);
                            if c < running.len() {
                                i.switches += 1;
                                Do::Switch(running[c])
                            } else {
                                let t = i.ready.remove(c - running.len());
                                Do::Poll(t)
                            }
                        }
                    }
                }
            };
            match act {
                Do::Fire(ws) => ws.into_iter().for_each(|w| w.wake()),
                Do::Switch(w) => {
                    self.give(w);
                    self.wait(me);
                }
                Do::Poll(t) => self.poll(me, t),
                Do::Exit => {
                    let blocked = {
                        let i = self.lock();
                        i.workers.iter().any(|w| matches!(w, W::Blocked(..)))
                    };
                    if blocked {
                        self.leak();
                    }
                    self.signal_over();
                    return;
                }
            }
        }
    }

    fn poll(self: &Arc<Self>, me: usize, id: TaskId) {
        let (mut fut, waker, aborted) = {
            let mut i = self.lock();
            i.log_hash = mix(i.log_hash ^ (id as u64) << 16 ^ 0xab);
            i.workers[me] = W::Running(id);
            let t = &mut i.tasks[id];
            t.queued = false;
            if t.done {
                i.workers[me] = W::Idle;
                return;
            }
            t.running = true;
            t.woken = false;
            (t.fut.take(), t.waker.clone(), t.aborted)
        };
        let mut cx = Context::from_waker(&waker);
        let res = catch_unwind(AssertUnwindSafe(|| {
            if aborted {
                drop(fut.take());
                return None;
            }
            Some(fut.as_mut().expect("task future").as_mut().poll(&mut cx))
        }));
        enum End {
            Pending,
            Done,
            Fail(Fail),
        }
        let end = match res {
            Ok(None) => End::Fail(Fail::Cancelled),
            Ok(Some(Poll::Pending)) => End::Pending,
            Ok(Some(Poll::Ready(()))) => {
                let r = catch_unwind(AssertUnwindSafe(|| drop(fut.take())));
                match r {
                    Ok(()) => End::Done,
                    Err(p) => End::Fail(Fail::Panic(p)),
                }
            }
            Err(p) => {
                let msg = LAST_PANIC
                    .with(|l| l.borrow_mut().take())
                    .unwrap_or_else(|| panic_msg(&*p));
                self.lock().panics.push(msg.clone());
                event(|| format!("task {id} panicked: {msg}"));
                let _ = catch_unwind(AssertUnwindSafe(|| drop(fut.take())));
                End::Fail(Fail::Panic(p))
            }
        };
        let mut fail = None;
        {
            let mut i = self.lock();
            i.workers[me] = W::Idle;
            let t = &mut i.tasks[id];
            t.running = false;
            match end {
                End::Pending => {
                    t.fut = fut.take();
                    if t.woken {
                        t.woken = false;
                        t.queued = true;
                        i.ready.push(id);
                    }
                }
                End::Done => {
                    t.done = true;
                    t.fail = None;
                }
                End::Fail(f) => {
                    t.done = true;
                    fail = t.fail.take().map(|h| (h, f));
                }
            }
        }
        if let Some((h, f)) = fail {
            h(f)
        }
    }
}

pub fn panic_msg(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "panic".into())
}

/// Stops preemption and time slips (checks at the end of a run).
pub fn calm(on: bool) {
    if let Some((w, _)) = current() {
        w.quiet.store(on, SeqCst)
    }
}
/// Jumps the wall clock (not the monotonic clock).
pub fn jump_wall(ns: i64) {
    if let Some((w, _)) = current() {
        w.skew.fetch_add(ns, SeqCst);
    }
}

/// Installed once per process: records panics of simulated threads silently.
pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if in_sim() {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{} at {}", panic_msg(info.payload()), loc)));
        } else {
            prev(info)
        }
    }));
}

/// Runs `f` as the root task of a new world.
pub fn run<T, F, Fut>(cfg: &SchedCfg, replay: Option<Vec<u32>>, f: F) -> (RunEnd, Option<T>, RunReport)
where
    T: Send + 'static,
    F: FnOnce() -> Fut + Send + 'static,
    Fut: Future<Output = T> + Send + 'static,
{
    let n = cfg.workers.max(1);
    let world = Arc::new(World {
        inner: Mutex::new(Inner {
            tasks: vec![],
            ready: vec![],
            timers: BTreeMap::new(),
            seq: 0,
            workers: vec![W::Idle; n],
            sched: match replay {
                Some(v) => Sched::Replay(v, 0),
                None => Sched::Random(Rng::new(cfg.seed)),
            },
            trace: vec![],
            trace_hash: 0,
            log_hash: 0,
            steps: 0,
            switches: 0,
            choices: 0,
            timer_fires: 0,
            panics: vec![],
            events: vec![],
            probes: BTreeMap::new(),
            finishing: false,
            end: None,
            root_done: false,
        }),
        now: AtomicU64::new(0),
        skew: AtomicI64::new(0),
        cfg: cfg.clone(),
        batons: (0..n).map(|_| (Mutex::new(false), Condvar::new())).collect(),
        over: (Mutex::new(false), Condvar::new()),
        quiet: AtomicBool::new(false),
    });
    let out: Arc<Mutex<Option<T>>> = Arc::new(Mutex::new(None));
    {
        let out = out.clone();
        let w1 = Arc::downgrade(&world);
        let w2 = Arc::downgrade(&world);
        world.spawn_raw(
            "root".into(),
            Box::pin(async move {
                let r = f().await;
                *out.lock().unwrap() = Some(r);
                if let Some(w) = w1.upgrade() {
                    let mut i = w.lock();
                    i.root_done = true;
                    i.finishing = true;
                    i.end.get_or_insert(RunEnd::Done);
                }
            }),
            Some(Box::new(move |e| {
                if let Some(w) = w2.upgrade() {
                    let mut i = w.lock();
                    i.finishing = true;
                    let m = i.panics.last().cloned().unwrap_or_default();
                    i.end.get_or_insert(match e {
                        Fail::Panic(_) => RunEnd::RootPanic(m),
                        Fail::Cancelled => RunEnd::RootPanic("root cancelled".into()),
                    });
                }
            })),
        );
    }
    let handles: Vec<_> = (0..n)
        .map(|id| {
            let w = world.clone();
            let seed = mix(cfg.seed ^ mix(id as u64 + 77));
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    CURRENT.with(|c| *c.borrow_mut() = Some((w.clone(), id)));
                    crate::interpose::enter(Arc::as_ptr(&w), seed);
                    w.worker(id);
                    crate::interpose::leave();
                    CURRENT.with(|c| *c.borrow_mut() = None);
                })
                .unwrap()
        })
        .collect();
    world.give(0);
    {
        let mut g = world.over.0.lock().unwrap();
        while !*g {
            g = world.over.1.wait(g).unwrap();
        }
    }
    let leaked = {
        let i = world.lock();
        i.workers.iter().any(|w| matches!(w, W::Blocked(..)))
    };
    if !leaked {
        // every worker is idle: let each see `finishing` and leave
        for id in 0..n {
            world.give(id);
        }
        for h in handles {
            let _ = h.join();
        }
    }
    let (end, rep, tasks) = {
        let mut i = world.lock();
        let rep = RunReport {
            sim_ns: world.now_ns(),
            steps: i.steps,
            switches: i.switches,
            choices: i.choices,
            timer_fires: i.timer_fires,
            trace: std::mem::take(&mut i.trace),
            trace_hash: i.trace_hash,
            log_hash: mix(i.log_hash ^ i.trace_hash ^ world.now_ns()),
            panics: std::mem::take(&mut i.panics),
            events: std::mem::take(&mut i.events),
            probes: std::mem::take(&mut i.probes),
            tasks: i.tasks.len(),
        };
        let futs: Vec<_> = if leaked { vec![] } else { i.tasks.iter_mut().map(|t| (t.fut.take(), t.fail.take())).collect() };
        (i.end.clone().unwrap_or(RunEnd::Done), rep, futs)
    };
    if leaked {
        std::mem::forget(world);
        let o = out.lock().unwrap().take();
        return (end, o, rep);
    }
    // The remaining tasks are dropped outside of the simulation.
    let _ = catch_unwind(AssertUnwindSafe(|| drop(tasks)));
    let timers = std::mem::take(&mut world.lock().timers);
    drop(timers);
    let o = out.lock().unwrap().take();
    (end, o, rep)
}
