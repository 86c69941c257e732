//! Deterministic simulation kernel.
//!
//! One run = one `World`. Everything that runs inside it (async tasks, timers,
//! lock acquisitions, atomics) executes under a baton that exactly one simulated
//! worker thread holds at a time; every scheduling decision is drawn from
//! `World::choose`, so a run is a pure function of (plan, schedule trace).
pub mod clock;
pub mod driver;
pub mod interpose;
pub mod rng;
pub mod sync;
pub mod task;
pub mod world;

pub use clock::{now, sleep, timeout, Elapsed, Instant, Sleep};
pub use rng::Rng;
pub use task::{spawn, spawn_blocking, yield_now, JoinError, JoinHandle};
pub use world::{event, in_sim, note, probe, sched_point, SchedCfg, World, RunEnd, RunReport};
