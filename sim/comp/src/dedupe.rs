//! Single-flight deduplication under schedules, cancellation, failures, panics.
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::data_loader::DedupeResult;

use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Call {
    at: u64,
    key: u32,
    dur: u64,
    yields: u8,
    fail: bool,
    panic: bool,
    /// cancelled this long after it was issued
    cancel: Option<u64>,
    /// the work itself deduplicates on another key
    nested: bool,
    /// repeats after finishing
    again: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    sched: SchedCfg,
    persist: bool,
    calls: Vec<Call>,
}

#[derive(Clone, Debug)]
struct Exec {
    call: usize,
    key: u32,
    start: At,
    end: Option<At>,
    /// the value it produced; None: aborted or panicked
    out: Option<Result<u64, u64>>,
}
#[derive(Clone, Debug)]
struct Ret {
    key: u32,
    inv: At,
    ret: Option<At>,
    out: Option<Result<u64, u64>>,
    cancelled: Option<At>,
    panicked: bool,
    may_panic: bool,
    executions: u32,
}

struct ExecGuard(Log<Exec>, usize);
impl Drop for ExecGuard {
    fn drop(&mut self) {
        let now = at();
        self.0.with(|l| {
            let e = &mut l[self.1];
            if e.end.is_none() {
                e.end = Some(now)
            }
        });
    }
}

pub struct DedupeScenario {
    pub id: &'static str,
    pub liveness: bool,
}

type D = Arc<DedupeResult<u32, u64, u64>>;

fn work(d: D, calls: Log<Ret>, execs: Log<Exec>, faults: Faults, me: usize, c: Call, key: u32) -> BoxFut<Result<u64, u64>> {
    Box::pin(async move {
        calls.with(|l| l[me].executions += 1);
        let id = execs.push(Exec { call: me, key, start: at(), end: None, out: None });
        simrt::event(|| format!("exec {id} of key {key} starts (call {me})"));
        let g = ExecGuard(execs.clone(), id);
        for _ in 0..c.yields {
            simrt::yield_now().await;
        }
        if c.nested {
            let c2 = Call { nested: false, panic: false, ..c.clone() };
            let k2 = key + 100;
            let _ = one_call(d, calls, execs.clone(), faults.clone(), c2, k2).await;
        }
        if c.dur > 0 {
            simrt::sleep(us(c.dur)).await;
        }
        if c.panic {
            fault(&faults, "leader_panic");
            panic!("SIM injected");
        }
        let out = if c.fail {
            fault(&faults, "work_fails");
            Err(id as u64)
        } else {
            Ok(id as u64)
        };
        let now = at();
        execs.with(|l| {
            l[id].end = Some(now);
            l[id].out = Some(out);
        });
        simrt::event(|| format!("exec {id} of key {key} ends {out:?}"));
        drop(g);
        out
    })
}

struct CallGuard(Log<Ret>, usize, Faults);
impl Drop for CallGuard {
    fn drop(&mut self) {
        let now = at();
        let i = self.1;
        let c = self.0.with(|l| {
            if l[i].ret.is_none() {
                if std::thread::panicking() {
                    l[i].panicked = true;
                }
                l[i].cancelled = Some(now);
                return true;
            }
            false
        });
        if c && !std::thread::panicking() {
            fault(&self.2, "caller_cancelled");
            simrt::event(|| format!("call {i} is dropped"));
        }
    }
}

fn one_call(d: D, calls: Log<Ret>, execs: Log<Exec>, faults: Faults, c: Call, key: u32) -> BoxFut<Result<u64, u64>> {
    Box::pin(async move {
        let me = calls.push(Ret { key, inv: at(), ret: None, out: None, cancelled: None, panicked: false, may_panic: c.panic, executions: 0 });
        simrt::event(|| format!("call {me} for key {key}"));
        let _g = CallGuard(calls.clone(), me, faults.clone());
        let (d2, calls2, execs2) = (d.clone(), calls.clone(), execs.clone());
        let out = d.dedupe(&key, move || work(d2, calls2, execs2, faults, me, c, key)).await;
        let now = at();
        calls.with(|l| {
            l[me].ret = Some(now);
            l[me].out = Some(out);
        });
        simrt::event(|| format!("call {me} returns {out:?}"));
        out
    })
}

impl DedupeScenario {
    fn check(&self, p: &Plan, calls: &[Ret], execs: &[Exec]) -> Option<Violation> {
        let slip = p.sched.slip_pm > 0;
        for (i, c) in calls.iter().enumerate() {
            if c.panicked && !c.may_panic && c.executions == 0 {
                return Some(Violation::new("waiter-panics", format!("call {i} panicked although its own work never ran")));
            }
            if c.executions > 1 {
                return Some(Violation::new("work-twice", format!("call {i} ran its work {} times", c.executions)));
            }
            if let Some(out) = &c.out {
                let id = match out {
                    Ok(v) | Err(v) => *v as usize,
                };
                let Some(e) = execs.get(id) else {
                    return Some(Violation::new("invented", format!("call {i} returned {out:?}, which nothing produced")));
                };
                if e.key != c.key {
                    return Some(Violation::new("wrong-key", format!("call {i} for key {} got the result of key {}", c.key, e.key)));
                }
                if e.out != Some(*out) {
                    return Some(Violation::new("wrong-result", format!("call {i} got {out:?}, execution {id} produced {:?}", e.out)));
                }
                if !p.persist {
                    // the result may be shared only with calls that were made before
                    // the executing call itself returned
                    let leader = &calls[e.call];
                    if let Some(r) = leader.ret {
                        if r.s < c.inv.s {
                            return Some(Violation::new(
                                "stale",
                                format!("call {i} (made at event {}) got the result of execution {id}, whose caller had returned at event {}", c.inv.s, r.s),
                            ));
                        }
                    }
                }
            }
            // a call made while an execution was in flight shares its result
            for (k, e) in execs.iter().enumerate() {
                if e.key == c.key && e.out.is_some() && e.call != i && e.start.s < c.inv.s && c.inv.s < e.end.unwrap().s
                    // with several threads the call may be preempted before it looks: then only a
                    // difference in simulated time tells that it looked before the end
                    && (p.sched.workers == 1 || (!slip && c.inv.t < e.end.unwrap().t)) {
                    if let Some(out) = &c.out {
                        if Some(*out) != e.out {
                            return Some(Violation::new(
                                "not-shared",
                                format!("call {i} was made while execution {k} was in flight but returned {out:?}"),
                            ));
                        }
                    }
                }
            }
        }
        for (i, a) in execs.iter().enumerate() {
            for (k, b) in execs.iter().enumerate().skip(i + 1) {
                if a.key != b.key {
                    continue;
                }
                let (ae, be) = (a.end.map_or(u64::MAX, |x| x.s), b.end.map_or(u64::MAX, |x| x.s));
                if a.start.s < be && b.start.s < ae {
                    return Some(Violation::new("concurrent", format!("executions {i} and {k} of key {} ran at the same time", a.key)));
                }
                if p.persist && a.out.is_some() && b.out.is_some() {
                    return Some(Violation::new("persist-twice", format!("key {} was executed to completion twice: {i}, {k}", a.key)));
                }
            }
        }
        if p.persist {
            for k in calls.iter().map(|c| c.key).collect::<std::collections::BTreeSet<_>>() {
                let outs: std::collections::BTreeSet<_> = calls.iter().filter(|c| c.key == k).filter_map(|c| c.out).collect();
                if outs.len() > 1 {
                    return Some(Violation::new("persist-differs", format!("key {k} gave different results {outs:?}")));
                }
            }
        }
        // progress: while a call waits, an execution for its key is in flight
        for (i, c) in calls.iter().enumerate() {
            let end = match (c.ret, c.cancelled) {
                (Some(r), _) => r.t,
                (None, Some(r)) => r.t,
                (None, None) => {
                    return Some(Violation::new("stranded", format!("call {i} for key {} never returned", c.key)));
                }
            };
            if slip {
                continue;
            }
            let mut t = c.inv.t;
            loop {
                let next = execs
                    .iter()
                    .filter(|e| e.key == c.key && e.start.t <= t && e.end.map_or(u64::MAX, |x| x.t) > t)
                    .map(|e| e.end.unwrap().t)
                    .max();
                match next {
                    Some(n) => t = n,
                    None => break,
                }
            }
            if t < end {
                return Some(Violation::new(
                    "stranded",
                    format!("call {i} for key {} waited until {end} ns although nothing executed for it after {t} ns", c.key),
                ));
            }
        }
        None
    }
}

impl Scenario for DedupeScenario {
    fn id(&self) -> &'static str {
        self.id
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            60_000
        } else {
            2_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws a seeded set of callers (keys, issue times, work durations, failures, panics, cancellation times, nesting), \
         the number of simulated threads and the preemption/time-slip rates; it is non-trivial when at least two calls for the same key \
         overlapped, and distinct by the hash of its full event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["core::data_loader::dedupe", "tokio::sync::broadcast"],
            vec!["tokio task scheduler (simulated)", "std::sync::Mutex (scheduling points)", "clock (simulated)", "deduplicated operation (workload)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["caller_cancelled", "work_fails", "leader_panic"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["simulated threads switch at lock, unlock, atomic and await points only (sequentially consistent)"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let n = r.range(2, if tier == Tier::Quick { 8 } else { 14 });
        let keys = r.range(1, 3);
        let horizon = *r.pick(&[0, 5, 50, 500]);
        let (pf, pp, pc, pn) = (
            *r.pick(&[0.0, 0.2]),
            if self.liveness { *r.pick(&[0.0, 0.2, 0.4]) } else { *r.pick(&[0.0, 0.0, 0.1]) },
            if self.liveness { *r.pick(&[0.2, 0.5, 0.8]) } else { *r.pick(&[0.0, 0.2]) },
            *r.pick(&[0.0, 0.0, 0.15]),
        );
        let calls = (0..n)
            .map(|_| {
                let dur = *r.pick(&[0, 0, 3, 10, 40, 200]);
                Call {
                    at: if horizon == 0 { 0 } else { r.below(horizon) },
                    key: r.below(keys as u64) as u32,
                    dur,
                    yields: r.below(4) as u8,
                    fail: r.chance(pf),
                    panic: r.chance(pp),
                    cancel: r.chance(pc).then(|| if r.chance(0.4) { 0 } else { r.below(dur + 30) }),
                    nested: r.chance(pn),
                    again: r.below(3) as u8,
                }
            })
            .collect();
        let persist = r.chance(0.25);
        serde_json::to_value(Plan { sched: SchedCfg::draw(r, 4), persist, calls }).unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let (calls, execs, faults) = (Log::default(), Log::default(), Faults::default());
        let (p2, c2, e2, f2) = (p.clone(), calls.clone(), execs.clone(), faults.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let d: D = Arc::new(DedupeResult::new(p2.persist));
            let mut hs = vec![];
            for c in p2.calls {
                let (d, c2, e2, f2) = (d.clone(), c2.clone(), e2.clone(), f2.clone());
                hs.push(simrt::spawn(async move {
                    simrt::sleep(us(c.at)).await;
                    for k in 0..=c.again {
                        let mut c1 = c.clone();
                        if k > 0 {
                            c1.cancel = None;
                            c1.panic = false;
                        }
                        let f = one_call(d.clone(), c2.clone(), e2.clone(), f2.clone(), c1.clone(), c.key);
                        let _ = cancellable(f, c1.cancel).await;
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let (calls, execs) = (calls.take(), execs.take());
        let mut v = end_violation(&end);
        if v.as_ref().map_or(true, |v| v.class == "stuck") {
            v = self.check(&p, &calls, &execs).or(v);
        }
        let nontrivial = calls.iter().enumerate().any(|(i, a)| {
            calls.iter().skip(i + 1).any(|b| a.key == b.key && b.inv.s < a.ret.or(a.cancelled).map_or(u64::MAX, |x| x.s))
        });
        let f = faults.lock().unwrap().clone();
        RunOut {
            violation: v,
            nontrivial,
            report,
            faults: f,
            sample: json!({"calls": calls.len(), "executions": execs.len()}),
        }
    }
}
