//! The in-memory TTL cache under concurrent use, on the simulated clock.
use std::num::NonZeroU64;
use std::sync::Arc;
use std::time::Duration;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::cache::InMemoryCache;
use tailcall::core::Cache;

use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Set { key: u32, ttl: u64 },
    Get { key: u32 },
    Rate,
    /// the wall clock jumps (ms)
    Jump { ms: u64, back: bool },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    /// ms
    wait: u64,
    op: Op,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    sched: SchedCfg,
    capacity: usize,
    clients: Vec<Vec<Step>>,
}
#[derive(Clone, Debug)]
struct Rec {
    inv: At,
    ret: At,
    what: What,
}
#[derive(Clone, Debug)]
enum What {
    Set { key: u32, val: u64, ttl_ns: u64 },
    Get { key: u32, out: Option<(u32, u64)> },
    Rate(Option<f64>),
}

pub struct TtlScenario;

impl TtlScenario {
    fn check(&self, p: &Plan, recs: &[Rec], last_rate: Option<f64>, survivors: usize) -> Option<Violation> {
        let bad = |c: &str, m: String| Some(Violation::new(c, m));
        let keys: std::collections::BTreeSet<u32> = recs
            .iter()
            .filter_map(|r| if let What::Set { key, .. } = r.what { Some(key) } else { None })
            .collect();
        let pressure = keys.len() > p.capacity;
        // the cache makes room for new keys by dropping those set longest ago
        let evictable = |k: u32, val: u64, g: &Rec| {
            let Some(s) = recs.iter().find(|r| matches!(r.what, What::Set { val: v, .. } if v == val)) else { return true };
            let newer: std::collections::BTreeSet<u32> = recs
                .iter()
                .filter(|r| r.ret.s > s.inv.s && r.inv.s < g.ret.s)
                .filter_map(|r| if let What::Set { key, .. } = r.what { Some(key) } else { None })
                .filter(|x| *x != k)
                .collect();
            newer.len() >= p.capacity
        };
        for k in 0..16u32 {
            let ops: Vec<&Rec> = recs
                .iter()
                .filter(|r| matches!(r.what, What::Set { key, .. } | What::Get { key, .. } if key == k))
                .collect();
            for g in &ops {
                if let What::Get { out: Some((kk, v)), .. } = g.what {
                    let Some(s) = recs.iter().find(|r| matches!(r.what, What::Set { val, .. } if val == v)) else {
                        return bad("invented", format!("get({k}) returned {v}, which was never set"));
                    };
                    let What::Set { key, ttl_ns, .. } = s.what else { unreachable!() };
                    if key != k || kk != k {
                        return bad("wrong-key", format!("get({k}) returned the value set for {key}"));
                    }
                    // at the very instant of expiry either answer is right
                    if g.inv.t > s.ret.t.saturating_add(ttl_ns) {
                        return bad("expired", format!("get({k}) at {} ns returned a value set at {} ns with ttl {} ns", g.inv.t, s.ret.t, ttl_ns));
                    }
                }
            }
            if ops.len() <= 40 {
                let iv: Vec<(u64, u64)> = ops.iter().map(|r| (r.inv.s, r.ret.s)).collect();
                let apply = |st: &Option<(u64, u64)>, i: usize| -> Option<Option<(u64, u64)>> {
                    match &ops[i].what {
                        What::Set { val, ttl_ns, .. } => Some(Some((*val, ops[i].inv.t.saturating_add(*ttl_ns)))),
                        What::Get { out, .. } => {
                            let now = ops[i].inv.t;
                            let live = st.filter(|(_, e)| *e >= now).map(|(v, _)| v);
                            let edge = st.is_some_and(|(_, e)| e == now);
                            match out {
                                Some((_, v)) => (live == Some(*v)).then_some(*st),
                                // with more keys than capacity an entry may be evicted
                                None => (live.is_none() || edge || evictable(k, st.unwrap().0, ops[i])).then_some(if pressure { None } else { *st }),
                            }
                        }
                        _ => None,
                    }
                };
                if !linearizable(&iv, None, &apply) {
                    let h: Vec<String> = ops.iter().map(|r| format!("[{}..{} @{}] {:?}", r.inv.s, r.ret.s, r.inv.t, r.what)).collect();
                    return bad("not-linearizable", format!("no order of these operations on key {k} explains their results: {}", h.join("; ")));
                }
            }
        }
        let gets = recs.iter().filter(|r| matches!(r.what, What::Get { .. })).count();
        let hits = recs.iter().filter(|r| matches!(r.what, What::Get { out: Some(_), .. })).count();
        let want = (gets > 0).then(|| hits as f64 / gets as f64);
        if last_rate != want {
            return bad("hit-rate", format!("{hits} hits of {gets} lookups, but the reported rate is {last_rate:?}"));
        }
        for r in recs {
            if let What::Rate(Some(x)) = r.what {
                if !(0.0..=1.0).contains(&x) {
                    return bad("hit-rate", format!("reported rate {x}"));
                }
            }
        }
        if survivors > p.capacity {
            return bad("over-capacity", format!("{survivors} live entries with capacity {}", p.capacity));
        }
        None
    }
}

impl Scenario for TtlScenario {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            60_000
        } else {
            2_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws seeded clients issuing set/get/hit-rate operations with TTLs and waits around each other, wall-clock jumps, the capacity, \
         the number of simulated threads and preemption rate; it is non-trivial when a lookup found an entry and another found one expired or missing, \
         distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["core::cache::InMemoryCache", "ttl_cache::TtlCache"],
            vec!["std::time::Instant (simulated clock under the real type)", "std::sync::RwLock and atomics (scheduling points)", "task scheduler (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["wall_clock_jump"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let nkeys = r.range(1, 6) as u64;
        let n = r.range(1, 5);
        let len = if tier == Tier::Quick { 9 } else { 16 };
        let unit = *r.pick(&[1u64, 10, 1000, 3_600_000]);
        let pset = *r.pick(&[0.3, 0.5, 0.7]);
        let jumps = r.chance(0.3);
        let clients = (0..n)
            .map(|_| {
                (0..r.range(1, len))
                    .map(|_| Step {
                        wait: *r.pick(&[0, 0, 0, 1, 2, 3, 5]) * unit,
                        op: if jumps && r.chance(0.15) {
                            Op::Jump { ms: *r.pick(&[1, 1000, 3_600_000, 90_000_000]), back: r.chance(0.5) }
                        } else if r.chance(0.05) {
                            Op::Rate
                        } else if r.chance(pset) {
                            Op::Set { key: r.below(nkeys) as u32, ttl: (*r.pick(&[1, 2, 3, 4, 6, 50]) * unit).max(1) }
                        } else {
                            Op::Get { key: r.below(nkeys) as u32 }
                        },
                    })
                    .collect()
            })
            .collect();
        let mut sched = SchedCfg::draw(r, 4);
        sched.slip_pm = 0; // operations take no simulated time
        serde_json::to_value(Plan { sched, capacity: *r.pick(&[1, 2, 3, 100, 100, 100000]), clients }).unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let (recs, faults) = (Log::<Rec>::default(), Faults::default());
        let (p2, r2, f2) = (p.clone(), recs.clone(), faults.clone());
        let (end, out, report) = simrt::world::run(&cfg, replay, move || async move {
            let c: Arc<InMemoryCache<u32, (u32, u64)>> = Arc::new(if p2.capacity == 100000 { InMemoryCache::default() } else { InMemoryCache::new(p2.capacity.max(1)) });
            let vals = Arc::new(std::sync::atomic::AtomicU64::new(1));
            let mut hs = vec![];
            for steps in p2.clients {
                let (c, r2, f2, vals) = (c.clone(), r2.clone(), f2.clone(), vals.clone());
                hs.push(simrt::spawn(async move {
                    for st in steps {
                        if st.wait > 0 {
                            simrt::sleep(Duration::from_millis(st.wait)).await;
                        }
                        let inv = at();
                        let what = match st.op {
                            Op::Set { key, ttl } => {
                                let val = vals.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                let ttl = ttl.max(1);
                                c.set(key, (key, val), NonZeroU64::new(ttl).unwrap()).await.unwrap();
                                What::Set { key, val, ttl_ns: ttl * 1_000_000 }
                            }
                            Op::Get { key } => What::Get { key, out: c.get(&key).await.unwrap() },
                            Op::Rate => What::Rate(c.hit_rate()),
                            Op::Jump { ms, back } => {
                                fault(&f2, "wall_clock_jump");
                                let ns = ms as i64 * 1_000_000;
                                simrt::world::jump_wall(if back { -ns } else { ns });
                                continue;
                            }
                        };
                        let ret = at();
                        simrt::event(|| format!("[{}..{}] {what:?}", inv.s, ret.s));
                        r2.push(Rec { inv, ret, what });
                    }
                }));
            }
            for h in hs {
                h.await.unwrap();
            }
            simrt::world::calm(true);
            let rate = c.hit_rate();
            let mut n = 0;
            for k in 0..16u32 {
                n += c.get(&k).await.unwrap().is_some() as usize;
            }
            (rate, n)
        });
        let recs = recs.take();
        let mut v = end_violation(&end);
        if v.is_none() {
            let (rate, n) = out.unwrap();
            v = self.check(&p, &recs, rate, n);
        }
        let hit = recs.iter().any(|r| matches!(r.what, What::Get { out: Some(_), .. }));
        let miss = recs.iter().any(|r| matches!(r.what, What::Get { out: None, .. }));
        let f = faults.lock().unwrap().clone();
        RunOut { violation: v, nontrivial: hit && miss, report, faults: f, sample: json!({"operations": recs.len()}) }
    }
}
