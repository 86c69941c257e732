//! DataLoader: batching, result routing, failure isolation, cache.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::data_loader::cache::{HashMapCache, NoCache};
use tailcall::core::data_loader::factory::CacheFactory;
use tailcall::core::data_loader::{DataLoader, Loader};

use crate::util::*;

/// keys whose hashes collide, so that only equality tells them apart
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct K(u32, u32);
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0 % self.1.max(1)).hash(h)
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct V {
    key: u32,
    /// batch that loaded it, or 1_000_000 + n for the n-th feed
    src: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    Load { keys: Vec<u32>, one: bool, cancel: Option<u64> },
    Feed { keys: Vec<u32> },
    Clear,
    EnableCache(bool),
    EnableAll(bool),
    Dump,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    wait: u64,
    op: Op,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Batch {
    dur: u64,
    yields: u8,
    fail: bool,
    panic: bool,
    /// keys (mod 4) the loader has no value for
    missing: u32,
    has_missing: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    sched: SchedCfg,
    delay: u64,
    max: usize,
    hash_mod: u32,
    cache: bool,
    clients: Vec<Vec<Step>>,
    batches: Vec<Batch>,
}

#[derive(Clone, Debug)]
struct BatchRec {
    keys: Vec<u32>,
    start: At,
    end: Option<At>,
    plan: Batch,
}
#[derive(Clone, Debug)]
struct CallRec {
    keys: Vec<u32>,
    inv: At,
    ret: Option<At>,
    out: Option<Result<BTreeMap<u32, V>, u64>>,
    cancelled: Option<At>,
    panicked: bool,
}
#[derive(Clone, Debug)]
enum Ctl {
    Feed(Vec<(u32, u64)>),
    Clear,
    Cache(bool),
    All(bool),
    Dump(BTreeMap<u32, V>),
}
#[derive(Clone, Debug)]
struct CtlRec {
    op: Ctl,
    inv: At,
    ret: At,
}

struct L {
    plan: Arc<Plan>,
    recs: Log<BatchRec>,
    faults: Faults,
}
#[async_trait::async_trait]
impl Loader<K> for L {
    type Value = V;
    type Error = u64;
    async fn load(&self, keys: &[K]) -> Result<HashMap<K, V>, u64> {
        let n = self.recs.with(|r| {
            r.push(BatchRec { keys: vec![], start: at(), end: None, plan: Batch { dur: 0, yields: 0, fail: false, panic: false, missing: 0, has_missing: false } });
            r.len() - 1
        });
        let b = if self.plan.batches.is_empty() {
            Batch { dur: 10, yields: 0, fail: false, panic: false, missing: 0, has_missing: false }
        } else {
            self.plan.batches[n % self.plan.batches.len()].clone()
        };
        let mut ks: Vec<u32> = keys.iter().map(|k| k.0).collect();
        ks.sort();
        simrt::event(|| format!("batch {n} loads {ks:?}"));
        self.recs.with(|r| {
            r[n].keys = ks;
            r[n].plan = b.clone();
        });
        for _ in 0..b.yields {
            simrt::yield_now().await;
        }
        if b.dur > 0 {
            simrt::sleep(us(b.dur)).await;
        }
        let now = at();
        self.recs.with(|r| r[n].end = Some(now));
        simrt::event(|| format!("batch {n} ends {}", if b.panic { "panic" } else if b.fail { "fail" } else { "ok" }));
        if b.panic {
            fault(&self.faults, "loader_panic");
            panic!("SIM injected");
        }
        if b.fail {
            fault(&self.faults, "batch_fails");
            return Err(n as u64);
        }
        let mut m = HashMap::new();
        for k in keys {
            if missing(&b, k.0) {
                fault(&self.faults, "value_missing");
            } else {
                m.insert(k.clone(), V { key: k.0, src: n as u64 });
            }
        }
        // a loader may know more than it was asked for
        Ok(m)
    }
}
fn missing(b: &Batch, k: u32) -> bool {
    b.has_missing && k % 4 == b.missing
}

pub struct LoaderScenario {
    pub id: &'static str,
    pub cache: bool,
    pub discipline: bool,
}

struct CallGuard(Log<CallRec>, usize, Faults);
impl Drop for CallGuard {
    fn drop(&mut self) {
        let now = at();
        let i = self.1;
        let panicking = std::thread::panicking();
        let c = self.0.with(|l| {
            if l[i].ret.is_none() {
                l[i].panicked = panicking;
                l[i].cancelled = Some(now);
                return !panicking;
            }
            false
        });
        if c {
            fault(&self.2, "caller_cancelled");
            simrt::event(|| format!("call {i} is dropped"));
        }
    }
}

async fn run_all<C: CacheFactory<K, V>>(dl: DataLoader<K, L, C>, p: Arc<Plan>, calls: Log<CallRec>, ctls: Log<CtlRec>, faults: Faults) {
    let dl = Arc::new(dl.delay(us(p.delay)).max_batch_size(p.max.max(1)));
    let mut hs = vec![];
    let feeds = Arc::new(std::sync::atomic::AtomicU64::new(1_000_000));
    for steps in p.clients.clone() {
        let (dl, calls, ctls, faults, p, feeds) = (dl.clone(), calls.clone(), ctls.clone(), faults.clone(), p.clone(), feeds.clone());
        hs.push(simrt::spawn(async move {
            for st in steps {
                if st.wait > 0 {
                    simrt::sleep(us(st.wait)).await;
                }
                let inv = at();
                let op = match st.op {
                    Op::Load { keys, one, cancel } => {
                        let (dl, calls, faults, p) = (dl.clone(), calls.clone(), faults.clone(), p.clone());
                        let one = one && !keys.is_empty();
                        let f = async move {
                            let keys: Vec<u32> = if one { keys[..1].to_vec() } else { keys };
                            let me = calls.push(CallRec { keys: keys.clone(), inv: at(), ret: None, out: None, cancelled: None, panicked: false });
                            simrt::event(|| format!("call {me} loads {keys:?}"));
                            let _g = CallGuard(calls.clone(), me, faults);
                            let out = if one {
                                let k = keys[0];
                                dl.load_one(K(k, p.hash_mod)).await.map(|v| v.map(|v| (k, v)).into_iter().collect::<BTreeMap<_, _>>())
                            } else {
                                dl.load_many(keys.iter().map(|k| K(*k, p.hash_mod)))
                                    .await
                                    .map(|m| m.into_iter().map(|(k, v)| (k.0, v)).collect())
                            };
                            let now = at();
                            simrt::event(|| format!("call {me} returns {out:?}"));
                            calls.with(|l| {
                                l[me].ret = Some(now);
                                l[me].out = Some(out);
                            });
                        };
                        let _ = cancellable(f, cancel).await;
                        continue;
                    }
                    Op::Feed { keys } => {
                        let mut fed = vec![];
                        let mut vals = vec![];
                        for k in keys {
                            let src = feeds.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            fed.push((k, src));
                            vals.push((K(k, p.hash_mod), V { key: k, src }));
                        }
                        dl.feed_many(vals).await;
                        Ctl::Feed(fed)
                    }
                    Op::Clear => {
                        dl.clear();
                        Ctl::Clear
                    }
                    Op::EnableCache(b) => {
                        dl.enable_cache(b).await_unit();
                        Ctl::Cache(b)
                    }
                    Op::EnableAll(b) => {
                        dl.enable_all_cache(b);
                        Ctl::All(b)
                    }
                    Op::Dump => Ctl::Dump(dl.get_cached_values().into_iter().map(|(k, v)| (k.0, v)).collect()),
                };
                simrt::event(|| format!("{op:?}"));
                ctls.push(CtlRec { op, inv, ret: at() });
            }
        }));
    }
    for h in hs {
        let _ = h.await;
    }
}
trait AwaitUnit {
    fn await_unit(self);
}
impl AwaitUnit for () {
    fn await_unit(self) {}
}

impl LoaderScenario {
    /// which batch served this call, as far as its result tells
    fn served(c: &CallRec) -> BTreeSet<u64> {
        match &c.out {
            Some(Ok(m)) => m.values().map(|v| v.src).filter(|s| *s < 1_000_000).collect(),
            Some(Err(e)) => [*e].into(),
            None => BTreeSet::new(),
        }
    }

    fn check(&self, p: &Plan, calls: &[CallRec], batches: &[BatchRec], ctls: &[CtlRec]) -> Option<Violation> {
        let slip = p.sched.slip_pm > 0;
        let bad = |c: &str, m: String| Some(Violation::new(c, m));
        for (n, b) in batches.iter().enumerate() {
            if b.keys.is_empty() {
                return bad("empty-batch", format!("batch {n} was dispatched without keys"));
            }
            if b.keys.windows(2).any(|w| w[0] == w[1]) {
                return bad("duplicate-key", format!("batch {n} asks twice for a key: {:?}", b.keys));
            }
        }
        for (i, c) in calls.iter().enumerate() {
            let want: BTreeSet<u32> = c.keys.iter().copied().collect();
            // the batches that may have served it
            let window = |b: &BatchRec| b.start.s > c.inv.s && b.end.is_some_and(|e| c.ret.map_or(true, |r| e.s < r.s));
            match &c.out {
                Some(Ok(m)) => {
                    for (k, v) in m {
                        if !want.contains(k) {
                            return bad("not-asked", format!("call {i} asked for {want:?} and got key {k}"));
                        }
                        if v.key != *k {
                            return bad("wrong-key", format!("call {i} got the value of key {} for key {k}", v.key));
                        }
                        if v.src < 1_000_000 {
                            let Some(b) = batches.get(v.src as usize) else {
                                return bad("invented", format!("call {i} got {v:?}"));
                            };
                            if !b.keys.contains(k) || b.plan.fail || b.plan.panic || missing(&b.plan, *k) {
                                return bad("invented", format!("call {i} got {v:?}, which batch {} did not return", v.src));
                            }
                            if !self.cache && !window(b) {
                                return bad("stale", format!("call {i} got {v:?} from a batch that was dispatched before the call"));
                            }
                        } else if !self.cache {
                            return bad("stale", format!("call {i} got the fed value {v:?} without a cache"));
                        }
                    }
                    for k in want.iter().filter(|k| !m.contains_key(k)) {
                        if !batches.iter().any(|b| window(b) && b.keys.contains(k) && !b.plan.fail && !b.plan.panic && missing(&b.plan, *k)) {
                            return bad("lost", format!("call {i} did not get key {k}, and no batch of its window lacked it"));
                        }
                    }
                }
                Some(Err(e)) => {
                    let ok = batches.get(*e as usize).is_some_and(|b| b.plan.fail && window(b) && want.iter().any(|k| b.keys.contains(k)));
                    if !ok {
                        return bad("wrong-error", format!("call {i} for {want:?} failed with the error of batch {e}, which does not concern it"));
                    }
                }
                None if c.panicked => {
                    let ok = batches.iter().any(|b| b.plan.panic && b.start.s > c.inv.s && want.iter().any(|k| b.keys.contains(k)));
                    if !ok {
                        return bad("panic", format!("call {i} for {want:?} panicked and no loader panic concerns it"));
                    }
                }
                None if c.cancelled.is_some() => {}
                None => return bad("stranded", format!("call {i} for {want:?} never returned")),
            }
        }
        if self.cache {
            return self.check_cache(p, calls, batches, ctls);
        }
        if !self.discipline {
            return None;
        }
        // every (batch, key) is there because of a call that no other batch served
        for (n, b) in batches.iter().enumerate() {
            let mut biggest = 0;
            for k in &b.keys {
                let why: Vec<&CallRec> = calls
                    .iter()
                    .filter(|c| {
                        c.keys.contains(k)
                            && c.inv.s < b.start.s
                            && match &c.out {
                                Some(Ok(m)) => match m.get(k) {
                                    Some(v) => v.src == n as u64,
                                    None => c.ret.unwrap().s > b.start.s,
                                },
                                Some(Err(e)) => *e == n as u64,
                                None => true,
                            }
                    })
                    .collect();
                if why.is_empty() {
                    return bad("loaded-twice", format!("batch {n} loads key {k} although every call for it was served by another batch or came later"));
                }
                biggest = biggest.max(why.iter().map(|c| c.keys.iter().collect::<BTreeSet<_>>().len()).max().unwrap());
            }
            if b.keys.len() >= p.max + biggest {
                return bad("too-big", format!("batch {n} has {} keys; the limit is {} and no call has more than {biggest}", b.keys.len(), p.max));
            }
            if b.keys.len() >= p.max && !slip {
                // full: it leaves at the time of the call that filled it
                let last = calls.iter().filter(|c| c.inv.s < b.start.s && c.keys.iter().any(|k| b.keys.contains(k))).map(|c| c.inv.t).max().unwrap();
                if b.start.t > last {
                    return bad("full-waits", format!("batch {n} was full at {last} ns and left at {} ns", b.start.t));
                }
            }
        }
        if !slip {
            for (i, c) in calls.iter().enumerate() {
                for n in Self::served(c) {
                    let b = &batches[n as usize];
                    if b.start.t > c.inv.t + p.delay * 1000 {
                        return bad("late", format!("call {i} waited {} ns for its batch; the delay is {} us", b.start.t - c.inv.t, p.delay));
                    }
                    // nothing left between the call and its batch
                    if let Some((m, x)) = batches.iter().enumerate().find(|(_, x)| x.start.t > c.inv.t && x.start.t < b.start.t) {
                        return bad("not-batched", format!("call {i} at {} ns is served by batch {n} at {} ns although batch {m} left at {} ns", c.inv.t, b.start.t, x.start.t));
                    }
                    // it returns as soon as its batch does
                    if c.ret.unwrap().t > b.end.unwrap().t && Self::served(c).len() == 1 {
                        return bad("late", format!("call {i} returned at {} ns, its batch at {} ns", c.ret.unwrap().t, b.end.unwrap().t));
                    }
                }
                // keys asked for while a batch is being collected go into that batch: two
                // calls made at the same simulated time before any dispatch share it
                for (j, d) in calls.iter().enumerate().skip(i + 1) {
                    let (a, b) = (Self::served(c), Self::served(d));
                    if a.len() == 1 && b.len() == 1 && a != b {
                        let (x, y) = (&batches[*a.first().unwrap() as usize], &batches[*b.first().unwrap() as usize]);
                        let (early, late) = if x.start.t < y.start.t { (x, d) } else if y.start.t < x.start.t { (y, c) } else { continue };
                        if late.inv.t < early.start.t {
                            return bad("not-batched", format!("calls {i} and {j} waited together but were loaded separately"));
                        }
                    }
                }
            }
        }
        None
    }

    fn check_cache(&self, p: &Plan, calls: &[CallRec], batches: &[BatchRec], ctls: &[CtlRec]) -> Option<Violation> {
        let bad = |c: &str, m: String| Some(Violation::new(c, m));
        // Each insertion of a value happens somewhere in an interval; so does what undoes it.
        let fed = |k: u32, src: u64| {
            ctls.iter().find_map(|c| match &c.op {
                Ctl::Feed(f) if f.iter().any(|x| *x == (k, src)) => Some((c.inv.s, c.ret.s)),
                _ => None,
            })
        };
        // a batch inserts between the end of its load and the return of any of its callers
        let batch_ins = |n: usize, k: u32| {
            let b = &batches[n];
            let end = b.end.map_or(u64::MAX, |e| e.s);
            let ret = calls
                .iter()
                .filter(|c| matches!(&c.out, Some(Ok(m)) if m.get(&k).is_some_and(|v| v.src == n as u64)) && c.inv.s < b.start.s)
                .filter_map(|c| c.ret.map(|r| r.s))
                .min()
                .unwrap_or(u64::MAX);
            (end, ret)
        };
        let insertion = |k: u32, src: u64| if src >= 1_000_000 { fed(k, src) } else { Some(batch_ins(src as usize, k)) };
        // all insertions for a key
        let inserts = |k: u32| -> Vec<(u64, u64, u64)> {
            let mut v = vec![];
            for c in ctls {
                if let Ctl::Feed(f) = &c.op {
                    // a feed with the same key twice keeps the last
                    if let Some((_, src)) = f.iter().rev().find(|x| x.0 == k) {
                        v.push((*src, c.inv.s, c.ret.s));
                    }
                }
            }
            for (n, b) in batches.iter().enumerate() {
                if b.keys.contains(&k) && !b.plan.fail && !b.plan.panic && !missing(&b.plan, k) {
                    let (i, r) = batch_ins(n, k);
                    v.push((n as u64, i, r));
                }
            }
            v
        };
        let dumps: Vec<(usize, &CtlRec)> = ctls.iter().enumerate().filter(|c| matches!(c.1.op, Ctl::Dump(_))).collect();
        let mut reads: Vec<(String, u32, u64, u64, u64, u64, bool)> = vec![]; // who, key, src, invoke, return, start-of-own-batch-or-0, dump
        for (i, c) in calls.iter().enumerate() {
            if let Some(Ok(m)) = &c.out {
                for (k, v) in m {
                    reads.push((format!("call {i}"), *k, v.src, c.inv.s, c.ret.unwrap().s, 0, false));
                }
            }
        }
        for (i, d) in &dumps {
            if let Ctl::Dump(m) = &d.op {
                for (k, v) in m {
                    reads.push((format!("dump {i}"), *k, v.src, d.inv.s, d.ret.s, 0, true));
                }
            }
        }
        let clears: Vec<&CtlRec> = ctls.iter().filter(|c| matches!(c.op, Ctl::Clear)).collect();
        let disables = |f: &dyn Fn(&Ctl) -> Option<bool>, s0: u64, s1: u64| -> (bool, bool) {
            // (certainly disabled during [s0,s1], possibly disabled at some point in it)
            let mut possible = false;
            let evs: Vec<(&CtlRec, bool)> = ctls.iter().filter_map(|c| f(&c.op).map(|b| (c, b))).collect();
            // certainly: some disable returned before s0 and every enable that could come after it starts after s1
            let certain = evs.iter().any(|(d, en)| !*en && d.ret.s < s0 && !evs.iter().any(|(e, en)| *en && e.ret.s > d.inv.s && e.inv.s < s1));
            // possible: some disable starts before s1 and no enable lies entirely between it and s0
            for (d, en) in &evs {
                if !*en && d.inv.s < s1 && !evs.iter().any(|(e, en)| *en && e.inv.s > d.ret.s && e.ret.s < s0) {
                    possible = true;
                }
            }
            (certain, possible)
        };
        let loc = |c: &Ctl| if let Ctl::Cache(b) = c { Some(*b) } else { None };
        let all = |c: &Ctl| if let Ctl::All(b) = c { Some(*b) } else { None };
        for (who, k, src, inv, ret, _, dump) in &reads {
            let Some((ii, ir)) = insertion(*k, *src) else {
                return bad("invented", format!("{who} got key {k} from a feed that did not happen"));
            };
            if ii > *ret {
                return bad("future", format!("{who} got a value that was inserted later"));
            }
            let own = *src < 1_000_000 && batches[*src as usize].start.s > *inv;
            if own && !*dump {
                continue; // loaded for this call
            }
            // from the cache: it must not have been overwritten or cleared before
            let over = inserts(*k).into_iter().find(|(s, i, r)| s != src && *i > ir && *r < *inv && {
                // an insertion by a batch counts only if caching certainly was on then
                *s >= 1_000_000
            });
            if let Some((s, ..)) = over {
                return bad("stale", format!("{who} got value {src} of key {k}, overwritten by {s} before"));
            }
            if clears.iter().any(|c| c.inv.s > ir && c.ret.s < *inv) {
                return bad("stale", format!("{who} got value {src} of key {k}, cleared before"));
            }
            if !*dump && (disables(&loc, *inv, *ret).0 || disables(&all, *inv, *ret).0) {
                return bad("disabled", format!("{who} got value {src} of key {k} from a disabled cache"));
            }
            if *src < 1_000_000 {
                // inserted by a batch: the cache must have been on
                let b = &batches[*src as usize];
                if disables(&loc, b.end.unwrap().s, *inv).0 && disables(&loc, b.start.s, b.end.unwrap().s + 1).0 {
                    return bad("disabled", format!("{who} found value {src} of key {k}, loaded while the cache was disabled"));
                }
            }
        }
        // what certainly is in an enabled cache is not loaded again
        for (n, b) in batches.iter().enumerate() {
            for k in &b.keys {
                // every call that can have asked for it
                let askers: Vec<&CallRec> = calls
                    .iter()
                    .filter(|c| {
                        c.keys.contains(k)
                            && c.inv.s < b.start.s
                            && match &c.out {
                                Some(Ok(m)) => match m.get(k) {
                                    Some(v) => v.src == n as u64,
                                    None => c.ret.unwrap().s > b.start.s,
                                },
                                Some(Err(e)) => *e == n as u64,
                                None => true,
                            }
                    })
                    .collect();
                if askers.is_empty() {
                    return bad("loaded-twice", format!("batch {n} loads key {k} and no call needed it"));
                }
                let hit = |c: &CallRec| {
                    inserts(*k).into_iter().any(|(src, i, r)| {
                        r < c.inv.s
                            && !clears.iter().any(|x| x.ret.s > i && x.inv.s < b.start.s)
                            && !disables(&loc, i.min(if src < 1_000_000 { batches[src as usize].start.s } else { i }), b.start.s).1
                            && !disables(&all, i.min(if src < 1_000_000 { batches[src as usize].start.s.saturating_sub(0) } else { i }), b.start.s).1
                            // the batch task remembers whether the cache was on when it was created
                            && (src >= 1_000_000 || !ctls.iter().any(|x| matches!(x.op, Ctl::All(false) | Ctl::Cache(false)) && x.inv.s < c.inv.s))
                    })
                };
                if askers.iter().all(|c| hit(c)) {
                    return bad("cache-miss", format!("batch {n} loads key {k} although it was in the cache when every call for it was made"));
                }
            }
        }
        // a dump shows everything that certainly is there
        for (i, d) in &dumps {
            if let Ctl::Dump(m) = &d.op {
                for k in 0..16 {
                    let sure = inserts(k).into_iter().any(|(src, ii, ir)| {
                        src >= 1_000_000 && ir < d.inv.s && !clears.iter().any(|x| x.ret.s > ii && x.inv.s < d.ret.s)
                    });
                    if sure && !m.contains_key(&k) {
                        return bad("lost", format!("dump {i} lacks the fed key {k}"));
                    }
                }
            }
        }
        let _ = p;
        None
    }
}

impl Scenario for LoaderScenario {
    fn id(&self) -> &'static str {
        self.id
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            60_000
        } else {
            2_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws seeded clients (load_one/load_many with repeated and colliding keys, cancellation times, cache operations), the batch delay \
         and size limit, the fate of every batch (duration, failure, panic, missing values), the number of simulated threads and the preemption and \
         time-slip rates; it is non-trivial when a batch served more than one call or a fault fired, and distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["core::data_loader::data_loader", "core::data_loader::cache", "futures_channel::oneshot"],
            vec!["tokio::spawn (simulated)", "futures_timer::Delay (simulated clock)", "std::sync::Mutex and atomics (scheduling points)", "Loader::load (workload)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["caller_cancelled", "batch_fails", "loader_panic", "value_missing"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["simulated threads switch at lock, unlock, atomic and await points only (sequentially consistent)"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let big = tier == Tier::Thorough;
        let clients = r.range(1, if big { 7 } else { 5 });
        let nkeys = r.range(1, 8) as u64;
        let gap = *r.pick(&[0, 20, 300, 2000]);
        let pc = *r.pick(&[0.0, 0.0, 0.3]);
        let (pf, pp, pm) = (*r.pick(&[0.0, 0.2, 0.4]), *r.pick(&[0.0, 0.0, 0.1]), *r.pick(&[0.0, 0.3]));
        let ctl = if self.cache { *r.pick(&[0.2, 0.5]) } else { 0.0 };
        let toggles = r.chance(0.5);
        let clients = (0..clients)
            .map(|_| {
                (0..r.range(1, if big { 7 } else { 5 }))
                    .map(|_| Step {
                        wait: if gap == 0 { 0 } else { r.below(gap) },
                        op: if r.chance(ctl) {
                            match r.below(if toggles { 6 } else { 4 }) {
                                0 | 1 => Op::Feed { keys: (0..r.range(1, 3)).map(|_| r.below(nkeys) as u32).collect() },
                                2 => Op::Clear,
                                3 => Op::Dump,
                                4 => Op::EnableCache(r.chance(0.5)),
                                _ => Op::EnableAll(r.chance(0.5)),
                            }
                        } else {
                            Op::Load {
                                keys: (0..*r.pick(&[0, 1, 1, 2, 3, 6])).map(|_| r.below(nkeys) as u32).collect(),
                                one: r.chance(0.4),
                                cancel: r.chance(pc).then(|| r.below(3000)),
                            }
                        },
                    })
                    .collect()
            })
            .collect();
        let batches = (0..r.range(1, 6))
            .map(|_| Batch {
                dur: *r.pick(&[0, 5, 100, 1500, 5000]),
                yields: r.below(3) as u8,
                fail: r.chance(pf),
                panic: r.chance(pp),
                missing: r.below(4) as u32,
                has_missing: r.chance(pm),
            })
            .collect();
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            delay: *r.pick(&[0, 50, 1000, 4000]),
            max: *r.pick(&[1, 2, 3, 4, 1000]),
            hash_mod: *r.pick(&[1, 3, 1000]),
            cache: self.cache,
            clients,
            batches,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let p = Arc::new(p);
        let cfg = sched_of(plan);
        let (calls, batches, ctls, faults) = (Log::default(), Log::default(), Log::default(), Faults::default());
        let (p2, c2, b2, t2, f2) = (p.clone(), calls.clone(), batches.clone(), ctls.clone(), faults.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let l = L { plan: p2.clone(), recs: b2, faults: f2.clone() };
            if p2.cache {
                run_all(DataLoader::with_cache(l, HashMapCache::<std::collections::hash_map::RandomState>::default()), p2, c2, t2, f2).await
            } else {
                let _ = NoCache;
                run_all(DataLoader::new(l), p2, c2, t2, f2).await
            }
        });
        let (calls, batches, ctls) = (calls.take(), batches.take(), ctls.take());
        let mut v = end_violation(&end);
        if v.as_ref().map_or(true, |v| v.class == "stuck") {
            v = self.check(&p, &calls, &batches, &ctls).or(v);
        }
        let f = faults.lock().unwrap().clone();
        let shared = batches.iter().enumerate().any(|(n, _)| calls.iter().filter(|c| Self::served(c).contains(&(n as u64))).count() > 1);
        RunOut {
            violation: v,
            nontrivial: shared || !f.is_empty(),
            report,
            faults: f,
            sample: json!({"calls": calls.len(), "batches": batches.len(), "cache_ops": ctls.len()}),
        }
    }
}
