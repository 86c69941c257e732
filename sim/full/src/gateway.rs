//! The gateway end to end: clients, the real request path, a simulated upstream.
use std::collections::{BTreeMap, BTreeSet};
use std::mem::discriminant;
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::model::*;
use crate::up::*;
use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct ReqPlan {
    /// µs before it is sent
    pub wait: u64,
    #[serde(default)]
    pub sels: Vec<Sel>,
    /// a mutation with these nonces instead
    #[serde(default)]
    pub create: Vec<u32>,
    #[serde(default)]
    pub user: u32,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub knobs: Knobs,
    pub up: UpPlan,
    pub clients: Vec<Vec<ReqPlan>>,
    /// once all is quiet, every request is sent again and must succeed
    #[serde(default)]
    pub probe: bool,
}

#[derive(Clone, Debug)]
pub struct Req {
    pub plan: ReqPlan,
    pub inv: At,
    pub ret: At,
    pub reply: Option<Result<Reply, String>>,
    pub probe: bool,
    pub need: Need,
    pub text: String,
}
impl Req {
    pub fn who(&self) -> (String, u32) {
        (auth(self.plan.user), self.plan.user % 3)
    }
    pub fn overlaps(&self, o: &Req) -> bool {
        self.inv.s <= o.ret.s && o.inv.s <= self.ret.s
    }
}
pub fn auth(u: u32) -> String {
    format!("Bearer user-{u}")
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
    Concurrent,
    Failures,
    Recovery,
    Mutations,
    Caching,
    NPlusOne,
    Isolation,
}

pub struct GatewayScenario {
    pub id: &'static str,
    pub profile: Profile,
}

pub struct World {
    pub reqs: Vec<Req>,
    pub calls: Vec<Call>,
}

/// minimisation may leave a selection empty, which is no query
fn sane(mut r: ReqPlan) -> ReqPlan {
    if r.sels.is_empty() && r.create.is_empty() {
        r.sels = vec![Sel { arg: 1, ..Default::default() }];
    }
    r
}
pub fn body_of(k: &Knobs, r: &ReqPlan) -> (String, Value) {
    if !r.create.is_empty() {
        let mut vars = serde_json::Map::new();
        let mut decl = vec![];
        let mut t = String::new();
        for (i, n) in r.create.iter().enumerate() {
            decl.push(format!("$n{i}: Int!"));
            t.push_str(&format!(" m{i}: create(nonce: $n{i}) {{ id rev title }}"));
            vars.insert(format!("n{i}"), json!(n));
        }
        let text = format!("mutation M({}) {{{t} }}", decl.join(", "));
        return (text.clone(), json!({"query": text, "variables": vars}));
    }
    let p = print(k, &r.sels, "Q");
    (format!("{}|{}", p.text, Value::Object(p.vars.clone())), json!({"query": p.text, "variables": p.vars}))
}

async fn one(app: Arc<AppContext>, k: &Knobs, up: &UpPlan, rp: ReqPlan, probe: bool) -> Req {
    let rp = sane(rp);
    let (text, body) = body_of(k, &rp);
    let headers = vec![("authorization".to_string(), auth(rp.user)), ("tenant".to_string(), (rp.user % 3).to_string())];
    let mut need_ = Need::default();
    let a = auth(rp.user);
    let who = Who { auth: &a, tenant: rp.user % 3 };
    need(k, up, Ty::Query, None, &rp.sels, &who, &mut need_);
    for n in &rp.create {
        *need_.res.entry(Res::Create(*n)).or_default() += 1;
    }
    let inv = at();
    simrt::event(|| format!("request by {a} at {inv:?}: {text}"));
    let cancel = rp.cancel;
    let out = cancellable(async move { send(app, "POST", "/graphql", &headers, body.to_string(), false).await }, cancel).await;
    let ret = at();
    let reply = match out {
        Ok(r) => Some(r),
        Err(e) if e.is_cancelled() => None,
        Err(e) => Some(Err(format!("panic: {e:?}"))),
    };
    simrt::event(|| format!("reply to {a} at {ret:?}: {:?}", reply.as_ref().map(|r| r.as_ref().map(|r| r.body.clone()))));
    Req { plan: rp, inv, ret, reply, probe, need: need_, text }
}

pub fn run(p: &Plan, cfg: &SchedCfg, replay: Option<Vec<u32>>) -> (simrt::RunEnd, World, simrt::RunReport, BTreeMap<String, u64>) {
    let (b, e) = prepared(&files(&p.knobs), &SimEnv::default()).expect("configuration");
    let up = Arc::new(Up::new(p.up.clone()));
    let reqs = Log::<Req>::default();
    let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
    let (end, _, report) = simrt::world::run(cfg, replay, move || async move {
        let rt = runtime(u2.clone(), SimFile::default(), SimEnv::default(), (None, None));
        let app = Arc::new(AppContext::new(b, rt, e));
        let mut hs = vec![];
        for steps in p2.clients.clone() {
            let (app, r2, p3, f) = (app.clone(), r2.clone(), p2.clone(), u2.faults.clone());
            hs.push(simrt::task::spawn_named("user", async move {
                for st in steps {
                    if st.wait > 0 {
                        simrt::sleep(us(st.wait)).await;
                    }
                    let r = one(app.clone(), &p3.knobs, &p3.up, st, false).await;
                    if r.reply.is_none() {
                        fault(&f, "client_disconnect");
                    }
                    r2.push(r);
                }
            }));
        }
        for h in hs {
            let _ = h.await;
        }
        if p2.probe {
            *u2.quiet.lock().unwrap() = true;
            simrt::sleep(us(200_000_000)).await;
            simrt::world::calm(true);
            for st in p2.clients.iter().flatten() {
                let mut st = st.clone();
                st.cancel = None;
                st.create.iter_mut().for_each(|n| *n += 100_000);
                r2.push(one(app.clone(), &p2.knobs, &p2.up, st, true).await);
            }
        }
    });
    let f = up.faults.lock().unwrap().clone();
    (end, World { reqs: reqs.take(), calls: up.calls.take() }, report, f)
}

pub fn tag_of(m: &str) -> Option<usize> {
    let i = m.rfind("[#")?;
    m[i + 2..].split(']').next()?.parse().ok()
}

/// Checks that hold in every run, whatever the profile.
pub fn judge(p: &Plan, w: &World, slip: bool) -> Option<Violation> {
    let k = &p.knobs;
    let sharing = k.dedupe != 0 || !k.cache.is_empty();
    for r in &w.reqs {
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, m: String| Some(Violation::new(c, format!("{m}\nrequest {} by user {} at {:?}..{:?}\nreply {:?}", r.text, r.plan.user, r.inv, r.ret, reply)));
        let reply = match reply {
            Ok(x) => x,
            Err(e) => return bad("no-reply", format!("the request handler gave no response: {e}")),
        };
        if reply.status != 200 {
            return bad("status", format!("status {}", reply.status));
        }
        let v = reply.json();
        // it may have joined a whole operation, and that one a call of a third request
        let share_from = if sharing { w.reqs.iter().filter(|o| o.overlaps(r)).flat_map(|o| w.reqs.iter().filter(|l| l.overlaps(o))).map(|o| o.inv).min_by_key(|a| a.s).unwrap_or(r.inv) } else { r.inv };
        let (a, tenant) = r.who();
        let errs = v["errors"].as_array().cloned().unwrap_or_default();
        let j = Judge { k, up: &p.up, calls: &w.calls, who: Who { auth: &a, tenant }, inv: r.inv, ret: r.ret, share_from, shares: sharing, errors: errs.iter().filter_map(|e| tag_of(e["message"].as_str().unwrap_or_default())).collect(), spans: w.reqs.iter().map(|r| (r.inv, r.ret)).collect() };
        if !errs.is_empty() {
            // what a GraphQL upstream reports beside its data is passed on beside the data
            let told = |c: &Call| c.outcome == Outcome::Soft(GQL_ERRORS);
            if !v["data"].is_null() && !errs.iter().all(|e| tag_of(e["message"].as_str().unwrap_or_default()).and_then(|n| w.calls.get(n)).is_some_and(told)) {
                return bad("partial", "a response with errors and data".into());
            }
            let guilty = |c: &Call| {
                if !(c.failed() || told(c)) || c.end.s < share_from.s || c.end.s > r.ret.s {
                    return false;
                }
                if c.covers.iter().any(|x| r.need.res.contains_key(x)) {
                    return true;
                }
                // the same batch of the same resolver
                k.batching()
                    && w.calls.iter().any(|c2| {
                        c2.covers.iter().any(|x| r.need.res.contains_key(x))
                            && c2.start.s >= share_from.s
                            && discriminant(&c2.covers[0]) == discriminant(&c.covers[0])
                            && (slip || c2.start.t == c.start.t)
                    })
            };
            for e in &errs {
                let m = e["message"].as_str().unwrap_or_default();
                if let Some(n) = tag_of(m) {
                    if n >= w.calls.len() || !guilty(&w.calls[n]) {
                        return bad("foreign-error", format!("failed with the error of call {n}: {:?}", w.calls.get(n)));
                    }
                }
            }
            if !w.calls.iter().any(guilty) {
                return bad("unexplained-error", "no upstream call this request depends on failed during it".into());
            }
            if v["data"].is_null() {
                continue;
            }
        }
        if !r.plan.create.is_empty() {
            for (i, n) in r.plan.create.iter().enumerate() {
                let o = &v["data"][format!("m{i}")];
                let rev = o["rev"].as_u64().unwrap_or(u64::MAX) as usize;
                let ok = w.calls.get(rev).is_some_and(|c| c.delivered() && c.has(&Res::Create(*n)) && c.start.s >= r.inv.s && c.end.s <= r.ret.s);
                if (o.is_null() && w.calls.iter().any(|c| c.has(&Res::Create(*n)) && matches!(c.outcome, Outcome::Soft(_)))) || (ok && o["title"] == json!(format!("created-{n}"))) {
                    continue;
                }
                return bad("mutation-result", format!("mutation with nonce {n} answered with {o}"));
            }
            continue;
        }
        if let Err((c, m)) = j.object(Ty::Query, Obj::Me, &v["data"], &r.plan.sels, None, "data") {
            return bad(c, m);
        }
    }
    // the upstream's side
    let mut asked: BTreeMap<&Res, usize> = BTreeMap::new();
    for c in &w.calls {
        let bad = |cl: &str, m: String| Some(Violation::new(cl, format!("{m}: call {} {} {} body {} headers {:?} at {:?}", c.n, c.method, c.url, c.body, c.headers.get("authorization"), c.start)));
        let set: BTreeSet<&Res> = c.covers.iter().collect();
        // the key of a GraphQL upstream is the whole query
        let dup = match c.covers.first() {
            Some(Res::UserG(_)) => c.body.as_array().is_some_and(|a| a.iter().map(|q| q.to_string()).collect::<BTreeSet<_>>().len() != a.len()),
            _ => set.len() != c.covers.len(),
        };
        if c.covers.is_empty() || dup {
            return bad("duplicate-key", "a call asks for nothing or for one thing twice".into());
        }
        for x in &c.covers {
            *asked.entry(x).or_default() += 1;
            let a = c.headers.get("authorization").cloned().unwrap_or_default();
            let by: Vec<&Req> = w.reqs.iter().filter(|r| r.inv.s <= c.start.s && r.need.res.contains_key(x)).collect();
            if by.is_empty() {
                return bad("unneeded-call", format!("nobody asked for {x:?}"));
            }
            let merged = k.batching() && !k.batch_headers;
            if !merged && !by.iter().any(|r| r.who().0 == a) {
                return bad("wrong-identity", format!("{x:?} fetched with the identity of another user"));
            }
        }
        if let Some((_, max)) = k.batch {
            if c.covers.len() > max.max(1) as usize {
                return bad("over-size", format!("{} keys with maxSize {max}", c.covers.len()));
            }
        }
    }
    for (x, n) in asked {
        let most: usize = w.reqs.iter().filter_map(|r| r.need.res.get(x)).sum();
        if n > most {
            return Some(Violation::new("repeated-call", format!("{x:?} was fetched {n} times; all requests together need it {most} times")));
        }
    }
    None
}

impl GatewayScenario {
    fn extra(&self, p: &Plan, w: &World, slip: bool) -> Option<Violation> {
        let k = &p.knobs;
        let v = |c: &str, m: String| Some(Violation::new(c, m));
        let cancels = p.clients.iter().flatten().any(|r| r.cancel.is_some());
        let failed = w.calls.iter().any(|c| c.failed() || matches!(c.outcome, Outcome::Soft(_)));
        // mutations: exactly once, in order
        let mut nonces: BTreeMap<u32, (usize, usize)> = BTreeMap::new();
        for r in &w.reqs {
            for n in &r.plan.create {
                let e = nonces.entry(*n).or_default();
                e.0 += 1;
                e.1 += r.reply.is_some() as usize;
            }
        }
        for (n, (most, least)) in &nonces {
            let cs = w.calls.iter().filter(|c| c.has(&Res::Create(*n))).count();
            if cs > *most {
                return v("mutation-repeated", format!("nonce {n} was sent {cs} times for {most} mutations"));
            }
            if cs < *least {
                return v("mutation-lost", format!("nonce {n} was sent {cs} times for {least} mutations that were answered"));
            }
        }
        for r in &w.reqs {
            for i in 1..r.plan.create.len() {
                let (n, prev) = (r.plan.create[i], r.plan.create[i - 1]);
                // a nonce used once can be told apart
                if nonces[&n].0 != 1 || nonces[&prev].0 != 1 {
                    continue;
                }
                let call = |n| w.calls.iter().find(|c| c.has(&Res::Create(n)));
                match (call(prev), call(n)) {
                    (Some(a), Some(b)) if b.start.s < a.end.s => {
                        return v("mutation-order", format!("mutation field {i} (nonce {n}) started at {:?}, before the field ahead of it (nonce {prev}) ended at {:?}", b.start, a.end));
                    }
                    (None, Some(_)) => return v("mutation-order", format!("mutation field {i} ran although the one ahead of it did not")),
                    _ => {}
                }
            }
        }
        // once faults stop, everything works again
        for r in w.reqs.iter().filter(|r| r.probe) {
            let ok = matches!(&r.reply, Some(Ok(x)) if x.json()["errors"].as_array().map_or(true, |e| e.is_empty()));
            if !ok && !r.need.missing {
                // in a batch without a healthy answer for a missing row there is nothing to recover
                return v("no-recovery", format!("after faults stopped, request {} still fails: {:?}", r.text, r.reply));
            }
        }
        // answers in bounded time
        if !slip {
            let lat = p.up.lat.iter().max().copied().unwrap_or(0);
            let extra = p.up.faults.iter().map(|f| match f { Fault::Hang => 60_000_000, Fault::Slow(x) => *x, _ => 0 }).max().unwrap_or(0);
            let delay = k.batch.map(|b| b.0 * 1000).unwrap_or(0);
            // levels of resolvers; sharing can make a request wait for another's work and then do its own
            let n = p.clients.len() as u64 + 1;
            let bound = (10 * (lat + extra + delay) + 1000) * 1000 * if k.dedupe != 0 || !k.cache.is_empty() { n } else { 1 } * (1 + p.clients.iter().flatten().map(|r| r.create.len() as u64).max().unwrap_or(0));
            for r in &w.reqs {
                if r.ret.t - r.inv.t > bound {
                    return v("late", format!("request {} took {} ms of simulated time; the upstream never takes more than {} ms", r.text, (r.ret.t - r.inv.t) / 1_000_000, (lat + extra) / 1000));
                }
            }
        }
        // an entry in the cache is used
        if !slip && !cancels && !failed {
            for f in 0..NRES {
                let Some(ms) = k.cache_of(f) else { continue };
                for c2 in &w.calls {
                    for x in &c2.covers {
                        // asked for through cached fields only
                        let only = w.reqs.iter().filter_map(|r| r.need.by.get(x)).all(|by| by.iter().all(|r| *r == f));
                        if !only {
                            continue;
                        }
                        // whoever asked for it may have looked before the entry was there
                        let asked = w.reqs.iter().filter(|r| r.inv.s <= c2.start.s && c2.start.s <= r.ret.s && r.need.res.contains_key(x)).map(|r| r.inv.s).min();
                        let delay = k.batch.map(|b| b.0).unwrap_or(0) * 1_000_000;
                        for c1 in w.calls.iter().filter(|c| c.n != c2.n && c.has(x) && c.delivered() && c.headers == c2.headers && (!matches!(x, Res::UserG(_)) || c.body == c2.body && !c.body.is_array()) && c2.start.t < c.end.t + ms * 1_000_000) {
                            let stored = w.reqs.iter().filter(|r| r.inv.s <= c1.start.s && c1.end.s <= r.ret.s && r.need.res.contains_key(x)).map(|r| r.ret.s).max();
                            if let (Some(a), Some(st)) = (asked, stored) {
                                if st < a && self.profile == Profile::Caching && c1.end.t + delay < c2.start.t {
                                    return v("cache-unused", format!("{x:?} cached at {:?} for {ms} ms was fetched again at {:?}", c1.end, c2.start));
                                }
                            }
                        }
                    }
                }
            }
        }
        if self.profile == Profile::NPlusOne {
            return self.nplusone(p, w, slip, failed);
        }
        None
    }
    /// One request at a time: the number of upstream calls is bounded by the levels
    /// of the query, not by the number of objects.
    fn nplusone(&self, p: &Plan, w: &World, slip: bool, failed: bool) -> Option<Violation> {
        let k = &p.knobs;
        if p.clients.len() > 1 || slip || failed {
            return None;
        }
        let v = |c: &str, m: String| Some(Violation::new(c, m));
        for r in &w.reqs {
            if r.need.missing || r.plan.cancel.is_some() || r.reply.is_none() {
                continue;
            }
            let mine: Vec<&Call> = w.calls.iter().filter(|c| c.start.s >= r.inv.s && c.start.s <= r.ret.s).collect();
            for (x, n) in &r.need.res {
                let got = mine.iter().filter(|c| c.has(x)).count();
                let by = &r.need.by[x];
                // a GraphQL upstream is asked for what is selected: another selection is another call
                if matches!(x, Res::UserG(_)) {
                    continue;
                }
                let ded = by.iter().all(|f| k.deduped_of(*f));
                let cached = by.iter().any(|f| k.cache_of(*f).is_some());
                if got == 0 && !cached {
                    return v("not-fetched", format!("{x:?} is needed by {} and was not fetched", r.text));
                }
                if ded && got > 1 {
                    return v("not-deduped", format!("{x:?} was fetched {got} times in one request with dedupe on; {}", r.text));
                }
                let none = !by.iter().any(|f| k.deduped_of(*f));
                if none && !cached && !k.batching() && got != *n {
                    return v("call-count", format!("{x:?} was fetched {got} times, needed {n} times; {}", r.text));
                }
            }
            // a single list at the root whose members' relation is grouped
            if let (Some((_, max)), [root]) = (k.batch, r.plan.sels.as_slice()) {
                if field(Ty::Query, k, root).1 == Some(R_POSTS) && root.included() && k.cache.is_empty() {
                    for s in uniq(Ty::Post, k, &root.sub) {
                        let (_, res, _, _) = field(Ty::Post, k, s);
                        let grouped = match res {
                            Some(R_POST_USER) => matches!(k.user_mode(), 1 | 2 | 5),
                            Some(R_POST_COMMENTS) => k.comments_mode() == 1,
                            Some(R_POST_OWNER) => true,
                            _ => false,
                        };
                        if !grouped || !s.included() {
                            continue;
                        }
                        // only if no other place in the query uses that relation
                        let uses = count_uses(Ty::Query, k, &r.plan.sels, res.unwrap());
                        if uses != 1 {
                            continue;
                        }
                        let set: BTreeSet<Res> = (1..=p.up.np)
                            .map(|i| res_of(k, &p.up, res.unwrap(), resolve(k, &p.up, res.unwrap(), Some(Obj::Post(i)), 0).0, &Who { auth: "", tenant: r.plan.user % 3 }))
                            .collect();
                        let calls = mine.iter().filter(|c| set.iter().any(|x| c.has(x))).count() as u64;
                        // a batch leaves when it has max distinct keys, or at its delay
                        let loads: usize = set.iter().filter_map(|x| r.need.res.get(x)).sum();
                        let bound = loads as u64 / max + 1;
                        if calls > bound {
                            return v("n-plus-one", format!("{} ids took {calls} calls with maxSize {max}; {}", set.len(), r.text));
                        }
                    }
                }
            }
        }
        None
    }
}
fn count_uses(t: Ty, k: &Knobs, sels: &[Sel], r: u8) -> usize {
    uniq(t, k, sels)
        .iter()
        .map(|s| {
            let (_, res, ty, _) = field(t, k, s);
            (res == Some(r)) as usize + ty.map(|ty| count_uses(ty, k, &s.sub, r)).unwrap_or(0)
        })
        .sum()
}

pub fn draw_knobs(r: &mut Rng, pf: Profile) -> Knobs {
    let batch = if r.chance(match pf { Profile::NPlusOne => 0.8, _ => 0.6 }) {
        Some((*r.pick(&[1, 1, 2, 5, 10]), *r.pick(&[1, 2, 3, 5, 100, 100])))
    } else {
        None
    };
    let mut k = Knobs {
        batch,
        batch_headers: true,
        dedupe: if r.chance(0.5) { *r.pick(&[0x3ff, 0x3ff, 0x3ff, 1 << R_POST_USER, 0x2a5]) } else { 0 },
        rel_user: r.below(6) as u8,
        rel_posts: r.below(2) as u8,
        rel_comments: r.below(2) as u8,
        cache: vec![],
        server: Value::Null,
        root_cache: false,
        ids: if r.chance(0.4) { r.range(1, IDS as i64 - 1) as u8 } else { 0 },
        deep: r.chance(0.25),
        creates: if r.chance(0.6) { r.below(8) as u8 } else { 0 },
    };
    if pf == Profile::Caching || pf == Profile::Isolation && r.chance(0.35) {
        let n = r.range(1, 4);
        let all = r.chance(0.3);
        let ms = *r.pick(&[1, 5, 20, 100, 5000]);
        if all {
            k.cache = (0..NRES).map(|f| (f, ms)).collect();
        } else {
            for _ in 0..n {
                k.cache.push((r.below(NRES as u64) as u8, *r.pick(&[1, 5, 20, 100, 5000])));
            }
        }
    }
    k
}

impl Scenario for GatewayScenario {
    fn id(&self) -> &'static str {
        self.id
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            12_000
        } else {
            400_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws a configuration (batching delay and size, dedupe and cache per resolver, how each relation is resolved), upstream data, latencies and \
         faults per upstream call, and several clients with random queries, waits and disconnects; it is non-trivial when at least one response carried data \
         and two requests overlapped or an injected fault hit a call, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec![
                "config reader, blueprint, AppContext", "http::request_handler, RequestContext", "jit planner, executor, synth", "ir eval, eval_io, eval_http",
                "DataLoader, HttpDataLoader, GraphqlDataLoader, DedupeResult", "InMemoryCache",
            ],
            vec![
                "upstream service and network (simulated HttpIO)", "tokio time/spawn, futures-timer (simulated)", "std::sync locks and atomics (scheduling points)",
                "dashmap (simulated, sharded RwLock)", "file and environment access (simulated)",
            ],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        match self.profile {
            Profile::Caching | Profile::Mutations | Profile::Failures | Profile::Recovery => vec![
                "connection_error", "status_500", "garbage_body", "truncated_body", "empty_body", "missing_rows", "reordered_rows", "graphql_errors", "slow_response", "hung_upstream", "client_disconnect",
            ],
            _ => vec!["reordered_rows", "slow_response", "client_disconnect"],
        }
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let pf = self.profile;
        let mut knobs = draw_knobs(r, pf);
        let gql = pf == Profile::Caching && r.chance(0.12);
        if gql {
            knobs.rel_user = *r.pick(&[4, 4, 5]);
            knobs.cache.retain(|c| c.0 != R_POST_USER);
            knobs.cache.push((R_POST_USER, *r.pick(&[20, 100, 5000])));
        }
        let nu = r.range(1, 4) as u32;
        let np = r.range(1, 6) as u32;
        let dangling = if r.chance(0.3) { r.range(1, 2) as u32 } else { 0 };
        let unit = *r.pick(&[100u64, 1000, 5000, 20000]);
        let lat: Vec<u64> = (0..r.range(1, 7)).map(|_| *r.pick(&[0, 1, 1, 2, 3, 10]) * unit).collect();
        let mut faults = vec![];
        if gql {
            for _ in 0..r.range(1, 4) {
                faults.push(if r.chance(0.4) { Fault::GqlErrors } else { Fault::Ok });
            }
        } else if matches!(pf, Profile::Failures | Profile::Recovery | Profile::Mutations) || pf == Profile::Caching && r.chance(0.3) {
            let n = r.range(1, 9);
            let pr = *r.pick(&[0.1, 0.3, 0.6]);
            for _ in 0..n {
                faults.push(if r.chance(pr) {
                    r.pick(&[
                        Fault::Conn, Fault::Status500, Fault::Garbage, Fault::Truncated, Fault::Empty, Fault::MissingRows, Fault::Reverse, Fault::GqlErrors, Fault::GqlErrors, Fault::Slow(300_000), Fault::Hang,
                    ]).clone()
                } else {
                    Fault::Ok
                });
            }
        } else {
            let slow = r.chance(0.3);
            for _ in 0..r.range(1, 5) {
                faults.push(if r.chance(0.2) { Fault::Reverse } else if slow && r.chance(0.2) { Fault::Slow(200_000) } else { Fault::Ok });
            }
        }
        let up = UpPlan { nu, np, dangling, lat, faults, fault_until: *r.pick(&[20_000, 1_000_000, u64::MAX / 2000]), heads: vec![], nest: if r.chance(0.2) { r.range(1, 4) as usize } else { 0 }, ids: 0 };
        let nclients = match pf {
            Profile::NPlusOne if r.chance(0.6) => 1,
            _ => r.range(1, if tier == Tier::Quick { 5 } else { 7 }),
        };
        let users = if pf == Profile::Isolation { 3 } else { *r.pick(&[1, 1, 2, 3]) };
        let same = r.chance(0.4);
        let mut shared: Vec<Vec<Sel>> = vec![];
        let mut nonce = 0;
        let mut clients = vec![];
        for _ in 0..nclients {
            let mut steps = vec![];
            for _ in 0..r.range(1, 4) {
                let only = match pf {
                    Profile::Isolation => Some(vec![R_ME, R_ME, R_POSTS, R_POST]),
                    Profile::NPlusOne if r.chance(0.6) => Some(vec![R_POSTS]),
                    _ if gql => Some(vec![R_POSTS, R_POST]),
                    _ => None,
                };
                let sels = if same && !shared.is_empty() && r.chance(0.6) {
                    r.pick(&shared).clone()
                } else {
                    let conds = *r.pick(&[0.0, 0.0, 0.15]);
                    let depth = r.range(1, 4) as u32;
                    let mut g = Gen { r, k: &knobs, ids: nu.max(np) + if dangling > 0 { 2 } else { 0 }, budget: 24, conds, only };
                    g.sels(Ty::Query, depth, 1)
                };
                shared.push(sels.clone());
                let mut st = ReqPlan {
                    wait: *r.pick(&[0, 0, 0, 1, 2, 5, 30]) * unit,
                    sels,
                    create: vec![],
                    user: r.below(users) as u32,
                    cancel: None,
                };
                if pf == Profile::Mutations && r.chance(0.7) {
                    st.sels = vec![];
                    let n = r.range(1, 3);
                    let twin = r.chance(0.3);
                    for _ in 0..n {
                        nonce += 1;
                        // the same mutation sent by two clients is two mutations
                        st.create.push(if twin { 50_000 + nonce % 2 } else { nonce });
                    }
                }
                if (pf == Profile::Recovery && r.chance(0.35)) || (matches!(pf, Profile::Concurrent | Profile::Mutations) && r.chance(0.05)) {
                    st.cancel = Some(*r.pick(&[0, 1, 2, 5, 20]) * unit + r.below(unit));
                }
                steps.push(st);
            }
            clients.push(steps);
        }
        let mut sched = SchedCfg::draw(r, 4);
        if matches!(pf, Profile::Caching | Profile::NPlusOne) || r.chance(0.5) {
            sched.slip_pm = 0;
        }
        serde_json::to_value(Plan { sched, knobs, up, clients, probe: pf == Profile::Recovery }).unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let mut p: Plan = serde_json::from_value(plan.clone()).unwrap();
        p.up.ids = p.knobs.ids;
        let cfg = sched_of(plan);
        let (end, w, report, faults) = run(&p, &cfg, replay);
        let slip = cfg.slip_pm > 0;
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &w, slip);
        }
        if v.is_none() {
            v = self.extra(&p, &w, slip);
        }
        let good = w.reqs.iter().filter(|r| matches!(&r.reply, Some(Ok(x)) if x.json()["data"].is_object())).count();
        let overlap = w.reqs.iter().enumerate().any(|(i, a)| w.reqs[..i].iter().any(|b| a.overlaps(b)));
        let nontrivial = good > 0 && (overlap || !faults.is_empty() || self.profile == Profile::NPlusOne);
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": w.reqs.len(), "upstream_calls": w.calls.len(), "with_data": good}) }
    }
}
#[allow(unused)]
fn _t(_: Mutex<()>) {}
