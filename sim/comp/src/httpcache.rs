//! The cache of upstream HTTP responses: the store on its own, and behind the real
//! HTTP caching middleware of the client with a simulated upstream.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use http_cache_reqwest::{Cache, CacheManager, CacheMode, HttpCache, HttpCacheOptions, HttpResponse};
use http_cache_semantics::CachePolicy;
use reqwest::{Request, Response};
use reqwest_middleware::{ClientBuilder, ClientWithMiddleware, Middleware, Next};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall_http_cache::HttpCacheManager;
use task_local_extensions::Extensions;

use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Op {
    Put(u8),
    Get(u8),
    Del(u8),
    Clear,
    /// over HTTP: method (0 GET, 1 HEAD, 2 POST), resource, tenant
    Send(u8, u8, u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    /// ms
    wait: u64,
    op: Op,
    #[serde(default)]
    cancel: Option<u64>,
}
/// how the upstream describes a resource
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Res {
    /// seconds; None: no-store
    max_age: Option<u64>,
    vary: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    sched: SchedCfg,
    http: bool,
    capacity: u64,
    res: Vec<Res>,
    /// ms, by call number
    lat: Vec<u64>,
    /// by call number: 1 connection error, 2 status 500
    fail: Vec<u8>,
    clients: Vec<Vec<Step>>,
}
#[derive(Clone, Debug)]
struct Rec {
    inv: At,
    ret: At,
    id: u64,
    op: Op,
    /// for a put its own number
    out: Option<u64>,
    reply: Option<Result<(u16, Value), String>>,
}
#[derive(Clone, Debug)]
struct Call {
    by: u64,
    method: u8,
    res: u8,
    tenant: u8,
    start: At,
    end: At,
    failed: bool,
}
const KEYS: [&str; 6] = ["GET:http://up/r0", "HEAD:http://up/r0", "GET:http://up/r0?x=1", "GET:http://up/r1", "GET:http://UP/r0", "GET:http://up/r0/"];
const URLS: [&str; 6] = ["http://up/r0", "http://up/r0?x=1", "http://up/r1", "http://up/r1?x=1&y=2", "http://other/r0", "http://up/r0/s"];

fn stored(n: u64) -> HttpResponse {
    HttpResponse {
        body: n.to_string().into_bytes(),
        headers: [("x-n".to_string(), n.to_string()), ("content-type".to_string(), "a/b".to_string())].into_iter().collect(),
        status: 200 + (n % 3) as u16,
        url: url::Url::parse(&format!("http://up/{n}")).unwrap(),
        version: http_cache_version(),
    }
}
fn http_cache_version() -> http_cache::HttpVersion {
    http_cache::HttpVersion::Http11
}
fn policy(n: u64) -> CachePolicy {
    let req = Request::new(reqwest::Method::GET, format!("http://up/{n}").parse().unwrap());
    let res = Response::from(http::Response::builder().status(200).header("cache-control", format!("max-age={}", n % 1000 + 1)).body("").unwrap());
    CachePolicy::new(&req, &res)
}

#[derive(Clone)]
struct Up {
    plan: Arc<Plan>,
    calls: Log<Call>,
    faults: Faults,
    version: Arc<Mutex<BTreeMap<u8, u64>>>,
}
fn head(req: &Request, k: &str) -> u64 {
    req.headers().get(k).and_then(|v| v.to_str().ok()).and_then(|v| v.parse().ok()).unwrap_or(0)
}
#[async_trait::async_trait]
impl Middleware for Up {
    async fn handle(&self, req: Request, _: &mut Extensions, _: Next<'_>) -> reqwest_middleware::Result<Response> {
        let method = ["GET", "HEAD", "POST"].iter().position(|m| *m == req.method().as_str()).unwrap_or(0) as u8;
        let res = URLS.iter().position(|u| *u == req.url().as_str()).unwrap_or(99) as u8;
        let (by, tenant) = (head(&req, "x-req"), head(&req, "x-tenant") as u8);
        let start = at();
        let n = self.calls.with(|c| {
            c.push(Call { by, method, res, tenant, start, end: At { s: u64::MAX, t: u64::MAX }, failed: true });
            c.len() - 1
        });
        simrt::event(|| format!("call {n} {} {} tenant {tenant} for {by}", req.method(), req.url()));
        let pick = |v: usize| if v == 0 { None } else { Some(n % v) };
        let lat = pick(self.plan.lat.len()).map(|i| self.plan.lat[i]).unwrap_or(0);
        if lat > 0 {
            simrt::sleep(std::time::Duration::from_millis(lat)).await;
        }
        let f = pick(self.plan.fail.len()).map(|i| self.plan.fail[i]).unwrap_or(0);
        let end = at();
        self.calls.with(|c| {
            c[n].end = end;
            c[n].failed = f > 0;
        });
        simrt::event(|| format!("call {n} ends, fault {f}"));
        if f == 1 {
            fault(&self.faults, "connection_error");
            return Err(reqwest_middleware::Error::Middleware(anyhow::anyhow!("upstream failed")));
        }
        let version = {
            let mut v = self.version.lock().unwrap();
            if method == 2 && f == 0 {
                *v.entry(res).or_default() += 1;
            }
            v.get(&res).copied().unwrap_or(0)
        };
        if f == 2 {
            fault(&self.faults, "status_500");
        }
        let r = self.plan.res.get(res as usize).cloned().unwrap_or_default();
        let cc = match r.max_age {
            Some(s) => format!("max-age={s}"),
            None => "no-store".into(),
        };
        let body = json!({"call": n, "version": version}).to_string();
        let mut b = http::Response::builder().status(if f == 2 { 500 } else { 200 }).header("cache-control", cc).header("x-call", n.to_string());
        if r.vary {
            b = b.header("vary", "x-tenant");
        }
        use reqwest::ResponseBuilderExt;
        Ok(Response::from(b.url(req.url().clone()).body(body).unwrap()))
    }
}
fn client(p: &Plan, up: Up) -> ClientWithMiddleware {
    ClientBuilder::new(reqwest::Client::new())
        .with(Cache(HttpCache { mode: CacheMode::Default, manager: HttpCacheManager::new(p.capacity), options: HttpCacheOptions::default() }))
        .with(up)
        .build()
}

pub struct HttpCacheScenario;
impl Scenario for HttpCacheScenario {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            30_000
        } else {
            1_000_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws the capacity and either clients that put, get, delete and clear entries of the store, or clients that send GET, HEAD and POST requests through the real caching \
         middleware to resources with drawn cache-control and vary, over seconds to hours of simulated time with upstream latencies, faults and disconnects; it is non-trivial when an \
         entry was found and another lookup missed, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["tailcall-http-cache HttpCacheManager", "moka::future::Cache", "http-cache, http-cache-reqwest, http-cache-semantics, reqwest-middleware"],
            vec!["upstream (a last middleware that answers)", "task scheduler and clocks (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let http = r.chance(0.6);
        let nkeys = r.range(1, 6) as u64;
        let unit = *r.pick(&[1u64, 1000, 60_000, 600_000]);
        let len = if tier == Tier::Quick { 9 } else { 16 };
        let n = if http { r.range(1, 5) } else { *r.pick(&[1, 1, 2, 4]) };
        let disconnects = r.chance(0.2);
        let ppost = *r.pick(&[0.0, 0.1, 0.3]);
        let clients = (0..n)
            .map(|_| {
                (0..r.range(1, if n == 1 { 24 } else { len }))
                    .map(|_| {
                        let k = r.below(nkeys) as u8;
                        let op = if http {
                            Op::Send(if r.chance(ppost) { 2 } else { r.chance(0.1) as u8 }, k, r.below(2) as u8)
                        } else {
                            match r.below(100) {
                                0..=39 => Op::Put(k),
                                40..=87 => Op::Get(k),
                                88..=96 => Op::Del(k),
                                _ => Op::Clear,
                            }
                        };
                        Step { wait: *r.pick(&[0, 0, 1, 2, 3, 7]) * unit, op, cancel: if disconnects && r.chance(0.2) { Some(r.below(3) * unit) } else { None } }
                    })
                    .collect()
            })
            .collect();
        let res = (0..6)
            .map(|_| Res { max_age: if r.chance(0.15) { None } else { Some((*r.pick(&[0, 1, 2, 4, 10, 60]) * unit / 1000).max(r.below(2))) }, vary: r.chance(0.25) })
            .collect();
        let lat = (0..r.range(0, 4)).map(|_| *r.pick(&[0, 1, 2, 5]) * *r.pick(&[unit, 10])).collect();
        let fail = if r.chance(0.25) { (0..r.range(2, 6)).map(|_| if r.chance(0.3) { r.range(1, 2) as u8 } else { 0 }).collect() } else { vec![] };
        let mut sched = SchedCfg::draw(r, 4);
        sched.slip_pm = 0;
        serde_json::to_value(Plan { sched, http, capacity: *r.pick(&[1, 2, 3, 4, 42, 1000]), res, lat, fail, clients }).unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let mut p: Plan = serde_json::from_value(plan.clone()).unwrap();
        p.capacity = p.capacity.max(1);
        let cfg = sched_of(plan);
        let up = Up { plan: Arc::new(p.clone()), calls: Log::default(), faults: Faults::default(), version: Arc::default() };
        let recs = Log::<Rec>::default();
        let (p2, r2, u2) = (p.clone(), recs.clone(), up.clone());
        let (end, left, report) = simrt::world::run(&cfg, replay, move || async move {
            let store = Arc::new(HttpCacheManager::new(p2.capacity));
            let http = p2.http.then(|| client(&p2, u2.clone()));
            let ids = Arc::new(std::sync::atomic::AtomicU64::new(1));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (store, http, r2, ids, f) = (store.clone(), http.clone(), r2.clone(), ids.clone(), u2.faults.clone());
                hs.push(simrt::spawn(async move {
                    for st in steps {
                        if st.wait > 0 {
                            simrt::sleep(std::time::Duration::from_millis(st.wait)).await;
                        }
                        let id = ids.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        let (mut out, mut reply) = (None, None);
                        let key = |k: u8| KEYS[k as usize % 6];
                        let inv = at();
                        simrt::event(|| format!("{id}: {:?}", st.op));
                        match &st.op {
                            Op::Put(k) => {
                                let back = store.put(key(*k).into(), stored(id), policy(id)).await;
                                out = back.ok().and_then(|b| same(&b, id).then_some(id));
                            }
                            Op::Get(k) => {
                                if let Ok(Some((r, pol))) = store.get(key(*k)).await {
                                    let n = String::from_utf8_lossy(&r.body).parse().unwrap_or(0);
                                    let ttl = pol.time_to_live(std::time::SystemTime::now()).as_secs();
                                    out = Some(if same(&r, n) && ttl <= n % 1000 + 1 { n } else { u64::MAX });
                                }
                            }
                            Op::Del(k) => store.delete(key(*k)).await.unwrap(),
                            Op::Clear => store.clear().await.unwrap(),
                            Op::Send(m, k, t) => {
                                let Some(http) = http.clone() else { continue };
                                let url = URLS[*k as usize % 6];
                                let m = reqwest::Method::from_bytes([&b"GET"[..], b"HEAD", b"POST"][*m as usize % 3]).unwrap();
                                let req = http.request(m, url).header("x-req", id.to_string()).header("x-tenant", t.to_string());
                                let got = cancellable(
                                    async move {
                                        let r = req.send().await.map_err(|e| e.to_string())?;
                                        let s = r.status().as_u16();
                                        let b = r.bytes().await.map_err(|e| e.to_string())?;
                                        Ok((s, serde_json::from_slice(&b).unwrap_or(Value::Null)))
                                    },
                                    st.cancel.map(|c| c * 1000),
                                )
                                .await;
                                reply = match got {
                                    Ok(r) => Some(r),
                                    Err(e) if e.is_cancelled() => {
                                        fault(&f, "client_disconnect");
                                        None
                                    }
                                    Err(e) => Some(Err(format!("panic: {e:?}"))),
                                };
                            }
                        }
                        let ret = at();
                        simrt::event(|| format!("{id} -> {out:?} {reply:?}"));
                        r2.push(Rec { inv, ret, id, op: st.op, out, reply });
                    }
                }));
            }
            for h in hs {
                h.await.unwrap();
            }
            let mut n = 0u64;
            for k in KEYS {
                n += store.get(k).await.unwrap().is_some() as u64;
            }
            n
        });
        let recs = recs.take();
        let calls = up.calls.take();
        let mut v = end_violation(&end);
        if v.is_none() {
            v = if p.http { judge_http(&p, &recs, &calls) } else { judge_store(&p, &recs, left.unwrap()) };
        }
        let (hit, miss) = if p.http {
            let own = |r: &Rec| calls.iter().any(|c| c.by == r.id);
            (recs.iter().any(|r| r.reply.is_some() && !own(r)), !calls.is_empty())
        } else {
            let get = |r: &Rec| matches!(r.op, Op::Get(_));
            (recs.iter().any(|r| get(r) && r.out.is_some()), recs.iter().any(|r| get(r) && r.out.is_none()))
        };
        let f = up.faults.lock().unwrap().clone();
        RunOut { violation: v, nontrivial: hit && miss, report, faults: f, sample: json!({"operations": recs.len(), "upstream_calls": calls.len(), "http": p.http}) }
    }
}
fn same(r: &HttpResponse, n: u64) -> bool {
    let w = stored(n);
    r.body == w.body && r.headers == w.headers && r.status == w.status && r.url == w.url
}

fn judge_store(p: &Plan, recs: &[Rec], left: u64) -> Option<Violation> {
    let bad = |c: &str, m: String| Some(Violation::new(c, m));
    for r in recs {
        match r.op {
            Op::Put(k) if r.out.is_none() => return bad("put-result", format!("put {} of key {k} gave back another response", r.id)),
            Op::Get(k) if r.out == Some(u64::MAX) => return bad("mixed-entry", format!("get of key {k} gave a response or policy nobody stored")),
            _ => {}
        }
    }
    let key = |o: &Op| match o {
        Op::Put(k) | Op::Get(k) | Op::Del(k) => Some(*k as usize % 6),
        _ => None,
    };
    for k in 0..6 {
        let ops: Vec<&Rec> = recs.iter().filter(|r| r.op == Op::Clear || key(&r.op) == Some(k)).collect();
        if ops.len() > 50 {
            continue;
        }
        // a live entry may only be gone when enough other keys were used since it was
        let evictable = |val: u64, g: &Rec| {
            let Some(s) = recs.iter().find(|r| r.id == val) else { return true };
            // last use that certainly came after the store and before this
            let used = ops.iter().filter(|r| matches!(r.op, Op::Get(_)) && r.out == Some(val) && r.ret.s < g.inv.s).map(|r| r.inv.s).max().unwrap_or(s.inv.s);
            let others: BTreeSet<usize> = recs.iter().filter(|r| r.ret.s > used && r.inv.s < g.ret.s && matches!(r.op, Op::Put(_) | Op::Get(_))).filter_map(|r| key(&r.op)).filter(|x| *x != k).collect();
            others.len() as u64 >= p.capacity
        };
        let iv: Vec<(u64, u64)> = ops.iter().map(|r| (r.inv.s, r.ret.s)).collect();
        // the store's clear() leaves an entry stored at the very same instant
        let apply = |st: &Option<(u64, bool)>, i: usize| -> Option<Option<(u64, bool)>> {
            match ops[i].op {
                Op::Put(_) => Some(Some((ops[i].id, false))),
                Op::Get(_) => match (st, ops[i].out) {
                    (Some((a, _)), Some(b)) => (*a == b).then_some(*st),
                    (None, None) => Some(None),
                    (Some((v, maybe)), None) => (*maybe || evictable(*v, ops[i])).then_some(None),
                    (None, Some(_)) => None,
                },
                Op::Clear => Some(st.filter(|(v, _)| recs.iter().any(|r| r.id == *v && r.ret.t >= ops[i].inv.t)).map(|(v, _)| (v, true))),
                _ => Some(None),
            }
        };
        if !linearizable(&iv, None, &apply) {
            let h: Vec<String> = ops.iter().map(|r| format!("[{}..{}] {} {:?} -> {:?}", r.inv.s, r.ret.s, r.id, r.op, r.out)).collect();
            return bad("not-linearizable", format!("no order of these operations on {} explains their results (capacity {}): {}", KEYS[k], p.capacity, h.join("; ")));
        }
    }
    if left > p.capacity {
        return bad("over-capacity", format!("{left} entries with capacity {}", p.capacity));
    }
    None
}

fn judge_http(p: &Plan, recs: &[Rec], calls: &[Call]) -> Option<Violation> {
    let done: BTreeMap<u64, &Rec> = recs.iter().map(|r| (r.id, r)).collect();
    let used: BTreeSet<(u8, u8)> = calls.iter().map(|c| (c.method, c.res)).collect();
    for r in recs {
        let Op::Send(m, k, t) = r.op else { continue };
        let (m, k) = (m % 3, k % 6);
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, s: String| Some(Violation::new(c, format!("{s}\nrequest {} {} {} tenant {t} at {:?}..{:?}\nreply {:?}", r.id, ["GET", "HEAD", "POST"][m as usize], URLS[k as usize], r.inv, r.ret, reply)));
        let own: Vec<&Call> = calls.iter().filter(|c| c.by == r.id).collect();
        let failed = own.iter().any(|c| c.failed);
        let (status, body) = match reply {
            Ok(x) => x,
            Err(_) if failed => continue,
            Err(e) => return bad("error", format!("the request failed without its upstream call failing: {e}")),
        };
        if *status != 200 {
            if !failed {
                return bad("error", format!("status {status} without its upstream call failing"));
            }
            continue;
        }
        if m == 2 && (own.len() != 1 || body["call"] != json!(calls.iter().position(|c| c.by == r.id).unwrap_or(usize::MAX))) {
            return bad("post", format!("a POST made {} upstream calls or got the answer of another", own.len()));
        }
        let n = body["call"].as_u64().unwrap_or(u64::MAX) as usize;
        let Some(c) = calls.get(n) else { return bad("invented", "a response no upstream call gave".into()) };
        let res = p.res.get(k as usize).cloned().unwrap_or_default();
        if c.res != k || c.method != m {
            return bad("wrong-entry", format!("the response of {:?} {}", c.method, URLS.get(c.res as usize).unwrap_or(&"?")));
        }
        if c.by != r.id && !failed && res.vary && c.tenant != t {
            return bad("wrong-tenant", format!("the response varies by tenant and was given to tenant {}", c.tenant));
        }
        if c.by != r.id {
            let Some(age) = res.max_age else { return bad("no-store", "a response that must not be stored was served again".into()) };
            let limit = c.end.t.saturating_add((age + 1) * 1_000_000_000);
            if r.inv.t > limit && !failed {
                return bad("stale", format!("a response of {} ns with max-age {age} s was served at {} ns", c.end.t, r.inv.t));
            }
            // an entry that was there before a POST isn't served after it
            if let Some(src) = done.get(&c.by) {
                let gone = recs.iter().any(|w| matches!(w.op, Op::Send(wm, wk, _) if wm % 3 == 2 && wk % 6 == k) && m == 0 && w.reply.is_some() && w.inv.s > src.ret.s && w.ret.s < r.inv.s);
                if gone && !failed {
                    return bad("outdated", "an entry stored before a POST to its URL was served after it".into());
                }
            }
            if !own.is_empty() && !failed {
                return bad("wasted-call", "the upstream was asked and its answer was not used".into());
            }
        } else if m != 2 && own.len() > 1 {
            return bad("calls", format!("{} upstream calls for one request", own.len()));
        }
        // what certainly is fresh is served from the cache
        if !own.is_empty() && m != 2 && !res.vary && (used.len() as u64) <= p.capacity {
            if let Some(age) = res.max_age.filter(|a| *a > 1) {
                let hit = calls.iter().any(|c| {
                    c.res == k
                        && c.method == m
                        && !c.failed
                        && done.get(&c.by).is_some_and(|s| s.reply.is_some() && s.ret.s < r.inv.s)
                        && r.inv.t < c.end.t.saturating_add((age - 1) * 1_000_000_000)
                        && !recs.iter().any(|w| matches!(w.op, Op::Send(2, wk, _) if wk % 6 == k) && w.ret.s > c.start.s && w.inv.s < r.ret.s)
                });
                if hit {
                    return bad("missed", "the upstream was asked while a fresh response was in the cache".into());
                }
            }
        }
    }
    None
}
