//! What the HTTP surface tells a browser: cross-origin headers, preflights, routes.
use std::collections::BTreeMap;
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

/// the last two are neighbours of the first
const ORIGINS: &[&str] = &["https://a.example", "https://b.example", "http://localhost:3000", "https://tailcall.run", "https://cloud.tailcall.run", "null", "https://a.example.evil", "http://a.example", "https://A.example"];
const METHODS: &[&str] = &["GET", "POST", "OPTIONS"];
const HEADERS: &[&str] = &["content-type", "x-custom", "authorization", "*"];
const VARY: &[&str] = &["origin", "accept-language", "x-tenant"];

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Cors {
    pub credentials: bool,
    /// none: any origin
    pub origins: Option<Vec<u8>>,
    pub methods: Vec<u8>,
    pub headers: Vec<u8>,
    pub expose: Vec<u8>,
    pub private: bool,
    pub max_age: Option<u32>,
    /// none: what it is by default
    pub vary: Option<Vec<u8>>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    /// 0 query, 1 preflight, 2 status route, 3 unknown path, 4 GET of the graphql route, 5 REST, 6 mutation, 7 REST preflight, 8 wrong method of the status route
    pub what: u8,
    pub id: u32,
    pub origin: Option<u8>,
    #[serde(default)]
    pub private: bool,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub cors: Option<Cors>,
    pub dedupe: bool,
    /// own names of the routes
    pub routes: bool,
    /// the server's own vary header
    pub own_vary: bool,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}
fn of(l: &[&str], i: &[u8]) -> Vec<String> {
    i.iter().map(|i| l[*i as usize % l.len()].to_string()).collect()
}
impl Cors {
    fn json(&self) -> Value {
        let mut c = json!({
            "allowCredentials": self.credentials,
            "allowOrigins": self.origins.as_ref().map(|o| of(ORIGINS, o)).unwrap_or(vec!["*".into()]),
            "allowMethods": of(METHODS, &self.methods),
            "allowHeaders": of(HEADERS, &self.headers),
            "exposeHeaders": of(HEADERS, &self.expose),
            "allowPrivateNetwork": self.private,
        });
        if let Some(m) = self.max_age {
            c["maxAge"] = json!(m);
        }
        if let Some(v) = &self.vary {
            c["vary"] = json!(of(VARY, v));
        }
        c
    }
    /// browsers take no wildcards along with credentials
    fn valid(&self) -> bool {
        !self.credentials || self.origins.is_some() && !self.methods.is_empty() && self.headers != [3] && self.expose != [3]
    }
}
impl Plan {
    fn files(&self) -> Vec<(String, String)> {
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let sdl = format!(
            r#"schema {{ query: Query mutation: Mutation }}
type Query {{ item(id: Int!): Item @http(url: "http://up/items/{{{{.args.id}}}}"{d}) }}
type Mutation {{ create(id: Int!): Item @http(url: "http://up/create/{{{{.args.id}}}}", method: POST) }}
type Item {{ id: Int! rev: Int }}
"#
        );
        let ops = "query ($id: Int!) @rest(method: GET, path: \"/items/$id\") { item(id: $id) { id rev } }";
        let mut heads = json!({});
        if let Some(c) = &self.cors {
            heads["cors"] = c.json();
        }
        if self.own_vary {
            heads["custom"] = json!([{"key": "vary", "value": "x-own"}]);
        }
        let mut server = json!({"headers": heads});
        if self.routes {
            server["routes"] = json!({"status": "/alive", "graphQL": "/gql"});
        }
        let cfg = json!({"server": server, "upstream": {}, "links": [{"src": "/app/schema.graphql", "type": "Config"}, {"src": "/app/ops.graphql", "type": "Operation"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl), ("/app/ops.graphql".into(), ops.into())]
    }
    fn route(&self, s: &Step) -> (&'static str, String) {
        let (gql, st) = if self.routes { ("/gql", "/alive") } else { ("/graphql", "/status") };
        match s.what {
            0 | 6 => ("POST", gql.into()),
            1 => ("OPTIONS", gql.into()),
            2 => ("GET", st.into()),
            3 => ("POST", if self.routes { "/graphql" } else { "/gql" }.into()),
            4 => ("GET", gql.into()),
            5 => ("GET", format!("/api/items/{}", s.id)),
            7 => ("OPTIONS", format!("/api/items/{}", s.id)),
            _ => ("POST", st.into()),
        }
    }
}
fn answer(c: &MCall) -> Option<Ans> {
    let s = c.segs();
    let id: u32 = s.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    // what an upstream says of origins is between it and the gateway
    Some(Ans { heads: vec![("access-control-allow-origin".into(), "https://up.example".into()), ("vary".into(), "x-up".into())], body: json!({"id": id, "rev": c.n}).to_string().into_bytes() })
}
struct Req {
    step: Step,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}

pub struct WebScenario;
impl Scenario for WebScenario {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            10_000
        } else {
            300_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws a cross-origin configuration (or none), route names, dedupe, upstream latencies and faults, and clients that send queries, mutations, REST requests, preflights and \
         requests of other routes from allowed, unknown, look-alike and no origins; it is non-trivial when requests of two origins were answered, distinct by the hash of its event log \
         and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["config reader, blueprint (cors, server, routes)", "http::request_handler", "jit executor, IR eval, dedupe", "REST endpoints"],
            vec!["upstream service (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let some = |r: &mut Rng, n: usize| (0..n as u8).filter(|_| r.chance(0.4)).collect::<Vec<u8>>();
        let cors = r.chance(0.8).then(|| Cors {
            credentials: r.chance(0.5),
            origins: if r.chance(0.75) { Some(some(r, 6)) } else { None },
            methods: some(r, METHODS.len()),
            headers: if r.chance(0.1) { vec![3] } else { some(r, 3) },
            expose: if r.chance(0.1) { vec![3] } else { some(r, 3) },
            private: r.chance(0.4),
            max_age: if r.chance(0.5) { Some(r.below(9000) as u32) } else { None },
            vary: if r.chance(0.5) { Some(some(r, VARY.len())) } else { None },
        });
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let mut nonce = 0;
        let clients = (0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(1, 4))
                    .map(|_| {
                        let what = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8]);
                        nonce += 1;
                        Step {
                            wait: *r.pick(&[0, 0, 0, 1, 2, 5]) * unit,
                            what,
                            id: if what == 6 { 100 + nonce } else { r.range(1, 2) as u32 },
                            origin: if r.chance(0.85) { Some(r.below(ORIGINS.len() as u64) as u8) } else { None },
                            private: r.chance(0.3),
                            cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                        }
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(Plan { sched: SchedCfg::draw(r, 4), cors, dedupe: r.chance(0.6), routes: r.chance(0.3), own_vary: r.chance(0.3), up: draw_mini(r, 0.25), clients }).unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let up = Mini::new(p.up.clone(), answer);
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let ready = prepared(&p.files(), &SimEnv::default());
        let ok = ready.is_ok();
        let why = ready.as_ref().err().map(|e| e.to_string()).unwrap_or_default();
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let Ok((b, e)) = ready else {
                simrt::event(|| "configuration rejected".to_string());
                return;
            };
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), SimEnv::default(), (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, p3, f) = (app.clone(), r2.clone(), p2.clone(), u2.faults.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for st in steps {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        let (m, path) = p3.route(&st);
                        let mut heads: Vec<(String, String)> = vec![];
                        if let Some(o) = st.origin {
                            heads.push(("origin".into(), ORIGINS[o as usize % ORIGINS.len()].into()));
                        }
                        if st.private || st.id == 2 {
                            // only "true" asks for it
                            heads.push(("access-control-request-private-network".into(), st.private.to_string()));
                        }
                        if m == "OPTIONS" {
                            heads.push(("access-control-request-method".into(), "POST".into()));
                        }
                        let body = match st.what {
                            6 => json!({"query": format!("mutation {{ create(id: {}) {{ id rev }} }}", st.id)}).to_string(),
                            5 => String::new(),
                            _ => json!({"query": format!("{{ item(id: {}) {{ id rev }} }}", st.id)}).to_string(),
                        };
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request at {inv:?}: {m} {path} {heads:?} {body}"));
                        let out = cancellable(async move { send(app, m, &path, &heads, body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply at {ret:?}: {reply:?}"));
                        r2.push(Arc::new(Req { step: st, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        let valid = p.cors.as_ref().is_none_or(|c| c.valid());
        if v.is_none() && ok != valid {
            v = Some(Violation::new(if ok { "unsafe-config" } else { "config-rejected" }, format!("configuration {:?}: {why}", p.cors)));
        }
        if v.is_none() {
            v = judge(&p, &reqs, &calls);
        }
        let mut origins: Vec<Option<u8>> = reqs.iter().filter(|r| matches!(r.reply, Some(Ok(_)))).map(|r| r.step.origin).collect();
        origins.sort();
        origins.dedup();
        RunOut { violation: v, nontrivial: origins.len() > 1, report, faults, sample: json!({"requests": reqs.len(), "origins": origins.len(), "upstream_calls": calls.len()}) }
    }
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall]) -> Option<Violation> {
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let (m, path) = p.route(&r.step);
        let origin = r.step.origin.map(|o| ORIGINS[o as usize % ORIGINS.len()]);
        let bad = |c: &str, t: String| Some(Violation::new(c, format!("{t}\nrequest {m} {path} origin {origin:?} {:?} at {:?}..{:?}\ncors {:?}\nreply {reply:?}", r.step, r.inv, r.ret, p.cors.as_ref().map(|c| c.json()))));
        let x = match reply {
            Ok(x) => x,
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let pre = m == "OPTIONS";
        let mut want: BTreeMap<&str, String> = BTreeMap::new();
        let mut vary: Vec<String> = vec![];
        // the custom headers are on the responses of operations
        let op = match r.step.what {
            0 | 6 => true,
            5 => x.status != 404,
            _ => false,
        };
        if p.own_vary && op {
            vary.push("x-own".into());
        }
        let console = p.cors.is_none() && matches!(origin, Some("https://tailcall.run" | "http://tailcall.run"));
        if let Some(c) = &p.cors {
            let allowed = origin.filter(|o| c.origins.as_ref().is_none_or(|l| of(ORIGINS, l).iter().any(|a| a == o)));
            if let Some(o) = allowed {
                want.insert("access-control-allow-origin", o.into());
            }
            if c.credentials {
                want.insert("access-control-allow-credentials", "true".into());
            }
            if c.private && r.step.private {
                want.insert("access-control-allow-private-network", "true".into());
            }
            match &c.vary {
                Some(v) => vary.extend(of(VARY, v)),
                None => vary.extend(["origin".into(), "access-control-request-method".into(), "access-control-request-headers".into()]),
            }
            if pre {
                want.insert("access-control-allow-methods", if c.methods.is_empty() { "*".into() } else { of(METHODS, &c.methods).join(", ") });
                if !c.headers.is_empty() {
                    want.insert("access-control-allow-headers", of(HEADERS, &c.headers).join(", "));
                }
                if let Some(a) = c.max_age {
                    want.insert("access-control-max-age", a.to_string());
                }
            } else {
                want.insert("access-control-expose-headers", of(HEADERS, &c.expose).join(", "));
            }
        }
        let console_pre = console && pre;
        if console {
            want.insert("access-control-allow-origin", "https://tailcall.run".into());
        }
        if !console_pre {
            let list = |s: &str| s.split(',').map(|x| x.trim().to_lowercase()).filter(|x| !x.is_empty()).collect::<std::collections::BTreeSet<_>>();
            for (k, v) in x.headers.iter().filter(|h| h.0.starts_with("access-control-")) {
                match want.get(k.as_str()) {
                    None => return bad("not-granted", format!("the response has {k}: {v}, which is not granted to it")),
                    Some(w) if list(w) != list(v) || (k == "access-control-allow-origin" && w != v) => return bad("wrong-grant", format!("the response has {k}: {v} instead of {w}")),
                    _ => {}
                }
                if x.headers.iter().filter(|h| h.0 == *k).count() > 1 {
                    return bad("repeated", format!("{k} is there more than once"));
                }
            }
            for (k, w) in &want {
                if !list(w).is_empty() && x.header(k).is_empty() {
                    return bad("grant-lost", format!("the response has no {k}: {w}"));
                }
            }
            let got: std::collections::BTreeSet<String> = x.header("vary").into_iter().flat_map(list).collect();
            if got != vary.iter().cloned().collect() {
                return bad("vary", format!("vary is {got:?} instead of {vary:?}"));
            }
        }
        // routes
        let mine: Vec<&MCall> = calls.iter().filter(|c| c.path == format!("/create/{}", r.step.id)).collect();
        match r.step.what {
            1 | 7 if p.cors.is_some() || console => {
                if x.status != 200 || !x.body.is_empty() {
                    return bad("preflight", "a preflight is answered with 200 and no content".into());
                }
            }
            2 if x.status != 200 || x.json()["message"] != "ready" => return bad("status-route", "the status route does not say ready".into()),
            1 | 3 | 4 | 7 | 8 if x.status != 404 && !(pre && (p.cors.is_some() || console)) => return bad("unknown-route", format!("status {} of a route that is not there", x.status)),
            6 if mine.len() != 1 => return bad("mutation-count", format!("the mutation was sent {} times", mine.len())),
            0 | 5 | 6 => {
                let v = x.json();
                let errs = v["errors"].as_array().map(|a| a.len()).unwrap_or(0);
                let it = match r.step.what {
                    0 => &v["data"]["item"],
                    6 => &v["data"]["create"],
                    _ => &v,
                };
                let failed = calls.iter().any(|c| c.failed() && c.path.ends_with(&format!("/{}", r.step.id)) && c.end.s <= r.ret.s);
                if errs == 0 && it["id"] != json!(r.step.id) {
                    return bad("wrong-data", format!("asked for {}", r.step.id));
                }
                if errs > 0 && !failed {
                    return bad("unexplained-error", "no upstream call failed".into());
                }
            }
            _ => {}
        }
    }
    // nothing but operations reaches the upstream
    for c in calls {
        let by = reqs.iter().any(|r| {
            let id = r.step.id;
            c.start.s >= r.inv.s && match r.step.what {
                0 | 5 => c.path == format!("/items/{id}"),
                6 => c.path == format!("/create/{id}"),
                _ => false,
            }
        });
        if !by {
            return Some(Violation::new("unneeded-call", format!("no operation asked for call {} {} {}", c.n, c.method, c.url)));
        }
    }
    None
}
