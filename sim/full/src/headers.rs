//! Response headers: cache-control, cookies, experimental and custom headers of a
//! response follow from the upstream responses its own data came from.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

/// what an upstream resource says about itself
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Heads {
    cc: u8,
    /// x-one, x-two, x-none
    x: u8,
    cookie: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Field {
    /// 0 item, 1 items, 2 gql, 3 constant
    kind: u8,
    id: u32,
    part: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Step {
    wait: u64,
    user: u8,
    fields: Vec<Field>,
    /// 0 POST /graphql, 1 the REST endpoint of the first field, 2 an array of requests
    mode: u8,
    #[serde(default)]
    cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    sched: SchedCfg,
    cache_control: bool,
    cookies: bool,
    /// x-one listed, x-two listed
    listed: u8,
    custom: bool,
    /// calls may be shared between clients
    dedupe: bool,
    cache: bool,
    part_batched: bool,
    gql_batched: bool,
    batch: Option<(u64, u64)>,
    heads: Vec<Heads>,
    up: MiniPlan,
    clients: Vec<Vec<Step>>,
}
/// value, lifetime it allows (-1: none), private
const CC: [(&str, Option<i64>, bool); 15] = [
    ("", None, false),
    ("max-age=60", Some(60), false),
    ("max-age=10", Some(10), false),
    ("public, max-age=3600", Some(3600), false),
    ("private, max-age=30", Some(30), true),
    ("private", None, true),
    ("no-cache", Some(-1), false),
    ("no-store", Some(-1), false),
    ("max-age=100, no-store", Some(-1), false),
    ("max-age=20,private", Some(20), true),
    ("private, no-cache", Some(-1), true),
    ("max-age=5, s-maxage=100", Some(5), false),
    ("must-revalidate", None, false),
    ("max-age=0", Some(0), false),
    ("public, max-age=120, no-cache", Some(-1), false),
];
const XS: [&str; 3] = ["x-one", "x-two", "x-none"];

impl Plan {
    fn head(&self, path: &str) -> Heads {
        let h = path.bytes().fold(7usize, |a, b| a.wrapping_mul(31).wrapping_add(b as usize));
        if self.heads.is_empty() {
            return Heads::default();
        }
        self.heads[h % self.heads.len()].clone()
    }
    fn batching(&self) -> bool {
        self.batch.is_some_and(|(d, m)| d >= 1 && m >= 1)
    }
    fn files(&self) -> Vec<(String, String)> {
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let c = if self.cache { " @cache(maxAge: 50)" } else { "" };
        let part = if self.part_batched && self.batching() {
            format!(r#"@http(url: "http://up/parts", query: [{{key: "id", value: "{{{{.value.id}}}}"}}], batchKey: ["id"]{d}){c}"#)
        } else {
            format!(r#"@http(url: "http://up/part/{{{{.value.id}}}}"{d}){c}"#)
        };
        let g = if self.gql_batched && self.batching() { ", batch: true" } else { "" };
        let sdl = format!(
            r#"schema {{ query: Query }}
type Query {{
  fixed: String @expr(body: "constant")
  item(id: Int!): Item @http(url: "http://up/item/{{{{.args.id}}}}"{d}){c}
  items: [Item] @http(url: "http://up/items"{d}){c}
  gql(id: Int!): Thing @graphQL(url: "http://up/graphql", name: "thing", args: [{{key: "id", value: "{{{{.args.id}}}}"}}]{g}{d}){c}
}}
type Item {{ id: Int! n: Int who: String part: Part {part} }}
type Part {{ id: Int! n: Int who: String }}
type Thing {{ id: Int! n: Int who: String }}
"#
        );
        let rest = "query ($id: Int!) @rest(path: \"/item/$id\", method: GET) { a: item(id: $id) { id n who part { id n who } } }\n";
        let mut names = vec!["authorization"];
        if !self.sharing() {
            names.push("x-req");
        }
        let mut up = json!({"allowedHeaders": names});
        if let Some((d, m)) = self.batch {
            up["batch"] = json!({"delay": d, "maxSize": m, "headers": names});
        }
        let mut h = json!({"cacheControl": self.cache_control, "setCookies": self.cookies});
        let listed: Vec<&str> = (0..2).filter(|i| self.listed >> i & 1 == 1).map(|i| XS[i]).collect();
        if !listed.is_empty() {
            h["experimental"] = json!(listed);
        }
        if self.custom {
            h["custom"] = json!([{"key": "x-custom", "value": "of-the-server"}, {"key": "X-Custom", "value": "again"}]);
        }
        let cfg = json!({"server": {"headers": h, "batchRequests": true}, "upstream": up,
            "links": [{"src": "/app/schema.graphql", "type": "Config"}, {"src": "/app/rest.graphql", "type": "Operation"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl), ("/app/rest.graphql".into(), rest.into())]
    }
    fn sharing(&self) -> bool {
        self.dedupe || self.cache
    }
}
fn text(fields: &[Field]) -> String {
    let mut s = String::new();
    for (i, f) in fields.iter().enumerate() {
        let part = if f.part { " part { id n who }" } else { "" };
        s += &match f.kind % 4 {
            0 => format!(" f{i}: item(id: {}) {{ id n who{part} }}", f.id),
            1 => format!(" f{i}: items {{ id n who{part} }}"),
            2 => format!(" f{i}: gql(id: {}) {{ id n who }}", f.id),
            _ => format!(" f{i}: fixed"),
        };
    }
    format!("{{{s} }}")
}
struct Req {
    n: usize,
    step: Step,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
fn answer(p: &Plan, c: &MCall) -> Option<Ans> {
    let s = c.segs();
    let obj = |id: u32| json!({"id": id, "n": c.n, "who": c.auth()});
    let id: u32 = s.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let (tag, body) = match s[0] {
        "item" | "part" => (c.path.clone(), obj(id)),
        "items" => (c.path.clone(), json!([obj(1), obj(2), obj(3)])),
        "parts" => {
            let ids: Vec<u32> = c.query.iter().filter(|q| q.0 == "id").filter_map(|q| q.1.parse().ok()).collect();
            (format!("/parts{ids:?}"), Value::Array(ids.into_iter().map(obj).collect()))
        }
        "graphql" => {
            let one = |b: &Value| {
                let q = b["query"].as_str().unwrap_or("");
                let id = q.split("id:").nth(1).map(|x| x.trim().chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).and_then(|x| x.parse().ok()).unwrap_or(0);
                json!({"data": {"thing": obj(id)}})
            };
            (format!("/graphql{}", c.body.to_string().len()), if let Value::Array(a) = &c.body { Value::Array(a.iter().map(one).collect()) } else { one(&c.body) })
        }
        _ => return None,
    };
    let h = p.head(&tag);
    let mut heads = vec![];
    let cc = CC[h.cc as usize % CC.len()].0;
    if !cc.is_empty() {
        heads.push(("cache-control".to_string(), cc.to_string()));
    }
    for (i, x) in XS.iter().enumerate() {
        if h.x >> i & 1 == 1 {
            heads.push((x.to_string(), format!("{x}-of-{}", c.n)));
        }
    }
    if h.cookie {
        heads.push(("set-cookie".into(), format!("c{}={}", c.n, c.auth())));
    }
    Some(Ans { heads, body: body.to_string().into_bytes() })
}

pub struct HeadersScenario;
impl Scenario for HeadersScenario {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            10_000
        } else {
            300_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws which header features are on, what every upstream resource says (cache-control, x- headers, cookies), batching, dedupe and cache, upstream latencies and faults, and \
         clients whose requests (GraphQL, arrays, REST) combine several upstream resources; it is non-trivial when a reply with data used at least two upstream responses that say \
         something, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["http::request_handler, request_context, cache_policy", "async_graphql_hyper responses", "jit executor, IR eval, data loaders, dedupe, InMemoryCache", "REST endpoints"],
            vec!["upstream service (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let quiet = r.chance(0.3);
        let heads = (0..r.range(1, 8))
            .map(|_| Heads {
                cc: if r.chance(0.3) { 0 } else if quiet { r.range(1, 3) as u8 } else { r.below(CC.len() as u64) as u8 },
                x: r.below(8) as u8,
                cookie: r.chance(0.5),
            })
            .collect();
        let mode = |r: &mut Rng| *r.pick(&[0u8, 0, 0, 0, 1, 2]);
        let clients = (0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(1, 4))
                    .map(|_| Step {
                        wait: *r.pick(&[0, 0, 0, 1, 2, 5, 60]) * unit,
                        user: r.below(2) as u8,
                        fields: (0..r.range(1, 5)).map(|_| Field { kind: *r.pick(&[0, 0, 0, 1, 2, 3]), id: r.range(1, 4) as u32, part: r.chance(0.4) }).collect(),
                        mode: mode(r),
                        cancel: if r.chance(0.04) { Some(r.below(10) * unit) } else { None },
                    })
                    .collect()
            })
            .collect();
        let share = r.chance(0.35);
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            cache_control: r.chance(0.85),
            cookies: r.chance(0.7),
            listed: r.below(4) as u8,
            custom: r.chance(0.5),
            dedupe: share && r.chance(0.8),
            cache: share && r.chance(0.4),
            part_batched: r.chance(0.6),
            gql_batched: r.chance(0.6),
            batch: if r.chance(0.6) { Some((r.range(1, 3) as u64, *r.pick(&[1, 2, 5, 100]))) } else { None },
            heads,
            up: draw_mini(r, 0.15),
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let (b, e) = prepared(&p.files(), &SimEnv::default()).expect("configuration");
        let p1 = p.clone();
        let up = Mini::new(p.up.clone(), move |c| answer(&p1, c));
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), SimEnv::default(), (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let ids = Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, ids, f) = (app.clone(), r2.clone(), ids.clone(), u2.faults.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for mut st in steps {
                        if st.fields.is_empty() {
                            st.fields = vec![Field::default()];
                        }
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        let n = ids.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        let headers = vec![("authorization".to_string(), format!("u{}", st.user)), ("x-req".to_string(), n.to_string())];
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request {n} mode {} user {} at {inv:?}: {}", st.mode, st.user, text(&st.fields)));
                        let st2 = st.clone();
                        let out = cancellable(
                            async move {
                                match st2.mode % 3 {
                                    1 => send(app, "GET", &format!("/api/item/{}", st2.fields[0].id), &headers, String::new(), false).await,
                                    2 => {
                                        let body: Vec<Value> = st2.fields.iter().map(|f| json!({"query": text(std::slice::from_ref(f))})).collect();
                                        send(app, "POST", "/graphql", &headers, Value::Array(body).to_string(), true).await
                                    }
                                    _ => send(app, "POST", "/graphql", &headers, json!({"query": text(&st2.fields)}).to_string(), false).await,
                                }
                            },
                            st.cancel,
                        )
                        .await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply {n} at {ret:?}: {reply:?}"));
                        r2.push(Arc::new(Req { n, step: st, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        let mut rich = 0;
        if v.is_none() {
            v = judge(&p, &reqs, &calls, &mut rich);
        }
        RunOut { violation: v, nontrivial: rich > 0, report, faults, sample: json!({"requests": reqs.len(), "calls": calls.len(), "combined": rich}) }
    }
}
/// numbers of the calls the data came from
fn used(v: &Value, out: &mut BTreeSet<usize>) {
    match v {
        Value::Object(m) => {
            if let Some(n) = m.get("n").and_then(|n| n.as_u64()) {
                out.insert(n as usize);
            }
            m.values().for_each(|x| used(x, out));
        }
        Value::Array(a) => a.iter().for_each(|x| used(x, out)),
        _ => {}
    }
}
fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall], rich: &mut u64) -> Option<Violation> {
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let x = match reply {
            Ok(x) => x,
            Err(e) => return Some(Violation::new("no-reply", format!("request {} got no response: {e}", r.n))),
        };
        let v = x.json();
        let rest = r.step.mode % 3 == 1;
        let errors = x.status != 200 || if rest { false } else { x.body.contains("\"errors\"") };
        let mut from = BTreeSet::new();
        used(&v, &mut from);
        let cs: Vec<&MCall> = from.iter().filter_map(|n| calls.get(*n)).collect();
        let said: Vec<String> = cs.iter().map(|c| format!("{} {}: {:?}", c.n, c.url, c.sent)).collect();
        let bad = |c: &str, m: String| Some(Violation::new(c, format!("{m}\nreply to request {} ({}): {:?}\nits upstream responses: {:#?}", r.n, text(&r.step.fields), x, said)));
        let foreign = |c: &&&MCall| c.start.s < r.inv.s || !p.sharing() && c.headers.get("x-req").map(|s| s.as_str()) != Some(&r.n.to_string());
        if cs.len() != from.len() || (!p.sharing() && cs.iter().any(|c| foreign(&c))) {
            return bad("foreign-data", "data of another request".into());
        }
        let own: Vec<&MCall> = calls.iter().filter(|c| if p.sharing() { c.start.s >= r.inv.s && c.start.s <= r.ret.s && c.auth() == format!("u{}", r.step.user) } else { c.headers.get("x-req").map(|s| s.as_str()) == Some(&r.n.to_string()) }).collect();
        // cache-control
        let cc = x.header("cache-control");
        if cc.len() > 1 {
            return bad("cache-control", "several cache-control headers".into());
        }
        let cc = cc.first().copied().unwrap_or("");
        let words: Vec<&str> = cc.split(',').map(|w| w.trim()).filter(|w| !w.is_empty()).collect();
        let age: Option<i64> = words.iter().find_map(|w| w.strip_prefix("max-age=")).and_then(|w| w.parse().ok());
        let (private, nocache) = (words.contains(&"private"), words.contains(&"no-cache"));
        let tell = |c: &&&MCall| c.sent.iter().find(|h| h.0 == "cache-control").and_then(|h| CC.iter().find(|x| x.0 == h.1)).copied();
        if !p.cache_control || errors {
            if !cc.is_empty() {
                return bad("cache-control", format!("cache-control {cc} {}", if errors { "of a failed response" } else { "without being configured" }));
            }
        } else {
            // responses that another request may have asked for
            let shared = |c: &MCall| {
                p.sharing()
                    && (c.start.s < r.inv.s
                        || reqs.iter().any(|o| {
                            let mut u = BTreeSet::new();
                            let known = matches!(&o.reply, Some(Ok(x)) if x.status == 200 && !x.body.contains("\"errors\""));
                            if let Some(Ok(x)) = &o.reply {
                                used(&x.json(), &mut u);
                            }
                            o.n != r.n && o.step.user == r.step.user && o.inv.s <= c.start.s && o.ret.s >= c.start.s && (!known || u.contains(&c.n))
                        }))
            };
            let (theirs, ours): (Vec<&MCall>, Vec<&MCall>) = cs.iter().partition(|c| shared(c));
            let told: Vec<_> = cs.iter().filter_map(|c| tell(&c)).collect();
            if cs.len() > 1 && told.len() > 1 {
                *rich += 1;
            }
            // a follower of a whole operation says nothing
            if !(p.sharing() && cc.is_empty()) {
                for (suffix, which) in [("", &ours), ("-shared", &theirs)] {
                    let told: Vec<_> = which.iter().filter_map(|c| tell(&c)).collect();
                    if told.iter().any(|t| t.2) && !private && (age.is_some() || !nocache) {
                        return bad(&format!("private-lost{suffix}"), format!("cache-control {cc:?} although an upstream response is private"));
                    }
                    if let (Some(l), Some(a)) = (told.iter().filter_map(|t| t.1).min(), age) {
                        if a > l {
                            return bad(&format!("too-long{suffix}"), format!("cache-control {cc:?} although an upstream response allows only {l} s (-1: none)"));
                        }
                    }
                }
            }
            let least = told.iter().filter_map(|t| t.1).min();
            let any_private = told.iter().any(|t| t.2);
            if let (None, Some(_)) = (least, age) {
                return bad("too-long", format!("cache-control {cc:?} although no upstream response gives a lifetime"));
            }
            if !p.sharing() {
                match least {
                    Some(l) if l > 0 && age != Some(l) => return bad("not-least", format!("cache-control {cc:?} although the least lifetime is {l} s")),
                    Some(-1) if !nocache => return bad("no-cache-lost", format!("cache-control {cc:?} although an upstream response may not be cached")),
                    None | Some(0) if nocache || private != any_private => return bad("cache-control", format!("cache-control {cc:?} is not what upstream said")),
                    _ => {}
                }
            }
        }
        // cookies
        let cookies: Vec<&str> = x.header("set-cookie").into_iter().flat_map(|c| c.split("; ")).collect();
        let sent = |c: &MCall, k: &str| c.sent.iter().filter(|h| h.0 == k).map(|h| h.1.clone()).collect::<Vec<_>>();
        for k in &cookies {
            if !p.cookies {
                return bad("cookies", "a cookie without being configured".into());
            }
            if !own.iter().any(|c| sent(c, "set-cookie").iter().any(|s| s == k)) {
                return bad("foreign-cookie", format!("cookie {k} is not of a call made for this request"));
            }
        }
        if p.cookies && !p.sharing() && !errors {
            for c in own.iter().filter(|c| from.contains(&c.n)) {
                if let Some(k) = sent(c, "set-cookie").iter().find(|k| !cookies.contains(&k.as_str())) {
                    return bad("cookie-lost", format!("cookie {k} was not passed on"));
                }
            }
        }
        // experimental headers
        for (i, name) in XS.iter().enumerate() {
            let listed = i < 2 && p.listed >> i & 1 == 1;
            let got = x.header(name);
            if got.len() > 1 || !listed && !got.is_empty() {
                return bad("x-header", format!("header {name} {got:?}, {}", if listed { "listed" } else { "not listed" }));
            }
            if let Some(g) = got.first() {
                if !own.iter().any(|c| sent(c, name).iter().any(|s| s == g)) {
                    return bad("foreign-x-header", format!("header {name}: {g} is not of a call made for this request"));
                }
            } else if listed && !p.sharing() && !errors && own.iter().any(|c| from.contains(&c.n) && !sent(c, name).is_empty()) {
                return bad("x-header-lost", format!("header {name} was not passed on"));
            }
        }
        let custom = x.header("x-custom");
        if x.status == 200 && custom != if p.custom { vec!["of-the-server", "again"] } else { vec![] } {
            return bad("custom", format!("x-custom {custom:?}"));
        }
    }
    None
}
