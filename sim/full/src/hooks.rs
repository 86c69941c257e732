//! Scripts: what they see, what they change, and whom their results belong to. Runs the real JavaScript runtime.
use std::collections::BTreeMap;
use std::sync::Arc;

use async_graphql_value::ConstValue;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;
use tailcall::core::worker::{self, Command, Event};
use tailcall::core::WorkerIO;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

const SCRIPT: &str = r#"
function str(q) { return Object.keys(q).map(k => encodeURIComponent(k) + "=" + encodeURIComponent(q[k])).join("&") }
function keep({request}) { return {request} }
function tag({request}) { request.headers["x-tag"] = "tag"; return {request} }
function tag2({request}) { request.headers["x-tag"] = "tag2"; return {request} }
function rewrite({request}) {
  request.uri.path = "/moved" + request.uri.path
  request.uri.query.extra = "a&b=c#d e+f%20"
  return {request}
}
function post({request}) {
  request.body = JSON.stringify({path: request.uri.path, host: request.uri.host, query: request.uri.query, method: request.method, body: request.body, who: request.headers.authorization || ""})
  request.method = "POST"
  request.headers["content-type"] = "application/json"
  return {request}
}
function reply({request}) {
  const q = request.uri.query, b = request.body ? JSON.parse(request.body) : {}
  const item = {id: q.id || b.id || "", note: q.note || b.note || "", zone: "hook", rev: -1, who: request.headers.authorization || "", tag: "", method: request.method, seen: "", next: "1"}
  return {response: {status: 200, headers: {"content-type": "application/json"}, body: JSON.stringify(request.uri.path.endsWith("/list") || request.uri.path.endsWith("/ones") ? [item] : item)}}
}
function redirect({request}) {
  const to = request.uri.path.replace(/^\/(old|older)\//, (_, x) => x == "old" ? "/a/" : "/old/")
  if (to == request.uri.path) return {request}
  const older = request.uri.path.startsWith("/older/"), query = older ? {...request.uri.query, via: "older one"} : request.uri.query
  const location = (older ? "http://moved" : "") + to + (Object.keys(query).length ? "?" + str(query) : "")
  return {response: {status: older ? 301 : 302, headers: {location, "x-note": "caf\u00e9"}}}
}
function all(text, f) { const v = JSON.parse(text); return JSON.stringify(Array.isArray(v) ? v.map(f) : v === null ? v : f(v)) }
function push(v, x) { v.hooks = [...(v.hooks || []), x]; return v }
function mark(text) { return all(text, v => push(v, "mark")) }
function stamp(text) { return all(text, v => push(v, "stamp")) }
function picky(text) { return all(text, v => { if (v.id == "x y") throw new Error("picky"); return push(v, "picky") }) }
function nothing(text) { return "null" }
function describe(text) { const v = JSON.parse(text); if (v.id == "10") return "null"; return JSON.stringify(`${v.id}|${v.zone}|${v.rev}|${(v.hooks || []).join()}`) }
"#;
const IDS: &[&str] = &["1", "2", "x y", "a&b=c", "10", "%31", "01"];
const TEXT: &[&str] = &["", "plain", "a&b", "x=y#z", "1+1 %20", "e\u{301}\u{1f600}", "\"q\"\\", "{{.args.id}}"];
const ZONES: &[&str] = &["a", "b", "old", "older"];
const ON_REQUEST: &[&str] = &["", "keep", "tag", "tag2", "rewrite", "post", "reply", "redirect"];
const ON_RESPONSE: &[&str] = &["", "mark", "stamp", "picky", "nothing"];
const KINDS: &[&str] = &["g0", "g1", "g2", "p0", "p1", "list", "make"];
const KIDS: &[&str] = &["up", "ups", "up2", "mate"];

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct F {
    pub kind: u8,
    pub id: u8,
    pub note: u8,
    pub zone: u8,
    pub var: bool,
    pub kids: Vec<u8>,
    pub said: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub user: u8,
    pub fields: Vec<F>,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub dedupe: bool,
    pub cache: bool,
    pub batch: Option<(u64, u64)>,
    /// upstream.onRequest
    pub global: u8,
    /// onRequest and onResponseBody of `KINDS` and then `KIDS`
    pub hooks: Vec<(u8, u8)>,
    /// what `list` gives
    pub rows: Vec<u8>,
    pub up: MiniPlan,
    /// of the two workers
    pub work: (MiniPlan, MiniPlan),
    pub clients: Vec<Vec<Step>>,
}
fn id(i: u8) -> &'static str {
    IDS[i as usize % IDS.len()]
}
fn after(i: &str) -> &'static str {
    IDS[(IDS.iter().position(|x| *x == i).unwrap_or(0) * 3 + 2) % IDS.len()]
}
impl Plan {
    /// the hooks of a field
    fn of(&self, field: &str) -> (&'static str, &'static str) {
        let k = KINDS.iter().chain(KIDS).position(|k| *k == field).unwrap();
        let (x, y) = self.hooks.get(k).copied().unwrap_or_default();
        let x = ON_REQUEST[x as usize % ON_REQUEST.len()];
        let x = if x.is_empty() { ON_REQUEST[self.global as usize % ON_REQUEST.len()] } else { x };
        // requests of a batch are merged by their method
        let x = if x == "post" && k >= KINDS.len() { "tag" } else { x };
        // the script does not know that a list is wanted
        let x = if x == "reply" && field == "ups" && self.batch.is_some() { "tag2" } else { x };
        (x, ON_RESPONSE[y as usize % ON_RESPONSE.len()])
    }
    fn files(&self) -> Vec<(String, String)> {
        let hooks = |f: &str| {
            let (x, y) = self.of(f);
            let mut o = String::new();
            if !x.is_empty() {
                o += &format!(", onRequest: {x:?}");
            }
            if !y.is_empty() {
                o += &format!(", onResponseBody: {y:?}");
            }
            o
        };
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let c = if self.cache { " @cache(maxAge: 50)" } else { "" };
        let args = "id: String!, note: String!, zone: String!";
        let body = r#"method: "POST", body: {id: "{{.args.id}}", note: "{{.args.note}}"}"#;
        let (many, ones, bulk, key) = if self.batch.is_some() { ("many", "many", "bulk", ", batchKey: [\"id\"]") } else { ("item", "ones", "item", "") };
        let mut q = String::new();
        for k in ["g0", "g1", "g2"] {
            q += &format!("  {k}({args}): Item @http(url: \"http://up/{{{{.args.zone}}}}/item\", query: [{{key: \"id\", value: \"{{{{.args.id}}}}\"}}, {{key: \"note\", value: \"{{{{.args.note}}}}\"}}]{}{d}){c}\n", hooks(k));
        }
        for k in ["p0", "p1"] {
            q += &format!("  {k}({args}): Item @http(url: \"http://up/{{{{.args.zone}}}}/item\", {body}{}{d}){c}\n", hooks(k));
        }
        q += &format!("  list(zone: String!): [Item] @http(url: \"http://up/{{{{.args.zone}}}}/list\"{}{d}){c}\n", hooks("list"));
        let mut kids = String::new();
        for (k, ty, path) in [("up", "Item", many), ("ups", "[Item]", ones), ("up2", "Item", many)] {
            kids += &format!("  {k}: {ty} @http(url: \"http://up/a/{path}\", query: [{{key: \"id\", value: \"{{{{.value.next}}}}\"}}]{key}{}{d}){c}\n", hooks(k));
        }
        kids += &format!("  mate: Item @http(url: \"http://up/a/{bulk}\", method: \"POST\", body: {{id: \"{{{{.value.next}}}}\"}}{key}{}{d}){c}\n", hooks("mate"));
        let sdl = format!(
            "schema {{ query: Query mutation: Mutation }}\ntype Query {{\n{q}}}\ntype Mutation {{\n  make({args}): Item @http(url: \"http://up/{{{{.args.zone}}}}/make\", {body}{})\n}}\ntype Item {{\n  id: String\n  note: String\n  zone: String\n  rev: Int\n  who: String\n  tag: String\n  method: String\n  seen: String\n  next: String\n  hooks: [String]\n  said: String @js(name: \"describe\")\n{kids}}}\n",
            hooks("make")
        );
        let mut up = json!({"allowedHeaders": ["authorization"]});
        if let Some((d, m)) = self.batch {
            up["batch"] = json!({"delay": d.max(1), "maxSize": m.max(1), "headers": ["authorization", "x-tag"]});
        }
        let cfg = json!({"server": {}, "upstream": up, "links": [{"src": "/app/schema.graphql", "type": "Config"}, {"src": "/app/hooks.js", "type": "Script"}]});
        // upstream.onRequest is part of what `of` gives; half of the fields without a hook of their own get it from there
        let mut cfg = cfg;
        let g = ON_REQUEST[self.global as usize % ON_REQUEST.len()];
        let mut sdl = sdl;
        if !g.is_empty() && g != "post" {
            cfg["upstream"]["onRequest"] = json!(g);
            sdl = sdl.replace(&format!(", onRequest: {g:?}"), "");
        }
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl), ("/app/hooks.js".into(), SCRIPT.into())]
    }
}

/// a request for one item, alone
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Ask {
    host: String,
    method: String,
    path: String,
    query: Vec<(String, String)>,
    body: String,
    tag: String,
    who: String,
}
impl Ask {
    fn seen(&self) -> String {
        format!("{} {}{} {:?} {}", self.method, self.host, self.path, self.query, self.body)
    }
    fn get(&self, k: &str) -> String {
        if let Some((_, v)) = self.query.iter().find(|q| q.0 == k) {
            return v.clone();
        }
        let b: Value = serde_json::from_str(&self.body).unwrap_or_default();
        let inner: Value = b["body"].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or_default();
        b[k].as_str().or(inner[k].as_str()).unwrap_or("").to_string()
    }
    /// the answer of call `rev`
    fn item(&self, rev: usize) -> Value {
        let segs: Vec<&str> = self.path.trim_matches('/').split('/').collect();
        let i = self.get("id");
        json!({"id": i, "note": self.get("note"), "zone": segs[segs.len().saturating_sub(2)], "rev": rev, "who": self.who, "tag": self.tag, "method": self.method, "seen": self.seen(), "next": after(&i)})
    }
    fn row(&self, i: &str, rev: usize) -> Value {
        let mut x = self.item(rev);
        x["id"] = json!(i);
        x["next"] = json!(after(i));
        x
    }
    /// what the hook makes of it; or its own answer
    fn hooked(mut self, x: &str) -> Result<Ask, Value> {
        match x {
            "tag" | "tag2" => self.tag = x.to_string(),
            "rewrite" => {
                self.path = format!("/moved{}", self.path);
                self.query.push(("extra".into(), "a&b=c#d e+f%20".into()));
                self.query.sort();
            }
            "post" => {
                let q: BTreeMap<_, _> = self.query.iter().cloned().collect();
                let mut body = json!({"path": self.path, "host": "up", "query": q, "method": self.method});
                if !self.body.is_empty() {
                    body["body"] = json!(self.body);
                }
                body["who"] = json!(self.who);
                self.body = body.to_string();
                self.method = "POST".into();
            }
            "reply" => {
                let item = json!({"id": self.get("id"), "note": self.get("note"), "zone": "hook", "rev": -1, "who": self.who, "tag": "", "method": self.method, "seen": "", "next": "1"});
                return Err(if self.path.ends_with("/list") || self.path.ends_with("/ones") { json!([item]) } else { item });
            }
            "redirect" => {
                for z in ["/old/", "/older/"] {
                    if let Some(rest) = self.path.strip_prefix(z) {
                        self.path = format!("/a/{rest}");
                        if z == "/older/" {
                            self.host = "moved".into();
                            self.query.push(("via".into(), "older one".into()));
                            self.query.sort();
                        }
                        break;
                    }
                }
            }
            _ => {}
        }
        Ok(self)
    }
}
/// What a call asks for; bodies are compared as they were written.
fn decode(c: &MCall) -> Result<Vec<Ask>, String> {
    if c.method == "POST" && c.headers.get("content-type").map(|s| s.as_str()) != Some("application/json") {
        return Err("the content type is gone".into());
    }
    let host = ["up", "moved"].into_iter().find(|h| c.url.starts_with(&format!("http://{h}/")));
    let (Some(host), false) = (host, c.url.contains('#')) else {
        return Err("another url".into());
    };
    let mut query = c.query.clone();
    query.sort();
    let raw = String::from_utf8(c.raw.clone()).map_err(|e| e.to_string())?;
    let ask = Ask { host: host.into(), method: c.method.clone(), path: c.path.clone(), query, body: raw, tag: c.headers.get("x-tag").cloned().unwrap_or_default(), who: c.auth().to_string() };
    if c.path.ends_with("/many") {
        let (ids, rest): (Vec<_>, Vec<_>) = ask.query.iter().cloned().partition(|q| q.0 == "id");
        return Ok(ids
            .into_iter()
            .map(|i| {
                let mut query = rest.clone();
                query.push(i);
                query.sort();
                query.dedup();
                Ask { query, ..ask.clone() }
            })
            .collect());
    }
    if c.path.ends_with("/bulk") {
        let list = match &c.body {
            Value::Array(a) => a.clone(),
            o => vec![o.clone()],
        };
        let mut query = ask.query.clone();
        query.dedup();
        return Ok(list.into_iter().map(|b| Ask { body: b.to_string(), query: query.clone(), ..ask.clone() }).collect());
    }
    Ok(vec![ask])
}
fn answer(p: &Plan, c: &MCall) -> Option<Ans> {
    let asks = decode(c).ok()?;
    Ans::json(match c.segs().last() {
        Some(&"many" | &"bulk") => Value::Array(asks.iter().map(|a| a.item(c.n)).collect()),
        Some(&"ones") => json!([asks[0].item(c.n)]),
        Some(&"list") => Value::Array(p.rows.iter().map(|i| asks[0].row(id(*i), c.n)).collect()),
        Some(&"item" | &"make") => asks[0].item(c.n),
        _ => return None,
    })
}

#[derive(Clone, Debug)]
struct WCall {
    name: String,
    start: At,
    end: At,
    failed: bool,
}
/// A script engine that may be slow or fail; what it runs is the real thing.
struct Worker<T, V> {
    kind: &'static str,
    inner: Arc<dyn WorkerIO<T, V>>,
    plan: MiniPlan,
    calls: Log<WCall>,
    faults: Faults,
}
#[async_trait::async_trait]
impl<T: Send + 'static, V: Send + 'static> WorkerIO<T, V> for Worker<T, V> {
    async fn call(&self, name: &str, input: T) -> Result<Option<V>, worker::Error> {
        let start = at();
        let n = self.calls.push(WCall { name: name.into(), start, end: At { s: u64::MAX, t: u64::MAX }, failed: false });
        simrt::event(|| format!("{} {n} {name} at {start:?}", self.kind));
        let lat = if self.plan.lat.is_empty() { 0 } else { self.plan.lat[n % self.plan.lat.len()] };
        if lat > 0 {
            simrt::sleep(us(lat)).await;
        }
        let out = if !self.plan.fail.is_empty() && self.plan.fail[n % self.plan.fail.len()] != 0 {
            fault(&self.faults, "script_engine_error");
            Err(worker::Error::CLI(format!("stopped [{}#{n}]", self.kind)))
        } else {
            self.inner.call(name, input).await
        };
        let end = at();
        self.calls.with(|c| {
            c[n].end = end;
            c[n].failed = out.is_err();
        });
        simrt::event(|| format!("{} {n} -> {} at {end:?}", self.kind, match &out { Ok(_) => "ok".into(), Err(e) => e.to_string() }));
        out
    }
}

struct Req {
    step: Step,
    text: String,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
impl Step {
    fn fields(&self) -> Vec<F> {
        let mut f = self.fields.clone();
        if f.is_empty() {
            f.push(F::default());
        }
        let m = f[0].kind() == "make";
        f.retain(|f| (f.kind() == "make") == m);
        f
    }
    fn mutation(&self) -> bool {
        self.fields()[0].kind() == "make"
    }
    fn who(&self) -> String {
        if self.user == 0 {
            String::new()
        } else {
            format!("Bearer u{}", self.user)
        }
    }
}
impl F {
    fn kind(&self) -> &'static str {
        KINDS[self.kind as usize % KINDS.len()]
    }
    fn kids(&self) -> Vec<&'static str> {
        let mut k: Vec<_> = self.kids.iter().map(|k| KIDS[*k as usize % KIDS.len()]).collect();
        k.sort();
        k.dedup();
        k
    }
    fn print(&self, i: usize, vars: &mut serde_json::Map<String, Value>, decl: &mut Vec<String>) -> String {
        let mut arg = |name: &str, v: &str| {
            if self.var {
                let n = format!("{name}{i}");
                decl.push(format!("${n}: String!"));
                vars.insert(n.clone(), json!(v));
                format!("{name}: ${n}")
            } else {
                format!("{name}: {}", json!(v))
            }
        };
        let zone = ZONES[self.zone as usize % ZONES.len()];
        let a = if self.kind() == "list" { vec![arg("zone", zone)] } else { vec![arg("id", id(self.id)), arg("note", TEXT[self.note as usize % TEXT.len()]), arg("zone", zone)] };
        let item = format!("id note zone rev who tag method seen next hooks {}", if self.said { "said" } else { "" });
        let kids: Vec<String> = self.kids().iter().map(|k| format!("{k} {{ {item} }}")).collect();
        format!("f{i}: {}({}) {{ {item} {} }}", self.kind(), a.join(", "), kids.join(" "))
    }
    fn base(&self, who: &str) -> Ask {
        let zone = ZONES[self.zone as usize % ZONES.len()];
        let (i, note) = (id(self.id), TEXT[self.note as usize % TEXT.len()]);
        let body = json!({"id": i, "note": note}).to_string();
        let ask = |method: &str, path: &str, query: Vec<(String, String)>, body: String| Ask { host: "up".into(), method: method.into(), path: format!("/{zone}/{path}"), query, body, tag: String::new(), who: who.into() };
        match self.kind() {
            "list" => ask("GET", "list", vec![], String::new()),
            "make" => ask("POST", "make", vec![], body),
            "p0" | "p1" => ask("POST", "item", vec![], body),
            _ => ask("GET", "item", vec![("id".into(), i.into()), ("note".into(), note.into())], String::new()),
        }
    }
    fn list(&self) -> bool {
        self.kind() == "list"
    }
    /// everything it may ask for, with how often at most
    fn asks(&self, p: &Plan, who: &str, out: &mut BTreeMap<Ask, usize>) {
        let (x, y) = p.of(self.kind());
        let rows: Vec<Value> = match self.base(who).hooked(x) {
            Ok(a) => {
                *out.entry(a.clone()).or_default() += 1;
                if self.list() {
                    p.rows.iter().map(|i| a.row(id(*i), 0)).collect()
                } else {
                    vec![a.item(0)]
                }
            }
            Err(Value::Array(l)) => l,
            Err(v) => vec![v],
        };
        if y == "nothing" {
            return;
        }
        for r in rows {
            for k in self.kids() {
                if let Ok(a) = kid_ask(p, k, r["next"].as_str().unwrap(), who).hooked(p.of(k).0) {
                    *out.entry(a).or_default() += 1;
                }
            }
        }
    }
}
fn kid_ask(p: &Plan, k: &str, next: &str, who: &str) -> Ask {
    let b = p.batch.is_some();
    let get = |path: &str| Ask { host: "up".into(), method: "GET".into(), path: format!("/a/{path}"), query: vec![("id".into(), next.into())], body: String::new(), tag: String::new(), who: who.into() };
    match k {
        "ups" => get(if b { "many" } else { "ones" }),
        "mate" => Ask { method: "POST".into(), query: vec![], body: json!({"id": next}).to_string(), ..get(if b { "bulk" } else { "item" }) },
        _ => get(if b { "many" } else { "item" }),
    }
}

pub struct HookScenario;
impl Scenario for HookScenario {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            4_000
        } else {
            150_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws which fields have which onRequest and onResponseBody hooks, dedupe, cache, batching and clients of several identities; it is non-trivial when two different requests overlapped, a hook ran and \
         one of them was answered with data, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["JavaScript runtime (QuickJS) and its codec", "worker hooks, @js", "request templates, data loader, batching", "jit, IR evaluation, dedupe, cache", "request handler"],
            vec!["upstream that echoes what it got (simulated HttpIO)", "thread of the script engine (runs at the moment the simulator picks)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "script_engine_error", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let ids: Vec<u8> = (0..r.range(1, 3)).map(|_| r.below(IDS.len() as u64) as u8).collect();
        let notes: Vec<u8> = (0..r.range(1, 2)).map(|_| r.below(TEXT.len() as u64) as u8).collect();
        let kinds: Vec<u8> = (0..r.range(1, 4)).map(|_| r.below(KINDS.len() as u64) as u8).collect();
        let zones: Vec<u8> = (0..r.range(1, 2)).map(|_| r.below(ZONES.len() as u64) as u8).collect();
        let xs: Vec<u8> = (0..r.range(1, 3)).map(|_| r.below(ON_REQUEST.len() as u64) as u8).collect();
        let ys: Vec<u8> = (0..r.range(1, 3)).map(|_| r.below(ON_RESPONSE.len() as u64) as u8).collect();
        let users = r.range(1, 3) as u64;
        let kids = r.chance(0.5);
        let kid_kinds: Vec<u8> = (0..r.range(1, 3)).map(|_| r.below(KIDS.len() as u64) as u8).collect();
        let clients = (0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(1, 3))
                    .map(|_| Step {
                        wait: *r.pick(&[0, 0, 0, 1, 2, 5, 20]) * unit,
                        user: r.below(users) as u8,
                        fields: (0..r.range(1, 3))
                            .map(|_| F {
                                kind: *r.pick(&kinds),
                                id: *r.pick(&ids),
                                note: *r.pick(&notes),
                                zone: *r.pick(&zones),
                                var: r.chance(0.5),
                                kids: if kids { (0..r.range(0, 2)).map(|_| *r.pick(&kid_kinds)).collect() } else { vec![] },
                                said: r.chance(0.3),
                            })
                            .collect(),
                        cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            dedupe: r.chance(0.4),
            cache: r.chance(0.3),
            batch: if r.chance(0.6) { Some((*r.pick(&[1, 2, 5]), *r.pick(&[1, 2, 3, 100]))) } else { None },
            global: if r.chance(0.2) { r.below(ON_REQUEST.len() as u64) as u8 } else { 0 },
            hooks: (0..KINDS.len() + KIDS.len()).map(|_| if r.chance(0.8) { (*r.pick(&xs), *r.pick(&ys)) } else { (0, 0) }).collect(),
            rows: {
                let mut v: Vec<u8> = (0..r.range(0, 4)).map(|_| r.below(IDS.len() as u64) as u8).collect();
                v.dedup();
                v
            },
            up: draw_mini(r, 0.15),
            work: (draw_mini(r, 0.08), draw_mini(r, 0.08)),
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let env = SimEnv::default();
        let (b, e) = prepared(&p.files(), &env).expect("configuration");
        let p1 = p.clone();
        let up = Mini::new(p.up.clone(), move |c| answer(&p1, c));
        let reqs = Log::<Arc<Req>>::default();
        let (w1, w2) = (Log::<WCall>::default(), Log::<WCall>::default());
        let (u2, r2, p2, l1, l2) = (up.clone(), reqs.clone(), p.clone(), w1.clone(), w2.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let script = b.server.script.clone().expect("a script");
            let cmd: Arc<dyn WorkerIO<Event, Command>> =
                Arc::new(Worker { kind: "hook", inner: tailcall::javascript::init_worker_io::<Event, Command>(script.clone()), plan: p2.work.0.clone(), calls: l1, faults: u2.faults.clone() });
            let val: Arc<dyn WorkerIO<ConstValue, ConstValue>> =
                Arc::new(Worker { kind: "js", inner: tailcall::javascript::init_worker_io::<ConstValue, ConstValue>(script), plan: p2.work.1.clone(), calls: l2, faults: u2.faults.clone() });
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), env, (Some(cmd), Some(val)));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, f) = (app.clone(), r2.clone(), u2.faults.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for mut st in steps {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        st.fields = st.fields();
                        let (mut vars, mut decl) = (serde_json::Map::new(), vec![]);
                        let body: Vec<String> = st.fields.iter().enumerate().map(|(i, f)| f.print(i, &mut vars, &mut decl)).collect();
                        let decl = if decl.is_empty() { String::new() } else { format!("({})", decl.join(", ")) };
                        let doc = format!("{}{decl} {{ {} }}", if st.mutation() { "mutation" } else { "query" }, body.join(" "));
                        let text = format!("{doc} {} of {:?}", Value::Object(vars.clone()), st.who());
                        let body = json!({"query": doc, "variables": vars}).to_string();
                        let heads = if st.user == 0 { vec![] } else { vec![("authorization".to_string(), st.who())] };
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request at {inv:?}: {text}"));
                        let out = cancellable(async move { send(app, "POST", "/graphql", &heads, body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply at {ret:?}: {reply:?}"));
                        r2.push(Arc::new(Req { step: st, text, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let faults = up.faults.lock().unwrap().clone();
        let (reqs, calls, w1, w2) = (reqs.take(), up.calls.take(), w1.take(), w2.take());
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &reqs, &calls, &w1, &w2);
        }
        let good = |r: &Req| matches!(&r.reply, Some(Ok(x)) if x.json()["data"].is_object());
        let nontrivial = w1.len() + w2.len() > 0
            && reqs.iter().enumerate().any(|(i, a)| reqs[..i].iter().any(|b| a.inv.s <= b.ret.s && b.inv.s <= a.ret.s && a.text != b.text && (good(a) || good(b))));
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "upstream_calls": calls.len(), "hook_calls": w1.len(), "js_calls": w2.len()}) }
    }
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall], w1: &[WCall], w2: &[WCall]) -> Option<Violation> {
    let mut asked: BTreeMap<Ask, usize> = BTreeMap::new();
    for r in reqs {
        for f in &r.step.fields {
            f.asks(p, &r.step.who(), &mut asked);
        }
    }
    let mut sent: BTreeMap<Ask, usize> = BTreeMap::new();
    let mut said: Vec<Vec<Ask>> = vec![];
    for c in calls {
        let bad = |cl: &str, m: String| Some(Violation::new(cl, format!("{m}\ncall {} {} {} body {:?} headers {:?}", c.n, c.method, c.url, String::from_utf8_lossy(&c.raw), c.headers)));
        let asks = match decode(c) {
            Ok(a) => a,
            Err(e) => return bad("mangled", e),
        };
        for a in &asks {
            if !asked.contains_key(a) {
                return bad("changed", format!("nobody asked for {a:?}"));
            }
            *sent.entry(a.clone()).or_default() += 1;
        }
        said.push(asks);
    }
    for (a, n) in &sent {
        if *n > asked[a] {
            return Some(Violation::new("repeated-call", format!("{a:?} was sent {n} times for {} uses", asked[a])));
        }
    }
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, t: String| Some(Violation::new(c, format!("{t}\nrequest {} at {:?}..{:?}\nreply {reply:?}", r.text, r.inv, r.ret)));
        let x = match reply {
            Ok(x) => x.json(),
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let mut mine = BTreeMap::new();
        for f in &r.step.fields {
            f.asks(p, &r.step.who(), &mut mine);
        }
        // something that is over is shared as long as who made it has not finished
        let joined = |start: At, end: At| start.s <= r.ret.s && (end.s >= r.inv.s || reqs.iter().any(|o| o.inv.s <= end.s && end.s <= o.ret.s && o.ret.s >= r.inv.s && !std::ptr::eq(&**o, &**r)));
        if let Some(errs) = x["errors"].as_array().filter(|e| !e.is_empty()) {
            if !x["data"].is_null() {
                return bad("data-and-errors", "data beside errors".into());
            }
            for e in errs {
                let m = e["message"].as_str().unwrap_or("");
                let token = |kind: &str| m.split(&format!("[{kind}#")).nth(1).and_then(|t| t.split(']').next()).and_then(|t| t.parse::<usize>().ok());
                let ok = if let Some(n) = token("") {
                    calls.get(n).is_some_and(|c| c.failed() && joined(c.start, c.end) && (p.batch.is_some() || said[n].iter().any(|a| mine.contains_key(a))))
                } else if let Some(n) = token("hook") {
                    w1.get(n).is_some_and(|w| w.failed && joined(w.start, w.end))
                } else if let Some(n) = token("js") {
                    w2.get(n).is_some_and(|w| w.failed && joined(w.start, w.end))
                } else if m.contains("picky") {
                    w2.iter().any(|w| w.failed && w.name == "picky" && joined(w.start, w.end))
                } else {
                    calls.iter().any(|c| c.outcome == crate::up::Outcome::Failed("garbage") && joined(c.start, c.end))
                };
                if !ok {
                    return bad("unexplained-error", format!("nothing of its own failed: {e}"));
                }
            }
            continue;
        }
        if !x["data"].is_object() {
            return bad("no-data", "neither data nor errors".into());
        }
        // kept from when the hooks were through with it
        let kept = |c: &MCall| p.cache && reqs.iter().any(|o| o.inv.s <= c.end.s && c.end.s <= o.ret.s && o.ret.t + 50_000_000 >= r.inv.t);
        let fresh = |c: &MCall| c.end.s <= r.ret.s && (joined(c.start, c.end) || kept(c));
        // one item of the answer to `ask`; `one` gives the item that call `rev` says
        let judge_item = |got: &Value, ask: &Result<Ask, Value>, y: &str, said_too: bool, row: Option<&str>| -> Result<Value, (&'static str, String)> {
            if y == "nothing" {
                return if got.is_null() { Ok(Value::Null) } else { Err(("hook-ignored", format!("the hook says null, got {got}"))) };
            }
            let mut want = match ask {
                Err(v) => v.as_array().map(|a| a[0].clone()).unwrap_or(v.clone()),
                Ok(a) => {
                    if got.is_null() {
                        return Err(("lost", format!("nothing for {a:?}")));
                    }
                    let rev = got["rev"].as_u64().unwrap_or(u64::MAX) as usize;
                    let c = calls.get(rev).ok_or(("invented", format!("no call {rev}: {got}")))?;
                    if c.failed() || !said[rev].contains(a) || !fresh(c) {
                        return Err(("wrong-source", format!("{a:?} answered from call {rev} {} which says {:?}", c.url, said[rev])));
                    }
                    match row {
                        Some(i) => a.row(i, rev),
                        None => a.item(rev),
                    }
                }
            };
            if y == "picky" && want["id"] == "x y" {
                return Err(("hook-ignored", format!("the hook fails for it, got {got}")));
            }
            want["hooks"] = if y.is_empty() { Value::Null } else { json!([y]) };
            if said_too {
                want["said"] = if want["id"] == "10" { Value::Null } else { json!(format!("{}|{}|{}|{y}", want["id"].as_str().unwrap(), want["zone"].as_str().unwrap(), want["rev"])) };
            }
            let mut flat = got.clone();
            for k in KIDS {
                flat.as_object_mut().map(|o| o.remove(*k));
            }
            if flat != want {
                return Err(("wrong-value", format!("expected {want}, got {flat}")));
            }
            Ok(want)
        };
        for (i, f) in r.step.fields.iter().enumerate() {
            let got = &x["data"][format!("f{i}")];
            let who = r.step.who();
            let (hx, hy) = p.of(f.kind());
            let ask = f.base(&who).hooked(hx);
            let kids = |got: &Value, of: &Value| -> Result<(), (&'static str, String)> {
                if of.is_null() {
                    return Ok(());
                }
                for k in f.kids() {
                    let (kx, ky) = p.of(k);
                    let ask = kid_ask(p, k, of["next"].as_str().unwrap(), &who).hooked(kx);
                    let mut g = &got[k];
                    if k == "ups" && ky != "nothing" {
                        match g.as_array() {
                            Some(a) if a.len() == 1 => g = &a[0],
                            // several asked for the same and were put in one batch
                            _ => return Err(("wrong-rows", format!("{k}: got {g}"))),
                        }
                    }
                    judge_item(g, &ask, ky, f.said, None)?;
                }
                Ok(())
            };
            let res = if f.list() && hy != "nothing" {
                let rows: Vec<Option<&str>> = if ask.is_err() { vec![None] } else { p.rows.iter().map(|i| Some(id(*i))).collect() };
                match got.as_array() {
                    Some(a) if a.len() == rows.len() => a.iter().zip(rows).try_for_each(|(g, i)| judge_item(g, &ask, hy, f.said, i).and_then(|w| kids(g, &w))),
                    _ => Err(("wrong-rows", format!("got {got}"))),
                }
            } else {
                judge_item(got, &ask, hy, f.said, None).and_then(|w| kids(got, &w))
            };
            if let Err((c, m)) = res {
                return bad(c, format!("field {i}: {m}"));
            }
        }
    }
    // every mutation is sent exactly once
    let mut makes: BTreeMap<Ask, (usize, usize)> = BTreeMap::new();
    for r in reqs.iter().filter(|r| r.step.mutation()) {
        let failed = !matches!(&r.reply, Some(Ok(x)) if x.json()["data"].is_object());
        for f in &r.step.fields {
            if let Ok(a) = f.base(&r.step.who()).hooked(p.of("make").0) {
                let e = makes.entry(a).or_default();
                e.1 += 1;
                e.0 += !failed as usize;
            }
        }
    }
    for (a, (least, most)) in makes {
        let n = sent.get(&a).copied().unwrap_or(0);
        if n < least || n > most {
            return Some(Violation::new("mutation-count", format!("{a:?} was sent {n} times for {least}..{most} mutations")));
        }
    }
    None
}
