//! Apollo Federation: entities by representation, each from its own call, in order.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

const TYPES: &[&str] = &["User", "Post", "Thing", "Fixed", "Deep", "Nope", ""];
const TEXT: &[&str] = &["1", "2", "x y", "a&b=c", "10", "%31", "01", "e\u{301}", "q\"\\", "{{.value.id}}", "", "\u{2028}\n"];
const ZONES: &[&str] = &["a", "b"];
fn text(i: u8) -> &'static str {
    TEXT[i as usize % TEXT.len()]
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Rep {
    pub kind: u8,
    pub id: u8,
    /// as a number where it looks like one
    pub num: bool,
    pub note: u8,
    pub zone: u8,
    /// carries what nobody asked for
    pub extra: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct F {
    pub reps: Vec<Rep>,
    /// 0 one variable, 1 literal, 2 literals with variables inside
    pub form: u8,
    pub posts: bool,
    pub thing: bool,
    pub sdl: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub user: u8,
    pub fields: Vec<F>,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub dedupe: bool,
    pub cache: bool,
    pub batch: Option<(u64, u64)>,
    /// users without an answer
    pub gone: Vec<u8>,
    /// the upstream calls its objects by a name of its own
    pub named: bool,
    /// rows of an answer by call number: 0 as asked, 1 reversed, 2 with one nobody asked for
    pub order: Vec<u8>,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}
impl Plan {
    fn files(&self) -> Vec<(String, String)> {
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let c = if self.cache { " @cache(maxAge: 50)" } else { "" };
        let key = if self.batch.is_some() { ", batchKey: [\"id\"]" } else { "" };
        let users = if self.batch.is_some() { "users" } else { "user" };
        let posts = if self.batch.is_some() { (", batchKey: [\"by\"]", "posts") } else { ("", "posts") };
        let sdl = format!(
            r#"schema {{ query: Query }}
type Query {{
  thing(id: String!, zone: String!): Thing @http(url: "http://up/thing/{{{{.args.zone}}}}", query: [{{key: "id", value: "{{{{.args.id}}}}"}}]{d}){c}
}}
type User @http(url: "http://up/{users}", query: [{{key: "id", value: "{{{{.value.id}}}}"}}]{key}{d}) {{
  id: String
  note: String
  rev: Int
  who: String
  posts: [Post] @http(url: "http://up/{}", query: [{{key: "by", value: "{{{{.value.id}}}}"}}]{}{d}){c}
  thing: Thing @call(steps: [{{query: "thing", args: {{id: "{{{{.value.id}}}}", zone: "a"}}}}])
}}
type Post @http(url: "http://up/post", method: "POST", body: {{id: "{{{{.value.id}}}}", note: "{{{{.value.note}}}}"}}{d}) {{
  id: String
  by: String
  note: String
  rev: Int
  who: String
}}
type Thing @call(steps: [{{query: "thing", args: {{id: "{{{{.value.id}}}}", zone: "{{{{.value.zone}}}}"}}}}]) {{
  id: String
  zone: String
  note: String
  rev: Int
  who: String
}}
type Fixed @expr(body: {{id: "{{{{.value.id}}}}", note: "fixed"}}) {{
  id: String
  note: String
}}
type Deep @http(url: "http://up/deep", query: [{{key: "id", value: "{{{{.value.key.id}}}}"}}, {{key: "note", value: "{{{{.value.key.note}}}}"}}]{d}) {{
  key: Key
  id: String
  note: String
  rev: Int
  who: String
}}
type Key {{
  id: String
  note: String
}}
type Plain {{
  id: String
}}
"#,
            posts.1, posts.0
        );
        let mut up = json!({"allowedHeaders": ["authorization"]});
        if let Some((d, m)) = self.batch {
            up["batch"] = json!({"delay": d.max(1), "maxSize": m.max(1), "headers": ["authorization"]});
        }
        let cfg = json!({"server": {"enableFederation": true}, "upstream": up, "links": [{"src": "/app/schema.graphql", "type": "Config"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl)]
    }
    fn gone(&self, i: &str) -> bool {
        self.gone.iter().any(|g| text(*g) == i)
    }
}

/// a request for one thing, alone
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Ask {
    method: String,
    path: String,
    args: Vec<(String, String)>,
    who: String,
}
impl Ask {
    fn get(&self, k: &str) -> &str {
        self.args.iter().find(|a| a.0 == k).map(|a| a.1.as_str()).unwrap_or("")
    }
    /// what call `rev` says
    fn says(&self, p: &Plan, rev: usize) -> Value {
        let i = self.get("id");
        let item = |extra: Value| {
            let mut o = json!({"id": i, "rev": rev, "who": self.who});
            o.as_object_mut().unwrap().extend(extra.as_object().unwrap().clone());
            o
        };
        match self.path.trim_matches('/').split('/').collect::<Vec<_>>()[..] {
            ["users" | "user"] if p.gone(i) => Value::Null,
            ["users" | "user"] => item(json!({"note": format!("user {i}")})),
            ["posts"] => Value::Array((0..self.get("by").len() % 3).map(|k| item(json!({"id": format!("{}-{k}", self.get("by")), "by": self.get("by"), "note": "of"}))).collect()),
            ["post"] => item(json!({"note": self.get("note"), "by": "post"})),
            ["thing", z] => item(json!({"zone": z, "note": "thing"})),
            ["deep"] => item(json!({"note": self.get("note"), "key": {"id": i, "note": self.get("note")}})),
            _ => Value::Null,
        }
    }
}
fn decode(p: &Plan, c: &MCall) -> Result<Vec<Ask>, String> {
    if !c.url.starts_with("http://up/") || c.url.contains('#') {
        return Err("another url".into());
    }
    let ask = |args: Vec<(String, String)>| Ask { method: c.method.clone(), path: c.path.clone(), args, who: c.auth().to_string() };
    let mut args = c.query.clone();
    args.sort();
    if c.method == "POST" {
        let o = c.body.as_object().ok_or("the body is no object")?;
        for (k, v) in o {
            args.push((k.clone(), v.as_str().ok_or("the value is no string")?.to_string()));
        }
        return Ok(vec![ask(args)]);
    }
    if p.batch.is_some() && ["/users", "/posts"].contains(&c.path.as_str()) {
        return Ok(args.into_iter().map(|a| ask(vec![a])).collect());
    }
    Ok(vec![ask(args)])
}
fn answer(p: &Plan, c: &MCall) -> Option<Ans> {
    let asks = decode(p, c).ok()?;
    let mut v = if p.batch.is_some() && ["/users", "/posts"].contains(&c.path.as_str()) {
        let mut rows = vec![];
        for a in &asks {
            match a.says(p, c.n) {
                Value::Array(l) => rows.extend(l),
                Value::Null => {}
                o => rows.push(o),
            }
        }
        match p.order.get(c.n % p.order.len().max(1)) {
            Some(1) => rows.reverse(),
            Some(2) => rows.insert(0, json!({"id": "nobody", "by": "nobody", "rev": c.n})),
            _ => {}
        }
        Value::Array(rows)
    } else {
        asks[0].says(p, c.n)
    };
    if p.named {
        let rows: Vec<&mut Value> = match &mut v {
            Value::Array(a) => a.iter_mut().collect(),
            o => vec![o],
        };
        for o in rows {
            if let Some(o) = o.as_object_mut() {
                o.insert("__typename".into(), json!("Upstream"));
            }
        }
    }
    Ans::json(v)
}

struct Req {
    step: Step,
    text: String,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
impl Step {
    fn who(&self) -> String {
        if self.user == 0 {
            String::new()
        } else {
            format!("Bearer u{}", self.user)
        }
    }
}
impl Rep {
    fn kind(&self) -> &'static str {
        TYPES[self.kind as usize % TYPES.len()]
    }
    fn zone(&self) -> &'static str {
        ZONES[self.zone as usize % ZONES.len()]
    }
    fn id(&self) -> Value {
        match text(self.id).parse::<u32>() {
            Ok(n) if self.num && n.to_string() == text(self.id) => json!(n),
            _ => json!(text(self.id)),
        }
    }
    fn json(&self) -> Value {
        let mut o = serde_json::Map::new();
        if !self.kind().is_empty() {
            o.insert("__typename".into(), json!(self.kind()));
        }
        match self.kind() {
            "Deep" => {
                o.insert("key".into(), json!({"id": self.id(), "note": text(self.note)}));
            }
            k => {
                o.insert("id".into(), self.id());
                if k == "Post" {
                    o.insert("note".into(), json!(text(self.note)));
                }
                if k == "Thing" {
                    o.insert("zone".into(), json!(self.zone()));
                }
            }
        }
        if self.extra {
            o.insert("rev".into(), json!(777));
            o.insert("who".into(), json!("somebody"));
            o.insert("other".into(), json!([{"deep": null}]));
        }
        Value::Object(o)
    }
    fn ask(&self, p: &Plan, who: &str) -> Option<Ask> {
        let ask = |method: &str, path: String, args: Vec<(&str, &str)>| Some(Ask { method: method.into(), path, args: args.into_iter().map(|(a, b)| (a.into(), b.into())).collect(), who: who.into() });
        let i = text(self.id);
        match self.kind() {
            "User" => ask("GET", if p.batch.is_some() { "/users" } else { "/user" }.into(), vec![("id", i)]),
            "Post" => ask("POST", "/post".into(), vec![("id", i), ("note", text(self.note))]),
            "Thing" => ask("GET", format!("/thing/{}", self.zone()), vec![("id", i)]),
            "Deep" => ask("GET", "/deep".into(), vec![("id", i), ("note", text(self.note))]),
            _ => None,
        }
    }
}
fn literal(v: &Value, deep: &mut dyn FnMut(&Value) -> Option<String>) -> String {
    match v {
        Value::Array(a) => format!("[{}]", a.iter().map(|v| literal(v, deep)).collect::<Vec<_>>().join(", ")),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {}", literal(v, deep))).collect::<Vec<_>>().join(", ")),
        v => deep(v).unwrap_or_else(|| v.to_string().replace('\u{2028}', "\\u2028")),
    }
}
impl F {
    fn print(&self, i: usize, vars: &mut serde_json::Map<String, Value>, decl: &mut Vec<String>) -> String {
        if self.sdl {
            return format!("f{i}: _service {{ sdl }}");
        }
        let reps = Value::Array(self.reps.iter().map(|r| r.json()).collect());
        let arg = match self.form % 3 {
            0 => {
                decl.push(format!("$r{i}: [_Any!]!"));
                vars.insert(format!("r{i}"), reps);
                format!("$r{i}")
            }
            1 => literal(&reps, &mut |_| None),
            _ => {
                let mut n = 0;
                literal(&reps, &mut |v| {
                    n += 1;
                    let (name, ty) = (format!("v{i}_{n}"), if v.is_string() { "String!" } else { "Int!" });
                    if n % 2 == 0 || v.is_null() || self.reps.iter().any(|r| v == r.kind()) {
                        return None;
                    }
                    decl.push(format!("${name}: {ty}"));
                    vars.insert(name.clone(), v.clone());
                    Some(format!("${name}"))
                })
            }
        };
        let kids = format!("{}{}", if self.posts { " posts { id by note rev who }" } else { "" }, if self.thing { " thing { id zone note rev who }" } else { "" });
        format!(
            "f{i}: _entities(representations: {arg}) {{ __typename ... on User {{ id note rev who{kids} }} ... on Post {{ id note rev who }} ... on Thing {{ id zone note rev who }} ... on Fixed {{ id note }} ... on Deep {{ id note rev who key {{ id note }} }} }}"
        )
    }
    fn kid_asks(&self, p: &Plan, id: &str, who: &str) -> Vec<(&'static str, Ask)> {
        let _ = p;
        let mut out = vec![];
        if self.posts {
            out.push(("posts", Ask { method: "GET".into(), path: "/posts".into(), args: vec![("by".into(), id.into())], who: who.into() }));
        }
        if self.thing {
            out.push(("thing", Ask { method: "GET".into(), path: "/thing/a".into(), args: vec![("id".into(), id.into())], who: who.into() }));
        }
        out
    }
    fn asks(&self, p: &Plan, who: &str, out: &mut BTreeMap<Ask, usize>) {
        for r in self.reps.iter().filter(|_| !self.sdl) {
            if let Some(a) = r.ask(p, who) {
                *out.entry(a).or_default() += 1;
            }
            if r.kind() == "User" {
                for (_, a) in self.kid_asks(p, text(r.id), who) {
                    *out.entry(a).or_default() += 1;
                }
            }
        }
    }
}

pub struct EntityScenario;
impl Scenario for EntityScenario {
    fn id(&self) -> &'static str {
        "C29"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            8_000
        } else {
            250_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws dedupe, cache, batching and concurrent clients of several identities that ask for lists of entities by representation; it is non-trivial when two different requests overlapped and one was \
         answered with data, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["subgraph transformer, federation blueprint", "jit, IR evaluation (entities), dedupe, cache", "request templates, data loader, batching, @call, @expr", "request handler"],
            vec!["upstream that signs what it says (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let ids: Vec<u8> = (0..r.range(1, 4)).map(|_| r.below(TEXT.len() as u64) as u8).collect();
        let notes: Vec<u8> = (0..r.range(1, 2)).map(|_| r.below(TEXT.len() as u64) as u8).collect();
        let odd = r.chance(0.1);
        let kinds: Vec<u8> = (0..r.range(1, 4)).map(|_| r.below(if odd { TYPES.len() as u64 } else { 5 }) as u8).collect();
        let users = r.range(1, 3) as u64;
        let kids = r.chance(0.5);
        let clients = (0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(1, 3))
                    .map(|_| Step {
                        wait: *r.pick(&[0, 0, 0, 1, 2, 5, 20]) * unit,
                        user: r.below(users) as u8,
                        fields: (0..r.range(1, 2))
                            .map(|_| F {
                                reps: (0..r.range(0, 5)).map(|_| Rep { kind: *r.pick(&kinds), id: *r.pick(&ids), num: r.chance(0.5), note: *r.pick(&notes), zone: r.below(2) as u8, extra: r.chance(0.3) }).collect(),
                                form: r.below(3) as u8,
                                posts: kids && r.chance(0.5),
                                thing: kids && r.chance(0.3),
                                sdl: r.chance(0.05),
                            })
                            .collect(),
                        cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            dedupe: r.chance(0.4),
            cache: r.chance(0.3),
            batch: if r.chance(0.7) { Some((*r.pick(&[1, 2, 5]), *r.pick(&[1, 2, 3, 100]))) } else { None },
            gone: if r.chance(0.2) { vec![*r.pick(&ids)] } else { vec![] },
            named: r.chance(0.3),
            order: (0..r.range(0, 4)).map(|_| r.below(3) as u8).collect(),
            up: draw_mini(r, 0.15),
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let env = SimEnv::default();
        let (b, e) = prepared(&p.files(), &env).expect("configuration");
        let p1 = p.clone();
        let up = Mini::new(p.up.clone(), move |c| answer(&p1, c));
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), env, (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, f) = (app.clone(), r2.clone(), u2.faults.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for mut st in steps {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        if st.fields.is_empty() {
                            st.fields.push(F { sdl: true, ..F::default() });
                        }
                        let (mut vars, mut decl) = (serde_json::Map::new(), vec![]);
                        let body: Vec<String> = st.fields.iter().enumerate().map(|(i, f)| f.print(i, &mut vars, &mut decl)).collect();
                        let decl = if decl.is_empty() { String::new() } else { format!("({})", decl.join(", ")) };
                        let doc = format!("query{decl} {{ {} }}", body.join(" "));
                        let text = format!("{doc} {} of {:?}", Value::Object(vars.clone()), st.who());
                        let body = json!({"query": doc, "variables": vars}).to_string();
                        let heads = if st.user == 0 { vec![] } else { vec![("authorization".to_string(), st.who())] };
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request at {inv:?}: {text}"));
                        let out = cancellable(async move { send(app, "POST", "/graphql", &heads, body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply at {ret:?}: {reply:?}"));
                        r2.push(Arc::new(Req { step: st, text, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let faults = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &reqs, &calls);
        }
        let good = |r: &Req| matches!(&r.reply, Some(Ok(x)) if x.json()["data"].is_object());
        let nontrivial = reqs.iter().enumerate().any(|(i, a)| reqs[..i].iter().any(|b| a.inv.s <= b.ret.s && b.inv.s <= a.ret.s && a.text != b.text && (good(a) || good(b))));
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "upstream_calls": calls.len()}) }
    }
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall]) -> Option<Violation> {
    let mut asked: BTreeMap<Ask, usize> = BTreeMap::new();
    for r in reqs {
        for f in &r.step.fields {
            f.asks(p, &r.step.who(), &mut asked);
        }
    }
    let mut sent: BTreeMap<Ask, usize> = BTreeMap::new();
    let mut said: Vec<Vec<Ask>> = vec![];
    for c in calls {
        let bad = |cl: &str, m: String| Some(Violation::new(cl, format!("{m}\ncall {} {} {} body {:?} headers {:?}", c.n, c.method, c.url, String::from_utf8_lossy(&c.raw), c.headers)));
        let asks = match decode(p, c) {
            Ok(a) => a,
            Err(e) => return bad("mangled", e),
        };
        if let (Some((_, max)), "/users" | "/posts") = (p.batch, c.path.as_str()) {
            if asks.is_empty() || asks.len() as u64 > max.max(1) {
                return bad("batch-size", format!("{} keys", asks.len()));
            }
        }
        for a in &asks {
            if !asked.contains_key(a) {
                return bad("changed", format!("nobody asked for {a:?}"));
            }
            *sent.entry(a.clone()).or_default() += 1;
        }
        said.push(asks);
    }
    for (a, n) in &sent {
        if *n > asked[a] {
            return Some(Violation::new("repeated-call", format!("{a:?} was sent {n} times for {} uses", asked[a])));
        }
    }
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, t: String| Some(Violation::new(c, format!("{t}\nrequest {} at {:?}..{:?}\nreply {reply:?}", r.text, r.inv, r.ret)));
        let x = match reply {
            Ok(x) => x.json(),
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let mut mine = BTreeMap::new();
        for f in &r.step.fields {
            f.asks(p, &r.step.who(), &mut mine);
        }
        // something that is over is shared as long as who made it has not finished
        let joined = |start: At, end: At| start.s <= r.ret.s && (end.s >= r.inv.s || reqs.iter().any(|o| o.inv.s <= end.s && end.s <= o.ret.s && o.ret.s >= r.inv.s && !std::ptr::eq(&**o, &**r)));
        let odd: Vec<&str> = r.step.fields.iter().filter(|f| !f.sdl).flat_map(|f| f.reps.iter().map(|r| r.kind())).filter(|k| ["Nope", ""].contains(k)).collect();
        if let Some(errs) = x["errors"].as_array().filter(|e| !e.is_empty()) {
            if !x["data"].is_null() {
                return bad("data-and-errors", "data beside errors".into());
            }
            for e in errs {
                let m = e["message"].as_str().unwrap_or("");
                if m.contains("Cannot find a resolver for type: `Nope`") && odd.contains(&"Nope") || m.contains("__typename") && odd.contains(&"") {
                    continue;
                }
                let token = m.split("[#").nth(1).and_then(|t| t.split(']').next()).and_then(|t| t.parse::<usize>().ok());
                let cause = calls.iter().any(|c| c.failed() && joined(c.start, c.end) && token.map_or(c.outcome == crate::up::Outcome::Failed("garbage"), |t| t == c.n) && (p.batch.is_some() || said[c.n].iter().any(|a| mine.contains_key(a))));
                if !cause {
                    return bad("unexplained-error", format!("nothing of its own failed: {e}"));
                }
            }
            continue;
        }
        if !odd.is_empty() {
            return bad("nobody's-entity", format!("a representation of {odd:?} passed"));
        }
        if !x["data"].is_object() {
            return bad("no-data", "neither data nor errors".into());
        }
        let kept = |c: &MCall| p.cache && reqs.iter().any(|o| o.inv.s <= c.end.s && c.end.s <= o.ret.s && o.ret.t + 50_000_000 >= r.inv.t);
        let fresh = |c: &MCall| c.end.s <= r.ret.s && (joined(c.start, c.end) || kept(c));
        // what a call of its time says to `a`, as the one who signed `got`
        let source = |got: &Value, a: &Ask| -> Result<Value, (&'static str, String)> {
            let rev = got["rev"].as_u64().unwrap_or(u64::MAX) as usize;
            let c = calls.get(rev).ok_or(("invented", format!("no call {rev}: {got}")))?;
            if c.failed() || !said[rev].contains(a) || !fresh(c) {
                return Err(("wrong-source", format!("{a:?} answered from call {rev} {} which says {:?}", c.url, said[rev])));
            }
            Ok(a.says(p, rev))
        };
        for (i, f) in r.step.fields.iter().enumerate() {
            let got = &x["data"][format!("f{i}")];
            if f.sdl {
                let sdl = got["sdl"].as_str().unwrap_or("");
                if let Err(m) = check_sdl(sdl) {
                    return bad("wrong-sdl", format!("{m}\n{sdl}"));
                }
                continue;
            }
            let rows = match got.as_array() {
                Some(a) if a.len() == f.reps.len() => a,
                _ => return bad("wrong-rows", format!("{} representations, got {got}", f.reps.len())),
            };
            let who = r.step.who();
            let res = rows.iter().zip(&f.reps).try_for_each(|(g, rep)| {
                if rep.kind() == "Fixed" {
                    let want = json!({"__typename": "Fixed", "id": text(rep.id), "note": "fixed"});
                    // the template gives the number that it was given
                    let mut g = g.clone();
                    if g["id"].is_number() {
                        g["id"] = json!(g["id"].to_string());
                    }
                    return if g == want { Ok(()) } else { Err(("wrong-value", format!("expected {want}, got {g}"))) };
                }
                let a = rep.ask(p, &who).unwrap();
                if g.is_null() {
                    let lost = !(rep.kind() == "User" && p.gone(text(rep.id)));
                    return if lost { Err(("lost", format!("nothing for {a:?}"))) } else { Ok(()) };
                }
                let mut want = source(g, &a)?;
                want["__typename"] = json!(rep.kind());
                want.as_object_mut().map(|o| o.remove("by"));
                let mut flat = g.clone();
                for k in ["posts", "thing"] {
                    flat.as_object_mut().map(|o| o.remove(k));
                }
                if flat != want {
                    return Err(("wrong-value", format!("expected {want}, got {flat}")));
                }
                if rep.kind() == "User" {
                    for (k, a) in f.kid_asks(p, text(rep.id), &who) {
                        let g = &g[k];
                        if a.says(p, 0) == json!([]) {
                            if *g != json!([]) {
                                return Err(("wrong-value", format!("{k}: expected [], got {g}")));
                            }
                            continue;
                        }
                        let first = g.as_array().and_then(|a| a.first()).unwrap_or(g);
                        let mut want = source(first, &a)?;
                        // batches may give the rows of a key in another order
                        let mut g = g.clone();
                        for v in [&mut want, &mut g] {
                            if let Some(a) = v.as_array_mut() {
                                a.sort_by_key(|x| x["id"].to_string());
                            }
                        }
                        if g != want {
                            return Err(("wrong-value", format!("{k}: expected {want}, got {g}")));
                        }
                    }
                }
                Ok(())
            });
            if let Err((c, m)) = res {
                return bad(c, format!("field {i}: {m}"));
            }
        }
    }
    None
}
/// The schema for the router: every entity with its keys, and nothing of the federation's own.
fn check_sdl(sdl: &str) -> Result<(), String> {
    use async_graphql::parser::types::{TypeKind, TypeSystemDefinition};
    let doc = async_graphql::parser::parse_schema(sdl).map_err(|e| e.to_string())?;
    let mut keys = BTreeMap::new();
    let mut fields = BTreeSet::new();
    for d in &doc.definitions {
        if let TypeSystemDefinition::Type(t) = d {
            let t = &t.node;
            if let TypeKind::Object(o) = &t.kind {
                fields.extend(o.fields.iter().map(|f| format!("{}.{}", t.name.node, f.node.name.node)));
            }
            for d in &t.directives {
                if d.node.name.node == "key" {
                    let f = d.node.arguments.iter().find(|a| a.0.node == "fields").map(|a| a.1.node.to_string()).unwrap_or_default();
                    keys.insert(t.name.node.to_string(), f.trim_matches('"').split_whitespace().collect::<Vec<_>>().join(" "));
                }
            }
        }
    }
    let want: BTreeMap<String, String> =
        [("User", "id"), ("Post", "id note"), ("Thing", "id zone"), ("Fixed", "id"), ("Deep", "key { id note }")].into_iter().map(|(a, b)| (a.into(), b.into())).collect();
    if keys != want {
        return Err(format!("keys {keys:?} instead of {want:?}"));
    }
    for f in ["User.id", "User.note", "Post.note", "Thing.zone", "Fixed.note", "Deep.key"] {
        if !fields.contains(f) {
            return Err(format!("{f} is missing"));
        }
    }
    Ok(())
}
