//! REST endpoints over the GraphQL schema: which operation a request reaches, with which
//! variables, and what comes back.
use std::collections::BTreeMap;
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

const VARS: [(&str, &str); 4] = [("id", "Int"), ("s", "String"), ("b", "Boolean"), ("d", "Float")];
const LITS: [&str; 5] = ["item", "a", "list", "api", "x-1"];
const METHODS: [&str; 5] = ["GET", "POST", "PUT", "DELETE", "PATCH"];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Seg {
    Lit(u8),
    Var(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Ep {
    pub method: u8,
    pub path: Vec<Seg>,
    /// variable, and whether its key is another name
    #[serde(default)]
    pub query: Vec<(u8, bool)>,
    /// the body feeds $in
    #[serde(default)]
    pub body: bool,
    #[serde(default)]
    pub mutation: bool,
    /// a mutation creates this id
    #[serde(default)]
    pub nonce: u32,
    /// of an item: 1 what its owner is called, 2 its name; 3 all, under another name
    #[serde(default)]
    pub thin: u8,
}
impl Default for Ep {
    fn default() -> Self {
        Ep { method: 0, path: vec![Seg::Lit(0)], query: vec![], body: false, mutation: false, nonce: 0, thin: 0 }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub ep: usize,
    /// texts of the variables; None: left out of the query
    pub vals: Vec<Option<String>>,
    #[serde(default)]
    pub mangle: u8,
    #[serde(default)]
    pub method: Option<u8>,
    /// 0 none, 1 {"a":..}, 2 not json, 3 nested
    #[serde(default)]
    pub body: u8,
    #[serde(default)]
    pub n: u32,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub eps: Vec<Ep>,
    /// all operations in one file
    pub one_file: bool,
    pub dedupe: bool,
    pub batch: Option<(u64, u64)>,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}

struct Http {
    method: &'static str,
    path: Vec<String>,
    query: Vec<(String, String)>,
    body: Vec<u8>,
    uri: String,
}

fn enc(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"-._".contains(&b) {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02X}"));
        }
    }
    o
}

impl Ep {
    fn segs(&self) -> Vec<Seg> {
        if self.path.is_empty() {
            vec![Seg::Lit(0)]
        } else {
            self.path.clone()
        }
    }
    fn vars(&self) -> Vec<(u8, bool)> {
        // variable, is in the path
        let mut v: Vec<(u8, bool)> = vec![];
        for s in self.segs() {
            if let Seg::Var(i) = s {
                v.push((i % 4, true));
            }
        }
        for (q, _) in &self.query {
            if !v.iter().any(|x| x.0 == q % 4) {
                v.push((q % 4, false));
            }
        }
        v
    }
    fn key(q: &(u8, bool)) -> String {
        let n = VARS[q.0 as usize % 4].0;
        if q.1 {
            format!("k_{n}")
        } else {
            n.into()
        }
    }
    fn text(&self, n: usize) -> String {
        let mut path = String::new();
        for s in self.segs() {
            path.push('/');
            match s {
                Seg::Lit(l) => path.push_str(LITS[l as usize % 5]),
                Seg::Var(v) => path.push_str(&format!("${}", VARS[v as usize % 4].0)),
            }
        }
        let mut decl: Vec<String> = self.vars().iter().map(|(v, p)| format!("${}: {}{}", VARS[*v as usize].0, VARS[*v as usize].1, if *p { "!" } else { "" })).collect();
        let mut dir = format!("method: {}, path: \"{path}\"", METHODS[self.method as usize % 5]);
        let query: Vec<String> = self.query.iter().filter(|q| self.vars().iter().any(|v| v.0 == q.0 % 4 && !v.1)).map(|q| format!("{}: ${}", Ep::key(q), VARS[q.0 as usize % 4].0)).collect();
        if !query.is_empty() {
            dir.push_str(&format!(", query: {{{}}}", query.join(", ")));
        }
        if self.body {
            decl.push("$in: ItemIn".into());
            dir.push_str(", body: $in");
        }
        let decl = if decl.is_empty() { String::new() } else { format!("({})", decl.join(", ")) };
        let args = self.args();
        let input = if self.body { ", in: $in" } else { "" };
        let sel = if self.mutation { format!("create(nonce: {}{args}{input}) {{ nonce q n f x a rev }}", self.nonce) } else { self.fields(&args, input) };
        format!("{} O{n}{decl} @rest({dir}) {{ {sel} }}\n", if self.mutation { "mutation" } else { "query" })
    }
    fn args(&self) -> String {
        self.vars().iter().map(|(v, _)| format!(", {}: ${}", ["n", "q", "f", "x"][*v as usize], VARS[*v as usize].0)).collect()
    }
    fn item(&self) -> bool {
        self.vars().contains(&(0, true))
    }
    fn fields(&self, args: &str, input: &str) -> String {
        let search = format!("search(z: 1{args}{input}) {{ q n f x a rev }}");
        let item = ["item(id: $id) { id name rev owner { id name } }", "item(id: $id) { owner { name } }", "item(id: $id) { name }", "it: item(id: $id) { id name rev owner { id name } }"][self.thin as usize % 4];
        match (self.item(), self.vars().len() > 1 || self.body) {
            (true, true) => format!("{search} {item}"),
            (true, false) => item.into(),
            _ => search,
        }
    }
    /// the variables of a request, if it is one for this endpoint. Err: its body is not JSON
    fn spec(&self, h: &Http) -> Option<Result<BTreeMap<u8, String>, ()>> {
        if METHODS[self.method as usize % 5] != h.method {
            return None;
        }
        let segs = self.segs();
        if segs.len() != h.path.len() {
            return None;
        }
        let mut out = BTreeMap::new();
        for (s, t) in segs.iter().zip(&h.path) {
            match s {
                Seg::Lit(l) if LITS[*l as usize % 5] != t => return None,
                Seg::Lit(_) => {}
                Seg::Var(v) => {
                    let v = v % 4;
                    if !typed(v, t) {
                        return None;
                    }
                    out.insert(v, t.clone());
                }
            }
        }
        for q in self.query.iter().filter(|q| self.vars().contains(&(q.0 % 4, false))) {
            if let Some((_, t)) = h.query.iter().find(|x| x.0 == Ep::key(q)) {
                if !typed(q.0 % 4, t) {
                    return None;
                }
                out.insert(q.0 % 4, t.clone());
            }
        }
        if self.body && serde_json::from_slice::<Value>(&h.body).is_err() {
            return Some(Err(()));
        }
        Some(Ok(out))
    }
}
fn typed(v: u8, t: &str) -> bool {
    match v % 4 {
        0 => t.parse::<i64>().is_ok(),
        2 => t == "true" || t == "false",
        3 => t.parse::<f64>().is_ok(),
        _ => true,
    }
}

impl Plan {
    fn eps(&self) -> Vec<Ep> {
        let mut e = self.eps.clone();
        for e in e.iter_mut() {
            // every variable has one place
            let mut seen = vec![];
            let mut path = vec![];
            for s in e.segs() {
                match s {
                    Seg::Var(v) if seen.contains(&(v % 4)) => path.push(Seg::Lit(1)),
                    Seg::Var(v) => {
                        seen.push(v % 4);
                        path.push(s);
                    }
                    s => path.push(s),
                }
            }
            e.path = path;
            let mut q: Vec<(u8, bool)> = vec![];
            for x in e.query.drain(..) {
                if !seen.contains(&(x.0 % 4)) {
                    seen.push(x.0 % 4);
                    q.push(x);
                }
            }
            e.query = q;
        }
        if e.is_empty() {
            e.push(Ep::default());
        }
        e
    }
    fn files(&self) -> Vec<(String, String)> {
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let owner = if self.batch.is_some() {
            "http://up/users\", query: [{key: \"id\", value: \"{{.value.ownerId}}\"}], batchKey: [\"id\"]"
        } else {
            "http://up/users/{{.value.ownerId}}\""
        };
        let q = r#"query: [{key: "q", value: "{{.args.q}}"}, {key: "n", value: "{{.args.n}}"}, {key: "f", value: "{{.args.f}}"}, {key: "x", value: "{{.args.x}}"}]"#;
        let sdl = format!(
            r#"schema {{ query: Query mutation: Mutation }}
type Query {{
  item(id: Int!): Item @http(url: "http://up/items/{{{{.args.id}}}}"{d})
  search(z: Int, q: String, n: Int, f: Boolean, x: Float, in: ItemIn): Found @http(url: "http://up/search", method: POST, body: "{{{{.args.in}}}}", {q}{d})
}}
type Mutation {{
  create(nonce: Int!, q: String, n: Int, f: Boolean, x: Float, in: ItemIn): Found @http(url: "http://up/create/{{{{.args.nonce}}}}", method: POST, body: "{{{{.args.in}}}}", {q})
}}
input ItemIn {{ a: Int b: [String] }}
type Item {{ id: Int! name: String rev: Int ownerId: Int! owner: User @http(url: "{owner}{d}) }}
type User {{ id: Int! name: String }}
type Found {{ nonce: Int q: String n: String f: String x: String a: Int rev: Int }}
"#
        );
        let mut up = json!({});
        if let Some((d, m)) = self.batch {
            up["batch"] = json!({"delay": d, "maxSize": m, "headers": []});
        }
        let mut links = vec![json!({"src": "/app/schema.graphql", "type": "Config"})];
        let mut out = vec![("/app/schema.graphql".to_string(), sdl)];
        let texts: Vec<String> = self.eps().iter().enumerate().map(|(i, e)| e.text(i)).collect();
        let texts = if self.one_file { vec![texts.concat()] } else { texts };
        for (i, t) in texts.into_iter().enumerate() {
            links.push(json!({"src": format!("/app/op{i}.graphql"), "type": "Operation"}));
            out.push((format!("/app/op{i}.graphql"), t));
        }
        out.insert(0, ("/app/config.json".into(), json!({"server": {}, "upstream": up, "links": links}).to_string()));
        out
    }
    fn http(&self, s: &Step) -> Http {
        let eps = self.eps();
        let e = &eps[s.ep % eps.len()];
        let val = |v: u8| s.vals.get(v as usize).cloned().flatten();
        let mut path: Vec<String> = e
            .segs()
            .iter()
            .map(|x| match x {
                Seg::Lit(l) => LITS[*l as usize % 5].to_string(),
                Seg::Var(v) => {
                    let t = val(*v % 4).filter(|t| !t.is_empty()).unwrap_or_else(|| ["1", "t", "true", "1.5"][*v as usize % 4].into());
                    // a path carries plain text
                    t.chars().map(|c| if c.is_ascii_alphanumeric() || "-.".contains(c) { c } else { 'z' }).collect()
                }
            })
            .collect();
        let mut query: Vec<(String, String)> = e.query.iter().filter_map(|q| val(q.0 % 4).map(|t| (Ep::key(q), t))).collect();
        let mut slash = false;
        match s.mangle {
            1 => {
                path.pop();
            }
            2 => path.push("more".into()),
            3 => slash = true,
            4 => path[0] = "nowhere".into(),
            5 => query.insert(0, ("other".into(), "1".into())),
            6 => path.insert(0, "api".into()),
            7 => query.reverse(),
            8 => path.push("api".into()),
            _ => {}
        }
        let mut uri = String::from("/api");
        for p in &path {
            uri.push('/');
            uri.push_str(p);
        }
        if slash {
            uri.push('/');
        }
        if !query.is_empty() {
            uri.push('?');
            uri.push_str(&query.iter().map(|(k, v)| format!("{k}={}", enc(v))).collect::<Vec<_>>().join("&"));
        }
        let body = match s.body {
            0 => vec![],
            2 => b"{\"a\": ".to_vec(),
            _ => json!({"a": s.n, "b": ["p", "q\""]}).to_string().into_bytes(),
        };
        Http { method: METHODS[s.method.unwrap_or(e.method) as usize % 5], path, query, body, uri }
    }
}
fn answer(c: &MCall) -> Option<Ans> {
    let s = c.segs();
    let id = |i: usize| s.get(i).and_then(|x| x.parse::<u32>().ok());
    let q = |k: &str| c.query.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    let user = |id: u32| json!({"id": id, "name": format!("user-{id}")});
    Ans::json(match (s[0], s.len()) {
        ("items", 2) => json!({"id": id(1)?, "name": format!("item-{}", id(1)?), "ownerId": id(1)? % 3 + 10, "rev": c.n}),
        ("users", 2) => user(id(1)?),
        ("users", 1) => Value::Array(c.query.iter().filter_map(|x| x.1.parse().ok()).map(user).collect()),
        ("search", 1) | ("create", 2) => json!({"nonce": id(1), "q": q("q"), "n": q("n"), "f": q("f"), "x": q("x"), "a": c.body["a"], "rev": c.n}),
        _ => return None,
    })
}

struct Req {
    step: Step,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}

pub struct RestScenario;
impl Scenario for RestScenario {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            12_000
        } else {
            400_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws one to four REST endpoints (methods, literal and typed path segments, query parameters, body, queries and mutations), and clients that send requests for \
         them, exact and mangled (missing and extra segments, other methods, ill-typed values, odd characters, bad bodies), with upstream latencies, faults and disconnects; it is \
         non-trivial when a request got data, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["config reader with Operation links, EndpointSet", "http::request_handler (REST routes), rest::{path, query_params, typed_variables, partial_request}", "dynamic schema execution (blueprint::into_schema, async-graphql)", "IR eval, HttpDataLoader, RequestTemplate"],
            vec!["upstream service (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["malformed_request", "connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let mut nonce = 0;
        let mut eps: Vec<Ep> = (0..r.range(1, 4))
            .map(|_| {
                nonce += 1;
                let mutation = r.chance(0.2);
                let path = (0..*r.pick(&[1, 2, 2, 3, 3, 4])).map(|_| if r.chance(0.5) { Seg::Lit(r.below(5) as u8) } else { Seg::Var(*r.pick(&[0, 0, 1, 2, 3])) }).collect();
                let query = (0..*r.pick(&[0, 0, 1, 2, 3])).map(|_| (r.below(4) as u8, r.chance(0.4))).collect();
                let body = r.chance(0.3);
                Ep { method: if r.chance(0.6) { body as u8 } else { r.below(5) as u8 }, path, query, body, mutation, nonce, thin: if r.chance(0.4) { r.range(1, 3) as u8 } else { 0 } }
            })
            .collect();
        // endpoints that overlap
        for i in 1..eps.len() {
            if r.chance(0.25) {
                let o = eps[r.below(i as u64) as usize].clone();
                eps[i].method = o.method;
                eps[i].path = o.path.iter().map(|s| if r.chance(0.3) { Seg::Var(*r.pick(&[0, 1, 2, 3])) } else { s.clone() }).collect();
            }
        }
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let mut clients = vec![];
        for _ in 0..r.range(1, if tier == Tier::Quick { 3 } else { 5 }) {
            let mut steps = vec![];
            for _ in 0..r.range(1, 4) {
                let ints = ["1", "2", "7", "-3", "0", "12"];
                let strs = ["abc", "a-b", "x y", "a&n=9", "q=1", "\u{3b1}", "", "100%", "true"];
                let vals = vec![
                    Some(if r.chance(0.08) { r.pick(&["1x", "", " 1", "1.0"]).to_string() } else { r.pick(&ints).to_string() }),
                    Some(r.pick(&strs).to_string()),
                    Some(if r.chance(0.08) { r.pick(&["yes", "", "True", "1"]).to_string() } else { r.pick(&["true", "false"]).to_string() }),
                    Some(if r.chance(0.08) { r.pick(&["f", "", "1,5"]).to_string() } else { r.pick(&["1.5", "-2.25", "3.75"]).to_string() }),
                ];
                let vals = vals.into_iter().map(|v| if r.chance(0.25) { None } else { v }).collect();
                steps.push(Step {
                    wait: *r.pick(&[0, 0, 1, 2, 5]) * unit,
                    ep: r.below(eps.len() as u64) as usize,
                    vals,
                    mangle: if r.chance(0.3) { r.range(1, 8) as u8 } else { 0 },
                    method: if r.chance(0.08) { Some(r.below(5) as u8) } else { None },
                    body: *r.pick(&[1, 1, 1, 1, 1, 1, 0, 2]),
                    n: r.below(100) as u32,
                    cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                });
            }
            clients.push(steps);
        }
        let batch = if r.chance(0.4) { Some((*r.pick(&[1, 5]), *r.pick(&[2, 100]))) } else { None };
        serde_json::to_value(Plan { sched: SchedCfg::draw(r, 3), eps, one_file: r.chance(0.4), dedupe: r.chance(0.4), batch, up: draw_mini(r, 0.25), clients }).unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        crate::proto::log_sink();
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let (b, e) = prepared(&p.files(), &SimEnv::default()).expect("configuration");
        let up = Mini::new(p.up.clone(), answer);
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), SimEnv::default(), (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, p3, f) = (app.clone(), r2.clone(), p2.clone(), u2.faults.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for st in steps {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        let h = p3.http(&st);
                        if st.mangle > 0 || st.body == 2 {
                            fault(&f, "malformed_request");
                        }
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request at {inv:?}: {} {} {}", h.method, h.uri, String::from_utf8_lossy(&h.body)));
                        let out = cancellable(async move { send_bytes(app, h.method, &h.uri, &[], h.body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply at {ret:?}: {:?}", reply.as_ref().map(|r| r.as_ref().map(|r| (r.status, r.body.clone())))));
                        r2.push(Arc::new(Req { step: st, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &reqs, &calls);
        }
        let good = reqs.iter().filter(|r| matches!(&r.reply, Some(Ok(x)) if x.status == 200)).count();
        RunOut { violation: v, nontrivial: good > 0, report, faults, sample: json!({"requests": reqs.len(), "with_data": good, "upstream_calls": calls.len()}) }
    }
}

fn same(v: u8, got: &Value, want: Option<&String>) -> bool {
    let got = got.as_str().unwrap_or("");
    match want {
        None => got.is_empty(),
        Some(w) if v == 3 || v == 0 => matches!((got.parse::<f64>(), w.parse::<f64>()), (Ok(a), Ok(b)) if a == b),
        Some(w) => got == w,
    }
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall]) -> Option<Violation> {
    let eps = p.eps();
    let mut created: BTreeMap<u32, (usize, usize)> = BTreeMap::new();
    for r in reqs {
        let h = p.http(&r.step);
        let mut fits: Vec<(usize, Result<BTreeMap<u8, String>, ()>)> = eps.iter().enumerate().filter_map(|(i, e)| e.spec(&h).map(|x| (i, x))).collect();
        // several endpoints may fit: the first one declared is taken
        fits.truncate(1);
        for (i, x) in &fits {
            if eps[*i].mutation && x.is_ok() {
                let e = created.entry(eps[*i].nonce).or_default();
                e.0 += 1;
                if fits.len() == 1 && matches!(r.reply, Some(Ok(_))) {
                    e.1 += 1;
                }
            }
        }
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, m: String| Some(Violation::new(c, format!("{m}\nrequest {} {} {}\nendpoints\n{}at {:?}..{:?}\nreply {:?}", h.method, h.uri, String::from_utf8_lossy(&h.body), eps.iter().enumerate().map(|(i, e)| e.text(i)).collect::<String>(), r.inv, r.ret, reply)));
        let x = match reply {
            Ok(x) => x,
            Err(e) => return bad("no-reply", format!("the request handler gave no response: {e}")),
        };
        if fits.is_empty() {
            if x.status != 404 {
                return bad("not-404", "no endpoint has this method, path and parameters".into());
            }
            continue;
        }
        if x.status == 404 {
            return bad("not-found", "an endpoint with this method, path and parameters was not found".into());
        }
        if fits.iter().any(|f| f.1.is_err()) {
            if x.status == 200 && fits.len() == 1 {
                return bad("bad-accepted", "a body that is not JSON was accepted".into());
            }
            if fits.len() == 1 {
                continue;
            }
        }
        // with dedupe it may share the work of a request that began before it, which is in a batch with calls that ended before
        let shared = |o: &&Arc<Req>| p.dedupe && o.inv.s <= r.ret.s && o.ret.s >= r.inv.s;
        let from = reqs.iter().filter(shared).map(|o| o.inv.s).min().unwrap_or(r.inv.s);
        if x.status != 200 {
            let why = calls.iter().any(|c| c.failed() && c.start.s <= r.ret.s && c.end.s >= from);
            let v = x.json();
            if !why && !fits.iter().any(|f| f.1.is_err()) {
                return bad("unexplained-error", format!("status {} and no upstream call failed", x.status));
            }
            if why && v["errors"].as_array().is_none_or(|e| e.is_empty()) {
                return bad("error-shape", "an upstream failure is not reported".into());
            }
            continue;
        }
        let v = x.json();
        let call = |v: &Value, path: &str| {
            let n = v["rev"].as_u64().unwrap_or(u64::MAX) as usize;
            calls.get(n).is_some_and(|c| c.path == path && c.end.s >= from && c.end.s <= r.ret.s && !c.failed())
        };
        let ok = fits.iter().any(|(i, vars)| {
            let Ok(vars) = vars else { return false };
            let e = &eps[*i];
            let found = |g: &Value| {
                let a = if e.body { serde_json::from_slice::<Value>(&h.body).unwrap_or_default()["a"].clone() } else { Value::Null };
                let keys = ["n", "q", "f", "x"];
                (0..4u8).all(|k| same(k, &g[keys[k as usize]], vars.get(&k))) && g["a"] == a
            };
            if e.mutation {
                return found(&v) && v["nonce"] == json!(e.nonce) && call(&v, &format!("/create/{}", e.nonce));
            }
            let both = e.item() && (e.vars().len() > 1 || e.body);
            let (s, it) = if both { (&v["search"], &v[if e.thin == 3 { "it" } else { "item" }]) } else { (&v, &v) };
            let mut ok = true;
            if both || !e.item() {
                ok &= found(s) && call(s, "/search");
            }
            if e.item() {
                let id: i64 = vars.get(&0).and_then(|t| t.parse().ok()).unwrap_or(i64::MIN);
                // items are numbered from 0
                let o = id % 3 + 10;
                ok &= match e.thin {
                    1 => *it == json!({"owner": {"name": format!("user-{o}")}}),
                    2 => *it == json!({"name": format!("item-{id}")}),
                    _ => it["id"] == json!(id) && it["name"] == json!(format!("item-{id}")) && it["owner"] == json!({"id": o, "name": format!("user-{o}")}) && call(it, &format!("/items/{id}")),
                };
            }
            ok
        });
        if !ok {
            return bad("wrong-data", "the response isn't the one of the operation with the request's variables".into());
        }
    }
    for (id, (most, least)) in created {
        let n = calls.iter().filter(|c| c.path == format!("/create/{id}")).count();
        if n > most || n < least {
            return Some(Violation::new("mutation-count", format!("mutation {id} was asked for {most} times, answered {least} times and sent {n} times")));
        }
    }
    None
}
