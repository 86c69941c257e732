//! What a request body asks for, whatever was asked before: several operations in a
//! document, variables, constant and cached plans, batches of requests, malformed bodies.
use std::collections::BTreeMap;
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct F {
    /// 0 name, 1 other, 2 item, 3 items, 4 search; in a mutation: create
    pub kind: u8,
    pub id: u32,
    /// the id comes from this variable
    #[serde(default)]
    pub var: Option<u8>,
    /// 1 @skip, 2 @include by this variable
    #[serde(default)]
    pub cond: Option<(u8, u8)>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Op {
    pub fields: Vec<F>,
    #[serde(default)]
    pub mutation: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Ask {
    pub doc: usize,
    /// None: no operationName; beyond the document: an unknown one
    pub op: Option<u8>,
    /// values of v0, v1
    pub ints: Vec<u32>,
    /// values of c0, c1
    pub bools: Vec<bool>,
    /// leave this variable out
    #[serde(default)]
    pub missing: Option<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub asks: Vec<Ask>,
    /// sent as a bare document (application/graphql) if it needs no more
    #[serde(default)]
    pub bare: bool,
    /// sent as an array
    #[serde(default)]
    pub array: bool,
    /// a malformed body instead
    #[serde(default)]
    pub bad: Option<u8>,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub docs: Vec<Vec<Op>>,
    pub dedupe: bool,
    pub cache: bool,
    pub batch: Option<(u64, u64)>,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
    /// the server takes arrays of requests
    pub arrays: bool,
}

pub fn log_sink() {
    use std::sync::Once;
    static O: Once = Once::new();
    // a logger at level error that formats what it is given, as the real one does
    struct Sink;
    struct Fmt;
    impl tracing::field::Visit for Fmt {
        fn record_debug(&mut self, _: &tracing::field::Field, v: &dyn std::fmt::Debug) {
            let _ = format!("{v:?}");
        }
    }
    impl tracing::Subscriber for Sink {
        fn enabled(&self, m: &tracing::Metadata<'_>) -> bool {
            m.is_event() && *m.level() <= tracing::Level::ERROR
        }
        fn max_level_hint(&self) -> Option<tracing::level_filters::LevelFilter> {
            Some(tracing::level_filters::LevelFilter::ERROR)
        }
        fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
            tracing::span::Id::from_u64(1)
        }
        fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
        fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            e.record(&mut Fmt);
        }
        fn enter(&self, _: &tracing::span::Id) {}
        fn exit(&self, _: &tracing::span::Id) {}
    }
    O.call_once(|| {
        let _ = tracing::subscriber::set_global_default(Sink);
    });
}

const SAID: &[&str] = &["plain", "a \"quoted\" one", "back\\slash", "two\nlines", "zero\u{200b}width", "e\u{301} \u{1f600}", "a&s=b#c", "{{.args.s}}", "50% + 1", "C:\\new", "\u{7f}", "'"];
fn said(i: u32) -> &'static str {
    SAID[i as usize % SAID.len()]
}
/// as GraphQL writes a string
fn literal(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"))
}
const BAD: &[&[u8]] = &[
    b"",
    b"{",
    b"null",
    b"[]",
    b"{}",
    b"{\"query\": 5}",
    b"{\"query\": \"{ name\"}",
    b"{\"query\": \"\xff\xfe { name }\"}",
    b"{\"query\": \"{ name }\", \"variables\": 7}",
    b"\xc3\x28",
    b"{\"query\": \"{ item { id } }\"}",
    b"{\"query\": \"subscription { name }\"}",
    b"{\"query\": \"fragment F on Query { name }\"}",
    b"{\"query\": \"query A { name } query A { other }\"}",
    b"{\"query\": \"query ($v: Int!) { item(id: $v) { id } }\", \"variables\": {\"v\": null}}",
];

impl Plan {
    fn files(&self) -> Vec<(String, String)> {
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let c = if self.cache { " @cache(maxAge: 50)" } else { "" };
        let sdl = format!(
            r#"schema {{ query: Query mutation: Mutation }}
type Query {{
  name: String @expr(body: "const-name")
  other: String @expr(body: "const-other")
  item(id: Int!): Item @http(url: "http://up/items/{{{{.args.id}}}}"{d}){c}
  items: [Item] @http(url: "http://up/items"{d}){c}
  say(s: String!): Said @http(url: "http://up/say", query: [{{key: "s", value: "{{{{.args.s}}}}"}}]{d}){c}
  search(q: Int!, n: Int): Found @http(url: "http://up/search", query: [{{key: "q", value: "{{{{.args.q}}}}"}}]{d}){c}
}}
type Mutation {{
  create(id: Int!): Item @http(url: "http://up/create/{{{{.args.id}}}}", method: POST)
}}
type Item {{ id: Int! name: String rev: Int }}
type Found {{ q: Int rev: Int }}
type Said {{ s: String rev: Int }}
"#
        );
        let mut up = json!({});
        if let Some((d, m)) = self.batch {
            up["batch"] = json!({"delay": d, "maxSize": m, "headers": []});
        }
        let cfg = json!({"server": {"batchRequests": self.arrays}, "upstream": up, "links": [{"src": "/app/schema.graphql", "type": "Config"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl)]
    }
    fn doc(&self, i: usize) -> Vec<Op> {
        let mut ops = self.docs.get(i % self.docs.len().max(1)).cloned().unwrap_or_default();
        ops.retain(|o| !o.fields.is_empty());
        if ops.is_empty() {
            ops = vec![Op { fields: vec![F::default()], mutation: false }];
        }
        ops
    }
    fn text(&self, i: usize) -> String {
        let ops = self.doc(i);
        let mut t = String::new();
        for (n, op) in ops.iter().enumerate() {
            let mut vars = BTreeMap::new();
            let mut body = String::new();
            for (i, f) in op.fields.iter().enumerate() {
                let id = match f.var {
                    Some(v) if !op.mutation && f.kind % 6 == 5 => {
                        vars.insert(format!("$s{}", v % 2), "String!");
                        format!("$s{}", v % 2)
                    }
                    Some(v) => {
                        vars.insert(format!("$v{}", v % 2), "Int!");
                        format!("$v{}", v % 2)
                    }
                    None if !op.mutation && f.kind % 6 == 5 => literal(said(f.id)),
                    None => f.id.to_string(),
                };
                let cond = match f.cond {
                    Some((k, v)) => {
                        vars.insert(format!("$c{}", v % 2), "Boolean!");
                        format!(" @{}(if: $c{})", if k == 1 { "skip" } else { "include" }, v % 2)
                    }
                    None => String::new(),
                };
                let f = match (op.mutation, f.kind % 6) {
                    (true, _) => format!("create(id: {id}){cond} {{ id name rev }}"),
                    (_, 0) => format!("name{cond}"),
                    (_, 1) => format!("other{cond}"),
                    (_, 2) => format!("item(id: {id}){cond} {{ id name rev }}"),
                    (_, 3) => format!("items{cond} {{ id rev }}"),
                    (_, 5) => format!("say(s: {id}){cond} {{ s rev }}"),
                    _ => format!("search(q: {id}){cond} {{ q rev }}"),
                };
                body.push_str(&format!(" f{i}: {f}"));
            }
            // variables that no field uses are left out
            let used = |v: &str| body.contains(v);
            let decl: Vec<String> = vars.iter().filter(|(k, _)| used(k)).map(|(k, t)| format!("{k}: {t}")).collect();
            let decl = if decl.is_empty() { String::new() } else { format!("({})", decl.join(", ")) };
            let kind = if op.mutation { "mutation" } else { "query" };
            t.push_str(&format!("{kind} O{n}{decl} {{{body} }} "));
        }
        t
    }
    fn body(&self, a: &Ask) -> Value {
        let mut vars = serde_json::Map::new();
        for i in 0..2u8 {
            if a.missing != Some(i) {
                let n = a.ints.get(i as usize).copied().unwrap_or(1);
                vars.insert(format!("v{i}"), json!(n));
                vars.insert(format!("s{i}"), json!(said(n)));
            }
            if a.missing != Some(i + 2) {
                vars.insert(format!("c{i}"), json!(a.bools.get(i as usize).copied().unwrap_or(false)));
            }
        }
        let mut b = json!({"query": self.text(a.doc), "variables": vars});
        if let Some(o) = a.op {
            b["operationName"] = json!(format!("O{o}"));
        }
        b
    }
    /// the fields a request reaches: (key, what, id); None: it is an error
    fn expect(&self, a: &Ask) -> Option<(bool, Vec<(String, u8, u32)>)> {
        let ops = self.doc(a.doc);
        let op = match a.op {
            None if ops.len() == 1 => &ops[0],
            None => return None,
            Some(i) => ops.get(i as usize)?,
        };
        let mut out = vec![];
        for (i, f) in op.fields.iter().enumerate() {
            if let Some((k, v)) = f.cond {
                let val = a.bools.get(v as usize % 2).copied().unwrap_or(false);
                if val == (k == 1) {
                    continue;
                }
            }
            let id = match f.var {
                Some(v) => {
                    let uses = op.mutation || matches!(f.kind % 6, 2 | 4 | 5);
                    if uses && a.missing == Some(v % 2) {
                        return None;
                    }
                    a.ints.get(v as usize % 2).copied().unwrap_or(1)
                }
                None => f.id,
            };
            out.push((format!("f{i}"), if op.mutation { 9 } else { f.kind % 6 }, id));
        }
        Some((op.mutation, out))
    }
    fn bare(&self, s: &Step) -> bool {
        s.bare && !s.array && self.doc(s.asks[0].doc).len() == 1 && s.asks[0].op.is_none() && !self.text(s.asks[0].doc).contains('$')
    }
    /// a condition's variable has no value
    fn vague(&self, a: &Ask) -> bool {
        a.missing.is_some_and(|m| m >= 2)
    }
}
fn path_of(k: u8, id: u32) -> Option<String> {
    match k {
        2 => Some(format!("/items/{id}")),
        3 => Some("/items".into()),
        4 => Some(format!("/search?q={id}")),
        5 => Some(format!("/say?s={}", said(id))),
        9 => Some(format!("/create/{id}")),
        _ => None,
    }
}
fn key_of(c: &MCall) -> String {
    let q: Vec<String> = c.query.iter().map(|(k, v)| format!("{k}={v}")).collect();
    if q.is_empty() {
        c.path.clone()
    } else {
        format!("{}?{}", c.path, q.join("&"))
    }
}
fn answer(c: &MCall) -> Option<Ans> {
    let s = c.segs();
    let id: u32 = s.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let item = |id: u32| json!({"id": id, "name": format!("item-{id}"), "rev": c.n});
    Ans::json(match (s[0], s.len()) {
        ("items", 1) => json!([item(1), item(2)]),
        ("items", _) => item(id),
        ("create", _) => item(id),
        ("say", _) => json!({"s": c.query.first().map(|q| q.1.clone()), "rev": c.n}),
        ("search", _) => json!({"q": c.query.first().and_then(|q| q.1.parse::<u32>().ok()), "rev": c.n}),
        _ => return None,
    })
}

struct Req {
    step: Step,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
impl Req {
    fn overlaps(&self, o: &Req) -> bool {
        self.inv.s <= o.ret.s && o.inv.s <= self.ret.s
    }
}

pub struct ProtoScenario {
    pub id: &'static str,
    pub arrays: bool,
}
impl Scenario for ProtoScenario {
    fn id(&self) -> &'static str {
        self.id
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            12_000
        } else {
            400_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws documents of one to three operations over constant and upstream fields with variables and conditions, dedupe, cache and batching settings, upstream latencies \
         and faults, and clients that send these documents with different operation names and variables (also as arrays of requests) and malformed bodies; it is non-trivial \
         when two requests of the same document got data, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["config reader, blueprint, AppContext", "http::request_handler, GraphQLRequest/GraphQLBatchRequest", "JITExecutor with its plan and response caches, jit planner, executor, synth", "IR eval, dedupe, InMemoryCache, HttpDataLoader"],
            vec!["upstream service (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)", "logging (a sink that formats error events)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["malformed_body", "connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let consts = r.chance(0.3);
        let mut nonce = 0;
        let docs: Vec<Vec<Op>> = (0..r.range(1, 3))
            .map(|_| {
                (0..*r.pick(&[1, 1, 2, 3]))
                    .map(|_| {
                        let mutation = r.chance(0.1);
                        let fields = (0..r.range(1, 4))
                            .map(|_| {
                                nonce += 1;
                                let kind = if consts { r.below(2) as u8 } else { r.below(6) as u8 };
                                F {
                                    kind,
                                    id: if mutation { 100 + nonce } else if kind == 5 { r.below(SAID.len() as u64) as u32 } else { r.range(1, 3) as u32 },
                                    var: if !mutation && r.chance(0.4) { Some(r.below(2) as u8) } else { None },
                                    cond: if r.chance(0.3) { Some((r.range(1, 2) as u8, r.below(2) as u8)) } else { None },
                                }
                            })
                            .collect();
                        Op { fields, mutation }
                    })
                    .collect()
            })
            .collect();
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let said_ = r.below(SAID.len() as u64);
        let mut clients = vec![];
        for _ in 0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }) {
            let mut steps = vec![];
            for _ in 0..r.range(1, 4) {
                let n = if self.arrays { *r.pick(&[1, 2, 2, 3, 4]) } else { 1 };
                let asks = (0..n)
                    .map(|_| Ask {
                        doc: r.below(docs.len() as u64) as usize,
                        op: if r.chance(0.3) { None } else { Some(if r.chance(0.05) { 7 } else { r.below(3) as u8 }) },
                        ints: vec![*r.pick(&[1, 2, 3, 3 + said_ as u32]), r.range(1, 3) as u32],
                        bools: vec![r.chance(0.5), r.chance(0.5)],
                        missing: if r.chance(0.04) { Some(r.below(4) as u8) } else { None },
                    })
                    .collect();
                steps.push(Step {
                    wait: *r.pick(&[0, 0, 0, 1, 2, 5, 60]) * unit,
                    asks,
                    bare: r.chance(0.5),
                    array: self.arrays && r.chance(0.8),
                    bad: if r.chance(0.08) { Some(r.below(BAD.len() as u64) as u8) } else { None },
                    cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                });
            }
            clients.push(steps);
        }
        let batch = if r.chance(0.3) { Some((*r.pick(&[1, 5]), *r.pick(&[2, 100]))) } else { None };
        serde_json::to_value(Plan { sched: SchedCfg::draw(r, 4), docs, dedupe: r.chance(0.6), cache: r.chance(0.3), batch, up: draw_mini(r, 0.25), clients, arrays: self.arrays }).unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        log_sink();
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let (b, e) = prepared(&p.files(), &SimEnv::default()).expect("configuration");
        let up = Mini::new(p.up.clone(), answer);
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), SimEnv::default(), (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, p3, f) = (app.clone(), r2.clone(), p2.clone(), u2.faults.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for mut st in steps {
                        if st.asks.is_empty() {
                            st.asks = vec![Ask::default()];
                        }
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        let body = match st.bad {
                            Some(b) => BAD[b as usize % BAD.len()].to_vec(),
                            None if st.array => Value::Array(st.asks.iter().map(|a| p3.body(a)).collect()).to_string().into_bytes(),
                            None => p3.body(&st.asks[0]).to_string().into_bytes(),
                        };
                        if st.bad.is_some() {
                            fault(&f, "malformed_body");
                        }
                        let bare = st.bad.is_none() && p3.bare(&st);
                        let body = if bare { p3.text(st.asks[0].doc).into_bytes() } else { body };
                        let heads: Vec<(String, String)> = if bare { vec![("content-type".into(), "application/graphql".into())] } else { vec![] };
                        let (app, arrays) = (app.clone(), p3.arrays);
                        let inv = at();
                        simrt::event(|| format!("request at {inv:?}: {}", String::from_utf8_lossy(&body)));
                        let out = cancellable(async move { send_bytes(app, "POST", "/graphql", &heads, body, arrays).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply at {ret:?}: {:?}", reply.as_ref().map(|r| r.as_ref().map(|r| r.body.clone()))));
                        r2.push(Arc::new(Req { step: st, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &reqs, &calls);
        }
        let good = reqs.iter().filter(|r| matches!(&r.reply, Some(Ok(x)) if x.body.contains("\"data\":{"))).count();
        RunOut { violation: v, nontrivial: good > 1, report, faults, sample: json!({"requests": reqs.len(), "with_data": good, "upstream_calls": calls.len()}) }
    }
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall]) -> Option<Violation> {
    let mut created: BTreeMap<u32, (usize, usize)> = BTreeMap::new();
    for r in reqs {
        let answered = matches!(&r.reply, Some(Ok(_)));
        if r.step.bad.is_none() {
            let n = if r.step.array { r.step.asks.len() } else { 1 };
            for a in &r.step.asks[..n] {
                if p.vague(a) {
                    // any of its fields may have been sent
                    for f in p.doc(a.doc).iter().filter(|o| o.mutation).flat_map(|o| &o.fields) {
                        created.entry(f.id).or_default().0 += 1;
                    }
                } else if let Some((true, fs)) = p.expect(a) {
                    for f in fs {
                        let e = created.entry(f.2).or_default();
                        e.0 += 1;
                        e.1 += answered as usize;
                    }
                }
            }
        }
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, m: String| {
            let body = match r.step.bad {
                Some(b) => String::from_utf8_lossy(BAD[b as usize % BAD.len()]).into_owned(),
                None => r.step.asks.iter().map(|a| p.body(a).to_string()).collect::<Vec<_>>().join("\n  "),
            };
            Some(Violation::new(c, format!("{m}\nrequest (array: {}) {body}\nat {:?}..{:?}\nreply {:?}", r.step.array, r.inv, r.ret, reply)))
        };
        let x = match reply {
            Ok(x) => x,
            Err(e) => return bad("no-reply", format!("the request handler gave no response: {e}")),
        };
        if x.status != 200 {
            return bad("status", format!("status {}", x.status));
        }
        let v = x.json();
        if r.step.bad.is_some() {
            if v["errors"].as_array().is_none_or(|e| e.is_empty()) {
                return bad("bad-accepted", "a malformed request was answered without errors".into());
            }
            continue;
        }
        let parts: Vec<(&Ask, Value)> = if r.step.array {
            match v.as_array() {
                Some(a) if a.len() == r.step.asks.len() => r.step.asks.iter().zip(a.iter().cloned()).collect(),
                _ => return bad("array-shape", "an array of requests is answered by an array of as many responses".into()),
            }
        } else {
            vec![(&r.step.asks[0], v)]
        };
        let from = reqs.iter().filter(|o| o.overlaps(r)).flat_map(|o| reqs.iter().filter(|l| l.overlaps(o))).map(|o| o.inv.s).min().unwrap_or(r.inv.s);
        for (i, (a, v)) in parts.iter().enumerate() {
            let errs = v["errors"].as_array().map(|a| a.len()).unwrap_or(0);
            // whether a condition without a value holds is not said
            if p.vague(a) {
                continue;
            }
            let e = match p.expect(a) {
                None => {
                    if errs == 0 || !v["data"].is_null() {
                        return bad("not-rejected", format!("part {i} is no valid request and was answered with {v}"));
                    }
                    continue;
                }
                Some(e) => e,
            };
            let paths: Vec<String> = e.1.iter().filter_map(|f| path_of(f.1, f.2)).collect();
            if errs > 0 {
                let why = calls.iter().any(|c| c.failed() && c.end.s >= from && c.end.s <= r.ret.s && (paths.contains(&key_of(c)) || p.batch.is_some()));
                if !why {
                    return bad("unexplained-error", format!("part {i} failed and no upstream call it needs did: {v}"));
                }
                if !v["data"].is_null() {
                    return bad("partial", format!("part {i} has errors and data"));
                }
                continue;
            }
            let Some(o) = v["data"].as_object() else { return bad("shape", format!("part {i} has no data: {v}")) };
            let keys: Vec<&String> = o.keys().collect();
            let want: Vec<&String> = e.1.iter().map(|f| &f.0).collect();
            if keys != want {
                return bad("keys", format!("part {i} has fields {keys:?}, asked for {want:?}"));
            }
            for (k, what, id) in &e.1 {
                let got = &o[k];
                let check = |item: &Value, id: u32| item["id"] == json!(id) && (item.get("name").is_none() || item["name"] == json!(format!("item-{id}")));
                let rev = |v: &Value| {
                    let n = v["rev"].as_u64().unwrap_or(u64::MAX) as usize;
                    let fresh = |c: &MCall| if p.cache { true } else { c.end.s >= from };
                    calls.get(n).is_some_and(|c| Some(key_of(c)) == path_of(*what, *id) && c.end.s <= r.ret.s && fresh(c) && !c.failed())
                };
                let ok = match what {
                    0 => got == "const-name",
                    1 => got == "const-other",
                    2 | 9 => check(got, *id) && rev(got),
                    3 => got.as_array().is_some_and(|a| a.len() == 2 && check(&a[0], 1) && check(&a[1], 2) && rev(&a[0]) && rev(&a[1])),
                    5 => got["s"] == json!(said(*id)) && rev(got),
                    _ => got["q"] == json!(id) && rev(got),
                };
                if !ok {
                    return bad("wrong-data", format!("part {i}, field {k} ({}) is {got}", path_of(*what, *id).unwrap_or_default()));
                }
            }
        }
    }
    for (id, (most, least)) in created {
        let n = calls.iter().filter(|c| key_of(c) == format!("/create/{id}")).count();
        if n > most || n < least {
            return Some(Violation::new("mutation-count", format!("mutation {id} was asked for {most} times, answered {least} times and sent {n} times")));
        }
    }
    None
}
