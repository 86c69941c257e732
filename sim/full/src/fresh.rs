//! Reads after writes: how old what a reply says may be.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use hyper::body::Bytes;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;
use tailcall::core::http::Response;
use tailcall::core::HttpIO;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

const MS: u64 = 1_000_000;

/// where a value comes from
pub const A: u8 = 0; // GET /a/id
pub const P: u8 = 1; // POST to the same URL
pub const G: u8 = 2; // GraphQL upstream
pub const M1: u8 = 3; // first and second half of a merged field
pub const M2: u8 = 4;
pub const NOW: u8 = 5; // below a constant
pub const SUB: u8 = 6; // below a field without a resolver
pub const LIST: u8 = 7;
pub const PEER: u8 = 8; // below the rows, may be batched
pub const AGAIN: u8 = 9; // below everything
pub const NSRC: u8 = 10;
const HOW: [&str; 10] = ["GET a", "POST a", "graphql", "GET m1", "GET m2", "GET w", "GET s", "GET list", "peer", "GET n"];

/// fields of Query: 0 a, 1 p, 2 g, 3 m, 4 x (constant), 5 ns (nothing), 6 call of a, 7 list
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Part {
    pub field: u8,
    pub id: u32,
    pub deep: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Read(Vec<Part>),
    /// ids, and whether to read below
    Write(Vec<u32>, bool),
    Rest(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    pub wait: u64,
    pub ops: Vec<Op>,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    /// bit per source
    pub dedupe: u16,
    /// (source, ms)
    pub cache: Vec<(u8, u64)>,
    pub batch: Option<(u64, u64)>,
    pub gql_batch: bool,
    pub arrays: bool,
    pub up: MiniPlan,
    /// µs between the moment the upstream answers and its answer is there
    pub late: Vec<u64>,
    pub clients: Vec<Vec<Step>>,
}
impl Plan {
    fn deduped(&self, s: u8) -> bool {
        self.dedupe >> s & 1 == 1
    }
    fn age(&self, s: u8) -> Option<u64> {
        // the halves of a merged field are one field
        let f = if s == M2 { M1 } else { s };
        self.cache.iter().find(|c| c.0 == f).map(|c| c.1.max(1) * MS)
    }
    fn files(&self) -> Vec<(String, String)> {
        let d = |s: u8| if self.deduped(s) { ", dedupe: true" } else { "" };
        let c = |s: u8| self.age(s).map(|a| format!(" @cache(maxAge: {})", a / MS)).unwrap_or_default();
        let (peer, key) = if self.batch.is_some() { ("peers", ", batchKey: [\"id\"]") } else { ("peer", "") };
        let gb = if self.gql_batch && self.batch.is_some() { ", batch: true" } else { "" };
        let sdl = format!(
            r#"schema {{ query: Query mutation: Mutation }}
type Query {{
  a(id: Int!): Item @http(url: "http://up/a/{{{{.args.id}}}}"{da}){ca}
  p(id: Int!): Item @http(url: "http://up/a/{{{{.args.id}}}}", method: POST{dp}){cp}
  g(id: Int!): Item @graphQL(url: "http://up/graphql", name: "g", args: [{{key: "id", value: "{{{{.args.id}}}}"}}]{gb}{dg}){cg}
  m(id: Int!): Both @http(url: "http://up/m1/{{{{.args.id}}}}"{dm}) @http(url: "http://up/m2/{{{{.args.id}}}}"{dn}){cm}
  x: Box @expr(body: {{id: 1, text: "const"}})
  ns: Space
  k(id: Int!): Item @call(steps: [{{query: "a", args: {{id: "{{{{.args.id}}}}"}}}}])
  list(id: Int!): [Row] @http(url: "http://up/list/{{{{.args.id}}}}"{dl}){cl}
}}
type Mutation {{ put(id: Int!, nonce: Int!): Item @http(url: "http://up/put/{{{{.args.id}}}}/{{{{.args.nonce}}}}", method: POST) }}
type Item {{ id: Int! v: Int how: String again: Item @http(url: "http://up/n/{{{{.value.id}}}}"{dz}){cz} }}
type Both {{ id: Int! v: Int how: String w: Int hw: String again: Item @http(url: "http://up/n/{{{{.value.id}}}}"{dz}){cz} }}
type Box {{ id: Int! text: String now: Item @http(url: "http://up/w/{{{{.value.id}}}}"{dw}){cw} }}
type Space {{ sub(id: Int!): Item @http(url: "http://up/s/{{{{.args.id}}}}"{ds}){cs} }}
type Row {{ id: Int! v: Int how: String peer: Item @http(url: "http://up/{peer}", query: [{{key: "id", value: "{{{{.value.id}}}}"}}]{key}{de}){ce} }}
"#,
            da = d(A), ca = c(A), dp = d(P), cp = c(P), dg = d(G), cg = c(G), dm = d(M1), dn = d(M2), cm = c(M1), dl = d(LIST), cl = c(LIST),
            dz = d(AGAIN), cz = c(AGAIN), dw = d(NOW), cw = c(NOW), ds = d(SUB), cs = c(SUB), de = d(PEER), ce = c(PEER),
        );
        let ops = "query ($id: Int!) @rest(method: GET, path: \"/a/$id\") { a(id: $id) { id v how again { id v how } } }";
        let mut up = json!({});
        if let Some((d, m)) = self.batch {
            up["batch"] = json!({"delay": d.max(1), "maxSize": m.max(1)});
        }
        let cfg = json!({"server": {"batchRequests": self.arrays}, "upstream": up, "links": [{"src": "/app/schema.graphql", "type": "Config"}, {"src": "/app/ops.graphql", "type": "Operation"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl), ("/app/ops.graphql".into(), ops.into())]
    }
}
fn rows_of(n: u32) -> Vec<u32> {
    (n..=n + n % 2).collect()
}
impl Part {
    fn text(&self, i: usize) -> String {
        let again = if self.deep { " again { id v how }" } else { "" };
        let id = self.id;
        match self.field {
            0 => format!("f{i}: a(id: {id}) {{ id v how{again} }}"),
            1 => format!("f{i}: p(id: {id}) {{ id v how{again} }}"),
            2 => format!("f{i}: g(id: {id}) {{ id v how{again} }}"),
            3 => format!("f{i}: m(id: {id}) {{ id v how w hw{again} }}"),
            4 => format!("f{i}: x {{ id text {} }}", if self.deep { "now { id v how again { id v how } }" } else { "now { id v how }" }),
            5 => format!("f{i}: ns {{ sub(id: {id}) {{ id v how{again} }} }}"),
            6 => format!("f{i}: k(id: {id}) {{ id v how{again} }}"),
            _ => format!("f{i}: list(id: {id}) {{ id v how {} }}", if self.deep { "peer { id v how again { id v how } }" } else { "peer { id v how }" }),
        }
    }
    /// the sources it is taken from
    fn sources(&self) -> Vec<u8> {
        let mut s = match self.field {
            0 | 6 => vec![A],
            1 => vec![P],
            2 => vec![G],
            3 => vec![M1, M2],
            4 => vec![NOW],
            5 => vec![SUB],
            _ => vec![LIST, PEER],
        };
        if self.deep {
            s.push(AGAIN);
        }
        s
    }
}
impl Op {
    fn text(&self, nonce: usize) -> String {
        match self {
            Op::Read(p) => format!("{{ {} }}", p.iter().enumerate().map(|(i, p)| p.text(i)).collect::<Vec<_>>().join(" ")),
            Op::Write(ids, deep) => {
                let again = if *deep { " again { id v how }" } else { "" };
                format!("mutation {{ {} }}", ids.iter().enumerate().map(|(i, id)| format!("f{i}: put(id: {id}, nonce: {}) {{ id v how{again} }}", nonce + i)).collect::<Vec<_>>().join(" "))
            }
            Op::Rest(id) => format!("/api/a/{id}"),
        }
    }
    fn sources(&self) -> Vec<u8> {
        match self {
            Op::Read(p) => p.iter().flat_map(|p| p.sources()).collect(),
            Op::Write(..) => vec![],
            Op::Rest(_) => vec![A, AGAIN],
        }
    }
}

/// what the upstream holds: every version there was of each entity, by the time and the write it came with
#[derive(Default)]
pub struct Store {
    pub versions: BTreeMap<u32, Vec<(At, u64)>>,
    pub twice: Option<u64>,
}
impl Store {
    fn version(&self, id: u32) -> usize {
        self.versions.get(&id).map_or(0, |v| v.len())
    }
    fn put(&mut self, id: u32, nonce: u64) -> usize {
        if self.versions.values().flatten().any(|v| v.1 == nonce) {
            self.twice = Some(nonce);
        }
        let v = self.versions.entry(id).or_default();
        v.push((at(), nonce));
        v.len()
    }
}
fn answer(c: &MCall, store: &Mutex<Store>) -> Option<Ans> {
    let mut st = store.lock().unwrap();
    let num = |t: &str| t.parse::<u32>().unwrap_or(u32::MAX);
    let row = |st: &Store, id: u32, how: &str| json!({"id": id, "v": st.version(id), "how": how});
    let s = c.segs();
    let gql = |st: &Store, q: &Value| {
        let q = q["query"].as_str().unwrap_or("");
        let id = q.split("g(id:").nth(1).map(|r| r.trim_start().chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).unwrap_or_default();
        json!({"data": {"g": row(st, num(&id), "graphql")}})
    };
    Ans::json(match s[..] {
        ["put", id, nonce] => {
            let v = st.put(num(id), num(nonce) as u64);
            json!({"id": num(id), "v": v, "how": "put"})
        }
        ["graphql"] => match &c.body {
            Value::Array(a) => a.iter().map(|q| gql(&st, q)).collect(),
            q => gql(&st, q),
        },
        ["m2", id] => json!({"w": st.version(num(id)), "hw": "GET m2"}),
        ["list", id] => rows_of(num(id)).into_iter().map(|i| row(&st, i, "GET list")).collect(),
        ["peers"] => c.query.iter().map(|q| row(&st, num(&q.1), "peer")).collect(),
        ["peer"] => row(&st, num(&c.query.first()?.1), "peer"),
        [k, id] => row(&st, num(id), &format!("{} {k}", c.method)),
        _ => return None,
    })
}
/// answers are on their way for a while
struct Late {
    up: Mini,
    late: Vec<u64>,
    n: Mutex<usize>,
}
#[async_trait]
impl HttpIO for Late {
    async fn execute(&self, req: reqwest::Request) -> anyhow::Result<Response<Bytes>> {
        let n = {
            let mut n = self.n.lock().unwrap();
            *n += 1;
            *n
        };
        let out = self.up.execute(req).await;
        let l = if self.late.is_empty() || *self.up.quiet.lock().unwrap() { 0 } else { self.late[n % self.late.len()] };
        if l > 0 {
            simrt::sleep(us(l)).await;
            fault(&self.up.faults, "delayed_response");
        }
        out
    }
}
struct Req {
    step: Step,
    nonces: Vec<usize>,
    text: String,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}

pub struct FreshScenario;
impl Scenario for FreshScenario {
    fn id(&self) -> &'static str {
        "C34"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            8_000
        } else {
            250_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws which sources are deduped, cached and batched, and concurrent users that write and read the same entities; it is non-trivial when a read that came after a finished write overlapped a read of the same source that \
         came before that write, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["request handler, REST, arrays", "jit plans (constant, dedupe and cache checks), execution, operation dedupe", "async-graphql execution for REST", "IO dedupe, data loader, @cache over the in-memory cache"],
            vec!["upstream that counts the versions of what it holds (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["delayed_response", "connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let dedupe = match r.below(5) {
            0 | 1 => 0,
            2 => (1 << NSRC) - 1,
            // one half of a merged field
            3 => (1 << NSRC) - 1 - (1 << *r.pick(&[M1, M2])),
            _ => r.below(1 << NSRC) as u16,
        };
        let mut cache = vec![];
        let all = r.chance(0.15);
        if r.chance(0.4) {
            for s in [A, P, G, M1, NOW, SUB, LIST, PEER, AGAIN] {
                if all || r.chance(0.3) {
                    cache.push((s, *r.pick(&[1u64, 5, 20, 100])));
                }
            }
        }
        let arrays = r.chance(0.25);
        let ids: Vec<u32> = (0..r.range(1, 2)).map(|_| r.range(1, 4) as u32).collect();
        // few different reads, so that users ask the same at the same time
        let reads: Vec<Op> = (0..r.range(1, 3))
            .map(|_| {
                if !arrays && r.chance(0.12) {
                    return Op::Rest(*r.pick(&ids));
                }
                Op::Read((0..*r.pick(&[1, 1, 1, 2, 2, 3])).map(|_| Part { field: r.below(8) as u8, id: *r.pick(&ids), deep: r.chance(0.4) }).collect())
            })
            .collect();
        let clients = (0..r.range(2, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(2, 5))
                    .map(|_| {
                        let mut op = || if r.chance(0.35) { Op::Write((0..*r.pick(&[1, 1, 2])).map(|_| if r.chance(0.4) { 1 } else { *r.pick(&ids) }).collect(), r.chance(0.3)) } else { r.pick(&reads).clone() };
                        let first = op();
                        let mut ops = vec![first];
                        if arrays {
                            for _ in 0..2 {
                                let o = op();
                                ops.push(o);
                            }
                            let n = 1 + r.below(3) as usize;
                            ops.truncate(n);
                        }
                        Step { wait: *r.pick(&[0, 0, 0, 1, 2, 5, 20]) * unit, ops, cancel: if r.chance(0.06) { Some(r.below(6) * unit) } else { None } }
                    })
                    .collect()
            })
            .collect();
        let mut up = draw_mini(r, 0.25);
        for l in &mut up.lat {
            *l = *r.pick(&[0, 0, 1, 2, 5]) * unit;
        }
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            dedupe,
            cache,
            batch: if r.chance(0.5) { Some((*r.pick(&[1, 2, 5]), *r.pick(&[1, 2, 3, 100]))) } else { None },
            gql_batch: r.chance(0.5),
            arrays,
            up,
            late: (0..r.range(1, 5)).map(|_| *r.pick(&[0, 0, 1, 3, 10, 30]) * unit).collect(),
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let env = SimEnv::default();
        let (b, e) = prepared(&p.files(), &env).expect("configuration");
        let store = Arc::new(Mutex::new(Store::default()));
        let st2 = store.clone();
        let up = Mini::new(p.up.clone(), move |c| answer(c, &st2));
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let http = Arc::new(Late { up: u2.clone(), late: p2.late.clone(), n: Mutex::new(0) });
            let rt = runtime(http, SimFile::default(), env, (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let nonce = Arc::new(Mutex::new(1usize));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, f, nonce) = (app.clone(), r2.clone(), u2.faults.clone(), nonce.clone());
                let arrays = p2.arrays;
                hs.push(simrt::task::spawn_named("user", async move {
                    for st in steps {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        ask(&app, &r2, &f, st, arrays, &nonce).await;
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
            // no entry of a cache is left
            simrt::sleep(us(1_000_000)).await;
            *u2.quiet.lock().unwrap() = true;
            let f = u2.faults.clone();
            for st in p2.clients.into_iter().flatten().filter(|s| s.ops.iter().all(|o| !matches!(o, Op::Write(..)))).take(3) {
                ask(&app, &r2, &f, Step { cancel: None, wait: 0, ..st }, p2.arrays, &nonce).await;
            }
        });
        let faults = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &reqs, &calls, &store.lock().unwrap());
        }
        let writes: Vec<_> = reqs.iter().filter(|r| r.step.ops.iter().any(|o| matches!(o, Op::Write(..))) && matches!(&r.reply, Some(Ok(x)) if !x.body.contains("errors"))).collect();
        let srcs = |r: &Req| r.step.ops.iter().flat_map(|o| o.sources()).collect::<Vec<_>>();
        let nontrivial = writes.iter().any(|w| reqs.iter().any(|b| b.inv.s > w.ret.s && reqs.iter().any(|a| a.inv.s < w.inv.s && a.ret.s > b.inv.s && srcs(a).iter().any(|s| srcs(b).contains(s)))));
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "upstream_calls": calls.len(), "writes": writes.len()}) }
    }
}
async fn ask(app: &Arc<AppContext>, log: &Log<Arc<Req>>, f: &Faults, st: Step, arrays: bool, nonce: &Mutex<usize>) {
    if st.ops.is_empty() {
        return;
    }
    let mut docs = vec![];
    let mut nonces = vec![];
    for o in &st.ops {
        let mut n = nonce.lock().unwrap();
        nonces.push(*n);
        docs.push(json!({"query": o.text(*n)}));
        if let Op::Write(ids, _) = o {
            *n += ids.len();
        }
    }
    let many = docs.len() > 1 && arrays;
    let (method, uri, body) = match &st.ops[0] {
        Op::Rest(_) if !many => ("GET", st.ops[0].text(0), String::new()),
        _ => ("POST", "/graphql".to_string(), if many { Value::Array(docs) } else { docs[0].clone() }.to_string()),
    };
    let text = format!("{method} {uri} {body}");
    let app = app.clone();
    let inv = at();
    simrt::event(|| format!("request at {inv:?}: {text}"));
    let out = cancellable(async move { send(app, method, &uri, &[], body, arrays).await }, st.cancel).await;
    let ret = at();
    let reply = match out {
        Ok(r) => Some(r),
        Err(e) if e.is_cancelled() => {
            fault(f, "client_disconnect");
            None
        }
        Err(e) => Some(Err(format!("panic: {e:?}"))),
    };
    simrt::event(|| format!("reply at {ret:?}: {reply:?}"));
    log.push(Arc::new(Req { step: st, nonces, text, inv, ret, reply }));
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall], store: &Store) -> Option<Violation> {
    if let Some(n) = store.twice {
        return Some(Violation::new("written-twice", format!("the write {n} was sent twice")));
    }
    let ops = |r: &Req| -> Vec<Op> { r.step.ops[..if p.arrays { r.step.ops.len() } else { 1 }].to_vec() };
    let earlier = |a: At, b: At| if b.s < a.s { b } else { a };
    // the whole operation may be shared if everything in it may be
    let whole = |o: &Op| matches!(o, Op::Read(_)) && (o.sources().iter().all(|s| p.deduped(*s)) || o.sources().iter().all(|s| p.age(*s).is_some()));
    // how old what a request gets from a source may be, caches aside
    let base = |r: &Req, o: &Op, s: u8| -> At {
        let mut low = r.inv;
        if whole(o) {
            // those who asked the same as those who asked the same ..
            loop {
                let next = reqs.iter().filter(|x| x.inv.s <= low.s && low.s <= x.ret.s && ops(x).contains(o)).map(|x| x.inv).fold(low, earlier);
                if next == low {
                    break;
                }
                low = next;
            }
        }
        if p.deduped(s) {
            low = reqs.iter().filter(|x| x.inv.s <= low.s && low.s <= x.ret.s && ops(x).iter().any(|o| o.sources().contains(&s))).map(|x| x.inv).fold(low, earlier);
            low = calls.iter().filter(|c| c.start.s <= low.s && low.s <= c.end.s).map(|c| c.start).fold(low, earlier);
        }
        low
    };
    let lowest = |r: &Req, o: &Op, s: u8| -> At {
        let mut low = base(r, o, s);
        if let Some(age) = p.age(s) {
            // an entry lives for so long; whoever made it was there then
            let since = low.t;
            for x in reqs.iter().filter(|x| x.ret.t.saturating_add(age) >= since && x.inv.s <= r.ret.s) {
                for xo in ops(x) {
                    if xo.sources().contains(&s) || matches!(xo, Op::Write(_, true)) && s == AGAIN {
                        low = earlier(low, base(x, &xo, s));
                    }
                }
            }
        }
        low
    };
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, t: String| Some(Violation::new(c, format!("{t}\nrequest {} at {:?}..{:?}\nreply {reply:?}", r.text, r.inv, r.ret)));
        let x = match reply {
            Ok(x) => x,
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let body = x.json();
        let many = p.arrays && r.step.ops.len() > 1;
        let parts: Vec<Value> = if many { body.as_array().cloned().unwrap_or_default() } else { vec![body] };
        let ops = ops(r);
        if parts.len() != ops.len() {
            return bad("wrong-array", format!("{} answers to {} requests", parts.len(), ops.len()));
        }
        for (k, (op, part)) in ops.iter().zip(&parts).enumerate() {
            if part["errors"].as_array().is_some_and(|e| !e.is_empty()) {
                if !p.up.fail.contains(&1) && !p.up.fail.contains(&2) && !p.up.fail.contains(&3) {
                    return bad("unexplained-error", "nothing failed".into());
                }
                continue;
            }
            // `got` holds the version of an entity that a source gave after `low`
            let check = |got: &Value, v: &str, h: &str, s: u8, id: u32, low: At| -> Result<(), (&'static str, String)> {
                if got[h] != json!(HOW[s as usize]) || v == "v" && got["id"] != json!(id) {
                    return Err(("wrong-data", format!("{got} is not entity {id} by {}", HOW[s as usize])));
                }
                let none = vec![];
                let vs = store.versions.get(&id).unwrap_or(&none);
                let n = got[v].as_u64().unwrap_or(u64::MAX) as usize;
                if n > vs.len() || n > 0 && vs[n - 1].0.s > r.ret.s {
                    return Err(("from-the-future", format!("{got}: entity {id} has had {} versions", vs.len())));
                }
                if let Some(next) = vs.get(n).filter(|x| x.0.s < low.s) {
                    return Err(("stale", format!("{got}: entity {id} has had version {} since {:?}, nothing since {low:?} could be that old", n + 1, next.0)));
                }
                Ok(())
            };
            let read = |got: &Value, s: u8, id: u32| check(got, "v", "how", s, id, lowest(r, op, s));
            let again = |got: &Value, deep: bool, id: u32| if deep { read(&got["again"], AGAIN, id) } else { Ok(()) };
            let res = match op {
                Op::Rest(id) => read(part, A, *id).and_then(|_| again(part, true, *id)),
                Op::Read(ps) => ps.iter().enumerate().try_for_each(|(i, f)| {
                    let got = &part["data"][format!("f{i}")];
                    let id = f.id;
                    match f.field {
                        0 | 6 => read(got, A, id).and_then(|_| again(got, f.deep, id)),
                        1 => read(got, P, id).and_then(|_| again(got, f.deep, id)),
                        2 => read(got, G, id).and_then(|_| again(got, f.deep, id)),
                        3 => read(got, M1, id).and_then(|_| check(got, "w", "hw", M2, id, lowest(r, op, M2))).and_then(|_| again(got, f.deep, id)),
                        4 if got["id"] != json!(1) || got["text"] != json!("const") => Err(("wrong-data", format!("{got} is not the constant"))),
                        4 => read(&got["now"], NOW, 1).and_then(|_| again(&got["now"], f.deep, 1)),
                        5 => read(&got["sub"], SUB, id).and_then(|_| again(&got["sub"], f.deep, id)),
                        _ => {
                            let ids = rows_of(id);
                            match got.as_array() {
                                Some(l) if l.len() == ids.len() => l.iter().zip(ids).try_for_each(|(g, i)| read(g, LIST, i).and_then(|_| read(&g["peer"], PEER, i)).and_then(|_| again(&g["peer"], f.deep, i))),
                                _ => Err(("wrong-data", format!("{got} is not the list"))),
                            }
                        }
                    }
                }),
                Op::Write(ids, deep) => ids.iter().enumerate().try_for_each(|(i, id)| {
                    let got = &part["data"][format!("f{i}")];
                    let nonce = (r.nonces[k] + i) as u64;
                    let v = got["v"].as_u64().unwrap_or(0) as usize;
                    let Some(made) = store.versions.get(id).and_then(|vs| vs.get(v.wrapping_sub(1))).filter(|x| x.1 == nonce) else {
                        return Err(("wrong-write", format!("{got} is not what write {nonce} of entity {id} made")));
                    };
                    if !*deep {
                        return Ok(());
                    }
                    // what is read below a write is read after it
                    let low = if p.age(AGAIN).is_some() { lowest(r, op, AGAIN) } else { made.0 };
                    check(&got["again"], "v", "how", AGAIN, *id, low)
                }),
            };
            if let Err((c, e)) = res {
                return bad(c, e);
            }
        }
    }
    None
}
