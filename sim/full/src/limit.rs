//! globalResponseTimeout: who waits for how long, and what is left of a request that ran out of time.
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::up::Outcome;
use crate::util::*;

const LATE: &str = "Global timeout";
const MS: u64 = 1_000_000;

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Op {
    /// 0 item, 1 list, 2 two mutations, 3 nothing of an upstream
    pub kind: u8,
    pub id: u32,
    pub peer: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    /// more than one: as an array
    pub ops: Vec<Op>,
    pub rest: bool,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    /// ms
    pub limit: Option<u64>,
    pub dedupe: bool,
    pub batch: Option<(u64, u64)>,
    /// requests may come in arrays
    pub arrays: bool,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}
impl Plan {
    fn files(&self) -> Vec<(String, String)> {
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let (peer, key) = if self.batch.is_some() { ("peers", ", batchKey: [\"id\"]") } else { ("peer", "") };
        let sdl = format!(
            r#"schema {{ query: Query mutation: Mutation }}
type Query {{
  item(id: Int!): Item @http(url: "http://up/items/{{{{.args.id}}}}"{d})
  list(n: Int!): [Item] @http(url: "http://up/list/{{{{.args.n}}}}"{d})
}}
type Mutation {{ create(id: Int!): Item @http(url: "http://up/create/{{{{.args.id}}}}", method: POST) }}
type Item {{
  id: Int
  rev: Int
  peer: Item @http(url: "http://up/{peer}", query: [{{key: "id", value: "{{{{.value.id}}}}"}}]{key}{d})
}}
"#
        );
        let ops = "query ($id: Int!) @rest(method: GET, path: \"/items/$id\") { item(id: $id) { id rev peer { id rev } } }";
        let mut server = json!({"batchRequests": self.arrays});
        if let Some(t) = self.limit {
            server["globalResponseTimeout"] = json!(t);
        }
        let mut up = json!({});
        if let Some((d, m)) = self.batch {
            up["batch"] = json!({"delay": d.max(1), "maxSize": m.max(1)});
        }
        let cfg = json!({"server": server, "upstream": up, "links": [{"src": "/app/schema.graphql", "type": "Config"}, {"src": "/app/ops.graphql", "type": "Operation"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl), ("/app/ops.graphql".into(), ops.into())]
    }
    fn limit_ns(&self) -> Option<u64> {
        self.limit.filter(|t| *t > 0).map(|t| t * MS)
    }
}
fn row(id: u32, rev: usize) -> Value {
    json!({"id": id, "rev": rev})
}
fn rows_of(n: u32) -> Vec<u32> {
    (n..n + n % 4).collect()
}
/// what a call asks for
fn asks(c: &MCall) -> Vec<(String, u32)> {
    let s = c.segs();
    let num = |t: &str| t.parse().unwrap_or(u32::MAX);
    match s[..] {
        ["peers" | "peer"] => c.query.iter().map(|q| ("peer".into(), num(&q.1))).collect(),
        [k, id] => vec![(k.to_string(), num(id))],
        _ => vec![(c.path.clone(), 0)],
    }
}
fn answer(c: &MCall) -> Option<Ans> {
    let a = asks(c);
    Ans::json(match c.segs()[..] {
        ["peers"] => Value::Array(a.iter().map(|a| row(a.1, c.n)).collect()),
        ["list", _] => Value::Array(rows_of(a[0].1).into_iter().map(|i| row(i, c.n)).collect()),
        _ => row(a.first()?.1, c.n),
    })
}
impl Op {
    fn text(&self) -> String {
        let peer = if self.peer { " peer { id rev }" } else { "" };
        match self.kind {
            0 => format!("{{ item(id: {}) {{ id rev{peer} }} }}", self.id),
            1 => format!("{{ list(n: {}) {{ id rev{peer} }} }}", self.id),
            2 => format!("mutation {{ a: create(id: {}) {{ id rev }} b: create(id: {}) {{ id rev }} }}", self.id, self.id + 100_000),
            _ => "{ __typename }".into(),
        }
    }
    fn asks(&self) -> Vec<(String, u32)> {
        let mut out: Vec<(String, u32)> = match self.kind {
            0 => vec![("items".into(), self.id)],
            1 => vec![("list".into(), self.id)],
            2 => vec![("create".into(), self.id), ("create".into(), self.id + 100_000)],
            _ => vec![],
        };
        if self.peer && self.kind < 2 {
            let ids = if self.kind == 0 { vec![self.id] } else { rows_of(self.id) };
            out.extend(ids.into_iter().map(|i| ("peer".to_string(), i)));
        }
        out
    }
}
struct Req {
    step: Step,
    text: String,
    inv: At,
    ret: At,
    calm: bool,
    reply: Option<Result<Reply, String>>,
}

pub struct LimitScenario;
impl Scenario for LimitScenario {
    fn id(&self) -> &'static str {
        "C30"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            8_000
        } else {
            250_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws a time limit, latencies around it, dedupe, batching and concurrent clients; it is non-trivial when one request ran out of time while another that overlapped it was answered with data, distinct by the hash of its \
         event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["request handler, REST, arrays", "jit and async-graphql execution with their time limits", "dedupe, data loader, batching", "request templates"],
            vec!["upstream that signs what it says (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["slow_upstream", "hung_upstream", "connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let limit = if r.chance(0.9) { Some(*r.pick(&[20u64, 50, 100, 1000, 20_000])) } else { *r.pick(&[None, Some(0)]) };
        let t = limit.unwrap_or(50).max(20) * 1000;
        let unit = *r.pick(&[t / 10, t / 4, t / 2]);
        let arrays = r.chance(0.3);
        let ids: Vec<u32> = (0..r.range(1, 4)).map(|_| r.range(1, 12) as u32).collect();
        let mut fresh = 1000;
        let clients = (0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(1, 3))
                    .map(|_| {
                        let rest = !arrays && r.chance(0.15);
                        let ops = (0..if arrays && r.chance(0.5) { r.range(2, 4) } else { 1 })
                            .map(|_| {
                                let kind = if rest { 0 } else { *r.pick(&[0u8, 0, 0, 1, 1, 1, 2, 3]) };
                                let id = if kind == 2 {
                                    fresh += 1;
                                    fresh
                                } else {
                                    *r.pick(&ids)
                                };
                                Op { kind, id, peer: rest || r.chance(0.6) }
                            })
                            .collect();
                        Step { wait: *r.pick(&[0, 0, 0, 1, 2, 3]) * unit, ops, rest, cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None } }
                    })
                    .collect()
            })
            .collect();
        let lat = (0..r.range(1, 6)).map(|_| *r.pick(&[0, t / 50, t / 10, t / 3, t / 2, t - 1000, t, t + 1000, 3 * t])).collect();
        let fail = if r.chance(0.3) { (0..r.range(2, 7)).map(|_| if r.chance(0.3) { *r.pick(&[1u8, 2, 3, 4, 4]) } else { 0 }).collect() } else { vec![] };
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            limit,
            dedupe: r.chance(0.5),
            batch: if r.chance(0.6) { Some((*r.pick(&[1, 2, 5]), *r.pick(&[1, 2, 3, 100]))) } else { None },
            arrays,
            up: MiniPlan { lat, fail },
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let env = SimEnv::default();
        let (b, e) = prepared(&p.files(), &env).expect("configuration");
        let up = Mini::new(p.up.clone(), answer);
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), env, (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, f) = (app.clone(), r2.clone(), u2.faults.clone());
                let arrays = p2.arrays;
                hs.push(simrt::task::spawn_named("user", async move {
                    for st in steps {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        ask(&app, &r2, &f, st, arrays, false).await;
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
            // everything that hangs comes to its end
            simrt::sleep(us(70_000_000)).await;
            *u2.quiet.lock().unwrap() = true;
            let f = u2.faults.clone();
            for st in p2.clients.into_iter().flatten().filter(|s| s.ops.iter().all(|o| o.kind != 2)).take(4) {
                ask(&app, &r2, &f, Step { cancel: None, wait: 0, ..st }, p2.arrays, true).await;
            }
        });
        let faults = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut faults = faults;
        for c in &calls {
            if p.limit_ns().is_some_and(|t| c.outcome == Outcome::Dropped || c.end.t.saturating_sub(c.start.t) >= t) {
                *faults.entry("slow_upstream".into()).or_default() += 1;
            }
        }
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &reqs, &calls);
        }
        let late = |r: &Req| matches!(&r.reply, Some(Ok(x)) if x.body.contains(LATE));
        let good = |r: &Req| matches!(&r.reply, Some(Ok(x)) if !x.body.contains("errors"));
        let nontrivial = reqs.iter().any(|a| late(a) && reqs.iter().any(|b| good(b) && a.inv.s <= b.ret.s && b.inv.s <= a.ret.s));
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "upstream_calls": calls.len()}) }
    }
}
async fn ask(app: &Arc<AppContext>, log: &Log<Arc<Req>>, f: &Faults, st: Step, arrays: bool, calm: bool) {
    if st.ops.is_empty() {
        return;
    }
    let many = st.ops.len() > 1 && arrays;
    let docs: Vec<Value> = st.ops.iter().map(|o| json!({"query": o.text()})).collect();
    let (method, uri, body) = if st.rest { ("GET", format!("/api/items/{}", st.ops[0].id), String::new()) } else { ("POST", "/graphql".into(), if many { Value::Array(docs) } else { docs[0].clone() }.to_string()) };
    let text = format!("{method} {uri} {body}");
    let app = app.clone();
    let inv = at();
    simrt::event(|| format!("request at {inv:?}: {text}"));
    let out = cancellable(async move { send(app, method, &uri, &[], body, arrays).await }, st.cancel).await;
    let ret = at();
    let reply = match out {
        Ok(r) => Some(r),
        Err(e) if e.is_cancelled() => {
            fault(f, "client_disconnect");
            None
        }
        Err(e) => Some(Err(format!("panic: {e:?}"))),
    };
    simrt::event(|| format!("reply at {ret:?}: {reply:?}"));
    log.push(Arc::new(Req { step: st, text, inv, ret, calm, reply }));
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall]) -> Option<Violation> {
    let limit = p.limit_ns();
    // the simulator may move the clock on while there is work to do
    let slack = 2 * MS + if p.sched.slip_pm > 0 { 8 * p.sched.slip_max_us * 1000 } else { 0 };
    let ops = |r: &Req| -> Vec<Op> {
        let n = if p.arrays && !r.step.rest { r.step.ops.len() } else { 1 };
        r.step.ops[..n].to_vec()
    };
    // nothing is sent when nobody waits for it
    for c in calls {
        let bad = |cl: &str, m: String| Some(Violation::new(cl, format!("{m}\ncall {} {} {} at {:?}..{:?}", c.n, c.method, c.url, c.start, c.end)));
        for a in asks(c) {
            let delay = if a.0 == "create" { 0 } else { p.batch.map_or(0, |b| b.0 * MS + slack) };
            let by: Vec<_> = reqs.iter().filter(|r| ops(r).iter().any(|o| o.asks().contains(&a))).collect();
            if by.is_empty() {
                return bad("changed", format!("nobody asked for {a:?}"));
            }
            // someone's own time is not over, or it is one with those who came in a batch
            if !by.iter().any(|r| r.inv.s <= c.start.s && (c.start.s <= r.ret.s || c.start.t <= r.ret.t + delay)) {
                return bad("sent-late", format!("{a:?} was sent when none of its requests was open"));
            }
            if let (true, Some(t)) = (a.0 == "create", limit) {
                if by.iter().all(|r| c.start.t > r.inv.t + t + slack) {
                    return bad("sent-late", format!("{a:?} was sent after its request had run out of time"));
                }
            }
            if a.0 == "create" && calls.iter().any(|o| o.n != c.n && asks(o).contains(&a)) {
                return bad("mutation-twice", format!("{a:?} was sent again"));
            }
        }
        if let (["peers"], Some((_, max))) = (&c.segs()[..], p.batch) {
            if asks(c).len() as u64 > max.max(1) {
                return bad("batch-size", "too many keys".into());
            }
        }
    }
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, t: String| Some(Violation::new(c, format!("{t}\nrequest {} at {:?}..{:?}\nreply {reply:?}", r.text, r.inv, r.ret)));
        let x = match reply {
            Ok(x) => x,
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let took = r.ret.t - r.inv.t;
        if let Some(t) = limit {
            if took > t + slack {
                return bad("too-long", format!("it took {took} ns, the limit is {t}"));
            }
        }
        let body = x.json();
        let many = p.arrays && r.step.ops.len() > 1;
        let parts: Vec<Value> = if many { body.as_array().cloned().unwrap_or_default() } else { vec![body] };
        let ops = ops(r);
        if parts.len() != ops.len() {
            return bad("wrong-array", format!("{} answers to {} requests", parts.len(), ops.len()));
        }
        let joined = |c: &MCall| c.start.s <= r.ret.s && (c.end.s >= r.inv.s || reqs.iter().any(|o| o.inv.s <= c.end.s && c.end.s <= o.ret.s && o.ret.s >= r.inv.s && !std::ptr::eq(&**o, &**r)));
        for (op, part) in ops.iter().zip(&parts) {
            let mine = op.asks();
            if let Some(errs) = part["errors"].as_array().filter(|e| !e.is_empty()) {
                if !part["data"].is_null() {
                    return bad("data-and-errors", "data beside errors".into());
                }
                if r.step.rest && x.status < 400 {
                    return bad("wrong-status", "an error with a status of success".into());
                }
                for e in errs {
                    let m = e["message"].as_str().unwrap_or("");
                    if m == LATE {
                        if limit.is_none_or(|t| took < t) {
                            return bad("too-short", format!("it took {took} ns, the limit is {limit:?}"));
                        }
                        if r.calm {
                            return bad("never-again", "nothing is slow any more".into());
                        }
                        continue;
                    }
                    let token = m.split("[#").nth(1).and_then(|t| t.split(']').next()).and_then(|t| t.parse::<usize>().ok());
                    let cause = calls.iter().any(|c| {
                        c.failed() && joined(c) && token.map_or(c.outcome == Outcome::Failed("garbage"), |t| t == c.n) && asks(c).iter().any(|a| mine.contains(a) || p.batch.is_some() && a.0 != "create" && mine.iter().any(|m| m.0 == a.0))
                    });
                    if !cause {
                        return bad("unexplained-error", format!("nothing of its own failed: {e}"));
                    }
                }
                continue;
            }
            let from = |got: &Value, kind: &str, id: u32| -> Result<(), String> {
                let rev = got["rev"].as_u64().unwrap_or(u64::MAX) as usize;
                let c = calls.get(rev).ok_or_else(|| format!("no call {rev}"))?;
                if got["id"] != json!(id) || c.outcome != Outcome::Delivered || !asks(c).contains(&(kind.to_string(), id)) || c.end.s > r.ret.s || !joined(c) {
                    return Err(format!("{got} is not what {kind} {id} is, said by {} at {:?}..{:?}", c.url, c.start, c.end));
                }
                Ok(())
            };
            let whole = |got: &Value, kind: &str, id: u32| -> Result<(), String> {
                from(got, kind, id)?;
                let n = got.as_object().map_or(0, |o| o.len());
                if op.peer {
                    from(&got["peer"], "peer", id)?;
                }
                if n != 2 + op.peer as usize {
                    return Err(format!("{got} has not what was asked for"));
                }
                Ok(())
            };
            let d = if r.step.rest { json!({ "item": part }) } else { part["data"].clone() };
            let res = match op.kind {
                0 => whole(&d["item"], "items", op.id),
                1 => {
                    let ids = rows_of(op.id);
                    match d["list"].as_array() {
                        Some(l) if l.len() == ids.len() => l.iter().zip(ids).try_for_each(|(g, i)| {
                            // the row is said by the call for the list
                            let c = calls.get(g["rev"].as_u64().unwrap_or(u64::MAX) as usize).filter(|c| asks(c) == [("list".to_string(), op.id)]);
                            let c = c.ok_or(format!("{g} is no row of the list"))?;
                            if g["id"] != json!(i) || c.outcome != Outcome::Delivered || c.end.s > r.ret.s || !joined(c) {
                                return Err(format!("{g} is not row {i}"));
                            }
                            if op.peer {
                                from(&g["peer"], "peer", i)?;
                            }
                            Ok(())
                        }),
                        _ => Err(format!("{} is not the list", d["list"])),
                    }
                }
                2 => {
                    let (a, b) = (d["a"]["rev"].as_u64(), d["b"]["rev"].as_u64());
                    from(&d["a"], "create", op.id).and_then(|_| from(&d["b"], "create", op.id + 100_000)).and_then(|_| {
                        let (a, b) = (&calls[a.unwrap() as usize], &calls[b.unwrap() as usize]);
                        if b.start.s < a.end.s {
                            return Err("the second was sent before the first was over".into());
                        }
                        Ok(())
                    })
                }
                _ => {
                    if d == json!({"__typename": "Query"}) {
                        Ok(())
                    } else {
                        Err(format!("{d}"))
                    }
                }
            };
            if let Err(e) = res {
                return bad("wrong-data", e);
            }
        }
    }
    None
}
