//! What goes out with a call: the headers of its template and, of a client's headers,
//! exactly those that are allowed; calls share a batch only if the headers of the batch agree.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

/// client headers; some are prefixes of others
const NAMES: [&str; 7] = ["x-a", "x-ab", "x-a-b", "tenant", "authorization", "cookie", "accept-language"];
/// names a template can hold
const PLAIN: [&str; 3] = ["authorization", "cookie", "tenant"];
const FIELDS: [&str; 7] = ["item", "post", "gql", "via", "part", "note", "remark"];

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Head {
    name: u8,
    values: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Tmpl {
    /// of FIELDS
    field: u8,
    /// 0 literal, 1 env, 2 var, 3 argument or parent, 4 client header, 5 several
    kind: u8,
    of: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Pick {
    /// 0 item, 1 post, 2 gql, 3 via
    root: u8,
    /// 0 absent, 1 null, else a text
    tag: u8,
    /// bits: part, note, remark
    below: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Step {
    wait: u64,
    heads: Vec<Head>,
    picks: Vec<Pick>,
    cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    sched: SchedCfg,
    /// of NAMES, with a way to write it: 0 small, 1 capitals, 2 first letters
    allowed: Vec<(u8, u8)>,
    tmpls: Vec<Tmpl>,
    batch: Option<(u64, u64)>,
    /// of NAMES (0..7) and template headers (100..), with a way to write it
    batch_heads: Vec<(u8, u8)>,
    part_batched: bool,
    gql_batched: bool,
    /// 0 plain, 1 env, 2 var
    host: u8,
    up: MiniPlan,
    clients: Vec<Vec<Step>>,
}
fn cased(s: &str, how: u8) -> String {
    match how % 3 {
        0 => s.into(),
        1 => s.to_uppercase(),
        _ => s.split('-').map(|w| w[..1].to_uppercase() + &w[1..]).collect::<Vec<_>>().join("-"),
    }
}
fn tmpl_name(i: usize) -> String {
    format!("t-{i}")
}
impl Plan {
    fn batching(&self) -> bool {
        self.batch.is_some_and(|(d, m)| d >= 1 && m >= 1)
    }
    fn is_batched(&self, f: usize) -> bool {
        self.batching()
            && match f {
                4 => self.part_batched,
                5 => self.gql_batched,
                _ => false,
            }
    }
    /// equal requests with equal headers of the batch may be one call
    fn loaded(&self, f: usize) -> bool {
        self.is_batched(f) || f == 4 && self.batching()
    }
    fn allows(&self, name: &str) -> bool {
        self.allowed.iter().any(|a| NAMES[a.0 as usize % NAMES.len()] == name)
    }
    /// names in small letters
    fn batch_names(&self) -> BTreeSet<String> {
        self.batch_heads
            .iter()
            .map(|b| if b.0 >= 100 { tmpl_name(b.0 as usize - 100) } else { NAMES[b.0 as usize % NAMES.len()].to_string() })
            .collect()
    }
    fn templates(&self, field: usize) -> Vec<(String, &Tmpl)> {
        self.tmpls.iter().enumerate().filter(|t| t.1.field as usize % FIELDS.len() == field).map(|(i, t)| (tmpl_name(i), t)).collect()
    }
    fn template(&self, field: usize, t: &Tmpl) -> String {
        let client = PLAIN[t.of as usize % PLAIN.len()];
        match t.kind % 6 {
            0 => format!("fixed {}", t.of),
            1 => "{{.env.TOKEN}}".into(),
            2 => "{{.vars.name}}".into(),
            // a batch has one header for all its keys
            3 if self.is_batched(field) => "of batch".into(),
            3 if field >= 4 => (if t.of % 2 == 0 { "{{.value.tag}}" } else { "{{.value._tag}}" }).into(),
            3 => "{{.args.tag}}".into(),
            4 => format!("pre {{{{.headers.{client}}}}}"),
            _ => "a {{.env.TOKEN}} {{.vars.name}}".into(),
        }
    }
    fn filled(&self, field: usize, t: &Tmpl, r: &Req, own: &str) -> String {
        let client = PLAIN[t.of as usize % PLAIN.len()];
        match t.kind % 6 {
            0 => format!("fixed {}", t.of),
            1 => "secret token".into(),
            2 => "of vars".into(),
            3 if self.is_batched(field) => "of batch".into(),
            3 => own.into(),
            4 => format!("pre {}", if self.allows(client) { r.heads().get(client).map(|v| v[0].clone()).unwrap_or_default() } else { String::new() }),
            _ => "a secret token of vars".into(),
        }
    }
    fn files(&self) -> Vec<(String, String)> {
        let host = match self.host % 3 {
            0 => "http://up",
            1 => "http://{{.env.HOST}}",
            _ => "http://{{.vars.host}}",
        };
        let heads = |f: usize| {
            let t: Vec<String> = self.templates(f).iter().map(|(n, t)| format!("{{key: \"{n}\", value: {}}}", json!(self.template(f, t)))).collect();
            if t.is_empty() { String::new() } else { format!(", headers: [{}]", t.join(", ")) }
        };
        let part = if self.is_batched(4) {
            format!(r#"@http(url: "{host}/parts", query: [{{key: "id", value: "{{{{.value.group}}}}"}}], batchKey: ["id"]{})"#, heads(4))
        } else {
            format!(r#"@http(url: "{host}/part/{{{{.value.group}}}}"{})"#, heads(4))
        };
        let gb = if self.is_batched(5) { ", batch: true" } else { "" };
        let sdl = format!(
            r#"schema {{ query: Query }}
type Query {{
  item(id: Int!, tag: String): Item @http(url: "{host}/item/{{{{.args.id}}}}", query: [{{key: "s", value: "{{{{.args.tag}}}}", skipEmpty: true}}, {{key: "e", value: "{{{{.args.tag}}}}"}}]{})
  post(id: Int!, tag: String): Item @http(url: "{host}/post", method: POST, body: "{{{{.args}}}}"{})
  gql(id: Int!, tag: String): Item @graphQL(url: "http://up/graphql", name: "thing", args: [{{key: "id", value: "{{{{.args.id}}}}"}}]{})
  via(id: Int!, tag: String): Item @call(steps: [{{query: "call", args: {{id: "{{{{.args.id}}}}", tag: "{{{{.args.tag}}}}"}}}}])
  call(id: Int!, tag: String): Item @http(url: "{host}/call/{{{{.args.id}}}}"{})
}}
type Item {{
  id: Int!
  n: Int
  tag: String
  _tag: String
  group: Int!
  part: Row {part}
  note: Row @graphQL(url: "http://up/graphql", name: "note", args: [{{key: "id", value: "{{{{.value.id}}}}"}}]{gb}{})
  remark: Row @http(url: "{host}/remark", method: POST, body: {{id: "{{{{.value.id}}}}"}}{})
}}
type Row {{ id: Int! n: Int }}
"#,
            heads(0), heads(1), heads(2), heads(3), heads(5), heads(6)
        );
        let name = |b: &(u8, u8)| cased(&if b.0 >= 100 { tmpl_name(b.0 as usize - 100) } else { NAMES[b.0 as usize % NAMES.len()].into() }, b.1);
        let mut up = json!({"allowedHeaders": self.allowed.iter().map(name).collect::<Vec<_>>()});
        if let Some((d, m)) = self.batch {
            up["batch"] = json!({"delay": d, "maxSize": m, "headers": self.batch_heads.iter().map(name).collect::<Vec<_>>()});
        }
        let cfg = json!({"server": {"vars": [{"key": "TOKEN", "value": "of vars"}, {"key": "name", "value": "of vars"}, {"key": "host", "value": "up"}]}, "upstream": up,
            "links": [{"src": "/app/schema.graphql", "type": "Config"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl)]
    }
}
fn text_of(tag: u8) -> Option<String> {
    match tag {
        0 | 1 => None,
        n => Some(format!("tag {n}")),
    }
}
fn env() -> SimEnv {
    SimEnv([("name".to_string(), "of env".to_string()), ("TOKEN".to_string(), "secret token".to_string()), ("HOST".to_string(), "up".to_string())].into())
}
#[derive(Clone)]
struct Req {
    n: usize,
    step: Step,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
impl Step {
    fn sent(&self) -> Vec<(String, String)> {
        let mut seen = BTreeSet::new();
        let mut out = vec![];
        for h in &self.heads {
            let name = NAMES[h.name as usize % NAMES.len()];
            if seen.insert(name) {
                let how = h.values.first().copied().unwrap_or(0);
                out.extend(h.values.iter().map(|v| (cased(name, how), format!("{name} {v}"))));
            }
        }
        out
    }
}
impl Req {
    fn heads(&self) -> BTreeMap<String, Vec<String>> {
        let mut m = BTreeMap::<String, Vec<String>>::new();
        for (k, v) in self.step.sent() {
            m.entry(k.to_lowercase()).or_default().push(v);
        }
        m
    }
}
/// the id of the i-th field of request n
fn id_of(n: usize, i: usize) -> u64 {
    (n * 10 + i + 1) as u64
}
fn text(n: usize, picks: &[Pick]) -> String {
    let mut s = String::new();
    for (i, p) in picks.iter().enumerate() {
        let tag = match p.tag {
            0 => String::new(),
            1 => ", tag: null".into(),
            _ => format!(", tag: {}", json!(text_of(p.tag).unwrap())),
        };
        let mut sub = String::new();
        for (b, f) in ["part", "note", "remark"].iter().enumerate() {
            if p.below >> b & 1 == 1 {
                sub += &format!(" {f} {{ id n }}");
            }
        }
        s += &format!(" f{i}: {}(id: {}{tag}) {{ id n{sub} }}", FIELDS[p.root as usize % 4], id_of(n, i));
    }
    format!("{{{s} }}")
}
/// several items are of one group
fn group(id: u64) -> u64 {
    id % 3 + 1
}
/// the ids after "id:" in a GraphQL query
fn gql_ids(q: &str) -> Vec<u64> {
    q.split("(id:").skip(1).filter_map(|x| x.trim().chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok()).collect()
}
/// the field a call is for and its ids
fn meant(c: &MCall) -> Option<(usize, Vec<u64>)> {
    let s = c.segs();
    let id = || s.get(1).and_then(|x| x.parse().ok()).map(|x| vec![x]);
    let bid = || c.body["id"].as_u64().or_else(|| c.body["id"].as_str()?.parse().ok()).map(|x| vec![x]);
    Some(match s[0] {
        "item" => (0, id()?),
        "post" => (1, bid()?),
        "call" => (3, id()?),
        "part" => (4, id()?),
        "remark" => (6, bid()?),
        "parts" => (4, c.query.iter().filter(|q| q.0 == "id").filter_map(|q| q.1.parse().ok()).collect()),
        "graphql" => {
            let qs: Vec<String> = match &c.body {
                Value::Array(a) => a.iter().map(|b| b["query"].as_str().unwrap_or("").to_string()).collect(),
                b => vec![b["query"].as_str().unwrap_or("").to_string()],
            };
            (if qs.iter().all(|q| q.contains("thing")) { 2 } else { 5 }, qs.iter().flat_map(|q| gql_ids(q)).collect())
        }
        _ => return None,
    })
}
fn answer(c: &MCall) -> Option<Ans> {
    let (f, ids) = meant(c)?;
    // an item's tag names the call it came from
    let obj = |id: &u64| json!({"id": id, "n": c.n, "group": group(*id), "tag": format!("of {}", c.n), "_tag": format!("of {}", c.n)});
    let first = ids.first()?;
    Ans::json(match f {
        2 | 5 => {
            let one = |b: &Value| {
                let q = b["query"].as_str().unwrap_or("");
                let id = gql_ids(q).first().copied().unwrap_or(0);
                json!({"data": {if q.contains("thing") { "thing" } else { "note" }: obj(&id)}})
            };
            if let Value::Array(a) = &c.body { Value::Array(a.iter().map(one).collect()) } else { one(&c.body) }
        }
        4 if c.path == "/parts" => Value::Array(ids.iter().map(obj).collect()),
        _ => obj(first),
    })
}

pub struct SendsScenario;
impl Scenario for SendsScenario {
    fn id(&self) -> &'static str {
        "C35"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            8_000
        } else {
            250_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws the allowed headers and the headers of the batch (each written in its own way), header templates from constants, environment, vars, arguments, parents and client \
         headers for seven ways to reach an upstream, batching, and clients whose requests carry allowed, forbidden and similarly named headers with one or several values; it is non-trivial \
         when calls of at least two requests went out with different headers, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["http::request_handler (allowed headers)", "http and graphql request templates, mustache", "data loaders, DataLoaderRequest", "jit executor, IR eval, @call steps", "config reader, blueprint"],
            vec!["upstream service (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)", "environment (simulated EnvIO)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let k = NAMES.len() as u64;
        let tmpls: Vec<Tmpl> = (0..r.range(0, 9)).map(|_| Tmpl { field: r.below(FIELDS.len() as u64) as u8, kind: r.below(6) as u8, of: r.below(k) as u8 }).collect();
        let allowed: Vec<(u8, u8)> = (0..k as u8).filter_map(|n| if r.chance(0.5) { Some((n, r.below(3) as u8)) } else { None }).collect();
        let full = r.chance(0.4);
        let batch_heads = (0..k as u8)
            .chain((0..tmpls.len() as u8).map(|i| 100 + i))
            .filter_map(|n| if full || r.chance(0.4) { Some((n, r.below(3) as u8)) } else { None })
            .collect();
        // a few values, so that users have some headers in common
        let heads = |r: &mut Rng| {
            (0..k as u8)
                .filter_map(|n| if r.chance(0.55) { Some(Head { name: n, values: (0..if r.chance(0.15) { 2 } else { 1 }).map(|_| r.below(3) as u8).collect() }) } else { None })
                .collect::<Vec<_>>()
        };
        let clients = (0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                let usual = heads(r);
                (0..r.range(1, 3))
                    .map(|_| Step {
                        wait: *r.pick(&[0, 0, 0, 1, 2]) * unit,
                        heads: if r.chance(0.6) { usual.clone() } else { heads(r) },
                        picks: (0..r.range(1, 4)).map(|_| Pick { root: r.below(4) as u8, tag: r.below(5) as u8, below: r.below(8) as u8 }).collect(),
                        cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            allowed,
            tmpls,
            batch: if r.chance(0.7) { Some((r.range(1, 4) as u64, *r.pick(&[1, 2, 5, 100]))) } else { None },
            batch_heads,
            part_batched: r.chance(0.8),
            gql_batched: r.chance(0.7),
            host: r.below(3) as u8,
            up: draw_mini(r, 0.1),
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let (b, e) = prepared(&p.files(), &env()).unwrap_or_else(|e| panic!("configuration: {e:?}\n{:#?}", p.files()));
        let up = Mini::new(p.up.clone(), answer);
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), env(), (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let ids = Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, ids, f) = (app.clone(), r2.clone(), ids.clone(), u2.faults.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for mut st in steps {
                        if st.picks.is_empty() {
                            st.picks = vec![Pick::default()];
                        }
                        st.picks.truncate(9);
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        let n = ids.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        let (app, headers, body) = (app.clone(), st.sent(), json!({"query": text(n, &st.picks)}).to_string());
                        let inv = at();
                        simrt::event(|| format!("request {n} at {inv:?}: {body} headers {headers:?}"));
                        let out = cancellable(async move { send(app, "POST", "/graphql", &headers, body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply {n} at {ret:?}: {reply:?}"));
                        r2.push(Arc::new(Req { n, step: st, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        let mut rich = 0;
        if v.is_none() {
            v = judge(&p, &reqs, &calls, &mut rich);
        }
        RunOut { violation: v, nontrivial: rich > 1, report, faults, sample: json!({"requests": reqs.len(), "calls": calls.len(), "different_headers": rich}) }
    }
}
type Heads = BTreeMap<String, Vec<String>>;
/// the end of a template's text may be blank
fn trim(m: &Heads) -> Heads {
    let blank = |k: &str, v: &[String]| k.starts_with("t-") && v == [""];
    m.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| x.trim().to_string()).collect::<Vec<_>>())).filter(|(k, v)| !blank(k, v)).collect()
}
fn part_of(m: &Heads, names: &BTreeSet<String>) -> Heads {
    trim(m).into_iter().filter(|(k, _)| names.contains(k)).collect()
}
/// the headers of a call to field f for request r
fn wanted(p: &Plan, f: usize, r: &Req, own: &str) -> Heads {
    let mut want: Heads = p.templates(f).into_iter().map(|(name, t)| (name, vec![p.filled(f, t, r, own)])).collect();
    for (k, v) in r.heads() {
        if p.allows(&k) {
            want.insert(k, v);
        }
    }
    if matches!(f, 1 | 2 | 5 | 6) {
        want.insert("content-type".into(), vec!["application/json".into()]);
    }
    want
}
fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall], rich: &mut u64) -> Option<Violation> {
    let parse = |id: u64| ((id as usize).wrapping_sub(1) / 10, (id as usize).wrapping_sub(1) % 10);
    let batch_names = p.batch_names();
    let mut seen = BTreeSet::new();
    for c in calls {
        let bad = |cl: &str, m: String| Some(Violation::new(cl, format!("{m}\ncall {} {} {} body {} headers {:?}", c.n, c.method, c.url, c.body, c.heads)));
        if !c.url.starts_with("http://up/") {
            return bad("url", "a call to another host".into());
        }
        let Some((f, ids)) = meant(c) else { return bad("url", "a call to another place".into()) };
        if ids.is_empty() || (ids.len() > 1 && !p.is_batched(f)) {
            return bad("url", format!("a call for {ids:?}"));
        }
        // whoever asked for it: (key, request, what its headers should be, its argument)
        let mut owners: Vec<(u64, &Req, Heads, u8)> = vec![];
        for key in &ids {
            let of: Vec<(&Req, usize)> = if f == 4 {
                reqs.iter().flat_map(|r| (0..r.step.picks.len()).map(move |i| (&**r, i))).filter(|(r, i)| group(id_of(r.n, *i)) == *key).collect()
            } else {
                reqs.iter().filter(|r| r.n == parse(*key).0 && parse(*key).1 < r.step.picks.len()).map(|r| (&**r, parse(*key).1)).collect()
            };
            let before = owners.len();
            for (r, i) in of {
                let pick = &r.step.picks[i];
                let root = pick.root as usize % 4;
                if c.start.s < r.inv.s || (f < 4 && root != f) || (f >= 4 && pick.below >> (f - 4) & 1 == 0) {
                    continue;
                }
                let own = if f >= 4 {
                    match calls.iter().take_while(|x| x.n < c.n).filter(|x| matches!(meant(x), Some((pf, pids)) if pf == root && pids.contains(&id_of(r.n, i)))).last() {
                        Some(parent) => format!("of {}", parent.n),
                        None => continue,
                    }
                } else {
                    text_of(pick.tag).unwrap_or_default()
                };
                owners.push((*key, r, wanted(p, f, r, &own), pick.tag));
            }
            if owners.len() == before {
                return bad("foreign", format!("a call for {key}, which nobody asked for"));
            }
        }
        seen.insert(format!("{:?}", c.heads));
        let got = trim(&c.heads);
        if !owners.iter().any(|o| trim(&o.2) == got) {
            let wants: Vec<_> = owners.iter().map(|o| &o.2).collect();
            return bad("headers", format!("the headers of a call for {} {ids:?} should be one of {wants:#?}", FIELDS[f]));
        }
        for key in &ids {
            let agreed = |w: &Heads| !p.loaded(f) || part_of(w, &batch_names) == part_of(&c.heads, &batch_names);
            if !owners.iter().any(|o| o.0 == *key && agreed(&o.2)) {
                let wants: Vec<_> = owners.iter().filter(|o| o.0 == *key).map(|o| part_of(&o.2, &batch_names)).collect();
                return bad("mixed-batch", format!("a batch for {ids:?} holds {key}, but the headers of the batch {batch_names:?} of those who asked for it are {wants:?}"));
            }
        }
        if f == 0 {
            let want: Vec<(String, String)> = text_of(owners[0].3).into_iter().map(|t| ("s".to_string(), t)).chain([("e".to_string(), text_of(owners[0].3).unwrap_or_default())]).collect();
            if c.query != want {
                return bad("query", format!("the query should be {want:?}, but is {:?}", c.query));
            }
        }
    }
    *rich = seen.len() as u64;
    let any_failed = calls.iter().any(|c| c.failed());
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let x = match reply {
            Ok(x) => x,
            Err(e) => return Some(Violation::new("no-reply", format!("request {} got no response: {e}", r.n))),
        };
        let bad = |cl: &str, m: String| Some(Violation::new(cl, format!("{m}\nreply to request {} ({}): {:?}", r.n, text(r.n, &r.step.picks), x)));
        let v = x.json();
        if x.status != 200 || (v["errors"] != Value::Null && !any_failed) {
            return bad("failed", "a failure that no upstream call explains".into());
        }
        if v["errors"] != Value::Null {
            continue;
        }
        for (i, pick) in r.step.picks.iter().enumerate() {
            let o = &v["data"][format!("f{i}")];
            let mut rows = vec![(pick.root as usize % 4, o)];
            for (b, name) in ["part", "note", "remark"].iter().enumerate() {
                if pick.below >> b & 1 == 1 {
                    rows.push((4 + b, &o[*name]));
                }
            }
            for (f, row) in rows {
                let Some(c) = row["n"].as_u64().and_then(|n| calls.get(n as usize)) else { return bad("data", format!("{} of f{i} is missing", FIELDS[f])) };
                let key = if f == 4 { group(id_of(r.n, i)) } else { id_of(r.n, i) };
                let mut ok = row["id"].as_u64() == Some(key) && matches!(meant(c), Some((cf, ids)) if cf == f && ids.contains(&key)) && c.start.s <= r.ret.s && c.end.s >= r.inv.s;
                if ok {
                    let own = match o["n"].as_u64() {
                        Some(n) if f >= 4 => format!("of {n}"),
                        _ => text_of(pick.tag).unwrap_or_default(),
                    };
                    let w = wanted(p, f, r, &own);
                    ok = if p.loaded(f) { part_of(&w, &batch_names) == part_of(&c.heads, &batch_names) } else { trim(&w) == trim(&c.heads) };
                }
                if !ok {
                    return bad("data", format!("{} of f{i} is from call {} {} with headers {:?}", FIELDS[f], c.n, c.url, c.heads));
                }
            }
        }
    }
    None
}
