//! Showcased configurations: read anew for each request, and on their own.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

const MS: u64 = 1_000_000;
const HEADS: [&str; 2] = ["x-left", "x-right"];

/// what stands at a URL
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Copy)]
pub enum Kind {
    Good,
    NoSdl,
    NoType,
    Missing,
    Cut,
    /// good but for a link to a file of the server
    LinksFile,
    /// good, and linked to another URL
    LinksUrl,
}
/// what the request asks the server to show
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Target {
    /// the server's own
    Own,
    Site(u8),
    Nothing,
    /// a file of the server: relative, absolute, as a URL, with a drive
    File(u8),
    /// GET instead of POST
    Get(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// (query, id)
    Read(u8, u32),
    Put,
    Broken,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Step {
    pub wait: u64,
    pub target: Target,
    pub op: Op,
    pub heads: Vec<(u8, u8)>,
    /// a new version of the site is put in its place instead
    #[serde(default)]
    pub publish: bool,
    #[serde(default)]
    pub cancel: Option<u64>,
}
/// of a site
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Site {
    /// bit per name
    pub allowed: u8,
    /// ms, of item and shared
    pub age: Option<u64>,
    pub dedupe: bool,
    pub batch: Option<(u64, u64)>,
    /// by version
    pub kinds: Vec<Kind>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub enabled: bool,
    /// the first is the server's own
    pub sites: Vec<Site>,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}
impl Plan {
    fn kind(&self, s: usize, v: usize) -> Kind {
        let k = &self.sites[s].kinds;
        if s == 0 || k.is_empty() {
            Kind::Good
        } else {
            k[v % k.len()]
        }
    }
    fn sdl(&self, s: usize, v: usize, kind: Kind) -> String {
        let x = &self.sites[s];
        let allowed: Vec<String> = (0..2).filter(|i| x.allowed >> i & 1 == 1).map(|i| format!("{:?}", HEADS[i])).collect();
        let batch = x.batch.map(|(d, m)| format!(", batch: {{delay: {}, maxSize: {}, headers: [{}]}}", d.max(1), m.max(1), allowed.join(", "))).unwrap_or_default();
        let cache = x.age.map(|a| format!(" @cache(maxAge: {})", a.max(1))).unwrap_or_default();
        let dedupe = if x.dedupe { ", dedupe: true" } else { "" };
        let link = match kind {
            Kind::LinksFile => " @link(src: \"/app/secret.graphql\", type: Config)".to_string(),
            Kind::LinksUrl => " @link(src: \"http://cfg/more.graphql\", type: Config)".to_string(),
            _ => String::new(),
        };
        let typ = if kind == Kind::NoType { "Nowhere" } else { "Site" };
        let show = if s == 0 { format!("showcase: {}, ", self.enabled) } else { String::new() };
        let mut t = format!(
            r#"schema @server({show}headers: {{custom: [{{key: "x-site", value: "{s}.{v}"}}]}}, vars: [{{key: "tone", value: "{s}.{v}"}}]) @upstream(allowedHeaders: [{}]{batch}){link} {{ query: Query mutation: Mutation }}
type Query {{
  item(id: Int!): Item @http(url: "http://up/item/{{{{.args.id}}}}", query: [{{key: "tone", value: "{{{{.vars.tone}}}}"}}]{dedupe}){cache}
  shared(id: Int!): Item @http(url: "http://up/shared/{{{{.args.id}}}}"{dedupe}){cache}
  site: {typ} @expr(body: {{name: "{s}.{v}"}})
}}
type Mutation {{ put(nonce: Int!): Item @http(url: "http://up/put/{{{{.args.nonce}}}}", method: POST, query: [{{key: "tone", value: "{{{{.vars.tone}}}}"}}]) }}
type Item {{ id: Int! call: Int tone: String left: String right: String }}
type Site {{ name: String item: Item @http(url: "http://up/item/7", query: [{{key: "tone", value: "{{{{.vars.tone}}}}"}}]{dedupe}){cache} }}
"#,
            allowed.join(", ")
        );
        match kind {
            Kind::NoSdl => t = "This is not a schema".into(),
            Kind::Cut => t.truncate(t.len() * 2 / 3),
            _ => {}
        }
        t
    }
}
const FILES: [&str; 5] = ["app/secret.graphql", "/app/secret.graphql", "file:///app/secret.graphql", "c:/app/secret.graphql", "./secret.graphql"];

fn percent(s: &str) -> String {
    s.bytes().map(|b| format!("%{b:02X}")).collect()
}
impl Step {
    fn uri(&self) -> (&'static str, String) {
        let show = |c: &str| format!("/showcase/graphql?config={}", percent(c));
        match &self.target {
            Target::Own => ("POST", "/graphql".into()),
            Target::Site(s) => ("POST", show(&format!("http://cfg/{s}.graphql"))),
            Target::Nothing => ("POST", "/showcase/graphql?other=1".into()),
            Target::File(n) => ("POST", show(FILES[*n as usize % FILES.len()])),
            Target::Get(s) => ("GET", show(&format!("http://cfg/{s}.graphql"))),
        }
    }
    fn body(&self, nonce: usize) -> String {
        let item = "{ id call tone left right }";
        let doc = match &self.op {
            Op::Read(q, id) => {
                let q = match q % 5 {
                    0 => format!("query ($id: Int!) {{ item(id: $id) {item} site {{ name }} }}"),
                    1 => "query ($id: Int!) { site { name } }".replace("($id: Int!) ", ""),
                    2 => format!("query ($id: Int!) {{ shared(id: $id) {item} site {{ name }} }}"),
                    3 => format!("{{ site {{ name item {item} }} }}"),
                    _ => format!("query ($id: Int!) {{ shared(id: $id) {item} item(id: $id) {item} }}"),
                };
                json!({"query": q, "variables": {"id": id}})
            }
            Op::Put => json!({"query": format!("mutation {{ put(nonce: {nonce}) {item} }}")}),
            Op::Broken => return "{\"query\": {\"foo\": 1}}".into(),
        };
        doc.to_string()
    }
    fn value(&self, h: usize) -> Option<String> {
        self.heads.iter().find(|x| x.0 as usize == h).map(|x| format!("v{}", x.1))
    }
}
#[derive(Default)]
struct Store {
    /// of each site: when a version came
    published: BTreeMap<usize, Vec<At>>,
}
impl Store {
    fn now(&self, s: usize) -> usize {
        self.published.get(&s).map_or(0, |v| v.len())
    }
}
fn answer(p: &Plan, c: &MCall, st: &Mutex<Store>) -> Option<Ans> {
    let text = |t: String| Some(Ans { heads: vec![], body: t.into_bytes() });
    let segs = c.segs();
    if c.url.starts_with("http://cfg/") {
        if segs == ["more.graphql"] {
            return text("type More { name: String }".into());
        }
        let s: usize = segs.first()?.strip_suffix(".graphql")?.parse().ok()?;
        if s == 0 || s >= p.sites.len() {
            return None;
        }
        let v = st.lock().unwrap().now(s);
        return match p.kind(s, v) {
            Kind::Missing => None,
            k => text(p.sdl(s, v, k)),
        };
    }
    let id: u32 = segs.get(1)?.parse().ok()?;
    let tone = c.query.iter().find(|q| q.0 == "tone").map(|q| q.1.clone());
    Ans::json(json!({"id": id, "call": c.n, "tone": tone, "left": c.headers.get(HEADS[0]), "right": c.headers.get(HEADS[1])}))
}
struct Req {
    step: Step,
    nonce: usize,
    inv: At,
    ret: At,
    calm: bool,
    reply: Option<Result<Reply, String>>,
}

pub struct ShowScenario;
impl Scenario for ShowScenario {
    fn id(&self) -> &'static str {
        "C36"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            8_000
        } else {
            250_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws the server's own and several showcased configurations with like fields, their versions over time, broken ones, and users that ask for them; it is non-trivial when requests for two configurations with data overlapped, or \
         one came after another had been answered from an earlier version, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["request handler, showcase route", "configuration reader, resource reader, blueprint", "application context, jit, data loader, dedupe", "@cache over the in-memory cache"],
            vec!["configuration host and upstream (simulated HttpIO)", "files (simulated, reads are recorded)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "client_disconnect", "broken_configuration", "replaced_configuration"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let sites: Vec<Site> = (0..r.range(2, 4))
            .map(|_| Site {
                allowed: r.below(4) as u8,
                age: if r.chance(0.4) { Some(*r.pick(&[1, 5, 20, 100, 100_000])) } else { None },
                dedupe: r.chance(0.5),
                batch: if r.chance(0.3) { Some((*r.pick(&[1, 2, 5]), *r.pick(&[1, 2, 100]))) } else { None },
                kinds: (0..r.range(1, 4))
                    .map(|_| if r.chance(0.6) { Kind::Good } else { *r.pick(&[Kind::NoSdl, Kind::NoType, Kind::Missing, Kind::Cut, Kind::LinksFile, Kind::LinksUrl]) })
                    .collect(),
            })
            .collect();
        let n = sites.len() as u64;
        let reads: Vec<Op> = (0..r.range(1, 2)).map(|_| Op::Read(r.below(5) as u8, r.range(1, 3) as u32)).collect();
        let heads: Vec<Vec<(u8, u8)>> = (0..2).map(|_| [0u8, 1].into_iter().filter_map(|h| r.chance(0.6).then(|| (h, r.below(2) as u8))).collect()).collect();
        let clients = (0..r.range(2, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(1, 4))
                    .map(|_| {
                        let s = r.below(n) as u8;
                        let target = match r.below(20) {
                            0 => Target::Nothing,
                            1 | 2 => Target::File(r.below(5) as u8),
                            3 => Target::Get(s),
                            _ if s == 0 => Target::Own,
                            _ => Target::Site(s),
                        };
                        Step {
                            wait: *r.pick(&[0, 0, 0, 1, 2, 5, 20]) * unit,
                            publish: r.chance(0.12) && matches!(target, Target::Site(_)),
                            target,
                            op: match r.below(12) {
                                0 => Op::Put,
                                1 => Op::Broken,
                                _ => r.pick(&reads).clone(),
                            },
                            heads: r.pick(&heads).clone(),
                            cancel: if r.chance(0.06) { Some(r.below(6) * unit) } else { None },
                        }
                    })
                    .collect()
            })
            .collect();
        let mut up = draw_mini(r, 0.25);
        for l in &mut up.lat {
            *l = *r.pick(&[0, 0, 1, 2, 5]) * unit;
        }
        serde_json::to_value(Plan { sched: SchedCfg::draw(r, 4), enabled: r.chance(0.9), sites, up, clients }).unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let mut out_of_range = p.sites.is_empty();
        out_of_range |= p.clients.iter().flatten().any(|s| matches!(s.target, Target::Site(n) | Target::Get(n) if n as usize >= p.sites.len()));
        if out_of_range {
            return RunOut { violation: None, nontrivial: false, report: simrt::world::run(&cfg, replay, || async {}).2, faults: Default::default(), sample: json!({}) };
        }
        let env = SimEnv::default();
        let main = vec![("/app/main.graphql".to_string(), p.sdl(0, 0, Kind::Good))];
        let (b, e) = prepared_at(&main, &env, "/app/main.graphql").expect("configuration");
        let store = Arc::new(Mutex::new(Store::default()));
        let (st2, p3) = (store.clone(), p.clone());
        let up = Mini::new(p.up.clone(), move |c| answer(&p3, c, &st2));
        let reqs = Log::<Arc<Req>>::default();
        let file = SimFile::default();
        for f in FILES {
            file.files.lock().unwrap().insert(f.into(), p.sdl(0, 99, Kind::Good));
        }
        let (u2, r2, p2, st2, f2) = (up.clone(), reqs.clone(), p.clone(), store.clone(), file.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), f2, env, (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let nonce = Arc::new(Mutex::new(1usize));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, f, nonce, st2) = (app.clone(), r2.clone(), u2.faults.clone(), nonce.clone(), st2.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for st in steps {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        if let (true, Target::Site(s)) = (st.publish, &st.target) {
                            let now = at();
                            st2.lock().unwrap().published.entry(*s as usize).or_default().push(now);
                            simrt::event(|| format!("site {s} is replaced at {now:?}"));
                            fault(&f, "replaced_configuration");
                            continue;
                        }
                        ask(&app, &r2, &f, st, &nonce, false).await;
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
            *u2.quiet.lock().unwrap() = true;
            let f = u2.faults.clone();
            for st in p2.clients.into_iter().flatten().filter(|s| !s.publish).take(4) {
                ask(&app, &r2, &f, Step { cancel: None, wait: 0, ..st }, &nonce, true).await;
            }
        });
        let mut faults = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let broken = calls.iter().filter(|c| c.url.starts_with("http://cfg/") && c.failed()).count() as u64;
        if broken > 0 {
            *faults.entry("broken_configuration".into()).or_default() += broken;
        }
        let mut v = end_violation(&end);
        let mut full = 0;
        if v.is_none() {
            v = judge(&p, &reqs, &calls, &store.lock().unwrap(), &file.reads.take(), &mut full);
        }
        let data = |r: &Req| matches!(&r.reply, Some(Ok(x)) if x.json()["data"].is_object());
        let site = |r: &Req| match r.step.target {
            Target::Own => 0,
            Target::Site(s) => s,
            _ => 99,
        };
        let st = store.lock().unwrap();
        let nontrivial = reqs.iter().any(|a| {
            data(a)
                && reqs.iter().any(|b| {
                    data(b) && (site(a) != site(b) && a.inv.s < b.ret.s && b.inv.s < a.ret.s)
                        || data(b) && site(a) == site(b) && st.published.get(&(site(a) as usize)).is_some_and(|v| v.iter().any(|t| a.ret.s < t.s && t.s < b.inv.s))
                })
        });
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "with_data": full, "calls": calls.len()}) }
    }
}
async fn ask(app: &Arc<AppContext>, log: &Log<Arc<Req>>, f: &Faults, st: Step, nonce: &Mutex<usize>, calm: bool) {
    let n = {
        let mut n = nonce.lock().unwrap();
        *n += 1;
        *n
    };
    let (method, uri) = st.uri();
    let body = if method == "GET" { String::new() } else { st.body(n) };
    let heads: Vec<(String, String)> = (0..2).filter_map(|h| st.value(h).map(|v| (HEADS[h].to_string(), v))).collect();
    let app = app.clone();
    let inv = at();
    simrt::event(|| format!("request at {inv:?}: {method} {uri} {:?} {heads:?} {body}", st.target));
    let out = cancellable(async move { send(app, method, &uri, &heads, body, false).await }, st.cancel).await;
    let ret = at();
    let reply = match out {
        Ok(r) => Some(r),
        Err(e) if e.is_cancelled() => {
            fault(f, "client_disconnect");
            None
        }
        Err(e) => Some(Err(format!("panic: {e:?}"))),
    };
    simrt::event(|| format!("reply at {ret:?}: {reply:?}"));
    log.push(Arc::new(Req { step: st, nonce: n, inv, ret, calm, reply }));
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall], st: &Store, reads: &[String], full: &mut usize) -> Option<Violation> {
    if let Some(f) = reads.first() {
        return Some(Violation::new("file-read", format!("the file {f:?} of the server was read for a showcased configuration")));
    }
    let is_cfg = |c: &MCall| c.url.starts_with("http://cfg/");
    let may_fail = p.up.fail.iter().any(|f| *f != 0);
    let site_of = |r: &Req| match r.step.target {
        Target::Own => Some(0usize),
        Target::Site(s) if p.enabled => Some(s as usize),
        _ => None,
    };
    // the versions of a site that were there at some moment of a request
    let versions = |s: usize, r: &Req| -> Vec<usize> {
        let none = vec![];
        let l = if s == 0 { &none } else { st.published.get(&s).unwrap_or(&none) };
        (0..=l.len()).filter(|v| (*v == 0 || l[v - 1].s < r.ret.s) && (*v == l.len() || l[*v].s > r.inv.s)).collect()
    };
    let good = |k: Kind| matches!(k, Kind::Good | Kind::LinksUrl);
    let mut put = BTreeMap::<usize, usize>::new();
    for c in calls.iter().filter(|c| !is_cfg(c)) {
        let segs = c.segs();
        if segs[0] == "put" {
            *put.entry(segs[1].parse().unwrap_or(0)).or_default() += 1;
        }
        // someone needs it
        let tone = c.query.iter().find(|q| q.0 == "tone").map(|q| q.1.as_str());
        let needs = |r: &&Arc<Req>| {
            let Some(s) = site_of(r) else { return false };
            let id: u32 = segs.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            let what = match &r.step.op {
                Op::Read(q, i) => match q % 5 {
                    0 => segs[0] == "item" && id == *i,
                    2 => segs[0] == "shared" && id == *i,
                    3 => segs[0] == "item" && id == 7,
                    4 => (segs[0] == "item" || segs[0] == "shared") && id == *i,
                    _ => false,
                },
                Op::Put => segs[0] == "put" && id as usize == r.nonce,
                Op::Broken => false,
            };
            let tones = versions(s, r).into_iter().filter(|v| good(p.kind(s, *v))).any(|v| tone.is_none() && segs[0] == "shared" || tone == Some(&format!("{s}.{v}")));
            let heads = (0..2).all(|h| c.headers.get(HEADS[h]).cloned() == r.step.value(h).filter(|_| p.sites[s].allowed >> h & 1 == 1));
            // a batch may leave after its user is gone
            let late = p.sites[s].batch.map_or(0, |b| b.0.max(1) * MS) + 60 * MS;
            what && tones && heads && r.inv.s <= c.start.s && (c.start.s <= r.ret.s || r.reply.is_none() && c.start.t <= r.ret.t + late)
        };
        if !reqs.iter().any(|r| needs(&r)) {
            return Some(Violation::new("unneeded-call", format!("nobody needs call {} {} {} {:?}", c.n, c.method, c.url, c.headers)));
        }
    }
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, t: String| Some(Violation::new(c, format!("{t}\nrequest {:?} at {:?}..{:?}\nreply {reply:?}", r.step, r.inv, r.ret)));
        let x = match reply {
            Ok(x) => x,
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let body = x.json();
        let showcase = r.step.target != Target::Own;
        if matches!(r.step.target, Target::Get(_)) || showcase && !p.enabled {
            if x.status != 404 {
                return bad("wrong-route", "there is nothing at this route".into());
            }
            continue;
        }
        if x.status != 200 {
            return bad("wrong-status", "not a GraphQL response".into());
        }
        let errors = body["errors"].as_array().is_some_and(|e| !e.is_empty());
        if errors && !body["data"].is_null() {
            return bad("data-with-errors", "both data and errors".into());
        }
        if !errors && !body["data"].is_object() {
            return bad("no-answer", "neither data nor errors".into());
        }
        let Some(s) = site_of(r) else {
            if !errors {
                return bad("not-refused", "there is no configuration at a URL".into());
            }
            continue;
        };
        let vs = versions(s, r);
        if errors {
            let broken = vs.iter().any(|v| !good(p.kind(s, *v))) || r.step.op == Op::Broken;
            if !broken && (r.calm || !may_fail) {
                return bad("unexplained-error", "nothing failed".into());
            }
            continue;
        }
        if r.step.op == Op::Broken {
            return bad("not-refused", "the request is none".into());
        }
        *full += 1;
        // everything is of one version, that was there
        let data = &body["data"];
        let heads = x.header("x-site");
        let [name] = heads[..] else { return bad("wrong-headers", "not the header of one configuration".into()) };
        let Some(v) = vs.iter().find(|v| format!("{s}.{v}") == name) else {
            return bad("wrong-configuration", format!("the answer is of configuration {name:?}, there were {vs:?} of {s}"));
        };
        if !good(p.kind(s, *v)) {
            return bad("not-refused", format!("configuration {name} is {:?}", p.kind(s, *v)));
        }
        let site = &p.sites[s];
        let item = |got: &Value, kind: &str, id: u32| -> Result<(), (&'static str, String)> {
            let tone = if kind == "shared" { Value::Null } else { json!(name) };
            let head = |h: usize| r.step.value(h).filter(|_| site.allowed >> h & 1 == 1).map_or(Value::Null, Value::from);
            if got["id"] != json!(id) || got["tone"] != tone || got["left"] != head(0) || got["right"] != head(1) {
                return Err(("wrong-data", format!("{got} is not {kind} {id} of {name} under these headers")));
            }
            let Some(c) = got["call"].as_u64().and_then(|n| calls.get(n as usize)).filter(|c| !is_cfg(c) && c.segs()[0] == kind && !c.failed()) else {
                return Err(("wrong-data", format!("{got} comes from no call")));
            };
            if c.start.s > r.ret.s {
                return Err(("wrong-data", format!("{got} comes from a later call")));
            }
            if kind == "put" {
                return Ok(());
            }
            // the least moment whose work it may share
            let mut low = r.inv;
            if site.dedupe && s == 0 {
                loop {
                    let next = reqs.iter().filter(|x| site_of(x) == Some(0) && x.inv.s <= low.s && low.s <= x.ret.s).map(|x| x.inv).fold(low, |a, b| if b.s < a.s { b } else { a });
                    if next == low {
                        break;
                    }
                    low = next;
                }
            }
            let age = site.age.map_or(0, |a| a.max(1) * MS);
            // who made an entry of it was there when it ended, and for as long as it took
            let kept = || reqs.iter().any(|x| site_of(x) == Some(s) && x.inv.s <= c.end.s && c.end.s <= x.ret.s && x.ret.t.saturating_add(age) >= low.t);
            if c.start.s < low.s && !(age > 0 && kept()) {
                return Err(("stale", format!("{got} is of call {} at {:?}..{:?}, nothing before {low:?} but for {age} ns", c.n, c.start, c.end)));
            }
            Ok(())
        };
        let named = |got: &Value| if got["name"] == json!(name) { Ok(()) } else { Err(("wrong-configuration", format!("{got} is not of {name}"))) };
        let res = match &r.step.op {
            Op::Read(q, id) => match q % 5 {
                0 => item(&data["item"], "item", *id).and_then(|_| named(&data["site"])),
                1 => named(&data["site"]),
                2 => item(&data["shared"], "shared", *id).and_then(|_| named(&data["site"])),
                3 => named(&data["site"]).and_then(|_| item(&data["site"]["item"], "item", 7)),
                _ => item(&data["item"], "item", *id).and_then(|_| item(&data["shared"], "shared", *id)),
            },
            _ if put.get(&r.nonce) != Some(&1) => Err(("mutation-count", format!("sent {:?} times", put.get(&r.nonce)))),
            _ => item(&data["put"], "put", r.nonce as u32),
        };
        if let Err((c, e)) = res {
            return bad(c, e);
        }
    }
    if let Some((n, k)) = put.iter().find(|x| *x.1 > 1) {
        return Some(Violation::new("mutation-count", format!("mutation {n} was sent {k} times")));
    }
    None
}
