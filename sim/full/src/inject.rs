//! Values on their way to the upstream: whatever they hold, they stay values.
use std::collections::BTreeMap;
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

const TEXT: &[&str] = &[
    "plain", "O'Brien", "a \"quoted\" one", "back\\slash", "\\", "two\nlines\ttab", "z\u{200b}w", "e\u{301} \u{1f600}", "a&v=b#c?d", "{{.args.w}}", "{{.env.SECRET}}", "{{.headers.xv}}",
    "50% + 1 %20 +", "\",\"w\":\"x", "\"}], x: [{\"", "\"){secret}", "null", "true", "1", "[1,2]", "{\"a\":1}", "$v", "\u{a0}x", "\u{2028}", "v=1", " lead and trail ", "a=b;c", "",
];
const SECRET: &str = "top-secret-value";
fn text(i: u8) -> &'static str {
    TEXT[i as usize % TEXT.len()]
}
const NUMS: &[i64] = &[0, 1, -1, 2147483647, -2147483648];
fn num(i: u8) -> i64 {
    NUMS[i as usize % NUMS.len()]
}

/// what is asked of the upstream: the values at their places
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
struct Ask {
    place: String,
    v: Vec<String>,
    w: Option<String>,
    n: Option<String>,
    /// of a directive
    t: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct F {
    /// see `KINDS`; the last one is a list with children
    pub kind: u8,
    pub v: u8,
    pub w: Option<u8>,
    pub n: Option<u8>,
    pub vs: Vec<u8>,
    /// bit per argument: by variable
    pub vars: u8,
    /// children of a row
    #[serde(default)]
    pub kids: Vec<u8>,
    /// text of a directive that goes to a GraphQL upstream
    #[serde(default)]
    pub tag: Option<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub fields: Vec<F>,
    /// the header
    pub xv: u8,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub dedupe: bool,
    pub cache: bool,
    pub batch: (u64, u64),
    /// texts of the rows
    pub rows: Vec<u8>,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}
const KINDS: &[&str] = &["q", "b", "f", "g", "h", "o", "l", "outer", "u", "m", "rows"];
const KIDS: &[&str] = &["cq", "cb", "cg", "rq", "rb"];

impl Plan {
    fn files(&self) -> Vec<(String, String)> {
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let c = if self.cache { " @cache(maxAge: 50)" } else { "" };
        let sdl = r#"schema { query: Query mutation: Mutation }
type Query {
  q(v: String!, w: String, n: Int): Echo @http(url: "http://up/q", query: [{key: "v", value: "{{.args.v}}"}, {key: "w", value: "{{.args.w}}"}, {key: "n", value: "{{.args.n}}"}]DD)CC
  b(v: String!, w: String, n: Int): Echo @http(url: "http://up/b", method: POST, body: {v: "{{.args.v}}", w: "{{.args.w}}", n: "{{.args.n}}", deep: [{v: "<{{.args.v}}>"}]}DD)CC
  f(v: String!, w: String, n: Int): Echo @http(url: "http://up/f", method: POST, encoding: ApplicationXWwwFormUrlencoded, body: {v: "{{.args.v}}", w: "{{.args.w}}", n: "{{.args.n}}"}DD)CC
  g(v: String!, w: String, n: Int): Echo @graphQL(url: "http://up/graphql", name: "g", args: [{key: "v", value: "{{.args.v}}"}, {key: "w", value: "{{.args.w}}"}, {key: "n", value: "{{.args.n}}"}]DD)CC
  h(v: String!): Echo @http(url: "http://up/h", headers: [{key: "x-v", value: "{{.args.v}}"}]DD)CC
  o(i: In!): Echo @http(url: "http://up/o", method: POST, body: "{{.args.i}}"DD)CC
  l(vs: [String!]!): Echo @http(url: "http://up/l", query: [{key: "v", value: "{{.args.vs}}"}]DD)CC
  outer: Outer @graphQL(url: "http://up/graphql", name: "outer"DD)CC
  u: Echo @graphQL(url: "http://up/graphql", name: "u", args: [{key: "v", value: "{{.headers.xv}}"}]DD)CC
  rows: [Row] @http(url: "http://up/rows"DD)CC
}
type Mutation {
  m(v: String!, w: String, n: Int): Echo @http(url: "http://up/m", method: POST, body: {v: "{{.args.v}}", w: "{{.args.w}}", n: "{{.args.n}}"})
}
input In { v: String! w: String n: Int }
type Outer { sub(v: String!, w: String, n: Int): Echo }
type Echo { v: JSON w: String n: String rev: Int }
type Row {
  v: String
  cq: Echo @http(url: "http://up/q", query: [{key: "v", value: "{{.value.v}}"}]DD)CC
  cb: Echo @http(url: "http://up/b", method: POST, body: {v: "{{.value.v}}", deep: [{v: "<{{.value.v}}>"}]}DD)CC
  cg: Echo @graphQL(url: "http://up/graphql", name: "g", args: [{key: "v", value: "{{.value.v}}"}]DD)CC
  rq: Echo @http(url: "http://up/rq", query: [{key: "v", value: "{{.value.v}}"}], batchKey: ["v"]DD)CC
  rb: Echo @http(url: "http://up/rb", method: POST, body: {v: "{{.value.v}}"}, batchKey: ["v"]DD)CC
}
"#
        .replace("DD", d)
        .replace("CC", c);
        let up = json!({"allowedHeaders": ["xv"], "batch": {"delay": self.batch.0.max(1), "maxSize": self.batch.1.max(1), "headers": ["xv", "x-v"]}});
        let cfg = json!({"server": {}, "upstream": up, "links": [{"src": "/app/schema.graphql", "type": "Config"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl)]
    }
    fn rows(&self) -> Vec<&'static str> {
        self.rows.iter().map(|r| text(*r)).collect()
    }
}
/// visible ASCII: what a header may hold
fn heads(s: &str) -> bool {
    !s.is_empty() && s.trim() == s && s.bytes().all(|b| (32..127).contains(&b))
}
impl F {
    fn kind(&self) -> &'static str {
        KINDS[self.kind as usize % KINDS.len()]
    }
    fn v(&self) -> &'static str {
        let t = text(self.v);
        if self.kind() == "h" && !heads(t) {
            return "plain";
        }
        t
    }
    /// (text, declarations, variables)
    fn print(&self, i: usize, vars: &mut serde_json::Map<String, Value>, decl: &mut Vec<String>) -> String {
        let k = self.kind();
        let mut arg = |name: &str, ty: &str, bit: u8, v: Value| {
            if self.vars >> bit & 1 == 1 {
                let n = format!("{name}{i}");
                decl.push(format!("${n}: {ty}"));
                vars.insert(n.clone(), v);
                format!("{name}: ${n}")
            } else {
                format!("{name}: {}", gql(&v))
            }
        };
        let all = |arg: &mut dyn FnMut(&str, &str, u8, Value) -> String| {
            let mut a = vec![arg("v", "String!", 0, json!(self.v()))];
            if let Some(w) = self.w {
                a.push(arg("w", "String", 1, json!(text(w))));
            }
            if let Some(n) = self.n {
                a.push(arg("n", "Int", 2, json!(num(n))));
            }
            a.join(", ")
        };
        let tag = match self.tag {
            Some(t) if matches!(k, "g" | "u" | "outer") => format!("@tag({}) ", arg("t", "String", 3, json!(text(t)))),
            _ => String::new(),
        };
        let echo = format!("{tag}{{ v w n rev }}");
        match k {
            "h" => format!("f{i}: h({}) {echo}", arg("v", "String!", 0, json!(self.v()))),
            "o" => {
                let mut o = json!({"v": self.v()});
                if let Some(w) = self.w {
                    o["w"] = json!(text(w));
                }
                if let Some(n) = self.n {
                    o["n"] = json!(num(n));
                }
                format!("f{i}: o({}) {echo}", arg("i", "In!", 0, o))
            }
            "l" => format!("f{i}: l({}) {echo}", arg("vs", "[String!]!", 0, json!(self.vs()))),
            "outer" => format!("f{i}: outer {{ sub({}) {echo} }}", all(&mut arg)),
            "u" => format!("f{i}: u {echo}"),
            "rows" => {
                let kids: Vec<String> = self.kids().iter().map(|k| format!("{k} {echo}")).collect();
                format!("f{i}: rows {{ v {} }}", kids.join(" "))
            }
            k => format!("f{i}: {k}({}) {echo}", all(&mut arg)),
        }
    }
    fn vs(&self) -> Vec<&'static str> {
        let v: Vec<_> = self.vs.iter().map(|v| text(*v)).collect();
        if v.is_empty() {
            vec!["plain"]
        } else {
            v
        }
    }
    fn kids(&self) -> Vec<&'static str> {
        let mut k: Vec<_> = self.kids.iter().map(|k| KIDS[*k as usize % KIDS.len()]).collect();
        k.sort();
        k.dedup();
        k
    }
    /// what it asks of the upstream, besides the rows themselves
    fn asks(&self, p: &Plan, xv: &str) -> Vec<Ask> {
        let one = |place: &str, v: &str| Ask { place: place.into(), v: vec![v.into()], ..Default::default() };
        let mut full = Ask { w: self.w.map(|w| text(w).to_string()).filter(|w| !w.is_empty()), n: self.n.map(|n| num(n).to_string()), t: self.tag.filter(|_| matches!(self.kind(), "g" | "outer")).map(|t| text(t).to_string()), ..one(self.kind(), self.v()) };
        match self.kind() {
            "h" => vec![one("h", self.v())],
            "l" => vec![Ask { place: "l".into(), v: self.vs().iter().map(|s| s.to_string()).collect(), ..Default::default() }],
            "u" => vec![Ask { t: self.tag.map(|t| text(t).to_string()), ..one("u", xv) }],
            "outer" => {
                full.place = "sub".into();
                vec![full]
            }
            "rows" => p.rows().iter().flat_map(|r| self.kids().into_iter().map(move |k| one(kid_place(k), r))).collect(),
            _ => vec![full],
        }
    }
}
fn kid_place(k: &str) -> &'static str {
    match k {
        "cq" => "q",
        "cb" => "b",
        "cg" => "g",
        "rq" => "rq",
        _ => "rb",
    }
}
/// a value as GraphQL writes it
pub fn gql(v: &Value) -> String {
    match v {
        Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{k}: {}", gql(v))).collect::<Vec<_>>().join(", ")),
        Value::Array(a) => format!("[{}]", a.iter().map(gql).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}
fn scalar(v: Option<&Value>) -> Option<String> {
    match v? {
        Value::Null => None,
        Value::String(s) if s.is_empty() => None,
        Value::String(s) => Some(s.clone()),
        v => Some(v.to_string()),
    }
}
/// What a call says, read as any server would read it; an error if it cannot be.
fn decode(c: &MCall) -> Result<Vec<Ask>, String> {
    let pairs = |q: &[(String, String)]| -> Result<Ask, String> {
        let mut a = Ask::default();
        for (k, v) in q {
            match k.as_str() {
                "v" => a.v.push(v.clone()),
                "w" if a.w.is_none() => a.w = Some(v.clone()).filter(|v| !v.is_empty()),
                "n" if a.n.is_none() => a.n = Some(v.clone()).filter(|v| !v.is_empty()),
                _ => return Err(format!("unknown parameter {k}")),
            }
        }
        Ok(a)
    };
    let obj = |v: &Value| -> Result<Ask, String> {
        let m = v.as_object().ok_or("the body is no object")?;
        if let Some(k) = m.keys().find(|k| !matches!(k.as_str(), "v" | "w" | "n" | "deep")) {
            return Err(format!("unknown key {k}"));
        }
        let v = m.get("v").and_then(|v| v.as_str()).ok_or("no v")?.to_string();
        if let Some(d) = m.get("deep") {
            if *d != json!([{"v": format!("<{v}>")}]) {
                return Err(format!("deep is {d}"));
            }
        }
        Ok(Ask { v: vec![v], w: scalar(m.get("w")), n: scalar(m.get("n")), ..Default::default() })
    };
    let json = || serde_json::from_slice::<Value>(&c.raw).map_err(|e| format!("the body is not JSON: {e}"));
    let segs = c.segs();
    let [place] = segs.as_slice() else { return Err("unknown path".into()) };
    let put = |a: Ask| vec![Ask { place: place.to_string(), ..a }];
    Ok(match *place {
        "q" | "l" => put(pairs(&c.query)?),
        "h" => put(Ask { v: c.headers.get("x-v").into_iter().cloned().collect(), ..Default::default() }),
        "b" | "o" | "m" => put(obj(&json()?)?),
        "f" => {
            let u = reqwest::Url::parse(&format!("http://x/?{}", String::from_utf8_lossy(&c.raw))).map_err(|e| e.to_string())?;
            let q: Vec<_> = u.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect();
            put(pairs(&q)?)
        }
        "rq" => pairs(&c.query)?.v.into_iter().map(|v| Ask { place: "rq".into(), v: vec![v], ..Default::default() }).collect(),
        "rb" => {
            let j = json()?;
            let all = j.as_array().cloned().unwrap_or(vec![j]);
            all.iter().map(|v| obj(v).map(|a| Ask { place: "rb".into(), ..a })).collect::<Result<_, _>>()?
        }
        "graphql" => {
            let j = json()?;
            let q = j["query"].as_str().ok_or("no query")?;
            vec![graphql(q)?.1]
        }
        "rows" => vec![],
        _ => return Err("unknown path".into()),
    })
}
/// (response key path, what is asked)
fn graphql(q: &str) -> Result<(Vec<String>, Ask), String> {
    use async_graphql::parser::types::*;
    let doc = async_graphql::parser::parse_query(q).map_err(|e| format!("{e} in {q}"))?;
    let op = doc.operations.iter().next().ok_or("no operation")?.1;
    if !op.node.variable_definitions.is_empty() {
        return Err("variables".into());
    }
    let field = |s: &SelectionSet| -> Result<Field, String> {
        match s.items.as_slice() {
            [x] => match &x.node {
                Selection::Field(f) => Ok(f.node.clone()),
                _ => Err("no field".to_string()),
            },
            _ => Err(format!("several fields in {q}")),
        }
    };
    let mut f = field(&op.node.selection_set.node)?;
    let mut path = vec![f.name.node.to_string()];
    if path[0] == "outer" {
        if !f.arguments.is_empty() {
            return Err(format!("arguments of outer in {q}"));
        }
        f = field(&f.selection_set.node)?;
        path.push(f.name.node.to_string());
    }
    let mut a = Ask { place: path.last().unwrap().clone(), ..Default::default() };
    for (k, v) in &f.arguments {
        let v = v.node.clone().into_const().ok_or_else(|| format!("a variable in {q}"))?.into_json().map_err(|e| e.to_string())?;
        match k.node.as_str() {
            "v" => a.v.push(v.as_str().ok_or(format!("v is {v}"))?.to_string()),
            "w" => a.w = scalar(Some(&v)),
            "n" => a.n = scalar(Some(&v)),
            k => return Err(format!("unknown argument {k}")),
        }
    }
    for d in &f.directives {
        let [(k, v)] = d.node.arguments.as_slice() else { return Err(format!("a directive in {q}")) };
        let v = v.node.clone().into_const().ok_or_else(|| format!("a variable in {q}"))?.into_json().map_err(|e| e.to_string())?;
        if d.node.name.node != "tag" || k.node != "t" || a.t.is_some() {
            return Err(format!("a directive in {q}"));
        }
        a.t = Some(v.as_str().ok_or(format!("t is {v}"))?.to_string());
    }
    Ok((path, a))
}
fn echo(a: &Ask, rev: usize) -> Value {
    let v = if a.place == "l" { json!(a.v) } else { json!(a.v.first()) };
    json!({"v": v, "w": a.w, "n": a.n, "rev": rev})
}
fn answer(p: &Plan, c: &MCall) -> Option<Ans> {
    let asks = decode(c).ok()?;
    Ans::json(match c.segs()[0] {
        "rows" => p.rows().iter().map(|r| json!({"v": r})).collect(),
        "rq" | "rb" => asks.iter().map(|a| echo(a, c.n)).collect(),
        "graphql" => {
            let (path, a) = graphql(c.body["query"].as_str()?).ok()?;
            let e = path.iter().rev().fold(echo(&a, c.n), |v, k| json!({k: v}));
            json!({"data": e})
        }
        _ => echo(&asks[0], c.n),
    })
}

struct Req {
    step: Step,
    text: String,
    mutation: bool,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
impl Step {
    fn xv(&self) -> &'static str {
        let t = text(self.xv);
        if heads(t) {
            t
        } else {
            "plain"
        }
    }
    fn fields(&self) -> Vec<F> {
        let mut f = self.fields.clone();
        if f.is_empty() {
            f.push(F::default());
        }
        // an operation is of one kind
        let m = f[0].kind() == "m";
        f.retain(|f| (f.kind() == "m") == m);
        f
    }
}

pub struct InjectScenario;
impl Scenario for InjectScenario {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            10_000
        } else {
            300_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws dedupe, cache, batching, rows and clients whose queries put awkward strings and numbers (literals, variables, parent values, headers) into upstream query parameters, headers, JSON \
         and form bodies, batches and GraphQL documents; it is non-trivial when two requests with different values overlapped and one was answered with data, distinct by the hash of its event log \
         and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["mustache, request templates (http, graphql), query encoder", "jit planner and input resolution, GraphQL selection", "data loaders, batching transforms, group_by", "dedupe, cache keys"],
            vec!["upstream service that decodes what it gets (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        // few texts per run, so that values meet
        let pool: Vec<u8> = (0..r.range(2, 5)).map(|_| r.below(TEXT.len() as u64) as u8).collect();
        let kinds: Vec<u8> = (0..r.range(1, 4)).map(|_| r.below(KINDS.len() as u64) as u8).collect();
        let clients = (0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(1, 3))
                    .map(|_| Step {
                        wait: *r.pick(&[0, 0, 0, 1, 2, 5]) * unit,
                        fields: (0..r.range(1, 3))
                            .map(|_| F {
                                kind: *r.pick(&kinds),
                                v: *r.pick(&pool),
                                w: if r.chance(0.6) { Some(*r.pick(&pool)) } else { None },
                                n: if r.chance(0.4) { Some(r.below(5) as u8) } else { None },
                                vs: (0..r.range(1, 3)).map(|_| *r.pick(&pool)).collect(),
                                vars: if r.chance(0.5) { r.below(16) as u8 } else { 0 },
                                tag: if r.chance(0.3) { Some(*r.pick(&pool)) } else { None },
                                kids: (0..r.range(1, 3)).map(|_| r.below(KIDS.len() as u64) as u8).collect(),
                            })
                            .collect(),
                        xv: *r.pick(&pool),
                        cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            dedupe: r.chance(0.5),
            cache: r.chance(0.3),
            batch: (*r.pick(&[1, 2, 5]), *r.pick(&[1, 2, 3, 100])),
            rows: (0..r.range(1, 4)).map(|_| *r.pick(&pool)).collect(),
            up: draw_mini(r, 0.2),
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let env = SimEnv(BTreeMap::from([("SECRET".to_string(), SECRET.to_string())]));
        let (b, e) = prepared(&p.files(), &env).expect("configuration");
        let p1 = p.clone();
        let up = Mini::new(p.up.clone(), move |c| answer(&p1, c));
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), env, (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, f) = (app.clone(), r2.clone(), u2.faults.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for mut st in steps {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        st.fields = st.fields();
                        let mutation = st.fields[0].kind() == "m";
                        let (mut vars, mut decl) = (serde_json::Map::new(), vec![]);
                        let body: Vec<String> = st.fields.iter().enumerate().map(|(i, f)| f.print(i, &mut vars, &mut decl)).collect();
                        let decl = if decl.is_empty() { String::new() } else { format!("({})", decl.join(", ")) };
                        let text = format!("{}{decl} {{ {} }}", if mutation { "mutation" } else { "query" }, body.join(" "));
                        let text = format!("{text} {}", Value::Object(vars.clone()));
                        let doc = text[..text.len() - Value::Object(vars.clone()).to_string().len() - 1].to_string();
                        let body = json!({"query": doc, "variables": vars}).to_string();
                        let heads = vec![("xv".to_string(), st.xv().to_string())];
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request at {inv:?}: {text} xv {:?}", st.xv()));
                        let out = cancellable(async move { send(app, "POST", "/graphql", &heads, body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply at {ret:?}: {reply:?}"));
                        r2.push(Arc::new(Req { step: st, text, mutation, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &reqs, &calls);
        }
        let good = |r: &Req| matches!(&r.reply, Some(Ok(x)) if x.json()["data"].is_object());
        let nontrivial = reqs.iter().enumerate().any(|(i, a)| reqs[..i].iter().any(|b| a.inv.s <= b.ret.s && b.inv.s <= a.ret.s && a.text != b.text && (good(a) || good(b))));
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "upstream_calls": calls.len()}) }
    }
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall]) -> Option<Violation> {
    // the upstream's side: every call is one that somebody asked for, to the letter
    let mut asked: BTreeMap<Ask, usize> = BTreeMap::new();
    for r in reqs {
        for f in &r.step.fields {
            for a in f.asks(p, r.step.xv()) {
                *asked.entry(a).or_default() += 1;
            }
        }
    }
    let mut sent: BTreeMap<Ask, usize> = BTreeMap::new();
    for c in calls {
        let bad = |cl: &str, m: String| Some(Violation::new(cl, format!("{m}\ncall {} {} {} body {} headers {:?}", c.n, c.method, c.url, String::from_utf8_lossy(&c.raw), c.headers)));
        let whole = format!("{} {} {:?}", c.url, String::from_utf8_lossy(&c.raw), c.headers);
        if whole.contains(SECRET) {
            return bad("secret", "a value was taken for a template".into());
        }
        let asks = match decode(c) {
            Ok(a) => a,
            Err(e) => return bad("mangled", e),
        };
        for a in asks {
            if !asked.contains_key(&a) {
                return bad("changed", format!("nobody asked for {a:?}"));
            }
            *sent.entry(a).or_default() += 1;
        }
    }
    for (a, n) in &sent {
        if *n > asked[a] {
            return Some(Violation::new("repeated-call", format!("{a:?} was sent {n} times for {} uses", asked[a])));
        }
    }
    let failed = calls.iter().any(|c| c.failed());
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, t: String| Some(Violation::new(c, format!("{t}\nrequest {} xv {:?} at {:?}..{:?}\nreply {reply:?}", r.text, r.step.xv(), r.inv, r.ret)));
        let x = match reply {
            Ok(x) => x.json(),
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        if x["errors"].as_array().is_some_and(|e| !e.is_empty()) {
            if !failed {
                return bad("unexplained-error", "no upstream call failed".into());
            }
            continue;
        }
        let check = |e: &Value, a: &Ask| -> Result<(), (&'static str, String)> {
            let want = echo(a, e["rev"].as_u64().unwrap_or(u64::MAX) as usize);
            if *e != want {
                return Err(("wrong-value", format!("expected {want}, got {e}")));
            }
            let c = calls.get(e["rev"].as_u64().unwrap() as usize).ok_or(("invented", "no such call".to_string()))?;
            if c.failed() || !decode(c).is_ok_and(|l| l.contains(a)) || c.end.s > r.ret.s {
                return Err(("wrong-source", format!("{a:?} answered from call {} {}", c.n, c.url)));
            }
            Ok(())
        };
        for (i, f) in r.step.fields.iter().enumerate() {
            let got = &x["data"][format!("f{i}")];
            let asks = f.asks(p, r.step.xv());
            let res = match f.kind() {
                "rows" => {
                    let rows = got.as_array().cloned().unwrap_or_default();
                    let mut res = if rows.len() == p.rows.len() { Ok(()) } else { Err(("wrong-rows", format!("got {got}"))) };
                    for (row, t) in rows.iter().zip(p.rows()) {
                        if row["v"] != json!(t) {
                            res = res.and(Err(("wrong-rows", format!("expected {t:?}, got {row}"))));
                        }
                        for k in f.kids() {
                            let a = Ask { place: kid_place(k).into(), v: vec![t.into()], ..Default::default() };
                            res = res.and_then(|_| check(&row[k], &a));
                        }
                    }
                    res
                }
                "outer" => check(&got["sub"], &asks[0]),
                _ => check(got, &asks[0]),
            };
            if let Err((c, m)) = res {
                return bad(c, format!("field {i}: {m}"));
            }
        }
        if r.mutation {
            for (a, n) in reqs.iter().filter(|o| o.mutation && o.reply.is_some()).flat_map(|o| o.step.fields.iter().flat_map(|f| f.asks(p, ""))).fold(BTreeMap::<Ask, usize>::new(), |mut m, a| {
                *m.entry(a).or_default() += 1;
                m
            }) {
                if !failed && sent.get(&a).copied().unwrap_or(0) < n {
                    return bad("mutation-lost", format!("{a:?} was sent {:?} times for {n} mutations", sent.get(&a)));
                }
            }
        }
    }
    None
}
