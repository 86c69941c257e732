//! Protected fields and types: who gets to see what, in front of caches and dedupe.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::up::Outcome;
use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Root {
    pub kind: u8,
    pub id: u32,
    /// which sub-fields
    pub sub: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub cred: u8,
    pub roots: Vec<Root>,
    #[serde(default)]
    pub mutation: bool,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    /// "a", "b" (htpasswd), "j" (jwks)
    pub providers: Vec<String>,
    /// provider ids of each of the protections below; None: all providers
    pub rules: Vec<Option<Vec<String>>>,
    pub dedupe: bool,
    pub cache: bool,
    /// bits: 1 the issuer matters, 2 the audience does, 4 tokens may come without the id of their key, 8 one provider will do
    #[serde(default)]
    pub opts: u8,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}
const P_CONST: usize = 0;
const P_SECRET: usize = 1;
const P_HINT: usize = 2;
const P_DEEP: usize = 3;
const P_CODE: usize = 4;
const P_PAY: usize = 5;
const P_FIXED: usize = 6;
const NRULES: usize = 7;

const K_PUBLIC: u8 = 0;
const K_CONST: u8 = 1;
const K_OPEN: u8 = 2;
const K_SECRET: u8 = 3;
const K_VAULT: u8 = 4;
const K_FIXED: u8 = 5;
const K_NODE: u8 = 6;
const K_VDATA: u8 = 7;
const K_OCODE: u8 = 8;
const NKINDS: u8 = 9;

const KEY: &[u8] = b"a key of the simulated identity provider";
fn b64(b: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(b)
}
fn basic(s: &str) -> String {
    use base64::Engine;
    format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(s))
}
const KEY2: &[u8] = b"the second key of the simulated identity provider";
fn token(key: &[u8], alg: jsonwebtoken::Algorithm, kid: Option<&str>, more: Value) -> Option<String> {
    let mut claims = json!({"exp": FAR, "sub": "user", "iss": "sim", "aud": "api"});
    for (k, v) in more.as_object().unwrap() {
        if v.is_null() {
            claims.as_object_mut().unwrap().remove(k);
        } else {
            claims[k] = v.clone();
        }
    }
    let mut head = jsonwebtoken::Header::new(alg);
    head.kid = kid.map(|k| k.into());
    Some(format!("Bearer {}", jsonwebtoken::encode(&head, &claims, &jsonwebtoken::EncodingKey::from_secret(key)).unwrap()))
}
fn jwt(alg: &str, key: &[u8], exp: u64) -> String {
    let claims = json!({"exp": exp, "sub": "user", "iss": "sim"});
    if alg == "none" {
        let head = json!({"alg": alg, "typ": "JWT", "kid": "k1"});
        return format!("{}.{}.", b64(head.to_string().as_bytes()), b64(claims.to_string().as_bytes()));
    }
    let mut head = jsonwebtoken::Header::new(jsonwebtoken::Algorithm::HS256);
    head.kid = Some("k1".into());
    jsonwebtoken::encode(&head, &claims, &jsonwebtoken::EncodingKey::from_secret(key)).unwrap()
}
const NCRED: u8 = 28;
const FAR: u64 = 4_000_000_000;
/// the header, and which providers it satisfies
pub fn cred(c: u8, opts: u8) -> (Option<String>, &'static [&'static str]) {
    use jsonwebtoken::Algorithm::{HS256, HS384};
    let (iss, aud, kid) = (opts & 1 == 1, opts & 2 == 2, opts & 4 == 4);
    let j = |ok: bool| -> &'static [&'static str] { if ok { &["j"] } else { &[] } };
    match c % NCRED {
        0 => (None, &[]),
        1 => (Some(basic("ua:pa")), &["a"]),
        2 => (Some(basic("ub:pb")), &["b"]),
        3 => (Some(basic("uab:pp")), &["a", "b"]),
        4 => (Some(basic("ux:pa1")), &["a"]),
        5 => (Some(basic("ux:pb1")), &["b"]),
        6 => (Some(basic("ua:wrong")), &[]),
        7 => (Some(basic("nobody:pa")), &[]),
        8 => (Some("Basic !!!".into()), &[]),
        9 => (Some(basic("ua")), &[]),
        10 => (Some(format!("Bearer {}", jwt("HS256", KEY, FAR))), j(!aud)),
        11 => (Some(format!("Bearer {}", jwt("HS256", KEY, FAR).replace(".", ".e"))), &[]),
        12 => (Some(format!("Bearer {}", jwt("HS256", KEY, 1_000_000_000))), &[]),
        13 => (Some(format!("Bearer {}", jwt("HS256", b"another key", FAR))), &[]),
        14 => (Some(format!("Bearer {}", jwt("none", KEY, FAR))), &[]),
        15 => (Some(jwt("HS256", KEY, FAR)), &[]),
        16 => (token(KEY, HS256, Some("k1"), json!({})), &["j"]),
        17 => (token(KEY, HS256, Some("k1"), json!({"aud": ["other", "web"]})), &["j"]),
        18 => (token(KEY, HS256, Some("k1"), json!({"aud": "other"})), j(!aud)),
        19 => (token(KEY, HS256, Some("k1"), json!({"iss": "simulated"})), j(!iss)),
        20 => (token(KEY, HS256, Some("k1"), json!({"iss": null})), j(!iss)),
        21 => (token(KEY, HS256, Some("k1"), json!({"aud": []})), j(!aud)),
        22 => (token(KEY, HS256, None, json!({})), j(kid)),
        23 => (token(KEY2, HS384, None, json!({"aud": ["api"]})), j(kid)),
        24 => (token(KEY2, HS384, Some("k2"), json!({})), &["j"]),
        25 => (token(KEY2, HS384, Some("k1"), json!({})), &[]),
        26 => (token(KEY, HS256, Some("k3"), json!({})), &[]),
        _ => (token(KEY2, HS256, None, json!({})), &[]),
    }
}

impl Plan {
    fn ids(&self, r: usize) -> Vec<String> {
        match self.rules.get(r).cloned().flatten() {
            Some(v) if v.iter().any(|i| self.providers.contains(i)) => v.into_iter().filter(|i| self.providers.contains(i)).collect(),
            _ => self.providers.clone(),
        }
    }
    fn dir(&self, r: usize) -> String {
        match self.rules.get(r).cloned().flatten() {
            Some(v) if v.iter().any(|i| self.providers.contains(i)) => format!("@protected(id: {})", json!(self.ids(r))),
            _ => "@protected".into(),
        }
    }
    fn files(&self) -> Vec<(String, String)> {
        let mut links = vec![json!({"src": "/app/schema.graphql", "type": "Config"})];
        for p in &self.providers {
            links.push(match p.as_str() {
                "j" => json!({"id": "j", "src": "/app/jwks.json", "type": "Jwks"}),
                p => json!({"id": p, "src": format!("/app/htpasswd_{p}"), "type": "Htpasswd"}),
            });
        }
        let cfg = json!({"server": {}, "upstream": {"allowedHeaders": ["authorization"]}, "links": links});
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let c = if self.cache { " @cache(maxAge: 1000)" } else { "" };
        let sdl = format!(
            r#"schema {{ query: Query mutation: Mutation }}
type Query @addField(name: "vaultData", path: ["vault", "data"]) @addField(name: "openCode", path: ["open", "meta", "code"]) {{
  public: String @expr(body: "public-const")
  secretConst: String @expr(body: "SECRET-const") {p_const}
  open(id: Int!): Open @http(url: "http://up/open/{{{{.args.id}}}}"{d}){c}
  secret(id: Int!): Secret @http(url: "http://up/secret/{{{{.args.id}}}}"{d}){c} {p_secret}
  vault: Vault @http(url: "http://up/vault"{d}){c}
  fixed: Fixed @expr(body: {{a: "fixed-a", b: "SECRET-b"}})
  node(id: Int!): Node @http(url: "http://up/node/{{{{.args.id}}}}"{d}){c}
}}
type Mutation {{
  pay(id: Int!): Open @http(url: "http://up/pay/{{{{.args.id}}}}", method: POST) {p_pay}
  note(id: Int!): Open @http(url: "http://up/note/{{{{.args.id}}}}", method: POST)
}}
type Open @addField(name: "code", path: ["meta", "code"]) @addField(name: "owner", path: ["deep", "owner"]) {{
  id: Int!
  name: String
  hint: String {p_hint}
  deep: Secret @http(url: "http://up/secret/{{{{.value.id}}}}"{d}){c} {p_deep}
  meta: Meta
}}
type Meta {{ plain: String code: String {p_code} }}
type Secret {{ id: Int! data: String owner: String }}
type Vault @protected {{ data: String owner: String }}
type Fixed {{ a: String b: String {p_fixed} }}
interface Node {{ id: Int! label: String }}
type Plain implements Node {{ id: Int! label: String }}
type Guarded implements Node @protected {{ id: Int! label: String }}
"#,
            p_const = self.dir(P_CONST), p_secret = self.dir(P_SECRET), p_hint = self.dir(P_HINT), p_deep = self.dir(P_DEEP), p_code = self.dir(P_CODE), p_pay = self.dir(P_PAY), p_fixed = self.dir(P_FIXED),
        );
        vec![
            ("/app/config.json".into(), cfg.to_string()),
            ("/app/schema.graphql".into(), sdl),
            ("/app/htpasswd_a".into(), "ua:pa\nuab:pp\nux:pa1\n".into()),
            ("/app/htpasswd_b".into(), "ub:pb\nuab:pp\nux:pb1\n".into()),
            ("/app/jwks.json".into(), json!({"keys": [{"kty": "oct", "alg": "HS256", "kid": "k1", "k": b64(KEY)}, {"kty": "oct", "alg": "HS384", "kid": "k2", "k": b64(KEY2)}]}).to_string()),
        ]
    }
    /// (query, needed protections, those of them that no unprotected call can come before, answer, upstream resources)
    fn spec(&self, s: &Step, auth: &str) -> Spec {
        let mut o = Spec::default();
        let mut text = String::new();
        let mut data = serde_json::Map::new();
        for (i, r) in s.roots.iter().enumerate() {
            let id = r.id;
            let mut obj = serde_json::Map::new();
            let mut sub = String::new();
            let mut sel = |name: &str, t: &str, v: Value| {
                sub.push_str(&format!(" {name}{t}"));
                obj.insert(name.into(), v);
            };
            let secret = |id: u32| json!({"id": id, "data": format!("SECRET-data-{id}"), "owner": auth});
            let mut open = |o: &mut Spec, id: u32| {
                sel("id", "", json!(id));
                if r.sub & 1 == 1 {
                    sel("name", "", json!(format!("open-{id}")));
                }
                if r.sub & 2 == 2 {
                    sel("hint", "", json!(format!("SECRET-hint-{id}")));
                    o.need(self, P_HINT, true);
                }
                if r.sub & 4 == 4 {
                    sel("deep", " { id data owner }", secret(id));
                    o.need(self, P_DEEP, true);
                    o.calls.insert(format!("/secret/{id}"));
                }
                if r.sub & 8 == 8 {
                    let code = r.sub & 16 == 16;
                    sel("meta", if code { " { plain code }" } else { " { plain }" }, if code { json!({"plain": format!("plain-{id}"), "code": format!("SECRET-code-{id}")}) } else { json!({"plain": format!("plain-{id}")}) });
                    if code {
                        o.need(self, P_CODE, false);
                    }
                }
                if r.sub & 32 == 32 {
                    sel("code", "", json!(format!("SECRET-code-{id}")));
                    o.need(self, P_CODE, false);
                }
                if r.sub & 64 == 64 {
                    sel("owner", "", json!(auth));
                    o.need(self, P_DEEP, true);
                    o.calls.insert(format!("/secret/{id}"));
                }
            };
            let (name, v) = if s.mutation {
                if r.kind % 2 == 0 {
                    o.need(self, P_PAY, true);
                    o.calls.insert(format!("/pay/{id}"));
                    open(&mut o, id);
                    (format!("pay(id: {id})"), Value::Object(obj))
                } else {
                    o.calls.insert(format!("/note/{id}"));
                    open(&mut o, id);
                    (format!("note(id: {id})"), Value::Object(obj))
                }
            } else {
                match r.kind % NKINDS {
                    K_PUBLIC => ("public".to_string(), json!("public-const")),
                    K_CONST => {
                        o.need(self, P_CONST, true);
                        ("secretConst".to_string(), json!("SECRET-const"))
                    }
                    K_OPEN => {
                        o.calls.insert(format!("/open/{id}"));
                        open(&mut o, id);
                        (format!("open(id: {id})"), Value::Object(obj))
                    }
                    K_SECRET => {
                        o.need(self, P_SECRET, true);
                        o.calls.insert(format!("/secret/{id}"));
                        sub = " id data owner".into();
                        (format!("secret(id: {id})"), secret(id))
                    }
                    K_VAULT => {
                        o.need(self, 99, true);
                        o.calls.insert("/vault".into());
                        sub = " data owner".into();
                        ("vault".to_string(), json!({"data": "SECRET-vault", "owner": auth}))
                    }
                    K_VDATA => {
                        o.need(self, 99, true);
                        o.calls.insert("/vault".into());
                        ("vaultData".to_string(), json!("SECRET-vault"))
                    }
                    K_OCODE => {
                        o.need(self, P_CODE, false);
                        o.calls.insert(format!("/open/{id}"));
                        (format!("openCode(id: {id})"), json!(format!("SECRET-code-{id}")))
                    }
                    K_FIXED => {
                        sel("a", "", json!("fixed-a"));
                        if r.sub & 1 == 1 {
                            sel("b", "", json!("SECRET-b"));
                            o.need(self, P_FIXED, true);
                        }
                        ("fixed".to_string(), Value::Object(obj))
                    }
                    _ => {
                        let g = id % 2 == 0;
                        o.calls.insert(format!("/node/{id}"));
                        let label = json!(format!("{}-{id}", if g { "SECRET-node" } else { "plain-node" }));
                        match r.sub & 3 {
                            0 | 1 => {
                                sub.push_str(" ... on Guarded { label } ... on Plain { label }");
                                obj.insert("label".into(), label);
                                o.need(self, 99, true);
                            }
                            2 => {
                                sub.push_str(" ... on Plain { label }");
                                if !g {
                                    obj.insert("label".into(), label);
                                }
                            }
                            // a field of the interface may be one of the protected type
                            _ => {
                                sel("id", "", json!(id));
                                sel("label", "", label);
                                o.need(self, 99, true);
                            }
                        }
                        (format!("node(id: {id})"), Value::Object(obj))
                    }
                }
            };
            let sub = if sub.is_empty() { String::new() } else { format!(" {{{sub} }}") };
            text.push_str(&format!(" f{i}: {name}{sub}"));
            data.insert(format!("f{i}"), v);
        }
        o.text = format!("{} {{{text} }}", if s.mutation { "mutation" } else { "query" });
        o.data = Value::Object(data);
        o
    }
}
#[derive(Default, Clone, Debug)]
struct Spec {
    text: String,
    data: Value,
    /// the providers of each protection
    need: BTreeSet<Vec<String>>,
    early: BTreeSet<Vec<String>>,
    calls: BTreeSet<String>,
}
impl Spec {
    fn need(&mut self, p: &Plan, r: usize, early: bool) {
        if early {
            self.early.insert(p.ids(r));
        }
        self.need.insert(p.ids(r));
    }
}
struct Req {
    step: Step,
    spec: Spec,
    auth: String,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
impl Req {
    fn holds(&self, need: &BTreeSet<Vec<String>>, opts: u8) -> bool {
        let have = cred(self.step.cred, opts).1;
        let ok = |i: &String| have.contains(&i.as_str());
        need.iter().all(|l| if opts & 8 == 8 { l.iter().any(ok) } else { l.iter().all(ok) })
    }
    fn granted(&self, opts: u8) -> bool {
        self.holds(&self.spec.need, opts)
    }
    fn early_denied(&self, opts: u8) -> bool {
        !self.holds(&self.spec.early, opts)
    }
}
/// Sets what the configuration language has no words for in the protections of a blueprint.
fn adjust(b: &mut tailcall::core::blueprint::Blueprint, opts: u8) {
    use tailcall::core::blueprint::{Auth, Definition, Provider};
    use tailcall::core::ir::model::IR;
    fn auth(a: Auth, opts: u8) -> Auth {
        match a {
            Auth::Provider(Provider::Jwt(mut j)) => {
                j.issuer = Some("sim".to_string()).filter(|_| opts & 1 == 1);
                if opts & 2 == 2 {
                    j.audiences = ["api", "web"].iter().map(|s| s.to_string()).collect();
                }
                j.optional_kid = opts & 4 == 4;
                Auth::Provider(Provider::Jwt(j))
            }
            Auth::And(l, r) if opts & 8 == 8 => auth(*l, opts).or(auth(*r, opts)),
            Auth::And(l, r) => auth(*l, opts).and(auth(*r, opts)),
            a => a,
        }
    }
    fn each(ir: IR, opts: u8) -> IR {
        ir.modify(&mut |ir| match ir {
            IR::Protect(a, ir) => Some(IR::Protect(auth(a.clone(), opts), Box::new(each((**ir).clone(), opts)))),
            _ => None,
        })
    }
    for d in &mut b.definitions {
        let fields = match d {
            Definition::Object(o) => &mut o.fields,
            Definition::Interface(i) => &mut i.fields,
            _ => continue,
        };
        for f in fields {
            f.resolver = f.resolver.take().map(|ir| each(ir, opts));
        }
    }
}

fn answer(c: &MCall) -> Option<Ans> {
    let s = c.segs();
    let id: u32 = s.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    Ans::json(match s[0] {
        "open" | "pay" | "note" => json!({"id": id, "name": format!("open-{id}"), "hint": format!("SECRET-hint-{id}"), "meta": {"plain": format!("plain-{id}"), "code": format!("SECRET-code-{id}")}}),
        "secret" => json!({"id": id, "data": format!("SECRET-data-{id}"), "owner": c.auth()}),
        "vault" => json!({"data": "SECRET-vault", "owner": c.auth()}),
        "node" if id % 2 == 0 => json!({"__typename": "Guarded", "id": id, "label": format!("SECRET-node-{id}")}),
        "node" => json!({"__typename": "Plain", "id": id, "label": format!("plain-node-{id}")}),
        _ => return None,
    })
}

pub struct AuthScenario;
impl Scenario for AuthScenario {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            12_000
        } else {
            400_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws the providers (two htpasswd files, one JWKS), the provider ids of every protection, dedupe and cache, upstream latencies and faults, and clients whose requests \
         mix protected and open, constant and upstream fields and mutations under valid, partial, wrong, malformed, tampered and missing credentials; it is non-trivial when at \
         least one request was denied and one got data, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["config reader with htpasswd and jwks links, blueprint (update_protected)", "http::request_handler", "jit planner (CheckConst, CheckProtected, AuthPlanner), executor, const cache", "auth verifiers (basic, jwt), IR eval, dedupe, InMemoryCache"],
            vec!["upstream service (simulated HttpIO)", "htpasswd-verify crate (not available offline; a stand-in with plain and SHA entries)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let providers: Vec<String> = r.pick(&[vec!["a"], vec!["a", "b"], vec!["a", "b"], vec!["j"], vec!["a", "j"], vec!["b", "a", "j"]]).iter().map(|s| s.to_string()).collect();
        let rules = (0..NRULES)
            .map(|_| {
                if r.chance(0.4) {
                    None
                } else {
                    let mut v: Vec<String> = providers.iter().filter(|_| r.chance(0.6)).cloned().collect();
                    if r.chance(0.3) {
                        v.reverse();
                    }
                    Some(v)
                }
            })
            .collect();
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let good: Vec<u8> = if providers == ["j"] { vec![10, 16, 17, 24, 22] } else if providers.iter().any(|p| p == "j") { vec![3, 10, 1, 2, 16, 17] } else { vec![3, 3, 1, 2, 4, 5] };
        let only = if r.chance(0.3) { vec![K_PUBLIC, K_CONST] } else { (0..NKINDS).collect() };
        let mut same: Vec<(Vec<Root>, bool)> = vec![];
        let twin = r.chance(0.5);
        let mut clients = vec![];
        for _ in 0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }) {
            let mut steps = vec![];
            for _ in 0..r.range(1, 4) {
                let (roots, mutation) = if twin && !same.is_empty() && r.chance(0.7) {
                    r.pick(&same).clone()
                } else {
                    ((0..r.range(1, 3)).map(|_| Root { kind: *r.pick(&only), id: r.range(1, 3) as u32, sub: if r.chance(0.7) { r.below(32) } else { r.below(128) } as u8 }).collect(), r.chance(0.12))
                };
                same.push((roots.clone(), mutation));
                steps.push(Step {
                    wait: *r.pick(&[0, 0, 0, 1, 2, 5]) * unit,
                    cred: if r.chance(0.55) { *r.pick(&good) } else { r.below(NCRED as u64) as u8 },
                    roots,
                    mutation,
                    cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                });
            }
            clients.push(steps);
        }
        serde_json::to_value(Plan { sched: SchedCfg::draw(r, 4), providers, rules, opts: if r.chance(0.5) { 0 } else { r.below(16) as u8 }, dedupe: r.chance(0.5), cache: r.chance(0.5), up: draw_mini(r, 0.2), clients }).unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let mut p = p;
        if p.providers.is_empty() {
            p.providers = vec!["a".into()];
        }
        let cfg = sched_of(plan);
        let (mut b, e) = prepared(&p.files(), &SimEnv::default()).expect("configuration");
        adjust(&mut b, p.opts);
        let up = Mini::new(p.up.clone(), answer);
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), SimEnv::default(), (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, p3, f) = (app.clone(), r2.clone(), p2.clone(), u2.faults.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for mut st in steps {
                        if st.roots.is_empty() {
                            st.roots = vec![Root::default()];
                        }
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        let header = cred(st.cred, p3.opts).0;
                        let auth = header.clone().unwrap_or_default();
                        let spec = p3.spec(&st, &auth);
                        let headers: Vec<(String, String)> = header.into_iter().map(|h| ("authorization".to_string(), h)).collect();
                        let body = json!({"query": spec.text}).to_string();
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request cred {} at {inv:?}: {}", st.cred, spec.text));
                        let out = cancellable(async move { send(app, "POST", "/graphql", &headers, body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply at {ret:?}: {:?}", reply.as_ref().map(|r| r.as_ref().map(|r| r.body.clone()))));
                        r2.push(Arc::new(Req { step: st, spec, auth, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &reqs, &calls);
        }
        let denied = reqs.iter().filter(|r| !r.granted(p.opts)).count();
        let good = reqs.iter().filter(|r| matches!(&r.reply, Some(Ok(x)) if x.json()["data"].is_object())).count();
        RunOut { violation: v, nontrivial: denied > 0 && good > 0, report, faults, sample: json!({"requests": reqs.len(), "denied": denied, "with_data": good}) }
    }
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall]) -> Option<Violation> {
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, m: String| Some(Violation::new(c, format!("{m}\nrequest {} with credentials {} ({:?}), needs {:?} of {:?}\nreply {:?}", r.spec.text, r.step.cred, r.auth, r.spec.need, p.providers, reply)));
        let x = match reply {
            Ok(x) => x,
            Err(e) => return bad("no-reply", format!("the request handler gave no response: {e}")),
        };
        if x.status != 200 {
            return bad("status", format!("status {}", x.status));
        }
        let v = x.json();
        let errs = v["errors"].as_array().map(|a| a.len()).unwrap_or(0);
        if !r.granted(p.opts) {
            if errs == 0 || !v["data"].is_null() {
                return bad("not-denied", "a request without the required credentials was served".into());
            }
            if x.body.contains("SECRET") {
                return bad("leak", "protected data in a denied response".into());
            }
            continue;
        }
        if errs > 0 {
            if calls.iter().any(|c| c.failed() && c.end.s >= reqs.iter().map(|o| if o.inv.s <= r.ret.s && o.ret.s >= r.inv.s { o.inv.s } else { u64::MAX }).min().unwrap_or(0) && c.end.s <= r.ret.s) {
                continue;
            }
            return bad("denied", "a request with the required credentials failed without an upstream failure".into());
        }
        if v["data"] != r.spec.data {
            return bad("wrong-data", format!("expected {}", r.spec.data));
        }
    }
    for c in calls {
        let by = |ok: &dyn Fn(&Req) -> bool| reqs.iter().any(|r| r.auth == c.auth() && r.inv.s <= c.start.s && r.spec.calls.contains(&c.path) && ok(r));
        let guarded = matches!(c.segs()[0], "secret" | "vault" | "pay");
        // protections on data fields of an answer may be looked at after it was fetched
        let ok = by(&|r| r.granted(p.opts) || !r.early_denied(p.opts) && !guarded);
        // an open field below which only a late check fails
        let late = guarded && by(&|r| !r.early_denied(p.opts));
        if !ok && !late {
            return Some(Violation::new("call-before-auth", format!("call {} {} was made with credentials {:?} although every request that needs it was denied", c.n, c.path, c.auth())));
        }
        let _ = Outcome::Delivered;
    }
    None
}
