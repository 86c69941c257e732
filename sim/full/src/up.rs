//! The simulated upstream: one service with REST, GraphQL and batch endpoints,
//! faults and latencies, and a record of every call.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use anyhow::{anyhow, Result};
use async_trait::async_trait;
use hyper::body::Bytes;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tailcall::core::http::Response;
use tailcall::core::HttpIO;

use crate::util::*;

/// What one call can be asked for; the unit of conservation and blame.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Res {
    Posts,
    Post(u32),
    Users,
    User(u32),
    /// one id of a grouped GET /users?id=..
    UsersQ(u32),
    /// one id of a POST /users/batch
    UsersB(u32),
    /// one id through the GraphQL upstream
    UserG(u32),
    PostsQ(u32),
    Comments(u32),
    Me(String),
    Create(u32),
    /// tenant-scoped lookup: (tenant, id)
    Tenant(u32, u32),
    Other(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    Ok,
    Conn,
    Status500,
    Garbage,
    Truncated,
    Empty,
    MissingRows,
    Reverse,
    /// a GraphQL upstream answers with errors
    GqlErrors,
    Slow(u64),
    /// answers nothing for 60 s, then the connection breaks
    Hang,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct UpPlan {
    pub nu: u32,
    pub np: u32,
    pub dangling: u32,
    /// µs, by call number
    pub lat: Vec<u64>,
    /// by call number
    pub faults: Vec<Fault>,
    /// µs: no fault starts after this time
    pub fault_until: u64,
    /// response headers by call number
    #[serde(default)]
    pub heads: Vec<Vec<(String, String)>>,
    /// rows of grouped answers come as lists of this many
    #[serde(default)]
    pub nest: usize,
    /// how ids look (as in the knobs)
    #[serde(skip)]
    pub ids: u8,
}

/// ids as they are between the upstream and the client
pub const IDS: u8 = 8;
const BIG: u64 = 9_223_372_036_854_775_900;
pub fn wire(form: u8, id: u32) -> Value {
    match form % IDS {
        // neighbours that one f64 stands for
        1 => json!(9_007_199_254_740_990u64 + id as u64),
        2 => json!(id.to_string()),
        3 => json!(format!("a&b=c+{id} \u{e9}\"d")),
        4 => json!(-9_007_199_254_740_990i64 - id as i64),
        // other spellings of the same number
        5 => json!(match id % 3 {
            0 => format!("{}", id / 3 + 1),
            1 => format!("0{}", id / 3 + 1),
            _ => format!("{}.0", id / 3 + 1),
        }),
        6 => json!(format!("{}{id}", "x".repeat(700))),
        // no i64
        7 => json!(BIG + id as u64),
        _ => json!(id),
    }
}
/// the same id where it refers to another object
pub fn wire_ref(form: u8, id: u32) -> Value {
    match form % IDS {
        2 => json!(id),
        f => wire(f, id),
    }
}
fn text(v: &Value) -> String {
    v.as_str().map(|s| s.to_string()).unwrap_or(v.to_string())
}
fn unwire(form: u8, s: &str) -> u32 {
    let x = match form % IDS {
        1 => s.parse::<u64>().ok().and_then(|n| n.checked_sub(9_007_199_254_740_990)).map(|n| n as u32),
        3 => s.strip_prefix("a&b=c+").and_then(|s| s.strip_suffix(" \u{e9}\"d")).and_then(|s| s.parse().ok()),
        4 => s.parse::<i64>().ok().and_then(|n| u32::try_from(-9_007_199_254_740_990i64 - n).ok()),
        5 => {
            let (s, n) = match (s.strip_prefix('0'), s.strip_suffix(".0")) {
                (Some(s), _) => (s, 1),
                (_, Some(s)) => (s, 2),
                _ => (s, 0),
            };
            s.parse::<u32>().ok().and_then(|k| k.checked_sub(1)).map(|k| k * 3 + n)
        }
        6 => s.trim_start_matches('x').parse().ok(),
        7 => s.parse::<u64>().ok().and_then(|n| n.checked_sub(BIG)).map(|n| n as u32),
        _ => s.parse().ok(),
    };
    x.unwrap_or(u32::MAX)
}
fn percent(s: &str) -> String {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        match s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()) {
            Some(x) if b[i] == b'%' => {
                o.push(x);
                i += 3;
            }
            _ => {
                o.push(b[i]);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&o).into_owned()
}

pub const GQL_ERRORS: &str = "gql-errors";

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Pending,
    Delivered,
    /// delivered, but not what a healthy upstream would have said
    Soft(&'static str),
    Failed(&'static str),
    /// the caller went away
    Dropped,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub n: usize,
    pub method: String,
    pub url: String,
    pub path: String,
    pub query: Vec<(String, String)>,
    pub body: Value,
    pub headers: BTreeMap<String, String>,
    pub covers: Vec<Res>,
    pub start: At,
    pub end: At,
    pub outcome: Outcome,
    pub resp_headers: Vec<(String, String)>,
}
impl Call {
    pub fn failed(&self) -> bool {
        matches!(self.outcome, Outcome::Failed(_))
    }
    pub fn delivered(&self) -> bool {
        matches!(self.outcome, Outcome::Delivered | Outcome::Soft(_))
    }
    pub fn has(&self, r: &Res) -> bool {
        self.covers.contains(r)
    }
}

pub struct Up {
    pub plan: UpPlan,
    pub calls: Log<Call>,
    pub faults: Faults,
    /// in flight per URL, to see overlap
    pub quiet: Arc<Mutex<bool>>,
}

struct Guard {
    calls: Log<Call>,
    n: usize,
    done: bool,
}
impl Drop for Guard {
    fn drop(&mut self) {
        if !self.done {
            let n = self.n;
            let at = At { s: u64::MAX, t: u64::MAX };
            self.calls.with(|c| {
                if c[n].outcome == Outcome::Pending {
                    c[n].outcome = Outcome::Dropped;
                    c[n].end = at;
                }
            });
        }
    }
}

impl UpPlan {
    pub fn post_user(&self, p: u32) -> u32 {
        1 + (p * 7 + 3) % (self.nu + self.dangling).max(1)
    }
    pub fn user_exists(&self, u: u32) -> bool {
        u >= 1 && u <= self.nu
    }
    pub fn post_exists(&self, p: u32) -> bool {
        p >= 1 && p <= self.np
    }
    pub fn comments_of(&self, p: u32) -> Vec<u32> {
        (0..p % 3).map(|i| p * 10 + i).collect()
    }
    pub fn posts_of(&self, u: u32) -> Vec<u32> {
        (1..=self.np).filter(|p| self.post_user(*p) == u).collect()
    }
    pub fn user(&self, u: u32, rev: usize) -> Value {
        json!({"id": wire(self.ids, u), "name": format!("user-{u}"), "rev": rev})
    }
    pub fn post(&self, p: u32, rev: usize) -> Value {
        json!({"id": wire(self.ids, p), "title": format!("title-{p}"), "userId": wire_ref(self.ids, self.post_user(p)), "rev": rev})
    }
    pub fn comment(&self, p: u32, c: u32, rev: usize) -> Value {
        json!({"id": wire(self.ids, c), "postId": wire_ref(self.ids, p), "text": format!("text-{c}"), "rev": rev})
    }
    fn users(&self, rev: usize) -> Value {
        (1..=self.nu).map(|u| self.user(u, rev)).collect()
    }
    fn posts(&self, rev: usize) -> Value {
        (1..=self.np).map(|p| self.post(p, rev)).collect()
    }
}

fn num(s: &str) -> u32 {
    s.parse().unwrap_or(u32::MAX)
}
fn jnum(v: &Value) -> u32 {
    num(&text(v))
}

/// `create(nonce: 3)` in a GraphQL mutation sent to the upstream
fn made(q: &str) -> Option<u32> {
    let q = q.trim_start().strip_prefix("mutation")?;
    let rest = q[q.find("create(")? + 7..].trim_start().strip_prefix("nonce:")?.trim_start();
    rest.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}
/// `user(id: 3)` in a GraphQL query sent to the upstream
fn gql_id(form: u8, q: &str) -> Option<u32> {
    let rest = &q[q.find("user(")? + 5..];
    let rest = rest[rest.find("id:")? + 3..].trim_start();
    let v = if rest.starts_with('"') {
        // as JSON, whose strings are as those of GraphQL
        serde_json::Deserializer::from_str(rest).into_iter::<Value>().next()?.ok()?
    } else {
        let d: String = rest.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect();
        Value::String(d)
    };
    Some(unwire(form, &text(&v)))
}

pub fn covers(form: u8, method: &str, path: &str, query: &[(String, String)], body: &Value, headers: &BTreeMap<String, String>) -> Vec<Res> {
    let id = |s: &str| unwire(form, s);
    let vals = |k: &str| query.iter().filter(|(n, _)| n == k).map(|(_, v)| id(v)).collect::<Vec<_>>();
    let seg: Vec<String> = path.trim_matches('/').split('/').map(percent).collect();
    let seg: Vec<&str> = seg.iter().map(|s| s.as_str()).collect();
    match (method, seg.as_slice()) {
        ("GET", ["posts"]) if query.iter().any(|q| q.0 == "userId") => vals("userId").into_iter().map(Res::PostsQ).collect(),
        ("GET", ["posts"]) => vec![Res::Posts],
        ("GET", ["posts", i]) => vec![Res::Post(id(i))],
        // the parameters that are not the key are there once
        ("GET", ["users"]) if query.iter().any(|q| q.0 == "id") && query.iter().filter(|q| q.0 == "idle").count() == 1 => vals("id").into_iter().map(Res::UsersQ).collect(),
        ("GET", ["deep", "users"]) if query.iter().filter(|q| q.0 == "idle").count() == 1 => vals("uid").into_iter().map(Res::UsersQ).collect(),
        ("GET", ["users"]) if query.is_empty() => vec![Res::Users],
        ("GET", ["users", i]) => vec![Res::User(id(i))],
        ("GET", ["comments"]) => vals("postId").into_iter().map(Res::Comments).collect(),
        ("GET", ["me"]) => vec![Res::Me(headers.get("authorization").cloned().unwrap_or_default())],
        ("GET", ["tenants", t, "users"]) => vals("id").into_iter().map(|i| Res::Tenant(num(t), i)).collect(),
        ("POST", ["users", "batch"] | ["deep", "users", "batch"]) => match body {
            Value::Array(a) => a.iter().map(|v| Res::UsersB(id(&text(&v["id"])))).collect(),
            v => vec![Res::UsersB(id(&text(&v["id"])))],
        },
        ("POST", ["posts"]) => vec![Res::Create(jnum(&body["nonce"]))],
        ("POST", ["graphql"]) => {
            let one = |v: &Value| v["query"].as_str().and_then(|q| made(q).map(Res::Create).or_else(|| gql_id(form, q).map(Res::UserG))).unwrap_or(Res::Other(v.to_string()));
            match body {
                Value::Array(a) => a.iter().map(one).collect(),
                v => vec![one(v)],
            }
        }
        _ => vec![Res::Other(format!("{method} {path}"))],
    }
}

impl Up {
    pub fn new(plan: UpPlan) -> Self {
        Up { plan, calls: Log::default(), faults: Faults::default(), quiet: Arc::new(Mutex::new(false)) }
    }

    /// None: 404
    fn answer(&self, c: &Call) -> Option<Value> {
        let p = &self.plan;
        let rev = c.n;
        let rows = |v: Vec<Value>| Some(Value::Array(v));
        match c.covers.first() {
            None => rows(vec![]),
            Some(Res::Posts) => Some(p.posts(rev)),
            Some(Res::Users) => Some(p.users(rev)),
            Some(Res::Post(i)) => p.post_exists(*i).then(|| p.post(*i, rev)),
            Some(Res::User(i)) => p.user_exists(*i).then(|| p.user(*i, rev)),
            Some(Res::Me(who)) => Some(json!({"id": wire(p.ids, 1), "owner": who, "rev": rev})),
            Some(Res::Create(_)) => {
                let one = |r: &Res| match r {
                    Res::Create(n) => json!({"id": wire(p.ids, 1000 + rev as u32), "nonce": n, "title": format!("created-{n}"), "userId": wire_ref(p.ids, 1), "rev": rev}),
                    _ => Value::Null,
                };
                match (c.path.as_str(), c.body.is_array()) {
                    ("/graphql", true) => rows(c.covers.iter().map(|r| json!({"data": {"create": one(r)}})).collect()),
                    ("/graphql", false) => Some(json!({"data": {"create": one(&c.covers[0])}})),
                    _ => Some(one(&c.covers[0])),
                }
            }
            Some(Res::Tenant(t, _)) => {
                let ids: Vec<u32> = c.covers.iter().filter_map(|r| if let Res::Tenant(_, i) = r { Some(*i) } else { None }).collect();
                let set: BTreeSet<u32> = ids.into_iter().collect();
                rows(set.into_iter().filter(|i| p.user_exists(*i)).map(|i| json!({"id": wire(p.ids, i), "name": format!("tenant-{t}-user-{i}"), "owner": c.headers.get("authorization").cloned().unwrap_or_default(), "rev": rev})).collect())
            }
            Some(Res::UsersQ(_)) | Some(Res::UsersB(_)) => {
                let ids: BTreeSet<u32> = c.covers.iter().filter_map(|r| match r { Res::UsersQ(i) | Res::UsersB(i) => Some(*i), _ => None }).collect();
                rows(ids.into_iter().filter(|i| p.user_exists(*i)).map(|i| p.user(i, rev)).collect())
            }
            Some(Res::PostsQ(_)) => {
                let ids: BTreeSet<u32> = c.covers.iter().filter_map(|r| if let Res::PostsQ(i) = r { Some(*i) } else { None }).collect();
                rows((1..=p.np).filter(|x| ids.contains(&p.post_user(*x))).map(|x| p.post(x, rev)).collect())
            }
            Some(Res::Comments(_)) => {
                let ids: BTreeSet<u32> = c.covers.iter().filter_map(|r| if let Res::Comments(i) = r { Some(*i) } else { None }).collect();
                rows(ids.into_iter().filter(|i| p.post_exists(*i)).flat_map(|i| p.comments_of(i).into_iter().map(move |k| p.comment(i, k, rev))).collect())
            }
            Some(Res::UserG(_)) => {
                let one = |r: &Res| match r {
                    Res::UserG(i) if p.user_exists(*i) => json!({"data": {"user": p.user(*i, rev)}}),
                    _ => json!({"data": {"user": null}}),
                };
                if c.body.is_array() {
                    rows(c.covers.iter().map(one).collect())
                } else {
                    Some(one(&c.covers[0]))
                }
            }
            Some(Res::Other(_)) => None,
        }
    }
}

#[async_trait]
impl HttpIO for Up {
    async fn execute(&self, req: reqwest::Request) -> Result<Response<Bytes>> {
        let method = req.method().to_string();
        let path = req.url().path().to_string();
        let query: Vec<(String, String)> = req.url().query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect();
        let body = req.body().and_then(|b| b.as_bytes()).map(|b| serde_json::from_slice(b).unwrap_or(Value::String(String::from_utf8_lossy(b).into_owned()))).unwrap_or(Value::Null);
        let headers: BTreeMap<String, String> = req.headers().iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect();
        let covers = covers(self.plan.ids, &method, &path, &query, &body, &headers);
        let start = at();
        let url = req.url().to_string();
        let n = self.calls.with(|c| {
            let n = c.len();
            c.push(Call { n, method, url, path, query, body, headers, covers, start, end: start, outcome: Outcome::Pending, resp_headers: vec![] });
            n
        });
        let call = self.calls.with(|c| c[n].clone());
        simrt::event(|| format!("call {n} {} {} body {} auth {:?} at {:?}", call.method, call.url, call.body, call.headers.get("authorization"), call.start));
        let mut guard = Guard { calls: self.calls.clone(), n, done: false };
        let pick = |l: usize| if l == 0 { None } else { Some(n % l) };
        let mut f = pick(self.plan.faults.len()).map(|i| self.plan.faults[i].clone()).unwrap_or(Fault::Ok);
        if *self.quiet.lock().unwrap() || call.start.t / 1000 > self.plan.fault_until {
            f = Fault::Ok;
        }
        let lat = pick(self.plan.lat.len()).map(|i| self.plan.lat[i]).unwrap_or(0)
            + match &f {
                Fault::Slow(x) => *x,
                Fault::Hang => 60_000_000,
                _ => 0,
            };
        if lat > 0 {
            simrt::sleep(us(lat)).await;
        }
        let name = match f {
            Fault::Ok => "",
            Fault::Conn => "connection_error",
            Fault::Status500 => "status_500",
            Fault::Garbage => "garbage_body",
            Fault::Truncated => "truncated_body",
            Fault::Empty => "empty_body",
            Fault::MissingRows => "missing_rows",
            Fault::Reverse => "reordered_rows",
            Fault::GqlErrors => "graphql_errors",
            Fault::Slow(_) => "slow_response",
            Fault::Hang => "hung_upstream",
        };
        if !name.is_empty() {
            fault(&self.faults, name);
        }
        let heads: Vec<(String, String)> = pick(self.plan.heads.len()).map(|i| self.plan.heads[i].clone()).unwrap_or_default();
        let finish = |o: Outcome| {
            let end = at();
            self.calls.with(|c| {
                c[n].outcome = o.clone();
                c[n].end = end;
                c[n].resp_headers = heads.clone();
            });
            simrt::event(|| format!("call {n} -> {o:?} at {end:?}"));
        };
        guard.done = true;
        let fail = |k: &'static str, m: String| {
            finish(Outcome::Failed(k));
            Err(anyhow!("{m} [#{n}]"))
        };
        match f {
            Fault::Conn => return fail("conn", "error sending request".into()),
            Fault::Hang => return fail("hang", "operation timed out".into()),
            Fault::Status500 => return fail("500", "HTTP status server error (500 Internal Server Error)".into()),
            _ => {}
        }
        let Some(mut v) = self.answer(&call) else {
            return fail("404", "HTTP status client error (404 Not Found)".into());
        };
        let mut text = None;
        let mut out = Outcome::Delivered;
        match f {
            Fault::Garbage => {
                text = Some("<html>bad gateway</html>".to_string());
                out = Outcome::Failed("garbage");
            }
            Fault::Truncated => {
                let s = v.to_string();
                text = Some(s[..s.len() - 1].to_string());
                out = Outcome::Failed("truncated");
            }
            Fault::Empty => {
                text = Some(String::new());
                // no JSON is null to an HTTP resolver and no answer to a GraphQL one
                out = if call.path == "/graphql" { Outcome::Failed("empty") } else { Outcome::Soft("empty") };
            }
            Fault::MissingRows => {
                // answers of a GraphQL batch are positional
                let rows = call.path != "/graphql";
                if let (Value::Array(a), true) = (&mut v, rows) {
                    let mut i = 0;
                    a.retain(|_| {
                        i += 1;
                        i % 2 == 0
                    });
                    out = Outcome::Soft("missing");
                }
            }
            Fault::Reverse => {
                // only grouped answers may come in any order
                let grouped = matches!(call.covers.first(), Some(Res::UsersQ(_) | Res::UsersB(_) | Res::Tenant(..)));
                if let (Value::Array(a), true) = (&mut v, grouped) {
                    a.reverse();
                }
            }
            Fault::GqlErrors => {
                let one = |v: &mut Value| {
                    match n % 3 {
                        0 => v["data"] = Value::Null,
                        1 => v["data"]["user"] = Value::Null,
                        // both
                        _ => {}
                    }
                    v["errors"] = json!([{"message": format!("upstream says no [#{n}]")}]);
                };
                if matches!(call.covers.first(), Some(Res::UserG(_))) {
                    match &mut v {
                        Value::Array(a) => a.iter_mut().enumerate().filter(|(i, _)| i % 2 == 0).for_each(|(_, v)| one(v)),
                        v => one(v),
                    }
                    out = Outcome::Soft(GQL_ERRORS);
                }
            }
            _ => {}
        }
        if let (Value::Array(a), Some(Res::UsersQ(_) | Res::UsersB(_) | Res::Tenant(..)), true) = (&v, call.covers.first(), self.plan.nest > 0) {
            v = a.chunks(self.plan.nest).map(|c| json!(c)).collect();
        }
        if call.path.starts_with("/deep/") && v.is_array() {
            v = json!({"id": 1, "rows": {"id": "rows", "all": v}, "all": []});
        }
        let text = text.unwrap_or_else(|| v.to_string());
        finish(out);
        let mut h = reqwest::header::HeaderMap::new();
        h.insert("content-type", reqwest::header::HeaderValue::from_static("application/json"));
        for (k, v) in heads.iter() {
            h.append(
                reqwest::header::HeaderName::from_bytes(k.as_bytes()).unwrap(),
                reqwest::header::HeaderValue::from_str(v).unwrap(),
            );
        }
        Ok(Response { status: reqwest::StatusCode::OK, headers: h, body: Bytes::from(text) })
    }
}
