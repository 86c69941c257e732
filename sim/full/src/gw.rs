//! The gateway under test: configuration, application context, requests.
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use anyhow::Result;
use async_graphql_value::ConstValue;
use hyper::{Body, Request};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::async_graphql_hyper::{GraphQLBatchRequest, GraphQLRequest};
use tailcall::core::blueprint::Blueprint;
use tailcall::core::cache::InMemoryCache;
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::http::handle_request;
use tailcall::core::rest::{Checked, EndpointSet};
use tailcall::core::runtime::TargetRuntime;
use tailcall::core::worker::{Command, Event};
use tailcall::core::{EnvIO, FileIO, HttpIO, WorkerIO};

use crate::util::*;

/// Files of the simulated machine.
#[derive(Default, Clone)]
pub struct SimFile {
    pub files: Arc<Mutex<BTreeMap<String, String>>>,
    pub reads: Log<String>,
    /// nth read fails
    pub fail_at: Arc<Mutex<Vec<usize>>>,
    /// µs per read
    pub lat: u64,
}
#[async_trait::async_trait]
impl FileIO for SimFile {
    async fn write<'a>(&'a self, path: &'a str, content: &'a [u8]) -> Result<()> {
        self.files.lock().unwrap().insert(path.into(), String::from_utf8_lossy(content).into_owned());
        Ok(())
    }
    async fn read<'a>(&'a self, path: &'a str) -> Result<String> {
        let n = self.reads.push(path.to_string());
        if self.lat > 0 {
            simrt::sleep(us(self.lat)).await;
        }
        if self.fail_at.lock().unwrap().contains(&n) {
            anyhow::bail!("disk error reading {path} [#{n}]");
        }
        self.files.lock().unwrap().get(path).cloned().ok_or_else(|| anyhow::anyhow!("No such file or directory: {path}"))
    }
}
#[derive(Default, Clone)]
pub struct SimEnv(pub BTreeMap<String, String>);
impl EnvIO for SimEnv {
    fn get(&self, key: &str) -> Option<Cow<'_, str>> {
        self.0.get(key).map(|s| Cow::from(s.as_str()))
    }
}

pub type Workers = (Option<Arc<dyn WorkerIO<Event, Command>>>, Option<Arc<dyn WorkerIO<ConstValue, ConstValue>>>);

pub fn runtime(http: Arc<dyn HttpIO>, file: SimFile, env: SimEnv, w: Workers) -> TargetRuntime {
    TargetRuntime {
        http: http.clone(),
        http2_only: http,
        env: Arc::new(env),
        file: Arc::new(file),
        cache: Arc::new(InMemoryCache::default()),
        extensions: Arc::new(vec![]),
        cmd_worker: w.0,
        worker: w.1,
    }
}

pub struct Files(pub Vec<(String, String)>);

/// Reads the configuration with the real reader and builds the application.
pub async fn load(rt: &TargetRuntime) -> Result<(Blueprint, EndpointSet<Checked>)> {
    load_at(rt, "/app/config.json").await
}
async fn load_at(rt: &TargetRuntime, path: &str) -> Result<(Blueprint, EndpointSet<Checked>)> {
    let reader = ConfigReader::init(rt.clone());
    let module = reader.read_all(&[path]).await?;
    let blueprint = Blueprint::try_from(&module).map_err(|e| anyhow::anyhow!("{e}"))?;
    let endpoints = module.extensions().endpoint_set.clone().into_checked(&blueprint, rt.clone()).await?;
    Ok((blueprint, endpoints))
}

/// A configuration is read once per process and reused: its result does not depend on the run.
pub fn prepared(files: &[(String, String)], env: &SimEnv) -> Result<(Blueprint, EndpointSet<Checked>)> {
    prepared_at(files, env, "/app/config.json")
}
pub fn prepared_at(files: &[(String, String)], env: &SimEnv, path: &str) -> Result<(Blueprint, EndpointSet<Checked>)> {
    let key = format!("{path}{:?}{:?}", files, env.0);
    if let Some(x) = CACHE.lock().unwrap().get(&key) {
        return Ok(x.clone());
    }
    let sf = SimFile::default();
    for (k, v) in files {
        sf.files.lock().unwrap().insert(k.clone(), v.clone());
    }
    let rt = runtime(Arc::new(NoHttp), sf, env.clone(), (None, None));
    // in a thread of its own, whose hash seeds do not depend on what ran before
    let x = std::thread::scope(|s| s.spawn(|| futures_util::FutureExt::now_or_never(load_at(&rt, path))).join())
        .expect("configuration loading does not panic")
        .expect("configuration loading waits for nothing here")?;
    let mut c = CACHE.lock().unwrap();
    if c.len() > 400 {
        c.clear();
    }
    c.insert(key, x.clone());
    Ok(x)
}
pub struct NoHttp;
#[async_trait::async_trait]
impl HttpIO for NoHttp {
    async fn execute(&self, r: reqwest::Request) -> Result<tailcall::core::http::Response<hyper::body::Bytes>> {
        anyhow::bail!("no network: {}", r.url())
    }
}
static CACHE: Mutex<BTreeMap<String, (Blueprint, EndpointSet<Checked>)>> = Mutex::new(BTreeMap::new());

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Knobs {
    /// (delay ms, max size)
    pub batch: Option<(u64, u64)>,
    pub batch_headers: bool,
    /// bit per resolver
    pub dedupe: u16,
    /// 0 single, 1 grouped, 2 body batch, 3 @call, 4 @graphQL, 5 @graphQL batched
    pub rel_user: u8,
    pub rel_posts: u8,
    pub rel_comments: u8,
    /// (resolver, ms)
    pub cache: Vec<(u8, u64)>,
    #[serde(default)]
    pub server: Value,
    #[serde(default)]
    pub root_cache: bool,
    /// how ids look
    #[serde(default)]
    pub ids: u8,
    /// the rows of grouped answers are inside of objects
    #[serde(default)]
    pub deep: bool,
    /// how mutations are sent: @http, @graphQL (also as a batch), @call; each may ask for dedupe
    #[serde(default)]
    pub creates: u8,
}
impl Knobs {
    fn create(&self) -> String {
        let d = if self.creates / 4 % 2 == 1 { ", dedupe: true" } else { "" };
        let http = |d: &str| format!(r#"@http(url: "http://up/posts", method: POST, body: {{nonce: "{{{{.args.nonce}}}}"}}{d})"#);
        match self.creates % 4 {
            0 => http(d),
            3 => format!("@call(steps: [{{mutation: \"made\", args: {{nonce: \"{{{{.args.nonce}}}}\"}}}}]{d})\n  made(nonce: Int!): Post {}", http(d)),
            m => format!(r#"@graphQL(url: "http://up/graphql", name: "create", args: [{{key: "nonce", value: "{{{{.args.nonce}}}}"}}]{}{d})"#, if m == 2 && self.batching() { ", batch: true" } else { "" }),
        }
    }
    pub fn id_type(&self) -> &'static str {
        if self.ids == 0 {
            "Int"
        } else {
            "ID"
        }
    }
    pub fn batching(&self) -> bool {
        self.batch.is_some_and(|(d, m)| d >= 1 && m >= 1)
    }
    pub fn user_mode(&self) -> u8 {
        match self.rel_user % 6 {
            1 | 2 | 5 if !self.batching() => 0,
            x => x,
        }
    }
    pub fn posts_mode(&self) -> u8 {
        if self.batching() {
            self.rel_posts % 2
        } else {
            0
        }
    }
    pub fn comments_mode(&self) -> u8 {
        if self.batching() {
            self.rel_comments % 2
        } else {
            0
        }
    }
    pub fn cache_of(&self, f: u8) -> Option<u64> {
        self.cache.iter().find(|c| c.0 == f).map(|c| c.1.max(1))
    }
    /// how old data of this field may be: an entry is made by whichever field asks
    /// for the same thing first, and lives as long as that field says
    pub fn age_of(&self, f: u8) -> Option<u64> {
        let through = |a: Option<u64>, b: Option<u64>| match (a, b) {
            (None, None) => None,
            (a, b) => Some(a.unwrap_or(0) + b.unwrap_or(0)),
        };
        let joint = |f: u8, other: &[u8]| self.cache_of(f).map(|own| other.iter().filter_map(|o| self.cache_of(*o)).max().unwrap_or(0).max(own));
        match f {
            // @call resolves through the field it names, which has an entry of its own
            R_POST_USER if self.user_mode() == 3 => through(self.cache_of(f), self.cache_of(R_USER)),
            R_POST_USER if self.user_mode() == 0 => joint(f, &[R_USER]),
            R_USER if self.user_mode() == 0 || self.user_mode() == 3 => joint(f, &[R_POST_USER]),
            R_POST => joint(f, &[R_COMMENT_POST]),
            R_COMMENT_POST => joint(f, &[R_POST]),
            _ => self.cache_of(f),
        }
    }
    pub fn deduped_of(&self, f: u8) -> bool {
        self.deduped(if f == R_POST_USER && self.user_mode() == 3 { R_USER } else { f })
    }
    pub fn deduped(&self, f: u8) -> bool {
        self.dedupe >> f & 1 == 1
    }
}

pub const R_POSTS: u8 = 0;
pub const R_POST: u8 = 1;
pub const R_USERS: u8 = 2;
pub const R_USER: u8 = 3;
pub const R_ME: u8 = 4;
pub const R_POST_USER: u8 = 5;
pub const R_POST_COMMENTS: u8 = 6;
pub const R_USER_POSTS: u8 = 7;
pub const R_COMMENT_POST: u8 = 8;
pub const R_POST_OWNER: u8 = 9;
pub const NRES: u8 = 10;

pub fn sdl(k: &Knobs) -> String {
    let c = |f: u8| k.cache_of(f).map(|ms| format!(" @cache(maxAge: {ms})")).unwrap_or_default();
    let d = |f: u8| if k.deduped(f) { ", dedupe: true" } else { "" };
    let (deep, rows) = if k.deep { ("/deep", r#""rows", "all", "#) } else { ("", "") };
    let user = match k.user_mode() {
        0 => format!(r#"@http(url: "http://up/users/{{{{.value.userId}}}}"{})"#, d(R_POST_USER)),
        1 => format!(r#"@http(url: "http://up{deep}/users", query: [{{key: "{}", value: "{{{{.value.userId}}}}"}}, {{key: "idle", value: "1"}}], batchKey: [{rows}"id"]{})"#, if k.deep { "uid" } else { "id" }, d(R_POST_USER)),
        2 => format!(r#"@http(url: "http://up{deep}/users/batch", method: POST, body: {{id: "{{{{.value.userId}}}}"}}, batchKey: [{rows}"id"]{})"#, d(R_POST_USER)),
        3 => r#"@call(steps: [{query: "user", args: {id: "{{.value.userId}}"}}])"#.to_string(),
        m => format!(r#"@graphQL(url: "http://up/graphql", name: "user", args: [{{key: "id", value: "{{{{.value.userId}}}}"}}]{}{})"#, if m == 5 { ", batch: true" } else { "" }, d(R_POST_USER)),
    };
    let by = |m: u8, url: &str, key: &str, val: &str, r: u8| {
        format!(r#"@http(url: "http://up/{url}", query: [{{key: "{key}", value: "{{{{.value.{val}}}}}"}}]{}{})"#, if m == 1 { format!(r#", batchKey: ["{key}"]"#) } else { String::new() }, d(r))
    };
    let owner = if k.batching() {
        format!("\n  owner: Owner @http(url: \"http://up/tenants/{{{{.headers.tenant}}}}/users\", query: [{{key: \"id\", value: \"{{{{.value.userId}}}}\"}}], batchKey: [\"id\"]{}){}", d(R_POST_OWNER), c(R_POST_OWNER))
    } else {
        String::new()
    };
    format!(
        r#"schema {{ query: Query mutation: Mutation }}
type Query {{
  posts: [Post] @http(url: "http://up/posts"{d0}){c0}
  post(id: {id}!): Post @http(url: "http://up/posts/{{{{.args.id}}}}"{d1}){c1}
  users: [User] @http(url: "http://up/users"{d2}){c2}
  user(id: {id}!): User @http(url: "http://up/users/{{{{.args.id}}}}"{d3}){c3}
  me: Me @http(url: "http://up/me"{d4}){c4}
}}
type Mutation {{
  create(nonce: Int!): Post {create}
}}
type Post {{
  id: {id}!
  title: String
  userId: {id}!
  rev: Int
  user: User {user}{c5}
  comments: [Comment] {comments}{c6}{owner}
}}
type User {{
  id: {id}!
  name: String
  rev: Int
  posts: [Post] {posts}{c7}
}}
type Comment {{
  id: {id}!
  postId: {id}!
  text: String
  rev: Int
  post: Post @http(url: "http://up/posts/{{{{.value.postId}}}}"{d8}){c8}
}}
type Me {{ id: {id} owner: String rev: Int }}
type Owner {{ id: {id} name: String owner: String rev: Int }}
"#,
        id = k.id_type(), d0 = d(R_POSTS), c0 = c(R_POSTS), d1 = d(R_POST), c1 = c(R_POST), d2 = d(R_USERS), c2 = c(R_USERS), d3 = d(R_USER), c3 = c(R_USER), d4 = d(R_ME), c4 = c(R_ME),
        create = k.create(), user = user, c5 = c(R_POST_USER),
        comments = by(k.comments_mode(), "comments", "postId", "id", R_POST_COMMENTS), c6 = c(R_POST_COMMENTS),
        posts = by(k.posts_mode(), "posts", "userId", "id", R_USER_POSTS), c7 = c(R_USER_POSTS),
        d8 = d(R_COMMENT_POST), c8 = c(R_COMMENT_POST),
    )
}

pub fn files(k: &Knobs) -> Vec<(String, String)> {
    let mut up = json!({"allowedHeaders": ["authorization", "tenant"]});
    if let Some((d, m)) = k.batch {
        up["batch"] = json!({"delay": d, "maxSize": m, "headers": if k.batch_headers { vec!["authorization", "tenant"] } else { vec![] }});
    }
    let server = if k.server.is_object() { k.server.clone() } else { json!({}) };
    let cfg = json!({"server": server, "upstream": up, "links": [{"src": "/app/schema.graphql", "type": "Config"}]});
    vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl(k))]
}

#[derive(Clone, Debug)]
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: String,
}
impl Reply {
    pub fn json(&self) -> Value {
        serde_json::from_str(&self.body).unwrap_or(Value::String(self.body.clone()))
    }
    pub fn header(&self, k: &str) -> Vec<&str> {
        self.headers.iter().filter(|h| h.0 == k).map(|h| h.1.as_str()).collect()
    }
}

/// One HTTP request through the real request handler.
pub async fn send(app: Arc<AppContext>, method: &str, uri: &str, headers: &[(String, String)], body: String, batch: bool) -> std::result::Result<Reply, String> {
    send_bytes(app, method, uri, headers, body.into_bytes(), batch).await
}
pub async fn send_bytes(app: Arc<AppContext>, method: &str, uri: &str, headers: &[(String, String)], body: Vec<u8>, batch: bool) -> std::result::Result<Reply, String> {
    let mut b = Request::builder().method(method).uri(format!("http://localhost:8000{uri}"));
    if !headers.iter().any(|h| h.0 == "content-type") {
        b = b.header("content-type", "application/json");
    }
    for (k, v) in headers {
        b = b.header(k.as_str(), v.as_str());
    }
    let req = b.body(Body::from(body)).map_err(|e| e.to_string())?;
    let r = if batch { handle_request::<GraphQLBatchRequest>(req, app).await } else { handle_request::<GraphQLRequest>(req, app).await };
    let r = r.map_err(|e| format!("{e:#}"))?;
    let status = r.status().as_u16();
    let mut headers: Vec<(String, String)> = r.headers().iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect();
    // which names come first may hang on a hash map of the configuration
    headers.sort_by(|a, b| a.0.cmp(&b.0));
    let body = hyper::body::to_bytes(r.into_body()).await.map_err(|e| e.to_string())?;
    Ok(Reply { status, headers, body: String::from_utf8_lossy(&body).into_owned() })
}
