//! `full spec DIR`: runs the repository's own execution specs (which need what cannot be built here)
//! on the simulated gateway. Not a check: it tells whether a repair changes what the repository expects.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};

use hyper::{Body, Request};
use serde_json::{json, Value};
use simrt::SchedCfg;
use tailcall::core::app_context::AppContext;
use tailcall::core::async_graphql_hyper::{GraphQLBatchRequest, GraphQLRequest};
use tailcall::core::blueprint::Blueprint;
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::config::transformer::Required;
use tailcall::core::config::{Config, Link, RuntimeConfig, Source};
use tailcall::core::http::{handle_request, Response};
use tailcall::core::merge_right::MergeRight;
use tailcall::core::print_schema::print_schema;
use tailcall::core::{FileIO, HttpIO};
use tailcall_valid::Validator;

use crate::gw::*;

struct F(BTreeMap<String, String>);
#[async_trait::async_trait]
impl FileIO for F {
    async fn write<'a>(&'a self, _: &'a str, _: &'a [u8]) -> anyhow::Result<()> {
        anyhow::bail!("Cannot write to a file in an execution spec")
    }
    async fn read<'a>(&'a self, path: &'a str) -> anyhow::Result<String> {
        let n = Path::new(path).file_name().unwrap().to_str().unwrap();
        self.0.get(n).cloned().ok_or(anyhow::anyhow!("No such file or directory (os error 2)"))
    }
}
struct Mock(Vec<Value>, Mutex<Vec<usize>>);
fn unescape(s: &str) -> Vec<u8> {
    let (mut out, mut c) = (vec![], s.chars());
    while let Some(x) = c.next() {
        if x != '\\' {
            out.push(x as u8);
            continue;
        }
        match c.next() {
            Some('0') => out.push(0),
            Some('n') => out.push(b'\n'),
            Some('t') => out.push(b'\t'),
            Some('r') => out.push(b'\r'),
            Some('x') => {
                let h: String = c.by_ref().take(2).collect();
                out.push(u8::from_str_radix(&h, 16).unwrap())
            }
            Some(x) => out.push(x as u8),
            None => {}
        }
    }
    out
}
fn body(v: &Value) -> Option<Vec<u8>> {
    if let Some(t) = v["textBody"].as_str() {
        Some(unescape(t))
    } else if v.get("fileBody").is_some() {
        Some(b"?".to_vec())
    } else {
        v.get("body").map(|b| serde_json::to_vec(b).unwrap())
    }
}
fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    }
}
#[async_trait::async_trait]
impl HttpIO for Mock {
    async fn execute(&self, req: reqwest::Request) -> anyhow::Result<Response<hyper::body::Bytes>> {
        if std::env::var("SPEC_PRINT").is_ok() {
            eprintln!("{req:?} {}", String::from_utf8_lossy(req.body().and_then(|b| b.as_bytes()).unwrap_or_default()));
        }
        let i = self
            .0
            .iter()
            .position(|m| {
                let r = &m["request"];
                let url = url::Url::parse(r["url"].as_str().unwrap_or_default()).map(|u| u.to_string()).unwrap_or_default();
                req.method().as_str() == r["method"].as_str().unwrap_or("GET")
                    && req.url().as_str() == url
                    && body(r).is_none_or(|b| req.body().and_then(|x| x.as_bytes()) == Some(&b[..]))
                    && req.headers().iter().filter(|(k, _)| *k != "content-type").all(|(k, v)| {
                        let h = r["headers"].as_object().and_then(|h| h.get(k.as_str())).map(text).unwrap_or_default();
                        v.to_str().unwrap() == h
                    })
            })
            .ok_or_else(|| anyhow::anyhow!("No mock found for request: {:?} {} in {}", req.method(), req.url(), "SPEC"))?;
        self.1.lock().unwrap()[i] += 1;
        let r = &self.0[i]["response"];
        let status = r["status"].as_u64().unwrap_or(200);
        if status >= 400 {
            anyhow::bail!("Status code error");
        }
        let mut res = Response { status: reqwest::StatusCode::from_u16(status as u16)?, ..Default::default() };
        for (k, v) in r["headers"].as_object().into_iter().flatten() {
            res.headers.insert(k.parse::<http::HeaderName>()?, text(v).parse()?);
        }
        if let Some(b) = body(r) {
            res.body = b.into();
        }
        Ok(res)
    }
}
fn flat(s: &str) -> String {
    let mut s: String = s.chars().filter(|c| !c.is_whitespace() && *c != ',').collect();
    s = s.replace("\"\"\"", "\"");
    s
}
/// blocks of a file: (language, meta, text)
fn blocks(s: &str) -> Vec<(String, String, String)> {
    let mut out = vec![];
    let mut cur: Option<(String, String, String, String)> = None;
    for l in s.lines() {
        match &mut cur {
            None => {
                if l.starts_with("```") {
                    let t = l.trim_start_matches('`');
                    let fence = l[..l.len() - t.len()].to_string();
                    let (a, b) = t.trim().split_once(' ').unwrap_or((t.trim(), ""));
                    cur = Some((fence, a.into(), b.trim().replace('@', ""), String::new()));
                }
            }
            Some(c) => {
                if l.trim_end() == c.0 {
                    let c = cur.take().unwrap();
                    out.push((c.1, c.2, c.3.strip_suffix('\n').unwrap_or(&c.3).to_string()));
                } else {
                    c.3 += l;
                    c.3 += "\n";
                }
            }
        }
    }
    out
}
fn data(lang: &str, s: &str) -> Value {
    if lang == "json" {
        serde_json::from_str(s).unwrap()
    } else {
        serde_yaml_ng::from_str(s).unwrap()
    }
}

async fn one(path: &Path, s: &str, snaps: &Path) -> Vec<String> {
    let name = path.file_name().unwrap().to_str().unwrap();
    let snap = |x: &str| std::fs::read_to_string(snaps.join(format!("{name}_{x}.snap"))).ok().map(|t| t.splitn(3, "---\n").nth(2).unwrap_or("").trim_end().to_string());
    let mut config = RuntimeConfig::default();
    let (mut files, mut mock, mut env, mut tests, mut n) = (BTreeMap::new(), vec![], BTreeMap::new(), None, 0);
    for (lang, meta, t) in blocks(s) {
        if let Some(f) = meta.strip_prefix("file:") {
            files.insert(f.to_string(), t);
            continue;
        }
        match meta.as_str() {
            "config" => config = config.merge_right(RuntimeConfig::from_source(lang.parse::<Source>().unwrap(), &t).unwrap()),
            "schema" => {
                let f = format!("schema_{n}.graphql");
                files.insert(f.clone(), t);
                config.links.push(Link { src: f, ..Default::default() });
                n += 1;
            }
            "mock" => mock = data(&lang, &t).as_array().cloned().unwrap_or_default(),
            "env" => {
                for (k, v) in data(&lang, &t).as_object().unwrap() {
                    env.insert(k.clone(), text(v));
                }
            }
            "test" => tests = data(&lang, &t).as_array().cloned(),
            _ => {}
        }
    }
    let mut bad = vec![];
    let hits = Arc::new(Mock(mock.clone(), Mutex::new(vec![0; mock.len()])));
    let mut rt = runtime(hits.clone(), SimFile::default(), SimEnv(env), (None, None));
    rt.file = Arc::new(F(files));
    let reader = ConfigReader::init(rt.clone());
    let module = match reader.resolve(Config::from(config), path.parent()).await {
        Ok(m) => m.transform(Required).to_result().map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
    };
    let module = module.and_then(|m| Blueprint::try_from(&m).map(|b| (m, b)).map_err(|e| e.to_string()));
    if let Some(e) = snap("error") {
        match module {
            Ok(_) => bad.push("no configuration error".into()),
            Err(m) => {
                let want: Value = serde_json::from_str(&e).unwrap();
                for w in want.as_array().unwrap() {
                    if !m.contains(w["message"].as_str().unwrap()) {
                        bad.push(format!("error {} is missing in {m}", w["message"]));
                    }
                }
            }
        }
        return bad;
    }
    let (module, blueprint) = match module {
        Ok(x) => x,
        Err(e) => return vec![format!("configuration: {e}")],
    };
    if let Some(m) = snap("merged") {
        if flat(&m) != flat(&module.to_sdl()) {
            bad.push(format!("merged: {}", module.to_sdl()));
        }
    }
    if let Some(m) = snap("client") {
        let sdl = print_schema(blueprint.to_schema());
        if flat(&m) != flat(&sdl) {
            bad.push(format!("client: {sdl}"));
        }
    }
    let Some(tests) = tests else { return bad };
    let ep = module.extensions().endpoint_set.clone().into_checked(&blueprint, rt.clone()).await;
    let ep = match ep {
        Ok(x) => x,
        Err(e) => return vec![format!("endpoints: {e}")],
    };
    if let Some(script) = blueprint.server.script.clone() {
        rt.cmd_worker = Some(tailcall::javascript::init_worker_io(script.clone()));
        rt.worker = Some(tailcall::javascript::init_worker_io(script));
    }
    let app = Arc::new(AppContext::new(blueprint, rt, ep));
    for (i, t) in tests.iter().enumerate() {
        let mut all = vec![];
        for _ in 0..t["concurrency"].as_u64().unwrap_or(1) {
            let (app, t) = (app.clone(), t.clone());
            all.push(simrt::task::spawn_named("user", async move {
                let mut r = Request::builder().method(t["method"].as_str().unwrap_or("GET")).uri(t["url"].as_str().unwrap());
                for (k, v) in t["headers"].as_object().into_iter().flatten() {
                    r = r.header(k, text(v));
                }
                let r = r.body(body(&t).map(Body::from).unwrap_or_default()).unwrap();
                let x = if app.blueprint.server.enable_batch_requests { handle_request::<GraphQLBatchRequest>(r, app).await } else { handle_request::<GraphQLRequest>(r, app).await };
                match x {
                    Ok(r) => {
                        let (p, b) = r.into_parts();
                        let b = hyper::body::to_bytes(b).await.unwrap();
                        let h: BTreeMap<String, String> = p.headers.iter().map(|(k, v)| (k.to_string(), v.to_str().unwrap().to_string())).collect();
                        json!({"status": p.status.as_u16(), "headers": h, "body": serde_json::from_slice::<Value>(&b).unwrap_or_default()})
                    }
                    Err(e) => json!(e.to_string()),
                }
            }));
        }
        for h in all {
            let got = match h.await {
                Ok(x) => x,
                Err(e) => json!(format!("panic {e:?}")),
            };
            let Some(w) = snap(&i.to_string()) else {
                if std::env::var("SPEC_PRINT").is_ok() {
                    println!("{name} test {i}: {got}");
                }
                continue;
            };
            let w: Value = serde_json::from_str(&w.replace("in tests/execution/", "in SPEC ").replace(&format!("SPEC {name}"), "SPEC")).unwrap();
            if w != got {
                bad.push(format!("test {i}: expected {w}\n     got {got}"));
            }
        }
    }
    for (m, n) in mock.iter().zip(hits.1.lock().unwrap().iter()) {
        let want = m["expectedHits"].as_u64().unwrap_or(1) as usize;
        if m["assertHits"] != json!(false) && *n != want {
            bad.push(format!("{} was called {n} times, not {want}", m["request"]["url"]));
        }
    }
    bad
}

pub fn main(dir: &str) {
    let dir = Path::new(dir).to_path_buf();
    let snaps = dir.parent().unwrap().join("core/snapshots");
    let only = std::env::args().nth(3);
    let mut names: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "md")).collect();
    names.sort();
    let (mut good, mut failed) = (0, 0);
    for p in names {
        if only.as_ref().is_some_and(|o| !p.to_str().unwrap().contains(o.as_str())) {
            continue;
        }
        let s = std::fs::read_to_string(&p).unwrap();
        if s.contains("skip: true") {
            continue;
        }
        let out = Arc::new(Mutex::new(vec!["died".to_string()]));
        let (o2, p2, sn) = (out.clone(), p.clone(), snaps.clone());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let cfg = SchedCfg::default();
            simrt::world::run(&cfg, None, move || async move {
                let x = one(&p2, &s, &sn).await;
                *o2.lock().unwrap() = x;
            })
        }));
        let mut bad = out.lock().unwrap().clone();
        if r.is_err() {
            bad.push("panic".into());
        }
        if bad.is_empty() {
            good += 1;
        } else {
            failed += 1;
            println!("FAIL {}", p.file_name().unwrap().to_str().unwrap());
            for b in bad {
                println!("   {}", b.chars().take(1500).collect::<String>());
            }
        }
    }
    println!("{good} good, {failed} failed");
}
