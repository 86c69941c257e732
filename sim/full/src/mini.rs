//! A small scripted upstream for the scenarios that need routes of their own.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use anyhow::{anyhow, Result};
use async_trait::async_trait;
use hyper::body::Bytes;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use tailcall::core::http::Response;
use tailcall::core::HttpIO;

use crate::up::Outcome;
use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct MiniPlan {
    /// µs, by call number
    pub lat: Vec<u64>,
    /// by call number: 0 fine, 1 connection error, 2 status 500, 3 garbage, 4 hang
    pub fail: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct MCall {
    pub n: usize,
    pub method: String,
    pub url: String,
    pub path: String,
    pub query: Vec<(String, String)>,
    pub body: Value,
    pub raw: Vec<u8>,
    pub headers: BTreeMap<String, String>,
    /// every header with all its values
    pub heads: BTreeMap<String, Vec<String>>,
    pub start: At,
    pub end: At,
    pub outcome: Outcome,
    pub sent: Vec<(String, String)>,
}
impl MCall {
    pub fn auth(&self) -> &str {
        self.headers.get("authorization").map(|s| s.as_str()).unwrap_or("")
    }
    pub fn failed(&self) -> bool {
        matches!(self.outcome, Outcome::Failed(_))
    }
    pub fn segs(&self) -> Vec<&str> {
        self.path.trim_matches('/').split('/').collect()
    }
}
pub struct Ans {
    pub heads: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Ans {
    pub fn json(v: Value) -> Option<Ans> {
        Some(Ans { heads: vec![], body: v.to_string().into_bytes() })
    }
}
type Answer = Arc<dyn Fn(&MCall) -> Option<Ans> + Send + Sync>;
#[derive(Clone)]
pub struct Mini {
    pub plan: MiniPlan,
    pub calls: Log<MCall>,
    pub faults: Faults,
    pub quiet: Arc<Mutex<bool>>,
    pub answer: Answer,
}
impl Mini {
    pub fn new(plan: MiniPlan, answer: impl Fn(&MCall) -> Option<Ans> + Send + Sync + 'static) -> Self {
        Mini { plan, calls: Log::default(), faults: Faults::default(), quiet: Arc::default(), answer: Arc::new(answer) }
    }
}
struct Guard {
    calls: Log<MCall>,
    n: usize,
}
impl Drop for Guard {
    fn drop(&mut self) {
        let n = self.n;
        self.calls.with(|c| {
            if c[n].outcome == Outcome::Pending {
                c[n].outcome = Outcome::Dropped;
                c[n].end = At { s: u64::MAX, t: u64::MAX };
            }
        });
    }
}
#[async_trait]
impl HttpIO for Mini {
    async fn execute(&self, req: reqwest::Request) -> Result<Response<Bytes>> {
        let raw = req.body().and_then(|b| b.as_bytes()).map(|b| b.to_vec()).unwrap_or_default();
        let body = serde_json::from_slice(&raw).unwrap_or(Value::String(String::from_utf8_lossy(&raw).into_owned()));
        let headers = req.headers().iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect();
        let mut heads = BTreeMap::<String, Vec<String>>::new();
        for (k, v) in req.headers() {
            heads.entry(k.to_string()).or_default().push(String::from_utf8_lossy(v.as_bytes()).into_owned());
        }
        let start = at();
        let call = self.calls.with(|c| {
            let call = MCall {
                n: c.len(),
                method: req.method().to_string(),
                url: req.url().to_string(),
                path: req.url().path().to_string(),
                query: req.url().query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect(),
                body,
                raw,
                headers,
                heads,
                start,
                end: start,
                outcome: Outcome::Pending,
                sent: vec![],
            };
            c.push(call.clone());
            call
        });
        let n = call.n;
        simrt::event(|| format!("call {n} {} {} body {} headers {:?} at {start:?}", call.method, call.url, call.body, call.headers));
        let _guard = Guard { calls: self.calls.clone(), n };
        let pick = |l: usize| if l == 0 { None } else { Some(n % l) };
        let quiet = *self.quiet.lock().unwrap();
        let f = if quiet { 0 } else { pick(self.plan.fail.len()).map(|i| self.plan.fail[i]).unwrap_or(0) };
        let lat = pick(self.plan.lat.len()).map(|i| self.plan.lat[i]).unwrap_or(0) + if f == 4 { 60_000_000 } else { 0 };
        let lat = if quiet { lat.min(1000) } else { lat };
        if lat > 0 {
            simrt::sleep(us(lat)).await;
        }
        let ans = (self.answer)(&call);
        let (o, name) = match (f, &ans) {
            (1, _) => (Outcome::Failed("conn"), "connection_error"),
            (2, _) => (Outcome::Failed("500"), "status_500"),
            (3, _) => (Outcome::Failed("garbage"), "garbage_body"),
            (4, _) => (Outcome::Failed("hang"), "hung_upstream"),
            (_, None) => (Outcome::Failed("404"), ""),
            _ => (Outcome::Delivered, ""),
        };
        if !name.is_empty() {
            fault(&self.faults, name);
        }
        let end = at();
        self.calls.with(|c| {
            c[n].outcome = o.clone();
            c[n].end = end;
            c[n].sent = ans.as_ref().map(|a| a.heads.clone()).unwrap_or_default();
        });
        simrt::event(|| format!("call {n} -> {o:?} at {end:?}"));
        let mut h = reqwest::header::HeaderMap::new();
        h.insert("content-type", reqwest::header::HeaderValue::from_static("application/json"));
        match o {
            Outcome::Failed("garbage") => return Ok(Response { status: reqwest::StatusCode::OK, headers: h, body: Bytes::from_static(b"<html>") }),
            Outcome::Failed(k) => return Err(anyhow!("upstream failed: {k} [#{n}]")),
            _ => {}
        }
        let ans = ans.unwrap();
        for (k, v) in &ans.heads {
            h.append(reqwest::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), reqwest::header::HeaderValue::from_str(v).unwrap());
        }
        Ok(Response { status: reqwest::StatusCode::OK, headers: h, body: Bytes::from(ans.body) })
    }
}
pub fn draw_mini(r: &mut simrt::Rng, faults: f64) -> MiniPlan {
    let unit = *r.pick(&[100u64, 1000, 5000]);
    let lat = (0..r.range(1, 6)).map(|_| *r.pick(&[0, 1, 1, 2, 3, 10]) * unit).collect();
    let fail = if r.chance(faults) { (0..r.range(2, 7)).map(|_| if r.chance(0.3) { r.range(1, 3) as u8 } else { 0 }).collect() } else { vec![] };
    MiniPlan { lat, fail }
}
