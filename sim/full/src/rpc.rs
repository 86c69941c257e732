//! gRPC upstreams: protobuf in both directions, statuses, batches, identities.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

const IDS: &[i64] = &[1, 2, 3, 10, 12, 100, 0, -1, 9007199254740993, 9223372036854775807, -9223372036854775808];
const TEXT: &[&str] =
    &["", "plain", "a \"quoted\" one", "back\\slash\\", "two\nlines\ttab", "e\u{301} \u{1f600}", "\",\"id\":\"7", "\"}", "{{.args.id}}", "null", "7", "{\"id\":1}", "\u{2028}\u{0}x", "a&b=c#d%20+"];
const ZONES: &[&str] = &["a", "b"];
fn id(i: u8) -> i64 {
    IDS[i as usize % IDS.len()]
}
fn text(i: u8) -> &'static str {
    TEXT[i as usize % TEXT.len()]
}
fn zone(i: u8) -> &'static str {
    ZONES[i as usize % ZONES.len()]
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct F {
    /// see `KINDS`
    pub kind: u8,
    pub id: u8,
    pub note: Option<u8>,
    pub zone: u8,
    pub tag: u8,
    /// by variable
    pub var: bool,
    /// children of the row(s), see `KIDS`
    pub kids: Vec<u8>,
}
const KINDS: &[&str] = &["one", "many", "whole", "all", "make"];
const KIDS: &[&str] = &["up", "upOne", "deep"];
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub user: u8,
    pub fields: Vec<F>,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub dedupe: bool,
    pub cache: bool,
    pub batch: Option<(u64, u64)>,
    /// the proto's names are of several words
    pub snake: bool,
    /// what `All` gives
    pub rows: Vec<u8>,
    /// ids that `Many` does not know
    pub gone: Vec<u8>,
    /// rows of an answer, by call number: 0 as asked, 1 reversed, 2 with one nobody asked for, 3 doubled
    pub order: Vec<u8>,
    /// by call number: 0 fine, 1 status in the headers, 2 garbled, 3 compressed, 4 no body, 5 status without message, 6 frame without end
    pub gfail: Vec<u8>,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}
impl Plan {
    fn files(&self) -> Vec<(String, String)> {
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let c = if self.cache { " @cache(maxAge: 50)" } else { "" };
        let (id, jid) = if self.snake { ("row_id", "rowId") } else { ("id", "id") };
        let heads = r#"headers: [{key: "x-tag", value: "HH"}]"#;
        let sdl = r#"schema { query: Query mutation: Mutation }
type Query {
  one(id: ID!, note: String, zone: String!, tag: String): Row @grpc(url: "http://up/{{.args.zone}}", method: "shop.v1.Shop.One", body: {ID: "{{.args.id}}", note: "{{.args.note}}"}, ARGHEADSDD)CC
  many(id: ID!, zone: String!, tag: String): Row! @grpc(url: "http://up/{{.args.zone}}", method: "shop.v1.Shop.Many", body: {ID: "{{.args.id}}"}, batchKey: ["rows", "ID"], ARGHEADSDD)CC
  whole(in: In!): Row @grpc(url: "http://up/a", method: "shop.v1.Shop.One", body: "{{.args.in}}"DD)CC
  all: Rows @grpc(url: "http://up/a", method: "shop.v1.Shop.All"DD)CC
}
type Mutation {
  make(id: ID!, note: String, zone: String!, tag: String): Row @grpc(url: "http://up/{{.args.zone}}", method: "shop.v1.Shop.Make", body: {ID: "{{.args.id}}", note: "{{.args.note}}"}, ARGHEADS)
}
input In { ID: ID! note: String }
type Rows { rows: [Row] total: Int }
enum Kind { NONE BIG SMALL }
type Meta { label: String weight: Int inner: Meta inners: [Meta] }
type Row {
  ID: Int
  note: String
  rev: Int
  who: String
  zone: String
  tag: String
  parentRow: Int
  marks: [Int!]
  kind: Kind
  meta: Meta
  up: Row! @grpc(url: "http://up/a", method: "shop.v1.Shop.Many", body: {ID: "{{.value.parentRow}}"}, batchKey: ["rows", "ID"]DD)CC
  upOne: Row @grpc(url: "http://up/b", method: "shop.v1.Shop.One", body: {ID: "{{.value.parentRow}}", note: "{{.value.note}}"}DD)CC
  deep: Row! @grpc(url: "http://up/b", method: "shop.v1.Shop.Many", body: {ID: "{{.value.ID}}"}, batchKey: ["rows", "ID"], ROWHEADSDD)CC
}
"#
        .replace("ARGHEADS", &heads.replace("HH", "{{.args.tag}}"))
        .replace("ROWHEADS", &heads.replace("HH", "{{.value.tag}}"))
        .replace("DD", d)
        .replace("CC", c)
        .replace("ID: ID!", &format!("{jid}: ID!"))
        .replace("ID: Int", &format!("{jid}: Int"))
        .replace("{ID: ", &format!("{{{jid}: "))
        .replace("\"ID\"", &format!("\"{jid}\""))
        .replace(".value.ID", &format!(".value.{jid}"));
        // keys are collected only when batching is on
        let sdl = if self.batch.is_none() { sdl.replace("Shop.Many", "Shop.One").replace(&format!(", batchKey: [\"rows\", \"{jid}\"]"), "") } else { sdl };
        let proto = r#"syntax = "proto3";
package shop.v1;
import "google/protobuf/empty.proto";
message Req { int64 ID = 1; string note = 2; }
message Reqs { bool strict = 1; repeated Req reqs = 2; }
enum Kind { NONE = 0; BIG = 1; SMALL = 2; }
message Meta { string label = 1; int32 weight = 2; Meta inner = 3; repeated Meta inners = 4; }
message Row { int64 ID = 1; string note = 2; int32 rev = 3; string who = 4; string zone = 5; string tag = 6; sint64 parent_row = 7; repeated int32 marks = 8; Kind kind = 9; Meta meta = 10; }
message Rows { repeated Row rows = 1; int32 total = 2; }
service Shop {
  rpc One (Req) returns (Row) {}
  rpc Many (Reqs) returns (Rows) {}
  rpc All (google.protobuf.Empty) returns (Rows) {}
  rpc Make (Req) returns (Row) {}
}
"#
        .replace("ID", id);
        let mut up = json!({"allowedHeaders": ["authorization"]});
        if let Some((d, m)) = self.batch {
            up["batch"] = json!({"delay": d.max(1), "maxSize": m.max(1), "headers": ["authorization", "x-tag"]});
        }
        let cfg = json!({"server": {}, "upstream": up, "links": [{"src": "/app/schema.graphql", "type": "Config"}, {"src": "/app/shop.proto", "type": "Protobuf"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), sdl), ("/app/shop.proto".into(), proto)]
    }
    fn jid(&self) -> &'static str {
        if self.snake {
            "rowId"
        } else {
            "id"
        }
    }
    fn many(&self) -> &'static str {
        if self.batch.is_some() {
            "Many"
        } else {
            "One"
        }
    }
    fn gone(&self, i: i64) -> bool {
        self.gone.iter().any(|g| id(*g) == i)
    }
    fn gfail(&self, n: usize) -> u8 {
        if self.gfail.is_empty() {
            0
        } else {
            self.gfail[n % self.gfail.len()]
        }
    }
    fn bad(&self, c: &MCall) -> bool {
        c.failed() || self.gfail(c.n) != 0
    }
}

/// what is asked of the upstream
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Ask {
    method: &'static str,
    id: i64,
    note: String,
    zone: &'static str,
    tag: String,
    who: String,
}
fn method(m: &str) -> Option<&'static str> {
    ["One", "Many", "All", "Make"].into_iter().find(|x| *x == m)
}

// protocol buffers by hand
fn varint(mut n: u64, o: &mut Vec<u8>) {
    while n >= 128 {
        o.push(n as u8 | 128);
        n >>= 7;
    }
    o.push(n as u8);
}
fn num(f: u8, n: i64, o: &mut Vec<u8>) {
    if n != 0 {
        o.push(f << 3);
        varint(n as u64, o);
    }
}
fn bytes(f: u8, b: &[u8], o: &mut Vec<u8>) {
    o.push(f << 3 | 2);
    varint(b.len() as u64, o);
    o.extend_from_slice(b);
}
fn string(f: u8, s: &str, o: &mut Vec<u8>) {
    if !s.is_empty() {
        bytes(f, s.as_bytes(), o);
    }
}
#[derive(Debug)]
enum Wire {
    Num(u64),
    Bytes(Vec<u8>),
}
fn parse(mut b: &[u8]) -> Result<Vec<(u64, Wire)>, String> {
    fn take(b: &mut &[u8]) -> Result<u64, String> {
        let mut n = 0u64;
        for i in 0..10 {
            let (x, rest) = b.split_first().ok_or("cut short")?;
            *b = rest;
            n |= ((x & 127) as u64) << (7 * i);
            if x & 128 == 0 {
                return Ok(n);
            }
        }
        Err("long varint".into())
    }
    let mut out = vec![];
    while !b.is_empty() {
        let t = take(&mut b)?;
        let w = match t & 7 {
            0 => Wire::Num(take(&mut b)?),
            2 => {
                let n = take(&mut b)? as usize;
                if n > b.len() {
                    return Err("cut short".into());
                }
                let (x, rest) = b.split_at(n);
                b = rest;
                Wire::Bytes(x.to_vec())
            }
            w => return Err(format!("wire type {w}")),
        };
        out.push((t >> 3, w));
    }
    Ok(out)
}
/// What a call says, read as any gRPC server would read it; an error if it cannot be.
fn decode(c: &MCall) -> Result<Vec<Ask>, String> {
    if c.method != "POST" || c.headers.get("content-type").map(|s| s.as_str()) != Some("application/grpc") {
        return Err("no gRPC request".into());
    }
    let [z, s, m] = c.segs()[..] else { return Err("unknown path".into()) };
    let zone = ZONES.iter().find(|x| **x == z).ok_or("unknown zone")?;
    if s != "shop.v1.Shop" {
        return Err("unknown service".into());
    }
    let m = method(m).ok_or("unknown method")?;
    if c.raw.len() < 5 || c.raw[0] != 0 || u32::from_be_bytes(c.raw[1..5].try_into().unwrap()) as usize != c.raw.len() - 5 {
        return Err("not a frame".into());
    }
    let req = |b: &[u8]| -> Result<Ask, String> {
        let mut a = Ask { method: m, id: 0, note: String::new(), zone, tag: c.headers.get("x-tag").cloned().unwrap_or_default(), who: c.auth().to_string() };
        for (f, w) in parse(b)? {
            match (f, w) {
                (1, Wire::Num(n)) => a.id = n as i64,
                (2, Wire::Bytes(s)) => a.note = String::from_utf8(s).map_err(|e| e.to_string())?,
                x => return Err(format!("unknown field {x:?}")),
            }
        }
        Ok(a)
    };
    let msg = &c.raw[5..];
    Ok(match m {
        "Many" => parse(msg)?
            .into_iter()
            .map(|x| match x {
                (2, Wire::Bytes(b)) => req(&b),
                x => Err(format!("unknown field {x:?}")),
            })
            .collect::<Result<_, _>>()?,
        "All" if msg.is_empty() => vec![req(msg)?],
        "All" => return Err("the message is not empty".into()),
        _ => vec![req(msg)?],
    })
}
/// the row as every call that asks for it sees it
struct Row {
    id: i64,
    note: String,
    rev: usize,
    who: String,
    zone: &'static str,
    tag: String,
}
impl Row {
    fn of(a: &Ask, rev: usize) -> Row {
        let note = if a.method == "Many" { format!("row {}", a.id) } else { a.note.clone() };
        Row { id: a.id, note, rev, who: a.who.clone(), zone: a.zone, tag: a.tag.clone() }
    }
    fn parent(&self) -> i64 {
        let k = IDS.iter().position(|i| *i == self.id).unwrap_or(0);
        IDS[(k * 7 + 3) % IDS.len()]
    }
    fn marks(&self) -> Vec<i64> {
        (0..self.id.rem_euclid(3)).map(|k| k * 300 - 1).collect()
    }
    fn kind(&self) -> i64 {
        self.id.rem_euclid(3)
    }
    fn meta(&self) -> Option<(String, i64)> {
        (self.id % 2 != 0).then(|| (format!("m{}", self.id), self.id.rem_euclid(8) - 2))
    }
    fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        num(1, self.id, &mut o);
        string(2, &self.note, &mut o);
        num(3, self.rev as i64, &mut o);
        string(4, &self.who, &mut o);
        string(5, self.zone, &mut o);
        string(6, &self.tag, &mut o);
        let p = self.parent();
        num(7, (p << 1) ^ (p >> 63), &mut o);
        if !self.marks().is_empty() {
            let mut m = vec![];
            for x in self.marks() {
                varint(x as u64, &mut m);
            }
            bytes(8, &m, &mut o);
        }
        num(9, self.kind(), &mut o);
        if let Some((l, w)) = self.meta() {
            let mut m = vec![];
            string(1, &l, &mut m);
            num(2, w, &mut m);
            // a message in itself
            if self.id % 3 != 0 {
                let mut n = vec![];
                string(1, &format!("in {l}"), &mut n);
                if w > 1 {
                    bytes(4, &n.clone(), &mut n);
                }
                bytes(3, &n, &mut m);
            }
            bytes(10, &m, &mut o);
        }
        o
    }
    /// without the children; 64 bit numbers are strings in JSON
    fn json(&self, jid: &str) -> Value {
        json!({
            jid: self.id.to_string(), "note": self.note, "rev": self.rev, "who": self.who, "zone": self.zone, "tag": self.tag, "parentRow": self.parent().to_string(),
            "marks": self.marks(), "kind": (["NONE", "BIG", "SMALL"][self.kind() as usize]), "meta": self.meta().map(|(l, w)| {
                let x = json!({"label": format!("in {l}"), "weight": 0});
                let ins = if w > 1 { vec![x.clone()] } else { vec![] };
                let inner = if self.id % 3 != 0 { json!({"label": x["label"], "inners": ins}) } else { Value::Null };
                json!({"label": l, "weight": w, "inner": inner})
            }),
        })
    }
}
/// all rows are of one request: its identity, and their ids
fn all_ask(a: &Ask, i: i64) -> Ask {
    Ask { id: i, note: format!("of all {i}"), ..a.clone() }
}
fn answer(p: &Plan, c: &MCall, faults: &Faults) -> Option<Ans> {
    let asks = decode(c).ok()?;
    let mut msg = vec![];
    match asks.first().map(|a| a.method) {
        Some("All") => {
            for i in &p.rows {
                bytes(1, &Row::of(&all_ask(&asks[0], id(*i)), c.n).encode(), &mut msg);
            }
            num(2, p.rows.len() as i64, &mut msg);
        }
        Some("Many") => {
            let mut rows: Vec<_> = asks.iter().filter(|a| !p.gone(a.id)).cloned().collect();
            match p.order.get(c.n % p.order.len().max(1)) {
                Some(1) => rows.reverse(),
                Some(2) => rows.insert(0, Ask { id: 555, ..asks[0].clone() }),
                Some(3) => rows.extend(rows.clone()),
                _ => {}
            }
            for a in rows {
                bytes(1, &Row::of(&a, c.n).encode(), &mut msg);
            }
        }
        Some(_) => msg = Row::of(&asks[0], c.n).encode(),
        None => {}
    }
    let mut heads = vec![];
    let mut body = vec![0];
    body.extend((msg.len() as u32).to_be_bytes());
    body.extend(msg);
    match p.gfail(c.n) {
        0 => heads.push(("grpc-status".to_string(), "0".to_string())),
        1 => {
            heads.push(("grpc-status".into(), format!("{}", 1 + c.n % 16)));
            heads.push(("grpc-message".into(), format!("denied%20[%23{}]", c.n)));
            if c.n % 2 == 0 {
                body.clear();
            }
        }
        2 => body.extend([0x0a, 0x7f]),
        3 => {
            // what gzip makes of it
            body = [&[1, 0, 0, 0, 12, 0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3][..], &[3, 0]].concat();
        }
        4 => body.clear(),
        5 => heads.push(("grpc-status".into(), format!("{}", 1 + c.n % 16))),
        _ => body.truncate(3),
    }
    let name = ["", "grpc_status", "garbled_message", "compressed_message", "empty_body", "grpc_status", "truncated_frame"][p.gfail(c.n).min(6) as usize];
    if !name.is_empty() {
        fault(faults, name);
    }
    Some(Ans { heads, body })
}

struct Req {
    step: Step,
    text: String,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
impl Step {
    fn fields(&self) -> Vec<F> {
        let mut f = self.fields.clone();
        if f.is_empty() {
            f.push(F::default());
        }
        let m = f[0].kind() == "make";
        f.retain(|f| (f.kind() == "make") == m);
        f
    }
    fn mutation(&self) -> bool {
        self.fields()[0].kind() == "make"
    }
    fn who(&self) -> String {
        if self.user == 0 {
            String::new()
        } else {
            format!("Bearer u{}", self.user)
        }
    }
}
impl F {
    fn kind(&self) -> &'static str {
        KINDS[self.kind as usize % KINDS.len()]
    }
    fn kids(&self) -> Vec<&'static str> {
        let mut k: Vec<_> = self.kids.iter().map(|k| KIDS[*k as usize % KIDS.len()]).collect();
        k.sort();
        k.dedup();
        k
    }
    fn note(&self) -> &'static str {
        self.note.map(text).unwrap_or("")
    }
    fn print(&self, i: usize, jid: &str, vars: &mut serde_json::Map<String, Value>, decl: &mut Vec<String>) -> String {
        let mut arg = |name: &str, ty: &str, v: Value| {
            if self.var {
                let n = format!("{name}{i}");
                decl.push(format!("${n}: {ty}"));
                vars.insert(n.clone(), v);
                format!("{name}: ${n}")
            } else {
                let lit = match &v {
                    Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join(", ")),
                    v => v.to_string(),
                };
                format!("{name}: {lit}")
            }
        };
        let row = format!("{jid} note rev who zone tag parentRow marks kind meta {{ label weight inner {{ label inners {{ label weight }} }} }}");
        let kids: Vec<String> = self.kids().iter().map(|k| format!("{k} {{ {row} }}")).collect();
        let sel = format!("{{ {row} {} }}", kids.join(" "));
        let id = json!(id(self.id).to_string());
        match self.kind() {
            "all" => format!("f{i}: all {{ total rows {sel} }}"),
            "whole" => {
                let mut o = json!({jid: id});
                if let Some(n) = self.note {
                    o["note"] = json!(text(n));
                }
                format!("f{i}: whole({}) {sel}", arg("in", "In!", o))
            }
            k => {
                let mut a = vec![arg("id", "ID!", id), arg("zone", "String!", json!(zone(self.zone))), arg("tag", "String", json!(format!("t{}", self.tag)))];
                if k != "many" {
                    if let Some(n) = self.note {
                        a.push(arg("note", "String", json!(text(n))));
                    }
                }
                format!("f{i}: {k}({}) {sel}", a.join(", "))
            }
        }
    }
    fn ask(&self, p: &Plan, who: &str) -> Ask {
        let (m, z, t) = match self.kind() {
            "one" => ("One", zone(self.zone), format!("t{}", self.tag)),
            "make" => ("Make", zone(self.zone), format!("t{}", self.tag)),
            "many" => (p.many(), zone(self.zone), format!("t{}", self.tag)),
            "whole" => ("One", "a", String::new()),
            _ => ("All", "a", String::new()),
        };
        let all = m == "All";
        Ask { method: m, id: if all { 0 } else { id(self.id) }, note: if all || self.kind() == "many" { String::new() } else { self.note().to_string() }, zone: z, tag: t, who: who.to_string() }
    }
    /// everything it may ask for, with how often at most
    fn asks(&self, p: &Plan, who: &str, out: &mut BTreeMap<Ask, usize>) {
        let a = self.ask(p, who);
        *out.entry(a.clone()).or_default() += 1;
        let rows: Vec<Row> = if a.method == "All" { p.rows.iter().map(|i| Row::of(&all_ask(&a, id(*i)), 0)).collect() } else { vec![Row::of(&a, 0)] };
        for r in rows {
            for k in self.kids() {
                *out.entry(kid_ask(p, k, &r)).or_default() += 1;
            }
        }
    }
}
fn kid_ask(p: &Plan, k: &str, r: &Row) -> Ask {
    let a = Ask { method: p.many(), id: r.parent(), note: String::new(), zone: "a", tag: String::new(), who: r.who.clone() };
    match k {
        "up" => a,
        "upOne" => Ask { method: "One", zone: "b", note: r.note.clone(), ..a },
        _ => Ask { id: r.id, zone: "b", tag: r.tag.clone(), ..a },
    }
}

pub struct RpcScenario;
impl Scenario for RpcScenario {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            10_000
        } else {
            300_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws dedupe, cache, batching, names of one or several words, rows and clients of several identities whose queries and mutations call a gRPC service directly, for the rows of an answer and in \
         batches; it is non-trivial when two different requests overlapped and one was answered with data, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["gRPC request templates, protobuf conversion, gRPC data loader", "reader of protos, blueprint", "jit, IR evaluation, dedupe, cache", "request handler"],
            vec!["gRPC service that encodes and decodes by hand (simulated HttpIO); trailers come as headers", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "grpc_status", "garbled_message", "truncated_frame", "compressed_message", "empty_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let ids: Vec<u8> = (0..r.range(1, 4)).map(|_| r.below(IDS.len() as u64) as u8).collect();
        let notes: Vec<u8> = (0..r.range(1, 3)).map(|_| r.below(TEXT.len() as u64) as u8).collect();
        let kinds: Vec<u8> = (0..r.range(1, 3)).map(|_| r.below(KINDS.len() as u64) as u8).collect();
        let users = r.range(1, 3) as u64;
        let zones = r.range(1, 2) as u64;
        let tags = r.range(1, 2) as u64;
        let kids = r.chance(0.5);
        let clients = (0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(1, 3))
                    .map(|_| Step {
                        wait: *r.pick(&[0, 0, 0, 1, 2, 5, 20]) * unit,
                        user: r.below(users) as u8,
                        fields: (0..r.range(1, 3))
                            .map(|_| F {
                                kind: *r.pick(&kinds),
                                id: *r.pick(&ids),
                                note: if r.chance(0.7) { Some(*r.pick(&notes)) } else { None },
                                zone: r.below(zones) as u8,
                                tag: r.below(tags) as u8,
                                var: r.chance(0.5),
                                kids: if kids { (0..r.range(0, 2)).map(|_| r.below(KIDS.len() as u64) as u8).collect() } else { vec![] },
                            })
                            .collect(),
                        cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            dedupe: r.chance(0.4),
            cache: r.chance(0.3),
            batch: if r.chance(0.8) { Some((*r.pick(&[1, 2, 5]), *r.pick(&[1, 2, 3, 100]))) } else { None },
            snake: r.chance(0.5),
            rows: {
                let mut v: Vec<u8> = (0..r.range(0, 4)).map(|_| r.below(IDS.len() as u64) as u8).collect();
                v.dedup();
                v
            },
            gone: if r.chance(0.2) { vec![*r.pick(&ids)] } else { vec![] },
            order: (0..r.range(0, 4)).map(|_| r.below(4) as u8).collect(),
            gfail: if r.chance(0.25) { (0..r.range(2, 7)).map(|_| if r.chance(0.3) { r.range(1, 6) as u8 } else { 0 }).collect() } else { vec![] },
            up: draw_mini(r, 0.15),
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let env = SimEnv::default();
        let (b, e) = prepared(&p.files(), &env).expect("configuration");
        let p1 = p.clone();
        let gf = Faults::default();
        let g1 = gf.clone();
        let up = Mini::new(p.up.clone(), move |c| answer(&p1, c, &g1));
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), env, (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for steps in p2.clients.clone() {
                let (app, r2, f, jid) = (app.clone(), r2.clone(), u2.faults.clone(), p2.jid());
                hs.push(simrt::task::spawn_named("user", async move {
                    for mut st in steps {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        st.fields = st.fields();
                        let (mut vars, mut decl) = (serde_json::Map::new(), vec![]);
                        let body: Vec<String> = st.fields.iter().enumerate().map(|(i, f)| f.print(i, jid, &mut vars, &mut decl)).collect();
                        let decl = if decl.is_empty() { String::new() } else { format!("({})", decl.join(", ")) };
                        let doc = format!("{}{decl} {{ {} }}", if st.mutation() { "mutation" } else { "query" }, body.join(" "));
                        let text = format!("{doc} {} of {:?}", Value::Object(vars.clone()), st.who());
                        let body = json!({"query": doc, "variables": vars}).to_string();
                        let heads = if st.user == 0 { vec![] } else { vec![("authorization".to_string(), st.who())] };
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request at {inv:?}: {text}"));
                        let out = cancellable(async move { send(app, "POST", "/graphql", &heads, body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply at {ret:?}: {reply:?}"));
                        r2.push(Arc::new(Req { step: st, text, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let mut faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        for (k, n) in gf.lock().unwrap().iter() {
            *faults.entry(k.clone()).or_default() += n;
        }
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &reqs, &calls);
        }
        let good = |r: &Req| matches!(&r.reply, Some(Ok(x)) if x.json()["data"].is_object());
        let nontrivial = reqs.iter().enumerate().any(|(i, a)| reqs[..i].iter().any(|b| a.inv.s <= b.ret.s && b.inv.s <= a.ret.s && a.text != b.text && (good(a) || good(b))));
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "upstream_calls": calls.len()}) }
    }
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall]) -> Option<Violation> {
    let mut asked: BTreeMap<Ask, usize> = BTreeMap::new();
    for r in reqs {
        for f in &r.step.fields {
            f.asks(p, &r.step.who(), &mut asked);
        }
    }
    let mut sent: BTreeMap<Ask, usize> = BTreeMap::new();
    let mut said: Vec<Vec<Ask>> = vec![];
    for c in calls {
        let bad = |cl: &str, m: String| Some(Violation::new(cl, format!("{m}\ncall {} {} {} body {:?} headers {:?}", c.n, c.method, c.url, String::from_utf8_lossy(&c.raw), c.headers)));
        let asks = match decode(c) {
            Ok(a) => a,
            Err(e) => return bad("mangled", e),
        };
        if asks.iter().collect::<BTreeSet<_>>().len() != asks.len() {
            return bad("repeated-key", "a key is twice in its batch".into());
        }
        if asks.is_empty() {
            return bad("empty-batch", "a batch without keys".into());
        }
        if let (Some((_, max)), "Many") = (p.batch, asks[0].method) {
            if asks.len() as u64 > max.max(1) {
                return bad("batch-size", format!("{} keys", asks.len()));
            }
        }
        for a in &asks {
            if !asked.contains_key(a) {
                return bad("changed", format!("nobody asked for {a:?}"));
            }
            *sent.entry(a.clone()).or_default() += 1;
        }
        said.push(asks);
    }
    for (a, n) in &sent {
        if *n > asked[a] {
            return Some(Violation::new("repeated-call", format!("{a:?} was sent {n} times for {} uses", asked[a])));
        }
    }
    let overlaps = |r: &Req, c: &MCall| c.start.s <= r.ret.s && c.end.s >= r.inv.s;
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let bad = |c: &str, t: String| Some(Violation::new(c, format!("{t}\nrequest {} at {:?}..{:?}\nreply {reply:?}", r.text, r.inv, r.ret)));
        let x = match reply {
            Ok(x) => x.json(),
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let mut mine = BTreeMap::new();
        for f in &r.step.fields {
            f.asks(p, &r.step.who(), &mut mine);
        }
        // a call this one may have got its answer from: for something of its own, or of the same load
        let joined = |c: &MCall| {
            overlaps(r, c) || {
                // a call that is over is shared as long as who made it has not finished
                c.end.s < r.inv.s && reqs.iter().any(|o| o.inv.s <= c.end.s && c.end.s <= o.ret.s && o.ret.s >= r.inv.s && !std::ptr::eq(&**o, &**r))
            }
        };
        if let Some(errs) = x["errors"].as_array().filter(|e| !e.is_empty()) {
            if !x["data"].is_null() {
                return bad("data-and-errors", "data beside errors".into());
            }
            for e in errs {
                let m = e["message"].as_str().unwrap_or("");
                let token = m.split("[#").nth(1).and_then(|t| t.split(']').next()).and_then(|t| t.parse::<usize>().ok());
                // with batching, requests that were loaded together fail together
                let own = |c: &MCall| p.batch.is_some() || said[c.n].iter().any(|a| mine.contains_key(a));
                let cause = calls.iter().find(|c| p.bad(c) && joined(c) && own(c) && token.is_none_or(|t| t == c.n));
                // the type says that there is a row
                if token.is_none() && mine.keys().any(|a| a.method == "Many" && p.gone(a.id)) {
                    continue;
                }
                let Some(c) = cause else { return bad("unexplained-error", format!("no call of its own failed: {e}")) };
                if token.is_some() && !c.failed() && p.gfail(c.n) == 1 {
                    let code = 1 + c.n as u64 % 16;
                    if e["extensions"]["grpcCode"] != json!(code) {
                        return bad("wrong-status", format!("status {code} of call {} is told as {e}", c.n));
                    }
                }
            }
            continue;
        }
        if !x["data"].is_object() {
            return bad("no-data", "neither data nor errors".into());
        }
        // kept from when the load that it belongs to was over
        let kept = |c: &MCall| p.cache && reqs.iter().any(|o| o.inv.s <= c.end.s && c.end.s <= o.ret.s && o.ret.t + 50_000_000 >= r.inv.t);
        let fresh = |c: &MCall| joined(c) && c.end.s <= r.ret.s || kept(c) && c.end.s <= r.ret.s;
        // one row, and what hangs off it
        fn check(p: &Plan, got: &Value, a: &Ask, kids: &[&str], calls: &[MCall], said: &[Vec<Ask>], fresh: &dyn Fn(&MCall) -> bool) -> Result<(), (&'static str, String)> {
            if got.is_null() {
                return Err(("lost", format!("nothing for {a:?}")));
            }
            let rev = got["rev"].as_u64().unwrap_or(u64::MAX) as usize;
            row(p, got, a, rev, kids, calls, said, fresh)?;
            let c = calls.get(rev).ok_or(("invented", format!("no call {rev}: {got}")))?;
            if p.bad(c) || !said[rev].contains(a) || !fresh(c) {
                return Err(("wrong-source", format!("{a:?} answered from call {rev} {} which says {:?}", c.url, said[rev])));
            }
            Ok(())
        }
        #[allow(clippy::too_many_arguments)]
        fn row(p: &Plan, got: &Value, a: &Ask, rev: usize, kids: &[&str], calls: &[MCall], said: &[Vec<Ask>], fresh: &dyn Fn(&MCall) -> bool) -> Result<(), (&'static str, String)> {
            let want = Row::of(a, rev);
            let mut flat = got.clone();
            for k in KIDS {
                flat.as_object_mut().map(|o| o.remove(*k));
            }
            if flat != want.json(p.jid()) {
                return Err(("wrong-value", format!("expected {}, got {flat}", want.json(p.jid()))));
            }
            for k in kids {
                check(p, &got[k], &kid_ask(p, k, &want), &[], calls, said, fresh)?;
            }
            Ok(())
        }
        for (i, f) in r.step.fields.iter().enumerate() {
            let got = &x["data"][format!("f{i}")];
            let a = f.ask(p, &r.step.who());
            let kids = f.kids();
            let res = if a.method == "All" {
                let rows = got["rows"].as_array().cloned().unwrap_or_default();
                let rev = rows.first().and_then(|r| r["rev"].as_u64());
                if rows.len() != p.rows.len() || got["total"] != json!(p.rows.len()) {
                    Err(("wrong-rows", format!("got {got}")))
                } else {
                    rows.iter().zip(&p.rows).try_for_each(|(g, i)| row(p, g, &all_ask(&a, id(*i)), rev.unwrap_or(u64::MAX) as usize, &kids, calls, &said, &fresh)).and_then(|_| match rev {
                        Some(n) if !calls.get(n as usize).is_some_and(|c| !p.bad(c) && said[c.n].contains(&a) && fresh(c)) => Err(("wrong-source", format!("{a:?} answered from call {n}"))),
                        _ => Ok(()),
                    })
                }
            } else {
                check(p, got, &a, &kids, calls, &said, &fresh)
            };
            if let Err((c, m)) = res {
                return bad(c, format!("field {i}: {m}"));
            }
        }
    }
    // every mutation is sent exactly once
    let mut makes: BTreeMap<Ask, (usize, usize)> = BTreeMap::new();
    for r in reqs.iter().filter(|r| r.step.mutation()) {
        let failed = !matches!(&r.reply, Some(Ok(x)) if x.json()["data"].is_object());
        for f in &r.step.fields {
            let e = makes.entry(f.ask(p, &r.step.who())).or_default();
            e.1 += 1;
            e.0 += !failed as usize;
        }
    }
    for (a, (least, most)) in makes {
        let n = sent.get(&a).copied().unwrap_or(0);
        if n < least || n > most {
            return Some(Violation::new("mutation-count", format!("{a:?} was sent {n} times for {least}..{most} mutations")));
        }
    }
    None
}
