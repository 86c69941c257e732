//! GraphQL upstreams: what they are asked, and what becomes of their answers.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use async_graphql::parser::types::{DocumentOperations, Selection, SelectionSet};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct FDef {
    pub base: u8,
    pub wrap: u8,
    pub kind: u8,
    /// which root, which path, whether there is an argument
    pub x: u8,
    pub ren: bool,
    pub omit: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Root {
    pub base: u8,
    pub wrap: u8,
    /// 1 batch, 2 dedupe, 4 cached, 8 a part of it is a field too
    pub how: u8,
    pub ren: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sel {
    pub f: u8,
    /// member, alias, argument
    #[serde(default)]
    pub x: u8,
    /// 1, 2: depends on a variable; 3 in a fragment, 4 in a fragment on the interface
    #[serde(default)]
    pub c: u8,
    #[serde(default)]
    pub sub: Vec<Sel>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub op: u8,
    pub id: u8,
    pub who: u8,
    pub b: bool,
    /// asks for a type instead
    #[serde(default)]
    pub look: bool,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub seed: u64,
    /// answers with errors, per thousand
    pub broken: u64,
    /// delay ms, max size
    pub batch: Option<(u64, u64)>,
    /// the key of each type is not shown
    pub hide: u8,
    pub objs: Vec<Vec<FDef>>,
    pub roots: Vec<Root>,
    pub ops: Vec<Vec<Sel>>,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Base {
    Int,
    Str,
    Bool,
    Float,
    Enum,
    /// the last one is the type of keys
    Obj(usize),
    Face,
    Uni,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Wrap {
    Plain,
    Strict,
    List,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Key {
    Id,
    Ref,
    Inner,
}
#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Plain,
    Typename,
    Http(Key, bool),
    /// a root field's call
    Call(usize),
    Expr(Key),
    /// batch, cached
    Gql(Key, bool, bool),
    Merged(Key),
    /// names of fields and indices, beginning with a field
    Added(Vec<String>, Box<Fld>),
}
#[derive(Clone, Debug, PartialEq)]
struct Fld {
    name: String,
    shown: String,
    base: Base,
    wrap: Wrap,
    kind: Kind,
    arg: bool,
    omit: bool,
}
/// a selected field
#[derive(Clone, Debug)]
struct R {
    fld: Fld,
    /// the type it is a field of
    of: usize,
    key: String,
    /// value, and whether a variable brings it
    arg: Option<(u64, bool)>,
    /// only for this type
    cond: Option<usize>,
    c: u8,
    sub: Vec<R>,
}
#[derive(Clone, Debug)]
struct Node {
    ty: usize,
    id: u64,
    /// how far it was expanded
    left: Option<u8>,
    over: Option<u64>,
}
#[derive(Clone, Debug)]
enum V {
    Null,
    Leaf(Value),
    List(Vec<V>),
    Obj(Node),
}
type Need = BTreeMap<(String, u64), BTreeSet<String>>;
#[derive(Default)]
struct Out {
    need: Need,
    calls: BTreeSet<(String, u64)>,
    broken: BTreeSet<(String, u64)>,
}

fn hash(seed: u64, s: &str) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    h ^ (h >> 32)
}
impl Base {
    fn leaf(self) -> bool {
        !matches!(self, Base::Obj(_) | Base::Face | Base::Uni)
    }
}
impl Key {
    fn text(self) -> &'static str {
        match self {
            Key::Id => "{{.value.id}}",
            Key::Ref => "{{.value.ref}}",
            Key::Inner => "{{.value.o.id}}",
        }
    }
    fn of(x: u8) -> Key {
        [Key::Id, Key::Ref, Key::Inner][x as usize % 3]
    }
}
impl Plan {
    fn ks(&self) -> usize {
        self.objs.len().clamp(1, 4)
    }
    fn tname(&self, i: usize) -> String {
        if i == self.ks() { "K".into() } else { format!("T{i}") }
    }
    fn name(&self, b: Base) -> String {
        match b {
            Base::Int => "Int".into(),
            Base::Str => "String".into(),
            Base::Bool => "Boolean".into(),
            Base::Float => "Float".into(),
            Base::Enum => "E".into(),
            Base::Obj(i) => self.tname(i),
            Base::Face => "N".into(),
            Base::Uni => "U".into(),
        }
    }
    fn ty(&self, b: Base, w: Wrap) -> String {
        let n = self.name(b);
        match w {
            Wrap::Plain => n,
            Wrap::Strict => format!("{n}!"),
            Wrap::List => format!("[{n}]"),
        }
    }
    fn possible(&self, b: Base) -> Vec<usize> {
        match b {
            Base::Obj(i) => vec![i],
            Base::Face | Base::Uni => (0..self.ks()).collect(),
            _ => vec![],
        }
    }
    fn leaf(x: u8) -> Base {
        [Base::Int, Base::Str, Base::Bool, Base::Float, Base::Enum][x as usize % 5]
    }
    fn comp(&self, x: u8) -> Base {
        let k = self.ks();
        match x as usize % (2 * k + 3) {
            n if n < 2 * k => Base::Obj(n % k),
            n if n == 2 * k => Base::Obj(k),
            n if n == 2 * k + 1 => Base::Face,
            _ => Base::Uni,
        }
    }
    fn root_list(&self) -> Vec<Fld> {
        let mut out: Vec<Fld> = self
            .roots
            .iter()
            .enumerate()
            .map(|(i, r)| Fld {
                name: format!("q{i}"),
                shown: if r.ren { format!("pq{i}") } else { format!("q{i}") },
                base: self.comp(r.base),
                wrap: if r.wrap % 3 == 2 { Wrap::List } else { Wrap::Plain },
                kind: Kind::Gql(Key::Id, r.how & 1 == 1 && self.batch.is_some(), r.how & 4 == 4),
                arg: true,
                omit: false,
            })
            .collect();
        for (i, r) in self.roots.iter().enumerate() {
            if r.how & 8 == 8 && out[i].base != Base::Uni {
                out.push(Fld { arg: true, ..self.added(&format!("qa{i}"), &out[i], r.base, r.wrap) });
            }
        }
        out.push(Fld { name: "qz".into(), shown: "qz".into(), base: Base::Uni, wrap: Wrap::Plain, kind: Kind::Gql(Key::Id, false, false), arg: true, omit: false });
        out
    }
    /// a field that is taken from within another
    fn added(&self, name: &str, src: &Fld, x: u8, at: u8) -> Fld {
        let mut path = vec![src.name.clone()];
        if src.wrap == Wrap::List {
            path.push((at % 3).to_string());
        }
        let (base, end) = match src.base {
            Base::Obj(t) if t == self.ks() => (Base::Int, ["kk", "id"][x as usize % 2]),
            Base::Obj(_) => [(Base::Int, "n0"), (Base::Int, "ref"), (Base::Obj(self.ks()), "o"), (Base::Int, "o"), (Base::Str, "v")][x as usize % 5],
            _ => (Base::Int, ["n0", "id"][x as usize % 2]),
        };
        let base = match (src.base, end) {
            (Base::Obj(t), "v") => self.v_base(t),
            _ => base,
        };
        path.push(end.into());
        if end == "o" && base == Base::Int {
            path.push("kk".into());
        }
        Fld { name: name.into(), shown: name.into(), base, wrap: Wrap::Plain, kind: Kind::Added(path, Box::new(src.clone())), arg: src.arg, omit: false }
    }
    /// of a name that every type has
    fn v_base(&self, t: usize) -> Base {
        Self::leaf((hash(self.seed, &format!("v{t}")) % 4) as u8)
    }
    fn plain(name: &str, base: Base, wrap: Wrap) -> Fld {
        Fld { name: name.into(), shown: name.into(), base, wrap, kind: Kind::Plain, arg: false, omit: false }
    }
    fn fields(&self, i: usize) -> Vec<Fld> {
        let k = self.ks();
        let mut out = vec![Self::plain("id", Base::Int, Wrap::Strict)];
        if i >= k {
            out.push(Self::plain("kk", Base::Int, Wrap::Plain));
            out.push(Fld { kind: Kind::Http(Key::Id, false), ..Self::plain("kr", Base::Int, Wrap::Plain) });
            return out;
        }
        out.push(Self::plain("n0", Base::Int, Wrap::Plain));
        out.push(Self::plain("v", self.v_base(i), Wrap::Plain));
        out.push(Fld { omit: self.hide >> i & 1 == 1, ..Self::plain("ref", Base::Int, Wrap::Strict) });
        out.push(Fld { omit: self.hide >> (i + 4) & 1 == 1, ..Self::plain("o", Base::Obj(k), Wrap::Strict) });
        for (j, f) in self.objs.get(i).into_iter().flatten().enumerate() {
            let name = format!("t{i}f{j}");
            let (leaf, comp) = (Self::leaf(f.base), self.comp(f.base));
            let any = if f.x % 2 == 0 { leaf } else { comp };
            let list = if f.wrap % 3 == 2 { Wrap::List } else { Wrap::Plain };
            let mut arg = false;
            let (kind, base, wrap) = match f.kind % 14 {
                0..=4 => {
                    arg = f.x / 2 % 3 == 0;
                    (Kind::Plain, any, if any.leaf() && f.wrap % 3 == 1 { Wrap::Strict } else { list })
                }
                5 | 6 => (Kind::Http(Key::of(f.x / 2), f.x / 6 % 3 == 0), any, list),
                7 => {
                    let rs = self.root_list();
                    let r = f.x as usize % self.roots.len();
                    (Kind::Call(r), rs[r].base, rs[r].wrap)
                }
                8 => (Kind::Expr(Key::of(f.x)), Base::Str, Wrap::Plain),
                9 | 10 => (Kind::Gql(Key::of(f.x / 2), f.x / 6 % 2 == 0 && self.batch.is_some(), f.x / 12 % 4 == 0), comp, list),
                11 => (Kind::Merged(Key::of(f.x)), Base::Obj(f.base as usize % k), Wrap::Plain),
                _ => {
                    // along fields that came before
                    let via: Vec<&Fld> = out.iter().filter(|p| matches!(p.base, Base::Obj(_) | Base::Face) && !matches!(p.kind, Kind::Added(..))).collect();
                    let a = self.added(&name, via[f.x as usize % via.len()], f.base, f.wrap);
                    arg = a.arg;
                    (a.kind, a.base, a.wrap)
                }
            };
            let added = matches!(kind, Kind::Added(..));
            let shown = if f.ren && !added { format!("p{name}") } else { name.clone() };
            out.push(Fld { shown, name, base, wrap, kind, arg, omit: f.omit && wrap != Wrap::Strict && !added });
        }
        out
    }
    /// a directive for the upstream, the same wherever the field is asked for
    fn mark(&self, name: &str) -> Option<(u64, String)> {
        let h = hash(self.seed, &format!("mark/{name}"));
        if h % 3 > 0 || !name.starts_with('t') {
            return None;
        }
        let all: Vec<Fld> = (0..self.ks()).flat_map(|i| self.fields(i)).collect();
        let taken = all.iter().any(|f| matches!(&f.kind, Kind::Added(path, src) if src.name == name || path.iter().any(|p| p == name)));
        let plain = all.iter().any(|f| f.name == name && f.kind == Kind::Plain);
        (plain && !taken).then(|| (h / 3 % 9, ["up", "a\"b", "x}}y", "back\\slash"][h as usize / 27 % 4].to_string()))
    }
    fn marks(d: &[async_graphql::Positioned<async_graphql::parser::types::Directive>]) -> Vec<(u64, String)> {
        d.iter()
            .map(|d| {
                let arg = |n: &str| d.node.get_argument(n).and_then(|v| v.node.clone().into_const());
                match (d.node.name.node.as_str(), arg("n"), arg("s"), d.node.arguments.len()) {
                    ("mark", Some(async_graphql::Value::Number(n)), Some(async_graphql::Value::String(s)), 2) => (n.as_u64().unwrap_or(99), s),
                    _ => (99, format!("{:?}", d.node)),
                }
            })
            .collect()
    }
    fn gql_dir(&self, name: &str, key: &str, batch: bool, dedupe: bool) -> String {
        format!(
            "@graphQL(url: \"http://up/graphql\", name: \"{name}\", args: [{{key: \"id\", value: \"{key}\"}}]{}{})",
            if batch { ", batch: true" } else { "" },
            if dedupe { ", dedupe: true" } else { "" }
        )
    }
    fn sdl(&self) -> String {
        let mut s = String::from("schema { query: Query }\nenum E { AA BB CC }\ninterface N { id: Int! n0: Int }\n");
        let ren = |f: &Fld| {
            let m = if f.name != f.shown { format!(" @modify(name: \"{}\")", f.shown) } else { String::new() };
            let o = if f.omit { " @omit" } else { "" };
            format!("{m}{o}")
        };
        let cached = |c: bool| if c { " @cache(maxAge: 3600000)" } else { "" };
        let dir = |f: &Fld, path: &Vec<String>| format!(" @addField(name: \"{}\", path: [{}])", f.name, path.iter().map(|p| format!("\"{p}\"")).collect::<Vec<_>>().join(", "));
        s += "type Query";
        for f in self.root_list() {
            if let Kind::Added(path, _) = &f.kind {
                s += &dir(&f, path);
            }
        }
        s += " {\n";
        for (i, f) in self.root_list().iter().enumerate() {
            let Kind::Gql(_, batch, cache) = f.kind else { continue };
            let dedupe = self.roots.get(i).is_some_and(|r| r.how & 2 == 2);
            s += &format!("  {}(id: Int!): {} {}{}{}\n", f.name, self.ty(f.base, f.wrap), self.gql_dir(&format!("up_{}", f.name), "{{.args.id}}", batch, dedupe), cached(cache), ren(f));
        }
        s += "}\n";
        for i in 0..=self.ks() {
            let all = self.fields(i);
            s += &format!("type {}{}", self.tname(i), if i < self.ks() { " implements N" } else { "" });
            for f in &all {
                if let Kind::Added(path, _) = &f.kind {
                    s += &dir(f, path);
                }
            }
            s += " {\n";
            for f in &all {
                let q = format!("{}_{}", self.tname(i), f.name);
                let http = |p: &str, k: &Key| format!(" @http(url: \"http://up/{p}/{q}\", query: [{{key: \"k\", value: \"{}\"}}])", k.text());
                let how = match &f.kind {
                    Kind::Added(..) => continue,
                    Kind::Plain | Kind::Typename => String::new(),
                    Kind::Http(k, c) => format!("{}{}", http("r", k), cached(*c)),
                    Kind::Call(r) => format!(" @call(steps: [{{query: \"{}\", args: {{id: \"{{{{.value.id}}}}\"}}}}])", self.root_list()[*r].name),
                    Kind::Expr(k) => format!(" @expr(body: \"of {}\")", k.text()),
                    Kind::Gql(k, b, c) => format!(" {}{}", self.gql_dir(&q, k.text(), *b, false), cached(*c)),
                    Kind::Merged(k) => format!(" {}{}", self.gql_dir(&q, k.text(), false, false), http("m", k)),
                };
                s += &format!("  {}{}: {}{how}{}\n", f.name, if f.arg { "(x: Int)" } else { "" }, self.ty(f.base, f.wrap), ren(f));
            }
            s += "}\n";
        }
        s += &format!("union U = {}\n", (0..self.ks()).map(|i| format!("T{i}")).collect::<Vec<_>>().join(" | "));
        s
    }
    fn files(&self) -> Vec<(String, String)> {
        let mut up = json!({"allowedHeaders": ["xc"]});
        if let Some((delay, max)) = self.batch {
            up["batch"] = json!({"delay": delay, "maxSize": max, "headers": ["xc"]});
        }
        let cfg = json!({"server": {}, "upstream": up, "links": [{"src": "/app/schema.graphql", "type": "Config"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), self.sdl())]
    }
    // ---- the upstream's data
    fn gen(&self, base: Base, wrap: Wrap, at: &str, left: Option<u8>) -> V {
        let h = hash(self.seed, at);
        match wrap {
            Wrap::List if h % 9 == 0 => return V::Null,
            Wrap::List => return V::List((0..(h >> 8) % 4).map(|i| self.gen(base, Wrap::Plain, &format!("{at}.{i}"), left)).collect()),
            Wrap::Plain if h % 9 == 0 => return V::Null,
            _ => {}
        }
        let n = (h >> 16) % 1000;
        match base {
            Base::Int => V::Leaf(json!(n)),
            Base::Str => V::Leaf(json!(format!("s\"{n}"))),
            Base::Bool => V::Leaf(json!(n % 2 == 0)),
            Base::Float => V::Leaf(json!(n as f64 + 0.5)),
            Base::Enum => V::Leaf(json!(["AA", "BB", "CC"][n as usize % 3])),
            _ => {
                let all = self.possible(base);
                let ty = all[(h >> 32) as usize % all.len()];
                let left = match left {
                    Some(0) if ty != self.ks() => return V::Null,
                    l => l.map(|l| l.saturating_sub(1)),
                };
                V::Obj(Node { ty, id: n % 5 + 1, left, over: None })
            }
        }
    }
    fn get(&self, n: &Node, f: &Fld, arg: Option<u64>) -> V {
        match (f.name.as_str(), n.over) {
            ("id", _) => return V::Leaf(json!(n.id)),
            ("n0", Some(v)) => return V::Leaf(json!(v)),
            ("ref", _) => return V::Leaf(json!(hash(self.seed, &format!("{}.ref#{}", n.ty, n.id)) % 5 + 1)),
            _ => {}
        }
        let arg = if n.left.is_some() { None } else { arg };
        self.gen(f.base, f.wrap, &format!("{}.{}{arg:?}#{}", n.ty, f.name, n.id), n.left)
    }
    fn find(&self, ty: usize, name: &str) -> Option<Fld> {
        self.fields(ty).into_iter().find(|f| f.name == name)
    }
    fn key(&self, n: &Node, k: Key) -> u64 {
        match k {
            Key::Id => n.id,
            Key::Ref => match self.get(n, &self.find(n.ty, "ref").unwrap(), None) {
                V::Leaf(v) => v.as_u64().unwrap(),
                _ => 0,
            },
            Key::Inner => match self.get(n, &self.find(n.ty, "o").unwrap(), None) {
                V::Obj(o) => o.id,
                _ => 0,
            },
        }
    }
    fn is_broken(&self, name: &str, id: u64) -> bool {
        // a part of what is put together would do with the rest
        let part = self.up_root(name).is_some_and(|r| r.2);
        !part && hash(self.seed, &format!("broken {name}#{id}")) % 1000 < self.broken
    }
    /// what a root field of the upstream gives
    fn up_value(&self, name: &str, base: Base, wrap: Wrap, id: u64, merged: bool) -> V {
        self.gen(base, if merged { Wrap::Strict } else { wrap }, &format!("g/{name}#{id}"), None)
    }
    fn expand(&self, v: &V, named: bool) -> Value {
        match v {
            V::Null => Value::Null,
            V::Leaf(v) => v.clone(),
            V::List(l) => l.iter().map(|v| self.expand(v, named)).collect(),
            V::Obj(n) => {
                let mut m = Map::new();
                if named {
                    m.insert("__typename".into(), json!(self.tname(n.ty)));
                }
                for f in self.fields(n.ty) {
                    if f.kind == Kind::Plain {
                        m.insert(f.name.clone(), self.expand(&self.get(n, &f, None), !matches!(f.base, Base::Obj(_))));
                    }
                }
                m.into()
            }
        }
    }
    /// (type, field) of a name of the form T_f
    fn route(&self, name: &str) -> Option<(usize, Fld)> {
        let (t, f) = name.split_once('_')?;
        let i = (0..=self.ks()).find(|i| self.tname(*i) == t)?;
        Some((i, self.find(i, f)?))
    }
    /// the upstream's own root fields
    fn up_root(&self, name: &str) -> Option<(Base, Wrap, bool)> {
        if let Some(q) = name.strip_prefix("up_") {
            let f = self.root_list().into_iter().find(|f| f.name == q)?;
            return Some((f.base, f.wrap, false));
        }
        let (_, f) = self.route(name)?;
        match f.kind {
            Kind::Gql(..) => Some((f.base, f.wrap, false)),
            Kind::Merged(_) => Some((f.base, f.wrap, true)),
            _ => None,
        }
    }
    fn answer(&self, c: &MCall) -> Option<Ans> {
        if c.path == "/graphql" {
            let one = |q: &Value| match self.ask(q) {
                Ok((name, id, _, data)) if self.is_broken(&name, id) => {
                    drop(data);
                    json!({"data": {name.clone(): null}, "errors": [{"message": format!("broken {name} {id}"), "path": [name]}]})
                }
                Ok((name, _, _, data)) => json!({"data": {name: data}}),
                Err(e) => json!({"data": null, "errors": [{"message": e}]}),
            };
            return Ans::json(match &c.body {
                Value::Array(l) => l.iter().map(one).collect(),
                q => one(q),
            });
        }
        let k: u64 = c.query.iter().find(|q| q.0 == "k")?.1.parse().ok()?;
        let name = c.segs().get(1)?.to_string();
        let (_, f) = self.route(&name)?;
        match c.segs()[0] {
            "r" => Ans::json(self.expand(&self.http_value(&name, &f, k), !matches!(f.base, Base::Obj(_)))),
            _ => Ans::json(json!({"n0": self.over(&name, k)})),
        }
    }
    fn http_value(&self, name: &str, f: &Fld, k: u64) -> V {
        self.gen(f.base, f.wrap, &format!("r/{name}?{k}"), Some(3))
    }
    fn over(&self, name: &str, k: u64) -> u64 {
        hash(self.seed, &format!("m/{name}?{k}")) % 1000 + 1000
    }
    // ---- what the upstream makes of a request
    /// name, id, what was asked for, the answer
    fn ask(&self, q: &Value) -> Result<(String, u64, BTreeSet<String>, Value), String> {
        let text = q["query"].as_str().ok_or("no query")?;
        let doc = async_graphql::parser::parse_query(text).map_err(|e| format!("{e}"))?;
        let DocumentOperations::Single(op) = &doc.operations else { return Err("operations".into()) };
        let items = &op.node.selection_set.node.items;
        let [one] = items.as_slice() else { return Err(format!("{} root selections", items.len())) };
        let Selection::Field(f) = &one.node else { return Err("no field".into()) };
        let name = f.node.name.node.to_string();
        let (base, wrap, merged) = self.up_root(&name).ok_or(format!("there is no {name}"))?;
        let [(a, v)] = f.node.arguments.as_slice() else { return Err(format!("arguments of {name}")) };
        let id = match v.node.clone().into_const() {
            Some(async_graphql::Value::Number(n)) if a.node == "id" => n.as_u64().ok_or("id")?,
            _ => return Err(format!("argument {} of {name}", a.node)),
        };
        let mut asked = BTreeSet::new();
        for t in self.possible(base) {
            self.check(&f.node.selection_set.node, base, t, "", &mut asked)?;
        }
        let v = self.up_value(&name, base, wrap, id, merged);
        let data = self.pick(&f.node.selection_set.node, &v)?;
        Ok((name, id, asked, data))
    }
    fn base_of(&self, name: &str) -> Option<Base> {
        match name {
            "N" => Some(Base::Face),
            "U" => Some(Base::Uni),
            _ => (0..=self.ks()).find(|i| self.tname(*i) == name).map(Base::Obj),
        }
    }
    /// is it a selection of this type, seen through `base`; which fields does it name
    fn check(&self, s: &SelectionSet, base: Base, t: usize, at: &str, out: &mut BTreeSet<String>) -> Result<(), String> {
        if s.items.is_empty() {
            return Err(format!("nothing selected at {at:?}"));
        }
        for i in &s.items {
            match &i.node {
                Selection::Field(f) => {
                    let f = &f.node;
                    let name = f.name.node.as_str();
                    let subs = &f.selection_set.node;
                    if f.alias.is_some() {
                        return Err(format!("alias at {at}{name}"));
                    }
                    let told = Self::marks(&f.directives);
                    if told != self.mark(name).into_iter().collect::<Vec<_>>() {
                        return Err(format!("directives {told:?} at {at}{name}, not {:?}", self.mark(name)));
                    }
                    if name == "__typename" {
                        continue;
                    }
                    let known = match base {
                        Base::Face => name == "id" || name == "n0",
                        Base::Uni => false,
                        _ => true,
                    };
                    let d = self.find(t, name).filter(|d| known && d.kind == Kind::Plain).ok_or(format!("{} has no {name} (at {at:?})", self.name(base)))?;
                    let arg = match f.arguments.as_slice() {
                        [] => None,
                        [(a, v)] if d.arg && a.node == "x" => match v.node.clone().into_const() {
                            Some(async_graphql::Value::Number(n)) => n.as_u64(),
                            _ => return Err(format!("value of the argument of {at}{name}")),
                        },
                        _ => return Err(format!("arguments of {at}{name}")),
                    };
                    let here = format!("{at}{}.{name}{arg:?}", self.tname(t));
                    out.insert(here.clone());
                    if d.base.leaf() != subs.items.is_empty() {
                        return Err(format!("selection at {here}"));
                    }
                    if !d.base.leaf() {
                        for t in self.possible(d.base) {
                            self.check(subs, d.base, t, &format!("{here}/"), out)?;
                        }
                    }
                }
                Selection::InlineFragment(f) => {
                    let f = &f.node;
                    let b = match &f.type_condition {
                        None => base,
                        Some(c) => self.base_of(&c.node.on.node).ok_or(format!("no type {}", c.node.on.node))?,
                    };
                    let p = self.possible(b);
                    if !self.possible(base).iter().any(|t| p.contains(t)) {
                        return Err(format!("{} is never {}", self.name(base), self.name(b)));
                    }
                    if p.contains(&t) {
                        self.check(&f.selection_set.node, b, t, at, out)?;
                    } else {
                        for t in p {
                            self.check(&f.selection_set.node, b, t, at, &mut BTreeSet::new())?;
                        }
                    }
                }
                _ => return Err("fragment spread".into()),
            }
        }
        Ok(())
    }
    fn pick(&self, s: &SelectionSet, v: &V) -> Result<Value, String> {
        Ok(match v {
            V::Null => Value::Null,
            V::Leaf(v) => v.clone(),
            V::List(l) => l.iter().map(|v| self.pick(s, v)).collect::<Result<_, _>>()?,
            V::Obj(n) => {
                let mut m = json!({});
                self.pick_obj(s, n, &mut m)?;
                m
            }
        })
    }
    fn pick_obj(&self, s: &SelectionSet, n: &Node, m: &mut Value) -> Result<(), String> {
        fn merge(a: &mut Value, b: Value) -> bool {
            match (a, b) {
                (Value::Object(a), Value::Object(b)) => b.into_iter().all(|(k, v)| match a.get_mut(&k) {
                    Some(x) => merge(x, v),
                    None => a.insert(k, v).is_none(),
                }),
                (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter_mut().zip(b).all(|(a, b)| merge(a, b)),
                (a, b) => *a == b,
            }
        }
        for i in &s.items {
            match &i.node {
                Selection::Field(f) => {
                    let name = f.node.name.node.as_str();
                    let v = if name == "__typename" {
                        json!(self.tname(n.ty))
                    } else {
                        let d = self.find(n.ty, name).ok_or("field")?;
                        let arg = f.node.arguments.first().and_then(|(_, v)| v.node.clone().into_const()).and_then(|v| match v {
                            async_graphql::Value::Number(n) => n.as_u64(),
                            _ => None,
                        });
                        self.pick(&f.node.selection_set.node, &self.get(n, &d, arg))?
                    };
                    match m.get_mut(name) {
                        Some(x) => {
                            if !merge(x, v) {
                                return Err(format!("{name} is asked for in two ways"));
                            }
                        }
                        None => m[name] = v,
                    }
                }
                Selection::InlineFragment(f) => {
                    let on = match &f.node.type_condition {
                        None => true,
                        Some(c) => self.possible(self.base_of(&c.node.on.node).ok_or("type")?).contains(&n.ty),
                    };
                    if on {
                        self.pick_obj(&f.node.selection_set.node, n, m)?;
                    }
                }
                _ => return Err("spread".into()),
            }
        }
        Ok(())
    }
    // ---- what is selected
    fn names(&self, op: u8, sel: &[Sel], of: Base, depth: usize) -> Vec<R> {
        let mut out: Vec<R> = vec![];
        for s in sel {
            let (ty, cond) = match of {
                Base::Obj(i) => (i, None),
                Base::Face if s.x % 2 == 0 => (0, None),
                _ => {
                    let m = s.x as usize / 2 % self.ks();
                    (m, Some(m))
                }
            };
            let mut all: Vec<Fld> = self.fields(ty).into_iter().filter(|f| !f.omit).collect();
            if of == Base::Face && cond.is_none() {
                all.truncate(2);
            }
            all.push(Fld { kind: Kind::Typename, ..Self::plain("__typename", Base::Str, Wrap::Strict) });
            let fld = all[s.f as usize % all.len()].clone();
            let key = if s.x / 8 % 3 == 2 { format!("a{}_{}", s.x / 24 % 2, fld.shown) } else { fld.shown.clone() };
            if out.iter().any(|r| r.key == key && (r.fld.name != fld.name || r.cond == cond || r.cond.is_none() || cond.is_none() || !fld.base.leaf())) {
                continue;
            }
            let arg = if fld.arg {
                let h = hash(self.seed, &format!("arg/{op}/{ty}.{}", Self::source(&fld).0.name));
                Some((h % 3, h / 3 % 2 == 0)).filter(|_| h / 6 % 5 > 0)
            } else {
                None
            };
            let sub = if fld.base.leaf() { vec![] } else { self.names(op, if depth > 5 { &[] } else { &s.sub }, fld.base, depth + 1) };
            out.push(R { fld, of: ty, key, arg, cond, c: s.c, sub });
        }
        if out.is_empty() {
            let t = Fld { kind: Kind::Typename, ..Self::plain("__typename", Base::Str, Wrap::Strict) };
            out.push(R { key: "__typename".into(), of: 0, fld: t, arg: None, cond: None, c: 0, sub: vec![] });
        }
        out
    }
    fn op(&self, st: &Step) -> Vec<R> {
        let n = self.ops.len().max(1);
        let op = st.op % n as u8;
        let all = self.root_list();
        let mut out: Vec<R> = vec![];
        for s in self.ops.get(op as usize).into_iter().flatten() {
            let fld = all[s.f as usize % all.len()].clone();
            let key = if s.x % 2 == 1 { format!("a{}_{}", s.x / 2 % 4, fld.name) } else { fld.shown.clone() };
            if out.iter().any(|r| r.key == key) {
                continue;
            }
            let arg = if s.x / 2 % 2 == 0 { (st.id as u64 % 4 + 1, true) } else { (s.x as u64 / 4 % 4 + 1, false) };
            let sub = self.names(op, &s.sub, fld.base, 0);
            out.push(R { fld, of: 0, key, arg: Some(arg), cond: None, c: 0, sub });
        }
        if out.is_empty() {
            let fld = all[0].clone();
            let sub = self.names(op, &[], fld.base, 0);
            out.push(R { key: fld.shown.clone(), of: 0, fld, arg: Some((1, false)), cond: None, c: 0, sub });
        }
        out
    }
    fn print(&self, l: &[R], of: Option<Base>, frags: &mut Vec<String>) -> String {
        let mut parts: Vec<String> = vec![];
        for r in l {
            let a = match (&r.arg, of) {
                (None, _) => String::new(),
                (Some((_, true)), None) => "(id: $id)".into(),
                (Some((v, _)), None) => format!("(id: {v})"),
                (Some((v, true)), _) => format!("(x: $v{v})"),
                (Some((v, _)), _) => format!("(x: {v})"),
            };
            let mut s = if r.key == r.fld.shown { format!("{}{a}", r.key) } else { format!("{}: {}{a}", r.key, r.fld.shown) };
            let cond = match r.c % 8 {
                1 => " @include(if: $b)",
                2 => " @skip(if: $b)",
                _ => "",
            };
            if let (Some(_), Some((n, t)), true) = (of, self.mark(&r.fld.name), r.fld.kind == Kind::Plain) {
                s += &format!(" @mark(n: {n}, s: {})", json!(t));
            }
            s += cond;
            if !r.fld.base.leaf() {
                s += &format!(" {}", self.print(&r.sub, Some(r.fld.base), frags));
            }
            let face = r.fld.name == "id" || r.fld.name == "n0";
            s = match (of, r.cond, r.c % 8) {
                (Some(_), Some(m), 3) => {
                    let n = format!("F{}", frags.len());
                    frags.push(format!("fragment {n} on T{m} {{ {s} }}"));
                    format!("...{n}")
                }
                (Some(_), Some(m), _) => format!("... on T{m} {{ {s} }}"),
                (Some(Base::Obj(i)), None, 3) => {
                    let n = format!("F{}", frags.len());
                    frags.push(format!("fragment {n} on {} {{ {s} }}", self.tname(i)));
                    format!("...{n}")
                }
                (Some(Base::Obj(i)), None, 4) if face && i < self.ks() => format!("... on N {{ {s} }}"),
                (Some(Base::Obj(i)), None, 5) => format!("... on {} {{ {s} }}", self.tname(i)),
                _ => s,
            };
            parts.push(s);
        }
        format!("{{ {} }}", parts.join(" "))
    }
    fn looked(&self, st: &Step) -> String {
        match (st.id as usize + st.op as usize) % (self.ks() + 3) {
            0 => "Query".into(),
            1 => "N".into(),
            2 => "U".into(),
            n => self.tname(n - 3),
        }
    }
    /// what introspection tells of a type
    fn seen(&self, name: &str) -> Value {
        let base = |b: Base| {
            let k = match b {
                Base::Enum => "ENUM",
                Base::Face => "INTERFACE",
                Base::Uni => "UNION",
                Base::Obj(_) => "OBJECT",
                _ => "SCALAR",
            };
            json!({"kind": k, "name": self.name(b), "ofType": null})
        };
        let ty = |f: &Fld| match f.wrap {
            Wrap::Plain => base(f.base),
            Wrap::Strict => json!({"kind": "NON_NULL", "name": null, "ofType": base(f.base)}),
            Wrap::List => json!({"kind": "LIST", "name": null, "ofType": base(f.base)}),
        };
        let fields = |l: Vec<Fld>| {
            let mut l: Vec<Value> = l
                .iter()
                .filter(|f| !f.omit)
                .map(|f| {
                    let args = match name {
                        _ if !f.arg => json!([]),
                        "Query" => json!([{"name": "id", "type": {"kind": "NON_NULL", "name": null, "ofType": base(Base::Int)}}]),
                        _ => json!([{"name": "x", "type": base(Base::Int)}]),
                    };
                    json!({"name": f.shown, "type": ty(f), "args": args})
                })
                .collect();
            l.sort_by_key(|f| f["name"].to_string());
            l
        };
        let names: Vec<Value> = (0..self.ks()).map(|i| json!({"name": self.tname(i)})).collect();
        let (kind, f, i, p) = match name {
            "Query" => ("OBJECT", json!(fields(self.root_list())), json!([]), Value::Null),
            "N" => ("INTERFACE", json!(fields(self.fields(0).into_iter().take(2).collect())), json!([]), json!(names)),
            "U" => ("UNION", Value::Null, json!([]), json!(names)),
            n => {
                let i = (0..=self.ks()).find(|i| self.tname(*i) == n).unwrap();
                ("OBJECT", json!(fields(self.fields(i))), if i < self.ks() { json!([{"name": "N"}]) } else { json!([]) }, Value::Null)
            }
        };
        json!({"__type": {"kind": kind, "name": name, "fields": f, "interfaces": i, "possibleTypes": p}})
    }
    fn text(&self, st: &Step) -> (String, Value) {
        if st.look {
            let t = "type { kind name ofType { kind name ofType { kind name } } }";
            return (format!("{{ __type(name: \"{}\") {{ kind name fields {{ name {t} args {{ name {t} }} }} interfaces {{ name }} possibleTypes {{ name }} }} }}", self.looked(st)), json!({}));
        }
        let mut frags = vec![];
        let body = self.print(&self.op(st), None, &mut frags);
        let mut text = format!("{body} {}", frags.join(" "));
        let mut vars = json!({});
        let mut decl = vec![];
        for (n, ty, v) in [("id", "Int!", json!(st.id % 4 + 1)), ("v0", "Int", json!(0)), ("v1", "Int", json!(1)), ("v2", "Int", json!(2)), ("b", "Boolean!", json!(st.b))] {
            if text.contains(&format!("${n}")) {
                decl.push(format!("${n}: {ty}"));
                vars[n] = v;
            }
        }
        text = if decl.is_empty() { format!("query {text}") } else { format!("query({}) {text}", decl.join(", ")) };
        (text, vars)
    }
    // ---- the reference
    fn included(r: &R, b: bool) -> bool {
        match r.c % 8 {
            1 => b,
            2 => !b,
            _ => true,
        }
    }
    /// also what is left out this time may be asked for
    fn need(&self, l: &[R], base: Base, at: &str, out: &mut BTreeSet<String>) {
        for t in self.possible(base) {
            let tn = self.tname(t);
            for r in l.iter().filter(|r| r.cond.is_none_or(|c| c == t)) {
                let mut keys = |k: Key| match k {
                    Key::Id => out.extend([format!("{at}{tn}.idNone")]),
                    Key::Ref => out.extend([format!("{at}{tn}.refNone")]),
                    Key::Inner => out.extend([format!("{at}{tn}.oNone"), format!("{at}{tn}.oNone/K.idNone")]),
                };
                let (f, tail) = Self::source(&r.fld);
                match &f.kind {
                    Kind::Typename | Kind::Added(..) => {}
                    Kind::Plain => {
                        let here = format!("{at}{tn}.{}{:?}", f.name, r.arg.map(|a| a.0));
                        self.need_in(&tail, f.base, r, &format!("{here}/"), out);
                        out.insert(here);
                    }
                    Kind::Call(_) => keys(Key::Id),
                    Kind::Http(k, _) | Kind::Expr(k) | Kind::Gql(k, ..) | Kind::Merged(k) => keys(*k),
                }
            }
        }
    }
    /// what a field's value is taken from, and where in it it is
    fn source(f: &Fld) -> (&Fld, Vec<String>) {
        match &f.kind {
            Kind::Added(path, src) => (src, path[1..].to_vec()),
            _ => (f, vec![]),
        }
    }
    fn need_in(&self, tail: &[String], base: Base, r: &R, at: &str, out: &mut BTreeSet<String>) {
        match tail.split_first() {
            None if base.leaf() => {}
            None => self.need(&r.sub, base, at, out),
            Some((p, tail)) if p.parse::<u8>().is_ok() => self.need_in(tail, base, r, at, out),
            Some((p, tail)) => {
                for t in self.possible(base) {
                    let here = format!("{at}{}.{p}None", self.tname(t));
                    let Some(f) = self.find(t, p) else { continue };
                    self.need_in(tail, f.base, r, &format!("{here}/"), out);
                    out.insert(here);
                }
            }
        }
    }
    fn walk(&self, mut v: V, tail: &[String]) -> V {
        for p in tail {
            v = match (v, p.parse::<usize>()) {
                (V::List(l), Ok(i)) => l.get(i).cloned().unwrap_or(V::Null),
                (V::Obj(n), Err(_)) => self.get(&n, &self.find(n.ty, p).unwrap(), None),
                _ => V::Null,
            };
        }
        v
    }
    fn called(&self, name: &str, f: &Fld, tail: &[String], r: &R, id: u64, merged: bool, out: &mut Out) -> V {
        let k = (name.to_string(), id);
        self.need_in(tail, f.base, r, "", out.need.entry(k.clone()).or_default());
        out.calls.insert(k.clone());
        if self.is_broken(name, id) {
            out.broken.insert(k);
            return V::Null;
        }
        self.up_value(name, f.base, f.wrap, id, merged)
    }
    fn eval(&self, l: &[R], node: Option<&Node>, b: bool, out: &mut Out) -> Value {
        let mut m = Map::new();
        for r in l {
            if !Self::included(r, b) || r.cond.is_some_and(|c| node.is_some_and(|n| n.ty != c)) {
                continue;
            }
            let (f, tail) = Self::source(&r.fld);
            let v = match (node, &f.kind) {
                (None, _) => self.called(&format!("up_{}", f.name), f, &tail, r, r.arg.unwrap().0, false, out),
                (Some(n), Kind::Typename) => V::Leaf(json!(self.tname(n.ty))),
                (Some(n), Kind::Plain) => self.get(n, &self.find(n.ty, &f.name).unwrap(), r.arg.map(|a| a.0)),
                (Some(n), k) => {
                    let name = format!("{}_{}", self.tname(n.ty), f.name);
                    match k {
                        Kind::Http(k, _) => {
                            let k = self.key(n, *k);
                            out.calls.insert((format!("r/{name}"), k));
                            self.http_value(&name, f, k)
                        }
                        Kind::Call(i) => {
                            let root = &self.root_list()[*i];
                            self.called(&format!("up_{}", root.name), root, &tail, r, n.id, false, out)
                        }
                        Kind::Expr(k) => V::Leaf(json!(format!("of {}", self.key(n, *k)))),
                        Kind::Gql(k, ..) => self.called(&name, f, &tail, r, self.key(n, *k), false, out),
                        Kind::Merged(k) => {
                            let k = self.key(n, *k);
                            out.calls.insert((format!("m/{name}"), k));
                            match self.called(&name, f, &tail, r, k, true, out) {
                                V::Obj(n) => V::Obj(Node { over: Some(self.over(&name, k)), ..n }),
                                v => v,
                            }
                        }
                        _ => unreachable!(),
                    }
                }
            };
            let v = self.complete(r, &self.walk(v, &tail), b, out);
            m.insert(r.key.clone(), v);
        }
        m.into()
    }
    fn complete(&self, r: &R, v: &V, b: bool, out: &mut Out) -> Value {
        match v {
            V::Null => Value::Null,
            V::Leaf(v) => v.clone(),
            V::List(l) => l.iter().map(|v| self.complete(r, v, b, out)).collect(),
            V::Obj(n) => self.eval(&r.sub, Some(n), b, out),
        }
    }
}
struct Req {
    st: Step,
    text: String,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
fn draw_sel(r: &mut Rng, depth: usize) -> Vec<Sel> {
    (0..r.range(1, if depth == 0 { 3 } else { 4 }))
        .map(|_| Sel { f: r.below(24) as u8, x: if r.chance(0.6) { r.below(16) } else { r.below(64) } as u8, c: if r.chance(0.6) { 0 } else { r.below(8) as u8 }, sub: if depth < 4 { draw_sel(r, depth + 1) } else { vec![] } })
        .collect()
}

pub struct GqlScenario;
impl Scenario for GqlScenario {
    fn id(&self) -> &'static str {
        "C33"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            8_000
        } else {
            250_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws a schema over a GraphQL upstream (objects, an interface, a union, arguments, renamed, omitted and added fields, fields with calls of their own) and queries; \
         it is non-trivial when two requests overlapped and the upstream was asked for something, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["GraphQL selection sets of upstream requests", "@graphQL, @http, @call, @expr, @addField, @modify, @omit, @cache evaluation", "GraphQL data loader", "jit planner, executor, synth", "config loading and blueprint"],
            vec!["GraphQL and HTTP upstream (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "client_disconnect", "graphql_errors"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let objs = (0..r.range(1, 3))
            .map(|_| (0..r.range(1, 6)).map(|_| FDef { base: r.below(36) as u8, wrap: r.below(6) as u8, kind: r.below(14) as u8, x: r.below(144) as u8, ren: r.chance(0.2), omit: r.chance(0.05) }).collect())
            .collect();
        let roots = (0..r.range(1, 3)).map(|_| Root { base: r.below(36) as u8, wrap: r.below(6) as u8, how: if r.chance(0.4) { 0 } else { r.below(16) as u8 }, ren: r.chance(0.2) }).collect();
        let ops = (0..r.range(1, 3)).map(|_| draw_sel(r, 0)).collect();
        let least = if r.chance(0.2) { 1 } else { 2 };
        let clients = (0..r.range(least, if tier == Tier::Quick { 3 } else { 5 }))
            .map(|_| {
                (0..r.range(1, 2))
                    .map(|_| Step {
                        wait: *r.pick(&[0, 0, 0, 1, 2, 5]) * unit,
                        op: r.below(4) as u8,
                        id: r.below(4) as u8,
                        who: r.below(3) as u8,
                        b: r.chance(0.5),
                        look: r.chance(0.06),
                        cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                    })
                    .collect()
            })
            .collect();
        let faults = if r.chance(0.3) { 0.5 } else { 0.0 };
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            seed: r.below(1 << 32),
            broken: if r.chance(0.3) { 200 } else { 0 },
            batch: if r.chance(0.5) { Some((r.range(1, 10) as u64, *r.pick(&[2, 3, 100]))) } else { None },
            hide: if r.chance(0.5) { 0 } else { r.below(256) as u8 },
            objs,
            roots,
            ops,
            up: draw_mini(r, faults),
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let (b, e) = match prepared(&p.files(), &SimEnv::default()) {
            Ok(x) => x,
            Err(e) => panic!("configuration: {e}\n{}", p.sdl()),
        };
        let p1 = p.clone();
        let up = Mini::new(p.up.clone(), move |c| p1.answer(c));
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), SimEnv::default(), (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for (c, steps) in p2.clients.iter().cloned().enumerate() {
                let (app, r2, f, p) = (app.clone(), r2.clone(), u2.faults.clone(), p2.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for (i, st) in steps.into_iter().enumerate() {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        let (text, vars) = p.text(&st);
                        let n = c * 100 + i;
                        let body = json!({"query": text, "variables": vars}).to_string();
                        let heads = vec![("xc".to_string(), st.who.to_string())];
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request {n} at {inv:?}: {text} {vars}"));
                        let out = cancellable(async move { send(app, "POST", "/graphql", &heads, body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply {n} at {ret:?}: {reply:?}"));
                        r2.push(Arc::new(Req { st, text, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let mut faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        let mut broken = 0;
        if v.is_none() {
            v = judge(&p, &reqs, &calls, &mut broken);
        }
        if broken > 0 {
            faults.insert("graphql_errors".into(), broken);
        }
        let asked = calls.iter().any(|c| c.path == "/graphql" && c.raw.len() > 80);
        let nontrivial = asked && reqs.iter().enumerate().any(|(i, a)| reqs[..i].iter().any(|b| a.inv.s <= b.ret.s && b.inv.s <= a.ret.s));
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "upstream_calls": calls.len()}) }
    }
}

fn norm(t: &mut Value) {
    // the innermost one was asked for only so far
    fn cut(v: &mut Value) {
        if v["ofType"].get("kind").is_some() {
            let o = &mut v["ofType"];
            if o.get("ofType").is_none() {
                o["ofType"] = Value::Null;
            }
            cut(o);
        }
    }
    if t["interfaces"].is_null() {
        t["interfaces"] = json!([]);
    }
    for k in ["fields", "interfaces", "possibleTypes"] {
        if let Value::Array(l) = &mut t[k] {
            l.sort_by_key(|f| f["name"].to_string());
        }
    }
    for f in t["fields"].as_array_mut().into_iter().flatten() {
        cut(&mut f["type"]);
        for a in f["args"].as_array_mut().into_iter().flatten() {
            cut(&mut a["type"]);
        }
    }
}
fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall], broken: &mut u64) -> Option<Violation> {
    let any_failed = calls.iter().any(|c| c.failed());
    // what each group of users that share a header may ask for
    let mut needs: BTreeMap<String, Need> = BTreeMap::new();
    let mut gone: BTreeSet<String> = BTreeSet::new();
    let mut made: BTreeMap<String, BTreeSet<(String, u64)>> = BTreeMap::new();
    for r in reqs {
        let mut out = Out::default();
        let want = if r.st.look { p.seen(&p.looked(&r.st)) } else { p.eval(&p.op(&r.st), None, r.st.b, &mut out) };
        let who = r.st.who.to_string();
        let mine = needs.entry(who.clone()).or_default();
        for (k, v) in std::mem::take(&mut out.need) {
            mine.entry(k).or_default().extend(v);
        }
        *broken += out.broken.len() as u64;
        made.entry(who.clone()).or_default().extend(out.calls.clone());
        let Some(reply) = &r.reply else {
            gone.insert(who);
            continue;
        };
        let bad = |c: &str, t: String| {
            let mine: Vec<String> = calls.iter().filter(|c| c.headers.get("xc") == Some(&r.st.who.to_string())).map(|c| format!("{} {} {:?}", c.url, c.body, c.outcome)).collect();
            Some(Violation::new(c, format!("{t}\nrequest {} id {} b {} at {:?}..{:?}\nreply {reply:?}\nreference: {want} broken {:?}\ncalls {mine:#?}\n{}", r.text, r.st.id % 4 + 1, r.st.b, r.inv, r.ret, out.broken, p.sdl())))
        };
        let x = match reply {
            Ok(x) if x.status == 200 => {
                let mut x = x.json();
                if r.st.look {
                    norm(&mut x["data"]["__type"]);
                }
                x
            }
            Ok(x) => return bad("status", format!("status {}", x.status)),
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let errors = x["errors"].as_array().cloned().unwrap_or_default();
        if !errors.is_empty() && any_failed && !r.st.look {
            if !x["data"].is_null() && x["data"] != want {
                return bad("wrong-data", "the data are not what was selected".into());
            }
            continue;
        }
        for e in &errors {
            let told = e["message"].as_str().unwrap_or("");
            if !out.broken.iter().any(|(n, id)| told.contains(&format!("broken {n} {id}"))) {
                return bad("unexplained-error", format!("nothing brings the error {told:?}"));
            }
        }
        if x["data"] != want {
            return bad("wrong-data", "the data are not what was selected".into());
        }
        for (n, id) in &out.broken {
            let own = calls.iter().filter(|c| c.start.s >= r.inv.s && c.end.s <= r.ret.s && c.headers.get("xc") == Some(&r.st.who.to_string())).any(|c| c.raw.windows(n.len()).any(|w| w == n.as_bytes()));
            let alone = reqs.iter().filter(|o| o.st.who == r.st.who).count() == 1;
            if own && alone && !errors.iter().any(|e| e["message"].as_str().unwrap_or("").contains(&format!("broken {n} {id}"))) {
                return bad("errors-lost", format!("the upstream's error of {n} {id} is not told"));
            }
        }
    }
    for c in calls {
        let who = c.headers.get("xc").cloned().unwrap_or_default();
        let bad = |k: &str, t: String| Some(Violation::new(k, format!("{t}\ncall {} {}\nheaders {:?}\nrequests {:#?}\n{}", c.url, c.body, c.headers, reqs.iter().map(|r| (&r.text, r.st.id % 4 + 1, r.st.b, r.st.who)).collect::<Vec<_>>(), p.sdl())));
        if c.path != "/graphql" {
            let k: u64 = c.query.iter().find(|q| q.0 == "k").and_then(|q| q.1.parse().ok()).unwrap_or(0);
            if !made.get(&who).is_some_and(|m| m.contains(&(c.path[1..].to_string(), k))) {
                return bad("stray-call", format!("nothing asked for {}", c.url));
            }
            continue;
        }
        let all = match &c.body {
            Value::Array(l) => l.clone(),
            q => vec![q.clone()],
        };
        for q in all {
            match p.ask(&q) {
                Err(e) => return bad("invalid-query", format!("the upstream was asked what it does not know: {e}")),
                Ok((name, id, asked, _)) => {
                    let Some(need) = needs.get(&who).and_then(|n| n.get(&(name.clone(), id))) else {
                        return bad("stray-call", format!("nothing asked for {name} {id}"));
                    };
                    if let Some(a) = asked.iter().find(|a| !need.contains(*a)) {
                        return bad("asked-too-much", format!("nobody needs {a} of {name} {id}"));
                    }
                }
            }
        }
    }
    None
}
