//! Response validation: what the upstreams send is held against the declared types.
use std::collections::BTreeMap;
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct FDef {
    pub base: u8,
    pub wrap: u8,
    /// 0 plain, 1 a call per object, 2 a call for many
    pub kind: u8,
    /// the schema shows it under another name
    pub ren: bool,
    pub omit: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Root {
    pub f: FDef,
    /// 0 @http, 1 @http with a selection, 2 @expr
    pub how: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Sel {
    pub f: u8,
    /// arguments of grouped calls, alias
    #[serde(default)]
    pub x: u8,
    #[serde(default)]
    pub sub: Vec<Sel>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub op: u8,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub seed: u64,
    /// mistakes of the upstream, per thousand places
    pub rate: u64,
    pub validate: bool,
    /// delay ms, max size
    pub batch: Option<(u64, u64)>,
    pub objs: Vec<Vec<FDef>>,
    pub roots: Vec<Root>,
    pub ops: Vec<Vec<Sel>>,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Base {
    Int,
    Str,
    Bool,
    Float,
    Id,
    Json,
    Enum,
    Obj(usize),
    Uni,
}
const LEAVES: &[Base] = &[Base::Int, Base::Str, Base::Bool, Base::Float, Base::Id, Base::Json, Base::Enum, Base::Int, Base::Str];
#[derive(Clone, Debug)]
enum Ty {
    Named(Base, bool),
    List(Box<Ty>, bool),
}
impl Base {
    fn name(self) -> String {
        match self {
            Base::Int => "Int".into(),
            Base::Str => "String".into(),
            Base::Bool => "Boolean".into(),
            Base::Float => "Float".into(),
            Base::Id => "ID".into(),
            Base::Json => "JSON".into(),
            Base::Enum => "E".into(),
            Base::Obj(i) => format!("T{i}"),
            Base::Uni => "U".into(),
        }
    }
    fn leaf(self) -> bool {
        !matches!(self, Base::Obj(_) | Base::Uni)
    }
}
impl Ty {
    fn base(&self) -> Base {
        match self {
            Ty::Named(b, _) => *b,
            Ty::List(t, _) => t.base(),
        }
    }
    fn strict(&self) -> bool {
        match self {
            Ty::Named(_, s) | Ty::List(_, s) => *s,
        }
    }
    fn print(&self) -> String {
        match self {
            Ty::Named(b, s) => format!("{}{}", b.name(), if *s { "!" } else { "" }),
            Ty::List(t, s) => format!("[{}]{}", t.print(), if *s { "!" } else { "" }),
        }
    }
}
#[derive(Clone, Debug)]
struct Fld {
    /// in the data
    name: String,
    shown: String,
    ty: Ty,
    kind: u8,
    omit: bool,
    how: u8,
}
/// what was selected: names
#[derive(Clone, Debug)]
struct R {
    fld: Fld,
    key: String,
    /// its place in the address, and another parameter
    w: u8,
    v: u8,
    /// of a union: the one member asked for
    member: usize,
    sub: Vec<R>,
}

fn hash(seed: u64, s: &str) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    h ^ (h >> 32)
}
impl Plan {
    fn ks(&self) -> usize {
        self.objs.len().clamp(1, 4)
    }
    fn base(&self, b: u8) -> Base {
        let mut all: Vec<Base> = LEAVES.to_vec();
        for i in 0..self.ks() {
            all.extend([Base::Obj(i), Base::Obj(i)]);
        }
        all.push(Base::Uni);
        all[b as usize % all.len()]
    }
    /// `within`: a plain field of this object, which must be able to end
    fn ty(&self, f: &FDef, within: Option<usize>) -> Ty {
        let b = self.base(f.base);
        let ends = match (b, within) {
            (Base::Obj(j), Some(i)) => j > i,
            (Base::Uni, Some(_)) => false,
            _ => true,
        };
        let n = |s| Ty::Named(b, s);
        let l = |t, s| Ty::List(Box::new(t), s);
        match f.wrap % 11 {
            0 | 1 => n(false),
            2 => n(ends),
            3 => n(ends),
            4 => l(n(false), false),
            5 => l(n(true), false),
            6 => l(n(true), true),
            7 => l(n(false), true),
            8 => l(l(n(true), false), false),
            9 => l(l(n(false), true), true),
            _ => n(false),
        }
    }
    fn fields(&self, i: usize) -> Vec<Fld> {
        let mut out = vec![Fld { name: "id".into(), shown: "id".into(), ty: Ty::Named(Base::Int, true), kind: 0, omit: false, how: 0 }];
        for (j, f) in self.objs.get(i).into_iter().flatten().enumerate() {
            let name = format!("t{i}f{j}");
            let kind = if f.kind == 2 && (self.batch.is_none() || self.base(f.base).leaf() || self.base(f.base) == Base::Uni) { 1 } else { f.kind };
            let ty = match (kind, self.base(f.base)) {
                // what comes in groups
                (2, b) if f.wrap % 2 == 0 => Ty::List(Box::new(Ty::Named(b, f.wrap % 3 == 0)), false),
                (2, b) => Ty::Named(b, false),
                _ => self.ty(f, if kind == 0 { Some(i) } else { None }),
            };
            let omit = f.omit && !ty.strict();
            out.push(Fld { shown: if f.ren { format!("p{name}") } else { name.clone() }, name, ty, kind, omit, how: 0 });
        }
        out
    }
    fn roots(&self) -> Vec<Fld> {
        let mut out: Vec<Fld> = self
            .roots
            .iter()
            .enumerate()
            .map(|(i, r)| {
                let name = format!("q{i}");
                let ty = self.ty(&r.f, None);
                let obj = matches!(ty.base(), Base::Obj(_));
                let how = match (r.how, &ty) {
                    (1, Ty::Named(..)) if obj => 1,
                    (2, _) if obj => 2,
                    _ => 0,
                };
                Fld { shown: if r.f.ren { format!("p{name}") } else { name.clone() }, name, ty, kind: 1, omit: false, how }
            })
            .collect();
        // all types are reachable
        out.push(Fld { name: "qu".into(), shown: "qu".into(), ty: Ty::Named(Base::Uni, false), kind: 1, omit: false, how: 0 });
        out
    }
    fn sdl(&self) -> String {
        let mut s = String::from("schema { query: Query }\nenum E { AA BB CC }\n");
        let ren = |f: &Fld| {
            let m = if f.name != f.shown { format!(" @modify(name: \"{}\")", f.shown) } else { String::new() };
            let o = if f.omit { " @omit" } else { "" };
            format!("{m}{o}")
        };
        s += "type Query {\n";
        for f in self.roots() {
            let how = match f.how {
                1 => format!("@http(url: \"http://up/q/{}\", select: \"{{{{.data}}}}\")", f.name),
                2 => format!("@expr(body: {})", crate::inject::gql(&self.value(&f, None, (0, 0)))),
                _ => format!("@http(url: \"http://up/q/{}\")", f.name),
            };
            s += &format!("  {}: {} {how}{}\n", f.name, f.ty.print(), ren(&f));
        }
        s += "}\n";
        for i in 0..self.ks() {
            s += &format!("type T{i} {{\n");
            for f in self.fields(i) {
                let how = match f.kind {
                    1 => format!(" @http(url: \"http://up/r/{}\", query: [{{key: \"k\", value: \"{{{{.value.id}}}}\"}}])", f.name),
                    2 => format!(" @http(url: \"http://up/b/{}/{{{{.args.w}}}}\", query: [{{key: \"id\", value: \"{{{{.value.id}}}}\"}}, {{key: \"v\", value: \"{{{{.args.v}}}}\"}}], batchKey: [\"id\"])", f.name),
                    _ => String::new(),
                };
                let args = if f.kind == 2 { "(w: Int!, v: Int)" } else { "" };
                s += &format!("  {}{args}: {}{how}{}\n", f.name, f.ty.print(), ren(&f));
            }
            s += "}\n";
        }
        s += &format!("union U = {}\n", (0..self.ks()).map(|i| format!("T{i}")).collect::<Vec<_>>().join(" | "));
        s
    }
    fn files(&self) -> Vec<(String, String)> {
        let mut up = json!({"allowedHeaders": ["xc"]});
        if let Some((delay, max)) = self.batch {
            up["batch"] = json!({"delay": delay, "maxSize": max, "headers": ["xc"]});
        }
        let mut srv = json!({});
        if self.validate {
            srv["responseValidation"] = json!(true);
        }
        let cfg = json!({"server": srv, "upstream": up, "links": [{"src": "/app/schema.graphql", "type": "Config"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), self.sdl())]
    }
    // ---- the upstream's data
    fn gen(&self, ty: &Ty, at: &str, depth: usize, rate: u64, id: u64) -> Value {
        let h = hash(self.seed, at);
        let bad = hash(self.seed, &format!("{at}!")) % 1000 < rate;
        let odd = (h >> 40) as usize % 6;
        let deep = depth > 3 && !ty.base().leaf();
        match ty {
            Ty::List(t, strict) => {
                if bad {
                    return [json!("x"), json!({"id": 1}), json!(4), json!({}), json!(false), Value::Null][odd].clone();
                }
                if !strict && h % 11 == 0 {
                    return Value::Null;
                }
                if deep {
                    return json!([]);
                }
                (0..(h >> 8) % 3).map(|i| self.gen(t, &format!("{at}.{i}"), depth + 1, rate, 0)).collect()
            }
            Ty::Named(b, strict) => {
                if bad && odd == 5 || !strict && (h % 9 == 0 || deep) {
                    return Value::Null;
                }
                let n = (h >> 16) % 50;
                match b {
                    Base::Int if bad => [json!("1"), json!("x"), json!(true), json!([1]), json!({}), json!(null)][odd].clone(),
                    Base::Int => json!(n),
                    Base::Str if bad => [json!(1), json!(true), json!(["x"]), json!({"x": "y"}), json!(1.5), json!(null)][odd].clone(),
                    Base::Str => json!(format!("s{n}")),
                    Base::Bool if bad => [json!(1), json!("true"), json!([true]), json!({}), json!(0), json!(null)][odd].clone(),
                    Base::Bool => json!(n % 2 == 0),
                    Base::Float => json!(n as f64 + 0.5),
                    Base::Id => [json!(n), json!(format!("i{n}"))][n as usize % 2].clone(),
                    Base::Enum => json!(["AA", "BB", "CC"][n as usize % 3]),
                    Base::Json => [json!({"k": n, "l": [null]}), json!([n]), json!(n), json!("text")][n as usize % 4].clone(),
                    Base::Obj(i) => {
                        if bad && odd < 4 {
                            return [json!(5), json!("x"), json!([]), json!([{"id": 1}])][odd].clone();
                        }
                        self.obj(*i, at, depth, rate, id)
                    }
                    Base::Uni => {
                        let i = n as usize % self.ks();
                        json!({format!("T{i}"): self.obj(i, at, depth, rate, id)})
                    }
                }
            }
        }
    }
    fn obj(&self, i: usize, at: &str, depth: usize, rate: u64, id: u64) -> Value {
        let mut m = Map::new();
        for f in self.fields(i) {
            if f.kind != 0 {
                continue;
            }
            let p = format!("{at}.{}", f.name);
            let v = if f.name == "id" {
                if id > 0 { json!(id) } else { json!(hash(self.seed, &p) % 6 + 1) }
            } else {
                self.gen(&f.ty, &p, depth + 1, rate, 0)
            };
            if v.is_null() && hash(self.seed, &format!("{p}?")) % 2 == 0 {
                continue;
            }
            m.insert(f.name, v);
        }
        m.into()
    }
    fn route(&self, path: &str) -> Option<Fld> {
        let name = path.split('/').nth(2)?;
        if path.starts_with("/q/") {
            return self.roots().into_iter().find(|f| f.name == name);
        }
        let i: usize = name.strip_prefix('t')?.split('f').next()?.parse().ok()?;
        self.fields(i).into_iter().find(|f| f.name == name && f.kind != 0)
    }
    /// the one group of a grouped answer
    fn group(&self, f: &Fld, id: u64, (w, v): (u8, u8)) -> Vec<Value> {
        let at = format!("b/{}/{w}?{v}&{id}", f.name);
        let most = if matches!(f.ty, Ty::List(..)) { 3 } else { 2 };
        let Base::Obj(i) = f.ty.base() else { return vec![] };
        (0..hash(self.seed, &at) % most).map(|j| self.obj(i, &format!("{at}.{j}"), 1, self.rate, id)).collect()
    }
    /// what a field's call brings it
    fn value(&self, f: &Fld, id: Option<u64>, wv: (u8, u8)) -> Value {
        match f.kind {
            2 => {
                let l = self.group(f, id.unwrap_or(0), wv);
                match f.ty {
                    Ty::List(..) => l.into(),
                    _ => l.into_iter().next().unwrap_or_default(),
                }
            }
            _ => self.gen(&f.ty, &format!("{}?{id:?}", f.name), 0, if f.how == 2 { 0 } else { self.rate }, 0),
        }
    }
    fn answer(&self, c: &MCall) -> Option<Value> {
        let f = self.route(&c.path)?;
        let ids: Vec<u64> = c.query.iter().filter(|(k, _)| k != "v").filter_map(|(_, v)| v.parse().ok()).collect();
        let v = c.query.iter().find(|(k, _)| k == "v").and_then(|(_, v)| v.parse().ok()).unwrap_or(0);
        let wv = (c.segs().get(2).and_then(|w| w.parse().ok()).unwrap_or(0), v);
        Some(match (c.segs()[0], f.how) {
            ("b", _) => ids.iter().flat_map(|id| self.group(&f, *id, wv)).collect(),
            ("r", _) => self.value(&f, Some(*ids.first()?), wv),
            (_, 1) => json!({"data": self.value(&f, None, (0, 0))}),
            _ => self.value(&f, None, (0, 0)),
        })
    }
    // ---- what is selected
    fn names(&self, sel: &[Sel], of: Option<usize>, depth: usize) -> Vec<R> {
        let all: Vec<Fld> = match of {
            None => self.roots(),
            Some(i) => self.fields(i).into_iter().filter(|f| !f.omit).collect(),
        };
        let mut out: Vec<R> = vec![];
        for s in sel {
            let fld = all[s.f as usize % all.len()].clone();
            let (mut w, mut v) = (s.x % 2, s.x / 2 % 2);
            let key = if s.x >= 4 { format!("a{w}{v}_{}", fld.name) } else { fld.shown.clone() };
            if fld.kind != 2 {
                (w, v) = (0, 0);
            }
            if out.iter().any(|r| r.key == key) {
                continue;
            }
            let member = match fld.ty.base() {
                Base::Obj(i) => i,
                _ => s.f as usize % self.ks(),
            };
            let sub = if fld.ty.base().leaf() || depth > 5 { vec![] } else { self.names(&s.sub, Some(member), depth + 1) };
            out.push(R { fld, key, w, v, member, sub });
        }
        if out.is_empty() {
            out.push(R { fld: all[0].clone(), key: all[0].shown.clone(), w: 0, v: 0, member: 0, sub: vec![] });
        }
        out
    }
    fn print(&self, l: &[R]) -> String {
        let one = |r: &R| {
            let args = if r.fld.kind == 2 { format!("(w: {}, v: {})", r.w, r.v) } else { String::new() };
            let name = if r.key == r.fld.shown { format!("{}{args}", r.key) } else { format!("{}: {}{args}", r.key, r.fld.shown) };
            match r.fld.ty.base() {
                b if b.leaf() => name,
                Base::Uni => format!("{name} {{ __typename ... on T{} {} }}", r.member, self.print(&r.sub)),
                _ => format!("{name} {}", self.print(&r.sub)),
            }
        };
        format!("{{ {} }}", if l.is_empty() { "__typename".into() } else { l.iter().map(one).collect::<Vec<_>>().join(" ") })
    }
    fn op(&self, i: u8) -> Vec<R> {
        match self.ops.len() {
            0 => self.names(&[], None, 0),
            n => self.names(&self.ops[i as usize % n], None, 0),
        }
    }
    // ---- the reference
    /// is there a place that is not as declared, at which nobody can be in doubt; at which one may
    fn check(&self, ty: &Ty, v: &Value, parents: &mut Vec<usize>, loose: bool, f: &mut (bool, bool)) {
        let hit = |loose: bool, f: &mut (bool, bool)| if loose { f.1 = true } else { f.0 = true };
        if v.is_null() {
            if ty.strict() {
                let any = matches!(ty, Ty::Named(Base::Float | Base::Id | Base::Json | Base::Enum | Base::Uni, _));
                let again = matches!(ty, Ty::Named(Base::Obj(i), _) if parents.contains(i));
                hit(loose || any || again, f);
            }
            return;
        }
        match ty {
            Ty::List(t, _) => match v {
                Value::Array(l) => l.iter().for_each(|v| self.check(t, v, parents, loose, f)),
                _ => hit(loose, f),
            },
            Ty::Named(b, _) => match b {
                Base::Int if !v.is_number() => hit(loose, f),
                Base::Str if !v.is_string() => hit(loose, f),
                Base::Bool if !v.is_boolean() => hit(loose, f),
                Base::Obj(i) => self.fit(*i, v, parents, loose || parents.contains(i), f),
                Base::Uni => {
                    if let Some((n, v)) = v.as_object().and_then(|m| m.iter().next()) {
                        self.fit(n[1..].parse().unwrap(), v, parents, true, f)
                    }
                }
                _ => {}
            },
        }
    }
    fn fit(&self, i: usize, v: &Value, parents: &mut Vec<usize>, loose: bool, f: &mut (bool, bool)) {
        let Value::Object(m) = v else {
            if loose { f.1 = true } else { f.0 = true };
            return;
        };
        parents.push(i);
        for d in self.fields(i) {
            if d.kind == 0 {
                // what is not there is not taken for one that may be anything
                let v = m.get(&d.name).unwrap_or(&Value::Null);
                self.check(&d.ty, v, parents, loose, f);
            }
        }
        parents.pop();
    }
    fn eval(&self, l: &[R], v: &Value, path: &str, out: &mut Out) -> Value {
        if l.is_empty() {
            return json!({});
        }
        let mut m = Map::new();
        for r in l {
            let here = if path.is_empty() { r.key.clone() } else { format!("{path}.{}", r.key) };
            let raw = if r.fld.kind == 0 {
                v.get(&r.fld.name).cloned().unwrap_or(Value::Null)
            } else {
                let id = if path.is_empty() { None } else { v["id"].as_u64() };
                let raw = self.value(&r.fld, id, (r.w, r.v));
                if r.fld.how != 2 {
                    out.calls.push((if r.fld.kind == 2 { format!("{}/{}?{}", r.fld.name, r.w, r.v) } else { r.fld.name.clone() }, id));
                }
                let mut f = (false, false);
                self.check(&r.fld.ty, &raw, &mut vec![], !self.validate || r.fld.how != 0, &mut f);
                if f.0 {
                    out.bad.push(here.clone());
                }
                if f.1 {
                    out.odd.push(here.clone());
                }
                if f.0 || f.1 {
                    continue;
                }
                raw
            };
            m.insert(r.key.clone(), self.complete(&r.fld.ty, r, &raw, &here, out));
        }
        m.into()
    }
    fn complete(&self, ty: &Ty, r: &R, v: &Value, path: &str, out: &mut Out) -> Value {
        match (ty, v) {
            (_, Value::Null) => Value::Null,
            (Ty::List(t, _), Value::Array(l)) => l.iter().enumerate().map(|(i, v)| self.complete(t, r, v, &format!("{path}.{i}"), out)).collect(),
            (Ty::Named(Base::Obj(_), _), _) if r.sub.is_empty() => json!({"__typename": ty.base().name()}),
            (Ty::Named(Base::Obj(_), _), v) => self.eval(&r.sub, v, path, out),
            (Ty::Named(Base::Uni, _), Value::Object(m)) => {
                let (n, v) = m.iter().next().unwrap();
                let mut x = json!({"__typename": n});
                if *n == format!("T{}", r.member) {
                    for (k, v) in self.eval(&r.sub, v, path, out).as_object().unwrap() {
                        x[k] = v.clone();
                    }
                }
                x
            }
            _ => v.clone(),
        }
    }
}
#[derive(Default)]
struct Out {
    /// the fields whose answers are not of their types; those that may be told
    bad: Vec<String>,
    odd: Vec<String>,
    calls: Vec<(String, Option<u64>)>,
}
struct Req {
    n: usize,
    op: u8,
    text: String,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
fn draw_sel(r: &mut Rng, depth: usize) -> Vec<Sel> {
    (0..r.range(1, if depth == 0 { 3 } else { 4 })).map(|_| Sel { f: r.below(12) as u8, x: if r.chance(0.6) { r.below(4) } else { r.below(8) } as u8, sub: if depth < 4 { draw_sel(r, depth + 1) } else { vec![] } }).collect()
}

pub struct ValidScenario;
impl Scenario for ValidScenario {
    fn id(&self) -> &'static str {
        "C32"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            8_000
        } else {
            250_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws a schema (objects that may contain themselves, a union, lists, non-null, renamed and omitted fields, single and grouped calls, selections, constants), the upstream's data for it \
         with mistakes, and queries; it is non-trivial when two requests overlapped and an answer was held against its type, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["JSON schemas of the declared types", "@http evaluation, loaders, grouping", "@expr, select, @modify, @omit", "jit planner, executor, synth", "config loading and blueprint"],
            vec!["upstream service (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "client_disconnect", "mistyped_answer"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let fdef = |r: &mut Rng| FDef { base: r.below(30) as u8, wrap: r.below(33) as u8, kind: if r.chance(0.6) { 0 } else { 1 + r.below(2) as u8 }, ren: r.chance(0.2), omit: r.chance(0.1) };
        let objs = (0..r.range(1, 3)).map(|_| (0..r.range(1, 5)).map(|_| fdef(r)).collect()).collect();
        let roots = (0..r.range(1, 3))
            .map(|_| {
                let mut f = fdef(r);
                if r.chance(0.8) {
                    f.base = 9 + r.below(6) as u8;
                }
                Root { f, how: if r.chance(0.7) { 0 } else { 1 + r.below(2) as u8 } }
            })
            .collect();
        let ops = (0..r.range(1, 3)).map(|_| draw_sel(r, 0)).collect();
        let least = if r.chance(0.2) { 1 } else { 2 };
        let clients = (0..r.range(least, if tier == Tier::Quick { 3 } else { 5 }))
            .map(|_| {
                (0..r.range(1, 2))
                    .map(|_| Step { wait: *r.pick(&[0, 0, 0, 1, 2, 5]) * unit, op: r.below(4) as u8, cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None } })
                    .collect()
            })
            .collect();
        let faults = if r.chance(0.3) { 0.5 } else { 0.0 };
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            seed: r.below(1 << 32),
            rate: *r.pick(&[0, 10, 30, 100]),
            validate: r.chance(0.85),
            batch: if r.chance(0.5) { Some((r.range(1, 10) as u64, *r.pick(&[2, 3, 100]))) } else { None },
            objs,
            roots,
            ops,
            up: draw_mini(r, faults),
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let (b, e) = match prepared(&p.files(), &SimEnv::default()) {
            Ok(x) => x,
            Err(e) => panic!("configuration: {e}\n{}", p.sdl()),
        };
        let p1 = p.clone();
        let up = Mini::new(p.up.clone(), move |c| Ans::json(p1.answer(c)?));
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), SimEnv::default(), (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for (c, steps) in p2.clients.iter().cloned().enumerate() {
                let (app, r2, f, p) = (app.clone(), r2.clone(), u2.faults.clone(), p2.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for (i, st) in steps.into_iter().enumerate() {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        let text = format!("query {}", p.print(&p.op(st.op)));
                        let n = c * 100 + i;
                        let body = json!({"query": text}).to_string();
                        let heads = vec![("xc".to_string(), n.to_string())];
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request {n} at {inv:?}: {text}"));
                        let out = cancellable(async move { send(app, "POST", "/graphql", &heads, body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply {n} at {ret:?}: {reply:?}"));
                        r2.push(Arc::new(Req { n, op: st.op, text, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let mut faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        let mut wrong = 0;
        if v.is_none() {
            v = judge(&p, &reqs, &calls, &mut wrong);
        }
        if wrong > 0 {
            faults.insert("mistyped_answer".into(), wrong);
        }
        let nontrivial = p.validate && !calls.is_empty() && reqs.iter().enumerate().any(|(i, a)| reqs[..i].iter().any(|b| a.inv.s <= b.ret.s && b.inv.s <= a.ret.s));
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "upstream_calls": calls.len()}) }
    }
}

fn call_name(c: &MCall) -> String {
    let s = c.segs();
    let v = c.query.iter().find(|(k, _)| k == "v").map(|(_, v)| v.as_str()).unwrap_or("");
    match s.get(2) {
        Some(w) => format!("{}/{w}?{v}", s[1]),
        None => s[1].to_string(),
    }
}
fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall], wrong: &mut u64) -> Option<Violation> {
    let any_failed = calls.iter().any(|c| c.failed());
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let xc = r.n.to_string();
        let mine: Vec<&MCall> = calls.iter().filter(|c| c.headers.get("xc") == Some(&xc)).collect();
        let mut out = Out::default();
        let want = p.eval(&p.op(r.op), &Value::Null, "", &mut out);
        *wrong += (out.bad.len() + out.odd.len()) as u64;
        let bad = |c: &str, t: String| {
            Some(Violation::new(
                c,
                format!(
                    "{t}\nrequest {} at {:?}..{:?}\nreply {reply:?}\nreference: {want} wrong answers for {:?}, in doubt {:?}\ncalls {:?}\n{}",
                    r.text,
                    r.inv,
                    r.ret,
                    out.bad,
                    out.odd,
                    mine.iter().map(|c| &c.url).collect::<Vec<_>>(),
                    p.sdl()
                ),
            ))
        };
        let x = match reply {
            Ok(x) if x.status == 200 => x.json(),
            Ok(x) => return bad("status", format!("status {}", x.status)),
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let errors = x["errors"].as_array().cloned().unwrap_or_default();
        if !errors.is_empty() {
            if !x["data"].is_null() {
                return bad("errors-and-data", "there are errors and data".into());
            }
            if any_failed {
                continue;
            }
            if out.bad.is_empty() && out.odd.is_empty() {
                return bad("unexplained-error", "every answer was as declared".into());
            }
            for e in &errors {
                let path: Vec<String> = e["path"].as_array().into_iter().flatten().map(|s| s.as_str().map(|s| s.to_string()).unwrap_or(s.to_string())).collect();
                let path = path.join(".");
                // where a field's own answer failed, the place in the query is told
                let col = e["locations"][0]["column"].as_u64().unwrap_or(1) as usize - 1;
                let name: String = r.text.chars().skip(col).take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                let last = |o: &String| o.rsplit('.').next().is_some_and(|k| k == name);
                let explained = if path.is_empty() {
                    out.bad.iter().any(last) || !out.odd.is_empty()
                } else {
                    out.bad.contains(&path) || out.odd.iter().any(|o| path == *o || path.starts_with(&format!("{o}.")))
                };
                if !explained {
                    return bad("wrong-path", format!("nothing is wrong with the answer for {path:?}"));
                }
            }
            continue;
        }
        if !out.bad.is_empty() {
            return bad("passed", "an answer is not as declared and passed".into());
        }
        if !out.odd.is_empty() {
            continue;
        }
        if mine.iter().any(|c| c.failed()) {
            return bad("failure-hidden", "an upstream call failed".into());
        }
        if x["data"] != want {
            return bad("wrong-data", "the data are not what was selected".into());
        }
        for (name, id) in &out.calls {
            let made = mine.iter().any(|c| call_name(c) == *name && id.is_none_or(|id| c.query.iter().any(|(k, v)| k != "v" && *v == id.to_string())));
            if !made {
                return bad("no-call", format!("no call for {name} {id:?}"));
            }
        }
        for c in &mine {
            let name = call_name(c);
            let ok = out.calls.iter().any(|(n, id)| *n == name && (id.is_none() || c.query.iter().any(|(k, v)| k != "v" && *v == id.unwrap().to_string())));
            if !ok {
                return bad("stray-call", format!("nothing asked for {}", c.url));
            }
        }
    }
    None
}
