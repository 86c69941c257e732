//! The shape of the data: what was selected, as the schema has it.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct FDef {
    pub base: u8,
    pub wrap: u8,
    pub res: bool,
    /// how abstract values tell their type: 0 by key, 1 by the field `kind`, 2 by `__typename`
    pub mode: u8,
}
/// One thing selected; indices are taken modulo what there is.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Sel {
    Field { f: u8, alias: u8, cond: u8, sub: Vec<Sel> },
    Inline { on: u8, cond: u8, sub: Vec<Sel> },
    Spread { frag: u8, cond: u8 },
    Typename { alias: u8, cond: u8 },
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Op {
    pub sel: Vec<Sel>,
    pub frags: Vec<(u8, Vec<Sel>)>,
    /// defaults of `a` and `b`
    #[serde(default)]
    pub def: (Option<bool>, Option<bool>),
    /// selects only from what the schema says
    #[serde(default)]
    pub fixed: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub op: u8,
    pub a: Option<bool>,
    pub b: Option<bool>,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub seed: u64,
    /// mistakes of the upstream, per thousand places
    pub rate: u64,
    /// fields of T0, T1, ...
    pub objs: Vec<Vec<FDef>>,
    /// who implements the interface, who is in the union
    pub ifc: u8,
    pub uni: u8,
    /// a field of the interface
    pub ix: FDef,
    pub roots: Vec<FDef>,
    /// fields whose value the schema says
    #[serde(default)]
    pub consts: Vec<FDef>,
    pub ops: Vec<Op>,
    /// all operations are in one document, from which the request chooses
    #[serde(default)]
    pub joint: bool,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Base {
    Int,
    Str,
    Bool,
    Enum,
    Email,
    Int64,
    Date,
    Json,
    Obj(usize),
    Ifc,
    Uni,
}
const LEAVES: &[Base] = &[Base::Int, Base::Str, Base::Enum, Base::Email, Base::Int64, Base::Date, Base::Json, Base::Bool];
#[derive(Clone, Debug)]
enum Ty {
    Named(Base, bool),
    List(Box<Ty>, bool),
}
impl Ty {
    fn base(&self) -> Base {
        match self {
            Ty::Named(b, _) => *b,
            Ty::List(t, _) => t.base(),
        }
    }
    fn strict(&self) -> bool {
        match self {
            Ty::Named(_, s) | Ty::List(_, s) => *s,
        }
    }
    fn print(&self) -> String {
        match self {
            Ty::Named(b, s) => format!("{}{}", b.name(), if *s { "!" } else { "" }),
            Ty::List(t, s) => format!("[{}]{}", t.print(), if *s { "!" } else { "" }),
        }
    }
    fn mangled(&self) -> String {
        self.print().replace('[', "l").replace(']', "_").replace('!', "x")
    }
}
impl Base {
    fn name(self) -> String {
        match self {
            Base::Int => "Int".into(),
            Base::Str => "String".into(),
            Base::Bool => "Boolean".into(),
            Base::Enum => "E".into(),
            Base::Email => "Email".into(),
            Base::Int64 => "Int64".into(),
            Base::Date => "Date".into(),
            Base::Json => "JSON".into(),
            Base::Obj(i) => format!("T{i}"),
            Base::Ifc => "I".into(),
            Base::Uni => "U".into(),
        }
    }
    fn leaf(self) -> bool {
        !matches!(self, Base::Obj(_) | Base::Ifc | Base::Uni)
    }
}
/// where a selection stands
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ctx {
    Query,
    Obj(usize),
    Ifc,
    Uni,
}
impl Ctx {
    fn name(self) -> String {
        match self {
            Ctx::Query => "Query".into(),
            Ctx::Obj(i) => format!("T{i}"),
            Ctx::Ifc => "I".into(),
            Ctx::Uni => "U".into(),
        }
    }
}
#[derive(Clone, Debug)]
struct Fld {
    name: String,
    ty: Ty,
    res: bool,
    mode: u8,
    fixed: bool,
}
/// a selection with names
#[derive(Clone, Debug)]
enum R {
    Field { key: String, fld: Fld, cond: u8, sub: Vec<R> },
    Typename { key: String, cond: u8 },
    Frag { on: Option<Ctx>, named: Option<usize>, cond: u8, sub: Vec<R> },
}

impl Plan {
    fn ks(&self) -> usize {
        self.objs.len().clamp(1, 6)
    }
    fn members(&self, mask: u8) -> Vec<usize> {
        let m: Vec<usize> = (0..self.ks()).filter(|i| mask >> i & 1 == 1).collect();
        if m.is_empty() {
            vec![self.ks() - 1]
        } else {
            m
        }
    }
    fn ifcs(&self) -> Vec<usize> {
        self.members(self.ifc)
    }
    fn unis(&self) -> Vec<usize> {
        self.members(self.uni)
    }
    /// `above`: plain fields hold objects above the one they are in
    fn ty(&self, f: &FDef, above: Option<usize>) -> Ty {
        let mut all: Vec<Base> = LEAVES.to_vec();
        for i in 0..self.ks() {
            all.extend([Base::Obj(i), Base::Obj(i)]);
        }
        all.extend([Base::Ifc, Base::Uni, Base::Ifc, Base::Uni]);
        let mut b = all[f.base as usize % all.len()];
        if let Some(i) = above {
            let low = match b {
                Base::Obj(j) => Some(j),
                Base::Ifc => self.ifcs().first().copied(),
                Base::Uni => self.unis().first().copied(),
                _ => None,
            };
            if low.is_some_and(|l| l <= i) {
                b = LEAVES[f.base as usize % LEAVES.len()];
            }
        }
        let n = |s| Ty::Named(b, s);
        let l = |t, s| Ty::List(Box::new(t), s);
        match f.wrap % 12 {
            0..=2 => n(false),
            3 => n(true),
            4 | 5 => l(n(false), false),
            6 => l(n(true), false),
            7 => l(n(false), true),
            8 => l(n(true), true),
            9 => l(l(n(false), false), false),
            10 => l(l(n(true), true), false),
            _ => l(l(n(true), false), true),
        }
    }
    fn common(&self) -> Vec<Fld> {
        let f = |n: &str, b| Fld { name: n.into(), ty: Ty::Named(b, false), res: false, mode: 0, fixed: false };
        let top = self.ifcs().into_iter().max();
        vec![f("id", Base::Int), f("name", Base::Str), Fld { name: "ix".into(), ty: self.ty(&self.ix, top), res: false, mode: self.ix.mode % 3, fixed: false }]
    }
    fn fields(&self, c: Ctx) -> Vec<Fld> {
        match c {
            Ctx::Query => {
                let mut l: Vec<Fld> =
                    self.roots.iter().enumerate().map(|(i, f)| Fld { name: format!("q{i}"), ty: self.ty(f, None), res: true, mode: f.mode % 3, fixed: false }).collect();
                l.extend(self.consts.iter().enumerate().map(|(i, f)| Fld { name: format!("c{i}"), ty: self.ty(f, None), res: true, mode: f.mode % 3, fixed: true }));
                // types nothing leads to are dropped from the schema
                l.push(Fld { name: "qu".into(), ty: Ty::Named(Base::Uni, false), res: true, mode: self.ix.wrap % 3, fixed: false });
                l.push(Fld { name: "qi".into(), ty: Ty::Named(Base::Ifc, false), res: true, mode: self.ix.base % 3, fixed: false });
                l
            }
            Ctx::Obj(i) => {
                let mut l = self.common();
                if !self.ifcs().contains(&i) {
                    l.truncate(2);
                }
                for (j, f) in self.objs.get(i).into_iter().flatten().enumerate() {
                    l.push(Fld { name: format!("t{i}f{j}"), ty: self.ty(f, if f.res { None } else { Some(i) }), res: f.res, mode: f.mode % 3, fixed: false });
                }
                l
            }
            Ctx::Ifc => self.common(),
            Ctx::Uni => vec![],
        }
    }
    /// the object types a context stands for
    fn cover(&self, c: Ctx) -> Vec<usize> {
        match c {
            Ctx::Query => vec![],
            Ctx::Obj(i) => vec![i],
            Ctx::Ifc => self.ifcs(),
            Ctx::Uni => self.unis(),
        }
    }
    fn ctxs(&self) -> Vec<Ctx> {
        (0..self.ks()).map(Ctx::Obj).chain([Ctx::Ifc, Ctx::Uni, Ctx::Query]).collect()
    }
    /// what a fragment may be on inside `c`
    fn ons(&self, c: Ctx) -> Vec<Option<Ctx>> {
        let mut l = vec![None];
        if c == Ctx::Query {
            l.push(Some(c));
            return l;
        }
        let here = self.cover(c);
        l.extend(self.ctxs().into_iter().filter(|o| self.cover(*o).iter().any(|i| here.contains(i))).map(Some));
        l
    }
    fn sdl(&self) -> String {
        let mut s = String::from("schema { query: Query }\nenum E { AA BB CC }\n");
        let fld = |f: &Fld, c: Ctx| {
            let d = if !f.ty.base().leaf() && matches!(f.ty.base(), Base::Ifc | Base::Uni) && f.mode == 1 { " @discriminate(field: \"kind\")" } else { "" };
            let h = match (c, f.res) {
                (_, false) => String::new(),
                _ if f.fixed => format!(" @expr(body: {})", crate::inject::gql(&self.gen(&f.ty, self.mode(f), &f.name))),
                (Ctx::Query, _) => format!(" @http(url: \"http://up/q/{}\")", f.name),
                _ => format!(" @http(url: \"http://up/r/{}\", query: [{{key: \"k\", value: \"{{{{.value.id}}}}\"}}])", f.name),
            };
            format!("  {}: {}{h}{d}\n", f.name, f.ty.print())
        };
        let mut put = |head: String, c: Ctx| {
            s += &head;
            s += " {\n";
            for f in self.fields(c) {
                s += &fld(&f, c);
            }
            s += "}\n";
        };
        put("type Query".into(), Ctx::Query);
        for i in 0..self.ks() {
            let imp = if self.ifcs().contains(&i) { " implements I" } else { "" };
            put(format!("type T{i}{imp}"), Ctx::Obj(i));
        }
        put("interface I".into(), Ctx::Ifc);
        s += &format!("union U = {}\n", self.unis().iter().map(|i| format!("T{i}")).collect::<Vec<_>>().join(" | "));
        s
    }
    fn files(&self) -> Vec<(String, String)> {
        let cfg = json!({"server": {}, "upstream": {"allowedHeaders": ["xc"]}, "links": [{"src": "/app/schema.graphql", "type": "Config"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), self.sdl())]
    }
    fn names(&self, op: &Op, sel: &[Sel], c: Ctx, frag: usize, depth: usize) -> Vec<R> {
        let mut out = vec![];
        let mut fields = self.fields(c);
        if op.fixed && c == Ctx::Query && !self.consts.is_empty() {
            fields.retain(|f| f.fixed);
        }
        if op.fixed && self.fields(c).iter().any(|f| !f.res) {
            fields.retain(|f| !f.res);
        }
        for s in sel {
            match s {
                Sel::Field { f, alias, cond, sub } if !fields.is_empty() => {
                    let fld = fields[*f as usize % fields.len()].clone();
                    let key = match alias % 8 {
                        n @ 0..=1 => format!("a{n}_{}", fld.name),
                        // the first field of its type, under a name that says the type
                        2 if matches!(c, Ctx::Obj(_)) && fields.iter().find(|o| o.ty.print() == fld.ty.print()).is_some_and(|o| o.name == fld.name) => format!("x_{}", fld.ty.mangled()),
                        _ => fld.name.clone(),
                    };
                    let b = match fld.ty.base() {
                        Base::Obj(i) => Some(Ctx::Obj(i)),
                        Base::Ifc => Some(Ctx::Ifc),
                        Base::Uni => Some(Ctx::Uni),
                        _ => None,
                    };
                    let sub = match b {
                        None => vec![],
                        Some(c) => {
                            let mut l = if depth < 6 { self.names(op, sub, c, frag, depth + 1) } else { vec![] };
                            if l.is_empty() {
                                l.push(R::Typename { key: "__typename".into(), cond: 0 });
                            }
                            l
                        }
                    };
                    out.push(R::Field { key, fld, cond: *cond, sub });
                }
                Sel::Inline { on, cond, sub } => {
                    let ons = self.ons(c);
                    let on = ons[*on as usize % ons.len()];
                    let sub = if depth < 6 { self.names(op, sub, on.unwrap_or(c), frag, depth + 1) } else { vec![] };
                    if !sub.is_empty() {
                        out.push(R::Frag { on, named: None, cond: *cond, sub });
                    }
                }
                Sel::Spread { frag: j, cond } if !op.frags.is_empty() => {
                    let j = *j as usize % op.frags.len();
                    let on = self.frag_on(op, j);
                    if j < frag || !self.ons(c).contains(&Some(on)) || depth >= 6 {
                        continue;
                    }
                    let sub = self.names(op, &op.frags[j].1, on, j + 1, 3);
                    if !sub.is_empty() {
                        out.push(R::Frag { on: Some(on), named: Some(j), cond: *cond, sub });
                    }
                }
                Sel::Typename { alias, cond } => out.push(R::Typename { key: if alias % 3 == 0 { "ty".into() } else { "__typename".into() }, cond: *cond }),
                _ => {}
            }
        }
        out
    }
    fn frag_on(&self, op: &Op, j: usize) -> Ctx {
        let all = self.ctxs();
        all[op.frags[j].0 as usize % all.len()]
    }
    fn op(&self, i: u8) -> Op {
        match self.ops.len() {
            0 => Op::default(),
            n => self.ops[i as usize % n].clone(),
        }
    }
    fn tree(&self, op: &Op) -> Vec<R> {
        let mut l = self.names(op, &op.sel, Ctx::Query, 0, 0);
        if l.is_empty() {
            l = self.names(op, &[Sel::Field { f: 0, alias: 7, cond: 0, sub: vec![] }], Ctx::Query, 0, 0);
        }
        l
    }
    /// the document, and what is said to be executed
    fn text(&self, i: u8) -> (String, Option<String>) {
        let n = self.ops.len();
        let i = if n == 0 { 0 } else { i as usize % n };
        if !self.joint || n < 2 {
            return (self.operation(&self.op(i as u8), 0), None);
        }
        let all: Vec<String> = self.ops.iter().enumerate().map(|(j, op)| self.operation(op, j)).collect();
        (all.join(" "), Some(format!("Op{i}")))
    }
    fn operation(&self, op: &Op, at: usize) -> String {
        let tree = self.tree(op);
        let mut frags = BTreeMap::new();
        let body = print(&tree, at, &mut frags);
        let mut tail = String::new();
        for (j, (on, b)) in &frags {
            tail += &format!(" fragment F{at}_{j} on {} {b}", on.name());
        }
        let all = format!("{body}{tail}");
        let mut decl = vec![];
        for (v, d) in [("a", op.def.0), ("b", op.def.1)] {
            if all.contains(&format!("${v})")) {
                decl.push(match d {
                    Some(d) => format!("${v}: Boolean = {d}"),
                    None => format!("${v}: Boolean!"),
                });
            }
        }
        let decl = if decl.is_empty() { String::new() } else { format!("({})", decl.join(", ")) };
        format!("query Op{at}{decl} {all}")
    }
}
fn conds(c: u8) -> &'static str {
    match c % 24 {
        1 => " @skip(if: true)",
        2 => " @skip(if: false)",
        3 => " @include(if: true)",
        4 => " @include(if: false)",
        5 => " @skip(if: $a)",
        6 => " @include(if: $a)",
        7 => " @skip(if: $b)",
        8 => " @include(if: $b)",
        9 => " @skip(if: $a) @include(if: $b)",
        10 => " @include(if: $a) @skip(if: $b)",
        11 => " @skip(if: $a) @include(if: $a)",
        _ => "",
    }
}
fn on(c: u8, a: bool, b: bool) -> bool {
    match c % 24 {
        1 | 4 | 11 => false,
        5 => !a,
        6 => a,
        7 => !b,
        8 => b,
        9 => !a && b,
        10 => a && !b,
        _ => true,
    }
}
fn print(l: &[R], at: usize, frags: &mut BTreeMap<usize, (Ctx, String)>) -> String {
    let mut s = vec![];
    for r in l {
        s.push(match r {
            R::Field { key, fld, cond, sub } => {
                let k = if *key == fld.name { key.clone() } else { format!("{key}: {}", fld.name) };
                let b = if fld.ty.base().leaf() { String::new() } else { format!(" {}", print(sub, at, frags)) };
                format!("{k}{}{b}", conds(*cond))
            }
            R::Typename { key, cond } => format!("{}{}", if key == "ty" { "ty: __typename" } else { "__typename" }, conds(*cond)),
            R::Frag { on, named: Some(j), cond, sub } => {
                if !frags.contains_key(j) {
                    let t = print(sub, at, frags);
                    frags.insert(*j, (on.unwrap(), t));
                }
                format!("...F{at}_{j}{}", conds(*cond))
            }
            R::Frag { on, cond, sub, .. } => format!("...{}{} {}", on.map(|o| format!(" on {}", o.name())).unwrap_or_default(), conds(*cond), print(sub, at, frags)),
        });
    }
    format!("{{ {} }}", s.join(" "))
}

// ---- the upstream's data
fn hash(seed: u64, s: &str) -> u64 {
    let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
    h ^ (h >> 32)
}
impl Plan {
    fn gen(&self, ty: &Ty, mode: u8, at: &str) -> Value {
        let h = hash(self.seed, at);
        let bad = hash(self.seed, &format!("{at}!")) % 1000 < self.rate;
        let odd = (h >> 40) % 7;
        match ty {
            Ty::List(t, strict) => {
                if bad {
                    return match odd {
                        0 => json!("x"),
                        1 => json!({"id": 1}),
                        2 => self.gen(t, mode, &format!("{at}.")),
                        _ => Value::Null,
                    };
                }
                if !strict && h % 11 == 0 {
                    return Value::Null;
                }
                (0..(h >> 8) % 4).map(|i| self.gen(t, mode, &format!("{at}.{i}"))).collect()
            }
            Ty::Named(b, strict) => {
                if bad && odd > 4 || !strict && h % 9 == 0 {
                    return Value::Null;
                }
                let n = (h >> 16) % 50;
                match b {
                    Base::Int => json!(n),
                    Base::Str => json!(format!("s{n}")),
                    Base::Bool => json!(n % 2 == 0),
                    Base::Json => match n % 5 {
                        0 => json!({"k": n, "l": [null, {"m": "x"}]}),
                        1 => json!([1, [2], "x"]),
                        2 => json!([]),
                        3 => json!("text"),
                        _ => json!(n),
                    },
                    Base::Enum if bad => [json!("DD"), json!(1), json!(["AA"]), json!({"AA": 1}), json!("")][odd as usize].clone(),
                    Base::Enum => json!(["AA", "BB", "CC"][n as usize % 3]),
                    Base::Email if bad => [json!("no mail"), json!(1), json!(["a1@b.co"]), json!({}), json!("")][odd as usize].clone(),
                    Base::Email => json!(format!("a{n}@b.co")),
                    Base::Int64 if bad => [json!("x1"), json!([7]), json!(["7"]), json!({}), json!("")][odd as usize].clone(),
                    Base::Int64 => json!(format!("{n}")),
                    Base::Date if bad => [json!("yesterday"), json!(1), json!([]), json!({}), json!("")][odd as usize].clone(),
                    Base::Date => json!(format!("2024-01-{:02}T00:00:00Z", n % 28 + 1)),
                    Base::Obj(i) => {
                        if bad {
                            match odd {
                                0 => return json!(5),
                                1 => return json!("x"),
                                2 => return json!([]),
                                3 => return json!([{"id": 1}]),
                                _ => {
                                    let mut o = self.obj(*i, at);
                                    o.insert("__typename".into(), json!("Zzz"));
                                    return o.into();
                                }
                            }
                        }
                        self.obj(*i, at).into()
                    }
                    Base::Ifc | Base::Uni => {
                        let all = if *b == Base::Ifc { self.ifcs() } else { self.unis() };
                        let i = all[n as usize % all.len()];
                        let mut o = self.obj(i, at);
                        let mut name = format!("T{i}");
                        if bad {
                            match odd {
                                0 => return json!(5),
                                1 => return json!([]),
                                2 => return json!({}),
                                3 => {}
                                _ => return json!({name: 1}),
                            }
                            // none of its types
                            name = (0..self.ks()).find(|j| !all.contains(j)).map(|j| format!("T{j}")).unwrap_or("Zzz".into());
                        }
                        match mode {
                            0 => json!({name: o}),
                            1 => {
                                o.insert("kind".into(), json!(name));
                                o.into()
                            }
                            _ => {
                                o.insert("__typename".into(), json!(name));
                                o.into()
                            }
                        }
                    }
                }
            }
        }
    }
    fn obj(&self, i: usize, at: &str) -> Map<String, Value> {
        let mut m = Map::new();
        for f in self.fields(Ctx::Obj(i)) {
            if f.res {
                continue;
            }
            let p = format!("{at}.{}", f.name);
            let v = if f.name == "id" { json!(hash(self.seed, &p) % 6) } else { self.gen(&f.ty, self.mode(&f), &p) };
            // not there is null
            if v.is_null() && hash(self.seed, &format!("{p}?")) % 2 == 0 {
                continue;
            }
            m.insert(f.name, v);
        }
        m
    }
    /// the interface's own declaration of its field counts for everybody
    fn mode(&self, f: &Fld) -> u8 {
        f.mode
    }
    /// (type, discrimination) of what is at a URL
    fn route(&self, path: &str) -> Option<Fld> {
        let name = path.rsplit('/').next()?;
        let c = if path.starts_with("/q/") { Ctx::Query } else { Ctx::Obj(name.strip_prefix('t')?.split('f').next()?.parse().ok()?) };
        self.fields(c).into_iter().find(|f| f.name == name && f.res)
    }
    fn value(&self, url: &str) -> Option<Value> {
        let u = reqwest::Url::parse(url).ok()?;
        let f = self.route(u.path())?;
        Some(self.gen(&f.ty, self.mode(&f), url))
    }
}

// ---- the reference
#[derive(Default)]
struct Out {
    /// places where null is not allowed or the value is not of the type
    hard: BTreeSet<String>,
    /// places whose value must not pass: null there, or an error
    soft: BTreeSet<String>,
    /// the calls and how often each may be made at most: a field that is selected through several types of the
    /// object may be resolved once for each
    calls: Vec<(String, usize)>,
}
struct Eval<'a> {
    p: &'a Plan,
    a: bool,
    b: bool,
}
type Group<'r> = (String, Vec<&'r R>, BTreeSet<String>);
fn collect<'r>(e: &Eval, c: Option<usize>, l: &[&'r R], via: &str, out: &mut Vec<Group<'r>>) {
    for r in l {
        match r {
            R::Field { key, cond, .. } | R::Typename { key, cond } => {
                if on(*cond, e.a, e.b) {
                    if !out.iter().any(|(k, ..)| k == key) {
                        out.push((key.clone(), vec![], BTreeSet::new()));
                    }
                    let (_, v, vias) = out.iter_mut().find(|(k, ..)| k == key).unwrap();
                    v.push(r);
                    vias.insert(via.to_string());
                }
            }
            R::Frag { on: ty, cond, sub, .. } => {
                let fits = match (ty, c) {
                    (None, _) | (Some(Ctx::Query), None) => true,
                    (Some(t), Some(i)) => e.p.cover(*t).contains(&i),
                    _ => false,
                };
                if fits && on(*cond, e.a, e.b) {
                    let via = ty.filter(|t| *t != Ctx::Query).map(|t| format!("{via} {}", t.name())).unwrap_or(via.to_string());
                    collect(e, c, &sub.iter().collect::<Vec<_>>(), &via, out);
                }
            }
        }
    }
}
impl Eval<'_> {
    fn object(&self, c: Option<usize>, v: &Value, l: &[&R], path: &str, times: usize, out: &mut Out) -> Value {
        let mut groups = vec![];
        collect(self, c, l, "", &mut groups);
        let mut m = Map::new();
        for (k, rs, vias) in groups {
            let times = times * vias.len();
            let here = if path.is_empty() { k.clone() } else { format!("{path}.{k}") };
            let val = match rs[0] {
                R::Typename { .. } => json!(c.map(|i| format!("T{i}")).unwrap_or("Query".into())),
                R::Field { fld, .. } => {
                    let subs: Vec<&R> = rs
                        .iter()
                        .flat_map(|r| match r {
                            R::Field { sub, .. } => sub.iter().collect(),
                            _ => vec![],
                        })
                        .collect();
                    // other parents may have chosen another field for the key
                    let fld = match c {
                        Some(i) => self.p.fields(Ctx::Obj(i)).into_iter().find(|f| f.name == fld.name).unwrap(),
                        None => fld.clone(),
                    };
                    let raw = if fld.res {
                        let url = match c {
                            None => format!("http://up/q/{}", fld.name),
                            Some(_) => format!("http://up/r/{}?k={}", fld.name, v["id"]),
                        };
                        if fld.fixed {
                            self.p.gen(&fld.ty, self.p.mode(&fld), &fld.name)
                        } else {
                            out.calls.push((url.clone(), times));
                            self.p.value(&url).unwrap_or(Value::Null)
                        }
                    } else {
                        v.get(&fld.name).cloned().unwrap_or(Value::Null)
                    };
                    self.complete(&fld.ty, self.p.mode(&fld), &raw, &subs, &here, times, out)
                }
                _ => unreachable!(),
            };
            m.insert(k, val);
        }
        m.into()
    }
    fn complete(&self, ty: &Ty, mode: u8, v: &Value, subs: &[&R], path: &str, times: usize, out: &mut Out) -> Value {
        if v.is_null() {
            if ty.strict() {
                out.hard.insert(path.to_string());
            }
            return Value::Null;
        }
        let no = |hard: bool, out: &mut Out| {
            if hard || ty.strict() { &mut out.hard } else { &mut out.soft }.insert(path.to_string());
            Value::Null
        };
        match ty {
            Ty::List(t, _) => match v {
                Value::Array(l) => l.iter().enumerate().map(|(i, v)| self.complete(t, mode, v, subs, &format!("{path}.{i}"), times, out)).collect(),
                _ => no(false, out),
            },
            Ty::Named(b, _) => match b {
                Base::Int | Base::Str | Base::Bool | Base::Json => v.clone(),
                Base::Enum => {
                    if matches!(v.as_str(), Some("AA" | "BB" | "CC")) {
                        v.clone()
                    } else {
                        no(true, out)
                    }
                }
                Base::Email | Base::Int64 | Base::Date => {
                    let s = v.as_str().unwrap_or("");
                    if s.contains('@') || s.starts_with("2024-") || s.parse::<i64>().is_ok() {
                        v.clone()
                    } else {
                        no(true, out)
                    }
                }
                Base::Obj(i) => match v {
                    Value::Object(_) => self.object(Some(*i), v, subs, path, times, out),
                    _ => no(false, out),
                },
                Base::Ifc | Base::Uni => {
                    let all = if *b == Base::Ifc { self.p.ifcs() } else { self.p.unis() };
                    let find = |n: &str| all.iter().copied().find(|i| format!("T{i}") == n);
                    let Value::Object(m) = v else { return no(false, out) };
                    let (i, inner) = if let Some(n) = m.get("__typename").and_then(|n| n.as_str()) {
                        (find(n), v)
                    } else if mode == 1 {
                        (m.get("kind").and_then(|n| n.as_str()).and_then(find), v)
                    } else {
                        match m.iter().next() {
                            Some((n, v)) if m.len() == 1 => (find(n), v),
                            _ => (None, v),
                        }
                    };
                    match (i, inner) {
                        (Some(i), Value::Object(_)) => self.object(Some(i), inner, subs, path, times, out),
                        _ => no(false, out),
                    }
                }
            },
        }
    }
}
/// the data are as expected, null where the upstream's value does not do
fn same(got: &Value, want: &Value) -> bool {
    got == want
}

struct Req {
    n: usize,
    step: Step,
    op: Op,
    text: String,
    inv: At,
    ret: At,
    reply: Option<Result<Reply, String>>,
}
impl Step {
    fn vars(&self, op: &Op) -> (Value, bool, bool) {
        let mut m = Map::new();
        let mut one = |n: &str, v: Option<bool>, d: Option<bool>| match (v, d) {
            (None, Some(d)) => d,
            (v, _) => {
                let v = v.unwrap_or(false);
                m.insert(n.into(), json!(v));
                v
            }
        };
        let (a, b) = (one("a", self.a, op.def.0), one("b", self.b, op.def.1));
        (m.into(), a, b)
    }
}
fn draw_sel(r: &mut Rng, depth: usize, frags: bool) -> Vec<Sel> {
    let cond = |r: &mut Rng| if r.chance(0.3) { r.below(12) as u8 } else { 0 };
    (0..r.range(1, if depth == 0 { 4 } else { 5 }))
        .map(|_| {
            let k = r.below(10);
            let sub = |r: &mut Rng| if depth < 4 { draw_sel(r, depth + 1, frags) } else { vec![] };
            match k {
                0 | 1 => Sel::Inline { on: r.below(12) as u8, cond: cond(r), sub: sub(r) },
                2 if frags => Sel::Spread { frag: r.below(4) as u8, cond: cond(r) },
                3 => Sel::Typename { alias: r.below(3) as u8, cond: cond(r) },
                _ => Sel::Field { f: r.below(16) as u8, alias: r.below(8) as u8, cond: cond(r), sub: sub(r) },
            }
        })
        .collect()
}

pub struct ShapeScenario(pub &'static str);
impl Scenario for ShapeScenario {
    fn id(&self) -> &'static str {
        self.0
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            10_000
        } else {
            300_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws a schema (objects, an interface, a union, an enum, custom scalars, lists, non-null, nested resolvers, three ways to tell abstract types apart), the upstream's data for it and \
         queries over it (aliases, merged fields, inline and named fragments, skip/include); it is non-trivial when two requests overlapped and a resolver below the root was called, distinct by the \
         hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["GraphQL parsing, jit planner, skip/include, executor, synth", "discriminators, scalars", "config loading and blueprint", "request templates, http path"],
            vec!["upstream service (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        let mut l = vec!["connection_error", "status_500", "garbage_body", "client_disconnect"];
        if self.0 == "C25" {
            l.push("mistyped_answer");
        }
        l
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let unit = *r.pick(&[100u64, 1000, 5000]);
        let ks = r.range(1, 4);
        let fdef = |r: &mut Rng, p: f64| FDef { base: r.below(60) as u8, wrap: r.below(12) as u8, res: r.chance(p), mode: r.below(3) as u8 };
        let objs = (0..ks).map(|_| (0..r.range(1, 5)).map(|_| fdef(r, 0.5)).collect()).collect();
        let fixed = if self.0 == "C24" && r.chance(0.4) { r.range(1, 2) } else { 0 };
        let ops: Vec<Op> = (0..r.range(1, 3))
            .map(|_| {
                let frags = r.chance(0.6);
                let n = if frags { r.range(1, 3) } else { 0 };
                let def = |r: &mut Rng| if r.chance(0.3) { Some(r.chance(0.5)) } else { None };
                Op { sel: draw_sel(r, 0, frags), frags: (0..n).map(|_| (r.below(8) as u8, draw_sel(r, 2, frags))).collect(), def: (def(r), def(r)), fixed: fixed > 0 && r.chance(0.3) }
            })
            .collect();
        let least = if r.chance(0.2) { 1 } else { 2 };
        let clients = (0..r.range(least, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(1, 3))
                    .map(|_| Step {
                        wait: *r.pick(&[0, 0, 0, 1, 2, 5]) * unit,
                        op: r.below(4) as u8,
                        a: if r.chance(0.8) { Some(r.chance(0.5)) } else { None },
                        b: if r.chance(0.8) { Some(r.chance(0.5)) } else { None },
                        cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(Plan {
            sched: SchedCfg::draw(r, 4),
            seed: r.below(1 << 32),
            rate: if self.0 == "C25" { *r.pick(&[5, 20, 60, 150]) } else { 0 },
            objs,
            ifc: r.below(16) as u8,
            uni: r.below(16) as u8,
            ix: fdef(r, 0.0),
            roots: (0..r.range(1, 4)).map(|_| FDef { base: if r.chance(0.8) { 8 + r.below(12) as u8 } else { r.below(60) as u8 }, ..fdef(r, 1.0) }).collect(),
            consts: (0..fixed).map(|_| fdef(r, 1.0)).collect(),
            ops,
            joint: r.chance(0.3),
            up: draw_mini(r, 0.15),
            clients,
        })
        .unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let (b, e) = match prepared(&p.files(), &SimEnv::default()) {
            Ok(x) => x,
            Err(e) => panic!("configuration: {e}\n{}", p.sdl()),
        };
        let p1 = p.clone();
        let up = Mini::new(p.up.clone(), move |c| Ans::json(p1.value(&c.url)?));
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), SimEnv::default(), (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for (c, steps) in p2.clients.iter().cloned().enumerate() {
                let (app, r2, f, p) = (app.clone(), r2.clone(), u2.faults.clone(), p2.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for (i, st) in steps.into_iter().enumerate() {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        let op = p.op(st.op);
                        let (text, name) = p.text(st.op);
                        let vars = st.vars(&op).0;
                        let n = c * 100 + i;
                        let mut body = json!({"query": text, "variables": vars});
                        if let Some(name) = name {
                            body["operationName"] = json!(name);
                        }
                        let body = body.to_string();
                        let heads = vec![("xc".to_string(), n.to_string())];
                        let app = app.clone();
                        let inv = at();
                        simrt::event(|| format!("request {n} at {inv:?}: {text} {vars}"));
                        let out = cancellable(async move { send(app, "POST", "/graphql", &heads, body, false).await }, st.cancel).await;
                        let ret = at();
                        let reply = match out {
                            Ok(r) => Some(r),
                            Err(e) if e.is_cancelled() => {
                                fault(&f, "client_disconnect");
                                None
                            }
                            Err(e) => Some(Err(format!("panic: {e:?}"))),
                        };
                        simrt::event(|| format!("reply {n} at {ret:?}: {reply:?}"));
                        r2.push(Arc::new(Req { n, step: st, op, text, inv, ret, reply }));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
        });
        let mut faults: BTreeMap<String, u64> = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        let mut wrong = 0;
        if v.is_none() {
            v = judge(&p, &reqs, &calls, &mut wrong);
        }
        if wrong > 0 {
            faults.insert("mistyped_answer".into(), wrong);
        }
        let nested = calls.iter().any(|c| c.path.starts_with("/r/"));
        let nontrivial = nested && reqs.iter().enumerate().any(|(i, a)| reqs[..i].iter().any(|b| a.inv.s <= b.ret.s && b.inv.s <= a.ret.s));
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "upstream_calls": calls.len()}) }
    }
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall], wrong: &mut u64) -> Option<Violation> {
    for r in reqs {
        let Some(reply) = &r.reply else { continue };
        let (vars, a, b) = r.step.vars(&r.op);
        let mine: Vec<&MCall> = calls.iter().filter(|c| c.headers.get("xc") == Some(&r.n.to_string())).collect();
        let mut out = Out::default();
        let tree = p.tree(&r.op);
        let want = Eval { p, a, b }.object(None, &Value::Null, &tree.iter().collect::<Vec<_>>(), "", 1, &mut out);
        // a value that does not pass may have been used to call others
        let failed = mine.iter().any(|c| c.failed() && (out.soft.is_empty() || out.calls.iter().any(|(u, _)| *u == c.url)));
        let any_failed = mine.iter().any(|c| c.failed());
        *wrong += (out.hard.len() + out.soft.len()) as u64;
        let bad = |c: &str, t: String| {
            Some(Violation::new(
                c,
                format!("{t}\nrequest {} variables {vars} at {:?}..{:?}\nreply {reply:?}\nreference: {want} errors at {:?} null or error at {:?}\ncalls {:?}", r.text, r.inv, r.ret, out.hard, out.soft, mine.iter().map(|c| &c.url).collect::<Vec<_>>()),
            ))
        };
        let x = match reply {
            Ok(x) if x.status == 200 => x.json(),
            Ok(x) => return bad("status", format!("status {}", x.status)),
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let errors = x["errors"].as_array().cloned().unwrap_or_default();
        if !errors.is_empty() {
            if !x["data"].is_null() {
                return bad("errors-and-data", "there are errors and data".into());
            }
            if !any_failed && out.hard.is_empty() && out.soft.is_empty() {
                return bad("unexplained-error", "every answer was as the schema says".into());
            }
            if !any_failed {
                for e in &errors {
                    let path: Vec<String> = e["path"].as_array().into_iter().flatten().map(|s| s.as_str().map(|s| s.to_string()).unwrap_or(s.to_string())).collect();
                    let path = path.join(".");
                    if !out.hard.iter().chain(&out.soft).any(|o| *o == path || o.starts_with(&format!("{path}.")) || path.is_empty()) {
                        return bad("wrong-path", format!("nothing is wrong at {path}"));
                    }
                }
            }
            continue;
        }
        if failed {
            return bad("failure-hidden", "an upstream call failed".into());
        }
        if !out.hard.is_empty() {
            return bad("mistake-passed", "a value of the upstream is not of the type".into());
        }
        if !same(&x["data"], &want) {
            return bad("wrong-data", "the data are not what was selected".into());
        }
        let mut got: BTreeMap<&str, usize> = BTreeMap::new();
        let mut exp: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
        for c in &mine {
            *got.entry(&c.url).or_default() += 1;
        }
        for (u, times) in &out.calls {
            let e = exp.entry(u).or_default();
            *e = (e.0 + 1, e.1 + times);
        }
        let fits = got.keys().all(|u| exp.contains_key(u)) && exp.iter().all(|(u, (min, max))| got.get(u).is_some_and(|n| min <= n && n <= max));
        if !fits && out.soft.is_empty() {
            return bad("wrong-calls", format!("expected the calls {exp:?}"));
        }
    }
    None
}
