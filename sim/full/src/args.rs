//! Arguments: what a query gives, with its variables and the defaults of the schema, is what the upstream is sent.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use simrt::driver::{end_violation, sched_of, RunOut, Scenario, Tier, Violation};
use simrt::{Rng, SchedCfg};
use tailcall::core::app_context::AppContext;

use crate::gw::*;
use crate::mini::*;
use crate::util::*;

/// A value as drawn; it is fitted to the type it is used at.
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub enum V {
    #[default]
    Absent,
    Null,
    Leaf(u8),
    Var(u8),
    List(Vec<V>),
    Obj(Vec<V>),
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct ArgDef {
    pub base: u8,
    pub wrap: u8,
    pub dflt: V,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct FDef {
    /// how the arguments travel: 0 body, 1 query string, 2 GraphQL, 3 body of a nested field, 4 by @call
    pub kind: u8,
    pub args: Vec<ArgDef>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Use {
    pub f: u8,
    pub args: Vec<V>,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Op {
    pub mutation: bool,
    pub uses: Vec<Use>,
    /// defaults of the variables
    pub dflts: Vec<V>,
    /// where the place has a default: variables may be left out
    pub loose: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Step {
    pub wait: u64,
    pub op: u8,
    pub vals: Vec<V>,
    #[serde(default)]
    pub cancel: Option<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Plan {
    pub sched: SchedCfg,
    pub dedupe: bool,
    pub inputs: Vec<Vec<ArgDef>>,
    pub fields: Vec<FDef>,
    pub ops: Vec<Op>,
    pub rows: u8,
    pub up: MiniPlan,
    pub clients: Vec<Vec<Step>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum B {
    Int,
    Float,
    Str,
    Bool,
    Enum,
    Id,
    Json,
    In(usize),
}
const LEAVES: &[B] = &[B::Int, B::Str, B::Enum, B::Float, B::Bool, B::Id, B::Json];
#[derive(Clone, Debug, PartialEq)]
enum Ty {
    Named(B, bool),
    List(Box<Ty>, bool),
}
impl Ty {
    fn base(&self) -> B {
        match self {
            Ty::Named(b, _) => *b,
            Ty::List(t, _) => t.base(),
        }
    }
    fn strict(&self) -> bool {
        match self {
            Ty::Named(_, s) | Ty::List(_, s) => *s,
        }
    }
    fn loose(&self) -> Ty {
        match self {
            Ty::Named(b, _) => Ty::Named(*b, false),
            Ty::List(t, _) => Ty::List(t.clone(), false),
        }
    }
    fn print(&self) -> String {
        match self {
            Ty::Named(b, s) => format!("{}{}", b.name(), if *s { "!" } else { "" }),
            Ty::List(t, s) => format!("[{}]{}", t.print(), if *s { "!" } else { "" }),
        }
    }
}
impl B {
    fn name(self) -> String {
        match self {
            B::Int => "Int".into(),
            B::Float => "Float".into(),
            B::Str => "String".into(),
            B::Bool => "Boolean".into(),
            B::Enum => "E".into(),
            B::Id => "ID".into(),
            B::Json => "JSON".into(),
            B::In(i) => format!("In{i}"),
        }
    }
}
#[derive(Clone, Debug)]
struct Def {
    name: String,
    ty: Ty,
    dflt: Option<Val>,
}
/// A value fitted to its type.
#[derive(Clone, Debug, PartialEq)]
enum Val {
    Var(String),
    Null,
    Leaf(B, u8),
    List(Vec<Val>),
    Obj(Vec<(String, Val)>),
}
#[derive(Clone, Debug)]
struct VarDecl {
    n: usize,
    ty: Ty,
    dflt: Option<Val>,
}
type Decls = BTreeMap<String, VarDecl>;

/// enums are marked, for a GraphQL upstream they are not strings
fn leaf(b: B, n: u8) -> Value {
    let n = n as usize;
    match b {
        B::Int => json!([7, 0, -5, 2147483647][n % 4]),
        B::Float => [json!(1.5), json!(-0.25), json!(3)][n % 3].clone(),
        B::Str => json!(["a", "", "x y", "é \"q\" \\ /", "{{.args.a0}}", "two\nlines\t.", "$v0", "null", "12", "}"][n % 10]),
        B::Bool => json!(n % 2 == 0),
        B::Enum => json!({"$e": (["AA", "BB"][n % 2])}),
        B::Id => json!(["7", "id-x"][n % 2]),
        B::Json => [json!({"j": [1, "x", {"k": null}]}), json!("s"), json!([true, 2])][n % 3].clone(),
        B::In(_) => json!({}),
    }
}
fn literal(v: &Value) -> String {
    match v {
        Value::Object(o) if o.contains_key("$e") => o["$e"].as_str().unwrap().to_string(),
        Value::Object(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {}", literal(v))).collect::<Vec<_>>().join(", ")),
        Value::Array(l) => format!("[{}]", l.iter().map(literal).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}
fn unmarked(v: &Value) -> Value {
    match v {
        Value::Object(o) if o.contains_key("$e") => o["$e"].clone(),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), unmarked(v))).collect()),
        Value::Array(l) => Value::Array(l.iter().map(unmarked).collect()),
        v => v.clone(),
    }
}
impl Val {
    fn print(&self) -> String {
        match self {
            Val::Var(n) => format!("${n}"),
            Val::Null => "null".into(),
            Val::Leaf(b, n) => literal(&leaf(*b, *n)),
            Val::List(l) => format!("[{}]", l.iter().map(|v| v.print()).collect::<Vec<_>>().join(", ")),
            Val::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {}", v.print())).collect::<Vec<_>>().join(", ")),
        }
    }
    fn json(&self) -> Value {
        match self {
            Val::Var(_) | Val::Null => Value::Null,
            Val::Leaf(b, n) => unmarked(&leaf(*b, *n)),
            Val::List(l) => Value::Array(l.iter().map(|v| v.json()).collect()),
            Val::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), v.json())).collect()),
        }
    }
}
/// an error of the request
#[derive(Debug)]
struct Bad(#[allow(dead_code)] String);
type Env = BTreeMap<String, Value>;

impl Plan {
    fn ty(&self, a: &ArgDef, inside: Option<usize>) -> Ty {
        let n = self.inputs.len();
        let wrap = a.wrap % 10;
        let strict = matches!(wrap, 3 | 4);
        let mut all: Vec<B> = LEAVES.to_vec();
        for i in 0..n {
            all.extend([B::In(i), B::In(i), B::In(i)]);
        }
        let mut b = all[a.base as usize % all.len()];
        // what must be there leads down
        if let (B::In(j), Some(i)) = (b, inside) {
            if a.dflt != V::Absent {
                b = LEAVES[a.base as usize % LEAVES.len()];
            } else if j <= i && strict {
                b = if i + 1 < n { B::In(i + 1) } else { LEAVES[a.base as usize % LEAVES.len()] };
            }
        }
        let n = |s| Ty::Named(b, s);
        let l = |t, s| Ty::List(Box::new(t), s);
        match wrap {
            0..=2 => n(false),
            3 | 4 => n(true),
            5 => l(n(false), false),
            6 => l(n(true), false),
            7 => l(n(false), true),
            8 => l(n(true), true),
            _ => l(l(n(true), false), false),
        }
    }
    fn def(&self, a: &ArgDef, name: String, inside: Option<usize>, simple: bool) -> Def {
        let mut ty = self.ty(a, inside);
        if simple {
            let b = if matches!(ty.base(), B::In(_) | B::Json) { LEAVES[a.base as usize % (LEAVES.len() - 1)] } else { ty.base() };
            ty = match ty {
                Ty::Named(_, s) => Ty::Named(b, s),
                Ty::List(_, s) => Ty::List(Box::new(Ty::Named(b, true)), s),
            };
        }
        let dflt = if a.dflt == V::Null && ty.strict() { None } else { self.fit(&a.dflt, &ty, &mut None, false, 2) };
        Def { name, ty, dflt }
    }
    fn input(&self, i: usize) -> Vec<Def> {
        let mut l: Vec<Def> = self.inputs[i].iter().enumerate().map(|(j, a)| self.def(a, format!("x{j}"), Some(i), false)).collect();
        if l.is_empty() {
            l.push(Def { name: "x0".into(), ty: Ty::Named(B::Int, false), dflt: None });
        }
        l
    }
    fn args(&self, f: usize) -> Vec<Def> {
        let f = &self.fields[f];
        f.args.iter().enumerate().map(|(j, a)| self.def(a, format!("a{j}"), None, f.kind == 1)).collect()
    }
    /// `vars`: where variables are declared; none may be used without
    fn fit(&self, v: &V, ty: &Ty, vars: &mut Option<(&Op, &mut Decls)>, has_dflt: bool, depth: usize) -> Option<Val> {
        self.fit_at(v, ty, vars, has_dflt, depth, false)
    }
    fn fit_at(&self, v: &V, ty: &Ty, vars: &mut Option<(&Op, &mut Decls)>, has_dflt: bool, depth: usize, item: bool) -> Option<Val> {
        match (v, ty) {
            (V::Absent, _) => None,
            (V::Null, _) => Some(Val::Null),
            (V::Var(n), _) if vars.is_some() => {
                let (op, decls) = vars.as_mut().unwrap();
                let n = *n as usize % 4;
                let dflt = match op.dflts.get(n) {
                    Some(V::Null) | None => None,
                    Some(d) => self.fit(d, ty, &mut None, false, 2),
                };
                let ty = if ty.strict() && (dflt.is_some() || has_dflt && op.loose) { ty.loose() } else { ty.clone() };
                let tag: String = ty.print().chars().map(|c| match c { '[' => 'l', ']' => '_', '!' => 'x', c => c }).collect();
                let name = format!("v{n}{}_{tag}", if item { "i" } else { "" });
                decls.insert(name.clone(), VarDecl { n, ty, dflt });
                Some(Val::Var(name))
            }
            // one value stands for the list of it
            (V::Leaf(n), Ty::List(t, _)) if n % 2 == 1 && ty.base() != B::Json => self.fit_at(v, t, vars, false, depth, true),
            (V::Obj(_), Ty::List(t, _)) if matches!(ty.base(), B::In(_)) => self.fit_at(v, t, vars, false, depth, true),
            (v, Ty::List(t, _)) => {
                let one = [V::Leaf(match v { V::Leaf(n) | V::Var(n) => *n, _ => 0 })];
                let vs = match v { V::List(l) => &l[..], _ => &one[..] };
                let l = vs.iter().map(|v| {
                    let x = self.fit_at(v, t, vars, false, depth, true);
                    x.unwrap_or_else(|| if t.strict() { self.least(t) } else { Val::Null })
                });
                Some(Val::List(l.collect()))
            }
            (v, Ty::Named(B::In(i), _)) => {
                let V::Obj(vs) = v else { return Some(self.least(ty)) };
                if depth == 0 {
                    return Some(self.least(ty));
                }
                let defs = self.input(*i);
                let o = defs.iter().enumerate().filter_map(|(j, d)| {
                    let v = vs.get(j).unwrap_or(&V::Absent);
                    Some((d.name.clone(), self.fit_at(v, &d.ty, vars, d.dflt.is_some(), depth - 1, false)?))
                });
                Some(Val::Obj(o.collect()))
            }
            (v, Ty::Named(b, _)) => Some(Val::Leaf(*b, match v { V::Leaf(n) | V::Var(n) => *n, _ => 0 })),
        }
    }
    /// the least value of the type
    fn least(&self, ty: &Ty) -> Val {
        match ty {
            Ty::List(..) => Val::List(vec![]),
            Ty::Named(B::In(i), _) => Val::Obj(self.input(*i).iter().filter(|d| d.ty.strict() && d.dflt.is_none()).map(|d| (d.name.clone(), self.least(&d.ty))).collect()),
            Ty::Named(b, _) => Val::Leaf(*b, 0),
        }
    }
    /// the coercion of the specification
    fn coerce(&self, ty: &Ty, v: Option<&Val>, dflt: Option<&Val>, env: &Env) -> Result<Option<Value>, Bad> {
        let v = match v {
            Some(Val::Var(n)) => match env.get(n) {
                Some(Value::Null) if ty.strict() => return Err(Bad(format!("${n} is null"))),
                Some(x) => return Ok(Some(x.clone())),
                None => None,
            },
            v => v,
        };
        let Some(v) = v.or(dflt) else {
            return if ty.strict() { Err(Bad("missing".into())) } else { Ok(None) };
        };
        Ok(Some(match (v, ty) {
            (Val::Null, _) if ty.strict() => return Err(Bad("null".into())),
            (Val::Null, _) => Value::Null,
            (Val::List(l), Ty::List(t, _)) => Value::Array(l.iter().map(|v| Ok(self.coerce(t, Some(v), None, env)?.unwrap_or(Value::Null))).collect::<Result<_, Bad>>()?),
            (v, Ty::List(t, _)) => json!([self.coerce(t, Some(v), None, env)?.unwrap_or(Value::Null)]),
            (Val::Obj(o), Ty::Named(B::In(i), _)) => {
                let mut m = Map::new();
                for d in self.input(*i) {
                    let v = o.iter().find(|(k, _)| *k == d.name).map(|x| &x.1);
                    if let Some(x) = self.coerce(&d.ty, v, d.dflt.as_ref(), env)? {
                        m.insert(d.name, x);
                    }
                }
                Value::Object(m)
            }
            (Val::Leaf(b, n), _) => leaf(*b, *n),
            (v, t) => unreachable!("{v:?} at {t:?}"),
        }))
    }
    fn kind(&self, f: usize) -> u8 {
        self.fields[f].kind % 5
    }
    fn sdl(&self) -> String {
        let mut s = String::from("schema { query: Query mutation: Mutation }\nenum E { AA BB }\n");
        let defs = |l: &[Def]| {
            let p = |d: &Def| format!("{}: {}{}", d.name, d.ty.print(), d.dflt.as_ref().map(|v| format!(" = {}", v.print())).unwrap_or_default());
            l.iter().map(p).collect::<Vec<_>>().join(", ")
        };
        for i in 0..self.inputs.len() {
            s += &format!("input In{i} {{ {} }}\n", defs(&self.input(i)));
        }
        let d = if self.dedupe { ", dedupe: true" } else { "" };
        let (mut q, mut m, mut row) = (String::new(), String::new(), String::new());
        for i in 0..self.fields.len() {
            let args = self.args(i);
            let sig = if args.is_empty() { String::new() } else { format!("({})", defs(&args)) };
            let keys = |f: &str| args.iter().map(|a| format!("{{key: \"{}\", {f}: \"{{{{.args.{}}}}}\"}}", a.name, a.name)).collect::<Vec<_>>().join(", ");
            let body = |p: &str| format!(" @http(url: \"http://up/{p}\", method: POST, body: \"{{{{.args}}}}\"{d})\n");
            let by = match self.kind(i) {
                1 => format!(" @http(url: \"http://up/q/f{i}\", query: [{}]{d})\n", keys("value")),
                2 if args.is_empty() => format!(" @graphQL(url: \"http://up/g\", name: \"f{i}\"{d})\n"),
                2 => format!(" @graphQL(url: \"http://up/g\", name: \"f{i}\", args: [{}]{d})\n", keys("value")),
                3 => {
                    row += &format!("  f{i}{sig}: JSON{}", body(&format!("n/{{{{.value.id}}}}/f{i}")));
                    continue;
                }
                4 => {
                    q += &format!("  c{i}{sig}: JSON{}", body(&format!("b/f{i}")));
                    let a = args.iter().map(|a| format!("{}: \"{{{{.args.{}}}}}\"", a.name, a.name)).collect::<Vec<_>>().join(", ");
                    format!(" @call(steps: [{{query: \"c{i}\", args: {{{a}}}}}]{d})\n")
                }
                _ => body(&format!("b/f{i}")),
            };
            q += &format!("  f{i}{sig}: JSON{by}");
            if self.kind(i) == 0 {
                m += &format!("  f{i}{sig}: JSON{by}");
            }
        }
        s += &format!("type Query {{\n  rows: [Row] @http(url: \"http://up/rows\"{d})\n{q}}}\ntype Mutation {{\n  ping: JSON @http(url: \"http://up/b/ping\", method: POST, body: \"{{}}\")\n{m}}}\ntype Row {{\n  id: Int!\n{row}}}\n");
        s
    }
    fn files(&self) -> Vec<(String, String)> {
        let cfg = json!({"server": {}, "upstream": {"allowedHeaders": ["xc"]}, "links": [{"src": "/app/schema.graphql", "type": "Config"}]});
        vec![("/app/config.json".into(), cfg.to_string()), ("/app/schema.graphql".into(), self.sdl())]
    }
    /// the uses of an operation with what they are given
    fn uses(&self, op: &Op) -> (Vec<(usize, Vec<(Def, Option<Val>)>)>, Decls) {
        let mut decls = Decls::new();
        let mut out = vec![];
        for u in &op.uses {
            let f = u.f as usize % self.fields.len();
            if op.mutation && self.kind(f) != 0 {
                continue;
            }
            let args = self.args(f).into_iter().enumerate().map(|(j, d)| {
                let v = u.args.get(j).unwrap_or(&V::Absent);
                let x = self.fit(v, &d.ty, &mut Some((op, &mut decls)), d.dflt.is_some(), 3);
                (d, x)
            });
            out.push((f, args.collect()));
        }
        (out, decls)
    }
    fn text(&self, op: &Op) -> String {
        let (uses, decls) = self.uses(op);
        let (mut top, mut rows) = (String::new(), String::new());
        for (i, (f, args)) in uses.iter().enumerate() {
            let a: Vec<String> = args.iter().filter_map(|(d, v)| Some(format!("{}: {}", d.name, v.as_ref()?.print()))).collect();
            let a = if a.is_empty() { String::new() } else { format!("({})", a.join(", ")) };
            let to = if self.kind(*f) == 3 { &mut rows } else { &mut top };
            *to += &format!(" u{i}: f{f}{a}");
        }
        if !rows.is_empty() {
            top += &format!(" rows {{ id{rows} }}");
        }
        if top.is_empty() {
            top = " __typename".into();
        }
        let vars: Vec<String> = decls.iter().map(|(n, d)| format!("${n}: {}{}", d.ty.print(), d.dflt.as_ref().map(|v| format!(" = {}", v.print())).unwrap_or_default())).collect();
        let vars = if vars.is_empty() { String::new() } else { format!(" op({})", vars.join(", ")) };
        format!("{}{vars} {{{top} }}", if op.mutation { "mutation" } else { "query" })
    }
    fn given(&self, op: &Op, st: &Step) -> BTreeMap<String, Val> {
        let (_, decls) = self.uses(op);
        let val = |d: &VarDecl| self.fit(st.vals.get(d.n).unwrap_or(&V::Absent), &d.ty, &mut None, false, 3);
        decls.iter().filter_map(|(n, d)| Some((n.clone(), val(d)?))).collect()
    }
    /// what each use is to be sent, or that the request is an error
    fn expected(&self, op: &Op, st: &Step) -> Result<Vec<(usize, Value)>, Bad> {
        let (uses, decls) = self.uses(op);
        let given = self.given(op, st);
        let mut env = Env::new();
        for (n, d) in &decls {
            if let Some(x) = self.coerce(&d.ty, given.get(n), d.dflt.as_ref(), &Env::new())? {
                env.insert(n.clone(), x);
            }
        }
        let mut out = vec![];
        for (f, args) in uses {
            let mut m = Map::new();
            for (d, v) in args {
                if let Some(x) = self.coerce(&d.ty, v.as_ref(), d.dflt.as_ref(), &env)? {
                    m.insert(d.name, x);
                }
            }
            out.push((f, Value::Object(m)));
        }
        Ok(out)
    }
    fn rows(&self) -> u64 {
        1 + self.rows as u64 % 3
    }
}
/// a value of a GraphQL document, with the enums marked
fn marked(v: &async_graphql_value::Value) -> Value {
    use async_graphql_value::Value as G;
    match v {
        G::Enum(e) => json!({"$e": e.as_str()}),
        G::List(l) => Value::Array(l.iter().map(marked).collect()),
        G::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.to_string(), marked(v))).collect()),
        G::Null => Value::Null,
        G::Number(n) => Value::Number(n.clone()),
        G::String(s) => json!(s),
        G::Boolean(b) => json!(b),
        G::Variable(n) => json!({"$variable": n.as_str()}),
        G::Binary(_) => json!("binary"),
    }
}
fn gql_args(body: &Value) -> Result<(String, Value), String> {
    let q = body["query"].as_str().ok_or_else(|| format!("no query in {body}"))?;
    let doc = async_graphql::parser::parse_query(q).map_err(|e| format!("{e} in {q}"))?;
    let op = doc.operations.iter().next().ok_or("no operation")?.1;
    let [item] = &op.node.selection_set.node.items[..] else { return Err(format!("not one field in {q}")) };
    let async_graphql::parser::types::Selection::Field(f) = &item.node else { return Err("no field".into()) };
    let args = f.node.arguments.iter().map(|(k, v)| (k.node.to_string(), marked(&v.node))).collect();
    Ok((f.node.name.node.to_string(), Value::Object(args)))
}
fn answer(rows: u64) -> impl Fn(&MCall) -> Option<Ans> {
    move |c: &MCall| {
        Ans::json(match c.segs()[..] {
            ["rows"] => Value::Array((1..=rows).map(|i| json!({"id": i})).collect()),
            ["b", _] | ["n", _, _] => json!({"n": c.n, "got": c.body}),
            ["q", _] => {
                let mut m: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
                for (k, v) in &c.query {
                    m.entry(k).or_default().push(v);
                }
                json!({"n": c.n, "got": m})
            }
            ["g"] => match gql_args(&c.body) {
                Ok((f, a)) => json!({"data": {f: {"n": c.n, "got": a}}}),
                Err(e) => json!({"errors": [{"message": format!("[malformed] {e}")}]}),
            },
            _ => return None,
        })
    }
}
/// numbers are the same when they say the same
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(a), Value::Number(b)) => a.as_f64() == b.as_f64(),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| same(v, w))),
        (a, b) => a == b,
    }
}
/// what a query string says of the arguments: nothing of what is absent, null or empty
fn plain(v: &Value) -> Vec<String> {
    match v {
        Value::Null => vec![],
        Value::Array(l) => l.iter().flat_map(plain).collect(),
        Value::String(s) if s.is_empty() => vec![],
        Value::String(s) => vec![s.clone()],
        v => vec![v.to_string()],
    }
}
fn pairs(v: &Value) -> BTreeMap<String, Vec<String>> {
    v.as_object().into_iter().flatten().map(|(k, v)| (k.clone(), plain(v))).filter(|(_, v)| !v.is_empty()).collect()
}

struct Req {
    step: Step,
    xc: String,
    text: String,
    inv: At,
    ret: At,
    calm: bool,
    reply: Option<Result<Reply, String>>,
}
fn draw_v(r: &mut Rng, vars: bool, depth: usize) -> V {
    match r.below(if depth == 0 { 7 } else { 12 }) {
        0 | 1 => V::Absent,
        2 => V::Null,
        3 | 4 if vars => V::Var(r.below(4) as u8),
        3..=6 => V::Leaf(r.below(30) as u8),
        7 | 8 => V::List((0..r.below(4)).map(|_| draw_v(r, vars, depth - 1)).collect()),
        _ => V::Obj((0..r.range(1, 4)).map(|_| draw_v(r, vars, depth - 1)).collect()),
    }
}
fn draw_arg(r: &mut Rng) -> ArgDef {
    ArgDef { base: r.below(64) as u8, wrap: r.below(10) as u8, dflt: if r.chance(0.3) { draw_v(r, false, 2) } else { V::Absent } }
}

pub struct ArgsScenario;
impl Scenario for ArgsScenario {
    fn id(&self) -> &'static str {
        "C31"
    }
    fn runs(&self, tier: Tier) -> u64 {
        if tier == Tier::Quick {
            10_000
        } else {
            250_000
        }
    }
    fn rule(&self) -> &'static str {
        "a run draws input types with defaults, fields that send their arguments on by body, query string, GraphQL or @call, operations with literals, variables and both nested, and concurrent clients that repeat them with other values; it is \
         non-trivial when requests of the same operation with different variables overlap and both are answered with data, distinct by the hash of its event log and schedule"
    }
    fn components(&self) -> (Vec<&'static str>, Vec<&'static str>) {
        (
            vec!["request handler, operation plan cache", "jit builder, input resolver, executor", "@http body and query, @graphQL, @call", "blueprint of input types"],
            vec!["upstream that says what it was sent (simulated HttpIO)", "tokio time/spawn, locks, dashmap (simulated)"],
        )
    }
    fn fault_kinds(&self) -> Vec<&'static str> {
        vec!["connection_error", "status_500", "garbage_body", "client_disconnect"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let inputs = (0..r.range(0, 3)).map(|_| (0..r.range(1, 4)).map(|_| draw_arg(r)).collect()).collect();
        let fields: Vec<FDef> = (0..r.range(1, 4)).map(|_| FDef { kind: r.below(5) as u8, args: (0..r.range(1, 3)).map(|_| draw_arg(r)).collect() }).collect();
        let ops: Vec<Op> = (0..r.range(1, 3))
            .map(|_| Op {
                mutation: r.chance(0.15),
                uses: (0..r.range(1, 4)).map(|_| Use { f: r.below(8) as u8, args: (0..3).map(|_| draw_v(r, true, 3)).collect() }).collect(),
                dflts: (0..4).map(|_| if r.chance(0.3) { draw_v(r, false, 2) } else { V::Absent }).collect(),
                loose: r.chance(0.5),
            })
            .collect();
        let unit = *r.pick(&[100u64, 1000]);
        let clients = (0..r.range(1, if tier == Tier::Quick { 4 } else { 6 }))
            .map(|_| {
                (0..r.range(1, 3))
                    .map(|_| Step {
                        wait: *r.pick(&[0, 0, 0, 1, 3]) * unit,
                        op: r.below(ops.len() as u64) as u8,
                        vals: (0..4).map(|_| draw_v(r, false, 3)).collect(),
                        cancel: if r.chance(0.05) { Some(r.below(10) * unit) } else { None },
                    })
                    .collect()
            })
            .collect();
        serde_json::to_value(Plan { sched: SchedCfg::draw(r, 4), dedupe: r.chance(0.5), inputs, fields, ops, rows: r.below(3) as u8, up: draw_mini(r, 0.2), clients }).unwrap()
    }
    fn execute(&self, plan: &Value, replay: Option<Vec<u32>>) -> RunOut {
        let p: Plan = serde_json::from_value(plan.clone()).unwrap();
        let cfg = sched_of(plan);
        let env = SimEnv::default();
        let (b, e) = prepared(&p.files(), &env).unwrap_or_else(|e| panic!("configuration: {e}\n{}", p.sdl()));
        let up = Mini::new(p.up.clone(), answer(p.rows()));
        let reqs = Log::<Arc<Req>>::default();
        let (u2, r2, p2) = (up.clone(), reqs.clone(), p.clone());
        let (end, _, report) = simrt::world::run(&cfg, replay, move || async move {
            let rt = runtime(Arc::new(u2.clone()), SimFile::default(), env, (None, None));
            let app = Arc::new(AppContext::new(b, rt, e));
            let mut hs = vec![];
            for (i, steps) in p2.clients.clone().into_iter().enumerate() {
                let (app, r2, f, p) = (app.clone(), r2.clone(), u2.faults.clone(), p2.clone());
                hs.push(simrt::task::spawn_named("user", async move {
                    for (j, st) in steps.into_iter().enumerate() {
                        if st.wait > 0 {
                            simrt::sleep(us(st.wait)).await;
                        }
                        ask(&app, &r2, &f, &p, st, format!("u{i}-{j}"), false).await;
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
            simrt::sleep(us(100_000)).await;
            *u2.quiet.lock().unwrap() = true;
            let f = u2.faults.clone();
            for (i, st) in p2.clients.iter().flatten().take(4).enumerate() {
                ask(&app, &r2, &f, &p2, Step { cancel: None, wait: 0, ..st.clone() }, format!("calm-{i}"), true).await;
            }
        });
        let faults = up.faults.lock().unwrap().clone();
        let (reqs, calls) = (reqs.take(), up.calls.take());
        let mut v = end_violation(&end);
        if v.is_none() {
            v = judge(&p, &reqs, &calls);
        }
        let good = |r: &Req| matches!(&r.reply, Some(Ok(x)) if !x.body.contains("\"errors\""));
        let other = |a: &Req, b: &Req| a.step.op as usize % p.ops.len() == b.step.op as usize % p.ops.len() && a.text != b.text;
        let nontrivial = reqs.iter().any(|a| good(a) && reqs.iter().any(|b| good(b) && other(a, b) && a.inv.s <= b.ret.s && b.inv.s <= a.ret.s));
        RunOut { violation: v, nontrivial, report, faults, sample: json!({"requests": reqs.len(), "upstream_calls": calls.len()}) }
    }
}
async fn ask(app: &Arc<AppContext>, log: &Log<Arc<Req>>, f: &Faults, p: &Plan, st: Step, xc: String, calm: bool) {
    let op = &p.ops[st.op as usize % p.ops.len()];
    let vars: Map<String, Value> = p.given(op, &st).into_iter().map(|(k, v)| (k, v.json())).collect();
    let text = json!({"query": p.text(op), "variables": vars}).to_string();
    let (a2, body, h) = (app.clone(), text.clone(), [("xc".to_string(), xc.clone())]);
    let inv = at();
    simrt::event(|| format!("request {xc} at {inv:?}: {text}"));
    let out = cancellable(async move { send(a2, "POST", "/graphql", &h, body, false).await }, st.cancel).await;
    let ret = at();
    let reply = match out {
        Ok(r) => Some(r),
        Err(e) if e.is_cancelled() => {
            fault(f, "client_disconnect");
            None
        }
        Err(e) => Some(Err(format!("panic: {e:?}"))),
    };
    simrt::event(|| format!("reply {xc} at {ret:?}: {reply:?}"));
    log.push(Arc::new(Req { step: st, xc, text, inv, ret, calm, reply }));
}

fn judge(p: &Plan, reqs: &[Arc<Req>], calls: &[MCall]) -> Option<Violation> {
    for r in reqs {
        let op = &p.ops[r.step.op as usize % p.ops.len()];
        let mine: Vec<&MCall> = calls.iter().filter(|c| c.headers.get("xc") == Some(&r.xc)).collect();
        let want = p.expected(op, &r.step);
        let bad = |c: &str, t: String| Some(Violation::new(c, format!("{t}\nrequest {} {}\nexpected {want:?}\nreply {:?}", r.xc, r.text, r.reply)));
        // what was sent, also for those who did not wait for it
        match &want {
            Err(_) => {
                if let Some(c) = mine.first() {
                    return bad("sent-unusable", format!("{} {} was sent for a request that is an error", c.url, c.body));
                }
            }
            Ok(want) => {
                for c in &mine {
                    if c.segs() == ["rows"] {
                        continue;
                    }
                    if let (["g"], Err(e)) = (&c.segs()[..], gql_args(&c.body)) {
                        return bad("malformed", e);
                    }
                    if !want.iter().any(|(f, a)| sent(p, *f, a, c)) {
                        return bad("wrong-arguments", format!("sent {} {} {}", c.method, c.url, c.body));
                    }
                }
                // nothing more often than it is asked for
                let seen: BTreeSet<usize> = BTreeSet::new();
                let _ = seen;
                let most: usize = want.iter().map(|(f, _)| if p.kind(*f) == 3 { p.rows() as usize } else { 1 }).sum();
                if mine.iter().filter(|c| c.segs() != ["rows"]).count() > most {
                    return bad("sent-twice", format!("{} calls for {most} uses", mine.len()));
                }
            }
        }
        let Some(reply) = &r.reply else { continue };
        let x = match reply {
            Ok(x) => x,
            Err(e) => return bad("no-reply", format!("no response: {e}")),
        };
        let body = x.json();
        if body["errors"].as_array().is_some_and(|e| !e.is_empty()) {
            if want.is_ok() && (r.calm || !mine.iter().any(|c| c.failed())) {
                return bad("refused", "nothing is wrong with it".into());
            }
            continue;
        }
        let Ok(want) = &want else {
            return bad("accepted", "a value that must be there is not".into());
        };
        let mut wanted = Map::new();
        let mut rows = vec![Map::new(); p.rows() as usize];
        let check = |f: usize, a: &Value, got: &Value, row: Option<u64>| -> Result<(), String> {
            let c = got["n"].as_u64().and_then(|n| calls.get(n as usize)).filter(|c| c.headers.get("xc") == Some(&r.xc)).ok_or_else(|| format!("{got} was never said to it"))?;
            if !sent(p, f, a, c) || row.is_some_and(|i| c.segs().get(1) != Some(&i.to_string().as_str())) {
                return Err(format!("f{f} of row {row:?} was given {a}, answered {got}"));
            }
            Ok(())
        };
        for (i, (f, a)) in want.iter().enumerate() {
            let key = format!("u{i}");
            let res = if p.kind(*f) == 3 {
                (0..rows.len()).try_for_each(|j| {
                    let got = &body["data"]["rows"][j][&key];
                    rows[j].insert(key.clone(), got.clone());
                    check(*f, a, got, Some(j as u64 + 1))
                })
            } else {
                let got = &body["data"][&key];
                wanted.insert(key.clone(), got.clone());
                check(*f, a, got, None)
            };
            if let Err(e) = res {
                return bad("wrong-data", e);
            }
        }
        if want.iter().any(|(f, _)| p.kind(*f) == 3) {
            for (j, m) in rows.iter_mut().enumerate() {
                m.insert("id".into(), json!(j + 1));
            }
            wanted.insert("rows".into(), json!(rows));
        }
        if wanted.is_empty() {
            wanted.insert("__typename".into(), json!(if op.mutation { "Mutation" } else { "Query" }));
        }
        if body["data"] != Value::Object(wanted) {
            return bad("wrong-data", "not what was selected".into());
        }
    }
    None
}
/// whether the call is field `f` with these arguments
fn sent(p: &Plan, f: usize, want: &Value, c: &MCall) -> bool {
    let name = format!("f{f}");
    match (p.kind(f), &c.segs()[..]) {
        // what is not given to the field is null for the one it calls
        (4, ["b", n]) => {
            // a string that looks like another value is taken for it, as in @expr
            let read = |v: &Value| v.as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or_else(|| v.clone());
            let full = |v: &Value| Value::Object(v.as_object().into_iter().flatten().map(|(k, v)| (k.clone(), read(v))).filter(|(_, v)| !v.is_null()).collect());
            *n == name && c.body.is_object() && same(&full(&unmarked(want)), &full(&c.body))
        }
        (0, ["b", n]) | (3, ["n", _, n]) => *n == name && same(&unmarked(want), &c.body),
        (1, ["q", n]) => {
            let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for (k, v) in c.query.iter().filter(|q| !q.1.is_empty()) {
                m.entry(k.clone()).or_default().push(v.clone());
            }
            *n == name && m == pairs(&unmarked(want))
        }
        (2, ["g"]) => gql_args(&c.body).is_ok_and(|(n, a)| n == name && same(want, &a)),
        _ => false,
    }
}
