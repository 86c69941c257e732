//! Queries, and what their responses must be: a reference executor over the
//! upstream's data, written independently of the gateway's.
use std::collections::{BTreeMap, BTreeSet};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::Rng;

use crate::gw::*;
use crate::up::*;
use crate::util::*;

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Sel {
    pub f: u8,
    #[serde(default)]
    pub alias: u8,
    #[serde(default)]
    pub arg: u32,
    /// argument through a variable
    #[serde(default)]
    pub var: bool,
    /// 0 none, 1 include true, 2 include false, 3 skip true, 4 skip false; +4 through a variable
    #[serde(default)]
    pub cond: u8,
    /// wrapped in an inline fragment
    #[serde(default)]
    pub frag: bool,
    #[serde(default)]
    pub sub: Vec<Sel>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    Query,
    Post,
    User,
    Comment,
    Me,
    Owner,
}
/// (name, resolver or none, type or scalar, list)
pub type F = (&'static str, Option<u8>, Option<Ty>, bool);
pub fn fields(t: Ty, k: &Knobs) -> &'static [F] {
    match t {
        Ty::Query => &[
            ("posts", Some(R_POSTS), Some(Ty::Post), true),
            ("post", Some(R_POST), Some(Ty::Post), false),
            ("users", Some(R_USERS), Some(Ty::User), true),
            ("user", Some(R_USER), Some(Ty::User), false),
            ("me", Some(R_ME), Some(Ty::Me), false),
        ],
        Ty::Post if k.batching() => &[
            ("title", None, None, false),
            ("userId", None, None, false),
            ("user", Some(R_POST_USER), Some(Ty::User), false),
            ("comments", Some(R_POST_COMMENTS), Some(Ty::Comment), true),
            ("owner", Some(R_POST_OWNER), Some(Ty::Owner), false),
        ],
        Ty::Post => &[
            ("title", None, None, false),
            ("userId", None, None, false),
            ("user", Some(R_POST_USER), Some(Ty::User), false),
            ("comments", Some(R_POST_COMMENTS), Some(Ty::Comment), true),
        ],
        Ty::User => &[("name", None, None, false), ("posts", Some(R_USER_POSTS), Some(Ty::Post), true)],
        Ty::Comment => &[("text", None, None, false), ("post", Some(R_COMMENT_POST), Some(Ty::Post), false)],
        Ty::Me => &[("owner", None, None, false)],
        Ty::Owner => &[("name", None, None, false), ("owner", None, None, false)],
    }
}
pub fn field(t: Ty, k: &Knobs, s: &Sel) -> F {
    let fs = fields(t, k);
    fs[s.f as usize % fs.len()]
}
impl Sel {
    pub fn key(&self, t: Ty, k: &Knobs) -> String {
        if self.alias > 0 {
            format!("a{}", self.alias)
        } else {
            field(t, k, self).0.to_string()
        }
    }
    pub fn included(&self) -> bool {
        match self.cond % 9 {
            0 => true,
            c => matches!((c - 1) % 4, 0 | 3),
        }
    }
    fn is_scalar(&self, t: Ty, k: &Knobs) -> bool {
        field(t, k, self).2.is_none()
    }
}
/// response keys stay unique, whatever minimisation removed
pub fn uniq<'a>(t: Ty, k: &Knobs, sels: &'a [Sel]) -> Vec<&'a Sel> {
    let mut seen = BTreeSet::new();
    sels.iter().filter(|s| seen.insert(s.key(t, k))).collect()
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub k: &'a Knobs,
    pub ids: u32,
    pub budget: i64,
    pub conds: f64,
    pub only: Option<Vec<u8>>,
}
impl Gen<'_> {
    pub fn sels(&mut self, t: Ty, depth: u32, mult: i64) -> Vec<Sel> {
        let n = self.r.range(1, if t == Ty::Query { 3 } else { 4 });
        let mut out: Vec<Sel> = vec![];
        let fs = fields(t, self.k);
        for _ in 0..n {
            let mut s = Sel { f: self.r.below(fs.len() as u64) as u8, ..Default::default() };
            if t == Ty::Query {
                if let Some(o) = &self.only {
                    s.f = *self.r.pick(o);
                }
            }
            let (_, res, ty, list) = fs[s.f as usize];
            if self.r.chance(0.25) {
                s.alias = self.r.range(1, 4) as u8;
            }
            if let (Some(sub), Some(_)) = (ty, res) {
                let m = mult * if list { 3 } else { 1 };
                if depth == 0 || self.budget < m {
                    continue;
                }
                self.budget -= m;
                s.arg = self.r.range(1, self.ids as i64) as u32;
                s.var = self.r.chance(0.4);
                s.sub = self.sels(sub, depth - 1, m);
            }
            if self.r.chance(self.conds) {
                s.cond = self.r.range(1, 8) as u8;
            }
            s.frag = self.r.chance(0.1);
            out.push(s);
        }
        let mut seen = BTreeSet::new();
        out.retain(|s| seen.insert(s.key(t, self.k)));
        if out.is_empty() {
            out.push(Sel { f: if t == Ty::Query { self.only.as_ref().map(|o| o[0]).unwrap_or(0) } else { 0 }, arg: 1, ..Default::default() });
        }
        out
    }
}

#[derive(Default)]
pub struct Printed {
    pub text: String,
    pub vars: serde_json::Map<String, Value>,
    decl: Vec<String>,
}
fn print_sels(p: &mut Printed, t: Ty, k: &Knobs, sels: &[Sel], vary: bool) {
    p.text.push_str(" {");
    if t != Ty::Query {
        p.text.push_str(" id rev");
    }
    for s in uniq(t, k, sels) {
        let (name, res, ty, _) = field(t, k, s);
        let mut close = "";
        if s.frag {
            p.text.push_str(&format!(" ... on {t:?} {{"));
            close = " }";
        }
        p.text.push(' ');
        if s.alias > 0 {
            p.text.push_str(&format!("a{}: ", s.alias));
        }
        p.text.push_str(name);
        if matches!(res, Some(R_POST | R_USER)) {
            if s.var {
                let v = format!("v{}", p.vars.len());
                p.decl.push(format!("${v}: {}!", k.id_type()));
                p.text.push_str(&format!("(id: ${v})"));
                p.vars.insert(v, wire(k.ids, s.arg));
            } else {
                p.text.push_str(&format!("(id: {})", wire(k.ids, s.arg)));
            }
        }
        if s.cond % 9 > 0 {
            let c = s.cond % 9 - 1;
            let (d, val) = if c % 4 < 2 { ("include", c % 4 == 0) } else { ("skip", c % 4 == 2) };
            if c >= 4 {
                let v = format!("v{}", p.vars.len());
                p.decl.push(format!("${v}: Boolean!"));
                p.text.push_str(&format!(" @{d}(if: ${v})"));
                p.vars.insert(v, json!(val));
            } else {
                p.text.push_str(&format!(" @{d}(if: {val})"));
            }
        }
        if let Some(sub) = ty {
            print_sels(p, sub, k, &s.sub, vary);
        }
        p.text.push_str(close);
    }
    p.text.push_str(" }");
}
pub fn print(k: &Knobs, sels: &[Sel], name: &str) -> Printed {
    let mut p = Printed::default();
    print_sels(&mut p, Ty::Query, k, sels, false);
    let d = if p.decl.is_empty() { String::new() } else { format!("({})", p.decl.join(", ")) };
    p.text = format!("query {name}{d}{}", p.text);
    p
}

pub struct Who<'a> {
    pub auth: &'a str,
    pub tenant: u32,
}

pub fn res_of(k: &Knobs, up: &UpPlan, r: u8, id: u32, w: &Who) -> Res {
    let _ = up;
    match r {
        R_POSTS => Res::Posts,
        R_POST | R_COMMENT_POST => Res::Post(id),
        R_USERS => Res::Users,
        R_USER => Res::User(id),
        R_ME => Res::Me(w.auth.to_string()),
        R_POST_USER => match k.user_mode() {
            0 | 3 => Res::User(id),
            1 => Res::UsersQ(id),
            2 => Res::UsersB(id),
            _ => Res::UserG(id),
        },
        R_POST_COMMENTS => Res::Comments(id),
        R_USER_POSTS => Res::PostsQ(id),
        R_POST_OWNER => Res::Tenant(w.tenant, id),
        _ => unreachable!(),
    }
}

/// What the request needs from the upstream, and how often.
#[derive(Default, Debug, Clone)]
pub struct Need {
    pub res: BTreeMap<Res, usize>,
    /// resolvers used, by resource
    pub by: BTreeMap<Res, BTreeSet<u8>>,
    /// a resource that a healthy upstream answers with 404
    pub missing: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Obj {
    Post(u32),
    User(u32),
    Comment(u32, u32),
    Me,
    Owner(u32),
    /// what a mutation created
    Created(u32),
}
pub enum Got {
    One(Obj),
    List(Vec<Obj>),
    Null,
    NotFound,
}
pub fn resolve(k: &Knobs, up: &UpPlan, r: u8, parent: Option<Obj>, arg: u32) -> (u32, Got) {
    let user = |u: u32, nf: bool| if up.user_exists(u) { Got::One(Obj::User(u)) } else if nf { Got::NotFound } else { Got::Null };
    let post = |p: u32| if up.post_exists(p) { Got::One(Obj::Post(p)) } else { Got::NotFound };
    match (r, parent) {
        (R_POSTS, _) => (0, Got::List((1..=up.np).map(Obj::Post).collect())),
        (R_USERS, _) => (0, Got::List((1..=up.nu).map(Obj::User).collect())),
        (R_POST, _) => (arg, post(arg)),
        (R_USER, _) => (arg, user(arg, true)),
        (R_ME, _) => (0, Got::One(Obj::Me)),
        (R_POST_USER, Some(o)) => {
            let u = match o {
                Obj::Post(p) => up.post_user(p),
                _ => 1,
            };
            (u, user(u, matches!(k.user_mode(), 0 | 3)))
        }
        (R_POST_OWNER, Some(Obj::Post(p))) => {
            let u = up.post_user(p);
            (u, if up.user_exists(u) { Got::One(Obj::Owner(u)) } else { Got::Null })
        }
        (R_POST_COMMENTS, Some(Obj::Post(p))) => (p, Got::List(up.comments_of(p).into_iter().map(|c| Obj::Comment(p, c)).collect())),
        (R_USER_POSTS, Some(Obj::User(u))) => (u, Got::List(up.posts_of(u).into_iter().map(Obj::Post).collect())),
        (R_COMMENT_POST, Some(Obj::Comment(p, _))) => (p, post(p)),
        x => panic!("no such resolver {x:?}"),
    }
}
pub fn need(k: &Knobs, up: &UpPlan, t: Ty, parent: Option<Obj>, sels: &[Sel], w: &Who, n: &mut Need) {
    for s in uniq(t, k, sels) {
        if !s.included() {
            continue;
        }
        let (_, res, ty, _) = field(t, k, s);
        let (Some(r), Some(sub)) = (res, ty) else { continue };
        let (id, got) = resolve(k, up, r, parent, s.arg);
        let key = res_of(k, up, r, id, w);
        *n.res.entry(key.clone()).or_default() += 1;
        n.by.entry(key).or_default().insert(r);
        match got {
            Got::One(o) => need(k, up, sub, Some(o), &s.sub, w, n),
            Got::List(v) => v.into_iter().for_each(|o| need(k, up, sub, Some(o), &s.sub, w, n)),
            Got::NotFound => n.missing = true,
            Got::Null => {}
        }
    }
}

pub struct Judge<'a> {
    pub k: &'a Knobs,
    pub up: &'a UpPlan,
    pub calls: &'a [Call],
    pub who: Who<'a>,
    pub inv: At,
    pub ret: At,
    /// earliest request whose work this one may share
    pub share_from: At,
    pub shares: bool,
    /// calls whose errors the response holds
    pub errors: Vec<usize>,
    /// all requests
    pub spans: Vec<(At, At)>,
}
pub type V = Result<(), (&'static str, String)>;
macro_rules! bad {
    ($c:expr, $($t:tt)*) => { return Err(($c, format!($($t)*))) };
}
impl Judge<'_> {
    fn fresh(&self, c: &Call, r: u8) -> V {
        if c.end.s > self.ret.s {
            bad!("from-the-future", "the response holds data of call {} which ended after it", c.n);
        }
        let ok = match self.k.age_of(r) {
            Some(ms) => {
                // an entry is made when its whole batch is there
                let mut end = c.end.t;
                if self.k.batching() {
                    end = self.calls.iter().filter(|o| o.start.t <= c.end.t && o.end.t != u64::MAX).map(|o| o.end.t).max().unwrap_or(end).max(end);
                }
                if self.k.dedupe != 0 {
                    // a request that shared the call may keep what it got, and make an entry
                    // of it, for as long as it runs
                    end = self.spans.iter().filter(|(i, r)| i.s <= c.end.s && r.s >= c.start.s).map(|x| x.1.t).max().unwrap_or(end).max(end);
                }
                end.saturating_add(ms * 1_000_000) >= self.share_from.t
            }
            None if self.shares => c.end.s >= self.share_from.s,
            None => c.start.s >= self.inv.s,
        };
        if !ok {
            bad!("stale", "request at {:?} got data of call {} ({}) which ran {:?}..{:?}; cache {:?}", self.inv, c.n, c.url, c.start, c.end, self.k.age_of(r));
        }
        Ok(())
    }
    /// a null or a short list is right only if the upstream said so
    fn soft(&self, res: &Res, r: u8) -> bool {
        self.calls.iter().any(|c| matches!(c.outcome, Outcome::Soft(x) if x != GQL_ERRORS || self.errors.contains(&c.n)) && c.has(res) && self.fresh(c, r).is_ok())
    }
    pub fn object(&self, t: Ty, o: Obj, v: &Value, sels: &[Sel], via: Option<(&Res, u8)>, path: &str) -> V {
        let Value::Object(m) = v else { bad!("shape", "{path}: expected an object, got {v}") };
        let mut want: Vec<String> = vec![];
        if t != Ty::Query {
            want.extend(["id".to_string(), "rev".to_string()]);
        }
        let sels = uniq(t, self.k, sels);
        want.extend(sels.iter().filter(|s| s.included()).map(|s| s.key(t, self.k)));
        let have: Vec<String> = m.keys().cloned().collect();
        if want.iter().collect::<BTreeSet<_>>() != have.iter().collect::<BTreeSet<_>>() {
            bad!("fields", "{path}: expected fields {want:?}, got {have:?}");
        }
        if let Some((res, r)) = via {
            let id = match o {
                Obj::Post(i) | Obj::User(i) | Obj::Comment(_, i) | Obj::Owner(i) => i,
                Obj::Me => 1,
                Obj::Created(_) => m["rev"].as_u64().unwrap_or(0) as u32 + 1000,
            };
            if m["id"] != wire(self.k.ids, id) {
                bad!("wrong-object", "{path}: expected id {}, got {}", wire(self.k.ids, id), m["id"]);
            }
            let rev = m["rev"].as_u64().unwrap_or(u64::MAX) as usize;
            let Some(c) = self.calls.get(rev) else { bad!("invented", "{path}: revision {} was never sent", m["rev"]) };
            if !c.delivered() || !c.has(res) {
                bad!("wrong-source", "{path}: {res:?} was answered from call {} {} {} ({:?}) covering {:?}", c.n, c.method, c.url, c.outcome, c.covers);
            }
            let tenant = self.who.tenant.to_string();
            let own = |h: &str, v: &str| c.headers.get(h).is_some_and(|x| x == v);
            if (self.k.batch_headers || !self.k.batching()) && !(own("authorization", self.who.auth) && own("tenant", &tenant)) {
                bad!("foreign-identity", "{path}: {res:?} for {} (tenant {tenant}) was fetched by call {} with headers {:?}", self.who.auth, c.n, c.headers);
            }
            self.fresh(c, r).map_err(|(k, m)| (k, format!("{path}: {m}")))?;
        }
        for s in sels.iter().filter(|s| s.included()) {
            let key = s.key(t, self.k);
            let p = format!("{path}.{key}");
            let (name, res, ty, list) = field(t, self.k, s);
            let got = &m[&key];
            if s.is_scalar(t, self.k) {
                let w = match (o, name) {
                    (Obj::Post(i), "title") => json!(format!("title-{i}")),
                    (Obj::Post(i), "userId") => wire_ref(self.k.ids, self.up.post_user(i)),
                    (Obj::Created(n), "title") => json!(format!("created-{n}")),
                    (Obj::Created(_), "userId") => wire_ref(self.k.ids, 1),
                    (Obj::User(i), "name") => json!(format!("user-{i}")),
                    (Obj::Comment(_, i), "text") => json!(format!("text-{i}")),
                    (Obj::Me | Obj::Owner(_), "owner") => json!(self.who.auth),
                    (Obj::Owner(i), "name") => json!(format!("tenant-{}-user-{i}", self.who.tenant)),
                    x => panic!("{x:?}"),
                };
                if *got != w {
                    bad!("wrong-value", "{p}: expected {w}, got {got}");
                }
                continue;
            }
            let (r, sub) = (res.unwrap(), ty.unwrap());
            let parent = (t != Ty::Query).then_some(o);
            let (id, exp) = resolve(self.k, self.up, r, parent, s.arg);
            let key = res_of(self.k, self.up, r, id, &self.who);
            match exp {
                Got::NotFound => {
                    if !(got.is_null() && self.soft(&key, r)) {
                        bad!("no-error", "{p}: {key:?} does not exist upstream, yet the response holds {got} and no error");
                    }
                }
                Got::Null => {
                    if !got.is_null() {
                        bad!("invented", "{p}: {key:?} does not exist, got {got}");
                    }
                }
                Got::One(x) => {
                    if got.is_null() {
                        if !self.soft(&key, r) {
                            bad!("lost", "{p}: {key:?} exists and no upstream answer left it out, got null");
                        }
                    } else {
                        self.object(sub, x, got, &s.sub, Some((&key, r)), &p)?;
                    }
                }
                Got::List(xs) => {
                    let _ = list;
                    let Value::Array(a) = got else {
                        if got.is_null() && self.soft(&key, r) {
                            continue;
                        }
                        bad!("shape", "{p}: expected a list of {} for {key:?}, got {got}", xs.len());
                    };
                    let mut i = 0;
                    let mut revs = BTreeSet::new();
                    for (n, e) in a.iter().enumerate() {
                        let idv = &e["id"];
                        let oid = |o: &Obj| match o {
                            Obj::Post(i) | Obj::User(i) | Obj::Comment(_, i) | Obj::Owner(i) => *i,
                            _ => 0,
                        };
                        while i < xs.len() && wire(self.k.ids, oid(&xs[i])) != *idv {
                            i += 1;
                        }
                        if i == xs.len() {
                            bad!("wrong-list", "{p}: unexpected or misplaced element {n} in {got} for {key:?}");
                        }
                        revs.insert(e["rev"].to_string());
                        self.object(sub, xs[i], e, &s.sub, Some((&key, r)), &format!("{p}[{n}]"))?;
                        i += 1;
                    }
                    if revs.len() > 1 {
                        bad!("mixed", "{p}: one list made from several calls {revs:?}");
                    }
                    if a.len() < xs.len() && !self.soft(&key, r) {
                        bad!("lost", "{p}: {} of {} rows for {key:?} and no upstream answer left any out", a.len(), xs.len());
                    }
                }
            }
        }
        Ok(())
    }
}
