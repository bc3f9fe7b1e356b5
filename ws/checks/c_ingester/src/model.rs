//! What the requests accepted so far must have stored, said without looking at how.
use crate::env::*;
use common::GROUPS_COUNT;
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Str, Num, Int(i64, i64), Bool, Time, Small(usize) }

/// a property value of a request: its JSON text and what it says, None: nothing that can be stored
#[derive(Clone, Debug)]
pub struct Lit { pub json: String, pub says: Option<Val> }
pub fn lit(json: &str, says: Option<Val>) -> Lit { Lit { json: json.into(), says } }
pub fn num(json: &str, mantissa: i128) -> Lit { lit(json, Some(Val::N(mantissa))) }
pub fn int(i: i64) -> Lit { num(&i.to_string(), i as i128 * UNIT) }
pub fn text(s: &str) -> Lit { lit(&json!(s).to_string(), Some(Val::S(s.into()))) }
pub fn boolean(b: bool) -> Lit { lit(&b.to_string(), Some(Val::B(b))) }
pub fn time(s: &str, ms: i64) -> Lit { lit(&json!(s).to_string(), Some(Val::T(ms))) }
pub const UNIT: i128 = 10_000_000_000_000_000;

#[derive(Clone, Debug, Default)]
pub struct Track { pub user: Option<String>, pub anon: Option<String>, pub event: String, pub groups: Option<Vec<(String, String)>>, pub props: Option<Vec<(String, Lit)>>, pub time: Option<(String, i64)>, pub utm: Vec<(String, String)>, pub ip: Option<String> }
#[derive(Clone, Debug, Default)]
pub struct Identify { pub group: String, pub id: String, pub props: Option<Vec<(String, Lit)>>, pub time: Option<(String, i64)> }
#[derive(Clone, Debug)]
pub enum Op { Track(Track), Identify(Identify), /** the sessions of all users end */ End, /** a request that is to be refused: route, body */ Bad(String, String), /** the dictionary of a property of the API (of events, of the first group) gets so many words */ Fill(Option<usize>, &'static str, usize) }

fn props_json(p: &Option<Vec<(String, Lit)>>) -> String {
    match p { None => String::new(), Some(p) => format!(r#","properties":{{{}}}"#, p.iter().map(|(k, v)| format!("{}:{}", json!(k), v.json)).collect::<Vec<_>>().join(",")) }
}
fn opt(k: &str, v: &Option<String>) -> String { v.as_ref().map(|v| format!(r#","{k}":{}"#, json!(v))).unwrap_or_default() }
fn when(t: &Option<(String, i64)>) -> String { t.as_ref().map(|t| format!(r#","timestamp":{}"#, json!(t.0))).unwrap_or_default() }
impl Track {
    pub fn body(&self) -> String {
        let mut ctx = serde_json::Map::new();
        if let Some(ip) = &self.ip { ctx.insert("ip".into(), json!(ip)); }
        if !self.utm.is_empty() { ctx.insert("campaign".into(), J::Object(self.utm.iter().map(|(k, v)| (k.clone(), json!(v))).collect())); }
        let groups = self.groups.as_ref().map(|g| format!(r#","groups":{}"#, J::Object(g.iter().map(|(k, v)| (k.clone(), json!(v))).collect()))).unwrap_or_default();
        format!(r#"{{"event":{},"context":{}{}{}{}{}{}}}"#, json!(self.event), J::Object(ctx), opt("userId", &self.user), opt("anonymousId", &self.anon), groups, when(&self.time), props_json(&self.props))
    }
}
impl Identify { pub fn body(&self) -> String { format!(r#"{{"group":{},"id":{},"context":{{}}{}{}}}"#, json!(self.group), json!(self.id), when(&self.time), props_json(&self.props)) } }
impl Op {
    pub fn run(&self, env: &Env, pid: u64, token: &str) -> Out {
        match self {
            Op::Track(t) => env.post(token, "track", &t.body()),
            Op::Identify(i) => env.post(token, "identify", &i.body()),
            Op::Bad(r, b) => { let (tok, what) = match r.split_once(' ') { Some((t, w)) => (t, w), None => (token, r.as_str()) }; env.post(tok, what, b) }
            Op::End => { env.end_sessions(pid); Out::Accepted }
            Op::Fill(g, name, n) => {
                let (p, table) = match g { None => (env.md.event_properties.get_by_name(pid, name).unwrap(), common::types::TABLE_EVENTS.to_string()), Some(g) => (env.md.group_properties[*g].get_by_name(pid, name).unwrap(), common::group_col(*g)) };
                for i in 0..*n { env.md.dictionaries.get_key_or_create(pid, &table, &p.column_name(), &format!("w{i}")).unwrap(); }
                Out::Accepted
            }
        }
    }
    pub fn show(&self) -> String {
        match self { Op::Track(t) => format!("track {}", t.body()), Op::Identify(t) => format!("identify {}", t.body()), Op::End => "sessions end".into(), Op::Fill(g, p, n) => format!("{n} words of {p} of {g:?}"), Op::Bad(w, b) => format!("{w} {b}") }
    }
}

/// an event that must be there; users are numbered by the model
#[derive(Clone, Debug, PartialEq)]
pub struct Want { pub event: String, pub user: usize, pub time: (i64, i64), pub ip: Option<String>, pub groups: Vec<Option<String>>, pub props: Props, pub group_props: Vec<Props> }
#[derive(Clone, Debug, PartialEq)]
pub struct WantProfile { pub time: (i64, i64), pub props: Props, pub names: BTreeSet<String>, pub seq: u64 }
#[derive(Clone, Debug, Default, PartialEq)]
struct Entity { num: usize, props: Props }

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    next: usize,
    anon: BTreeMap<String, usize>,
    entities: BTreeMap<(usize, String), Entity>,
    groups: BTreeMap<String, usize>,
    kinds: BTreeMap<(Option<usize>, String), Kind>,
    open: BTreeSet<usize>,
    names: BTreeMap<usize, BTreeSet<String>>,
    small: BTreeMap<(Option<usize>, String), BTreeSet<String>>,
    pub events: Vec<Want>,
    pub profiles: BTreeMap<(usize, usize), WantProfile>,
    pub tracked: u64,
    identified: u64,
}

pub fn api_kind(name: &str) -> Option<Kind> {
    Some(match name {
        "i8" => Kind::Int(i8::MIN as i64, i8::MAX as i64), "i16" => Kind::Int(i16::MIN as i64, i16::MAX as i64), "i32" => Kind::Int(i32::MIN as i64, i32::MAX as i64), "i64" => Kind::Int(i64::MIN, i64::MAX),
        "dec" => Kind::Num, "bool" => Kind::Bool, "ts" => Kind::Time, "str" | "d32" | "d64" => Kind::Str, "d8" => Kind::Small(127), "d16" => Kind::Small(32767), _ => return None,
    })
}
fn system_kind(name: &str) -> Option<Kind> {
    use common::types::*;
    if [EVENT_PROPERTY_HREF, EVENT_PROPERTY_CLASS, EVENT_PROPERTY_PAGE_URL, EVENT_PROPERTY_OS, EVENT_PROPERTY_CITY, EVENT_PROPERTY_UTM_SOURCE].contains(&name) { return Some(Kind::Str) }
    if name == EVENT_PROPERTY_SESSION_LENGTH { return Some(Kind::Time) }
    None
}
/// the greatest value of a decimal column, times 10^16
pub const MAX_DEC: i128 = 10i128.pow(28) - 1;

/// what a property of the kind stores for the literal; None: the request must be refused
fn stored(kind: Kind, v: &Val, accepted: bool) -> Option<Val> {
    match (kind, v) {
        (Kind::Str | Kind::Small(_), Val::S(_)) | (Kind::Bool, Val::B(_)) | (Kind::Time, Val::T(_)) => Some(v.clone()),
        (Kind::Num, Val::N(n)) if n.abs() <= MAX_DEC => Some(v.clone()),
        // more digits than the column has: refused, or kept all the same
        (Kind::Num, Val::N(_)) if accepted => Some(v.clone()),
        (Kind::Int(lo, hi), Val::N(n)) => { let i = n / UNIT; if i >= lo as i128 && i <= hi as i128 { Some(Val::I(i as i64)) } else { None } }
        _ => None,
    }
}
fn kind_of(v: &Val) -> Kind { match v { Val::S(_) => Kind::Str, Val::N(_) | Val::I(_) => Kind::Num, Val::B(_) => Kind::Bool, Val::T(_) => Kind::Time } }

impl Model {
    pub fn new() -> Model {
        Model { next: 0, anon: Default::default(), entities: Default::default(), groups: [("user".to_string(), 0)].into(), kinds: Default::default(), open: Default::default(), names: Default::default(), small: Default::default(), events: vec![], profiles: Default::default(), tracked: 0, identified: 0 }
    }
    fn number(&mut self) -> usize { self.next += 1; self.next - 1 }
    fn entity(&mut self, g: usize, name: &str) -> Entity {
        if let Some(e) = self.entities.get(&(g, name.to_string())) { return e.clone() }
        let e = Entity { num: self.number(), props: Props::new() };
        self.entities.insert((g, name.into()), e.clone());
        e
    }
    fn group(&mut self, name: &str) -> Option<usize> {
        if let Some(g) = self.groups.get(name) { return Some(*g) }
        let g = self.groups.len();
        if g >= GROUPS_COUNT { return None }
        self.groups.insert(name.into(), g);
        Some(g)
    }
    /// the values the properties store, or None; an accepted request makes its new properties
    fn props(&mut self, g: Option<usize>, p: &Option<Vec<(String, Lit)>>, accepted: bool) -> Option<Props> {
        let mut out = Props::new();
        let mut kinds = vec![];
        for (k, l) in p.iter().flatten() {
            let says = l.says.as_ref()?;
            let key = (g, k.clone());
            let api = if g.is_none() || g.unwrap() < 2 { api_kind(k) } else { None };
            let kind = self.kinds.get(&key).copied().or(api).or(if g.is_none() { system_kind(k) } else { None }).unwrap_or(kind_of(says));
            kinds.push((key, kind));
            out.insert(k.clone(), stored(kind, says, accepted)?);
        }
        for (key, kind) in &kinds {
            if let (Kind::Small(n), Val::S(s)) = (kind, &out[&key.1]) {
                let have = self.small.entry(key.clone()).or_default();
                if !have.contains(s) { if have.len() >= *n { return None } have.insert(s.clone()); }
            }
        }
        self.kinds.extend(kinds);
        Some(out)
    }
    /// what a refused request may leave behind: nothing, its new properties, its user, or both
    pub fn after_refusal(&self, op: &Op) -> Vec<Model> {
        let with_props = |g: Option<usize>, p: &Option<Vec<(String, Lit)>>| {
            let mut m = self.clone();
            for (k, l) in p.iter().flatten() {
                let Some(says) = &l.says else { continue };
                let api = if g.is_none() || g.unwrap() < 2 { api_kind(k) } else { None };
                if api.is_none() && (g.is_some() || system_kind(k).is_none()) { m.kinds.entry((g, k.clone())).or_insert(kind_of(says)); }
            }
            m
        };
        let mut all = match op {
            Op::Track(t) => {
                let mut v = vec![self.clone(), with_props(None, &t.props)];
                for i in 0..2 { let mut m = v[i].clone(); if m.user(t).is_some() { v.push(m); } }
                v
            }
            Op::Identify(i) => {
                let mut known = self.clone();
                match known.group(&i.group) { Some(g) => { let mut m = with_props(Some(g), &i.props); m.groups = known.groups.clone(); vec![self.clone(), known, m] } None => vec![self.clone()] }
            }
            _ => vec![self.clone()],
        };
        all.dedup();
        all
    }
    /// the user of a track, now known
    fn user(&mut self, t: &Track) -> Option<(usize, Option<Entity>)> {
        Some(match (&t.user, &t.anon) {
            (Some(u), None) => { let e = self.entity(0, u); self.names.entry(e.num).or_default().insert(u.clone()); (e.num, Some(e)) }
            (None, Some(a)) => {
                let n = match self.anon.get(a) { Some(n) => *n, None => { let n = self.number(); self.anon.insert(a.clone(), n); n } };
                self.names.entry(n).or_default().insert(a.clone());
                (n, None)
            }
            (Some(u), Some(a)) => {
                let n = match self.entities.get(&(0, u.clone())) {
                    Some(e) => e.num,
                    None => {
                        let n = match self.anon.get(a) { Some(n) => *n, None => { let n = self.number(); self.anon.insert(a.clone(), n); n } };
                        self.entities.insert((0, u.clone()), Entity { num: n, props: Props::new() });
                        n
                    }
                };
                self.names.entry(n).or_default().insert(u.clone());
                (n, None)
            }
            _ => return None,
        })
    }
    /// whether the request has to be accepted, and what it stores then
    pub fn step(&mut self, op: &Op, window: (i64, i64), accepted: bool) -> bool {
        match op {
            Op::Bad(..) => false,
            Op::End => { self.open.clear(); true }
            Op::Fill(g, name, n) => { self.small.entry((*g, name.to_string())).or_default().extend((0..*n).map(|i| format!("w{i}"))); true }
            Op::Track(t) => {
                let Some(props) = self.props(None, &t.props, accepted) else { return false };
                let Some((user, known)) = self.user(t) else { return false };
                let (mut groups, mut group_props) = (vec![None; GROUPS_COUNT], vec![Props::new(); GROUPS_COUNT]);
                if let Some(gs) = &t.groups {
                    if let Some(e) = known { group_props[0] = e.props; }
                    for (g, v) in gs {
                        let Some(gid) = self.group(g) else { return false };
                        let e = self.entity(gid, v);
                        groups[gid] = Some(v.clone());
                        group_props[gid] = e.props;
                    }
                }
                let time = t.time.as_ref().map(|t| (t.1, t.1)).unwrap_or(window);
                if self.open.insert(user) {
                    let mut p = Props::new();
                    for (k, v) in &t.utm { p.insert(utm_name(k).into(), Val::S(v.clone())); }
                    // what the request says itself comes after
                    for (k, v) in &props { p.entry(k.clone()).or_insert(v.clone()); }
                    self.events.push(Want { event: common::types::EVENT_SESSION_BEGIN.into(), user, time, ip: Some(t.ip.clone().unwrap_or("127.0.0.9".into())), groups: groups.clone(), props: p, group_props: group_props.clone() });
                }
                self.events.push(Want { event: t.event.clone(), user, time, ip: None, groups, props, group_props });
                self.tracked += 1;
                true
            }
            Op::Identify(i) => {
                let Some(g) = self.group(&i.group) else { return false };
                let Some(props) = self.props(Some(g), &i.props, accepted) else { return false };
                let e = self.entity(g, &i.id);
                let mut all = e.props.clone();
                all.extend(props);
                self.entities.insert((g, i.id.clone()), Entity { num: e.num, props: all.clone() });
                let time = i.time.as_ref().map(|t| (t.1, t.1)).unwrap_or(window);
                let mut names: BTreeSet<String> = self.profiles.get(&(g, e.num)).map(|p| p.names.clone()).unwrap_or_default();
                names.insert(i.id.clone());
                self.profiles.insert((g, e.num), WantProfile { time, props: all, names, seq: self.identified });
                self.identified += 1;
                true
            }
        }
    }
    /// who has a session
    pub fn open(&self) -> Vec<BTreeSet<String>> { self.open.iter().map(|u| self.names[u].clone()).collect() }
    /// compares what is stored with what must be; the values compared
    pub fn compare(&self, env: &Env, pid: u64, got: &(Vec<Event>, Vec<Profile>)) -> Result<u64, J> {
        // groups are numbered in the order they come, which within one request is any
        let mut place = vec![None; GROUPS_COUNT];
        for g in env.md.groups.list_groups(pid).unwrap().data { place[g.id as usize] = self.groups.get(&g.name).copied(); }
        place[0] = Some(0);
        let mut got = got.clone();
        let profiles = std::mem::take(&mut got.1);
        let mut got = got.0;
        for e in &mut got {
            let (groups, props) = (std::mem::replace(&mut e.groups, vec![None; GROUPS_COUNT]), std::mem::replace(&mut e.group_props, vec![Props::new(); GROUPS_COUNT]));
            for (i, (v, p)) in groups.into_iter().zip(props).enumerate() {
                match place[i] { Some(k) => { e.groups[k] = v; e.group_props[k] = p; } None if v.is_none() && p.is_empty() => {} None => return Err(json!(format!("an event has a group {i} = {v:?} {p:?} that is no group of the project"))) }
            }
        }
        let mut n = 0;
        let bad = |what: &str, i: usize| json!({"what": what, "stored": got.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>(), "must be stored": self.events.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>(), "at": i});
        if got.len() != self.events.len() { return Err(bad("the number of events", 0)) }
        let mut ids: BTreeMap<usize, i64> = BTreeMap::new();
        for (i, (g, w)) in got.iter().zip(&self.events).enumerate() {
            if i > 0 && got[i - 1].record == g.record { return Err(bad("two events with one id", i)) }
            if g.event != w.event { return Err(bad("the event, or the order of the events", i)) }
            if g.time < w.time.0 || g.time > w.time.1 { return Err(bad("the time", i)) }
            if *ids.entry(w.user).or_insert(g.user) != g.user { return Err(bad("the user", i)) }
            if !self.names[&w.user].contains(&g.user_name) { return Err(bad("the name of the user", i)) }
            if g.groups[1..] != w.groups[1..] { return Err(bad("the groups", i)) }
            if g.ip != w.ip { return Err(bad("the ip", i)) }
            if g.props != w.props { return Err(bad("the properties", i)) }
            if g.group_props != w.group_props { return Err(bad("the properties of the groups", i)) }
            n += 8 + g.props.len() as u64;
        }
        let distinct: BTreeSet<i64> = ids.values().copied().collect();
        if distinct.len() != ids.len() { return Err(bad("two users with one id", 0)) }
        let have = env.md.projects.get_by_id(pid).unwrap().events_count;
        if have as u64 != self.tracked as u64 { return Err(json!({"what": "the number of events of the project", "is": have, "must be": self.tracked})) }
        let mut got = profiles;
        for p in &mut got { p.group = place[p.group].ok_or(json!(format!("a profile of group {}, which is no group of the project", p.group)))?; }
        got.sort();
        let bad = |what: &str| json!({"what": what, "stored": got.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>(), "must be stored": self.profiles.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>()});
        if got.len() != self.profiles.len() { return Err(bad("the number of profiles")) }
        let mut used = BTreeSet::new();
        for p in &got {
            // by its name: the model's number is not the stored id
            let Some((k, w)) = self.profiles.iter().find(|((g, _), w)| *g == p.group && w.names.contains(&p.name)) else { return Err(bad("the name of a profile")) };
            if !used.insert(*k) { return Err(bad("two profiles of one name")) }
            if p.time < w.time.0 || p.time > w.time.1 { return Err(bad("the time of a profile")) }
            if p.props != w.props { return Err(bad("the properties of a profile")) }
            if p.group == 0 { if let Some(id) = ids.get(&k.1) { if *id != p.id { return Err(bad("the id of the profile of a user")) } } }
            // the later of two has the greater version
            for o in &got { if o.group == p.group && o.name != p.name {
                if let Some((_, ow)) = self.profiles.iter().find(|((g, _), w)| *g == o.group && w.names.contains(&o.name)) { if (o.version < p.version) != (ow.seq < w.seq) { return Err(bad("the versions of two profiles")) } }
            } }
            n += 4 + p.props.len() as u64;
        }
        Ok(n)
    }
}
pub fn utm_name(k: &str) -> &'static str {
    use common::types::*;
    match k { "source" => EVENT_PROPERTY_UTM_SOURCE, "medium" => EVENT_PROPERTY_UTM_MEDIUM, "campaign" => EVENT_PROPERTY_UTM_CAMPAIGN, "term" => EVENT_PROPERTY_UTM_TERM, _ => EVENT_PROPERTY_UTM_CONTENT }
}
