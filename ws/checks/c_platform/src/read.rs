//! What was tracked and identified, as the API shows it: records, values of properties, counts.
use crate::env::Env;
use axum::extract::ConnectInfo;
use axum::Router;
use common::types::*;
use ingester::executor::Executor;
use ingester::{Identify, Track};
use mc::Run;
use metadata::properties::{CreatePropertyRequest, DictionaryType, Status, Type};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::Arc;
use tower::ServiceExt;

const DAY: i64 = 86_400_000;
const T0: i64 = 1_704_067_200_000; // 2024-01-01
fn rfc(ms: i64) -> String { chrono::DateTime::from_timestamp_millis(ms).unwrap().to_rfc3339_opts(chrono::SecondsFormat::Millis, true) }

/// a property of a type and its values: as tracked, as shown, as a filter takes it
pub struct Kind { pub name: &'static str, t: DType, d: Option<DictionaryType>, pub vals: Vec<(J, J, J)> }
pub fn kinds() -> Vec<Kind> {
    let same = |v: Vec<J>| v.into_iter().map(|x| (x.clone(), x.clone(), x)).collect::<Vec<_>>();
    let k = |name, t, d, vals| Kind { name, t, d, vals };
    let ts = |ms: i64| (json!(rfc(ms)), json!(ms), json!(ms));
    use DictionaryType as Di;
    vec![
        k("i8", DType::Int8, None, same(vec![json!(0), json!(-128), json!(127)])), k("i16", DType::Int16, None, same(vec![json!(300), json!(0), json!(-1)])),
        k("i32", DType::Int32, None, same(vec![json!(0), json!(-2147483648i64), json!(100000)])), k("i64", DType::Int64, None, same(vec![json!(9007199254740993i64), json!(-5), json!(0)])),
        k("dec", DType::Decimal, None, vec![(json!(0), json!(0.0), json!(0)), (json!(12.3456), json!(12.346), json!(12.3456)), (json!(-0.25), json!(-0.25), json!(-0.25))]),
        k("bool", DType::Boolean, None, same(vec![json!(true), json!(false), json!(true)])),
        k("ts", DType::Timestamp, None, vec![ts(T0), ts(T0 - 1), ts(1)]),
        k("str", DType::String, None, same(vec![json!("b"), json!(""), json!("é%")])),
        k("d8", DType::String, Some(Di::Int8), same(vec![json!("z"), json!("a"), json!("m")])), k("d16", DType::String, Some(Di::Int16), same(vec![json!("a b"), json!(""), json!("ä")])),
        k("d32", DType::String, Some(Di::Int32), same(vec![json!("q"), json!("p"), json!("o")])), k("d64", DType::String, Some(Di::Int64), same(vec![json!("1"), json!("null"), json!("x")])),
    ]
}
/// the value of the kind `t` for the choice `a`
fn pick(t: usize, a: usize) -> Option<usize> { let i = (a + t) % 4; (i < 3).then_some(i) }
type Choices = Vec<Option<usize>>;

pub struct Both { pub env: Env, ing: Router }
impl Both {
    pub fn new() -> Both { Both::over(Env::new()) }
    pub fn over(env: Env) -> Both {
        let t = Executor::<Track>::new(vec![], vec![Arc::new(ingester::destinations::local::track::Local::new(env.opti.clone(), env.md.clone()))], env.opti.clone(), env.md.clone());
        let i = Executor::<Identify>::new(vec![], vec![Arc::new(ingester::destinations::local::identify::Local::new(env.opti.clone(), env.md.clone()))], env.opti.clone(), env.md.clone());
        let ing = ingester::sources::http::attach_routes(Router::new(), t, i);
        Both { env, ing }
    }
    pub fn post(&self, token: &str, what: &str, body: &J) -> Result<(), J> {
        let r = mc::guard(|| {
            let req = axum::http::Request::builder().method("POST").uri(format!("/api/v1/ingest/{token}/{what}")).header("content-type", "application/json")
                .extension(ConnectInfo(SocketAddr::from(([127, 0, 0, 9], 4000)))).body(axum::body::Body::from(body.to_string())).unwrap();
            futures::executor::block_on(self.ing.clone().oneshot(req)).unwrap().status().as_u16()
        });
        match r { Ok(s) if (200..300).contains(&s) => Ok(()), o => Err(json!({"what": what, "sent": body, "answer": format!("{o:?}")})) }
    }
    pub fn project(&self, n: usize, kinds: &[Kind]) -> (u64, String) {
        let a = self.env.call("POST", "/api/v1/projects", Some(&self.env.token(1, 1)), Some(&json!({"name": format!("p{n}")}))).unwrap();
        let pid = a.body["id"].as_u64().unwrap_or_else(|| panic!("{a:?}"));
        let token = self.env.md.projects.get_by_id(pid).unwrap().token;
        self.properties(pid, kinds);
        (pid, token)
    }
    pub fn properties(&self, pid: u64, kinds: &[Kind]) {
        let md = &self.env.md;
        for k in kinds {
            let req = |typ: Type| CreatePropertyRequest { created_by: 1, tags: None, name: k.name.to_string(), description: None, display_name: None, typ, data_type: k.t.clone(), status: Status::Enabled, hidden: false, is_system: false, nullable: true, is_array: false, is_dictionary: k.d.is_some(), dictionary_type: k.d.clone() };
            md.event_properties.create(pid, req(Type::Event)).unwrap();
            for g in 0..2 { md.group_properties[g].create(pid, req(Type::Group(g))).unwrap(); }
        }
    }
}

/// a column of an answer: its property and its cells
type Cols = BTreeMap<(String, i64), Vec<J>>;
fn cols(body: &J) -> Result<Cols, J> {
    let mut out = Cols::new();
    for c in body["columns"].as_array().ok_or(json!({"no columns": body}))? {
        let key = match c["propertyType"].as_str() { Some("event") => (c["propertyName"].as_str().unwrap().to_string(), -1), Some("group") => (c["propertyName"].as_str().unwrap().to_string(), c["group"].as_i64().unwrap()), _ => (c["name"].as_str().unwrap().to_string(), -2) };
        if out.insert(key.clone(), c["data"].as_array().unwrap().clone()).is_some() { return Err(json!({"a column twice": format!("{key:?}")})) }
    }
    Ok(out)
}
fn same(a: &J, b: &J) -> bool { a == b || match (a, b) { (J::Number(x), J::Number(y)) => x.as_i64().is_none_or(|x| y.as_i64().is_none_or(|y| x == y)) && x.as_f64() == y.as_f64(), _ => false } }
fn sames(a: &[J], b: &[J]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)) }

/// what was tracked: who, when, with what of each kind; None: an event of another name
#[derive(Clone, Debug)]
pub struct Ev { user: usize, company: Option<usize>, time: i64, name: &'static str, props: Choices }
pub struct World { users: [Choices; 2], companies: [Choices; 2], events: Vec<Ev> }
pub fn world(a: [usize; 3], nk: usize) -> World {
    let ch = |a: usize| (0..nk).map(|t| pick(t, a)).collect::<Choices>();
    World { users: [ch(a[2]), ch(a[0])], companies: [ch(a[1]), ch(3 - a[1])],
        events: vec![Ev { user: 0, company: Some(0), time: T0, name: "e", props: ch(a[0]) }, Ev { user: 1, company: None, time: T0 + DAY, name: "f", props: ch(a[1]) }, Ev { user: 0, company: Some(1), time: T0 + 2 * DAY, name: "e", props: ch(a[2]) }] }
}
fn props(kinds: &[Kind], c: &Choices) -> J { J::Object(kinds.iter().zip(c).filter_map(|(k, c)| c.map(|c| (k.name.to_string(), k.vals[c].0.clone()))).collect()) }
impl Kind { fn label(&self, v: Option<usize>) -> J { shown(self, v) } }
impl World {
    pub fn send(&self, b: &Both, token: &str, kinds: &[Kind]) -> Result<(), J> {
        for (u, c) in self.users.iter().enumerate() { b.post(token, "identify", &json!({"group": "user", "id": format!("u{u}"), "context": {}, "timestamp": rfc(T0 - DAY + u as i64), "properties": props(kinds, c)}))?; }
        for (u, c) in self.companies.iter().enumerate() { b.post(token, "identify", &json!({"group": "company", "id": format!("c{u}"), "context": {}, "timestamp": rfc(T0 - DAY + 10 + u as i64), "properties": props(kinds, c)}))?; }
        for e in &self.events {
            let mut j = json!({"event": e.name, "userId": format!("u{}", e.user), "context": {}, "timestamp": rfc(e.time), "properties": props(kinds, &e.props)});
            if let Some(c) = e.company { j["groups"] = json!({"company": format!("c{c}")}); }
            b.post(token, "track", &j)?;
        }
        Ok(())
    }
    /// what an event says of a kind: group -1 its own, 0 of its user, 1 of its company
    fn has(&self, e: &Ev, group: i64, k: usize) -> Option<usize> {
        match group { -1 => e.props[k], 0 => e.company.and(self.users[e.user][k]), _ => e.company.and_then(|c| self.companies[c][k]) }
    }
}
fn pref(group: i64, name: &str) -> J { if group < 0 { json!({"propertyType": "event", "propertyName": name}) } else { json!({"propertyType": "group", "propertyName": name, "group": group}) } }
fn with(mut a: J, b: &J) -> J { for (k, v) in b.as_object().unwrap() { a[k] = v.clone(); } a }
fn filter(group: i64, name: &str, op: &str, value: Option<Vec<J>>) -> J { let f = with(json!({"type": "property", "operation": op}), &pref(group, name)); match value { Some(v) => with(f, &json!({"value": v})), None => f } }

struct Api<'a> { run: &'a Run, env: &'a Env, pid: u64, token: String, asked: std::cell::Cell<usize> }
impl Api<'_> {
    fn ask(&self, method: &str, path: &str, body: Option<&J>) -> Result<J, J> {
        self.run.transitions(1);
        let path = format!("/api/v1/projects/{}{path}", self.pid);
        match self.env.call(method, &path, Some(&self.token), body) { Ok(a) if a.ok() => Ok(a.body), o => Err(json!({"asked": format!("{method} {path}"), "with": body, "answer": format!("{o:?}")})) }
    }
    /// the same in the compact format: the cells of the same columns, in the same order
    fn both(&self, path: &str, body: &J) -> Result<Cols, J> {
        let a = self.ask("POST", path, Some(body))?;
        // in quick, of every third search
        self.asked.set(self.asked.get() + 1);
        if !self.run.thorough() && self.asked.get() % 3 > 0 { return cols(&a) }
        let b = self.ask("POST", &format!("{path}?format=jsonCompact"), Some(body))?;
        let data = a["columns"].as_array().map(|l| J::Array(l.iter().map(|c| c["data"].clone()).collect())).unwrap_or(J::Null);
        if data != b { return Err(json!({"asked": body, "path": path, "compact": b, "must be": data})) }
        cols(&a)
    }
    fn search(&self, body: &J) -> Result<Cols, J> { self.both("/event-records/search", body) }
}
fn time() -> J { json!({"type": "between", "from": rfc(T0 - DAY), "to": rfc(T0 + 5 * DAY)}) }
fn event(name: &str) -> J { json!({"eventType": "regular", "eventName": name}) }

fn err(asked: &J, is: impl std::fmt::Debug, must: impl std::fmt::Debug) -> J { json!({"asked": asked, "is": format!("{is:?}"), "must be": format!("{must:?}")}) }

/// whether a filter keeps the value (by its place) of a kind
fn keeps(k: &Kind, v: Option<usize>, op: &str, with: &[usize]) -> bool {
    let at = |i: usize| &k.vals[i].1;
    let cmp = |a: usize, b: usize| match (&k.t, at(a), at(b)) { (_, J::Number(a), J::Number(b)) => match (a.as_i64(), b.as_i64()) { (Some(a), Some(b)) => a.cmp(&b), _ => a.as_f64().unwrap().partial_cmp(&b.as_f64().unwrap()).unwrap() }, o => panic!("{o:?}") };
    match (op, v) {
        ("exists", v) => v.is_some(), ("empty", v) => v.is_none(), (_, None) => false,
        ("eq" | "like", Some(v)) => with.iter().any(|w| at(*w) == at(v)), ("neq" | "notLike", Some(v)) => !with.iter().any(|w| at(*w) == at(v)),
        ("true", Some(v)) => *at(v) == json!(true), ("false", Some(v)) => *at(v) == json!(false),
        ("gt", Some(v)) => with.iter().any(|w| cmp(v, *w).is_gt()), ("gte", Some(v)) => with.iter().any(|w| cmp(v, *w).is_ge()),
        ("lt", Some(v)) => with.iter().any(|w| cmp(v, *w).is_lt()), ("lte", Some(v)) => with.iter().any(|w| cmp(v, *w).is_le()),
        o => panic!("{o:?}"),
    }
}
fn filters(k: &Kind) -> Vec<(&'static str, Option<Vec<usize>>)> {
    let mut v = vec![("exists", None), ("empty", None)];
    for i in 0..3 { v.push(("eq", Some(vec![i]))); v.push(("neq", Some(vec![i]))); }
    v.push(("eq", Some(vec![0, 2]))); v.push(("neq", Some(vec![1, 0])));
    match k.t { DType::Boolean => { v.push(("true", None)); v.push(("false", None)); } DType::String => { v.push(("like", Some(vec![0]))); v.push(("notLike", Some(vec![0]))); } _ => for op in ["gt", "gte", "lt", "lte"] { for i in 0..3 { v.push((op, Some(vec![i]))); } } }
    v
}
fn shown(k: &Kind, v: Option<usize>) -> J { v.map_or(J::Null, |v| k.vals[v].1.clone()) }

fn events(api: &Api, w: &World, kinds: &[Kind]) -> Result<(), J> {
    let mine = json!({"time": time(), "events": [{"eventType": "regular", "eventName": "e"}, {"eventType": "regular", "eventName": "f"}]});
    let latest: Vec<&Ev> = w.events.iter().rev().collect();
    let all = api.search(&mine)?;
    let id = |c: &Cols| -> Result<Vec<J>, J> { c.iter().find(|(k, _)| k.0 == COLUMN_EVENT_ID).map(|x| x.1.clone()).ok_or(json!({"no event id": c.keys().map(|k| format!("{k:?}")).collect::<Vec<_>>()})) };
    let need = |c: &Cols, k: (&str, i64), want: Vec<J>, asked: &J| -> Result<(), J> { match c.get(&(k.0.to_string(), k.1)) { Some(got) if sames(got, &want) => Ok(()), o => Err(json!({"asked": asked, "column": format!("{k:?}"), "is": o, "must be": want})) } };
    let ids = id(&all)?;
    if ids.len() != 3 { return Err(err(&mine, &ids, "3 events")) }
    // the whole record
    need(&all, (COLUMN_CREATED_AT, -1), latest.iter().map(|e| json!(e.time)).collect(), &mine)?;
    need(&all, (COLUMN_EVENT, -1), latest.iter().map(|e| json!(e.name)).collect(), &mine)?;
    need(&all, ("group_0", -1), latest.iter().map(|e| json!(format!("u{}", e.user))).collect(), &mine)?;
    for (n, k) in kinds.iter().enumerate() { for g in -1..2 { need(&all, (k.name, g), latest.iter().map(|e| shown(k, w.has(e, g, n))).collect(), &mine)?; } }
    // by its number
    for (i, e) in latest.iter().enumerate() {
        let path = format!("/event-records/{}", ids[i]);
        let got = api.ask("GET", &path, None)?;
        let mut ps: BTreeMap<(String, i64), J> = BTreeMap::new();
        for p in got["properties"].as_array().unwrap() { ps.insert((p["property"]["propertyName"].as_str().or(p["propertyName"].as_str()).unwrap_or_else(|| panic!("{p}")).to_string(), if p.get("group").or(p["property"].get("group")).is_some() { p["group"].as_i64().or(p["property"]["group"].as_i64()).unwrap() } else { -1 }), p["value"].clone()); }
        let mut want: Vec<(&str, i64, J)> = vec![(COLUMN_CREATED_AT, -1, json!(e.time)), (COLUMN_EVENT, -1, json!(e.name)), ("group_0", -1, json!(format!("u{}", e.user)))];
        for (n, k) in kinds.iter().enumerate() { for g in -1..2 { want.push((k.name, g, shown(k, w.has(e, g, n)))); } }
        for (name, g, v) in want { match ps.get(&(name.to_string(), g)) { Some(x) if same(x, &v) => {} o => return Err(json!({"asked": path, "property": name, "of group": g, "is": o, "must be": v})) } }
    }
    for (n, k) in kinds.iter().enumerate() { for g in -1..2 {
        // some of the record
        let other = (n + 5) % kinds.len();
        for asked in [vec![pref(g, k.name)], vec![pref(-1, kinds[other].name), pref(g, k.name)]] {
            let asked = json!({"time": time(), "events": mine["events"], "properties": asked});
            let got = api.search(&asked)?;
            if !sames(&id(&got)?, &ids) { return Err(err(&asked, id(&got), &ids)) }
            need(&got, (k.name, g), latest.iter().map(|e| shown(k, w.has(e, g, n))).collect(), &asked)?;
            if got.len() != asked["properties"].as_array().unwrap().len() + 1 { return Err(err(&asked, got.keys(), "as many columns as asked for")) }
        }
        // filters on it
        for (fi, (op, with)) in filters(k).into_iter().enumerate() {
            let f = filter(g, k.name, op, with.as_ref().map(|w| w.iter().map(|i| k.vals[*i].2.clone()).collect()));
            let keep = |e: &Ev| keeps(k, w.has(e, g, n), op, with.as_deref().unwrap_or(&[]));
            let want: Vec<J> = latest.iter().zip(&ids).filter(|(e, _)| keep(e)).map(|(_, i)| i.clone()).collect();
            let asked = match fi % 3 {
                0 => json!({"time": time(), "events": mine["events"], "filters": {"groups": [{"filters": [f]}]}}),
                1 => json!({"time": time(), "events": mine["events"], "filters": {"groups": [{"filters": [f]}]}, "properties": [pref(-1, kinds[other].name)]}),
                _ => json!({"time": time(), "events": [{"eventType": "regular", "eventName": "e", "filters": [f]}, {"eventType": "regular", "eventName": "f", "filters": [f]}]}),
            };
            let got = api.search(&asked)?;
            let got = if got.is_empty() { vec![] } else { id(&got)? };
            if !sames(&got, &want) { return Err(err(&asked, got, want)) }
        }
        // its values, of all events or one's
        for name in [None, Some("e"), Some("f")] {
            let mut asked = pref(g, k.name);
            if let Some(name) = name { asked = with(asked, &event(name)); }
            // without an event, those of the starts of sessions are there too, which have none or those of users
            let of: Vec<Option<usize>> = w.events.iter().filter(|e| name.is_none_or(|n| n == e.name)).map(|e| w.has(e, g, n)).collect();
            let mut want: Vec<J> = vec![];
            for v in of.iter().map(|v| shown(k, *v)) { if !want.iter().any(|x| same(x, &v)) { want.push(v); } }
            let got = api.ask("POST", "/property-values", Some(&asked))?;
            let got = got["data"].as_array().unwrap();
            let missing = want.iter().filter(|x| !got.iter().any(|y| same(x, y))).count();
            let extra = got.iter().filter(|x| !want.iter().any(|y| same(x, y)) && !(name.is_none() && x.is_null())).count();
            let twice = got.iter().enumerate().any(|(i, x)| got[..i].iter().any(|y| same(x, y)));
            if missing > 0 || extra > 0 || twice { return Err(err(&asked, got, want)) }
            if name != Some("e") { continue }
            for (op, with_) in filters(k) {
                let asked = with(asked.clone(), &json!({"filter": {"operation": op, "value": with_.as_ref().map(|w| w.iter().map(|i| k.vals[*i].2.clone()).collect::<Vec<_>>())}}));
                let mut want: Vec<J> = vec![];
                for v in &of { if keeps(k, *v, op, with_.as_deref().unwrap_or(&[])) { let v = shown(k, *v); if !want.iter().any(|x| same(x, &v)) { want.push(v); } } }
                let got = api.ask("POST", "/property-values", Some(&asked))?;
                let got = got["data"].as_array().unwrap();
                if got.len() != want.len() || want.iter().any(|x| !got.iter().any(|y| same(x, y))) { return Err(err(&asked, got, want)) }
            }
        }
        // counts by its values
        let asked = json!({"time": time(), "group": 0, "intervalUnit": "day", "chartType": "line", "analysis": {"type": "linear"}, "events": [with(event("e"), &json!({"queries": [{"type": "countEvents"}]}))], "breakdowns": [with(json!({"type": "property"}), &pref(g, k.name))]});
        let got = api.ask("POST", "/queries/event-segmentation", Some(&asked))?;
        let days: Vec<String> = (-1..=5).map(|d| rfc(T0 + d * DAY)[..10].to_string()).collect();
        let columns = got["columns"].as_array().ok_or(json!({"no columns": got}))?;
        let find = |name: &str| columns.iter().find(|c| c["name"].as_str().unwrap().starts_with(name)).ok_or(json!({"asked": asked, "no column": name, "columns": columns.iter().map(|c| c["name"].clone()).collect::<Vec<_>>()}));
        let dim = columns.iter().find(|c| c["propertyName"] == json!(k.name)).or(columns.iter().find(|c| c["type"] == json!("dimension") && c["name"] == json!(k.name))).ok_or(json!({"asked": asked, "no column of the breakdown": columns}))?["data"].as_array().unwrap().clone();
        let mut rows: Vec<(J, Vec<i64>)> = vec![];
        for d in 0..days.len() {
            let c = find(&days[d])?["data"].as_array().unwrap();
            for (r, v) in dim.iter().enumerate() { let n = c[r].as_f64().ok_or(json!({"no number": c}))? as i64; if let Some(x) = rows.iter_mut().find(|x| same(&x.0, v)) { x.1[d] += n } else { let mut l = vec![0; days.len()]; l[d] = n; rows.push((v.clone(), l)); } }
        }
        let mut want: Vec<(J, Vec<i64>)> = vec![];
        for e in w.events.iter().filter(|e| e.name == "e") { let v = k.label(w.has(e, g, n)); let d = ((e.time - T0) / DAY + 1) as usize; if let Some(x) = want.iter_mut().find(|x| same(&x.0, &v)) { x.1[d] += 1 } else { let mut l = vec![0; days.len()]; l[d] = 1; want.push((v, l)); } }
        if rows.len() != want.len() || want.iter().any(|x| !rows.iter().any(|y| same(&x.0, &y.0) && x.1 == y.1)) { return Err(err(&asked, rows, want)) }
        let c = api.ask("POST", "/queries/event-segmentation?format=jsonCompact", Some(&asked))?;
        // as one row for each value and day: segment, time, value, count
        let cs: Vec<&Vec<J>> = c.as_array().map_or(vec![], |l| l.iter().filter_map(|x| x.as_array()).collect());
        let mut got: Vec<(J, Vec<i64>)> = vec![];
        let right = cs.len() == 4 && cs.iter().all(|x| x.len() == cs[0].len());
        for r in 0..if right { cs[0].len() } else { 0 } {
            let (Some(t), Some(count)) = (cs[1][r].as_i64(), cs[3][r].as_f64()) else { return Err(json!({"asked": asked, "compact": c})) };
            let d = (t - T0).div_euclid(DAY) + 1;
            if !(0..days.len() as i64).contains(&d) { return Err(json!({"asked": asked, "compact": c})) }
            let at = got.iter().position(|x| same(&x.0, &cs[2][r])).unwrap_or_else(|| { got.push((cs[2][r].clone(), vec![0; days.len()])); got.len() - 1 });
            got[at].1[d as usize] += count as i64;
        }
        if !right || got.len() != want.len() || want.iter().any(|x| !got.iter().any(|y| same(&x.0, &y.0) && x.1 == y.1)) { return Err(json!({"asked": asked, "compact": c, "must be": format!("{want:?}")})) }
        funnels(api, w, kinds, g, n)?;
    } }
    Ok(())
}

/// A funnel from one event to the next of the same kind, broken down by a property: user 0 has two such events, a group of its own for each value.
fn funnels(api: &Api, w: &World, kinds: &[Kind], g: i64, n: usize) -> Result<(), J> {
    let k = &kinds[n];
    let step = |e: J| json!({"events": [e], "order": {"type": "exact"}});
    let label = |v: Option<usize>| v.map_or(String::new(), |v| match (&k.t, &k.vals[v].1) { (DType::Timestamp, t) => chrono::DateTime::from_timestamp_millis(t.as_i64().unwrap()).unwrap().naive_utc().format("%Y-%m-%dT%H:%M:%S%.f").to_string(), (_, J::String(s)) => s.clone(), (_, v) => v.to_string() });
    let es: Vec<Option<usize>> = w.events.iter().filter(|e| e.name == "e").map(|e| w.has(e, g, n)).collect();
    let shows: Vec<J> = es.iter().map(|v| k.label(*v)).collect();
    let one = same(&shows[0], &shows[1]);
    // (label, first step, second step, time between)
    let mut want: Vec<(String, i64, i64, i64)> = if one { vec![(label(es[0]), 1, 1, 2 * DAY)] } else { es.iter().map(|v| (label(*v), 1, 0, 0)).collect() };
    let asked = json!({"time": time(), "group": 0, "steps": [step(event("e")), step(event("e"))], "timeWindow": {"n": 5, "unit": "day"}, "chartType": {"type": "steps"}, "count": "unique", "breakdowns": [with(json!({"type": "property"}), &pref(g, k.name))]});
    let got = api.ask("POST", "/queries/funnel", Some(&asked))?;
    let num = |v: &J| v.as_f64().or(v.as_str().and_then(|s| s.parse().ok())).unwrap_or(f64::NAN);
    let eq = |a: &str, b: &str| a == b || (k.t == DType::Decimal && matches!((a.parse::<f64>(), b.parse::<f64>()), (Ok(x), Ok(y)) if x == y));
    let (a, b) = (&got["steps"][0]["data"], &got["steps"][1]["data"]);
    let (Some(a), Some(b)) = (a.as_array(), b.as_array()) else { return Err(json!({"asked": asked, "is": got})) };
    let mut ok = got["steps"].as_array().unwrap().len() == 2 && got["groups"].as_array().is_some_and(|l| l.len() == 2) && a.len() == want.len() && b.len() == want.len();
    for (x, y) in a.iter().zip(b) {
        let Some(at) = want.iter().position(|m| eq(x["groups"][1].as_str().unwrap_or("?"), &m.0)) else { ok = false; break };
        let m = want.remove(at);
        ok &= x["groups"] == y["groups"] && x["groups"][0] == json!("0") && x["total"] == json!(m.1) && y["total"] == json!(m.2) && num(&x["conversionRatio"]) == 100. && num(&x["dropOffRatio"]) == 0. && x["droppedOff"] == json!(0)
            && num(&y["conversionRatio"]) == 100. * m.2 as f64 && num(&y["dropOffRatio"]) == 100. - 100. * m.2 as f64 && y["droppedOff"] == json!(m.1 - m.2)
            && y["timeToConvert"] == json!(m.3) && y["timeToConvertFromStart"] == json!(m.3) && num(&y["avgTimeToConvert"]) == m.3 as f64 && num(&y["avgTimeToConvertFromStart"]) == m.3 as f64 && num(&x["avgTimeToConvert"]) == 0.;
    }
    if !ok { return Err(json!({"asked": asked, "is": got, "events have": format!("{es:?}")})) }
    // a filter on either step; a window too short (how often an attempt that ran out of it counts is not claimed)
    let n2 = (n + 5) % kinds.len();
    for v in 0..3 {
        if !api.run.thorough() && v != (n as i64 + g + 1) as usize % 3 { continue }
        let f = filter(-1, kinds[n2].name, "eq", Some(vec![kinds[n2].vals[v].2.clone()]));
        let second = keeps(&kinds[n2], w.events[2].props[n2], "eq", &[v]);
        let first = keeps(&kinds[n2], w.events[0].props[n2], "eq", &[v]);
        for form in 0..3 {
            let base = json!({"time": time(), "group": 0, "steps": [step(event("e")), step(event("e"))], "timeWindow": {"n": 5, "unit": "day"}, "chartType": {"type": "steps"}, "count": "unique"});
            let (asked, total): (J, Option<[i64; 2]>) = match form {
                0 => (with(base, &json!({"steps": [step(event("e")), step(with(event("e"), &json!({"filters": [f]})))]})), Some([1, second as i64])),
                1 => (with(base, &json!({"steps": [step(with(event("e"), &json!({"filters": [f]}))), step(event("e"))]})), if first || second { Some([1, first as i64]) } else { None }),
                _ => (with(base, &json!({"timeWindow": {"n": if v == 0 { 1 } else { 2 }, "unit": "day"}})), if v == 0 { Some([-1, 0]) } else { Some([1, 1]) }),
            };
            let got = api.ask("POST", "/queries/funnel", Some(&asked))?;
            let t = |i: usize| got["steps"][i]["data"][0]["total"].as_i64();
            let ok = match total { Some(w) => (w[0] < 0 || t(0) == Some(w[0])) && t(1) == Some(w[1]), None => t(0).unwrap_or(0) == 0 && t(1).unwrap_or(0) == 0 };
            if !ok { return Err(json!({"asked": asked, "is": got, "must be": total, "events": format!("{:?}", w.events)})) }
        }
    }
    Ok(())
}

/// the profiles of users and companies
fn groups(api: &Api, w: &World, kinds: &[Kind]) -> Result<(), J> {
    let ask = |body: &J| api.both("/group-records/search", body);
    for (g, letter, profiles) in [(0i64, "u", &w.users), (1, "c", &w.companies)] {
        let names = |c: &Cols| -> Result<Vec<String>, J> { if c.is_empty() { return Ok(vec![]) } Ok(c.get(&(GROUP_COLUMN_ID.to_string(), g)).ok_or(json!({"no id": c.keys().map(|k| format!("{k:?}")).collect::<Vec<_>>()}))?.iter().map(|v| v.as_str().unwrap_or("?").to_string()).collect()) };
        let name = |i: usize| format!("{letter}{i}");
        let check = |body: &J, want: Vec<usize>, sorted: bool, kinds_shown: &[usize], with_id: bool| -> Result<(), J> {
            let got = ask(body)?;
            if want.is_empty() { return if got.is_empty() { Ok(()) } else { Err(err(body, &got, "nothing")) } }
            let mut order = want.clone();
            if with_id {
                let ns = names(&got)?;
                let pos: Vec<Option<usize>> = ns.iter().map(|n| (0..2).find(|i| name(*i) == *n)).collect();
                let mut found: Vec<usize> = pos.iter().flatten().cloned().collect();
                if found.len() != ns.len() { return Err(err(body, ns, "known names")) }
                if sorted && found != want { return Err(err(body, ns, want)) }
                order = found.clone(); found.sort(); let mut w = want.clone(); w.sort();
                if found != w { return Err(err(body, ns, w)) }
            }
            for k in kinds_shown { let want: Vec<J> = order.iter().map(|i| shown(&kinds[*k], profiles[*i][*k])).collect(); match got.get(&(kinds[*k].name.to_string(), g)) { Some(x) if sames(x, &want) => {} o => return Err(json!({"asked": body, "column": kinds[*k].name, "is": o, "must be": want})) } }
            Ok(())
        };
        let every: Vec<usize> = (0..kinds.len()).collect();
        check(&json!({"group": g}), vec![0, 1], false, &every, true)?;
        check(&json!({"group": g, "time": {"type": "between", "from": rfc(T0 - DAY), "to": rfc(T0 - DAY + 10 * g)}, "filters": {"groups": []}}), vec![0], false, &every, true)?;
        for i in 0..2 {
            let path = format!("/group-records/{g}/{}", name(i));
            let got = api.ask("GET", &path, None)?;
            let ps: Vec<(&str, &J)> = got["properties"].as_array().unwrap().iter().map(|p| (p["property"]["propertyName"].as_str().or(p["propertyName"].as_str()).unwrap(), &p["value"])).collect();
            let mut want: Vec<(&str, J)> = vec![(GROUP_COLUMN_ID, json!(name(i))), (GROUP_COLUMN_CREATED_AT, json!(T0 - DAY + 10 * g + i as i64))];
            for (n, k) in kinds.iter().enumerate() { want.push((k.name, shown(k, profiles[i][n]))); }
            for (n, v) in want { match ps.iter().filter(|p| p.0 == n).collect::<Vec<_>>()[..] { [p] if same(p.1, &v) => {} ref o => return Err(json!({"asked": path, "property": n, "is": format!("{o:?}"), "must be": v})) } }
        }
        for (n, k) in kinds.iter().enumerate() {
            let other = (n + 5) % kinds.len();
            let (p, q, id) = (pref(g, k.name), pref(g, kinds[other].name), pref(g, GROUP_COLUMN_ID));
            check(&json!({"group": g, "properties": [id, q, p]}), vec![0, 1], false, &[n, other], true)?;
            for (fi, (op, with_)) in filters(k).into_iter().enumerate() {
                let f = filter(g, k.name, op, with_.as_ref().map(|w| w.iter().map(|i| k.vals[*i].2.clone()).collect()));
                let want: Vec<usize> = (0..2).filter(|i| keeps(k, profiles[*i][n], op, with_.as_deref().unwrap_or(&[]))).collect();
                let body = json!({"group": g, "filters": {"groups": [{"filters": [f]}]}});
                match fi % 2 { 0 => check(&body, want, false, &every, true)?, _ => check(&with(body, &json!({"properties": [q, id]})), want, false, &[other], true)? }
            }
            // sorted by it: of equals any may be first, who has none is last
            let rank = |i: usize| profiles[i][n].map(|v| k.vals[v].1.clone());
            for (d, dir) in ["asc", "desc"].into_iter().enumerate() {
                let body = json!({"group": g, "sort": with(p.clone(), &json!({"direction": dir}))});
                let body = match (n + d) % 2 { 0 => body, _ => with(body, &json!({"properties": [id, q]})) };
                let less = |a: &J, b: &J| match (a, b) { (J::Number(a), J::Number(b)) => a.as_f64() < b.as_f64(), (J::String(a), J::String(b)) => a < b, (J::Bool(a), J::Bool(b)) => a < b, o => panic!("{o:?}") };
                let want = match (rank(0), rank(1)) { (Some(a), Some(b)) if a == b => None, (None, None) => None, (Some(_), None) => Some(vec![0, 1]), (None, Some(_)) => Some(vec![1, 0]), (Some(a), Some(b)) => Some(if less(&a, &b) == (d == 0) { vec![0, 1] } else { vec![1, 0] }) };
                let sorted = want.is_some();
                check(&body, want.unwrap_or(vec![0, 1]), sorted, &[other], true)?;
            }
        }
    }
    Ok(())
}

/// what asks for nothing the project has is refused, not answered
fn odd(api: &Api) -> Result<(), J> {
    let bad = |path: &str, body: J| -> Result<(), J> {
        api.run.transitions(1);
        match api.env.call("POST", &format!("/api/v1/projects/{}{path}", api.pid), Some(&api.token), Some(&body)) { Ok(a) if (400..500).contains(&a.status) => Ok(()), o => Err(json!({"asked": path, "with": body, "must be": "refused", "is": format!("{o:?}")})) }
    };
    for ops in [("gt", "str"), ("like", "i8"), ("true", "ts")] { bad("/event-records/search", json!({"time": time(), "filters": {"groups": [{"filters": [filter(-1, ops.1, ops.0, Some(vec![json!(1)]))]}]}}))?; }
    for (p, v) in [("str", json!(1)), ("i8", json!("x")), ("bool", json!(1)), ("nosuch", json!(1)), ("d8", json!(true))] {
        let f = filter(-1, p, "eq", Some(vec![v.clone()]));
        bad("/event-records/search", json!({"time": time(), "filters": {"groups": [{"filters": [f]}]}}))?;
        bad("/event-records/search", json!({"time": time(), "events": [with(event("e"), &json!({"filters": [f]}))]}))?;
        bad("/property-values", with(pref(-1, p), &json!({"filter": {"operation": "eq", "value": [v]}})))?;
        bad("/group-records/search", json!({"group": 0, "filters": {"groups": [{"filters": [filter(0, p, "eq", Some(vec![v]))]}]}}))?;
    }
    bad("/event-records/search", json!({"time": time(), "events": [event("nosuch")]}))?;
    bad("/event-records/search", json!({"time": {"type": "between", "from": rfc(T0 + 1), "to": rfc(T0)}}))?;
    bad("/property-values", with(pref(-1, "i8"), &event("nosuch")))?;
    bad("/group-records/search", json!({"group": 0, "properties": [pref(0, "nosuch")]}))
}

/// values of properties of custom events, whose filters are on other properties
fn customs(api: &Api, w: &World, kinds: &[Kind]) -> Result<(), J> {
    for (n, k) in kinds.iter().enumerate() {
        let of = (n + 3) % kinds.len();
        let (op, v) = if kinds[of].t == DType::String { ("like", 0) } else { ("eq", 1) };
        let f = filter(-1, kinds[of].name, op, Some(vec![kinds[of].vals[v].2.clone()]));
        let id = api.ask("POST", "/schema/custom-events", Some(&json!({"name": format!("c{n}"), "status": "enabled", "isSystem": false, "events": [with(event("e"), &json!({"filters": [f]}))]})))?["id"].as_u64().unwrap();
        for p in [n, of] {
            let asked = with(pref(-1, kinds[p].name), &json!({"eventType": "custom", "eventId": id}));
            let mut want: Vec<J> = vec![];
            for e in w.events.iter().filter(|e| e.name == "e" && keeps(&kinds[of], e.props[of], "eq", &[v])) { let v = shown(&kinds[p], e.props[p]); if !want.iter().any(|x| same(x, &v)) { want.push(v); } }
            let got = api.ask("POST", "/property-values", Some(&asked))?;
            let got = got["data"].as_array().unwrap();
            if got.len() != want.len() || want.iter().any(|x| !got.iter().any(|y| same(x, y))) { return Err(json!({"asked": asked, "custom event": f, "is": got, "must be": want})) }
        }
        let _ = k;
    }
    Ok(())
}

/// Histories of events with names and properties like those of the server, and of events deleted and tracked again: each record keeps its name and user.
fn names(run: &Arc<Run>) {
    run.phase("names");
    const OPS: usize = 9;
    let depth = if run.thorough() { 4 } else { 3 };
    let total = mc::pow(OPS, depth);
    let chunks = 16;
    mc::par(chunks, |c| {
        let mut b = Both::new();
        b.env.account("a@b.c", Some(common::rbac::Role::Admin), vec![(1, common::rbac::OrganizationRole::Owner)], vec![]);
        for i in (c..total).step_by(chunks) {
            if i / chunks % 40 == 39 { b = Both::new(); b.env.account("a@b.c", Some(common::rbac::Role::Admin), vec![(1, common::rbac::OrganizationRole::Owner)], vec![]); }
            let seq = mc::seq_of(i, OPS, depth);
            run.states(1); run.validated(1);
            run.case(|| format!("names {seq:?}"), || {
                let (pid, token) = b.project(i, &[]);
                let api = Api { run, env: &b.env, pid, token: b.env.token(1, 1), asked: Default::default() };
                // when, name (None: of a deleted event), user
                let mut want: Vec<(i64, &str, &str)> = vec![];
                let mut gone: Vec<(i64, &str)> = vec![];
                let mut known: Vec<&str> = vec![];
                let mut did = vec![];
                let mut profile = false;
                // at last an event of a new name: the numbers of names must not have come apart
                for (n, op) in seq.iter().copied().chain([9]).enumerate() {
                    run.transitions(1);
                    let t = T0 + n as i64 * 1000;
                    let track = |name: &str, user: &str, props: J| { let mut j = json!({"event": name, "context": {}, "timestamp": rfc(t), "properties": props}); j[if user == "an" { "anonymousId" } else { "userId" }] = json!(user); j };
                    let (name, user, j) = match op {
                        0 => ("a", "u0", track("a", "u0", json!({"p": "x"}))),
                        1 => ("b", "u1", track("b", "u1", json!({}))),
                        2 => ("a", "u1", track("a", "u1", json!({"event": "zz", "p": "y"}))),
                        3 => ("c", "u0", track("c", "u0", json!({"group_0": "zz", "group_1": "yy", "project_id": "xx"}))),
                        4 => {
                            let id = api.ask("GET", "/schema/events/name/a", None).ok().map(|x| x["id"].as_u64().unwrap());
                            match id { Some(id) => { api.ask("DELETE", &format!("/schema/events/{id}"), None)?; known.retain(|x| *x != "a"); for w in want.iter().filter(|w| w.1 == "a") { gone.push((w.0, w.2)); } want.retain(|w| w.1 != "a"); did.push(json!("deleted a")); } None => if known.contains(&"a") { return Err(json!("an event is not found by name")) } }
                            continue
                        }
                        5 => ("b", "an", track("b", "an", json!({}))),
                        6 => ("d", "u0", track("d", "u0", json!({"created_at": "2020-01-01T00:00:00Z", "event_id": 7}))),
                        7 => { let mut j = track("a", "u0", json!({"p": "zz"})); j["groups"] = json!({"company": "zz"}); ("a", "u0", j) }
                        8 => ("zz", "u1", track("zz", "u1", json!({"event": "zz", "name": "zz"}))),
                        _ => ("new", "u1", track("new", "u1", json!({}))),
                    };
                    if op == 8 {
                        let j = json!({"group": "user", "id": "u1", "context": {}, "timestamp": rfc(t), "properties": {"id": "zz", "project_id": "yy", "p": "x"}});
                        if let Err(e) = b.post(&token, "identify", &j) { return Err(json!({"history": did, "refused": e})) }
                        did.push(j); profile = true;
                    }
                    let sent = b.post(&token, "track", &j);
                    did.push(j);
                    if sent.is_ok() { want.push((t, name, user)); known.push(name); } else if ![3, 6].contains(&op) { return Err(json!({"history": did, "refused": format!("{sent:?}")})) }
                }
                if i % 97 == 0 { run.sample(json!(did)); }
                let read = |body: &J| -> Result<Vec<(i64, String, String)>, J> {
                    let c = api.search(body).map_err(|e| json!({"history": did, "search": e}))?;
                    let col = |n: &str| c.get(&(n.to_string(), -1)).cloned().unwrap_or_default();
                    let (ts, es, us) = (col(COLUMN_CREATED_AT), col(COLUMN_EVENT), col("group_0"));
                    if ts.len() != es.len() || us.len() != ts.len() { return Err(json!({"history": did, "asked": body, "is": format!("{c:?}")})) }
                    let mut l: Vec<(i64, String, String)> = (0..ts.len()).map(|i| (ts[i].as_i64().unwrap_or(-1), es[i].as_str().unwrap_or("?").to_string(), us[i].as_str().unwrap_or("?").to_string())).collect();
                    l.sort(); Ok(l)
                };
                let body = json!({"time": time()});
                let mut got = read(&body)?;
                // the beginning of each user's session
                for u in ["u0", "u1", "an"] { if let Some(t) = want.iter().map(|w| (w.0, w.2)).chain(gone.iter().copied()).filter(|w| w.1 == u).map(|w| w.0).min() { if let Some(at) = got.iter().position(|g| *g == (t, "Session Begin".to_string(), u.to_string())) { got.remove(at); } else { return Err(json!({"history": did, "no session of": u, "is": got})) } } }
                for (t, u) in &gone { match got.iter().position(|g| g.0 == *t && g.2 == *u && ["a", "?", ""].contains(&&*g.1)) { Some(at) => { got.remove(at); } None => return Err(json!({"history": did, "record of a deleted event": [json!(t), json!(u)], "is": got})) } }
                let all: Vec<(i64, String, String)> = want.iter().map(|w| (w.0, w.1.to_string(), w.2.to_string())).collect();
                if got != all { return Err(json!({"history": did, "is": got, "must be": all})) }
                if profile {
                        let c = api.both("/group-records/search", &json!({"group": 0}))?;
                        for (col, v) in [(GROUP_COLUMN_ID, "u1"), ("p", "x")] { if c.get(&(col.to_string(), 0)) != Some(&vec![json!(v)]) { return Err(json!({"history": did, "column": col, "profiles": format!("{c:?}"), "must be": v})) } }
                }
                for name in ["a", "b", "c", "d", "zz", "new"] {
                    if !known.contains(&name) { continue }
                    let body = json!({"time": time(), "events": [event(name)]});
                    let got = read(&body)?;
                    let w: Vec<&(i64, String, String)> = all.iter().filter(|x| x.1 == name).collect();
                    if got.iter().collect::<Vec<_>>() != w { return Err(json!({"history": did, "asked": body, "is": got, "must be": w})) }
                }
                Ok(())
            });
        }
    });
}

pub fn p04(run: &Arc<Run>) {
    names(run);
    let ks = kinds();
    // every choice for each two of the three events, or for all three
    let worlds: Vec<[usize; 3]> = (0..64).map(|i| [i % 4, i / 4 % 4, i / 16]).filter(|a| run.thorough() || (a[0] + a[1] + a[2]) % 4 == 0).collect();
    run.phase("worlds");
    let n = worlds.len();
    let per = n / 8;
    mc::par(n / per, |c| {
        let b = Both::new();
        b.env.account("a@b.c", Some(common::rbac::Role::Admin), vec![(1, common::rbac::OrganizationRole::Owner)], vec![]);
        for i in c * per..(c + 1) * per {
            let (pid, token) = b.project(i, &ks);
            let w = world(worlds[i], ks.len());
            let api = Api { run, env: &b.env, pid, token: b.env.token(1, 1), asked: Default::default() };
            run.states(1);
            let ok = run.case(|| format!("world {:?}", worlds[i]), || { w.send(&b, &token, &ks)?; if i % 4 == 0 { run.sample(json!(format!("{:?} {:?} {:?}", w.users, w.companies, w.events))); } odd(&api)?; groups(&api, &w, &ks)?; customs(&api, &w, &ks)?; events(&api, &w, &ks) });
            run.validated(1);
            if !ok { break }
        }
    });
}
