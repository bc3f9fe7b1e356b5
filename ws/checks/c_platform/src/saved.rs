//! P03: what is saved over the API is what is read back, and an update changes exactly the fields it names.
use crate::env::*;
use common::rbac::Role;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

/// null and empty lists are absent; numbers by value; instants by their place in time
pub fn norm(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), norm(v))).filter(|(_, v)| !v.is_null() && *v != json!([])).collect()),
        Value::Array(a) => Value::Array(a.iter().map(norm).collect()),
        Value::Number(n) => match (n.as_i64(), n.as_f64().unwrap()) { (Some(_), _) => v.clone(), (_, f) if f.fract() == 0.0 && f.abs() < 9e18 => json!(f as i64), (_, f) => json!(f) },
        Value::String(s) => match chrono::DateTime::parse_from_rfc3339(s) { Ok(d) => json!({"instant": d.timestamp_nanos_opt().unwrap_or(0).to_string()}), _ => v.clone() },
        _ => v.clone(),
    }
}
/// A filter group has and as its default, several groups are not kept (a definition has one list of filters).
fn norm_query(v: &Value) -> Value {
    let mut v = norm(v);
    if let Some(f) = v.get_mut("filters").and_then(|f| f.as_object_mut()) {
        f.remove("groupsCondition");
        for g in f["groups"].as_array_mut().unwrap() { g["filtersCondition"] = json!("and"); }
    }
    v
}
fn units() -> Vec<&'static str> { vec!["hour", "day", "week", "month", "year"] }
fn times() -> Vec<Value> {
    let mut l = vec![];
    for (f, t) in [("2021-09-08T13:42:00Z", "2021-09-08T13:48:00.123Z"), ("1970-01-01T00:00:00Z", "2038-01-19T03:14:07.999999Z"), ("1969-12-31T23:59:59.999Z", "1969-12-31T23:59:59.999Z")] { l.push(json!({"type": "between", "from": f, "to": t})); l.push(json!({"type": "from", "from": f})); }
    for u in units() { for n in [0i64, 1, 30, i32::MAX as i64 + 1] { l.push(json!({"type": "last", "last": n, "unit": u})); } }
    l
}
fn values() -> Vec<Value> {
    vec![json!(true), json!(false), json!(""), json!("x"), json!("Ünï \"q\" \n"), json!("2021-09-08"), json!(0), json!(1), json!(-1), json!(127), json!(0.1), json!(-0.5), json!(1.25), json!(123456.789), json!(0.000001), json!(i32::MAX), json!(1700000000000i64),
        json!(9007199254740993i64), json!(-9223372036854775807i64), json!(1e15), json!(99999999999999.9), json!(1234567890.12345), json!(null)]
}
fn refs() -> Vec<Value> {
    let mut l = vec![json!({"propertyType": "event", "propertyName": "p"}), json!({"propertyType": "event", "propertyName": "Ünï p"}), json!({"propertyType": "custom", "propertyId": 7})];
    for g in 0..5 { l.push(json!({"propertyType": "group", "propertyName": "g p", "group": g})); }
    l
}
fn evrefs() -> Vec<Value> { vec![json!({"eventType": "regular", "eventName": "e"}), json!({"eventType": "regular", "eventName": "Event Two"}), json!({"eventType": "custom", "eventId": 3})] }
fn with(a: &Value, b: Value) -> Value { let mut m = a.as_object().unwrap().clone(); m.extend(b.as_object().unwrap().clone()); Value::Object(m) }
const OPS: [&str; 14] = ["eq", "neq", "gt", "gte", "lt", "lte", "true", "false", "exists", "empty", "regex", "like", "notLike", "notRegex"];
fn filters() -> Vec<Value> {
    let mut l = vec![];
    let f = |r: &Value, o: &str, v: Option<Value>| { let x = with(r, json!({"type": "property", "operation": o})); match v { Some(v) => with(&x, json!({"value": v})), None => x } };
    for r in refs() { l.push(f(&r, "eq", Some(json!(["x"])))); }
    let r = &refs()[0];
    for o in OPS { l.push(f(r, o, Some(json!([1.5, 2])))); l.push(f(r, o, None)); }
    for v in values() { l.push(f(r, "eq", Some(json!([v])))); l.push(f(r, "neq", Some(json!(["z", v, 4])))); }
    l
}
fn breakdowns() -> Vec<Value> {
    let mut l: Vec<Value> = refs().iter().map(|r| json!([with(r, json!({"type": "property"}))])).collect();
    l.push(Value::Array(refs().iter().map(|r| with(r, json!({"type": "property"}))).collect()));
    l
}
fn grouped() -> Vec<Value> {
    let mut l: Vec<Value> = filters().into_iter().map(|f| json!({"groupsCondition": "and", "groups": [{"filtersCondition": "and", "filters": [f]}]})).collect();
    let f = filters();
    l.push(json!({"groups": [{"filters": [f[0], f[1], f[9]]}]}));
    l.push(json!({"groupsCondition": "or", "groups": [{"filtersCondition": "and", "filters": [f[3], f[3]]}]}));
    l
}
fn segtimes() -> Vec<Value> {
    let mut l = vec![json!({"type": "between", "from": "2021-09-08T13:42:00Z", "to": "2022-09-08T13:42:00Z"})];
    for u in units() { l.push(json!({"type": "last", "last": 3, "unit": u})); l.push(json!({"type": "afterFirstUse", "within": 4, "unit": u})); l.push(json!({"type": "windowEach", "n": 5, "unit": u})); }
    l
}
fn conditions() -> Vec<Value> {
    let mut l = vec![];
    let t = &segtimes()[0];
    let prop = &refs()[0];
    for r in refs() { l.push(json!({"type": "hasPropertyValue", "property": r, "operation": "eq", "value": ["x"]})); l.push(json!({"type": "hadPropertyValue", "property": r, "operation": "neq", "value": [1.5], "time": t})); }
    for o in OPS { l.push(json!({"type": "hasPropertyValue", "property": prop, "operation": o})); l.push(json!({"type": "hadPropertyValue", "property": prop, "operation": o, "value": [true], "time": t})); }
    for v in values() { l.push(json!({"type": "hasPropertyValue", "property": prop, "operation": "eq", "value": [v]})); l.push(json!({"type": "hadPropertyValue", "property": prop, "operation": "eq", "value": [v, 1], "time": t})); }
    for t in segtimes() { l.push(json!({"type": "hadPropertyValue", "property": prop, "operation": "eq", "value": [1], "time": t})); }
    let aggs: Vec<Value> = segtimes().iter().map(|t| json!({"type": "count", "operation": "gt", "value": 3, "time": t})).chain([
        json!({"type": "historicalCount", "operation": "lte", "value": 8, "time": t}),
        json!({"type": "relativeCount", "eventType": "regular", "eventName": "f", "operation": "lt", "filters": [filters()[0]], "time": t}),
        json!({"type": "relativeCount", "eventType": "custom", "eventId": 9, "operation": "gte", "time": t}),
    ]).chain(["min", "max", "sum", "avg", "median", "distinctCount", "percentile25", "percentile75", "percentile90", "percentile99"].map(|a| with(prop, json!({"type": "aggregateProperty", "aggregate": a, "operation": "eq", "value": 2.5, "time": t}))))
        .chain(refs().iter().map(|r| with(r, json!({"type": "aggregateProperty", "aggregate": "sum", "operation": "gt", "time": t})))).collect();
    for a in aggs { l.push(json!({"type": "didEvent", "eventType": "regular", "eventName": "e", "aggregate": a})); }
    for e in evrefs() { l.push(with(&e, json!({"type": "didEvent", "filters": [filters()[0], filters()[9]], "aggregate": {"type": "count", "operation": "eq", "value": 0, "time": t}}))); }
    l
}
fn segments() -> Vec<Value> {
    let c = conditions();
    let mut l: Vec<Value> = c.iter().map(|c| json!([{"name": "s", "conditions": [[c]]}])).collect();
    l.push(json!([{"name": "one", "conditions": [[c[0], c[1]], [c[2]]]}, {"name": "two", "conditions": []}, {"name": "three", "conditions": [[c[3]]]}]));
    l
}
fn segmentation() -> (Value, Vec<(&'static str, Vec<Value>)>) {
    let count = json!([{"type": "countEvents"}]);
    let e = json!({"eventType": "regular", "eventName": "e"});
    let base = json!({"type": "eventSegmentation", "time": {"type": "last", "last": 3, "unit": "day"}, "group": 0, "intervalUnit": "day", "chartType": "line", "analysis": {"type": "linear"}, "events": [with(&e, json!({"queries": count}))]});
    let aggs = ["count", "sum", "min", "max", "avg"];
    let mut queries: Vec<Value> = ["countEvents", "countUniqueGroups", "dailyActiveGroups", "weeklyActiveGroups", "monthlyActiveGroups"].iter().map(|t| json!({"type": t})).collect();
    queries.push(json!({"type": "formula", "formula": "a+b"}));
    for a in aggs {
        queries.push(json!({"type": "countPerGroup", "aggregate": a}));
        for r in refs() { queries.push(with(&r, json!({"type": "aggregateProperty", "aggregate": a}))); for p in aggs { queries.push(with(&r, json!({"type": "aggregatePropertyPerGroup", "aggregate": a, "aggregatePerGroup": p}))); } }
    }
    let mut events: Vec<Value> = queries.iter().map(|q| json!([with(&e, json!({"queries": [q]}))])).collect();
    events.push(json!([with(&e, json!({"queries": queries}))]));
    for r in evrefs() { events.push(json!([with(&r, json!({"queries": count})), with(&e, json!({"queries": [queries[7], queries[9]]}))])); }
    for f in filters() { events.push(json!([with(&e, json!({"queries": count, "filters": [f]}))])); }
    events.push(json!([with(&e, json!({"queries": count, "filters": filters()}))]));
    for b in breakdowns() { events.push(json!([with(&e, json!({"queries": count, "breakdowns": b}))])); }
    let mut analysis: Vec<Value> = ["linear", "logarithmic", "cumulative"].iter().map(|t| json!({"type": t})).collect();
    let mut compare = vec![];
    for u in units() { for n in [1, 7] { analysis.push(json!({"type": "rollingAverage", "window": n, "unit": u})); compare.push(json!({"offset": n, "unit": u})); } }
    (base, vec![("time", times()), ("group", (0..5).map(|g| json!(g)).collect()), ("intervalUnit", units().iter().map(|u| json!(u)).collect()), ("chartType", vec![json!("line"), json!("column"), json!("pie")]), ("analysis", analysis), ("compare", compare),
        ("events", events), ("filters", grouped()), ("breakdowns", breakdowns()), ("segments", segments())])
}
fn funnel() -> (Value, Vec<(&'static str, Vec<Value>)>) {
    let step = json!({"events": [{"eventType": "regular", "eventName": "e"}], "order": {"type": "exact"}});
    let base = json!({"type": "funnel", "time": {"type": "last", "last": 3, "unit": "day"}, "group": 0, "steps": [step, step], "timeWindow": {"n": 1, "unit": "day"}, "chartType": {"type": "steps"}, "count": "unique"});
    let mut steps = vec![];
    for r in evrefs() { steps.push(json!([{"events": [r], "order": {"type": "exact"}}, step])); for f in filters() { steps.push(json!([step, {"events": [with(&r, json!({"filters": [f]})), r], "order": {"type": "exact"}}])); } }
    for o in [json!([]), json!([[0, 1]]), json!([[1, 0], [0, 1]]), json!([[0, 0]])] { steps.push(json!([step, {"events": [evrefs()[0]], "order": {"type": "any", "steps": o}}])); }
    let mut charts = vec![json!({"type": "steps"}), json!({"type": "frequency"})];
    let mut windows = vec![json!({"n": 1, "unit": "session"})];
    for u in units() { charts.push(json!({"type": "conversionOverTime", "intervalUnit": u})); charts.push(json!({"type": "timeToConvert", "intervalUnit": u, "minInterval": 2, "maxInterval": 5})); for n in [1, 30] { windows.push(json!({"n": n, "unit": u})); } }
    let mut exclude = vec![];
    for r in evrefs() { for s in [None, Some(json!({"type": "all"})), Some(json!({"type": "between", "from": 1, "to": 2})), Some(json!({"type": "between", "from": 2, "to": 2}))] { for f in [json!([]), json!([filters()[0], filters()[9]])] {
        let x = with(&r, json!({"filters": f}));
        exclude.push(json!([match &s { Some(s) => with(&x, json!({"steps": s})), None => x }]));
    } } }
    (base, vec![("time", times()), ("group", (0..5).map(|g| json!(g)).collect()), ("steps", steps), ("timeWindow", windows), ("chartType", charts), ("count", vec![json!("unique"), json!("nonUnique"), json!("session")]),
        ("filter", vec![json!({"type": "dropOffOnAnyStep"}), json!({"type": "dropOffOnStep", "step": 0}), json!({"type": "dropOffOnStep", "step": 1}), json!({"type": "timeToConvert", "from": 1, "to": 5})]),
        ("touch", vec![json!({"type": "first"}), json!({"type": "last"}), json!({"type": "step", "step": 1})]),
        ("holdingConstants", refs().iter().map(|r| json!([r])).chain([Value::Array(refs())]).collect()), ("exclude", exclude), ("breakdowns", breakdowns()), ("segments", segments()), ("filters", grouped())])
}

fn definitions(run: &mc::Run) {
    run.phase("definitions");
    let mut defs = vec![];
    for (base, dims) in [segmentation(), funnel()] {
        for (k, vs) in &dims { for v in vs { defs.push(with(&base, json!({*k: v}))); } }
        let cap = run.pick(4, 14);
        for i in 0..dims.len() { for j in i + 1..dims.len() { for a in pickn(&dims[i].1, cap) { for b in pickn(&dims[j].1, cap) { defs.push(with(&base, json!({dims[i].0: a, dims[j].0: b}))); } } } }
    }
    let chunk = 400;
    let n = (defs.len() + chunk - 1) / chunk;
    mc::par(n, |c| {
        let env = Env::new();
        let root = env.account("root@x.io", Some(Role::Admin), vec![], vec![]);
        let tok = env.token(root, 1);
        let call = |m: &str, p: &str, b: Option<Value>| env.call(m, &format!("/api/v1/projects/1{p}"), Some(&tok), b.as_ref());
        env.md.events.create(1, metadata::events::CreateEventRequest { created_by: 1, tags: None, name: "e".into(), display_name: None, description: None, status: metadata::events::Status::Enabled, is_system: false, event_properties: None, custom_properties: None, user_properties: None }).unwrap();
        let other = json!({"type": "eventSegmentation", "name": "other", "query": segmentation().0});
        let id = call("POST", "/reports", Some(other)).unwrap().body["id"].clone();
        for q in defs.iter().skip(c * chunk).take(chunk) {
            run.states(1); run.validated(1);
            let typ = q["type"].clone();
            let want = norm_query(q);
            let judge = |what: &str, a: Result<Answer, String>, at: &dyn Fn(&Value) -> Value| {
                run.transitions(1);
                let got = a.as_ref().map(|a| (a.ok(), norm_query(&at(&a.body)))).map_err(|e| e.clone());
                match got { Ok((true, g)) if g == want => {}, _ => { run.violation(&match &a { Err(e) => format!("{what}: {e}"), _ => what.to_string() }, json!({"definition": q, "answer": a.map(|a| json!([a.status, a.body])).unwrap_or_else(|e| json!(e))})) } }
            };
            let query = |b: &Value| b["query"].clone();
            let a = call("POST", "/reports", Some(json!({"type": typ, "name": "r", "query": q})));
            let new = a.as_ref().map(|a| a.body["id"].clone()).unwrap_or(Value::Null);
            judge("report as created", a, &query);
            judge("report read", call("GET", &format!("/reports/{new}"), None), &query);
            judge("report in the list", call("GET", "/reports", None), &|b| b["data"].as_array().and_then(|l| l.iter().find(|r| r["id"] == new)).map(|r| r["query"].clone()).unwrap_or(Value::Null));
            judge("report as updated", call("PUT", &format!("/reports/{id}"), Some(json!({"type": typ, "query": q}))), &query);
            judge("updated report read", call("GET", &format!("/reports/{id}"), None), &query);
            let a = call("POST", "/bookmarks", Some(json!({"query": q})));
            let mark = a.as_ref().map(|a| a.body["id"].as_str().unwrap_or("-").to_string()).unwrap_or_default();
            judge("bookmark as created", a, &query);
            judge("bookmark read", call("GET", &format!("/bookmarks/{mark}"), None), &query);
            judge("report as deleted", call("DELETE", &format!("/reports/{new}"), None), &query);
            // the same filters in custom events
            for f in q["events"][0]["filters"].as_array().unwrap_or(&vec![]).iter().filter(|_| typ == "eventSegmentation") {
                let c = json!({"name": "c", "status": "enabled", "isSystem": false, "events": [{"eventType": "regular", "eventName": "e", "filters": [f]}]});
                let r = call("POST", "/schema/custom-events", Some(c.clone()));
                let want = norm(&c["events"]);
                let id = r.as_ref().map(|a| a.body["id"].clone()).unwrap_or(Value::Null);
                let g = call("GET", &format!("/schema/custom-events/{id}"), None);
                for (what, a) in [("custom event as created", r), ("custom event read", g)] { match &a { Ok(a) if a.ok() && norm(&a.body["events"]) == want => {}, _ => run.violation(&match &a { Err(e) => format!("{what}: {e}"), _ => what.to_string() }, json!({"filter": f, "answer": format!("{a:?}")})) } }
                let _ = call("DELETE", &format!("/schema/custom-events/{id}"), None);
            }
            if run.wants_sample() { run.sample(q.clone()); }
        }
    });
    run.extra("definitions", json!(defs.len()));
}
fn pickn(v: &[Value], n: usize) -> Vec<&Value> { if v.len() <= n { v.iter().collect() } else { (0..n).map(|i| &v[i * (v.len() - 1) / (n - 1)]).collect() } }

/// A kind of entity over the API: of each field the values it can be set to; null clears (only where that is allowed).
struct Kind { name: &'static str, path: &'static str, create: Vec<Value>, fields: Vec<(&'static str, Vec<Value>)>, delete: bool, seed: fn(&Env), by_update: bool }
fn kinds() -> Vec<Kind> {
    let tags = vec![json!(null), json!(["a", "b"]), json!(["c"])];
    let text = vec![json!(null), json!("some text"), json!("")];
    let es = segmentation().0; let fu = funnel().0;
    let names = vec![json!("n1"), json!("n2")];
    let panel = |r: u64| json!({"type": "report", "reportId": r, "x": 1, "y": 2, "w": 3, "h": 4});
    fn none(_: &Env) {}
    fn ev(env: &Env) {
        for n in ["e", "f"] { env.md.events.create(1, metadata::events::CreateEventRequest { created_by: 1, tags: None, name: n.into(), display_name: None, description: None, status: metadata::events::Status::Enabled, is_system: false, event_properties: None, custom_properties: None, user_properties: None }).unwrap(); }
    }
    let ce = |n: &str| json!([{"eventType": "regular", "eventName": n, "filters": [{"type": "property", "propertyType": "event", "propertyName": "p", "operation": "eq", "value": [1.5, "x", true]}]}]);
    vec![
        Kind { name: "dashboard", path: "/api/v1/projects/1/dashboards", create: vec![json!({"name": "n1", "panels": []}), json!({"name": "n2", "tags": ["z"], "description": "d", "panels": [panel(1), {"type": "report", "reportId": 2, "x": 0, "y": 9, "w": 8, "h": 7}]})], delete: true, seed: none, by_update: true,
            fields: vec![("name", names.clone()), ("tags", tags.clone()), ("description", text.clone()), ("panels", vec![json!([]), json!([panel(5)]), json!([panel(6), panel(7)])])] },
        Kind { name: "report", path: "/api/v1/projects/1/reports", create: vec![json!({"name": "n1", "type": "eventSegmentation", "query": es}), json!({"name": "n2", "type": "funnel", "tags": ["z"], "description": "d", "query": fu})], delete: true, seed: none, by_update: true,
            fields: vec![("name", names.clone()), ("tags", tags.clone()), ("description", text.clone()), ("type", vec![json!("eventSegmentation"), json!("funnel")]), ("query", vec![es.clone(), fu.clone()])] },
        Kind { name: "custom event", path: "/api/v1/projects/1/schema/custom-events", create: vec![json!({"name": "c1", "status": "enabled", "isSystem": false, "events": ce("e")}), json!({"name": "c2", "tags": ["z"], "description": "d", "status": "disabled", "isSystem": true, "events": ce("f")})], delete: true, seed: ev, by_update: true,
            fields: vec![("name", vec![json!("c3"), json!("c4")]), ("tags", tags.clone()), ("description", text.clone()), ("status", vec![json!("enabled"), json!("disabled")]), ("events", vec![ce("f"), json!([{"eventType": "regular", "eventName": "f"}, {"eventType": "regular", "eventName": "e"}])])] },
        Kind { name: "event", path: "/api/v1/projects/1/schema/events", create: vec![json!({"name": "c1", "status": "enabled", "isSystem": false}), json!({"name": "c2", "displayName": "D", "tags": ["z"], "description": "d", "status": "disabled", "isSystem": true})], delete: true, seed: none, by_update: true,
            fields: vec![("displayName", vec![json!(null), json!("A name"), json!("B name")]), ("tags", tags.clone()), ("description", text.clone()), ("status", vec![json!("enabled"), json!("disabled")])] },
        Kind { name: "project", path: "/api/v1/projects", create: vec![json!({"name": "n1"}), json!({"name": "n2", "tags": ["z"], "description": "d", "sessionDurationSeconds": 5})], delete: true, seed: none, by_update: true,
            fields: vec![("name", names.clone()), ("tags", tags), ("description", text), ("sessionDurationSeconds", vec![json!(1), json!(100000)])] },
        Kind { name: "organization", path: "/api/v1/organizations", create: vec![json!({"name": "n1"}), json!({"name": "n2"})], delete: true, seed: none, by_update: true, fields: vec![("name", names)] },
    ]
}
/// each field absent or one of its values
fn updates(k: &Kind) -> Vec<Map<String, Value>> {
    let mut l = vec![Map::new()];
    for (f, vs) in &k.fields { l = l.into_iter().flat_map(|m| std::iter::once(m.clone()).chain(vs.iter().map(move |v| { let mut m = m.clone(); m.insert(f.to_string(), v.clone()); m })).collect::<Vec<_>>()).collect(); }
    l
}
fn histories(run: &mc::Run) {
    run.phase("updates");
    let kinds = kinds();
    let jobs: Vec<(usize, usize)> = (0..kinds.len()).flat_map(|k| (0..2).map(move |c| (k, c))).collect();
    let thorough = run.thorough();
    mc::par(jobs.len(), |j| {
        let (k, c) = (&kinds[jobs[j].0], jobs[j].1);
        let env = Env::new();
        let root = env.account("root@x.io", Some(Role::Admin), vec![], vec![]);
        env.md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: 1, name: "org".into() }).unwrap();
        (k.seed)(&env);
        let tok = env.token(root, 1);
        let call = |m: &str, p: &str, b: Option<&Value>| { run.transitions(1); env.call(m, p, Some(&tok), b) };
        let mut made = vec![];
        let order = if c == 0 { [0, 1] } else { [1, 0] };
        for i in order {
            match call("POST", k.path, Some(&k.create[i])) {
                Ok(a) if a.ok() => made.push((a.body["id"].as_u64().unwrap(), a.body.clone(), k.create[i].clone())),
                a => { run.violation(&format!("create {}", k.name), json!({"body": k.create[i], "answer": format!("{a:?}")})); return }
            }
        }
        let strip = |v: &Value| { let mut v = norm_query(v); let m = v.as_object_mut().unwrap(); for f in ["createdAt", "updatedAt", "updatedBy"] { m.remove(f); } if let Some(q) = m.get_mut("query") { *q = norm_query(q) } v };
        let lists = |want: &BTreeMap<u64, Value>, doing: Value| {
            for (id, w) in want { match call("GET", &format!("{}/{id}", k.path), None) { Ok(a) if a.ok() && strip(&a.body) == *w => {}, a => run.violation(&format!("{} read", k.name), json!({"after": doing, "got": format!("{a:?}"), "expected": w})) } }
            match call("GET", k.path, None) {
                Ok(a) if a.ok() && want.iter().all(|(id, w)| a.body["data"].as_array().unwrap().iter().any(|x| x["id"] == json!(id) && strip(x) == *w)) => {}
                a => run.violation(&format!("list of {}", k.name), json!({"after": doing, "got": format!("{a:?}"), "expected": want})),
            }
        };
        let mut want: BTreeMap<u64, Value> = BTreeMap::new();
        for (id, b, sent) in &made {
            let s = strip(b);
            for (f, v) in strip(sent).as_object().unwrap() { if s.get(f) != Some(v) { run.violation(&format!("{} as created", k.name), json!({"sent": sent, "got": b})); } }
            for (f, _) in &k.fields { if sent.get(*f).map_or(true, |v| v.is_null()) && *f != "sessionDurationSeconds" && s.get(*f).is_some() { run.violation(&format!("{} as created", k.name), json!({"sent": sent, "got": b})); } }
            if b["createdBy"] != json!(root) { run.violation(&format!("{} creator", k.name), json!({"got": b})); }
            want.insert(*id, s);
        }
        lists(&want, json!("creation"));
        let ids: Vec<u64> = made.iter().map(|m| m.0).collect();
        let ups = updates(k);
        let apply = |w: &Value, u: &Map<String, Value>| { let mut m = w.as_object().unwrap().clone(); for (f, v) in strip(&Value::Object(u.clone())).as_object().unwrap() { m.insert(f.clone(), v.clone()); } for (f, v) in u { if norm(v).is_null() || norm(v) == json!([]) { m.remove(f); } } Value::Object(m) };
        let start = env.db.dump();
        for (n, u) in ups.iter().enumerate() {
            run.states(1); run.validated(1);
            env.db.load(start.clone());
            let body = Value::Object(u.clone());
            let mut now = want.clone();
            let id = ids[0];
            let a = call("PUT", &format!("{}/{id}", k.path), Some(&body));
            // a name of another stays taken
            let taken = u.get("name").is_some_and(|x| matches!(k.name, "custom event" | "project" | "organization") && want[&ids[1]]["name"] == *x) || u.get("displayName").is_some_and(|x| !x.is_null() && want[&ids[1]].get("displayName") == Some(x));
            match &a {
                Ok(x) if x.ok() && taken => run.violation(&format!("{} given a taken name", k.name), json!({"body": body})),
                Ok(x) if x.ok() => { let w = apply(&now[&id], u); now.insert(id, w.clone()); if strip(&x.body) != w { run.violation(&format!("{} as updated", k.name), json!({"body": body, "got": x.body, "expected": w})); } if x.body["updatedBy"] != json!(root) || x.body["updatedAt"].is_null() { run.violation(&format!("{} updated by", k.name), json!({"body": body, "got": x.body})); } }
                Ok(_) if taken => {}
                _ => run.violation(&format!("{} update refused", k.name), json!({"body": body, "answer": format!("{a:?}")})),
            }
            lists(&now, json!({"update": body}));
            // then a second one, of the other
            let every = if thorough { 1 } else { 7 };
            let second: Vec<&Map<String, Value>> = ups.iter().enumerate().filter(|(i, _)| (i + n) % every == 0).map(|x| x.1).filter(|u| u.len() <= if thorough { 2 } else { 1 }).collect();
            let mid = env.db.dump();
            for v in second {
                env.db.load(mid.clone());
                let b2 = Value::Object(v.clone());
                let id2 = ids[1];
                let taken = v.get("name").is_some_and(|x| matches!(k.name, "custom event" | "project" | "organization") && now[&id]["name"] == *x) || v.get("displayName").is_some_and(|x| !x.is_null() && now[&id].get("displayName") == Some(x));
                let mut then = now.clone();
                match call("PUT", &format!("{}/{id2}", k.path), Some(&b2)) {
                    Ok(x) if x.ok() && !taken => { then.insert(id2, apply(&now[&id2], v)); }
                    Ok(x) if !x.ok() && taken => {}
                    a => run.violation(&format!("second {} update", k.name), json!({"first": body, "second": b2, "answer": format!("{a:?}")})),
                }
                lists(&then, json!({"update": body, "then": b2}));
                run.states(1); run.validated(1);
            }
        }
        env.db.load(start);
        if k.delete {
            match call("DELETE", &format!("{}/{}", k.path, ids[0]), None) { Ok(a) if a.ok() => {}, a => run.violation(&format!("{} deletion", k.name), json!(format!("{a:?}"))) }
            want.remove(&ids[0]);
            match call("GET", &format!("{}/{}", k.path, ids[0]), None) { Ok(a) if a.ok() => run.violation(&format!("deleted {} read", k.name), json!(a.body)), _ => {} }
            lists(&want, json!("deletion"));
            if let Ok(a) = call("GET", k.path, None) { let seen: BTreeSet<u64> = a.body["data"].as_array().unwrap().iter().filter_map(|x| x["id"].as_u64()).collect(); if seen.contains(&ids[0]) { run.violation(&format!("deleted {} listed", k.name), json!(a.body)); } }
        }
    });
}
/// Properties of events and groups over the API: each update of any field in a long history, with the same names and ids in several stores and projects.
fn properties(run: &mc::Run) {
    run.phase("properties");
    use metadata::properties::{CreatePropertyRequest, DictionaryType, Properties, Status, Type};
    use common::types::DType;
    let texts = |a: &str, b: &str| vec![None, Some(Value::Null), Some(json!(a)), Some(json!(b))];
    let mut ups: Vec<Map<String, Value>> = vec![];
    for d in texts("A", "B") { for t in [None, Some(Value::Null), Some(json!(["x", "y"]))] { for de in texts("", "text") { for st in [None, Some(json!("enabled")), Some(json!("disabled"))] {
        let mut m = Map::new();
        for (f, v) in [("displayName", &d), ("tags", &t), ("description", &de), ("status", &st)] { if let Some(v) = v { m.insert(f.into(), v.clone()); } }
        ups.push(m);
    }}}}
    let steps = if run.thorough() { 11 } else { 2 };
    mc::par(steps, |turn| {
        let env = Env::new();
        let root = env.account("root@x.io", Some(Role::Admin), vec![], vec![]);
        env.md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: 1, name: "org".into() }).unwrap();
        let tok = env.token(root, 1);
        let call = |m: &str, p: &str, b: Option<&Value>| { run.transitions(1); env.call(m, p, Some(&tok), b) };
        let stores: Vec<(u64, &str, &Properties)> = [1u64, 2].iter().flat_map(|p| [(*p, "event-properties", &*env.md.event_properties), (*p, "group-properties/0", &*env.md.group_properties[0]), (*p, "group-properties/2", &*env.md.group_properties[2])]).collect();
        let path = |s: usize| format!("/api/v1/projects/{}/schema/{}", stores[s].0, stores[s].1);
        let mut want: BTreeMap<(usize, u64), Value> = BTreeMap::new();
        let strip = |v: &Value| { let mut v = norm(v); if let Some(m) = v.as_object_mut() { for f in ["createdAt", "updatedAt", "updatedBy"] { m.remove(f); } } v };
        for (i, (p, _, md)) in stores.iter().enumerate() { for (n, dt) in [("a", DType::String), ("b", DType::Decimal), ("c d", DType::Int64)] {
            let dict = dt == DType::String;
            let made = md.create(*p, CreatePropertyRequest { created_by: root, tags: None, name: n.into(), description: None, display_name: None, typ: if i % 3 == 0 { Type::Event } else { Type::Group([0, 0, 2][i % 3]) }, data_type: dt.clone(), status: Status::Enabled, hidden: n == "b", is_system: n == "c d", nullable: true, is_array: false, is_dictionary: dict, dictionary_type: dict.then_some(DictionaryType::Int32) }).unwrap();
            let got = call("GET", &format!("{}/{}", path(i), made.id), None);
            match got {
                Ok(a) if a.ok() && a.body["name"] == json!(n) && a.body["projectId"] == json!(p) && a.body["hidden"] == json!(n == "b") && a.body["isSystem"] == json!(n == "c d") && a.body["isDictionary"] == json!(dict) && a.body["order"] == json!(made.order)
                    && a.body["status"] == json!("enabled") && a.body["createdBy"] == json!(root) && a.body.get("groupId").cloned().unwrap_or(Value::Null) == (if i % 3 == 0 { Value::Null } else { json!([0, 0, 2][i % 3]) }) => { want.insert((i, made.id), strip(&a.body)); }
                a => { run.violation("property as created", json!({"store": path(i), "name": n, "got": format!("{a:?}")})); return }
            }
        }}
        let all = |want: &BTreeMap<(usize, u64), Value>, doing: &dyn Fn() -> Value, of: usize| {
            for s in 0..stores.len() {
                let here: Vec<&Value> = want.iter().filter(|(k, _)| k.0 == s).map(|x| x.1).collect();
                match call("GET", &path(s), None) {
                    Ok(a) if a.ok() => { let mut l: Vec<Value> = a.body["data"].as_array().unwrap().iter().map(strip).collect(); l.sort_by_key(|v| v["id"].as_u64()); if l.iter().collect::<Vec<_>>() != here { run.violation("list of properties", json!({"after": doing(), "store": path(s), "got": l, "expected": here})); } }
                    a => run.violation("list of properties", json!({"after": doing(), "store": path(s), "got": format!("{a:?}")})),
                }
                if s != of && s != (of + 3) % 6 { continue }
                for ((i, id), w) in want.iter().filter(|(k, _)| k.0 == s) {
                    let n = w["name"].as_str().unwrap().replace(' ', "%20");
                    for p in [format!("{}/{id}", path(*i)), format!("{}/name/{n}", path(*i))] {
                        match call("GET", &p, None) { Ok(a) if a.ok() && strip(&a.body) == *w => {}, a => run.violation("property read", json!({"after": doing(), "path": p, "got": format!("{a:?}"), "expected": w})) }
                    }
                }
            }
        };
        let mut history: Vec<Value> = vec![];
        for n in 0..ups.len() {
            // another order of the same updates in each turn
            let u = &ups[(n * [1, 5, 7, 11, 13, 17, 19, 23, 25, 29, 31][turn]) % ups.len()];
            let s = n % stores.len();
            let ids: Vec<u64> = want.keys().filter(|k| k.0 == s).map(|k| k.1).collect();
            let id = ids[(n / stores.len()) % ids.len()];
            let taken = u.get("displayName").is_some_and(|d| !d.is_null() && want.iter().any(|(k, w)| k.0 == s && k.1 != id && w.get("displayName") == Some(d)));
            let body = Value::Object(u.clone());
            history.push(json!({"property": format!("{}/{id}", path(s)), "update": body}));
            let doing = || json!(history.iter().rev().take(8).rev().collect::<Vec<_>>());
            let a = call("PUT", &format!("{}/{id}", path(s)), Some(&body));
            match &a {
                Ok(x) if x.ok() && !taken => {
                    let m = want.get_mut(&(s, id)).unwrap().as_object_mut().unwrap();
                    for (f, v) in u { if v.is_null() { m.remove(f); } else { m.insert(f.clone(), v.clone()); } }
                    let w = Value::Object(m.clone());
                    if strip(&x.body) != strip(&w) || x.body["updatedBy"] != json!(root) || x.body["updatedAt"].is_null() { run.violation("property as updated", json!({"history": doing(), "got": x.body, "expected": w})); }
                }
                Ok(x) if !x.ok() && taken => {}
                _ => run.violation("property update", json!({"history": doing(), "taken": taken, "answer": format!("{a:?}")})),
            }
            all(&want, &doing, s);
            run.states(1); run.validated(1);
        }
        // deletions: one of each store
        for s in 0..stores.len() {
            let id = want.keys().find(|k| k.0 == s && k.1 as usize % 3 == turn % 3).unwrap().1;
            let w = want.remove(&(s, id)).unwrap();
            let doing = || json!({"deleted": format!("{}/{id}", path(s))});
            match call("DELETE", &format!("{}/{id}", path(s)), None) { Ok(a) if a.ok() && strip(&a.body) == w => {}, a => run.violation("property deletion", json!({"of": w, "answer": format!("{a:?}")})) }
            for p in [format!("{}/{id}", path(s)), format!("{}/name/{}", path(s), w["name"].as_str().unwrap().replace(' ', "%20"))] {
                match call("GET", &p, None) { Ok(a) if a.ok() => run.violation("deleted property read", json!({"path": p, "got": a.body})), Err(e) => run.violation("deleted property read", json!({"path": p, "got": e})), _ => {} }
            }
            all(&want, &doing, s);
            run.states(1); run.validated(1);
        }
    });
    // the properties of an event: every sequence of attaching and detaching
    run.phase("properties of an event");
    let depth = if run.thorough() { 4 } else { 3 };
    let env = Env::new();
    let root = env.account("root@x.io", Some(Role::Admin), vec![], vec![]);
    env.md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: 1, name: "org".into() }).unwrap();
    let tok = env.token(root, 1);
    for p in [1, 2] { for n in ["e", "f"] { env.md.events.create(p, metadata::events::CreateEventRequest { created_by: 1, tags: None, name: n.into(), display_name: None, description: None, status: metadata::events::Status::Enabled, is_system: false, event_properties: None, custom_properties: None, user_properties: (n == "f").then(|| vec![7, 8]) }).unwrap(); }
        for n in ["a", "b"] { env.md.event_properties.create(p, CreatePropertyRequest { created_by: root, tags: None, name: n.into(), description: None, display_name: None, typ: Type::Event, data_type: DType::Int64, status: Status::Enabled, hidden: false, is_system: false, nullable: true, is_array: false, is_dictionary: false, dictionary_type: None }).unwrap(); } }
    let start = env.db.dump();
    let ops: Vec<(bool, u64, u64)> = [true, false].iter().flat_map(|a| [1u64, 2].into_iter().flat_map(move |e| [1u64, 2].into_iter().map(move |p| (*a, e, p)))).collect();
    for i in 0..mc::pow(ops.len(), depth) {
        let seq: Vec<(bool, u64, u64)> = mc::seq_of(i, ops.len(), depth).into_iter().map(|o| ops[o]).collect();
        env.db.load(start.clone());
        let mut has: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        for (n, (add, e, p)) in seq.iter().enumerate() {
            run.transitions(1);
            let a = env.call(if *add { "POST" } else { "DELETE" }, &format!("/api/v1/projects/1/schema/events/{e}/properties/{p}"), Some(&tok), None);
            let l = has.entry(*e).or_default();
            let can = l.contains(p) != *add;
            match &a {
                Ok(x) if x.ok() && can => { if *add { l.push(*p) } else { l.retain(|q| q != p) } }
                Ok(x) if !x.ok() && !can => {}
                _ => run.violation(if *add { "attaching a property" } else { "detaching a property" }, json!({"sequence": format!("{:?}", &seq[..=n]), "answer": format!("{a:?}")})),
            }
        }
        for (pr, e) in [(1u64, 1u64), (1, 2), (2, 1), (2, 2)] {
            let w: BTreeSet<u64> = if pr == 1 { has.get(&e).cloned().unwrap_or_default().into_iter().collect() } else { BTreeSet::new() };
            let name = if e == 1 { "e" } else { "f" };
            for p in [format!("/api/v1/projects/{pr}/schema/events/{e}"), format!("/api/v1/projects/{pr}/schema/events/name/{name}")] {
                let a = env.call("GET", &p, Some(&tok), None);
                let list = |x: &Value| x.as_array().map_or(vec![], |l| l.iter().filter_map(|v| v.as_u64()).collect::<Vec<u64>>());
                let right = |x: &Value| { let l = list(&x["eventProperties"]); l.len() == w.len() && l.into_iter().collect::<BTreeSet<_>>() == w && list(&x["userProperties"]) == (if e == 2 { vec![7, 8] } else { vec![] }) };
                match &a { Ok(x) if x.ok() && right(&x.body) && x.body["name"] == json!(name) => {}, _ => run.violation("properties of an event", json!({"sequence": format!("{seq:?}"), "path": p, "got": format!("{a:?}"), "expected": w})) }
            }
        }
        run.states(1); run.validated(1);
    }
}
pub fn p03(run: &mc::Run) {
    definitions(run);
    properties(run);
    histories(run);
    run.assume("A definition has one list of filters, all of which apply: several groups of filters, and groups in which any filter is enough, are not implemented upstream.");
}
