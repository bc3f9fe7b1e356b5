//! P06: requests with something wrong with them are answered, and what is refused changes nothing.
use crate::access::{calls, world};
use crate::env::*;
use mc::Run;
use crate::read::{kinds, Both};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

/// what any place of a request may hold instead of what it should
fn odd() -> Vec<Value> {
    vec![json!(null), json!(true), json!(0), json!(-1), json!(1), json!(7), json!(100000), json!(3000000000u64), json!(i64::MAX), json!(u64::MAX), json!(i64::MIN), json!(0.5), json!(-1e300), json!(""), json!("x"), json!("View"), json!("9".repeat(400)), json!("\u{e9}\u{1f600} %_\\[("), json!("2021-09-08T13:42:00Z"), json!("0000-01-01T00:00:00Z"), json!("+262142-01-01T00:00:00Z"), json!([]), json!([null]), json!([[[]]]), json!({}), json!({"type": "x"})]
}
#[derive(Clone)]
enum Step { K(String), I(usize) }
fn places(v: &Value, at: Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(at.clone());
    match v {
        Value::Object(m) => for (k, x) in m { let mut a = at.clone(); a.push(Step::K(k.clone())); places(x, a, out) },
        Value::Array(l) => for (i, x) in l.iter().enumerate() { let mut a = at.clone(); a.push(Step::I(i)); places(x, a, out) },
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value { p.iter().fold(v, |v, s| match s { Step::K(k) => &mut v[k.as_str()], Step::I(i) => &mut v[*i] }) }
fn shown(p: &[Step]) -> String { p.iter().map(|s| match s { Step::K(k) => format!(".{k}"), Step::I(i) => format!("[{i}]") }).collect() }
/// every request with one place of its body replaced or removed, or an element of it twice
fn bodies(b: &Value) -> Vec<(String, Value)> {
    let mut ps = vec![];
    places(b, vec![], &mut ps);
    let mut out = vec![];
    for p in &ps {
        for o in odd() { let mut x = b.clone(); *at(&mut x, p) = o.clone(); out.push((format!("{} is {}", shown(p), o.to_string().chars().take(40).collect::<String>()), x)); }
        if let Some((last, up)) = p.split_last() {
            let mut x = b.clone();
            match last {
                Step::K(k) => { at(&mut x, up).as_object_mut().unwrap().remove(k); out.push((format!("without {}", shown(p)), x)); }
                Step::I(i) => { let l = at(&mut x, up).as_array_mut().unwrap(); let e = l[*i].clone(); l.push(e); out.push((format!("{} twice", shown(p)), x.clone())); at(&mut x, up).as_array_mut().unwrap().drain(..); out.push((format!("{} is empty", shown(up)), x)); }
            }
        }
    }
    out
}
/// the value of its filter
fn at_value(v: &mut Value) -> Option<&mut Value> {
    match v {
        Value::Object(m) => { if m.contains_key("value") { return m.get_mut("value"); } m.values_mut().find_map(at_value) }
        Value::Array(l) => l.iter_mut().find_map(at_value),
        _ => None,
    }
}
fn paths(p: &str) -> Vec<String> {
    let (path, query) = p.split_once('?').map(|(a, b)| (a, Some(b))).unwrap_or((p, None));
    let parts: Vec<&str> = path.split('/').collect();
    let mut out = vec![];
    for i in 4..parts.len() {
        for o in ["0", "3", "5", "18446744073709551615", "18446744073709551616", "-1", "x", "%00", "%C3%28", "%F0%9F%98%80", "", "View"] {
            let mut q: Vec<&str> = parts.clone();
            q[i] = o;
            out.push(format!("{}{}", q.join("/"), query.map(|q| format!("?{q}")).unwrap_or_default()));
        }
    }
    out
}
/// requests that have everything a request of their kind can have
fn rich(p: u64) -> Vec<(&'static str, String, Value)> {
    let f = json!({"type": "property", "propertyType": "event", "propertyName": "Product", "operation": "eq", "value": ["x"]});
    let grouped = json!({"groupsCondition": "and", "groups": [{"filtersCondition": "and", "filters": [f]}]});
    let e = json!({"eventType": "regular", "eventName": "View", "filters": [f]});
    let by = json!([{"type": "property", "propertyType": "group", "propertyName": "Country", "group": 0}]);
    let mut ev = e.clone();
    ev["queries"] = json!([{"type": "countPerGroup", "aggregate": "avg"}, {"type": "aggregatePropertyPerGroup", "propertyType": "event", "propertyName": "Product", "aggregate": "count", "aggregatePerGroup": "min"}]);
    ev["breakdowns"] = by.clone();
    let seg = json!({"time": {"type": "between", "from": "2021-09-08T13:42:00Z", "to": "2021-10-08T13:42:00Z"}, "group": 0, "intervalUnit": "day", "chartType": "line", "analysis": {"type": "rollingAverage", "window": 2, "unit": "day"}, "compare": {"offset": 1, "unit": "day"}, "events": [ev], "filters": grouped, "breakdowns": by});
    let fun = json!({"time": {"type": "last", "last": 3, "unit": "day"}, "group": 0, "steps": [{"events": [e], "order": {"type": "exact"}}, {"events": [e], "order": {"type": "any", "steps": [[0, 1]]}}], "timeWindow": {"n": 1, "unit": "day"}, "chartType": {"type": "timeToConvert", "intervalUnit": "day", "minInterval": 2, "maxInterval": 5}, "count": "unique", "filter": {"type": "dropOffOnStep", "step": 1}, "touch": {"type": "step", "step": 1},
        "holdingConstants": [{"propertyType": "event", "propertyName": "Product"}], "exclude": [{"eventType": "regular", "eventName": "View", "steps": {"type": "between", "from": 1, "to": 2}, "filters": [f]}], "breakdowns": by, "filters": grouped});
    let exact = { let mut x = fun.clone(); x["steps"][1]["order"] = json!({"type": "exact"}); x.as_object_mut().unwrap().remove("touch"); x.as_object_mut().unwrap().remove("filter"); x["chartType"] = json!({"type": "steps"}); x };
    let typed = |v: &Value, t: &str| { let mut x = v.clone(); x["type"] = json!(t); x };
    let u = |s: &str| format!("/api/v1/projects/{p}{s}");
    vec![
        ("POST", u("/queries/event-segmentation"), seg.clone()), ("POST", u("/queries/funnel"), fun.clone()), ("POST", u("/queries/funnel"), exact.clone()),
        ("POST", u("/event-records/search"), json!({"time": {"type": "last", "last": 3, "unit": "day"}, "events": [e], "filters": grouped, "properties": [{"propertyType": "event", "propertyName": "Product"}]})),
        ("POST", u("/group-records/search"), json!({"time": {"type": "from", "from": "2021-09-08T13:42:00Z"}, "group": 0, "filters": {"groups": [{"filters": [{"type": "property", "propertyType": "group", "propertyName": "Country", "group": 0, "operation": "eq", "value": ["x"]}]}]}, "properties": [{"propertyType": "group", "propertyName": "Country", "group": 0}], "sort": {"propertyType": "group", "propertyName": "Country", "group": 0, "direction": "asc"}})),
        ("POST", u("/queries/event-segmentation?timestamp=1631300000"), { let mut x = seg.clone(); x["time"] = json!({"type": "last", "last": 3, "unit": "day"}); x }), ("POST", u("/queries/funnel?timestamp=1631300000"), exact.clone()),
        ("POST", u("/property-values"), json!({"propertyType": "event", "propertyName": "Product", "eventType": "regular", "eventName": "View", "filter": {"operation": "like", "value": ["x"]}})),
        ("POST", u("/reports"), json!({"name": "new", "description": "d", "tags": ["a"], "type": "funnel", "query": typed(&fun, "funnel")})),
        ("PUT", u("/reports/1"), json!({"name": "other", "description": "d", "tags": ["a"], "query": typed(&seg, "eventSegmentation")})),
        ("POST", u("/bookmarks"), json!({"query": typed(&fun, "funnel")})),
        ("POST", u("/dashboards"), json!({"name": "new", "description": "d", "tags": ["a"], "panels": [{"type": "report", "reportId": 1, "x": 0, "y": 1, "w": 2, "h": 3}]})),
        ("PUT", u("/dashboards/1"), json!({"name": "other", "description": "d", "tags": ["a"], "panels": [{"type": "report", "reportId": 1, "x": 0, "y": 1, "w": 2, "h": 3}]})),
        ("POST", u("/schema/custom-events"), json!({"name": "New", "description": "d", "tags": ["a"], "status": "enabled", "isSystem": false, "events": [e, {"eventType": "custom", "eventId": 1}]})),
        ("PUT", u("/schema/custom-events/1"), json!({"name": "Other", "description": "d", "tags": ["a"], "status": "disabled", "events": [e]})),
        ("POST", u("/schema/events"), json!({"name": "New", "displayName": "n", "description": "d", "tags": ["a"], "status": "enabled", "isSystem": false})),
        ("PUT", u("/schema/events/1"), json!({"displayName": "n", "description": "d", "tags": ["a"], "status": "disabled"})),
        ("PUT", u("/schema/event-properties/1"), json!({"displayName": "n", "description": "d", "tags": ["a"], "status": "disabled"})),
        ("PUT", u("/schema/group-properties/0/1"), json!({"displayName": "n", "description": "d", "tags": ["a"], "status": "disabled"})),
        ("POST", u("/groups"), json!({"name": "other", "displayName": "Other"})),
        ("PUT", u(""), json!({"name": "p", "description": "d", "tags": ["a"], "sessionDurationSeconds": 60})),
        ("POST", "/api/v1/projects".into(), json!({"name": "p", "description": "d", "tags": ["a"], "sessionDurationSeconds": 60})),
        ("PUT", "/api/v1/organizations/1".into(), json!({"name": "o"})),
        ("POST", "/api/v1/organizations".into(), json!({"name": "o"})),
        ("PUT", "/api/v1/accounts/2".into(), json!({"name": "n", "email": "other@x.y", "role": "admin", "organizations": [[1, "member"]], "projects": [[1, "reader"]], "teams": []})),
        ("PUT", "/api/v1/profile/name".into(), json!({"name": "me"})),
        ("PUT", "/api/v1/profile/email".into(), json!({"email": "me@x.y", "password": "password"})),
        ("PUT", "/api/v1/admin/settings".into(), json!({"backupEnabled": true, "backupProvider": "local", "backupProviderLocalPath": "/nowhere", "backupSchedule": "0 0 1 * *", "backupCompression": true})),
    ]
}

/// requests about a property of each type
fn typed(p: u64, thorough: bool) -> Vec<(&'static str, String, Value)> {
    let mut out = vec![];
    for k in kinds().iter().filter(|k| thorough || ["i8", "i64", "dec", "bool", "ts", "str", "d8"].contains(&k.name)) {
        for (prop, mark) in [(json!({"propertyType": "event", "propertyName": k.name}), "event"), (json!({"propertyType": "group", "propertyName": k.name, "group": 0}), "group")] {
            let with = |more: Value| { let mut x = prop.clone(); for (a, b) in more.as_object().unwrap() { x[a.as_str()] = b.clone(); } x };
            for op in ["eq", "neq", "gt", "gte", "lt", "lte", "true", "false", "exists", "empty", "like", "notLike", "regex", "notRegex"] {
                let v = k.vals[1].2.clone();
                let f = with(json!({"type": "property", "operation": op, "value": [v]}));
                out.push(("POST", format!("/api/v1/projects/{p}/event-records/search"), json!({"time": {"type": "from", "from": "2021-09-08T13:42:00Z"}, "events": [{"eventType": "regular", "eventName": "View", "filters": [f]}], "properties": [prop]})));
                out.push(("POST", format!("/api/v1/projects/{p}/property-values"), with(json!({"eventType": "regular", "eventName": "View", "filter": {"operation": op, "value": [v]}}))));
                if mark == "group" { out.push(("POST", format!("/api/v1/projects/{p}/group-records/search"), json!({"group": 0, "filters": {"groups": [{"filters": [f]}]}, "sort": with(json!({"direction": "desc"}))}))); }
                out.push(("POST", format!("/api/v1/projects/{p}/queries/event-segmentation"), json!({"time": {"type": "between", "from": "2021-09-08T13:42:00Z", "to": "2021-09-12T13:42:00Z"}, "group": 0, "intervalUnit": "day", "chartType": "line", "analysis": {"type": "linear"}, "events": [{"eventType": "regular", "eventName": "View", "filters": [f], "queries": [{"type": "countEvents"}]}]})));
            }
            for agg in ["min", "max", "sum", "avg", "count", "median", "distinctCount", "percentile25", "x"] {
                out.push(("POST", format!("/api/v1/projects/{p}/queries/event-segmentation"), json!({"time": {"type": "between", "from": "2021-09-08T13:42:00Z", "to": "2021-09-12T13:42:00Z"}, "group": 0, "intervalUnit": "hour", "chartType": "line", "analysis": {"type": "linear"}, "events": [{"eventType": "regular", "eventName": "View", "queries": [with(json!({"type": "aggregateProperty", "aggregate": agg})), with(json!({"type": "aggregatePropertyPerGroup", "aggregate": agg, "aggregatePerGroup": agg}))], "breakdowns": [with(json!({"type": "property"}))]}]})));
            }
        }
    }
    out
}
/// a world with rows of events and groups
fn full() -> (Both, Vec<u64>, Vec<u64>) {
    let (e, _, orgs, projects) = world();
    let b = Both::over(e);
    let token = b.env.md.projects.get_by_id(projects[0]).unwrap().token.replace(' ', "%20");
    let r = b.env.call("PUT", &format!("/api/v1/projects/{}", projects[0]), Some(&b.env.token(1, orgs[0])), Some(&json!({"name": "of rows"})));
    assert!(r.as_ref().is_ok_and(|r| r.ok()), "{r:?}");
    let ks = kinds();
    b.properties(projects[0], &ks);
    let send = |what: &str, j: Value| b.post(&token, what, &j).unwrap_or_else(|e| panic!("{e}"));
    for u in 0..3 {
        let mut props: serde_json::Map<String, Value> = ks.iter().enumerate().filter(|(i, _)| (i + u) % 4 != 0).map(|(i, k)| (k.name.to_string(), k.vals[(i + u) % 3].0.clone())).collect();
        send("identify", json!({"group": "user", "id": format!("u{u}"), "context": {}, "timestamp": "2021-09-09T00:00:00Z", "properties": props}));
        props.insert("Product".into(), json!(["x", "y", "%"][u]));
        for h in ["09T03", "10T05"] { send("track", json!({"event": "View", "userId": format!("u{u}"), "context": {}, "timestamp": format!("2021-09-{h}:00:00Z"), "properties": props, "groups": {"company": "c"}})); }
    }
    (b, orgs, projects)
}

pub fn p06(run: &Arc<Run>) {
    run.assume("a request is the right one with one thing in its body or path wrong (two in the thorough tier, for the smaller ones); requests are made one at a time");
    let (n, mut reqs) = (8, vec![]);
    {
        let (_, _, orgs, projects) = world();
        for c in calls(&projects[..1], &orgs[..1]) {
            if let Some(b) = &c.body { for (what, x) in bodies(b) { reqs.push((c.method, c.path.clone(), Some(x), what)); } }
            for p in paths(&c.path) { reqs.push((c.method, p, c.body.clone(), String::new())); }
        }
        for (m, p, b) in typed(projects[0], run.thorough()) {
            for o in odd() { let mut x = b.clone(); if let Some(v) = at_value(&mut x) { *v = json!([o.clone()]); } reqs.push((m, p.clone(), Some(x), format!("{} of {}", o.to_string().chars().take(40).collect::<String>(), b))); }
            reqs.push((m, p, Some(b.clone()), format!("{b}")));
        }
        for (m, p, b) in rich(projects[0]) {
            reqs.push((m, p.clone(), Some(b.clone()), "as it should be".into()));
            let one = bodies(&b);
            if run.thorough() && b.to_string().len() < 260 { for (w, x) in &one { for (w2, x2) in bodies(x) { reqs.push((m, p.clone(), Some(x2), format!("{w} and {w2}"))); } } }
            for (what, x) in one { reqs.push((m, p.clone(), Some(x), what)); }
            if p.contains("quer") || p.contains("search") { for q in ["format=json", "format=jsonCompact", "format=x", "timestamp=0", "timestamp=1700000000", "timestamp=-1", "timestamp=9223372036854775807", "timestamp=-9223372036854775808", "timestamp=9000000000000000", "timestamp=8640000000000", "timestamp=x", "format=json&format=json"] { reqs.push((m, format!("{p}?{q}"), Some(b.clone()), String::new())); } }
        }
    }
    // a range of time has a column for each of its periods: one of thousands of years takes more memory than there is
    reqs.retain(|(_, p, _, what)| !(p.contains("/event-segmentation") && what.contains(".time.") && ["100000", "0000-", "+262142"].iter().any(|x| what.contains(x))));
    run.phase("requests with one thing wrong");
    run.extra("requests", json!(reqs.len()));
    let done: Vec<std::sync::atomic::AtomicU64> = (0..4).map(|_| Default::default()).collect();
    mc::par(n, |w| {
        let (b, orgs, projects) = full();
        let e = &b.env;
        let t = e.token(1, orgs[0]);
        let p = projects[0];
        let reads: Vec<String> = ["", "/schema/events", "/schema/events/1", "/schema/custom-events", "/schema/event-properties", "/schema/group-properties/0", "/groups", "/dashboards", "/reports"].iter().map(|x| format!("/api/v1/projects/{p}{x}")).chain(["/api/v1/accounts", "/api/v1/admin/settings", "/api/v1/organizations", "/api/v1/projects", "/api/v1/profile"].map(String::from)).collect();
        let base = e.db.dump();
        for (method, path, body, what) in reqs.iter().skip(w).step_by(n) {
            run.states(1); run.transitions(1); run.validated(1);
            let key = format!("{method} {path}: {what}");
            let before = (e.db.commits(), e.db.dump());
            let r = e.call(method, path, Some(&t), body.as_ref());
            // a number that was taken for what was refused is not used again
            let changed = e.db.commits() != before.0 && { let numbers = |d: BTreeMap<Vec<u8>, Vec<u8>>| d.into_iter().filter(|(k, _)| !k.ends_with(b"id_seq")).collect::<Vec<_>>(); numbers(e.db.dump()) != numbers(before.1) };
            let bad = |m: String| { run.violation(&key, json!({"what": m, "body": body})) };
            match &r {
                Err(p) => bad(format!("it panics: {p}")),
                Ok(a) if a.status == 599 || a.status < 200 => bad(format!("answered {}", a.status)),
                Ok(a) => {
                    done[if a.ok() { 0 } else if a.status >= 500 { 2 } else { 1 }].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if !a.ok() && changed { bad(format!("refused with {} {}, but something was changed", a.status, a.body)) }
                    if a.status >= 500 && method == &"PUT" { run.sample(json!({"request": key, "answer": a.body})); }
                }
            }
            if changed {
                done[3].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let gone = method == &"DELETE";
                for x in &reads {
                    match e.call("GET", x, Some(&t), None) {
                        Err(p) => bad(format!("after it, GET {x} panics: {p}")),
                        Ok(a) if a.ok() || (gone && a.status == 404) => {}
                        Ok(a) => bad(format!("after it, GET {x} is answered {} {}", a.status, a.body)),
                    }
                    run.transitions(1);
                }
                e.db.load(base.clone());
            }
        }
    });
    run.extra("answers", json!({"accepted": done[0].load(std::sync::atomic::Ordering::SeqCst), "refused": done[1].load(std::sync::atomic::Ordering::SeqCst), "answered as an error of the server": done[2].load(std::sync::atomic::Ordering::SeqCst), "that changed something": done[3].load(std::sync::atomic::Ordering::SeqCst)}));
}
