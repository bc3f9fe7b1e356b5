//! Event segmentation: what the real providers answer against a direct computation over the rows.
use crate::env::*;
use crate::filt::{Filter, Op};
use chrono::{DateTime, Datelike, Duration, TimeZone, Timelike, Utc};
use common::event_segmentation::*;
use common::query::*;
use mc::Run;
use query::event_segmentation::{fix_request, EventSegmentationProvider};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub const HOUR: i64 = 3_600_000;
pub const DAY: i64 = 24 * HOUR;
pub type AF = AggregateFunction;
pub type PF = PartitionedAggregateFunction;
pub const AFS: [AF; 5] = [AF::Count, AF::Sum, AF::Min, AF::Max, AF::Avg];
pub const PFS: [PF; 5] = [PF::Count, PF::Sum, PF::Min, PF::Max, PF::Avg];

pub fn pref(p: usize) -> PropertyRef { let q = &props()[p]; match q.of { Of::Event => PropertyRef::Event(q.name.into()), Of::Group(g) => PropertyRef::Group(q.name.into(), g) } }
pub fn by(p: usize) -> Breakdown { Breakdown::Property(pref(p)) }
fn index(p: &PropertyRef) -> usize { let n = p.name(); props().iter().position(|q| q.name == n).unwrap() }
pub fn nq(q: Query) -> NamedQuery { NamedQuery::new(q, None) }
pub fn ev(e: usize) -> EventRef { EventRef::RegularName(EVENTS[e].into()) }
pub fn agg(p: usize, a: AF) -> Query { Query::AggregateProperty { property: pref(p), aggregate: a } }
pub fn per(p: usize, i: PF, a: AF) -> Query { Query::AggregatePropertyPerGroup { property: pref(p), aggregate_per_group: i, aggregate: a } }
pub fn req(unit: TimeIntervalUnit, time: QueryTime, events: Vec<Event>) -> EventSegmentationRequest {
    EventSegmentationRequest { time, group_id: 0, interval_unit: unit, chart_type: ChartType::Line, analysis: Analysis::Linear, compare: None, events, filters: None, breakdowns: None, segments: None }
}

/// the number an aggregate sees: one unit is 1.0
fn num(v: &Val) -> f64 { match v { Val::N(x) => *x as f64 / ONE as f64, Val::I(x) => *x as f64, o => panic!("{o:?}") } }
fn fold(a: &str, xs: &[f64]) -> Option<f64> {
    let n = xs.len() as f64;
    Some(match a {
        "COUNT" => n, "SUM" => if xs.is_empty() { return None } else { xs.iter().sum() }, "AVG" => if xs.is_empty() { return None } else { xs.iter().sum::<f64>() / n },
        "MIN" => xs.iter().cloned().reduce(f64::min)?, "MAX" => xs.iter().cloned().reduce(f64::max)?, o => panic!("{o}"),
    })
}
/// None: nothing to show; a count of nothing is either nothing or zero
fn evaluate(q: &Query, group: usize, rows: &[&Row]) -> Option<f64> {
    if rows.is_empty() { return None; }
    let mut users: BTreeMap<i64, Vec<&Row>> = BTreeMap::new();
    for r in rows { users.entry(r.group(group)).or_default().push(r); }
    match q {
        Query::CountEvents => Some(rows.len() as f64),
        Query::CountUniqueGroups | Query::DailyActiveGroups => Some(users.len() as f64),
        Query::CountPerGroup { aggregate } => fold(&aggregate.to_string(), &users.values().map(|v| v.len() as f64).collect::<Vec<_>>()),
        Query::AggregateProperty { property, aggregate } => { let p = index(property); fold(&aggregate.to_string(), &rows.iter().filter_map(|r| r.get(p).map(num)).collect::<Vec<_>>()) }
        Query::AggregatePropertyPerGroup { property, aggregate_per_group, aggregate } => {
            let p = index(property);
            let per: Vec<f64> = users.values().filter_map(|v| { let xs: Vec<f64> = v.iter().filter_map(|r| r.get(p).map(num)).collect(); if xs.is_empty() { None } else { fold(&aggregate_per_group.to_string(), &xs) } }).collect();
            fold(&aggregate.to_string(), &per)
        }
        _ => unreachable!(),
    }
}
pub fn trunc(unit: &TimeIntervalUnit, t: DateTime<Utc>) -> DateTime<Utc> {
    let d = Utc.with_ymd_and_hms(t.year(), t.month(), t.day(), 0, 0, 0).unwrap();
    match unit {
        TimeIntervalUnit::Hour => d + Duration::hours(t.hour() as i64),
        TimeIntervalUnit::Day => d,
        TimeIntervalUnit::Week => d - Duration::days(d.weekday().num_days_from_monday() as i64),
        TimeIntervalUnit::Month => Utc.with_ymd_and_hms(t.year(), t.month(), 1, 0, 0, 0).unwrap(),
        TimeIntervalUnit::Year => Utc.with_ymd_and_hms(t.year(), 1, 1, 0, 0, 0).unwrap(),
    }
}
fn next(unit: &TimeIntervalUnit, t: DateTime<Utc>) -> DateTime<Utc> {
    match unit {
        TimeIntervalUnit::Hour => t + Duration::hours(1), TimeIntervalUnit::Day => t + Duration::days(1), TimeIntervalUnit::Week => t + Duration::days(7),
        TimeIntervalUnit::Month => if t.month() == 12 { Utc.with_ymd_and_hms(t.year() + 1, 1, 1, 0, 0, 0).unwrap() } else { Utc.with_ymd_and_hms(t.year(), t.month() + 1, 1, 0, 0, 0).unwrap() },
        TimeIntervalUnit::Year => Utc.with_ymd_and_hms(t.year() + 1, 1, 1, 0, 0, 0).unwrap(),
    }
}
pub fn columns(unit: &TimeIntervalUnit, from: DateTime<Utc>, to: DateTime<Utc>) -> Vec<DateTime<Utc>> {
    let (mut t, end) = (trunc(unit, from), trunc(unit, to));
    let mut v = vec![];
    while t <= end { v.push(t); t = next(unit, t); }
    v
}
pub fn label(t: DateTime<Utc>) -> String { t.format("%Y-%m-%dT%H:%M:%S").to_string() }

pub type Key = Vec<Cell>; // event, segment, breakdown values..., formula
pub type Answer = BTreeMap<Key, Vec<Option<f64>>>;

/// the segments of a request by name, with the users in each; None: everyone is in the one segment
pub type Segs = Vec<(String, BTreeSet<i64>)>;

/// what the request means: for each event and query, rows in the time range, by segment, breakdown values and bucket
pub fn expect(rows: &[Row], keep: &dyn Fn(usize, &Row) -> bool, r: &EventSegmentationRequest, from: DateTime<Utc>, to: DateTime<Utc>, segs: Option<&Segs>) -> (Vec<String>, Vec<String>, Answer) {
    let cols = columns(&r.interval_unit, from, to);
    // the breakdowns, those of the events first, in order of appearance
    let mut bs: Vec<usize> = vec![];
    let of = |l: &Option<Vec<Breakdown>>| -> Vec<usize> { l.iter().flatten().map(|Breakdown::Property(p)| index(p)).collect() };
    for e in &r.events { for p in of(&e.breakdowns) { if !bs.contains(&p) { bs.push(p) } } }
    for p in of(&r.breakdowns) { if !bs.contains(&p) { bs.push(p) } }
    let mut names = vec!["Event".to_string(), "Segment".to_string()];
    names.extend(bs.iter().map(|p| props()[*p].name.to_string()));
    names.push("Formula".into()); names.push("Average".into());
    let mut out: Vec<(Key, Vec<Option<f64>>)> = vec![];
    let all: Segs = vec![("".into(), rows.iter().map(|r| r.user).collect())];
    for (n, e) in r.events.iter().enumerate() {
        let mine: Vec<usize> = of(&e.breakdowns).into_iter().chain(of(&r.breakdowns)).collect();
        let name = e.event.name();
        for (si, (_, users)) in segs.unwrap_or(&all).iter().enumerate() {
            let mut groups: BTreeMap<Key, BTreeMap<usize, Vec<&Row>>> = BTreeMap::new();
            for row in rows.iter().filter(|row| (!matches!(e.event, EventRef::RegularName(_)) || EVENTS[row.event] == name) && row.t >= from.timestamp_millis() && row.t <= to.timestamp_millis() && users.contains(&row.user) && keep(n, row)) {
                let b = cols.iter().position(|c| *c == trunc(&r.interval_unit, at(row.t))).unwrap();
                let key: Key = bs.iter().map(|p| if mine.contains(p) { row.get(*p).cloned().map(Cell::V).unwrap_or(Cell::Null) } else { Cell::Null }).collect();
                groups.entry(key).or_default().entry(b).or_default().push(row);
            }
            for (g, buckets) in groups {
                for q in &e.queries {
                    let vals: Vec<Option<f64>> = (0..cols.len()).map(|b| buckets.get(&b).and_then(|rs| evaluate(&q.agg, r.group_id, rs))).collect();
                    let mut key = vec![Cell::V(Val::S(name.clone())), Cell::V(Val::I(si as i64))];
                    key.extend(g.clone()); key.push(Cell::V(Val::S(q.agg.name())));
                    if vals.iter().any(|v| v.is_some_and(|x| x != 0.0)) { out.push((key, vals)); }
                }
            }
        }
    }
    (names, cols.into_iter().map(label).collect(), number(out))
}
/// rows of events of the same name are told apart by their place among those of the same key
fn number(mut l: Vec<(Key, Vec<Option<f64>>)>) -> Answer {
    let round = |v: &Vec<Option<f64>>| v.iter().map(|x| (x.unwrap_or(0.0) * 1e6).round() as i64).collect::<Vec<_>>();
    l.sort_by_key(|(k, v)| (k.clone(), round(v)));
    let mut out = Answer::new();
    for (k, v) in l { let mut key = k; let mut n = 0; while out.contains_key(&key) { if n > 0 { key.pop(); } n += 1; key.push(Cell::V(Val::I(n))); } out.insert(key, v); }
    out
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
fn same(a: Option<f64>, b: Option<f64>) -> bool { near(a.unwrap_or(0.0), b.unwrap_or(0.0)) && (a.is_some() == b.is_some() || a.or(b) == Some(0.0)) }
fn text(c: &Cell) -> String { match c { Cell::Null => "-".into(), Cell::V(Val::S(s)) => format!("'{s}'"), Cell::V(Val::N(x)) => format!("{}", *x as f64 / ONE as f64), Cell::V(Val::I(x)) => x.to_string(), Cell::V(Val::B(x)) => x.to_string(), Cell::V(Val::T(x)) => format!("t{x}") } }
fn show(a: &Answer) -> J { J::Array(a.iter().map(|(k, v)| json!([k.iter().map(text).collect::<Vec<_>>(), v])).collect()) }

pub fn compare(t: &Table, unique: bool, names: &[String], cols: &[String], want: &Answer) -> Result<(), J> {
    let mut head: Vec<String> = names.to_vec();
    head.extend(cols.iter().cloned());
    if t.rows.is_empty() { return if want.is_empty() { Ok(()) } else { Err(json!({"what": "an empty answer", "should be": show(want)})) }; }
    if t.cols != head { return Err(json!({"what": "the columns", "are": t.cols, "should be": head})); }
    let nk = names.len() - 1;
    let mut got: Vec<(Key, Vec<Option<f64>>)> = vec![];
    let mut last: BTreeMap<Cell, f64> = BTreeMap::new();
    for r in &t.rows {
        let vals: Vec<Option<f64>> = r[nk + 1..].iter().map(|c| match c { Cell::Null => Ok(None), Cell::V(Val::N(_)) | Cell::V(Val::I(_)) => Ok(Some(num(match c { Cell::V(v) => v, _ => unreachable!() }))), o => Err(json!({"what": "a value", "is": format!("{o:?}")})) }).collect::<Result<_, _>>()?;
        let avg = vals.iter().map(|v| v.unwrap_or(0.0)).sum::<f64>() / vals.len() as f64;
        let shown = match &r[nk] { Cell::V(v) => num(v), Cell::Null => 0.0 };
        if !near(avg, shown) { return Err(json!({"what": "an average", "row": format!("{r:?}"), "should be": avg})); }
        let l = last.entry(r[0].clone()).or_insert(f64::INFINITY);
        if unique && shown > *l + 1e-12 { return Err(json!({"what": "rows are not in order of their average", "rows": t.rows.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>()})); }
        *l = shown;
        let mut key: Key = r[..nk].to_vec();
        key[1] = match &key[1] { Cell::V(Val::S(_)) => key[1].clone(), o => o.clone() };
        if vals.iter().all(|v| v.unwrap_or(0.0) == 0.0) { continue; }
        if unique && got.iter().any(|(k, _)| *k == key) { return Err(json!({"what": "two rows for one group", "key": format!("{key:?}")})); }
        got.push((key, vals));
    }
    let got = number(got);
    let keys: BTreeSet<&Key> = got.keys().chain(want.keys()).collect();
    let bad: Vec<J> = keys.into_iter().filter_map(|k| {
        let (g, w) = (got.get(k), want.get(k));
        let ok = matches!((g, w), (Some(g), Some(w)) if g.iter().zip(w).all(|(x, y)| same(*x, *y)));
        if ok { None } else { Some(json!({"row": k.iter().map(text).collect::<Vec<_>>(), "got": g, "should be": w})) }
    }).collect();
    if !bad.is_empty() { return Err(json!({"what": "values", "rows": bad})); }
    Ok(())
}
pub fn ask(e: &Env, now: DateTime<Utc>, r: &EventSegmentationRequest) -> Result<Table, J> {
    let r = fix_request(&e.md, e.pid, r.clone()).map_err(|x| json!({"what": "refused", "error": x.to_string()}))?;
    let p = EventSegmentationProvider::new(e.md.clone(), e.opti.clone());
    block(p.event_segmentation(e.ctx(now), r)).map(|t| Table::new(&t)).map_err(|x| json!({"what": "failed", "error": x.to_string()}))
}
fn distinct_names(r: &EventSegmentationRequest) -> bool { r.events.iter().map(|e| e.event.name()).collect::<BTreeSet<_>>().len() == r.events.len() }
/// the same answer in the compact form: one row for each segment, bucket and values of the breakdowns, one column for each query
fn compact(e: &Env, now: DateTime<Utc>, r: &EventSegmentationRequest, names: &[String], cols: &[String], want: &Answer) -> Result<(), J> {
    let q = fix_request(&e.md, e.pid, r.clone()).map_err(|x| json!({"what": "refused", "error": x.to_string()}))?;
    let p = EventSegmentationProvider::new(e.md.clone(), e.opti.clone());
    let t = block(p.event_segmentation(e.compact(now), q)).map(|t| Table::new(&t)).map_err(|x| json!({"what": "the compact form failed", "error": x.to_string()}))?;
    let at_col = |n: &str| t.cols.iter().position(|c| c == n).ok_or(json!({"what": "a column of the compact form is missing", "name": n, "are": t.cols}));
    let (seg, time) = (at_col("segment")?, at_col("created_at")?);
    let ps = props();
    let bs: Vec<usize> = names[2..names.len() - 2].iter().map(|n| at_col(&e.cols[ps.iter().position(|q| q.name == n).unwrap()])).collect::<Result<_, _>>()?;
    let name_col = if r.events.len() > 1 { Some(at_col("event")?) } else { None };
    let mut got = Answer::new();
    for row in &t.rows {
        let Cell::V(Val::T(ts)) = row[time] else { return Err(json!({"what": "a time", "is": format!("{:?}", row[time])})) };
        let bucket = cols.iter().position(|c| *c == label(at(ts))).ok_or(json!({"what": "a time of the compact form", "is": label(at(ts))}))?;
        let n = match name_col { None => 0, Some(c) => r.events.iter().position(|e| row[c] == Cell::V(Val::S(e.event.name()))).ok_or(json!({"what": "an event of the compact form", "row": format!("{row:?}")}))? };
        for (i, q) in r.events[n].queries.iter().enumerate() {
            let c = t.cols.iter().position(|c| c.starts_with(&format!("{n}_{i}_"))).ok_or(json!({"what": "a query is missing in the compact form", "number": i, "columns": t.cols}))?;
            let mut key = vec![Cell::V(Val::S(r.events[n].event.name())), row[seg].clone()];
            key.extend(bs.iter().map(|b| row[*b].clone())); key.push(Cell::V(Val::S(q.agg.name())));
            let v = match &row[c] { Cell::Null => None, Cell::V(v) => Some(num(v)) };
            let slot = &mut got.entry(key).or_insert_with(|| vec![None; cols.len()])[bucket];
            if slot.is_some() { return Err(json!({"what": "two rows of the compact form for one group", "row": format!("{row:?}")})); }
            *slot = v;
        }
    }
    got.retain(|_, v| v.iter().any(|v| v.unwrap_or(0.0) != 0.0));
    let ok = got.len() == want.len() && got.iter().all(|(k, g)| want.get(k).is_some_and(|w| g.iter().zip(w).all(|(x, y)| same(*x, *y))));
    if ok { Ok(()) } else { Err(json!({"what": "values of the compact form", "are": show(&got), "should be": show(want)})) }
}
/// some thousand events of a few users
pub fn many(n: i64, ms: i64) -> Vec<Row> {
    (0..n).map(|i| {
        let x = (i * 7919 + i / 13 * 104_729) % 1_000_003;
        let mut p = vec![];
        if x % 4 != 3 { p.push((D, st(["a", "b", "ab"][x as usize % 3]))); }
        if x % 5 != 2 { p.push((N, Val::N(dec((x as i128 % 9) - 4) + (x as i128 % 2) * ONE / 4))); }
        if x % 3 != 2 { p.push((B, Val::B(x % 2 == 0))); }
        if x % 5 != 4 { p.push((S, st(["x", "", "yé"][(x as usize / 2) % 3]))); }
        // a few hundred values, of which each one is more frequent than the next
        let v = (0..70).find(|k| (k + 1) * (k + 2) / 2 > x / 30 % (70 * 71 / 2)).unwrap_or(69);
        p.push((I32, Val::I(v)));
        row(1 + x / 6 % 17, (x % 3) as usize, ms + i * (366 * DAY / n), &p)
    }).collect()
}
pub fn judge_brief(run: &Run, e: &Env, key: &str, rows: &[Row], now: DateTime<Utc>, r: &EventSegmentationRequest) {
    run.case(|| key.to_string(), || {
        let QueryTime::Between { from, to } = r.time else { unreachable!() };
        let (names, cols, want) = expect(rows, &|_, _| true, r, from, to, None);
        run.transitions(1);
        compare(&ask(e, now, r)?, true, &names, &cols, &want).map_err(|d| json!({"request": serde_json::to_value(r).unwrap(), "difference": d}))
    });
    run.validated(1);
}
pub fn judge(run: &Run, e: &Env, key: &str, rows: &[Row], now: DateTime<Utc>, r: &EventSegmentationRequest) { judge_with(run, e, key, rows, now, r, &|_, _| true, None) }
#[allow(clippy::too_many_arguments)]
pub fn judge_with(run: &Run, e: &Env, key: &str, rows: &[Row], now: DateTime<Utc>, r: &EventSegmentationRequest, keep: &dyn Fn(usize, &Row) -> bool, segs: Option<&Segs>) {
    run.case(|| key.to_string(), || {
        let (from, to) = match &r.time { QueryTime::Between { from, to } => (*from, *to), QueryTime::From(f) => (*f, now), QueryTime::Last { last, unit } => (back(now, *last, unit), now) };
        let (names, cols, want) = expect(rows, keep, r, from, to, segs);
        run.transitions(1);
        let t = ask(e, now, r)?;
        compare(&t, distinct_names(r), &names, &cols, &want).map_err(|d| json!({"rows": rows.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>(), "request": serde_json::to_value(r).unwrap(), "difference": d}))?;
        if distinct_names(r) { run.transitions(1); compact(e, now, r, &names, &cols, &want).map_err(|d| json!({"rows": rows.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>(), "request": serde_json::to_value(r).unwrap(), "difference": d}))?; }
        if run.wants_sample() { run.sample(json!({"case": key, "answer": show(&want)})); }
        Ok(())
    });
    run.validated(1);
}
fn back(now: DateTime<Utc>, n: i64, unit: &TimeIntervalUnit) -> DateTime<Utc> {
    match unit {
        TimeIntervalUnit::Hour => now - Duration::hours(n), TimeIntervalUnit::Day => now - Duration::days(n), TimeIntervalUnit::Week => now - Duration::days(7 * n),
        TimeIntervalUnit::Month => now.checked_sub_months(chrono::Months::new(n as u32)).unwrap(), TimeIntervalUnit::Year => now.checked_sub_months(chrono::Months::new(12 * n as u32)).unwrap(),
    }
}
thread_local! { static PINNED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// one processor set per thread of `par`
pub fn pin(n: usize) {
    static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if !PINNED.with(|p| p.replace(true)) { processors(n, NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)); }
}
pub fn row(user: i64, event: usize, t: i64, p: &[(usize, Val)]) -> Row { Row { user, event, t, props: p.to_vec() } }
pub fn st(x: &str) -> Val { Val::S(x.into()) }
pub fn nn(x: i128) -> Val { Val::N(dec(x)) }

/// a project with something of everything
pub fn rich() -> Vec<Row> {
    let mut v = vec![];
    let base = at(0).with_year(2024).unwrap().timestamp_millis(); // 1 January, a Monday
    let times = [0, HOUR - 1, HOUR, 5 * HOUR, DAY - 1, DAY, 6 * DAY, 7 * DAY, 30 * DAY, 31 * DAY, 59 * DAY, 60 * DAY, 366 * DAY - 1, 366 * DAY];
    for (i, t) in times.iter().enumerate() {
        let i = i as i64;
        let mut p = vec![];
        if i % 4 != 3 { p.push((D, st(["a", "b", "ab"][i as usize % 3]))); }
        if i % 5 != 2 { p.push((N, Val::N(dec((i as i128 % 4) - 1) + (i as i128 % 2) * ONE / 4))); }
        if i % 3 != 1 { p.push((I, Val::I(i - 3))); }
        if i % 3 != 2 { p.push((B, Val::B(i % 2 == 0))); }
        if i % 4 != 1 { p.push((T, Val::T(1000 * (i % 3)))); }
        if i % 5 != 4 { p.push((S, st(["x", "", "yé"][(i as usize / 2) % 3]))); }
        if i % 3 != 0 { p.push((U, st(["a", ""][i as usize % 2]))); }
        if i % 4 != 0 { p.push((D8, st(["b", "a"][(i as usize / 3) % 2]))); }
        if i % 2 != 0 { p.push((I8, Val::I(i - 6))); p.push((I16, Val::I(300 * (i % 4)))); }
        if i % 3 != 0 { p.push((N2, nn(i as i128 / 3))); p.push((I32, Val::I(-100000 * (i % 2)))); }
        if i % 4 != 2 { p.push((C, st(["ab", "a", "b"][(i as usize / 2) % 3]))); p.push((CN, nn(i as i128 % 2))); }
        v.push(row([1, 2, 3, 1, 5][i as usize % 5], (i as usize / 2) % 2, base + t, &p));
        v.push(row([2, 1, 4][i as usize % 3], 0, base + t, &p[..p.len() / 2]));
    }
    v
}
pub fn time_name(t: &QueryTime) -> String { match t { QueryTime::Between { from, to } => format!("{}..{}", label(*from), label(*to)), QueryTime::From(f) => format!("from {}", label(*f)), QueryTime::Last { last, unit } => format!("last {last} {unit:?}") } }

pub fn all_queries(ps: &[usize]) -> Vec<Query> {
    let mut v = vec![Query::CountEvents, Query::CountUniqueGroups, Query::DailyActiveGroups];
    for a in AFS { v.push(Query::CountPerGroup { aggregate: a.clone() }); for p in ps { v.push(agg(*p, a.clone())); for i in PFS { v.push(per(*p, i, a.clone())); } } }
    v
}
pub fn q01(run: &Arc<Run>) {
    let base = Base::new();
    let year = at(0).with_year(2024).unwrap();
    let ms = year.timestamp_millis();
    let now = year + Duration::days(400);
    let whole = QueryTime::Between { from: year, to: year + Duration::days(367) };
    use TimeIntervalUnit::*;
    // 1: every small set of events, every query
    run.phase("small sets of events");
    let alphabet: Vec<Row> = {
        let a = |u, d: i64, p: &[(usize, Val)]| row(u, 0, ms + d * DAY, p);
        vec![a(1, 0, &[(D, st("a")), (N, nn(1))]), a(1, 0, &[(D, st("a")), (N, nn(4))]), a(1, 0, &[(D, st("b")), (N, nn(-2))]), a(1, 1, &[(D, st("a"))]), a(1, 1, &[(N, nn(-3))]),
            a(2, 0, &[(D, st("a")), (N, nn(2))]), a(2, 0, &[(D, st("b"))]), a(2, 1, &[(D, st("a")), (N, nn(-5))]), a(3, 0, &[(D, st("a")), (N, nn(8))]), a(3, 1, &[(D, st("b")), (N, nn(0))])]
    };
    let queries = all_queries(&[N]);
    let k = run.pick(3, 4);
    let n = alphabet.len();
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for l in 1..=k { for i in 0..mc::pow(n, l) { let s = mc::seq_of(i, n, l); if s.windows(2).all(|w| w[0] <= w[1]) { sets.push(s); } } }
    run.extra("sets_of_events", json!(sets.len()));
    let day = |b: Option<Vec<Breakdown>>, q: Vec<Query>| req(Day, QueryTime::Between { from: year, to: year + Duration::days(2) }, vec![Event::new(ev(0), None, b, q.into_iter().map(nq).collect())]);
    // the queries in groups whose names differ
    let groups: Vec<Vec<Query>> = {
        let mut g: Vec<Vec<Query>> = vec![vec![], vec![]];
        for q in &queries { let at = if g[0].iter().any(|o| o.name() == q.name()) { 1 } else { 0 }; g[at].push(q.clone()); }
        g.into_iter().filter(|g| !g.is_empty()).collect()
    };
    mc::par(sets.len(), |i| {
        pin(3);
        let rows: Vec<Row> = sets[i].iter().map(|j| alphabet[*j].clone()).collect();
        let e = Env::new(&base);
        e.load(&rows, &Layout::ALL[i % 4]);
        e.noise(&rich());
        run.states(1);
        for (g, qs) in groups.iter().enumerate() { for b in [None, Some(vec![by(D)])] {
            judge(run, &e, &format!("set {:?} group {g} {}", sets[i], b.is_some()), &rows, now, &day(b, qs.clone()));
        } }
    });
    // 2: one set of everything: every query, breakdown, interval and layout
    run.phase("queries and breakdowns");
    let rows = rich();
    let envs: Vec<Env> = Layout::ALL.iter().map(|l| { let e = Env::new(&base); if l == &Layout::Flushed { e.noise(&rich()); } e.load(&rows, l); if l != &Layout::Flushed { e.noise(&rich()[3..]); } run.states(1); e }).collect();
    let mut reqs: Vec<(String, EventSegmentationRequest)> = vec![];
    let singles: Vec<Option<Vec<Breakdown>>> = [None].into_iter().chain([D, N, I, B, T, S, U, D8, I8, I16, I32, N2, C, CN].into_iter().map(|p| Some(vec![by(p)]))).chain([Some(vec![by(U), by(D)]), Some(vec![by(D), by(S), by(B)]), Some(vec![])]).collect();
    let few = |k: usize| -> Vec<Query> { let q = all_queries(&[N]); (0..4).map(|j| q[(k * 7 + j * 9) % q.len()].clone()).collect() };
    let distinct = |q: Vec<Query>| -> Vec<Query> { let mut s = BTreeSet::new(); q.into_iter().filter(|q| s.insert(q.name())).collect() };
    // each query alone, with and without a breakdown, for each kind of number
    for p in [N, I, I8, I16, I32, N2, CN] { for (i, q) in all_queries(&[p]).into_iter().enumerate() { if p != N && i < 8 && !matches!(q, Query::AggregateProperty { .. } | Query::AggregatePropertyPerGroup { .. }) { continue; }
        for b in [None, Some(vec![by(D)])] { reqs.push((format!("{} by {:?}", q.name(), b.as_ref().map(|_| "Product")), req(Month, whole.clone(), vec![Event::new(ev(0), None, b, vec![nq(q.clone())])]))); }
    } }
    // each breakdown and interval
    for (bi, b) in singles.iter().enumerate() { for (ui, unit) in [Day, Week, Month, Year].iter().enumerate() {
        let time = if *unit == Day { QueryTime::Between { from: year, to: year + Duration::days(61) } } else { whole.clone() };
        for place in 0..3 {
            let mut r = req(unit.clone(), time.clone(), vec![Event::new(ev(place % 2), None, b.clone(), distinct(few(bi + ui)).into_iter().map(nq).collect())]);
            if place == 2 { r.events[0].breakdowns = None; r.breakdowns = b.clone(); }
            reqs.push((format!("breakdown {bi} {unit:?} {place}"), r));
        }
    } }
    // pairs of queries
    let qs = all_queries(&[N]);
    for i in 0..qs.len() { for j in 0..qs.len() { if qs[i].name() != qs[j].name() && (run.thorough() || (i + j) % 5 == 0) {
        reqs.push((format!("{} with {}", qs[i].name(), qs[j].name()), req(Month, whole.clone(), vec![Event::new(ev(0), None, Some(vec![by(D)]), vec![nq(qs[i].clone()), nq(qs[j].clone())])])));
    } } }
    // two and three events
    for (i, (a, b)) in [(0, 1), (1, 0), (0, 2), (2, 2)].into_iter().enumerate() { for x in 0..4 { for y in 0..4 { for g in 0..3 {
        let o = [None, Some(vec![by(D)]), Some(vec![by(U)]), Some(vec![by(D), by(B)])];
        let mut r = req(Month, whole.clone(), vec![Event::new(ev(a), None, o[x].clone(), distinct(few(i)).into_iter().map(nq).collect()), Event::new(ev(b), None, o[y].clone(), distinct(few(i + x)).into_iter().map(nq).collect())]);
        if a == b { continue; }
        r.breakdowns = [None, Some(vec![by(S)]), Some(vec![by(S), by(I)])][g].clone();
        reqs.push((format!("events {a} {b} breakdowns {x} {y} {g}"), r));
    } } } }
    // the same event twice, asked different things or seen through different filters
    for (i, f) in [Some((B, Op::True, None)), Some((D, Op::Eq, Some(vec![st("a")]))), None].into_iter().enumerate() { for x in 0..4 { for y in 0..4 {
        let o = [None, Some(vec![by(D)]), Some(vec![by(U)]), Some(vec![by(D), by(B)])];
        let f: Option<Vec<PropValueFilter>> = f.clone().map(|(p, op, vals)| vec![Filter { p, op, vals }.request()]);
        let r = req(Month, whole.clone(), vec![Event::new(ev(0), f.clone(), o[x].clone(), distinct(few(x)).into_iter().map(nq).collect()), Event::new(ev(0), None, o[y].clone(), distinct(few(i + y)).into_iter().map(nq).collect())]);
        reqs.push((format!("same event twice {i} {x} {y}"), r));
    } } }
    // time ranges: both ends belong to the range
    for unit in [Hour, Day, Week, Month, Year] {
        for from in [0, 1, HOUR - 1, HOUR, DAY, DAY + 1, 6 * DAY, 30 * DAY] { for len in [0, 1, HOUR, DAY - 1, DAY, 29 * DAY, 30 * DAY] {
            if unit == Hour && len > 2 * DAY { continue; }
            let f = year + Duration::milliseconds(from);
            reqs.push((format!("range {from}+{len} {unit:?}"), req(unit.clone(), QueryTime::Between { from: f, to: f + Duration::milliseconds(len) }, vec![Event::new(ev(0), None, None, vec![nq(Query::CountEvents)])])));
        } }
    }
    for (n, l) in [(1, Hour), (1, Day), (2, Day), (1, Week), (1, Month), (2, Month), (1, Year)] { for unit in [Day, Week, Month] {
        reqs.push((format!("last {n} {l:?} {unit:?}"), req(unit.clone(), QueryTime::Last { last: n, unit: l.clone() }, vec![Event::new(ev(0), None, None, vec![nq(Query::CountEvents)])])));
        reqs.push((format!("since {n} {l:?} {unit:?}"), req(unit, QueryTime::From(back(year + Duration::days(31), n, &l)), vec![Event::new(ev(0), None, None, vec![nq(Query::CountEvents)])])));
    } }
    // by company instead of by user: what the range and the breakdowns are is no different
    for i in 0..reqs.len() { let (n, r) = reqs[i].clone(); if !n.starts_with("range") && (run.thorough() || i % 3 == 0 || n.contains("per ") || n.contains("Group")) { reqs.push((format!("{n} by company"), EventSegmentationRequest { group_id: 1, ..r })); } }
    run.extra("requests", json!(reqs.len()));
    mc::par(reqs.len(), |i| {
        pin(3);
        let (name, r) = &reqs[i];
        let now = if name.starts_with("last") || name.starts_with("since") { year + Duration::days(31) } else { now };
        let ls: Vec<usize> = if run.thorough() { (0..4).collect() } else { vec![i % 4] };
        for l in ls { 
            let kept = |n: usize, row: &Row| n != 0 || !name.starts_with("same event") || match name.as_bytes()[17] { b'0' => row.get(B) == Some(&Val::B(true)), b'1' => row.get(D) == Some(&st("a")), _ => true };
            judge_with(run, &envs[l], &format!("{name} layout {l}"), &rows, now, r, &kept, None); }
    });
    // 3: more rows than fit into one batch, and more groups than are shown
    run.phase("many rows");
    let n = run.pick(10_000, 40_000);
    let many = many(n as i64, ms);
    let layouts = [Layout::Memory, Layout::Halves];
    let envs: Vec<Env> = layouts.iter().map(|l| { let e = Env::new(&base); e.noise(&rows); e.load(&many, l); run.states(1); e }).collect();
    let mut reqs: Vec<(String, EventSegmentationRequest)> = vec![];
    let qs = all_queries(&[N]);
    for (i, q) in qs.iter().enumerate() { if i % 4 != 3 && !run.thorough() && i > 12 { continue; } for g in 0..2 {
        let mut r = req(Month, whole.clone(), vec![Event::new(ev(i % 3), None, [None, Some(vec![by(D)]), Some(vec![by(S), by(B)])][i % 3].clone(), vec![nq(q.clone())])]);
        r.group_id = g;
        reqs.push((format!("many rows {} {g}", q.name()), r));
    } }
    // each value of the one breakdown is shown, however many there are
    reqs.push(("many values".into(), req(Year, whole.clone(), vec![Event::new(ev(0), None, Some(vec![by(I32)]), vec![nq(Query::CountEvents), nq(agg(N, AF::Sum))])])));
    run.extra("rows", json!(n));
    mc::par(reqs.len() * 2, |i| { pin(3); let (name, r) = &reqs[i / 2]; judge_brief(run, &envs[i % 2], &format!("{name} {:?}", layouts[i % 2]), &many, now, r); });
    // of the rows that share a value of a breakdown, the 50 of the largest averages
    mc::par(2, |i| {
        let r = req(Year, whole.clone(), vec![Event::new(ev(0), None, Some(vec![by(B), by(I32)]), vec![nq(Query::CountEvents)])]);
        run.case(|| format!("the largest 50 {i}"), || {
            run.transitions(1);
            let t = ask(&envs[i], now, &r)?;
            let (from, to) = match &whole { QueryTime::Between { from, to } => (*from, *to), _ => unreachable!() };
            let (_, _, want) = expect(&many, &|_, _| true, &r, from, to, None);
            for b in [Cell::Null, Cell::V(Val::B(true)), Cell::V(Val::B(false))] {
                let sum = |v: &Vec<Option<f64>>| v.iter().map(|v| v.unwrap_or(0.0)).sum::<f64>();
                let mut sums: Vec<f64> = want.iter().filter(|(k, _)| k[2] == b).map(|(_, v)| sum(v)).collect();
                sums.sort_by(|a, b| b.total_cmp(a));
                let distinct = sums.len();
                sums.truncate(50);
                let shown: Vec<&Vec<Cell>> = t.rows.iter().filter(|r| r[2] == b).collect();
                let got: Vec<f64> = shown.iter().map(|r| r[6..].iter().map(|c| match c { Cell::V(v) => num(v), Cell::Null => 0.0 }).sum()).collect();
                if got != sums { return Err(json!({"what": "rows of one value", "value": text(&b), "groups": distinct, "shown": got, "should be": sums})); }
                for r in shown { let k = vec![r[0].clone(), r[1].clone(), r[2].clone(), r[3].clone(), r[4].clone()]; if want.get(&k).map(sum) != Some(r[6..].iter().map(|c| match c { Cell::V(v) => num(v), Cell::Null => 0.0 }).sum()) { return Err(json!({"what": "a row", "is": format!("{r:?}")})); } }
            }
            Ok(())
        });
        run.validated(1);
    });
    run.assume("numbers are compared to a relative error of 1e-9; a row of nothing but zeros or missing values counts as absent");
    run.assume("which rows are cut off is only claimed for two breakdowns of one query, the second with a value of its own in each row");
}
