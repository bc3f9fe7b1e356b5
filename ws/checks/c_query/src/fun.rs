//! Funnels: what the real provider answers against a direct walk over the events of each user.
use crate::env::*;
use crate::filt::{Filter, Op};
use crate::seg::{by, ev, nn, pin, pref, row, st, trunc, DAY, HOUR};
use arrow::array::{Array, ArrayRef, Int64Array, RecordBatch, StringArray, TimestampMillisecondArray};
use arrow::datatypes::{DataType, Field, Schema, TimeUnit};
use chrono::{DateTime, Datelike, Duration, Utc};
use common::funnel::*;
use common::query::{Breakdown, EventRef, QueryTime, TimeIntervalUnit};
use datafusion::physical_expr::expressions::{BinaryExpr, Column, Literal};
use datafusion::physical_expr::PhysicalExprRef;
use datafusion_common::ScalarValue;
use mc::Run;
use metadata::custom_events::{CreateCustomEventRequest, Event as CEvent};
use query::funnel::{fix_request, FunnelProvider, Response};
use query::physical_plan::expressions::aggregate::partitioned::funnel as pf;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::sync::Arc;

type Unit = TimeIntervalUnitSession;
/// 0..2: a regular event by name, 10..: the same by number, 3: the custom event "View of a, or Buy"
type Ev = (usize, Option<Filter>);
#[derive(Clone, Debug)]
pub struct Rq { name: String, steps: Vec<Vec<Ev>>, unique: bool, unit: Option<TimeIntervalUnit>, window: (usize, Unit), ex: Vec<(Ev, Option<Option<(usize, usize)>>)>, hold: Vec<usize>, by: Vec<usize>, filters: Vec<Filter>, group: usize }
fn is_a() -> Filter { Filter { p: D, op: Op::Eq, vals: Some(vec![st("a")]) } }
fn matches(e: &Ev, r: &Row) -> bool {
    let own = match e.0 { 3 => (r.event == 0 && r.get(D) == Some(&st("a"))) || r.event == 1, k => r.event == k % 10 };
    own && e.1.as_ref().map_or(true, |f| f.keeps(r).unwrap())
}
fn millis(w: &(usize, Unit)) -> i64 { w.0 as i64 * match w.1 { Unit::Hour => HOUR, Unit::Day => DAY, Unit::Week => 7 * DAY, Unit::Month => 31 * DAY, Unit::Year => 372 * DAY, Unit::Session => unreachable!() } }
fn show(v: Option<&Val>) -> String {
    match v { None => "".into(), Some(Val::S(s)) => s.clone(), Some(Val::I(i)) => i.to_string(), Some(Val::B(b)) => b.to_string(), Some(Val::T(t)) => format!("{}{}", crate::seg::label(at(*t)), if t % 1000 == 0 { String::new() } else { format!(".{:03}", t.rem_euclid(1000)) }),
        Some(Val::N(n)) => { let m = (n.abs() + ONE / 2000) / (ONE / 1000); let s = if *n < 0 && m != 0 { "-" } else { "" }; if m % 1000 == 0 { format!("{s}{}", m / 1000) } else { format!("{s}{}.{:03}", m / 1000, m % 1000) } } }
}
/// the attempts of one user, as the times of the steps reached
pub fn attempts(rq: &Rq, rows: &[&Row]) -> Vec<Vec<i64>> {
    let n = rq.steps.len();
    let mut out = vec![];
    let mut cur: Vec<&Row> = vec![];
    for r in rows {
        if let Some(f) = cur.first() { if r.t - f.t > millis(&rq.window) { out.push(cur.iter().map(|r| r.t).collect()); cur.clear(); } }
        if !cur.is_empty() {
            let k = cur.len();
            let ex = rq.ex.iter().any(|(e, s)| matches(e, r) && match s { Some(Some((a, b))) => *a < k && k <= *b, _ => true });
            if ex || rq.hold.iter().any(|p| r.get(*p) != cur[0].get(*p)) { cur.clear(); }
        }
        if rq.steps[cur.len()].iter().any(|e| matches(e, r)) {
            cur.push(r);
            if cur.len() == n { out.push(cur.iter().map(|r| r.t).collect()); cur.clear(); if rq.unique { return out; } }
        }
    }
    if !cur.is_empty() { out.push(cur.iter().map(|r| r.t).collect()); }
    out
}
/// group and period: of each step the number of attempts and the times from the step before and from the first
type Answer = BTreeMap<(Vec<String>, Vec<Option<Val>>, i64), Vec<(i64, i64, i64)>>;
pub fn expect(rq: &Rq, rows: &[Row], from: DateTime<Utc>, to: DateTime<Utc>) -> Answer {
    let mut seqs: BTreeMap<(Vec<Option<Val>>, i64), Vec<&Row>> = BTreeMap::new();
    for r in rows.iter().filter(|r| at(r.t) >= from && at(r.t) <= to && rq.filters.iter().all(|f| f.keeps(r).unwrap())) { seqs.entry((rq.by.iter().map(|p| r.get(*p).cloned()).collect(), r.group(rq.group))).or_default().push(r); }
    let mut out = Answer::new();
    for ((g, _), mut l) in seqs {
        l.sort_by_key(|r| r.t);
        for a in attempts(rq, &l) {
            let ts = rq.unit.as_ref().map_or(from, |u| trunc(u, at(a[0]))).timestamp_millis();
            let e = out.entry((g.iter().map(|v| show(v.as_ref())).collect(), g.clone(), ts)).or_insert_with(|| vec![(0, 0, 0); rq.steps.len()]);
            for i in 0..a.len() { e[i].0 += 1; if i > 0 { e[i].1 += a[i] - a[i - 1]; e[i].2 += a[i] - a[0]; } }
        }
    }
    out
}
fn near(a: &str, b: f64) -> bool { a.parse::<f64>().map_or(false, |a| (a - b).abs() <= 0.000_500_1) }
fn compare(rq: &Rq, base: &Base, got: &Response, want: &Answer) -> Result<(), J> {
    let mut names = vec!["Segment".to_string()];
    names.extend(rq.by.iter().map(|p| props()[*p].name.to_string()));
    if got.groups != names { return Err(json!({"what": "names of the groups", "are": got.groups, "should be": names})); }
    if got.steps.len() != rq.steps.len() { return Err(json!({"what": "steps", "are": got.steps.len()})); }
    for (i, s) in got.steps.iter().enumerate() {
        let name = match rq.steps[i][0].0 { 3 => "custom".to_string(), k => EVENTS[k % 10].to_string() };
        if s.step != name { return Err(json!({"what": "name of a step", "is": s.step, "should be": name})); }
        let mut want: Vec<(Vec<String>, i64, &Vec<(i64, i64, i64)>)> = want.iter().map(|((g, _, t), v)| (std::iter::once("0".to_string()).chain(g.iter().cloned()).collect(), *t, v)).collect();
        let all = format!("{want:?}");
        let mut bad = s.data.len() != want.len();
        for d in &s.data {
            let k = want.iter().position(|(g, t, v)| {
                let (total, a, b) = v[i]; let first = v[0].0;
                let conv = if i == 0 { 100. } else { total as f64 * 100. / first as f64 };
                let avg = |x: i64| if total == 0 { 0. } else { x as f64 / total as f64 };
                d.groups.as_ref() == Some(g) && d.ts == *t && d.total == total && d.time_to_convert == a && d.time_to_convert_from_start == b && d.dropped_off == if i == 0 { 0 } else { v[i - 1].0 - total }
                    && near(&d.conversion_ratio.to_string(), conv) && near(&d.drop_off_ratio.to_string(), 100. - conv) && near(&d.avg_time_to_convert.to_string(), avg(a)) && near(&d.avg_time_to_convert_from_start.to_string(), avg(b))
            });
            match k { Some(k) => { want.remove(k); } None => bad = true }
        }
        if bad { return Err(json!({"what": "answer", "step": i, "is": format!("{:?}", s.data), "should be (totals and times of each step)": all})); }
    }
    let _ = base;
    Ok(())
}
fn eref(base: &Base, custom: u64, k: usize) -> EventRef { match k { 3 => EventRef::Custom(custom), k if k >= 10 => EventRef::Regular(base.events[k % 10]), k => ev(k) } }
fn request(base: &Base, custom: u64, rq: &Rq, time: &QueryTime, odd: bool) -> Funnel {
    // an empty list means the same as none
    fn opt<T>(v: Vec<T>, odd: bool) -> Option<Vec<T>> { if v.is_empty() && !odd { None } else { Some(v) } }
    let fs = |f: &Option<Filter>| opt(f.iter().map(|f| f.request()).collect(), odd);
    Funnel {
        time: time.clone(), group_id: rq.group,
        steps: rq.steps.iter().map(|s| Step { events: s.iter().map(|(e, f)| Event { event: eref(base, custom, *e), filters: fs(f) }).collect(), order: StepOrder::Exact }).collect(),
        time_window: TimeWindow { n: rq.window.0, unit: rq.window.1.clone() },
        chart_type: match &rq.unit { None => if odd { ChartType::Frequency } else { ChartType::Steps }, Some(u) => ChartType::ConversionOverTime { interval_unit: u.clone() } },
        count: if rq.unique { Count::Unique } else { Count::NonUnique }, filter: None, touch: None,
        holding_constants: opt(rq.hold.iter().map(|p| pref(*p)).collect(), odd),
        exclude: opt(rq.ex.iter().map(|((e, f), s)| Exclude { event: eref(base, custom, *e), filters: fs(f), steps: s.map(|s| match s { None => ExcludeSteps::All, Some((a, b)) => ExcludeSteps::Between(a, b) }) }).collect(), odd),
        breakdowns: opt(rq.by.iter().map(|p| by(*p)).collect::<Vec<Breakdown>>(), odd), segments: None, filters: opt(rq.filters.iter().map(|f| f.request()).collect(), odd),
    }
}
#[allow(clippy::too_many_arguments)]
fn judge(run: &Run, base: &Base, custom: u64, e: &Env, key: &str, rows: &[Row], rq: &Rq, time: &QueryTime, now: DateTime<Utc>, odd: bool) { judge_rows(run, base, custom, e, key, rows, rq, time, now, odd, true) }
#[allow(clippy::too_many_arguments)]
fn judge_rows(run: &Run, base: &Base, custom: u64, e: &Env, key: &str, rows: &[Row], rq: &Rq, time: &QueryTime, now: DateTime<Utc>, odd: bool, brief: bool) {
    run.case(|| format!("{key}: {}", rq.name), || {
        run.transitions(1);
        let (from, to) = time.range(now);
        let ctx = || json!({"request": format!("{rq:?}"), "events": if brief { rows.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>() } else { vec![] }});
        let bad = |mut j: J| { j["case"] = ctx(); j };
        let r = fix_request(&e.md, e.pid, request(base, custom, rq, time, odd)).map_err(|x| bad(json!({"what": "refused", "error": x.to_string()})))?;
        let got = block(FunnelProvider::new(e.md.clone(), e.opti.clone()).funnel(e.ctx(now), r)).map_err(|x| bad(json!({"what": "refused", "error": x.to_string()})))?;
        let want = expect(rq, rows, from, to);
        if run.wants_sample() && want.len() > 1 { run.sample(json!({"case": key, "request": format!("{rq:?}"), "answer": format!("{want:?}")})); }
        compare(rq, base, &got, &want).map_err(bad)
    });
}
fn plain(steps: &[usize]) -> Rq {
    Rq { name: format!("{steps:?}"), steps: steps.iter().map(|e| vec![(*e, None)]).collect(), unique: true, unit: None, window: (1, Unit::Day), ex: vec![], hold: vec![], by: vec![], filters: vec![], group: 0 }
}
fn named(mut r: Rq, what: &str) -> Rq { r.name = format!("{} {what}{}", r.name, if r.unique { "" } else { " (all)" }); r }
/// every option next to the plain funnel of two and three steps
pub fn requests() -> Vec<Rq> {
    let mut v = vec![];
    for unique in [true, false] {
        for s in [&[0usize, 1][..], &[0, 0], &[0, 1, 2], &[0, 1, 0], &[0]] {
            let p = Rq { unique, ..plain(s) };
            v.push(named(p.clone(), ""));
            if s == [0] { continue; }
            v.push(named(Rq { ex: vec![((2, None), None)], ..p.clone() }, "without Open"));
            v.push(named(Rq { hold: vec![D], ..p.clone() }, "same Product"));
            v.push(named(Rq { by: vec![D], ..p.clone() }, "by Product"));
            v.push(named(Rq { unit: Some(TimeIntervalUnit::Day), ..p.clone() }, "by day"));
        }
        let p = Rq { unique, ..plain(&[0, 1, 1]) };
        for (a, b) in [(0, 1), (1, 2), (0, 2)] { for e in [2, 0] { v.push(named(Rq { ex: vec![((e, None), Some(Some((a, b))))], ..p.clone() }, &format!("without {} from {a} to {b}", EVENTS[e]))); } }
        v.push(named(Rq { ex: vec![((2, Some(is_a())), Some(None)), ((0, None), Some(Some((1, 2))))], ..p.clone() }, "without two"));
        let mut q = plain(&[0, 1]); q.unique = unique;
        v.push(named(Rq { steps: vec![vec![(0, Some(is_a()))], vec![(1, None), (2, Some(is_a()))]], ..q.clone() }, "filters and two events"));
        v.push(named(Rq { steps: vec![vec![(10, None)], vec![(3, None)]], ..q.clone() }, "custom second"));
        v.push(named(Rq { steps: vec![vec![(3, None)], vec![(12, None)]], ..q.clone() }, "custom first"));
        v.push(named(Rq { group: 1, ..q.clone() }, "of companies"));
        v.push(named(Rq { group: 1, hold: vec![D], by: vec![D], ex: vec![((2, None), None)], ..q.clone() }, "of companies with constant"));
        v.push(named(Rq { filters: vec![is_a()], ..q.clone() }, "only a"));
        v.push(named(Rq { filters: vec![is_a()], by: vec![D], ..q.clone() }, "only a by Product"));
        v.push(named(Rq { steps: vec![vec![(0, Some(is_a()))], vec![(1, None)]], by: vec![D], hold: vec![D], ex: vec![((2, None), None)], unit: Some(TimeIntervalUnit::Hour), ..q.clone() }, "everything"));
    }
    v
}
const GAPS: [i64; 2] = [HOUR, 23 * HOUR + 1];
/// the k-th sequence of a user: in each place an event with or without the property a, soon or late after the one before
fn sequence(mut k: usize, len: usize, user: i64, start: i64) -> Vec<Row> {
    let mut t = start;
    (0..len).map(|_| {
        let (e, g, d) = (k % 3, k / 3 % 2, k / 6 % 2); k /= 12;
        t += GAPS[g];
        row(user, e, t, if d == 1 { &[] as &[_] } else { A.get_or_init(|| vec![(D, st("a"))]) })
    }).collect()
}
static A: std::sync::OnceLock<Vec<(usize, Val)>> = std::sync::OnceLock::new();

pub fn q03(run: &Arc<Run>) {
    let base = Base::new();
    let custom = base.md.custom_events.create(base.pid, CreateCustomEventRequest { created_by: 1, tags: None, name: "custom".into(), description: None, status: metadata::custom_events::Status::Enabled, is_system: false, events: vec![CEvent { event: ev(0), filters: Some(vec![is_a().request()]) }, CEvent { event: ev(1), filters: None }] }).unwrap().id;
    let year = at(0).with_year(2024).unwrap();
    let ms = year.timestamp_millis();
    let now = year + Duration::days(400);
    let time = QueryTime::Between { from: year, to: year + Duration::days(30) };
    let all = requests();
    run.extra("requests", json!(all.len()));
    // 1: every sequence of events of a user next to another one's, in every request
    run.phase("sequences");
    let full = if run.thorough() { 4 } else { 3 };
    for len in 1..=full {
        let n = 12usize.pow(len as u32);
        // two users in one store
        mc::par(n.div_ceil(2), |i| {
            pin(3);
            let e = Env::new(&base);
            let a = sequence(i, len, 1, ms);
            let b = sequence((i + n / 2) % n, len, 2, ms + 2 * HOUR);
            let mut rows = if i % 2 == 0 { [a.clone(), b].concat() } else { [b, a.clone()].concat() };
            // before and after the time of the request, and one at its beginning
            if i % 3 == 0 { rows.push(row(1, 0, ms - HOUR / 2, &[])); rows.push(row(3, 0, ms, &[])); rows.push(row(2, 1, ms + 30 * DAY + 1, &[])); }
            e.noise(&a.iter().chain(&sequence(n - 1 - i, len, 7, ms)).cloned().collect::<Vec<_>>());
            let l = &Layout::ALL[i / 2 % 4];
            e.load(&rows, l);
            run.states(1);
            // the longest sequences of the quick run take turns
            let turns = match (run.thorough(), len) { (false, 3) => 8, (true, 4) => 6, _ => 1 };
            for (j, rq) in all.iter().enumerate() { if (i + j) % turns == 0 { judge(run, &base, custom, &e, &format!("{len}.{i} {l:?}"), &rows, rq, &time, now, (i + j) % 2 == 0); } }
            run.validated(1);
        });
    }
    if !run.thorough() { run.assume("sequences of three events are each asked an eighth of the requests, all of them over the sequences that differ in the rest"); } else { run.assume("sequences of four events are each asked a sixth of the requests"); }
    // 2: windows and periods: two events around the border of each
    run.phase("windows and periods");
    let long = QueryTime::Between { from: year, to: year + Duration::days(3 * 366) };
    let late = year + Duration::days(4 * 366);
    let units = [TimeIntervalUnit::Hour, TimeIntervalUnit::Day, TimeIntervalUnit::Week, TimeIntervalUnit::Month, TimeIntervalUnit::Year];
    let windows: Vec<(usize, Unit)> = [Unit::Hour, Unit::Day, Unit::Week, Unit::Month, Unit::Year].iter().flat_map(|u| [1, 2].map(|n| (n, u.clone()))).collect();
    mc::par(windows.len(), |i| {
        pin(3);
        let w = &windows[i];
        let e = Env::new(&base);
        let starts = [0, 5 * HOUR + 1, 30 * DAY + 23 * HOUR, 31 * DAY, 59 * DAY + HOUR, 200 * DAY, 365 * DAY, 366 * DAY, 366 * DAY + 59 * DAY];
        let mut rows = vec![];
        for (k, s) in starts.iter().enumerate() { for (j, d) in [-1, 0, 1].iter().enumerate() { let u = (k * 3 + j) as i64 + 1; rows.push(row(u, 0, ms + s, &[])); rows.push(row(u, 1, ms + s + millis(w) + d, &[])); } }
        e.noise(&rows[3..]);
        e.load(&rows, &Layout::ALL[i % 4]);
        run.states(1);
        for unique in [true, false] { for u in std::iter::once(None).chain(units.iter().cloned().map(Some)) {
            if u == Some(TimeIntervalUnit::Hour) && i % 5 != 0 && !run.thorough() { continue; }
            let rq = named(Rq { window: w.clone(), unique, unit: u.clone(), ..plain(&[0, 1]) }, &format!("window {w:?} by {u:?}"));
            judge(run, &base, custom, &e, "windows", &rows, &rq, &long, late, false);
        } }
        for (k, t) in [QueryTime::From(year + Duration::days(31)), QueryTime::Last { last: 12, unit: TimeIntervalUnit::Month }, QueryTime::Last { last: 3, unit: TimeIntervalUnit::Week }].iter().enumerate() {
            let now = year + Duration::days([500, 420, 37][k]) + Duration::hours(7);
            let rq = named(Rq { window: w.clone(), unit: Some(units[k + 1].clone()), ..plain(&[0, 1]) }, &format!("window {w:?} in {}", crate::seg::time_name(t)));
            let rows: Vec<Row> = rows.clone();
            judge(run, &base, custom, &e, "windows", &rows, &rq, t, now, false);
        }
        run.validated(1);
    });
    // two constants and two breakdowns at once: every pair of pairs of values
    run.phase("pairs of properties");
    let vals = crate::filt::values();
    mc::par(vals.len(), |i| {
        let (p, l) = &vals[i];
        if *p == D { return }
        pin(3);
        let e = Env::new(&base);
        let one: Vec<Vec<(usize, Val)>> = (0..6).map(|k| {
            let mut v = vec![];
            if k % 3 > 0 { v.push((D, st(["a", "b"][k % 3 - 1]))); }
            if k / 3 > 0 { v.push((*p, l[0].clone())); }
            v
        }).collect();
        let mut rows = vec![];
        for (a, x) in one.iter().enumerate() { for (b, y) in one.iter().enumerate() {
            let u = (a * 6 + b) as i64 + 1;
            rows.push(row(u, 0, ms + HOUR, x)); rows.push(row(u, 1, ms + 2 * HOUR, y));
            // and once more, after another event
            rows.push(row(u, 1, ms + 3 * HOUR, &one[(a + b) % 6]));
        } }
        rows.sort_by_key(|r| r.t);
        e.load(&rows, &Layout::ALL[i % 4]);
        run.states(1);
        for unique in [true, false] {
            let q = Rq { unique, window: (3, Unit::Day), ..plain(&[0, 1]) };
            for l in [[D, *p], [*p, D]] {
                let n = props()[*p].name;
                judge(run, &base, custom, &e, n, &rows, &named(Rq { hold: l.to_vec(), ..q.clone() }, &format!("constants {l:?}")), &time, now, false);
                judge(run, &base, custom, &e, n, &rows, &named(Rq { by: l.to_vec(), ..q.clone() }, &format!("breakdowns {l:?}")), &time, now, false);
                judge(run, &base, custom, &e, n, &rows, &named(Rq { by: vec![l[0]], hold: vec![l[1]], ..q.clone() }, &format!("by and constant {l:?}")), &time, now, false);
                judge(run, &base, custom, &e, n, &rows, &named(Rq { hold: l.to_vec(), ..Rq { unique, window: (3, Unit::Day), ..plain(&[0, 1, 1]) } }, &format!("three steps, constants {l:?}")), &time, now, false);
            }
        }
    });
    // 3: properties of every type, in filters, as constants, and as breakdowns
    run.phase("properties");
    let vals = crate::filt::values();
    let sets: Vec<(usize, Vec<Val>)> = vals.clone();
    mc::par(sets.len(), |i| {
        pin(3);
        let (p, l) = &sets[i];
        let e = Env::new(&base);
        let choices: Vec<Option<Val>> = std::iter::once(None).chain(l.iter().cloned().map(Some)).collect();
        let mut rows = vec![];
        // a user for every pair of values of the two events
        for (a, x) in choices.iter().enumerate() { for (b, y) in choices.iter().enumerate() {
            let u = (a * choices.len() + b) as i64 % 32 + 1;
            let t = ms + HOUR * (1 + 4 * ((a * choices.len() + b) as i64 / 32));
            let pr = |v: &Option<Val>| v.iter().map(|v| (*p, v.clone())).collect::<Vec<_>>();
            rows.push(row(u, 0, t, &pr(x))); rows.push(row(u, 1, t + HOUR, &pr(y)));
        } }
        let (first, second): (Vec<Row>, Vec<Row>) = rows.iter().cloned().partition(|r| r.t < ms + 5 * HOUR);
        let rows = [first, second].concat();
        e.noise(&rows[1..rows.len().min(9)]);
        e.load(&rows, &Layout::ALL[i % 4]);
        run.states(1);
        for unique in [true, false] {
            let q = Rq { unique, window: (3, Unit::Day), ..plain(&[0, 1]) };
            judge(run, &base, custom, &e, props()[*p].name, &rows, &named(Rq { hold: vec![*p], ..q.clone() }, "constant"), &time, now, false);
            judge(run, &base, custom, &e, props()[*p].name, &rows, &named(Rq { by: vec![*p], ..q.clone() }, "breakdown"), &time, now, false);
            judge(run, &base, custom, &e, props()[*p].name, &rows, &named(Rq { by: vec![*p], hold: vec![*p], ..q.clone() }, "both"), &time, now, false);
            judge(run, &base, custom, &e, props()[*p].name, &rows, &named(Rq { by: vec![*p], hold: vec![*p], group: 1, ..q.clone() }, "both, of companies"), &time, now, false);
            for f in crate::filt::filters(*p, l) {
                if f.keeps(&rows[0]).is_none() { continue; }
                let n = f.name();
                judge(run, &base, custom, &e, "", &rows, &named(Rq { steps: vec![vec![(0, Some(f.clone()))], vec![(1, None)]], ..q.clone() }, &format!("first {n}")), &time, now, false);
                if unique { judge(run, &base, custom, &e, "", &rows, &named(Rq { steps: vec![vec![(0, None)], vec![(1, Some(f.clone()))]], by: vec![*p], ..q.clone() }, &format!("second {n} by it")), &time, now, false); }
                else { judge(run, &base, custom, &e, "", &rows, &named(Rq { ex: vec![((1, Some(f.clone())), None)], hold: vec![*p], ..q.clone() }, &format!("without {n}, constant")), &time, now, false); }
                judge(run, &base, custom, &e, "", &rows, &named(Rq { filters: vec![f.clone()], ..q.clone() }, &format!("all {n}")), &time, now, false);
            }
        }
        run.validated(1);
    });
    // more rows than fit into one batch
    run.phase("many rows");
    let many = crate::seg::many(run.pick(9_500, 30_000), ms);
    let layouts = [Layout::Memory, Layout::Halves];
    let envs: Vec<Env> = layouts.iter().map(|l| { let e = Env::new(&base); e.noise(&many[..100]); e.load(&many, l); run.states(1); e }).collect();
    let year_of = QueryTime::Between { from: year, to: year + Duration::days(360) };
    let some: Vec<Rq> = all.iter().enumerate().filter(|(i, r)| run.thorough() || i % 4 == 1 || r.group == 1).map(|(_, r)| Rq { unit: r.unit.as_ref().map(|_| TimeIntervalUnit::Month), ..r.clone() }).collect();
    mc::par(some.len() * 2, |i| { pin(3); judge_rows(run, &base, custom, &envs[i % 2], &format!("many rows {:?}", layouts[i % 2]), &many, &some[i / 2], &year_of, now, i % 4 > 1, false); run.validated(1); });
    drop(envs);
    // 4: the funnel's walk itself, with the rows cut into batches at every place
    run.phase("batches");
    let len = if run.thorough() { 5 } else { 4 };
    let qs: Vec<Rq> = requests().into_iter().filter(|r| r.steps.iter().flatten().all(|e| e.0 < 3) && r.steps.iter().flatten().all(|e| e.1.is_none()) && r.ex.iter().all(|e| e.0.1.is_none()) && r.filters.is_empty() && r.unit.is_none() && r.group == 0).collect();
    run.extra("walks", json!(qs.len()));
    // three events and two values of the property in each place, users of every split of the rows
    let n = 6usize.pow(len as u32);
    mc::par(n, |i| {
        let k = |j: usize| i / 6usize.pow(j as u32) % 6;
        for users in 0..len {
            let rows: Vec<Row> = (0..len).map(|j| row(if j < users { 1 } else { 2 }, k(j) % 3, ms + HOUR * [0, 1, 2, 27, 28, 29][j % 6], &if k(j) < 3 { vec![(D, st("a")), (N, nn(1))] } else { vec![] })).collect();
            for (q, rq) in qs.iter().enumerate() {
            if !run.thorough() && (i + users + q) % 3 > 0 { continue; }
            run.states(1);
            let want: BTreeMap<Vec<String>, Vec<i64>> = expect(rq, &rows, year, year + Duration::days(30)).into_iter().map(|((g, _, _), v)| (g, v.iter().map(|v| v.0).collect())).collect();
            for cuts in 0..1usize << (len - 1) {
                run.case(|| format!("walk {i} {users} {cuts} {}", rq.name), || {
                    run.transitions(1);
                    let got = walk(rq, &rows, cuts);
                    if got != want { return Err(json!({"what": "totals of the steps", "are": format!("{got:?}"), "should be": format!("{want:?}"), "request": format!("{rq:?}"), "cut after": (0..len - 1).filter(|j| cuts >> j & 1 == 1).collect::<Vec<_>>(), "rows": rows.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>()})); }
                    Ok(())
                });
            }
            }
        }
        run.validated(1);
    });
    run.assume("the order in which an attempt is judged is: a new user, the window, exclusions and constants (either begins anew), the step; unique counts end with a user's first complete attempt");
    run.assume("steps in any order, the filters by drop-off or time to convert, touch, counts of sessions, and windows of a session are not claimed");
}
fn walk(rq: &Rq, rows: &[Row], cuts: usize) -> BTreeMap<Vec<String>, Vec<i64>> {
    let schema = Arc::new(Schema::new(vec![Field::new("user", DataType::Int64, false), Field::new("ts", DataType::Timestamp(TimeUnit::Millisecond, None), false), Field::new("event", DataType::Int64, false), Field::new("d", DataType::Utf8, true)]));
    let col = |n: &str| Arc::new(Column::new_with_schema(n, &schema).unwrap()) as PhysicalExprRef;
    let is = |e: usize| Arc::new(BinaryExpr::new(col("event"), datafusion::logical_expr::Operator::Eq, Arc::new(Literal::new(ScalarValue::Int64(Some(e as i64)))))) as PhysicalExprRef;
    let any = |l: &Vec<Ev>| l[1..].iter().fold(is(l[0].0), |a, e| Arc::new(BinaryExpr::new(a, datafusion::logical_expr::Operator::Or, is(e.0))) as PhysicalExprRef);
    let opts = pf::funnel::Options {
        schema: schema.clone(), ts_col: col("ts"), from: at(rows[0].t), to: at(rows[0].t) + Duration::days(30), time_interval: None, window: Duration::milliseconds(millis(&rq.window)),
        steps: rq.steps.iter().map(|s| (any(s), pf::StepOrder::Exact)).collect(),
        exclude: if rq.ex.is_empty() { None } else { Some(rq.ex.iter().map(|(e, s)| pf::ExcludeExpr { expr: is(e.0), steps: match s { Some(Some((a, b))) => Some(pf::ExcludeSteps { from: *a, to: *b }), _ => None } }).collect()) },
        constants: if rq.hold.is_empty() { None } else { Some(vec![col("d")]) },
        count: if rq.unique { pf::Count::Unique } else { pf::Count::NonUnique }, filter: None, touch: None, partition_col: col("user"),
        groups: if rq.by.is_empty() { None } else { Some(vec![(col("d"), "d".to_string(), arrow::row::SortField::new(DataType::Utf8))]) },
    };
    let mut f = pf::funnel::Funnel::try_new(opts).unwrap();
    let mut start = 0;
    for j in 0..rows.len() {
        if j + 1 == rows.len() || cuts >> j & 1 == 1 {
            let l = &rows[start..=j]; start = j + 1;
            let cols: Vec<ArrayRef> = vec![Arc::new(Int64Array::from(l.iter().map(|r| r.user).collect::<Vec<_>>())), Arc::new(TimestampMillisecondArray::from(l.iter().map(|r| r.t).collect::<Vec<_>>())), Arc::new(Int64Array::from(l.iter().map(|r| r.event as i64).collect::<Vec<_>>())),
                Arc::new(StringArray::from(l.iter().map(|r| r.get(D).map(|v| show(Some(v)))).collect::<Vec<_>>()))];
            f.evaluate(&RecordBatch::try_new(schema.clone(), cols).unwrap(), None).unwrap();
        }
    }
    let g = rq.by.len();
    let res = f.finalize().unwrap();
    let int = |i: usize| res[i].as_any().downcast_ref::<Int64Array>().unwrap().clone();
    (0..res[0].len()).map(|r| {
        let names = (0..g).map(|i| { let a = res[i].as_any().downcast_ref::<StringArray>().unwrap(); if a.is_null(r) { "".into() } else { a.value(r).to_string() } }).collect();
        (names, (0..rq.steps.len()).map(|s| int(g + 1 + 8 * s).value(r)).collect())
    }).collect()
}
