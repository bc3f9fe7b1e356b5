//! Filters on properties: what a request keeps, against the meaning of each operator on a value.
use crate::env::*;
use crate::seg::{ev, judge_with, nn, nq, pin, pref, req, row, st, DAY};
use chrono::Duration;
use common::query::*;
use common::types::COLUMN_EVENT_ID;
use datafusion_common::ScalarValue;
use mc::Run;
use metadata::custom_events::{CreateCustomEventRequest, Event as CEvent};
use query::event_records::{fix_search_request, Event as SEvent, EventRecordsProvider, EventRecordsSearchRequest};
use serde_json::{json, Value as J};
use std::sync::Arc;

pub type Op = PropValueOperation;
#[derive(Clone, Debug)]
pub struct Filter { pub p: usize, pub op: Op, pub vals: Option<Vec<Val>> }

/// a value as the API hands it over: numbers are decimals of whatever scale they need
pub fn scalar(v: &Val) -> ScalarValue {
    match v {
        Val::S(s) => ScalarValue::Utf8(Some(s.clone())), Val::B(b) => ScalarValue::Boolean(Some(*b)),
        Val::I(x) | Val::T(x) => ScalarValue::Decimal128(Some(*x as i128), 28, 0),
        Val::N(x) => { let (mut m, mut s) = (*x, 16); while s > 0 && m % 10 == 0 { m /= 10; s -= 1; } ScalarValue::Decimal128(Some(m), 28, s) }
    }
}
impl Filter {
    pub fn request(&self) -> PropValueFilter { PropValueFilter::Property { property: pref(self.p), operation: self.op.clone(), value: self.vals.as_ref().map(|v| v.iter().map(scalar).collect()) } }
    pub fn name(&self) -> String { format!("{} {:?} {:?}", props()[self.p].name, self.op, self.vals) }
    /// None: the request makes no sense and has to be refused
    pub fn keeps(&self, r: &Row) -> Option<bool> { self.keeps_value(r.get(self.p)) }
    pub fn keeps_value(&self, v: Option<&Val>) -> Option<bool> {
        let vals = self.vals.clone().unwrap_or_default();
        if !self.op.is_without_value() && vals.is_empty() { return None; }
        Some(match self.op {
            Op::Exists => v.is_some(), Op::Empty => v.is_none(),
            Op::True => v == Some(&Val::B(true)), Op::False => v == Some(&Val::B(false)),
            _ => {
                let Some(v) = v else { return Some(false) };
                let text = || match v { Val::S(s) => s.clone(), o => panic!("{o:?}") };
                let pat = |x: &Val| match x { Val::S(s) => s.clone(), o => panic!("{o:?}") };
                match self.op {
                    Op::Eq => vals.contains(v), Op::Neq => !vals.contains(v),
                    Op::Gt => vals.iter().any(|x| v > x), Op::Gte => vals.iter().any(|x| v >= x), Op::Lt => vals.iter().any(|x| v < x), Op::Lte => vals.iter().any(|x| v <= x),
                    Op::Like => vals.iter().any(|x| like(&text(), &pat(x))), Op::NotLike => !vals.iter().any(|x| like(&text(), &pat(x))),
                    Op::Regex => vals.iter().any(|x| regex(&text(), &pat(x))), Op::NotRegex => !vals.iter().any(|x| regex(&text(), &pat(x))),
                    _ => unreachable!(),
                }
            }
        })
    }
}
fn like(s: &str, p: &str) -> bool {
    fn go(s: &[char], p: &[char]) -> bool {
        match p.first() { None => s.is_empty(), Some('%') => (0..=s.len()).any(|i| go(&s[i..], &p[1..])), Some('_') => !s.is_empty() && go(&s[1..], &p[1..]), Some(c) => s.first() == Some(c) && go(&s[1..], &p[1..]) }
    }
    go(&s.chars().collect::<Vec<_>>(), &p.chars().collect::<Vec<_>>())
}
/// of the patterns used here: literals, ., ^, $ and *
fn regex(s: &str, p: &str) -> bool {
    fn here(s: &[char], p: &[char]) -> bool {
        match p { [] => true, ['$'] => s.is_empty(), [c, '*', rest @ ..] => (0..=s.len()).take_while(|i| *i == 0 || *c == '.' || s[*i - 1] == *c).any(|i| here(&s[i..], rest)),
            [c, rest @ ..] => !s.is_empty() && (*c == '.' || *c == s[0]) && here(&s[1..], rest) }
    }
    let (s, p): (Vec<char>, Vec<char>) = (s.chars().collect(), p.chars().collect());
    if p.first() == Some(&'^') { here(&s, &p[1..]) } else { (0..=s.len()).any(|i| here(&s[i..], &p)) }
}

/// each value of each property, and its absence
pub fn rows(ms: i64) -> Vec<Row> {
    let mut v = vec![];
    let vals = values();
    for i in 0..7usize {
        let mut p = vec![];
        for (q, l) in &vals { if i % (l.len() + 1) < l.len() { p.push((*q, l[i % (l.len() + 1)].clone())); } }
        v.push(row(1 + (i as i64 % 3), i % 2, ms + i as i64 * DAY, &p));
        let few: Vec<(usize, Val)> = p.iter().rev().enumerate().filter(|(k, _)| (k + i) % 2 == 0).map(|(_, x)| x.clone()).collect();
        v.push(row(1 + (i as i64 % 2), (i + 1) % 2, ms + i as i64 * DAY, &few));
    }
    v
}
pub fn values() -> Vec<(usize, Vec<Val>)> {
    let half = ONE / 2;
    vec![(D, vec![st("a"), st("b"), st("ab"), st("")]), (N, vec![nn(0), nn(-1), Val::N(dec(1) + half), Val::N(ONE / 1000)]), (I, vec![Val::I(0), Val::I(-5), Val::I(1 << 40)]), (B, vec![Val::B(true), Val::B(false)]),
        (T, vec![Val::T(0), Val::T(1_700_000_000_000), Val::T(1_700_000_000_001)]), (S, vec![st("x"), st(""), st("yé"), st("a%b")]), (U, vec![st("a"), st("ab")]), (D8, vec![st("b"), st("a"), st("ab")]),
        (I8, vec![Val::I(0), Val::I(-128), Val::I(127)]), (N2, vec![nn(3), nn(-2)]), (C, vec![st("b"), st("ab")]), (CN, vec![nn(3), nn(-2)]), (I16, vec![Val::I(300), Val::I(-1)]), (I32, vec![Val::I(100000), Val::I(-1)])]
}
/// all filters on one property, with none, one and two values
pub fn filters(p: usize, l: &[Val]) -> Vec<Filter> {
    let q = &props()[p];
    let f = |op: &Op, vals: Option<Vec<Val>>| Filter { p, op: op.clone(), vals };
    let mut v = vec![f(&Op::Exists, None), f(&Op::Empty, None), f(&Op::Exists, Some(vec![])), f(&Op::Eq, None), f(&Op::Neq, Some(vec![]))];
    if l.iter().any(|x| matches!(x, Val::B(_))) { v.push(f(&Op::True, None)); v.push(f(&Op::False, None)); }
    let text = l.iter().any(|x| matches!(x, Val::S(_)));
    let mut ops = vec![Op::Eq, Op::Neq];
    if !text && !l.iter().any(|x| matches!(x, Val::B(_))) { ops.extend([Op::Gt, Op::Gte, Op::Lt, Op::Lte]); }
    if text && q.dict.is_none() { ops.extend([Op::Gt, Op::Lte]); }
    let mut at: Vec<Val> = l.to_vec();
    // values that no event has
    at.push(match &l[0] { Val::S(_) => st("nowhere"), Val::N(_) => nn(7), Val::I(_) => Val::I(7), Val::T(_) => Val::T(5), Val::B(_) => Val::B(true) });
    for op in &ops { for (i, a) in at.iter().enumerate() { v.push(f(op, Some(vec![a.clone()]))); for b in &at[i + 1..] { if a != b { v.push(f(op, Some(vec![a.clone(), b.clone()]))); v.push(f(op, Some(vec![b.clone(), a.clone()]))); } } } }
    if text {
        for op in [Op::Like, Op::NotLike] { for x in ["a", "a%", "%b", "_", "_%", "", "A%"] { v.push(f(&op, Some(vec![st(x)]))); v.push(f(&op, Some(vec![st(x), st("%b%")]))); } }
        for op in [Op::Regex, Op::NotRegex] { for x in ["a", "^a", "b$", "^.$", "^$", ".*", "a.*b"] { v.push(f(&op, Some(vec![st(x)]))); v.push(f(&op, Some(vec![st(x), st("^b")]))); } }
    }
    v
}
fn clone(fs: &[Filter]) -> Option<Vec<PropValueFilter>> { Some(fs.iter().map(|f| f.request()).collect()) }

/// the numbers of the events a search finds, latest first
pub fn search(e: &Env, events: Option<Vec<SEvent>>, filters: Option<Vec<PropValueFilter>>, properties: Option<Vec<PropertyRef>>, time: QueryTime, now: chrono::DateTime<chrono::Utc>) -> Result<Table, J> {
    let r = EventRecordsSearchRequest { time, events, filters, properties };
    let r = fix_search_request(&e.md, e.pid, r).map_err(|x| json!({"what": "refused", "error": x.to_string()}))?;
    let p = EventRecordsProvider::new(e.md.clone(), e.opti.clone());
    block(p.search(e.ctx(now), r)).map(|t| Table::new(&t)).map_err(|x| json!({"what": "refused", "error": x.to_string()}))
}
pub fn ids(e: &Env, t: &Table) -> Result<Vec<i64>, J> {
    if t.rows.is_empty() { return Ok(vec![]); }
    let name = e.md.event_properties.list(e.pid).unwrap().data.into_iter().find(|p| p.column_name() == COLUMN_EVENT_ID).map(|p| p.name()).unwrap_or(COLUMN_EVENT_ID.to_string());
    let c = t.cols.iter().position(|c| *c == name || c == COLUMN_EVENT_ID).ok_or(json!({"what": "no event id", "columns": t.cols}))?;
    t.rows.iter().map(|r| match &r[c] { Cell::V(Val::I(x)) => Ok(*x), o => Err(json!({"what": "an event id", "is": format!("{o:?}")})) }).collect()
}

pub fn q02(run: &Arc<Run>) {
    let base = Base::new();
    let year = at(1_704_067_200_000);
    let now = year + Duration::days(400);
    let rows = rows(year.timestamp_millis());
    let time = QueryTime::Between { from: year, to: year + Duration::days(30) };
    let envs: Vec<Env> = Layout::ALL.iter().map(|l| { let e = Env::new(&base); e.noise(&rows[2..]); e.load(&rows, l); run.states(1); e }).collect();
    let all: Vec<Filter> = values().iter().flat_map(|(p, l)| filters(*p, l)).collect();
    // a few of each property, to combine
    let some: Vec<Filter> = values().iter().flat_map(|(p, l)| { let f: Vec<Filter> = filters(*p, l).into_iter().filter(|f| f.keeps(&rows[0]).is_some()).collect(); let n = f.len(); let k = if matches!(l[0], Val::S(_)) { 6 } else { 3 }; (0..k).map(move |j| f[(j * (n - 1)) / (k - 1)].clone()).collect::<Vec<_>>() }).collect();
    let mut cases: Vec<(Vec<Filter>, Vec<Filter>)> = vec![]; // of the event, of the request
    for f in &all { cases.push((vec![f.clone()], vec![])); cases.push((vec![], vec![f.clone()])); }
    for (i, a) in some.iter().enumerate() { for (j, b) in some.iter().enumerate() { if run.thorough() || (i + 2 * j) % 3 == 0 || a.p == b.p { cases.push((vec![a.clone(), b.clone()], vec![])); cases.push((vec![a.clone()], vec![b.clone()])); } } }
    run.extra("filters", json!(all.len()));
    run.extra("requests", json!(cases.len() * 2));
    run.phase("filters");
    mc::par(cases.len(), |i| {
        pin(3);
        let (own, common) = &cases[i];
        let both: Vec<&Filter> = own.iter().chain(common).collect();
        let key = format!("{} / {}", own.iter().map(|f| f.name()).collect::<Vec<_>>().join(", "), common.iter().map(|f| f.name()).collect::<Vec<_>>().join(", "));
        let sense = both.iter().all(|f| f.keeps(&rows[0]).is_some());
        let e = &envs[i % 4];
        let opt = |f: &Vec<Filter>| if f.is_empty() { if i % 2 == 0 { None } else { Some(vec![]) } } else { clone(f) };
        // the number of events of each of two kinds
        let keep = |n: usize, r: &Row| (if n == 0 { both.clone() } else { common.iter().collect() }).iter().all(|f| f.keeps(r).unwrap());
        run.states(1);
        if sense {
            let q = vec![nq(common::event_segmentation::Query::CountEvents)];
            let mut r = req(TimeIntervalUnit::Day, time.clone(), vec![common::event_segmentation::Event::new(ev(0), opt(own), None, q.clone()), common::event_segmentation::Event::new(ev(1), None, None, q)]);
            r.filters = opt(common);
            judge_with(run, e, &format!("{key}: count"), &rows, now, &r, &keep, None);
        }
        // the events themselves
        run.case(|| format!("{key}: search"), || {
            run.transitions(1);
            let events = Some(vec![SEvent { event: ev(0), filters: opt(own) }, SEvent { event: ev(1), filters: None }]);
            let props = match i % 3 { 0 => None, 1 => Some(vec![pref(B)]), _ => Some(vec![pref(D), pref(S)]) };
            let got = search(e, events, opt(common), props, time.clone(), now);
            if !sense { return match got { Err(_) => Ok(()), Ok(_) => Err(json!("a filter without the value it needs was let through")) }; }
            let got = ids(e, &got?)?;
            let mut want: Vec<i64> = rows.iter().enumerate().filter(|(_, r)| keep(r.event, r)).map(|(i, _)| i as i64 + 1).collect();
            want.reverse();
            if got != want { return Err(json!({"found": got, "should find": want, "rows": rows.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>()})); }
            Ok(())
        });
        run.validated(1);
    });
    // custom events: one of two events, each with filters of its own; events by their number
    run.phase("custom events");
    let mut customs: Vec<(u64, Filter, Option<Filter>, String)> = vec![];
    for (i, f) in some.iter().enumerate() {
        let other = if i % 3 == 0 { None } else { Some(some[(i * 7 + 3) % some.len()].clone()) };
        let nest = i % 4 == 1;
        let second = if i % 2 == 0 { ev(1) } else { EventRef::Regular(base.events[1]) };
        let make = |name: String, events| base.md.custom_events.create(base.pid, CreateCustomEventRequest { created_by: 1, tags: None, name, description: None, status: metadata::custom_events::Status::Enabled, is_system: false, events }).unwrap().id;
        let first = CEvent { event: ev(0), filters: Some(vec![f.request()]) };
        let second = CEvent { event: second, filters: other.as_ref().map(|o| vec![o.request()]) };
        let id = if nest { let inner = make(format!("inner {i}"), vec![second]); make(format!("c {i}"), vec![CEvent { event: EventRef::Custom(inner), filters: None }, first]) } else { make(format!("c {i}"), vec![first, second]) };
        customs.push((id, f.clone(), other.clone(), format!("custom ({}) or ({})", f.name(), other.map(|o| o.name()).unwrap_or_default())));
    }
    mc::par(customs.len(), |i| {
        pin(3);
        let (id, f, other, key) = &customs[i];
        let own = some[(i * 5 + 1) % some.len()].clone();
        let is = |r: &Row| (r.event == 0 && f.keeps(r).unwrap()) || (r.event == 1 && other.as_ref().map_or(true, |o| o.keeps(r).unwrap()));
        for (j, own) in [None, Some(own)].iter().enumerate() {
            run.states(1);
            let e = &envs[(i + j) % 4];
            let filters = own.as_ref().map(|o| vec![o.request()]);
            let q = vec![nq(common::event_segmentation::Query::CountEvents)];
            let r = req(TimeIntervalUnit::Day, time.clone(), vec![common::event_segmentation::Event::new(EventRef::Custom(*id), filters.clone(), None, q.clone()), common::event_segmentation::Event::new(EventRef::Regular(base.events[1]), None, None, q)]);
            let keep = |n: usize, r: &Row| if n == 0 { is(r) && own.as_ref().map_or(true, |o| o.keeps(r).unwrap()) } else { r.event == 1 };
            let key = format!("{key} {}", own.as_ref().map(|o| o.name()).unwrap_or_default());
            judge_with(run, e, &format!("{key}: count"), &rows, now, &r, &keep, None);
            run.case(|| format!("{key}: search"), || {
                run.transitions(1);
                let events = Some(vec![SEvent { event: EventRef::Custom(*id), filters: filters.clone() }]);
                let props = match i % 3 { 0 => None, 1 => Some(vec![pref(B)]), _ => Some(vec![pref(D), pref(S)]) };
                let got = ids(e, &search(e, events, None, props, time.clone(), now)?)?;
                let mut want: Vec<i64> = rows.iter().enumerate().filter(|(_, r)| keep(0, r)).map(|(i, _)| i as i64 + 1).collect();
                want.reverse();
                if got != want { return Err(json!({"found": got, "should find": want, "rows": rows.iter().map(|r| format!("{r:?}")).collect::<Vec<_>>()})); }
                Ok(())
            });
            run.validated(1);
        }
    });
    run.assume("the pattern % alone, which the query engine takes for true even of a missing value, is not claimed");
    run.assume("order comparisons on properties kept in a dictionary are not claimed");
}
