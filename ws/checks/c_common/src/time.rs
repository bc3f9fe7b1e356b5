use crate::civil::*;
use chrono::{DateTime, Utc};
use common::event_segmentation::*;
use common::funnel::TimeIntervalUnitSession as TS;
use common::query::*;
use mc::{guard, par, Run};
use serde_json::json;

pub const UNITS: [TimeIntervalUnit; 5] = [TimeIntervalUnit::Hour, TimeIntervalUnit::Day, TimeIntervalUnit::Week, TimeIntervalUnit::Month, TimeIntervalUnit::Year];
const TSU: [TS; 5] = [TS::Hour, TS::Day, TS::Week, TS::Month, TS::Year];
const NAMES: [&str; 5] = ["hour", "day", "week", "month", "year"];
fn at(s: i64) -> DateTime<Utc> { DateTime::from_timestamp(s, 0).unwrap() }
fn at_ns(s: i64, ns: u32) -> DateTime<Utc> { DateTime::from_timestamp(s, ns).unwrap() }

/// T01: every day of one full 400-year Gregorian cycle, at the edges of its hours.
pub fn trunc(run: &Run) {
    let d0 = days_from_civil(1870, 1, 1);
    let n = 146_097usize;
    let tods: Vec<(i64, u32)> = if run.thorough() {
        (0..24).flat_map(|h| [(h * 3600, 0), (h * 3600, 1), (h * 3600 + 1, 0), (h * 3600 + 1799, 999_999_999), (h * 3600 + 60, 500), (h * 3600 + 3599, 0), (h * 3600 + 3599, 999_999_999)]).collect()
    } else {
        vec![(0, 0), (0, 1), (1, 0), (59, 999_999_999), (3599, 999_999_999), (3600, 0), (11 * 3600 + 1234, 5_000_000), (12 * 3600, 0), (13 * 3600 + 60, 1), (86_399, 0), (86_399, 999_999_999)]
    };
    run.assume("instants are UTC; the calendar repeats every 400 years, so one full cycle (1870-2269) of days is every day up to that period");
    run.extra("bounds", json!({"days": n, "times_of_day": tods.len(), "units": 5}));
    let chunk = 1000;
    par(n.div_ceil(chunk), |c| {
        run.phase("truncation");
        let (mut cnt, mut prev) = (0u64, [i64::MIN; 5]);
        for i in c * chunk..((c + 1) * chunk).min(n) {
            for (tod, ns) in &tods {
                let s = (d0 + i as i64) * DAY + tod;
                let v = at_ns(s, *ns);
                for (u, unit) in UNITS.iter().enumerate() {
                    let key = || format!("trunc:{}:{}.{:09}", NAMES[u], fmt(s), ns);
                    cnt += 1;
                    match guard(|| date_trunc(unit, v)) {
                        Err(p) => run.violation(&key(), json!({"panic": p})),
                        Ok(Err(e)) => run.violation(&key(), json!({"error": e.to_string()})),
                        Ok(Ok(g)) => {
                            let want = bucket(u, s);
                            if g.timestamp() != want || g.timestamp_subsec_nanos() != 0 { run.violation(&key(), json!({"got": g.to_rfc3339(), "want": fmt(want)})); continue; }
                            if want < prev[u] { run.violation(&key(), json!({"not monotone": g.to_rfc3339()})); }
                            prev[u] = want;
                            if !(want <= s && s < next(u, want)) { run.violation(&key(), json!({"reference": "inconsistent"})); }
                            match guard(|| date_trunc(unit, g)) { Ok(Ok(h)) if h == g => {} o => run.violation(&key(), json!({"not idempotent": format!("{o:?}")})) }
                        }
                    }
                }
                if run.wants_sample() { run.sample(json!({"instant": fmt(s), "month": fmt(bucket(3, s)), "week": fmt(bucket(2, s))})); }
            }
        }
        run.states(cnt); run.transitions(2 * cnt); run.validated(cnt);
    });
}

fn want_cols(u: usize, from: i64, to: i64) -> Vec<String> {
    let (mut b, e) = (bucket(u, from), bucket(u, to));
    let mut v = vec![];
    while b <= e { v.push(fmt(b)); b = next(u, b); }
    v
}

/// T02: time columns of every pair of instants in a window.
pub fn columns(run: &Run) {
    let tods = [0i64, 1, 3599, 3600, 43_200, 86_399];
    // windows: around new year, leap day, ISO week edges, and every day of 5 years
    let d0 = days_from_civil(2019, 6, 1);
    let (days, span) = run.pick((400usize, 430i64), (2200, 1500));
    run.extra("bounds", json!({"from_days": days, "to_days_after": span, "times_of_day": tods.len(), "hour_span_days": 4}));
    par(days, |i| {
        run.phase("time columns");
        let mut cnt = 0u64;
        for (a, ta) in tods.iter().enumerate() {
            let from = (d0 + i as i64) * DAY + ta;
            for k in 0..=span {
                for (b, tb) in tods.iter().enumerate() {
                    if k > 4 && (a + b + k as usize) % 3 != 0 && !run.thorough() { continue; }
                    let to = (d0 + i as i64 + k) * DAY + tb;
                    if to < from { continue; }
                    for u in 0..5 {
                        if u == 0 && k > 4 { continue; }
                        if (u == 1 || u == 2) && k > 40 && k % 29 != 0 { continue; }
                        cnt += 1;
                        let key = || format!("columns:{}:{}..{}", NAMES[u], fmt(from), fmt(to));
                        match guard(|| time_columns(at(from), at(to), &UNITS[u])) {
                            Ok(g) => { let w = want_cols(u, from, to); if g != w { run.violation(&key(), json!({"got": head(&g), "want": head(&w)})); } if run.wants_sample() && k == 35 && u == 3 { run.sample(json!({"case": key(), "columns": g})); } }
                            Err(p) => run.violation(&key(), json!({"panic": p})),
                        }
                    }
                }
            }
        }
        run.states(cnt); run.transitions(cnt); run.validated(cnt);
    });
    // long spans by month and year across a whole 400-year cycle
    par(400, |y| {
        let from = days_from_civil(1900 + y as i64, 1 + (y as i64 * 5) % 12, 28) * DAY + 77;
        for n in [0i64, 1, 12, 25, 100, 240, 1200] {
            let to = shift(3, from, n);
            for u in [3, 4] {
                let key = || format!("columns:{}:{}..{}", NAMES[u], fmt(from), fmt(to));
                run.states(1); run.transitions(1); run.validated(1);
                match guard(|| time_columns(at(from), at(to), &UNITS[u])) {
                    Ok(g) => { let w = want_cols(u, from, to); if g != w { run.violation(&key(), json!({"got": head(&g), "want": head(&w)})); } }
                    Err(p) => run.violation(&key(), json!({"panic": p})),
                }
            }
        }
    });
    // the request-level entry point, on every kind of query time
    let cur = days_from_civil(2024, 3, 31) * DAY + 5 * 3600 + 61;
    for back in 0..800i64 {
        let c = cur - back * DAY - back * 997;
        for (u, unit) in UNITS.iter().enumerate() {
            for (i, (t, from, to)) in times(c, (back % 40) + 1).into_iter().enumerate() {
                if u == 0 && to - from > 40 * DAY { continue; }
                let req = EventSegmentationRequest { time: t, group_id: 0, interval_unit: unit.clone(), chart_type: ChartType::Line, analysis: Analysis::Linear, compare: None, events: vec![], filters: None, breakdowns: None, segments: None };
                run.states(1); run.transitions(1); run.validated(1);
                let key = format!("request:{}:{}:{}", NAMES[u], i, fmt(c));
                match guard(|| req.time_columns(at(c))) {
                    Ok(g) => { let w = want_cols(u, from, to); if g != w { run.violation(&key, json!({"got": head(&g), "want": head(&w), "request": format!("{:?}", req.time)})); } }
                    Err(p) => run.violation(&key, json!({"panic": p})),
                }
            }
        }
    }
}
fn head(v: &[String]) -> serde_json::Value { json!({"len": v.len(), "first": v.first(), "last": v.last(), "head": v.iter().take(4).collect::<Vec<_>>()}) }

/// every kind of query time as seen from `cur`, with the range it denotes
fn times(cur: i64, n: i64) -> Vec<(QueryTime, i64, i64)> {
    let mut v = vec![
        (QueryTime::Between { from: at(cur - 9 * DAY), to: at(cur - 3) }, cur - 9 * DAY, cur - 3),
        (QueryTime::Between { from: at(cur), to: at(cur) }, cur, cur),
        (QueryTime::From(at(cur - n * DAY - 1)), cur - n * DAY - 1, cur),
    ];
    for u in 0..5 { v.push((QueryTime::Last { last: n, unit: UNITS[u].clone() }, shift(u, cur, -n), cur)); }
    v
}

/// T03
pub fn ranges(run: &Run) {
    let d0 = days_from_civil(1870, 1, 1);
    let step = run.pick(1, 1);
    let ns: Vec<i64> = if run.thorough() { (0..=130).collect() } else { vec![0, 1, 2, 3, 6, 11, 12, 13, 24, 30, 31, 36, 48, 53, 100] };
    run.extra("bounds", json!({"days": 146_097, "n": ns, "units": 5}));
    par(146_097 / 500 + 1, |c| {
        run.phase("ranges");
        let mut cnt = 0;
        for i in (c * 500..((c + 1) * 500).min(146_097)).step_by(step) {
            let cur = (d0 + i as i64) * DAY + (i as i64 * 7919) % DAY;
            for n in &ns {
                for u in 0..5 {
                    cnt += 1;
                    let q = QueryTime::Last { last: *n, unit: UNITS[u].clone() };
                    let key = || format!("last:{n}:{}:{}", NAMES[u], fmt(cur));
                    match guard(|| q.range(at(cur))) {
                        Ok((f, t)) => {
                            if t != at(cur) || f.timestamp() != shift(u, cur, -n) { run.violation(&key(), json!({"got": [f.to_rfc3339(), t.to_rfc3339()], "want_from": fmt(shift(u, cur, -n))})); }
                            if run.wants_sample() && *n == 1 && u == 3 { run.sample(json!({"case": key(), "from": fmt(f.timestamp())})); }
                        }
                        Err(p) => run.violation(&key(), json!({"panic": p})),
                    }
                }
            }
            for (q, f, t) in times(cur, 3).into_iter().take(3) {
                cnt += 1;
                match guard(|| q.range(at(cur))) { Ok(g) if g == (at(f), at(t)) => {} o => run.violation(&format!("explicit:{}", fmt(cur)), json!({"query": format!("{q:?}"), "got": format!("{o:?}")})) }
            }
        }
        run.states(cnt); run.transitions(cnt); run.validated(cnt);
    });
}

/// T04: conversion / segmentation windows.
pub fn windows(run: &Run) {
    let max = run.pick(1200i64, 20_000);
    run.extra("bounds", json!({"n": max}));
    let exact = |u: usize, n: i64| -> Option<i64> { match u { 0 => Some(3600 * n), 1 => Some(DAY * n), 2 => Some(7 * DAY * n), _ => None } };
    let starts: Vec<i64> = (0..1461).step_by(run.pick(7, 1)).map(|d| days_from_civil(2020, 1, 1) * DAY + d * DAY).collect();
    par(max as usize + 1, |n| {
        run.phase("windows");
        let n = n as i64;
        let mut cnt = 0;
        for u in 0..5 {
            let key = |w: &str| format!("window:{w}:{}:{n}", NAMES[u]);
            let r = guard(|| (UNITS[u].duration(n), TSU[u].duration(n), UNITS[u].duration(n + 1), UNITS[u].relative_duration(n), TSU[u].relative_duration(n)));
            cnt += 5;
            let (a, b, c, ra, rb) = match r { Ok(v) => v, Err(p) => { run.violation(&key("panic"), json!({"panic": p})); continue; } };
            if a != b { run.violation(&key("vocabularies"), json!({"segmentation": a.num_seconds(), "funnel": b.num_seconds()})); }
            if ra != rb { run.violation(&key("relative"), json!({"differ": n})); }
            if c <= a { run.violation(&key("monotone"), json!({"n": a.num_seconds(), "n+1": c.num_seconds()})); }
            if let Some(e) = exact(u, n) { if a.num_milliseconds() != e * 1000 { run.violation(&key("exact"), json!({"got": a.num_seconds(), "want": e})); } }
            for s in &starts {
                cnt += 1;
                let span = shift(u, *s, n) - s;
                if n <= 600 && a.num_seconds() < span { run.violation(&key("covers"), json!({"from": fmt(*s), "window_s": a.num_seconds(), "calendar_s": span})); break; }
                match guard(|| at(*s) + ra) { Ok(t) if t.timestamp() == shift(u, *s, n) => {} o => { run.violation(&key("shift"), json!({"from": fmt(*s), "got": format!("{o:?}")})); break; } }
            }
            let each = SegmentTime::Each { n, unit: UNITS[u].clone() };
            match guard(|| each.try_window()) { Ok(Some(w)) if w == a.num_milliseconds() => {} o => run.violation(&key("each"), json!({"got": format!("{o:?}")})) }
            for t in [SegmentTime::From(at(0)), SegmentTime::Between { from: at(0), to: at(n) }, SegmentTime::Last { n, unit: UNITS[u].clone() }, SegmentTime::AfterFirstUse { within: n, unit: UNITS[u].clone() }] {
                match guard(|| t.try_window()) { Ok(None) => {} o => run.violation(&key("none"), json!({"time": format!("{t:?}"), "got": format!("{o:?}")})) }
            }
            if UNITS[u].as_str() != NAMES[u] || TSU[u].as_str() != NAMES[u] { run.violation(&key("name"), json!({})); }
            if run.wants_sample() && n == 3 { run.sample(json!({"unit": NAMES[u], "n": n, "seconds": a.num_seconds()})); }
        }
        run.states(5); run.transitions(cnt); run.validated(cnt);
    });
}
