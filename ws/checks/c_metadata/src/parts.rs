//! M05 .. M11: dictionaries, groups and users, sessions, columns, custom events, membership,
//! settings and backups, each against its own reference model, over all histories up to a depth.
use crate::env::Env;
use common::rbac::OrganizationRole;
use common::types::{DType, OptionalProperty, TABLE_EVENTS};
use common::{group_col, query::EventRef, GROUPS_COUNT};
use mc::Run;
use metadata::error::MetadataError as E;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const STORE: &str = "the key-value store is the in-memory stand-in for RocksDB's TransactionDB (DESIGN.md)";
fn missing<T>(r: &Result<T, E>) -> bool { matches!(r, Err(E::NotFound(_))) }

/// All sequences over `ops` up to the greatest length whose number stays in the budget, at least `min`.
fn histories<O: Sync + std::fmt::Debug>(run: &Run, what: &str, ops: &[O], min: usize, budget: usize, f: impl Fn(&[&O]) -> Result<(), Value> + Sync) {
    let mut depth = min;
    while mc::pow(ops.len(), depth + 1) <= budget { depth += 1; }
    run.phase(&format!("{what}: operations={} depth={depth}", ops.len()));
    run.extra(&format!("depth of {what}"), json!({"operations": ops.len(), "depth": depth}));
    for len in 1..=depth {
        let total = mc::pow(ops.len(), len);
        let chunk = (total / 512).max(1);
        mc::par(total.div_ceil(chunk), |c| for i in c * chunk..((c + 1) * chunk).min(total) {
            let seq: Vec<&O> = mc::seq_of(i, ops.len(), len).into_iter().map(|x| &ops[x]).collect();
            run.case(|| format!("{what}: {seq:?}"), || f(&seq));
            run.states(1);
            run.transitions(len as u64);
            if i == total / 3 && run.wants_sample() { run.sample(json!(format!("{seq:?}"))); }
        });
    }
}

// ---- M05
#[derive(Debug)]
enum D { Key(usize, &'static str), Pin(usize, u64, &'static str) }
pub fn dictionaries(run: &Run) {
    run.assume(STORE);
    run.assume("keys pinned with create_key are fresh, as the ingester's are (the id of a new user)");
    let places: [(u64, &str, &str); 5] = [(1, "events", "c"), (11, "events", "c"), (1, "events", "cc"), (1, "group_1", "c"), (1, "event", "sc")];
    let long: [&'static str; 2] = [Box::leak(format!("{}1", "x".repeat(300)).into_boxed_str()), Box::leak(format!("{}2", "x".repeat(300)).into_boxed_str())];
    // the first four take part in every history; all that look alike are told apart in one place
    let alike = ["A", " a", "a ", "a\u{0}", "e\u{301}", "\u{e9}", "\u{c9}", "\u{df}", "ss", "SS", "1", "01", "null", "a/", "/a", "a\n", "\u{fb01}", "fi", "\u{3000}a", long[0], long[1]];
    let values: Vec<&'static str> = ["a", "b", "", "a/keys/1"].into_iter().chain(alike).collect();
    let mut ops = vec![];
    for p in 0..places.len() { for v in &values[..if p == 0 { 4 } else { 2 }] { ops.push(D::Key(p, v)); } }
    let one: Vec<D> = ops.into_iter().collect();
    let check = |seq: &[&D], pins: bool| -> Result<(), Value> {
        let mut env = Env::new();
        let mut m: BTreeMap<usize, BTreeMap<String, u64>> = BTreeMap::new();
        let mut n = 0;
        let look = |env: &Env, m: &BTreeMap<usize, BTreeMap<String, u64>>| -> Result<u64, Value> {
            let d = &env.md.dictionaries;
            let mut n = 0;
            for (p, (pr, t, c)) in places.iter().enumerate() {
                let e = BTreeMap::new();
                let mp = m.get(&p).unwrap_or(&e);
                for v in values.iter().copied().chain(["zz"]) {
                    let g = d.get_key(*pr, t, c, v);
                    n += 1;
                    if match mp.get(v) { Some(k) => g.as_ref().ok() != Some(k), None => !missing(&g) } { return Err(json!({"get_key": v, "place": places[p].2, "got": format!("{g:?}"), "want": mp.get(v)})); }
                }
                for k in 0..=8u64 {
                    let g = d.get_value(*pr, t, c, k);
                    n += 1;
                    let w = mp.iter().find(|x| *x.1 == k).map(|x| x.0.clone());
                    if match &w { Some(v) => g.as_ref().ok() != Some(v), None => !missing(&g) } { return Err(json!({"get_value": k, "place": p, "got": format!("{g:?}"), "want": w})); }
                }
            }
            Ok(n)
        };
        for o in seq {
            match o {
                D::Key(p, v) => {
                    let (pr, t, c) = places[*p];
                    let k = env.md.dictionaries.get_key_or_create(pr, t, c, v).map_err(|e| json!(format!("{e:?}")))?;
                    let mp = m.entry(*p).or_default();
                    match mp.get(*v) {
                        Some(w) if *w != k => return Err(json!({"value": v, "key before": w, "key now": k})),
                        Some(_) => {}
                        None => { if let Some(x) = mp.iter().find(|x| *x.1 == k) { return Err(json!({"value": v, "key": k, "is already the key of": x.0})); } mp.insert(v.to_string(), k); }
                    }
                }
                D::Pin(p, k, v) => {
                    let (pr, t, c) = places[*p];
                    let mp = m.entry(*p).or_default();
                    if mp.contains_key(*v) || mp.values().any(|x| x == k) { continue; }
                    env.md.dictionaries.create_key(pr, t, c, *k, v).map_err(|e| json!(format!("{e:?}")))?;
                    mp.insert(v.to_string(), *k);
                }
            }
        }
        n += look(&env, &m)?;
        env = env.reopen();
        n += look(&env, &m)?;
        let _ = pins;
        run.validated(n);
        Ok(())
    };
    histories(run, "keys", &one, 3, run.pick(300_000, 6_000_000), |s| check(s, false));
    let like: Vec<D> = (0..values.len()).map(|i| D::Key(0, values[i])).collect();
    histories(run, "values that look alike", &like, run.pick(2, 3), 100_000, |s| check(s, false));
    let mut pins = vec![];
    for p in [0, 2] { for (k, v) in [(5, "a"), (6, "b"), (7, "a/keys/1"), (5, "")] { pins.push(D::Pin(p, k, v)); } }
    // a dictionary is filled either by its own sequence or by pinned keys
    histories(run, "pinned keys", &pins, 3, run.pick(40_000, 600_000), |s| check(s, true));
}

// ---- M06
use metadata::groups::{PropertyValue as PV, Value as V};
#[derive(Debug, Clone)]
enum G { Anon(u64, u64, &'static str), Merge(u64, u64, &'static str, &'static str, usize), Get(u64, u64, &'static str, usize), Update(u64, u64, &'static str, usize), Name(u64, &'static str), Seq(u64, u64) }
fn vals(i: usize) -> Vec<PV> {
    let pv = |p: u64, v: V| PV { property_id: p, value: v };
    match i {
        0 => vec![],
        1 => vec![pv(1, V::Int64(Some(5)))],
        2 => vec![pv(1, V::Null), pv(2, V::String(Some("x".into())))],
        3 => vec![pv(3, V::Decimal(Some(-1))), pv(1, V::Int64(Some(i64::MIN)))],
        // every value there is
        _ => vec![pv(1, V::Int8(Some(-128))), pv(2, V::Int16(Some(i16::MIN))), pv(3, V::Int32(Some(i32::MIN))), pv(4, V::Int64(Some(i64::MAX))), pv(5, V::Boolean(Some(false))), pv(6, V::Boolean(Some(true))),
            pv(7, V::Timestamp(Some(-1))), pv(8, V::Decimal(Some(i128::MAX))), pv(9, V::Decimal(Some(i128::MIN))), pv(10, V::String(Some("".into()))), pv(u64::MAX, V::String(Some("é/".into()))), pv(11, V::Null), pv(12, V::Int8(Some(127))), pv(13, V::Int64(Some(0)))],
    }
}
#[derive(Default)]
struct GM { anon: BTreeMap<(u64, u64, String), u64>, real: BTreeMap<(u64, u64, String), (u64, Vec<(u64, V)>)>, used: BTreeSet<(u64, u64, u64)>, names: BTreeMap<(u64, String), u64>, seq: BTreeMap<(u64, u64), u64> }
impl GM {
    fn fresh(&mut self, p: u64, g: u64, id: u64) -> Result<(), Value> { if self.used.insert((p, g, id)) { Ok(()) } else { Err(json!({"project": p, "group": g, "id given out twice": id})) } }
}
fn pairs(v: &[PV]) -> Vec<(u64, V)> { let mut v: Vec<_> = v.iter().map(|x| (x.property_id, x.value.clone())).collect(); v.sort_by_key(|x| x.0); v }
fn run_groups(run: &Run, seq: &[&G]) -> Result<(), Value> {
    let mut env = Env::new();
    let mut m = GM::default();
    let e = |e: E| json!(format!("{e:?}"));
    for o in seq {
        let g = env.md.groups.clone();
        match o {
            G::Anon(p, gr, k) => {
                let id = g.get_or_create_anonymous_id(*p, *gr, k).map_err(e)?;
                match m.anon.get(&(*p, *gr, k.to_string())) { Some(w) => if *w != id { return Err(json!({"anonymous": k, "id before": w, "id now": id})) }, None => { m.fresh(*p, *gr, id)?; m.anon.insert((*p, *gr, k.to_string()), id); } }
            }
            G::Merge(p, gr, a, k, v) => {
                let r = g.merge_with_anonymous(*p, *gr, a, k, vals(*v)).map_err(e)?;
                let key = (*p, *gr, k.to_string());
                if let Some((id, vs)) = m.real.get(&key) {
                    if r.id != *id || pairs(&r.values) != *vs { return Err(json!({"known user": k, "got": format!("{r:?}"), "want": format!("{id} {vs:?}")})); }
                } else {
                    match m.anon.get(&(*p, *gr, a.to_string())) {
                        Some(w) => if *w != r.id { return Err(json!({"merged with anonymous": a, "its id": w, "got": r.id})) },
                        None => { m.fresh(*p, *gr, r.id)?; m.anon.insert((*p, *gr, a.to_string()), r.id); }
                    }
                    if pairs(&r.values) != pairs(&vals(*v)) { return Err(json!({"values": format!("{r:?}")})); }
                    m.real.insert(key, (r.id, pairs(&r.values)));
                }
            }
            G::Get(p, gr, k, v) | G::Update(p, gr, k, v) => {
                let up = matches!(o, G::Update(..));
                let r = if up { g.create_or_update(*p, *gr, k, vals(*v)) } else { g.get_or_create(*p, *gr, k, vals(*v)) }.map_err(e)?;
                let key = (*p, *gr, k.to_string());
                let want = match m.real.get(&key) {
                    Some((id, vs)) => {
                        let mut vs: BTreeMap<u64, V> = vs.iter().cloned().collect();
                        if up { for x in vals(*v) { vs.insert(x.property_id, x.value); } }
                        (*id, vs.into_iter().collect::<Vec<_>>())
                    }
                    None => { m.fresh(*p, *gr, r.id)?; (r.id, pairs(&vals(*v))) }
                };
                if (r.id, pairs(&r.values)) != want { return Err(json!({"operation": format!("{o:?}"), "got": format!("{r:?}"), "want": format!("{want:?}")})); }
                m.real.insert(key, want);
            }
            G::Name(p, n) => {
                let r = g.get_or_create_group(*p, n.to_string(), format!("{n}!"));
                let used = m.names.keys().filter(|k| k.0 == *p).count();
                match (m.names.get(&(*p, n.to_string())), r) {
                    (Some(id), Ok(r)) => if r.id != *id || r.name != *n || r.display_name != format!("{n}!") { return Err(json!({"group": n, "got": format!("{r:?}"), "want": id})) },
                    (None, Ok(r)) => {
                        if used >= GROUPS_COUNT { return Err(json!({"more groups than there are tables": format!("{r:?}")})); }
                        if r.id as usize >= GROUPS_COUNT || m.names.iter().any(|(k, v)| k.0 == *p && *v == r.id) || r.name != *n || r.display_name != format!("{n}!") { return Err(json!({"group": n, "got": format!("{r:?}")})); }
                        m.names.insert((*p, n.to_string()), r.id);
                    }
                    (None, Err(E::BadRequest(_))) if used >= GROUPS_COUNT => {}
                    (w, r) => return Err(json!({"group": n, "got": format!("{r:?}"), "want": w})),
                }
            }
            G::Seq(p, gr) => {
                let s = g.next_record_sequence(*p, *gr).map_err(e)?;
                let l = m.seq.entry((*p, *gr)).or_insert(0);
                if s <= *l { return Err(json!({"record sequence": s, "the one before": l})); }
                *l = s;
            }
        }
    }
    for again in 0..2 {
        if again == 1 { env = env.reopen(); }
        let g = &env.md.groups;
        let mut n = 0;
        for ((p, gr, k), id) in &m.anon { n += 1; let r = g.get_or_create_anonymous_id(*p, *gr, k).map_err(e)?; if r != *id { return Err(json!({"anonymous": k, "id": r, "want": id})) } }
        for ((p, gr, k), w) in &m.real { n += 1; let r = g.get_or_create(*p, *gr, k, vec![]).map_err(e)?; if (r.id, pairs(&r.values)) != *w { return Err(json!({"user": k, "got": format!("{r:?}"), "want": format!("{w:?}")})) } }
        for p in [1, 11] {
            let mut l: Vec<(String, u64)> = g.list_groups(p).map_err(e)?.data.into_iter().map(|x| (x.name, x.id)).collect();
            l.sort();
            let w: Vec<(String, u64)> = m.names.iter().filter(|k| k.0.0 == p).map(|(k, v)| (k.1.clone(), *v)).collect();
            n += 1;
            if l != w { return Err(json!({"groups of project": p, "got": l, "want": w})); }
        }
        run.validated(n);
    }
    Ok(())
}
pub fn groups(run: &Run) {
    run.assume(STORE);
    let mut ops = vec![];
    for (p, g) in [(1, 0), (1, 1), (11, 0)] {
        let keys: &[&'static str] = if (p, g) == (1, 0) { &["a", "b"] } else { &["a"] };
        for k in keys {
            ops.push(G::Anon(p, g, k));
            ops.push(G::Get(p, g, k, 1));
            ops.push(G::Merge(p, g, "a", k, 1));
            if (p, g) == (1, 0) { ops.push(G::Merge(p, g, "b", k, 2)); ops.push(G::Update(p, g, k, 2)); ops.push(G::Update(p, g, k, 3)); }
        }
    }
    histories(run, "users", &ops, 3, run.pick(400_000, 5_000_000), |s| run_groups(run, s));
    let mut ops: Vec<G> = ["g0", "g1", "g2", "g3", "g4", "g5"].into_iter().map(|n| G::Name(1, n)).collect();
    ops.extend([G::Name(11, "g0"), G::Name(11, "g"), G::Seq(1, 0), G::Seq(1, 1), G::Anon(1, 1, "a"), G::Get(1, 0, "a", 0)]);
    histories(run, "group names", &ops, 3, run.pick(300_000, 3_000_000), |s| run_groups(run, s));
    // the group limit needs more names than the depth allows: every order of creation of 6 names
    let mut perms = vec![vec![]];
    for n in ["g0", "g1", "g2", "g3", "g4", "g5", "g6"] { let mut x = vec![]; for p in &perms { for i in 0..=p.len() { let mut q: Vec<&'static str> = p.clone(); q.insert(i, n); x.push(q); } } perms = x; }
    run.phase("group limit");
    mc::par(perms.len(), |i| { run.case(|| format!("{:?}", perms[i]), || { let s: Vec<G> = perms[i].iter().chain(&perms[i]).map(|n| G::Name(1, n)).collect(); run_groups(run, &s.iter().collect::<Vec<_>>()) }); run.states(1); });
    // every value, written by each way and updated by each way
    run.phase("group values");
    for w in 0..3 { for i in 0..5 { for j in 0..5 { for k in 0..5 {
        let first = match w { 0 => G::Get(1, 0, "a", i), 1 => G::Merge(1, 0, "x", "a", i), _ => G::Update(1, 0, "a", i) };
        let s = [first, G::Update(1, 0, "a", j), G::Update(1, 0, "a", k)];
        run.case(|| format!("{s:?}"), || run_groups(run, &s.iter().collect::<Vec<_>>()));
        run.states(1);
    } } } }
}

// ---- M07
#[derive(Debug)]
enum Se { Touch(u64, u64, i64), Sweep(u64, u64), Clear(u64) }
pub fn sessions(run: &Run) {
    run.assume(STORE);
    let mut ops = vec![];
    for (p, u) in [(1u64, 1u64), (1, 11), (1, 2), (11, 1)] { for t in [100, 200] { ops.push(Se::Touch(p, u, t)); } }
    // sweep: ends the sessions that were touched no later than 150 / that belong to the user
    for p in [1, 11] { for w in [0, 1, 2, 3] { ops.push(Se::Sweep(p, w)); } ops.push(Se::Clear(p)); }
    histories(run, "sessions", &ops, 3, run.pick(500_000, 8_000_000), |seq| {
        let mut env = Env::new();
        let mut m: BTreeMap<(u64, u64), i64> = BTreeMap::new();
        let e = |e: E| json!(format!("{e:?}"));
        let dt = |t: i64| chrono::DateTime::from_timestamp(t, 0).unwrap();
        for o in seq {
            match o {
                Se::Touch(p, u, t) => {
                    let new = env.md.sessions.set_current_time(*p, *u, dt(*t)).map_err(e)?;
                    if new == m.contains_key(&(*p, *u)) { return Err(json!({"session of": u, "reported as new": new})); }
                    m.insert((*p, *u), *t);
                }
                Se::Sweep(p, w) => {
                    let seen = std::cell::RefCell::new(vec![]);
                    let ends = |u: u64, t: i64| match w { 0 => t <= 150, 1 => u == 1, 2 => u != 1, _ => false };
                    env.md.sessions.check_for_deletion(*p, |s| { seen.borrow_mut().push((s.user_id, s.created_at.timestamp())); Ok(ends(s.user_id, s.created_at.timestamp())) }).map_err(e)?;
                    let mut s = seen.into_inner();
                    s.sort();
                    let want: Vec<(u64, i64)> = m.iter().filter(|x| x.0.0 == *p).map(|(k, v)| (k.1, *v)).collect();
                    if s != want { return Err(json!({"sessions shown to the sweep": s, "want": want})); }
                    m.retain(|k, t| k.0 != *p || !ends(k.1, *t));
                }
                Se::Clear(p) => { env.md.sessions.clear_project(*p).map_err(e)?; m.retain(|k, _| k.0 != *p); }
            }
        }
        for again in 0..2 {
            if again == 1 { env = env.reopen(); }
            for (p, u) in [(1u64, 1u64), (1, 11), (1, 2), (11, 1), (11, 11), (1, 0)] {
                let g = env.md.sessions.get_by_user_id(p, u);
                let ok = match m.get(&(p, u)) { Some(t) => g.as_ref().map(|s| (s.user_id, s.created_at.timestamp())).ok() == Some((u, *t)), None => missing(&g) };
                if !ok { return Err(json!({"project": p, "user": u, "got": format!("{g:?}"), "want": m.get(&(p, u))})); }
                run.validated(1);
            }
        }
        Ok(())
    });
    // a sweep that fails ends no session
    let env = Env::new();
    for u in 1..=3 { env.md.sessions.set_current_time(1, u, dt0()).unwrap(); }
    run.case(|| "failing sweep".into(), || {
        for fail in 1..=3u64 {
            let r = env.md.sessions.check_for_deletion(1, |s| if s.user_id == fail { Err(E::Internal("no".into())) } else { Ok(true) });
            if r.is_ok() { return Err(json!("the sweep reported success")); }
            for u in 1..=3 { if env.md.sessions.get_by_user_id(1, u).is_err() { return Err(json!({"session ended by a failed sweep": u})); } }
        }
        Ok(())
    });
}
fn dt0() -> chrono::DateTime<chrono::Utc> { chrono::DateTime::from_timestamp(100, 0).unwrap() }

// ---- M08
use metadata::properties::{CreatePropertyRequest, DictionaryType, Status, Type};
#[derive(Debug)]
enum C { New(u64, Option<usize>, &'static str, usize, bool), Del(u64, Option<usize>, u64) }
fn types() -> Vec<(DType, Option<DictionaryType>, arrow2::datatypes::DataType)> {
    use arrow2::datatypes::{DataType as A, TimeUnit};
    vec![
        (DType::String, Some(DictionaryType::Int64), A::Int64), (DType::Decimal, None, A::Decimal(28, 16)), (DType::Timestamp, None, A::Timestamp(TimeUnit::Millisecond, None)), (DType::Boolean, None, A::Boolean),
        (DType::Int8, None, A::Int8), (DType::Int16, None, A::Int16), (DType::Int32, None, A::Int32), (DType::Int64, None, A::Int64),
    ]
}
pub fn columns(run: &Run) {
    run.assume(STORE);
    run.assume("a data type is stored alike in every project (strings through dictionaries), as the ingester does");
    let tys = types();
    let mut ops = vec![];
    for (p, g) in [(1u64, None), (1, Some(0)), (1, Some(3)), (11, None)] {
        for (t, n) in [(0usize, "a"), (0, "b"), (1, "c")] { if p == 1 || t == 0 { ops.push(C::New(p, g, n, t, n == "c")); } }
        if g != Some(3) { ops.push(C::Del(p, g, 1)); }
    }
    let req = |g: Option<usize>, n: &str, t: usize, nullable: bool, sys: bool| CreatePropertyRequest { created_by: 1, tags: None, name: n.into(), description: None, display_name: None, typ: match g { None => Type::Event, Some(g) => Type::Group(g) },
        data_type: tys[t].0.clone(), status: Status::Enabled, hidden: false, is_system: sys, nullable, is_array: false, is_dictionary: tys[t].1.is_some(), dictionary_type: tys[t].1.clone() };
    let verify = |env: &Env, live: &BTreeMap<(u64, Option<usize>, u64), usize>, ever: &mut BTreeMap<(u64, String), (Option<usize>, u64)>| -> Result<u64, Value> {
        let mut n = 0;
        for ((p, g, id), t) in live {
            let ps = match g { None => &env.md.event_properties, Some(g) => &env.md.group_properties[*g] };
            let pr = ps.get_by_id(*p, *id).map_err(|e| json!(format!("{e:?}")))?;
            let c = pr.column_name();
            if let Some(o) = ever.insert((*p, c.clone()), (*g, *id)) { if o != (*g, *id) { return Err(json!({"column": c, "project": p, "belongs to": format!("{:?} and {:?}", o, (g, id))})); } }
            let tables: Vec<String> = match g { None => vec![TABLE_EVENTS.into()], Some(g) => vec![TABLE_EVENTS.into(), group_col(*g)] };
            for tb in tables {
                let s = env.opti.schema(&tb).map_err(|e| json!(format!("{e:?}")))?;
                let f: Vec<_> = s.fields.iter().filter(|f| f.name == c).collect();
                n += 1;
                if f.len() != 1 || f[0].data_type != tys[*t].2 { return Err(json!({"table": tb, "column": c, "found": format!("{f:?}"), "want": format!("{:?}", tys[*t].2)})); }
            }
            let by = ps.get_by_column_name(*p, &c).map_err(|e| json!(format!("{e:?}")))?;
            if by.id != *id { return Err(json!({"column": c, "leads to property": by.id, "want": id})); }
        }
        Ok(n)
    };
    let runit = |seq: &[&C], fresh: bool| -> Result<(), Value> {
        let o = if fresh { Some(crate::env::opti()) } else { None };
        let mut env = match &o { Some(o) => Env::with(rocksdb::TransactionDB::private(), o.clone()), None => Env::new() };
        let mut live = BTreeMap::new();
        let mut ever = BTreeMap::new();
        let mut n = 0;
        for o in seq {
            match o {
                C::New(p, g, name, t, nullable) => {
                    let ps = match g { None => &env.md.event_properties, Some(g) => &env.md.group_properties[*g] };
                    match ps.get_or_create(*p, req(*g, name, *t, *nullable, false)) { Ok(r) => { live.insert((*p, *g, r.id), *t); } Err(e) => return Err(json!(format!("{e:?}"))) }
                }
                C::Del(p, g, id) => {
                    let ps = match g { None => &env.md.event_properties, Some(g) => &env.md.group_properties[*g] };
                    if ps.delete(*p, *id).is_ok() != live.remove(&(*p, *g, *id)).is_some() { return Err(json!({"delete": id})); }
                }
            }
            n += verify(&env, &live, &mut ever)?;
        }
        env = env.reopen();
        n += verify(&env, &live, &mut ever)?;
        run.validated(n);
        Ok(())
    };
    histories(run, "properties", &ops, 3, run.pick(60_000, 1_000_000), |s| runit(s, false));
    // each type in each place, on event stores without any column yet
    run.phase("types on fresh stores");
    let places: Vec<Option<usize>> = std::iter::once(None).chain((0..GROUPS_COUNT).map(Some)).collect();
    mc::par(places.len(), |i| { run.case(|| format!("types in {:?}", places[i]), || {
        let names = ["a", "b", "c", "d", "e", "f", "g", "h"];
        let seq: Vec<C> = (0..tys.len()).flat_map(|t| [C::New(1, places[i], names[t], t, t % 2 == 0), C::New(11, places[i], names[t], t, true)]).collect();
        runit(&seq.iter().collect::<Vec<_>>(), true)
    }); run.states(1); });
    // properties of the system have columns named after them
    run.case(|| "system properties".into(), || {
        let env = Env::with(rocksdb::TransactionDB::private(), crate::env::opti());
        for (n, c) in [("User Agent", "user_agent"), ("city", "city"), ("UTM Source", "utm_source")] {
            let p = env.md.event_properties.create(1, req(None, n, 1, true, true)).map_err(|e| json!(format!("{e:?}")))?;
            if p.column_name() != c { return Err(json!({"property": n, "column": p.column_name()})); }
            if !env.opti.schema(TABLE_EVENTS).unwrap().fields.iter().any(|f| f.name == c) { return Err(json!({"no column": c})); }
        }
        Ok(())
    });
}

// ---- M09
#[derive(Debug)]
enum Cu { New(usize), Set(u64, usize) }
pub fn custom_events(run: &Run) {
    run.assume(STORE);
    // definitions: what a custom event is made of (r: a regular event, cN: custom event N)
    let reg = |id: u64| EventRef::Regular(id);
    let defs: Vec<Vec<EventRef>> = vec![
        vec![reg(1)], vec![EventRef::RegularName("e1".into())], vec![EventRef::Custom(1)], vec![EventRef::Custom(2)], vec![EventRef::Custom(3)], vec![reg(1), EventRef::Custom(4)],
        vec![EventRef::Custom(5)], vec![], vec![reg(9)], vec![EventRef::RegularName("no".into())], vec![EventRef::Custom(1), reg(9)],
    ];
    let def = |i: usize| -> Vec<metadata::custom_events::Event> { defs[i].iter().map(|e| metadata::custom_events::Event { event: e.clone(), filters: None }).collect() };
    let mut ops: Vec<Cu> = (0..defs.len()).map(Cu::New).collect();
    for id in 1..=3 { for d in 0..defs.len() - 2 { if d != 1 { ops.push(Cu::Set(id, d)); } } }
    fn depth(m: &BTreeMap<u64, usize>, defs: &[Vec<EventRef>], d: usize, seen: &mut Vec<u64>) -> Option<usize> {
        // levels of custom events below; None: a cycle
        let mut max = 0;
        for e in &defs[d] { if let EventRef::Custom(c) = e {
            if seen.contains(c) { return None; }
            seen.push(*c);
            max = max.max(1 + depth(m, defs, *m.get(c)?, seen)?);
            seen.pop();
        } }
        Some(max)
    }
    fn valid(m: &BTreeMap<u64, usize>, defs: &[Vec<EventRef>], d: usize) -> bool {
        !defs[d].is_empty() && defs[d].iter().all(|e| match e { EventRef::Regular(i) => *i == 1, EventRef::RegularName(n) => n == "e1", EventRef::Custom(c) => m.contains_key(c) })
    }
    let base = { let e = Env::new(); crate::kinds::Kind::prepare(&crate::kinds::CustomEvents, &e.md); e.db.dump() };
    let limit = 3;
    histories(run, "definitions", &ops, 3, run.pick(1_000_000, 12_000_000), |seq| {
        let env = Env::load(&base);
        let ce = metadata::custom_events::CustomEvents::new(env.db.clone(), env.md.events.clone()).with_max_events_level(limit);
        let mut m: BTreeMap<u64, usize> = BTreeMap::new();
        for (i, o) in seq.iter().enumerate() {
            let (d, me) = match o { Cu::New(d) => (*d, None), Cu::Set(id, d) => (*d, Some(*id)) };
            let r = match o {
                Cu::New(_) => ce.create(1, metadata::custom_events::CreateCustomEventRequest { created_by: 1, tags: None, name: format!("n{i}"), description: None, status: Default::default(), is_system: false, events: def(d) }),
                Cu::Set(id, _) => ce.update(1, *id, metadata::custom_events::UpdateCustomEventRequest { updated_by: 1, events: OptionalProperty::Some(def(d)), ..Default::default() }),
            };
            let ok = match me { Some(id) if !m.contains_key(&id) => false, _ => valid(&m, &defs, d) && depth(&m, &defs, d, &mut me.into_iter().collect()).map(|l| l <= limit).unwrap_or(false) };
            match r {
                Ok(r) if ok => { m.insert(me.unwrap_or(r.id), d); if me.is_some_and(|x| x != r.id) { return Err(json!("another custom event was changed")); } }
                Err(_) if !ok => {}
                r => return Err(json!({"operation": format!("{o:?} = {:?}", defs[d]), "accepted": r.is_ok(), "should be": ok, "got": format!("{r:?}")})),
            }
        }
        for id in 1..=seq.len() as u64 + 1 {
            let g = ce.get_by_id(1, id);
            let want = m.get(&id).map(|d| def(*d));
            if g.ok().map(|e| e.events) != want { return Err(json!({"definition of": id, "want": format!("{want:?}")})); }
            run.validated(1);
        }
        Ok(())
    });
}

// ---- M10
#[derive(Debug)]
enum Me { Org(u64), Add(u64, u64, OrganizationRole), Remove(u64, u64), Role(u64, u64, OrganizationRole) }
pub fn membership(run: &Run) {
    run.assume(STORE);
    use OrganizationRole::*;
    let mut ops = vec![];
    for a in 1..=3 { ops.push(Me::Org(a)); }
    for (o, a) in [(1u64, 1u64), (1, 2), (2, 1), (2, 2), (1, 9), (9, 1)] {
        ops.push(Me::Add(o, a, Member));
        ops.push(Me::Remove(o, a));
        ops.push(Me::Role(o, a, Admin));
        if (o, a) == (1, 2) { ops.push(Me::Add(o, a, Owner)); ops.push(Me::Role(o, a, Member)); }
    }
    let base = { let e = Env::new(); crate::kinds::Kind::prepare(&crate::kinds::Organizations, &e.md); e.db.dump() };
    histories(run, "members", &ops, 3, run.pick(1_000_000, 12_000_000), |seq| {
        let mut env = Env::load(&base);
        let mut m: BTreeMap<u64, BTreeMap<u64, OrganizationRole>> = BTreeMap::new();
        for (i, o) in seq.iter().enumerate() {
            let og = &env.md.organizations;
            let (ok, want) = match o {
                Me::Org(a) => { let r = og.create(metadata::organizations::CreateOrganizationRequest { created_by: *a, name: format!("o{i}") }); if let Ok(r) = &r { m.insert(r.id, [(*a, Owner)].into()); } (r.is_ok(), true) }
                Me::Add(o, a, r) => { let w = *a <= 3 && m.get(o).map(|x| !x.contains_key(a)).unwrap_or(false); if w { m.get_mut(o).unwrap().insert(*a, r.clone()); } (og.add_member(*o, *a, r.clone()).is_ok(), w) }
                Me::Remove(o, a) => { let w = m.get_mut(o).map(|x| x.remove(a).is_some()).unwrap_or(false); (og.remove_member(*o, *a).is_ok(), w) }
                Me::Role(o, a, r) => { let w = m.get(o).map(|x| x.contains_key(a)).unwrap_or(false); if w { m.get_mut(o).unwrap().insert(*a, r.clone()); } (og.change_member_role(*o, *a, r.clone()).is_ok(), w) }
            };
            if ok != want { return Err(json!({"operation": format!("{o:?}"), "accepted": ok, "should be": want})); }
        }
        for again in 0..2 {
            if again == 1 { env = env.reopen(); }
            let sort = |mut v: Vec<(u64, OrganizationRole)>| { v.sort_by_key(|x| x.0); v };
            for (o, mem) in &m {
                let g = env.md.organizations.get_by_id(*o).map_err(|e| json!(format!("{e:?}")))?;
                let want: Vec<_> = mem.iter().map(|x| (*x.0, x.1.clone())).collect();
                for a in 0..=9 { if g.is_member(a) != mem.contains_key(&a) { return Err(json!({"organization": o, "is_member": a})); } }
                if sort(g.members.clone()) != want { return Err(json!({"organization": o, "members": format!("{:?}", g.members), "want": format!("{want:?}")})); }
            }
            for a in 1..=3u64 {
                let g = env.md.accounts.get_by_id(a).map_err(|e| json!(format!("{e:?}")))?;
                let want: Vec<_> = m.iter().filter_map(|(o, x)| x.get(&a).map(|r| (*o, r.clone()))).collect();
                if sort(g.organizations.clone().unwrap_or_default()) != want { return Err(json!({"account": a, "organizations": format!("{:?}", g.organizations), "want": format!("{want:?}")})); }
                run.validated(1);
            }
        }
        Ok(())
    });
}

// ---- M11
use metadata::backups::{CreateBackupRequest, GCPProvider, Provider, S3Provider, Status as BS};
use metadata::settings::{BackupProvider, BackupScheduleInterval, Settings};
#[derive(Debug)]
enum Ba { New(usize), Status(u64, usize), Del(u64) }
pub fn settings(run: &Run) {
    run.assume(STORE);
    // settings: every combination of what validation looks at, everything else at two levels
    run.phase("settings");
    let n = 1usize << 11;
    mc::par(n, |bits| for prov in 0..3 { for iv in 0..5 { for hour in [0usize, 7, 23] {
        let b = |i: usize| bits >> i & 1 == 1;
        let st = |i: usize, s: &str| if b(i) { format!("{s}/é") } else { String::new() };
        let s = Settings {
            auth_access_token: st(8, "at"), auth_refresh_token: st(8, "rt"), auth_admin_default_password: st(8, "pw"), backup_enabled: b(9), backup_encryption_enabled: b(0), backup_encryption_password: st(1, "ep"), backup_compression_enabled: b(10),
            backup_provider: match prov { 0 => BackupProvider::Local, 1 => BackupProvider::S3, _ => BackupProvider::GCP }, backup_provider_local_path: st(9, "lp"),
            backup_provider_s3_bucket: st(2, "sb"), backup_provider_s3_path: st(10, "sp"), backup_provider_s3_region: st(3, "sr"), backup_provider_s3_access_key: st(4, "sa"), backup_provider_s3_secret_key: st(5, "ss"),
            backup_provider_gcp_bucket: st(6, "gb"), backup_provider_gcp_path: st(8, "gp"), backup_provider_gcp_key: st(7, "gk"),
            backup_schedule_interval: match iv { 0 => BackupScheduleInterval::Hourly, 1 => BackupScheduleInterval::Daily, 2 => BackupScheduleInterval::Weekly, 3 => BackupScheduleInterval::Monthly, _ => BackupScheduleInterval::Yearly },
            backup_schedule_start_hour: hour,
        };
        let ok = (!b(0) || b(1)) && match prov { 0 => true, 1 => b(2) && b(3) && b(4) && b(5), _ => b(6) && b(7) };
        run.case(|| format!("settings {s:?}"), || {
            let mut env = Env::new();
            if !missing(&env.md.settings.load()) { return Err(json!("settings before any were saved")); }
            let prev = Settings { auth_access_token: "before".into(), ..Default::default() };
            env.md.settings.save(&prev).map_err(|e| json!(format!("{e:?}")))?;
            let r = env.md.settings.save(&s);
            if r.is_ok() != ok { return Err(json!({"accepted": r.is_ok(), "should be": ok})); }
            for again in 0..2 {
                if again == 1 { env = env.reopen(); }
                let l = env.md.settings.load().map_err(|e| json!(format!("{e:?}")))?;
                if l != *if ok { &s } else { &prev } { return Err(json!({"loaded": format!("{l:?}")})); }
            }
            if ok {
                let q = CreateBackupRequest::from_settings(&s);
                let want = match prov { 0 => Provider::Local(s.backup_provider_local_path.clone().into()), 1 => Provider::S3(S3Provider { bucket: s.backup_provider_s3_bucket.clone(), path: s.backup_provider_s3_path.clone(), region: s.backup_provider_s3_region.clone() }), _ => Provider::GCP(GCPProvider { bucket: s.backup_provider_gcp_bucket.clone(), path: s.backup_provider_gcp_path.clone() }) };
                if q.provider != want || q.is_encrypted != b(0) || q.password != b(0).then(|| s.backup_encryption_password.clone()) || q.status != BS::Idle { return Err(json!({"backup request": format!("{q:?}")})); }
            }
            Ok(())
        });
        run.states(1);
        run.transitions(2);
        run.validated(2);
    } } });
    // backups
    let provs = [Provider::Local("/a/é".into()), Provider::Local("".into()), Provider::S3(S3Provider { bucket: "b".into(), path: "p".into(), region: "r".into() }), Provider::GCP(GCPProvider { bucket: "gb".into(), path: "gp".into() })];
    let stats = [BS::Idle, BS::InProgress(0), BS::InProgress(77), BS::Uploading, BS::Failed("".into()), BS::Failed("é x".into()), BS::Completed];
    let req = |i: usize| CreateBackupRequest { provider: provs[i % 4].clone(), password: [None, Some("p".to_string()), Some("".to_string())][i % 3].clone(), is_encrypted: i % 2 == 0, status: stats[[0, 0, 6, 3, 5, 2][i]].clone() };
    let mut ops: Vec<Ba> = (0..6).map(Ba::New).collect();
    for id in 1..=2 { for s in 0..stats.len() { ops.push(Ba::Status(id, s)); } ops.push(Ba::Del(id)); }
    ops.push(Ba::Status(9, 6));
    histories(run, "backups", &ops, 3, run.pick(300_000, 8_000_000), |seq| {
        let mut env = Env::new();
        let mut m: BTreeMap<u64, (CreateBackupRequest, BS)> = BTreeMap::new();
        let mut used = BTreeSet::new();
        for o in seq {
            match o {
                Ba::New(i) => {
                    let q = req(*i);
                    let refuse = q.status == BS::Idle && m.values().any(|x| x.1 == BS::Idle);
                    match env.md.backups.create(q.clone()) {
                        Ok(b) if !refuse => { if !used.insert(b.id) { return Err(json!({"id used twice": b.id})); } m.insert(b.id, (q.clone(), q.status.clone())); }
                        Err(E::AlreadyExists(_)) if refuse => {}
                        r => return Err(json!({"create": format!("{q:?}"), "got": format!("{r:?}"), "an idle one exists": refuse})),
                    }
                }
                Ba::Status(id, s) => { let r = env.md.backups.update_status(*id, stats[*s].clone()); if r.is_ok() != m.contains_key(id) || r.is_err() && !missing(&r) { return Err(json!({"update_status": id, "got": format!("{r:?}")})); } if let Some(x) = m.get_mut(id) { x.1 = stats[*s].clone(); } }
                Ba::Del(id) => { let r = env.md.backups.delete(*id); if r.is_ok() != m.remove(id).is_some() { return Err(json!({"delete": id, "got": format!("{r:?}")})); } }
            }
        }
        for again in 0..2 {
            if again == 1 { env = env.reopen(); }
            let mut l: Vec<_> = env.md.backups.list().map_err(|e| json!(format!("{e:?}")))?.data;
            l.sort_by_key(|b| b.id);
            let same = l.len() == m.len() && l.iter().zip(&m).all(|(b, (id, (q, s)))| b.id == *id && b.provider == q.provider && b.password == q.password && b.is_encrypted == q.is_encrypted && b.status == *s);
            if !same { return Err(json!({"backups": format!("{l:?}"), "want": format!("{m:?}")})); }
            for id in 0..4 { let g = env.md.backups.get_by_id(id); if g.as_ref().ok() != l.iter().find(|b| b.id == id) || g.is_err() && !missing(&g) { return Err(json!({"get": id, "got": format!("{g:?}")})); } }
            run.validated(5);
        }
        Ok(())
    });
}
