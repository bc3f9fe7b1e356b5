//! M03: every interleaving of concurrent operations, up to a number of preemptions, acts like some
//! order of them one after the other. M04: a process that dies at any commit of an operation
//! leaves the state from before or after it.
use crate::env::{Dump, Env};
use crate::kinds::{self, f, Kind, F};
use mc::sched::{explore, Handle};
use mc::Run;
use metadata::error::MetadataError as E;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const STORE: &str = "the key-value store is the in-memory stand-in for RocksDB's TransactionDB: pessimistic locks by key, atomic commits, reads of committed data (DESIGN.md)";
type Do = Arc<dyn Fn(&Env) -> Value + Send + Sync>;
type Look = Arc<dyn Fn(&Env) -> Value + Send + Sync>;
#[derive(Clone)]
struct Op { name: String, f: Do }
fn op(name: impl Into<String>, f: impl Fn(&Env) -> Value + Send + Sync + 'static) -> Op { Op { name: name.into(), f: Arc::new(f) } }
struct Family { name: String, init: Vec<(String, Dump)>, ops: Vec<Op>, look: Look }

fn err(e: &E) -> Value {
    match e {
        E::RocksDb(r) if r.kind() == rocksdb::ErrorKind::TimedOut => json!("refused: lock"),
        E::RocksDb(_) => json!("refused: store"),
        E::AlreadyExists(_) => json!("error: already exists"),
        E::NotFound(_) => json!("error: not found"),
        E::BadRequest(_) => json!("error: bad request"),
        o => json!(format!("error: {o:?}")),
    }
}
fn refused(v: &Value) -> bool { v.as_str().map(|s| s.starts_with("refused")).unwrap_or(false) }
fn res(r: Result<Value, E>) -> Value { match r { Ok(v) => v, Err(e) => err(&e) } }
fn dbg<T: std::fmt::Debug>(r: Result<T, E>) -> Value { match r { Ok(v) => json!(format!("{v:?}")), Err(e) => err(&e) } }

struct Ctl(Handle);
impl rocksdb::Control for Ctl {
    fn point(&self, op: rocksdb::Op, key: &[u8]) { if op != rocksdb::Op::Begin { self.0.point(|| format!("{op:?} {}", String::from_utf8_lossy(key))) } }
    fn blocked(&self, _: &[u8]) -> bool { self.0.blocked() }
    fn released(&self) { self.0.released() }
}
struct Dies { left: Mutex<u64> }
impl rocksdb::Control for Dies {
    fn point(&self, _: rocksdb::Op, _: &[u8]) {}
    fn blocked(&self, _: &[u8]) -> bool { false }
    fn released(&self) {}
    fn may_commit(&self) -> bool { let mut l = self.left.lock().unwrap(); if *l == 0 { false } else { *l -= 1; true } }
}

fn families(_run: &Run) -> Vec<Family> {
    let mut out = vec![];
    for (ki, k) in kinds::all().into_iter().enumerate() {
        let k: Arc<dyn Kind> = Arc::from(k);
        let defaults = |k: &dyn Kind, first: usize| -> F {
            let mut m: F = k.fields().into_iter().filter(|x| !k.update_only().contains(&x.0)).map(|(n, v)| (n.to_string(), v[if n == k.fields()[0].0 { first } else { 0 }].clone())).collect();
            for e in ["created_by"] { m.insert(e.into(), json!(1)); }
            for e in ["is_system"] { m.entry(e.to_string()).or_insert(json!(false)); }
            m
        };
        let main = k.fields()[0].0;
        // entities that differ in everything unique
        let (mut a, mut b) = (defaults(&*k, 0), defaults(&*k, 1));
        for u in k.unique() { if *u != main { let v = k.fields().into_iter().find(|x| x.0 == *u).unwrap().1; if v.len() > 1 && !v[0].is_null() { b.insert(u.to_string(), v[1].clone()); } } }
        a.insert("created_by".into(), json!(1));
        let s = k.scopes();
        let mut ops: Vec<Op> = vec![];
        let c = |n: &str, sc: u64, fl: &F| { let (k, fl) = (k.clone(), fl.clone()); op(format!("create {n} in {sc}"), move |e: &Env| res(k.create(&e.md, sc, &fl))) };
        ops.push(c("a", s[0], &a));
        ops.push(c("b", s[0], &b));
        if s.len() > 1 { ops.push(c("a", s[1], &a)); }
        // both want the same display name or token
        for u in k.unique() {
            if *u == main { continue }
            let v = k.fields().iter().find(|x| x.0 == *u).unwrap().1.clone();
            let w = v.iter().find(|x| !x.is_null()).unwrap().clone();
            for (n, x) in [("a", &a), ("b", &b)] { let mut x = x.clone(); x.insert(u.to_string(), w.clone()); ops.push(c(&format!("{n} with {u}={w}"), s[0], &x)); }
        }
        for (n, x) in [("a", &a), ("b", &b)] {
            let (k2, x) = (k.clone(), x.clone());
            let probe = Env::new();
            k.prepare(&probe.md);
            if k.get_or_create(&probe.md, s[0], &x).is_some() { let sc = s[0]; ops.push(op(format!("get or create {n}"), move |e| res(k2.get_or_create(&e.md, sc, &x).unwrap()))); }
        }
        for id in [1u64, 2] {
            let sc = s[0];
            let k2 = k.clone();
            ops.push(op(format!("delete {id}"), move |e| res(k2.delete(&e.md, sc, id))));
            let mut ups: Vec<F> = vec![];
            let fields: Vec<_> = k.fields().into_iter().filter(|x| !k.create_only().contains(&x.0)).collect();
            // a change of the name and of two other fields
            if fields.iter().any(|x| x.0 == main) { for v in &k.fields()[0].1 { ups.push(f(json!({ main: v }))); } }
            for (n, v) in fields.iter().filter(|x| x.0 != main && x.1.len() > 1).take(2) { ups.push(f(json!({ *n: v[1] }))); }
            for u in ups {
                let (k2, mut x) = (k.clone(), u.clone());
                x.insert("updated_by".into(), json!(9));
                ops.push(op(format!("update {id} {}", Value::Object(u)), move |e| res(k2.update(&e.md, sc, id, &x))));
            }
        }
        if ki == 0 {
            for p in [5u64, 6] {
                ops.push(op(format!("attach {p} to 1"), move |e| res(e.md.events.attach_event_property(1, 1, p).map(|x| kinds::norm(&x)))));
                ops.push(op(format!("detach {p} from 1"), move |e| res(e.md.events.detach_event_property(1, 1, p).map(|x| kinds::norm(&x)))));
            }
            ops.push(op("attach 6, 7 to 1 if missing", move |e| dbg(e.md.events.try_attach_properties(1, 1, vec![6, 7]))));
            ops.push(op("next record", move |e| dbg(e.md.events.next_record_sequence(1))));
        }
        if k.name() == "projects" { ops.push(op("count an event of 1", |e| dbg(e.md.projects.increment_events_counter(1)))); }
        let mut init = vec![];
        for n in 0..3 {
            let e = Env::new();
            k.prepare(&e.md);
            if n > 0 { let x = k.create(&e.md, s[0], &a); assert!(x.is_ok(), "{x:?}"); }
            if n > 1 { k.create(&e.md, s[0], &b).unwrap(); }
            init.push((["none", "a", "a and b"][n].to_string(), e.db.dump()));
        }
        let k2 = k.clone();
        let look: Look = Arc::new(move |e| {
            let mut l = vec![];
            for sc in k2.scopes() {
                let mut x = match k2.list(&e.md, sc) { Ok(x) => x, Err(e) => vec![err(&e)] };
                x.sort_by_key(|v| v["id"].as_u64());
                l.push(json!(x));
                for id in 1..5 { l.push(res(k2.get(&e.md, sc, id))); }
                if k2.by().is_some() { for v in &k2.fields().iter().find(|x| Some(x.0) == k2.by()).unwrap().1 { l.push(res(k2.find(&e.md, sc, v.as_str().unwrap()))); } }
            }
            json!(l)
        });
        out.push(Family { name: k.name().into(), init, ops, look });
    }
    // dictionaries
    let key = |c: &'static str, v: &'static str| op(format!("key of {v} in {c}"), move |e: &Env| dbg(e.md.dictionaries.get_key_or_create(1, "events", c, v)));
    out.push(Family { name: "dictionaries".into(), init: vec![("none".into(), Dump::new()), ("a in c".into(), { let e = Env::new(); e.md.dictionaries.get_key_or_create(1, "events", "c", "a").unwrap(); e.db.dump() })],
        ops: vec![key("c", "a"), key("c", "b"), key("c", ""), key("cc", "a")],
        look: Arc::new(|e| { let d = &e.md.dictionaries; let mut l = vec![]; for c in ["c", "cc"] { for v in ["a", "b", ""] { l.push(dbg(d.get_key(1, "events", c, v))); } for k in 1..5 { l.push(dbg(d.get_value(1, "events", c, k))); } } json!(l) }) });
    // groups and users
    use metadata::groups::{PropertyValue as PV, Value as V};
    let pv = |p: u64, v: i64| vec![PV { property_id: p, value: V::Int64(Some(v)) }];
    let user = |r: metadata::groups::GroupValues| { let mut v: Vec<_> = r.values.iter().map(|x| format!("{x:?}")).collect(); v.sort(); json!({"id": r.id, "values": v}) };
    let mut ops = vec![];
    for k in ["x", "y"] { ops.push(op(format!("anonymous {k}"), move |e| dbg(e.md.groups.get_or_create_anonymous_id(1, 0, k)))); }
    for (a, k) in [("x", "u"), ("x", "w"), ("y", "u")] { let v = pv(1, 1); ops.push(op(format!("merge {k} with anonymous {a}"), move |e| res(e.md.groups.merge_with_anonymous(1, 0, a, k, v.clone()).map(user)))); }
    for (k, p) in [("u", 1), ("u", 2), ("w", 1)] { let v = pv(p, 7); ops.push(op(format!("update {k} with property {p}"), move |e| res(e.md.groups.create_or_update(1, 0, k, v.clone()).map(user)))); }
    for k in ["u", "w"] { let v = pv(3, 3); ops.push(op(format!("get or create {k}"), move |e| res(e.md.groups.get_or_create(1, 0, k, v.clone()).map(user)))); }
    for g in ["g", "h"] { ops.push(op(format!("group {g}"), move |e| res(e.md.groups.get_or_create_group(1, g.into(), g.into()).map(|x| json!([x.id, x.name]))))); }
    ops.push(op("next record", |e| dbg(e.md.groups.next_record_sequence(1, 0))));
    let filled = { let e = Env::new(); e.md.groups.get_or_create_anonymous_id(1, 0, "x").unwrap(); e.md.groups.create_or_update(1, 0, "u", pv(1, 0)).unwrap(); e.md.groups.get_or_create_group(1, "user".into(), "User".into()).unwrap(); e.db.dump() };
    out.push(Family { name: "groups and users".into(), init: vec![("none".into(), Dump::new()), ("x, u, user".into(), filled)], ops,
        // looking creates what is missing, the same way every time
        look: Arc::new(move |e| {
            let e = e_copy(e);
            let g = &e.md.groups;
            let mut l = vec![];
            for k in ["u", "w"] { l.push(res(g.get_or_create(1, 0, k, vec![]).map(user))); }
            for k in ["x", "y"] { l.push(dbg(g.get_or_create_anonymous_id(1, 0, k))); }
            let mut n: Vec<_> = g.list_groups(1).unwrap().data.into_iter().map(|x| (x.id, x.name)).collect();
            n.sort();
            l.push(json!(n));
            l.push(dbg(g.next_record_sequence(1, 0)));
            json!(l)
        }) });
    // members of organizations
    let base = { let e = Env::new(); let k = kinds::Organizations; k.prepare(&e.md); for n in ["o", "p"] { k.create(&e.md, 0, &f(json!({"created_by": 1, "name": n}))).unwrap(); } e };
    let two = { let e = Env::load(&base.db.dump()); e.md.organizations.add_member(1, 2, common::rbac::OrganizationRole::Admin).unwrap(); e };
    let mut ops = vec![];
    use common::rbac::OrganizationRole as OR;
    for (o, a) in [(1, 2), (1, 3), (2, 2)] {
        ops.push(op(format!("add {a} to {o}"), move |e| dbg(e.md.organizations.add_member(o, a, OR::Member))));
        ops.push(op(format!("remove {a} from {o}"), move |e| dbg(e.md.organizations.remove_member(o, a))));
    }
    ops.push(op("role of 2 in 1", |e| dbg(e.md.organizations.change_member_role(1, 2, OR::Owner))));
    ops.push(op("rename 1", |e| res(kinds::Organizations.update(&e.md, 0, 1, &f(json!({"updated_by": 1, "name": "q"}))))));
    ops.push(op("rename account 2", |e| res(kinds::Accounts.update(&e.md, 0, 2, &f(json!({"updated_by": 1, "name": "q"}))))));
    out.push(Family { name: "members".into(), init: vec![("own members".into(), base.db.dump()), ("2 in 1".into(), two.db.dump())], ops,
        look: Arc::new(|e| { let mut l = vec![]; for o in 1..3 { l.push(res(kinds::Organizations.get(&e.md, 0, o))); } for a in 1..4 { l.push(res(kinds::Accounts.get(&e.md, 0, a))); } json!(l) }) });
    // sessions
    let t = |s: i64| chrono::DateTime::from_timestamp(1_700_000_000 + s, 0).unwrap();
    let mut ops = vec![];
    for (u, s) in [(1, 0), (1, 100), (2, 100)] { ops.push(op(format!("event of {u} at {s}"), move |e| dbg(e.md.sessions.set_current_time(1, u, t(s))))); }
    ops.push(op("end those before 50", move |e| { let m = Mutex::new(vec![]); let r = e.md.sessions.check_for_deletion(1, |s| { let old = s.created_at < t(50); if old { m.lock().unwrap().push(s.user_id) } Ok(old) }); match r { Ok(()) => json!({"ended": *m.lock().unwrap()}), Err(e) => err(&e) } }));
    ops.push(op("clear", |e| dbg(e.md.sessions.clear_project(1))));
    let old = { let e = Env::new(); e.md.sessions.set_current_time(1, 1, t(0)).unwrap(); e.md.sessions.set_current_time(1, 2, t(1)).unwrap(); e.db.dump() };
    out.push(Family { name: "sessions".into(), init: vec![("none".into(), Dump::new()), ("1 and 2".into(), old)], ops, look: Arc::new(|e| json!([dbg(e.md.sessions.get_by_user_id(1, 1)), dbg(e.md.sessions.get_by_user_id(1, 2))])) });
    // backups
    use metadata::backups as bk;
    let req = |s: bk::Status| bk::CreateBackupRequest { provider: bk::Provider::Local("/b".into()), password: None, is_encrypted: false, status: s };
    let mut ops = vec![];
    for (n, s) in [("idle", bk::Status::Idle), ("completed", bk::Status::Completed)] { let r = req(s); ops.push(op(format!("create {n}"), move |e| dbg(e.md.backups.create(r.clone()).map(|b| (b.id, b.status))))); }
    for id in [1u64, 2] { ops.push(op(format!("complete {id}"), move |e| dbg(e.md.backups.update_status(id, bk::Status::Completed)))); }
    ops.push(op("delete 1", |e| dbg(e.md.backups.delete(1))));
    ops.push(op("progress of 1", |e| dbg(e.md.backups.update_status(1, bk::Status::InProgress(7)))));
    let one = { let e = Env::new(); e.md.backups.create(req(bk::Status::Completed)).unwrap(); e.db.dump() };
    let idle = { let e = Env::new(); e.md.backups.create(req(bk::Status::Idle)).unwrap(); e.db.dump() };
    out.push(Family { name: "backups".into(), init: vec![("none".into(), Dump::new()), ("one".into(), one), ("idle".into(), idle)], ops, look: Arc::new(|e| { let mut l: Vec<_> = e.md.backups.list().unwrap().data.into_iter().map(|b| (b.id, format!("{:?}", b.status))).collect(); l.sort(); json!(l) }) });
    out
}
/// the same state and the same caches do not matter for a look that writes
fn e_copy(e: &Env) -> Env { Env::with(e.db.reopen(), e.opti.clone()) }

/// in a fresh environment, as it is and after opening it again
fn both(fam: &Family, env: Env) -> Value { let a = (fam.look)(&env); let b = (fam.look)(&env.reopen()); json!([a, b]) }

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    let mut out = vec![];
    for p in perms(n - 1) { for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, n - 1); out.push(q); } }
    out
}

/// what the orders of the operations one after the other give: for every subset of operations not
/// refused, the pairs of results and state
fn serial(fam: &Family, init: &Dump, ops: &[&Op]) -> BTreeMap<Vec<usize>, Vec<(Vec<Value>, Value)>> {
    let mut out: BTreeMap<Vec<usize>, Vec<(Vec<Value>, Value)>> = BTreeMap::new();
    for set in 1u32..(1 << ops.len()) {
        let who: Vec<usize> = (0..ops.len()).filter(|i| set >> i & 1 == 1).collect();
        for p in perms(who.len()) {
            let env = Env::load(init);
            let mut r = vec![Value::Null; who.len()];
            for i in p { r[i] = (ops[who[i]].f)(&env); }
            let e = (r, both(fam, env));
            let l = out.entry(who.clone()).or_default();
            if !l.contains(&e) { l.push(e); }
        }
    }
    out
}

pub fn concurrent(run: &Run) {
    run.assume(STORE);
    run.assume("an operation refused because a lock could not be had in time (two wait for each other) counts as not done; at least one of them is done");
    let fams = families(run);
    let (pair_bound, triple_bound) = (run.pick(2, 3), run.pick(1, 1));
    let limit = run.pick(60_000u64, 400_000);
    let mut jobs: Vec<(usize, usize, Vec<usize>, usize)> = vec![];
    for (fi, fam) in fams.iter().enumerate() {
        let n = fam.ops.len();
        for ii in 0..fam.init.len() {
            for a in 0..n { for b in a..n { jobs.push((fi, ii, vec![a, b], pair_bound)); } }
            for a in 0..n { for b in a..n { for c in b..n {
                // three at once: all of the small families, of the others what touches the same names
                if run.thorough() || n <= 8 || c < 5 { jobs.push((fi, ii, vec![a, b, c], triple_bound)); }
            } } }
        }
    }
    run.extra("scenarios", json!(jobs.len()));
    run.extra("preemption bound", json!({"two at once": pair_bound, "three at once": triple_bound}));
    run.extra("families", json!(fams.iter().map(|f| format!("{}: {} operations, {} states", f.name, f.ops.len(), f.init.len())).collect::<Vec<_>>()));
    let total = Mutex::new((0u64, 0u64, 0u64));
    run.phase("interleavings");
    mc::par(jobs.len(), |j| {
        let (fi, ii, which, bound) = &jobs[j];
        let fam = &fams[*fi];
        let (iname, init) = &fam.init[*ii];
        let ops: Vec<&Op> = which.iter().map(|i| &fam.ops[*i]).collect();
        let key = || format!("{}, starting with {iname}: {}", fam.name, ops.iter().map(|o| o.name.clone()).collect::<Vec<_>>().join(" || "));
        run.case(key, || {
            let want = serial(fam, init, &ops);
            let mut bad = None;
            let env: Mutex<Option<Arc<Env>>> = Mutex::new(None);
            let st = explore(*bound, limit, || {
                let e = Arc::new(Env::load(init));
                *env.lock().unwrap() = Some(e.clone());
                ops.iter().map(|o| {
                    let (f, e) = (o.f.clone(), e.clone());
                    Box::new(move |h: Handle| {
                        kinds::DB.with(|d| *d.borrow_mut() = Some(e.db.clone()));
                        rocksdb::set_control(Some(Arc::new(Ctl(h))));
                        let r = mc::guard(|| f(&e));
                        rocksdb::set_control(None);
                        kinds::DB.with(|d| *d.borrow_mut() = None);
                        r
                    }) as Box<dyn FnOnce(Handle) -> Result<Value, String> + Send>
                }).collect()
            }, |o| {
                let e = env.lock().unwrap().take().unwrap();
                let e = match Arc::try_unwrap(e) { Ok(e) => e, Err(_) => panic!("a thread kept the environment") };
                let rs: Vec<Value> = o.results.into_iter().map(|r| match r { Ok(Ok(v)) => v, Ok(Err(p)) | Err(p) => json!(format!("panic: {p}")) }).collect();
                let done: Vec<usize> = (0..rs.len()).filter(|i| !refused(&rs[*i])).collect();
                let got: Vec<Value> = done.iter().map(|i| rs[*i].clone()).collect();
                let look = both(fam, e);
                let ok = done.iter().all(|_| true) && !done.is_empty() && want[&done].iter().any(|(r, l)| *r == got && *l == look);
                if !ok {
                    bad = Some(json!({"results": rs, "state": look, "states of the serial orders": want.get(&done), "schedule": o.path.iter().map(|(t, l)| format!("{t}: {l}")).collect::<Vec<_>>()}));
                }
                ok
            });
            run.states(st.schedules);
            run.transitions(st.steps);
            run.validated(st.schedules);
            if !st.complete && bad.is_none() { run.not_exhaustive(); }
            { let mut t = total.lock().unwrap(); t.0 += st.schedules; t.1 = t.1.max(st.schedules); t.2 += st.deadlocks; }
            if j % (jobs.len() / 6 + 1) == 0 { run.sample(json!({"scenario": key(), "schedules": st.schedules})); }
            match bad { None => Ok(()), Some(b) => Err(b) }
        });
    });
    let t = total.lock().unwrap();
    run.extra("schedules", json!({"all": t.0, "most of one scenario": t.1, "ending in two waiting for each other": t.2}));
}

pub fn dying(run: &Run) {
    run.assume(STORE);
    let fams = families(run);
    // an operation from every state that one or two operations lead to
    let mut jobs: Vec<(usize, usize, Vec<usize>)> = vec![];
    for (fi, fam) in fams.iter().enumerate() { for ii in 0..fam.init.len() {
        let n = fam.ops.len();
        for a in 0..n { jobs.push((fi, ii, vec![a])); for b in 0..n { jobs.push((fi, ii, vec![a, b])); if run.thorough() || n <= 16 { for c in 0..n { jobs.push((fi, ii, vec![a, b, c])); } } } }
    } }
    run.extra("histories", json!(jobs.len()));
    run.phase("dying");
    let max = std::sync::atomic::AtomicU64::new(0);
    mc::par(jobs.len().div_ceil(64), |c| for j in c * 64..((c + 1) * 64).min(jobs.len()) {
        let (fi, ii, which) = &jobs[j];
        let fam = &fams[*fi];
        let (iname, init) = &fam.init[*ii];
        let ops: Vec<&Op> = which.iter().map(|i| &fam.ops[*i]).collect();
        let (last, first) = ops.split_last().unwrap();
        run.case(|| format!("{}, starting with {iname}: {}", fam.name, ops.iter().map(|o| o.name.clone()).collect::<Vec<_>>().join(", then ")), || {
            let env = Env::load(init);
            for o in first { (o.f)(&env); }
            let start = env.db.dump();
            let before = both(fam, Env::load(&start));
            let env = Env::load(&start);
            let n0 = env.db.commits();
            let done = (last.f)(&env);
            let n = env.db.commits() - n0;
            max.fetch_max(n, std::sync::atomic::Ordering::SeqCst);
            let after = both(fam, env);
            for at in 0..n {
                let env = Env::load(&start);
                rocksdb::set_control(Some(Arc::new(Dies { left: Mutex::new(at) })));
                let r = mc::guard(|| (last.f)(&env));
                rocksdb::set_control(None);
                // what the store has is what the next process finds
                let left = env.db.dump();
                let found = both(fam, Env::load(&left));
                let detail = |what: &str, x: Value| json!({"what": what, "died at commit": at, "of": n, "result": format!("{r:?}"), "found": found, "before": before, "after": after, "more": x});
                if found != before && found != after { return Err(detail("neither the state before nor the one after", json!(null))); }
                if found == before {
                    let env = Env::load(&left);
                    let again = (last.f)(&env);
                    if again != done { return Err(detail("done again, it gives another result", json!([done, again]))); }
                    let l = both(fam, env);
                    if l != after { return Err(detail("done again, it leads to another state", l)); }
                }
                run.states(1);
                run.validated(2);
                if j % 4000 == 17 && run.wants_sample() { run.sample(json!({"history": ops.iter().map(|o| o.name.clone()).collect::<Vec<_>>(), "died at commit": at})); }
            }
            run.transitions(ops.len() as u64 * (n + 1));
            Ok(())
        });
    });
    run.extra("most commits of one operation", json!(max.load(std::sync::atomic::Ordering::SeqCst)));
}
