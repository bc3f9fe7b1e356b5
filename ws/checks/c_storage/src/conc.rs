//! S04: operations of several threads at once, in every order of their lock and file operations up to a number of preemptions.
use crate::disk;
use crate::env::*;
use crate::rows::{configs, rows_on_disk, Config, Op, Store};
use mc::sched::{explore, Handle};
use mc::{par, Run};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do { Ins(usize), Flush, Compact, Gc, Scan, AddField, Backup, Get(usize, usize) }
struct Ctl(Handle);
impl mc_parking_lot::Control for Ctl {
    fn point(&self, what: &'static str) { self.0.point(|| what.to_string()) }
    fn blocked(&self) -> bool { self.0.blocked() }
    fn released(&self) { self.0.released() }
}
/// a row's insertion, and a scan or a backup, with the moments they began and ended
#[derive(Clone, Debug)]
enum Ev { Ins(Row, u64, u64), Saw(Vec<Row>, u64, u64), Bak(std::path::PathBuf, u64, u64), Got(Row, Option<Row>, u64, u64) }

/// contains every row whose insertion had ended, none that had not begun, and each once
fn explains(base: &[Row], evs: &[Ev], saw: &[Row], from: u64, to: u64) -> Result<(), String> {
    let cut = |r: &Row| -> Row { r.iter().take(3).cloned().collect() };
    let saw: Vec<Row> = saw.iter().map(cut).collect();
    let mut sorted = saw.clone();
    sorted.sort();
    if sorted.windows(2).any(|w| w[0] == w[1]) { return Err(format!("a row twice: {saw:?}")); }
    if saw.windows(2).any(|w| w[0][..2] > w[1][..2]) { return Err(format!("out of order: {saw:?}")); }
    for r in base { if !saw.contains(&cut(r)) { return Err(format!("{r:?}, which was there before, is not in {saw:?}")); } }
    let mut may: Vec<Row> = base.iter().map(cut).collect();
    for e in evs { if let Ev::Ins(r, b, f) = e {
        if *f < from && !saw.contains(&cut(r)) { return Err(format!("{r:?}, inserted before, is not in {saw:?}")); }
        if *b < to { may.push(cut(r)) }
    } }
    for r in &saw { if !may.contains(r) { return Err(format!("{r:?} has not been inserted yet: {saw:?}")); } }
    Ok(())
}

/// finds a row with this key if one's insertion had ended, and none whose insertion had not begun
fn found(base: &[Row], evs: &[Ev], key: &Row, got: &Option<Row>, from: u64, to: u64) -> Result<(), String> {
    let like = |r: &Row| r[..key.len()] == key[..];
    let cut = |r: &Row| -> Row { r.iter().take(3).cloned().collect() };
    let done = base.iter().any(like) || evs.iter().any(|e| matches!(e, Ev::Ins(r, _, f) if like(r) && *f < from));
    match got {
        None if done => Err("no row is found where one was there before".into()),
        None => Ok(()),
        Some(g) => if like(g) && (base.iter().any(|r| cut(r) == cut(g)) || evs.iter().any(|e| matches!(e, Ev::Ins(r, b, _) if *b < to && cut(r) == cut(g)))) { Ok(()) } else { Err(format!("{g:?} is found, which has not been inserted under that key")) },
    }
}

pub fn s04(run: &Arc<Run>) {
    run.assume("code between two lock or file operations of a thread is not interrupted: what threads share is behind the store's locks or is files (the counts of opened files are behind a lock of their own, taken for one access)");
    let cs: Vec<Config> = configs(false).into_iter().filter(|c| c.index_cols == 2 && c.name != "columns of every type" && c.name != "chunks of one row" && (run.thorough() || c.name != "parts of one row group")).collect();
    let starts: Vec<Vec<Op>> = {
        use Op::*;
        vec![vec![], vec![Ins(0), Flush, Ins(1)], vec![Ins(0), Flush, Ins(1), Ins(2), Flush, Compact, Ins(2), Flush, Ins(1), Flush, Ins(0)]]
    };
    use Do::*;
    let mut teams: Vec<(usize, Vec<Vec<Do>>)> = vec![];
    let all = [Ins(0), Flush, Compact, Gc, Scan, AddField, Backup];
    let b = run.pick(2, 3);
    for i in 0..all.len() { for j in i..all.len() {
        if [all[i], all[j]] == [Gc, Gc] || [all[i], all[j]] == [Compact, Compact] || [all[i], all[j]] == [Backup, Backup] || [all[i], all[j]] == [AddField, AddField] { continue }
        teams.push((b, vec![vec![all[i]], vec![all[j]]]));
    } }
    for (x, y) in [
        (vec![Ins(0), Scan], vec![Ins(2), Flush]), (vec![Ins(0), Flush], vec![Scan, Scan]), (vec![Flush, Compact], vec![Scan, Scan]), (vec![Compact, Gc], vec![Scan, Scan]), (vec![Ins(0), Ins(1)], vec![Flush, Flush]),
        (vec![Ins(0), Ins(1)], vec![Scan, Scan]), (vec![Flush, Compact], vec![Ins(0), Scan]), (vec![AddField, Ins(0)], vec![Ins(1), Flush]), (vec![Flush, Gc], vec![Scan, Ins(0)]), (vec![Backup], vec![Ins(0), Flush]), (vec![Backup], vec![Flush, Compact]), (vec![Backup, Gc], vec![Compact, Ins(0)]),
    ] { teams.push((run.pick(1, 2), vec![x, y])) }
    for t in [[Ins(0), Flush, Scan], [Ins(0), Compact, Scan], [Flush, Compact, Scan], [Flush, Compact, Gc], [Compact, Gc, Scan], [Ins(0), Ins(2), Flush], [Ins(0), AddField, Flush], [AddField, Flush, Compact], [AddField, Scan, Ins(0)], [Ins(0), Flush, Backup], [Compact, Gc, Backup], [Backup, Ins(0), Scan], [Backup, Compact, AddField]] { teams.push((run.pick(1, 2), t.iter().map(|d| vec![*d]).collect())) }
    at_once(run, b, teams, starts, cs);
}

/// S05, with other operations at the same time
pub fn s05(run: &Arc<Run>) {
    run.assume("code between two lock or file operations of a thread is not interrupted: what threads share is behind the store's locks or is files");
    let cs: Vec<Config> = configs(false).into_iter().filter(|c| ["plain", "every level moves on"].contains(&c.name)).collect();
    use Op as O;
    let starts: Vec<Vec<Op>> = vec![vec![], vec![O::Ins(0), O::Flush, O::Ins(1)], vec![O::Ins(0), O::Flush, O::Ins(1), O::Ins(2), O::Flush, O::Compact, O::Ins(2), O::Flush, O::Ins(1), O::Flush, O::Ins(0)]];
    use Do::*;
    let b = run.pick(2, 3);
    let mut teams = vec![];
    for g in [Get(0, 2), Get(1, 1)] {
        for o in [Ins(0), Flush, Compact, Gc, AddField] { teams.push((b, vec![vec![g], vec![o]])); }
        for (x, y) in [(vec![Ins(0), g], vec![Flush]), (vec![Flush, Compact], vec![g]), (vec![Compact, Gc], vec![g]), (vec![Flush, Compact, Gc], vec![g, g])] { teams.push((run.pick(1, 2), vec![x, y])); }
        for t in [[Flush, Compact], [Compact, Gc], [Ins(0), Flush]] { teams.push((run.pick(1, 2), vec![vec![g], vec![t[0]], vec![t[1]]])); }
    }
    at_once(run, b, teams, starts, cs);
}

fn at_once(run: &Arc<Run>, b: usize, teams: Vec<(usize, Vec<Vec<Do>>)>, starts: Vec<Vec<Op>>, cs: Vec<Config>) {
    use Do::*;
    let keys: Vec<&[i64]> = vec![&[1, 1], &[1, 2], &[2, 1]];
    run.phase("schedules");
    let schedules = AtomicU64::new(0);
    let cut = AtomicU64::new(0);
    let limit = run.pick(3000, 60000) as u64;
    par(teams.len() * starts.len() * cs.len(), |i| {
        let (c, i) = (&cs[i % cs.len()], i / cs.len());
        let (start, i) = (&starts[i % starts.len()], i / starts.len());
        let (bound, team) = &teams[i];
        let now: Arc<Mutex<Option<(Store, Vec<Vec<Do>>, Arc<AtomicU64>)>>> = Arc::default();
        let st = explore(*bound, limit, || {
            let mut s = Store::new(c).expect("a new store");
            for o in start { s.act(*o, &keys).expect("the start"); }
            let clock = Arc::new(AtomicU64::new(0));
            let db = Arc::new(s.db().clone());
            let mut bodies: Vec<Box<dyn FnOnce(Handle) -> Vec<Result<Ev, String>> + Send>> = vec![];
            for (t, ops) in team.iter().enumerate() {
                // rows and names of files are given out beforehand
                let mut work: Vec<(Do, Row, std::path::PathBuf)> = vec![];
                for o in ops { work.push((*o, if let Ins(k) = o { s.row(keys[*k]) } else { vec![] }, dir())) }
                let (db, clock, cols) = (db.clone(), clock.clone(), s.cols);
                let keys: Vec<Vec<i64>> = keys.iter().map(|k| k.to_vec()).collect();
                bodies.push(Box::new(move |h: Handle| {
                    mc_parking_lot::set_control(Some(Arc::new(Ctl(h.clone()))));
                    disk::scheduled(Some(h));
                    let _ = t;
                    let mut out = vec![];
                    for (o, row, path) in work {
                        let from = clock.fetch_add(1, SeqCst);
                        let r: Result<Option<Ev>, String> = mc::guard(|| Ok(match o {
                            Ins(_) => { insert(&db, "t", &row, 2, false)?; Some(Ev::Ins(row, from, 0)) }
                            Flush => { db.flush("t").map_err(|e| format!("flush: {e:?}"))?; None }
                            Compact => { db.compact_now(); None }
                            Gc => { db.gc_now(); None }
                            Scan => Some(Ev::Saw(scan(&db, "t", &[0, 1, 2])?, from, 0)),
                            Get(k, n) => { let key = &keys[k][..n]; Some(Ev::Got(key.iter().map(|x| Val::I(*x)).collect(), get(&db, "t", key)?, from, 0)) }
                            AddField => { let (n, d) = &COLS[cols]; db.add_field("t", n, d.clone(), true).map_err(|e| format!("add_field: {e:?}"))?; None }
                            Backup => { db.full_backup_local(&path, |_| {}).map_err(|e| format!("backup: {e:?}"))?; Some(Ev::Bak(path, from, 0)) }
                        })).map_err(|p| format!("{o:?} panics: {p}")).and_then(|r| r);
                        let to = clock.fetch_add(1, SeqCst);
                        match r {
                            Err(e) => out.push(Err(e)),
                            Ok(None) => {}
                            Ok(Some(e)) => out.push(Ok(match e { Ev::Ins(r, f, _) => Ev::Ins(r, f, to), Ev::Saw(r, f, _) => Ev::Saw(r, f, to), Ev::Bak(p, f, _) => Ev::Bak(p, f, to), Ev::Got(k, r, f, _) => Ev::Got(k, r, f, to) })),
                        }
                    }
                    disk::scheduled(None);
                    mc_parking_lot::set_control(None);
                    out
                }));
            }
            *now.lock().unwrap() = Some((s, team.clone(), clock));
            bodies
        }, |o| {
            let (mut s, _, _) = now.lock().unwrap().take().unwrap();
            schedules.fetch_add(1, SeqCst);
            let mut ok = true;
            run.case(|| format!("{}: {start:?} then {team:?} at once", c.name), || {
                let steps: Vec<String> = o.path.iter().map(|p| format!("{} {}", p.0, p.1)).collect();
                let mut go = || -> Result<(), String> {
                    let mut evs = vec![];
                    for r in &o.results { for e in r.as_ref().map_err(|e| format!("panic: {e}"))? { evs.push(e.clone()?) } }
                    if o.deadlocks > 0 { return Err("deadlock".into()) }
                    let base = s.model.clone();
                    for e in &evs { if let Ev::Saw(r, f, t) = e { explains(&base, &evs, r, *f, *t).map_err(|e| format!("a scan: {e}"))?; } }
                    for e in &evs { if let Ev::Got(k, r, f, t) = e { found(&base, &evs, k, r, *f, *t).map_err(|e| format!("a look-up of {k:?}: {e}"))?; } }
                    for e in &evs { if let Ev::Saw(r, _, t) = e { for e2 in &evs { if let Ev::Saw(r2, f2, _) = e2 { if t < f2 && r.iter().any(|x| !r2.contains(x)) { return Err(format!("a scan yields {r2:?} after one that has yielded {r:?}")) } } } } }
                    for e in &evs { if let Ev::Bak(p, f, t) = e {
                        let d = dir();
                        let r = (|| {
                            let db = open(&d)?;
                            mc::guard(|| db.full_restore_local(p)).map_err(|p| format!("restoring panics: {p}"))?.map_err(|e| format!("restoring: {e:?}"))?;
                            explains(&base, &evs, &scan(&db, "t", &[0, 1, 2])?, *f, *t)
                        })();
                        let _ = std::fs::remove_dir_all(&d);
                        let _ = std::fs::remove_file(p);
                        r.map_err(|e| format!("the backup: {e}"))?;
                    } }
                    for e in &evs { if let Ev::Ins(r, ..) = e { s.model.push(r.clone()) } }
                    if team.iter().flatten().any(|o| *o == AddField) { s.cols += 1 }
                    for r in &mut s.model { r.resize(s.cols, Val::N) }
                    s.look_all()?;
                    s.act(Op::Gc, &keys)?;
                    let (parts, logged, mut odd) = rows_on_disk(&s.path);
                    odd.retain(|n| !n.ends_with(".bak"));
                    if parts + logged != s.model.len() || !odd.is_empty() { return Err(format!("{parts} rows in parts and {logged} in logs are on disk for {} rows {odd:?}", s.model.len())) }
                    for o in [Op::Reopen, Op::Ins(1), Op::Flush, Op::Compact, Op::Gc] { s.act(o, &keys)?; s.look_all().map_err(|e| format!("and after {o:?}: {e}"))?; }
                    Ok(())
                };
                let r = go();
                ok = r.is_ok();
                r.map_err(|e| json!({"what": e, "schedule": steps}))
            });
            s.close();
            run.transitions(o.path.len() as u64);
            run.states(1);
            run.validated(1);
            ok
        });
        if !st.complete && st.schedules >= limit { cut.fetch_add(1, SeqCst); }
    });
    if cut.load(SeqCst) > 0 { run.not_exhaustive(); }
    run.extra("bounds", json!({"schedules": schedules.load(SeqCst), "teams": teams.len(), "teams cut short": cut.load(SeqCst), "preemptions": format!("{b} for two single operations, {} for three threads or two operations each", run.pick(1, 2)), "starting points": starts.len(), "configurations": cs.len()}));
}
