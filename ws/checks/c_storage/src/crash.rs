//! S03: the process is killed at each of the calls by which an operation changes files, or within one of its writes.
//! S08: one of these calls fails.
use crate::disk::{self, Kind, Stop};
use crate::env::*;
use crate::rows::{configs, Config, Op, Store};
use mc::{par, pow, seq_of, Run};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Last { Op(Op), CreateTable, Make }

/// where a write can be cut: in each part of a record's header, and before its end
fn cuts(len: usize, thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if thorough && len <= 200 { (1..len).collect() } else { vec![1, 4, 7, 12, 13, len / 2, len.saturating_sub(1)] };
    v.retain(|k| *k > 0 && *k < len);
    v.sort();
    v.dedup();
    v
}
fn begin(c: &Config, replacing: bool, start: &[Op], keys: &[&[i64]]) -> Result<Store, String> {
    let mut s = Store::new(c)?;
    s.replacing = replacing;
    for o in start { s.act(*o, keys)?; }
    Ok(s)
}
/// the last operation: what it says, a panic is said too
fn run_last(s: &mut Store, last: Last, keys: &[&[i64]]) -> Result<(), String> {
    match last {
        Last::Op(o) => mc::guard(|| s.act(o, keys)).map_err(|p| format!("panics: {p}"))?,
        Last::CreateTable => { let t = Table { name: "u".into(), opts: s.t.opts.clone() }; mc::guard(|| create(s.db(), &t, s.t.opts.index_cols + 1)).map_err(|p| format!("panics: {p}"))? }
        Last::Make => unreachable!(),
    }
}
/// what may be seen afterwards: before the operation, or after it
struct Before { model: Vec<Row>, cols: usize }

/// rows and columns are as before the operation or as after it; which, is then the model
fn settle(s: &mut Store, b: &Before, last: Last) -> Result<(), String> {
    let cols = s.db().schema("t").map_err(|e| format!("schema: {e:?}"))?.fields.len();
    let may: Vec<usize> = if last == Last::Op(Op::AddField) { vec![b.cols, (b.cols + 1).min(COLS.len())] } else { vec![b.cols] };
    if !may.contains(&cols) { return Err(format!("there are {cols} columns where there were {}", b.cols)); }
    let wide = |rows: &[Row]| -> Vec<Row> { rows.iter().map(|r| { let mut r = r.clone(); r.resize(cols, Val::N); r }).collect() };
    let (before, after) = (wide(&b.model), wide(&s.model));
    s.cols = cols;
    s.model = before.clone();
    match s.look_all() {
        Ok(()) => Ok(()),
        Err(e) => match last {
            Last::Op(Op::Ins(_)) => { s.model = after; s.look_all().map_err(|f| format!("neither without the row being inserted ({e}) nor with it ({f})")) }
            _ => Err(e),
        },
    }
}
const SUFFIX: &[Op] = &[Op::Ins(0), Op::AddField, Op::Ins(2), Op::Flush, Op::Compact, Op::Ins(1), Op::Gc, Op::Reopen, Op::Flush, Op::Compact, Op::Gc];
fn go_on(s: &mut Store, keys: &[&[i64]], look: bool) -> Result<(), String> {
    for (i, o) in SUFFIX.iter().enumerate() { s.act(*o, keys).and_then(|_| if look || i + 1 == SUFFIX.len() || *o == Op::Compact { s.look_all() } else { Ok(()) }).map_err(|e| format!("and then, after {:?}: {e}", &SUFFIX[..=i]))?; }
    Ok(())
}

pub fn s03(run: &Arc<Run>) { explore(run, true) }
pub fn s08(run: &Arc<Run>) { explore(run, false) }
fn explore(run: &Arc<Run>, kill: bool) {
    run.assume(if kill { "the process is killed while the system goes on: what calls have written stays (the store does not ask for more)" } else { "one call fails, or is cut short and the next fails; reads do not fail" });
    disk::checked().expect("interposition of file calls");
    let keys: Vec<&[i64]> = vec![&[1, 1], &[1, 2], &[2, 1]];
    let cs: Vec<(Config, bool)> = configs(false).into_iter().map(|c| (c, false)).filter(|c| run.thorough() || (c.0.name != "columns of every type" && c.0.name != "chunks of one row")).collect();
    let starts: Vec<Vec<Op>> = {
        use Op::*;
        vec![vec![], vec![Ins(0), Flush, Ins(1), Ins(2)], vec![Ins(0), Flush, Ins(1), Flush, Ins(0)], vec![Ins(0), Flush, Ins(1), Ins(2), Flush, Compact, Ins(2), Flush, Ins(1), Flush]]
    };
    let alphabet = [Op::Ins(0), Op::Ins(1), Op::Flush, Op::Compact, Op::Gc, Op::AddField, Op::Reopen];
    let lasts = [Last::Op(Op::Ins(2)), Last::Op(Op::Flush), Last::Op(Op::Compact), Last::Op(Op::Gc), Last::Op(Op::AddField), Last::CreateTable];
    let depth = run.pick(2, 3);
    let points = AtomicU64::new(0);
    run.phase("one operation interrupted");
    for d in 0..=depth {
        let total = pow(alphabet.len(), d);
        par(total * starts.len() * cs.len() * lasts.len(), |i| {
            let ((c, rep), i) = (&cs[i % cs.len()], i / cs.len());
            let (start, i) = (&starts[i % starts.len()], i / starts.len());
            let (last, i) = (lasts[i % lasts.len()], i / lasts.len());
            let mut pre = start.clone();
            pre.extend(seq_of(i, alphabet.len(), d).into_iter().map(|k| alphabet[k]));
            // what the operation does when nothing happens
            let calls = {
                let mut s = match begin(c, *rep, &pre, &keys) { Ok(s) => s, Err(e) => { run.violation(&format!("{}: {pre:?}", c.name), json!(e)); return } };
                let (r, calls, _) = disk::watched(None, || run_last(&mut s, last, &keys));
                if let Err(e) = r { run.violation(&format!("{}: {pre:?} {last:?}", c.name), json!(e)); }
                s.close();
                calls
            };
            for (k, (kind, len)) in calls.iter().enumerate() {
                let mut at = vec![0];
                if *kind == Kind::Write { at.extend(cuts(*len, run.thorough() && d <= 1)) }
                for cut in at {
                    let stop = if kill { Stop::Kill(cut) } else { Stop::Fail(cut) };
                    let key = format!("{}: {pre:?} and {last:?} {} at call {k} {kind:?} after {cut} bytes", c.name, if kill { "killed" } else { "failing" });
                    points.fetch_add(1, SeqCst);
                    run.case(|| key.clone(), || {
                        let e = |s: String| json!(s);
                        let mut s = begin(c, *rep, &pre, &keys).map_err(e)?;
                        let b = Before { model: s.model.clone(), cols: s.cols };
                        let intended = { let mut t = s.model.clone(); if let Last::Op(Op::Ins(w)) = last { let n = s.serial; let row = s.row(keys[w]); s.serial = n; t.push(row) } t };
                        let (r, _, met) = disk::watched(Some((k, stop)), || run_last(&mut s, last, &keys));
                        let mut go = || -> Result<(), String> {
                            if !met { return Err("the operation does not make the same calls again".into()) }
                            s.model = intended.clone();
                            if kill {
                                // nothing the process does from here on has an effect, so it is gone
                                let (_, _, _) = disk::watched(Some((0, Stop::Kill(0))), || s.db = None);
                                // the recovery may be killed as well
                                for k in 0..3 { let _ = disk::watched(Some((k, Stop::Kill(0))), || open(&s.path).map(drop)); }


                                s.db = Some(open(&s.path).map_err(|e| format!("a second time: {e}"))?);
                            } else if r.is_ok() {
                                // an operation that says it has succeeded has
                                if !matches!(last, Last::Op(Op::Gc)) { s.cols = b.cols + (last == Last::Op(Op::AddField) && b.cols < COLS.len()) as usize; for r in &mut s.model { r.resize(s.cols, Val::N) } s.look_all().map_err(|e| format!("though the operation succeeds: {e}"))?; }
                            }
                            if last == Last::CreateTable {
                                match s.db().schema("u") {
                                    Ok(sc) => { let n = sc.fields.len(); for (i, (name, d)) in COLS.iter().enumerate().take(s.t.opts.index_cols + 1).skip(n) { s.db().add_field("u", name, d.clone(), i >= s.t.opts.index_cols).map_err(|e| format!("the new table cannot be completed: {e:?}"))?; } }
                                    Err(_) => create(s.db(), &Table { name: "u".into(), opts: s.t.opts.clone() }, s.t.opts.index_cols + 1).map_err(|e| format!("the table cannot be created again: {e}"))?,
                                }
                                s.db = None; s.db = Some(open(&s.path)?);
                                let row = vec![Val::I(1); s.t.opts.index_cols + 1];
                                insert(s.db(), "u", &row, s.t.opts.index_cols, false)?;
                                s.db = None; s.db = Some(open(&s.path)?);
                                same(&scan(s.db(), "u", &(0..row.len()).collect::<Vec<_>>())?, &[row], s.t.opts.index_cols, true).map_err(|e| format!("the new table: {e}"))?;
                            }
                            settle(&mut s, &b, last)?;
                            s.serial += 10;
                            go_on(&mut s, &keys, run.thorough() && d <= 1)
                        };
                        let res = go();
                        s.close();
                        run.transitions(SUFFIX.len() as u64 + 2);
                        run.states(1);
                        run.validated(1);
                        res.map_err(e)
                    });
                }
            }
        });
    }
    if kill { making(run, &cs) }
    run.extra("bounds", json!({"points": points.load(SeqCst), "operations": format!("every sequence of up to {depth} of {alphabet:?} after each of {} starting points in each of {} configurations, then each of {lasts:?} interrupted at each call and at several bytes of each write", starts.len(), cs.len()),
        "afterwards": format!("{SUFFIX:?} with scans")}));
}

/// a store being made for the first time, killed at every call: it can be made again over what is there
fn making(run: &Arc<Run>, cs: &[(Config, bool)]) {
    run.phase("a store being made");
    let (c, _) = &cs[0];
    let make = |path: &std::path::Path| -> Result<(), String> {
        let db = open(path)?;
        let t = Table { name: "t".into(), opts: c.opts.clone() };
        if db.schema("t").is_err() { db.create_table("t".into(), t.opts.clone()).map_err(|e| format!("create_table: {e:?}"))?; }
        let n = db.schema("t").map_err(|e| format!("{e:?}"))?.fields.len();
        for (i, (n, d)) in COLS.iter().enumerate().take(c.cols).skip(n) { db.add_field("t", n, d.clone(), i >= c.opts.index_cols).map_err(|e| format!("add_field: {e:?}"))?; }
        Ok(())
    };
    let p = dir();
    let (r, calls, _) = disk::watched(None, || make(&p));
    let _ = std::fs::remove_dir_all(&p);
    if let Err(e) = r { run.violation("a store being made", json!(e)); return; }
    for (k, (kind, len)) in calls.iter().enumerate() {
        let mut at = vec![0];
        if *kind == Kind::Write { at.extend(cuts(*len, true)) }
        for cut in at {
            run.case(|| format!("a store being made, killed at call {k} {kind:?} after {cut} bytes"), || {
                let p = dir();
                let _ = disk::watched(Some((k, Stop::Kill(cut))), || make(&p));
                let r = (|| {
                    make(&p)?;
                    let mut s = Store { db: Some(open(&p)?), path: p.clone(), t: Table { name: "t".into(), opts: c.opts.clone() }, cols: c.cols, serial: 0, model: vec![], replacing: false };
                    go_on(&mut s, &[&[1, 1], &[1, 2], &[2, 1]], true)
                })();
                let _ = std::fs::remove_dir_all(&p);
                r.map_err(|e: String| json!(e))
            });
            run.transitions(SUFFIX.len() as u64 + 2);
            run.states(1);
            run.validated(1);
        }
    }
}
