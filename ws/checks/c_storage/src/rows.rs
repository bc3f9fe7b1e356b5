//! S01: whatever is inserted, flushed, compacted, collected, widened and reopened, in whatever order, a scan
//! yields every inserted row once and nothing else, in the order of the index. S02: of a replacing table, the newest row of each key.
use crate::env::*;
use mc::{par, pow, seq_of, Run};
use serde_json::json;
use std::sync::Arc;
use storage::db::OptiDBImpl;
use storage::table::Options as TableOptions;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Ins(usize), Flush, Compact, Gc, AddField, Reopen }
pub struct Config { pub name: &'static str, pub index_cols: usize, pub cols: usize, pub opts: TableOptions }

pub fn configs(replacing: bool) -> Vec<Config> {
    let base = |index_cols: usize| TableOptions { index_cols, levels: 4, l0_max_parts: 1, ..TableOptions::test(replacing) };
    let mut v = vec![
        Config { name: "plain", index_cols: 2, cols: 4, opts: base(2) },
        Config { name: "every level moves on", index_cols: 2, cols: 4, opts: TableOptions { l0_max_parts: 0, l1_max_size_bytes: 1, level_size_multiplier: 1, ..base(2) } },
        Config { name: "parts of one row group", index_cols: 2, cols: 3, opts: TableOptions { l1_max_size_bytes: 1, level_size_multiplier: 1, merge_max_l1_part_size_bytes: 1, merge_part_size_multiplier: 1, merge_row_group_values_limit: 1, merge_array_page_size: 1, ..base(2) } },
        Config { name: "chunks of one row", index_cols: 2, cols: 4, opts: TableOptions { merge_array_size: 1, merge_chunk_size: 1, merge_row_group_values_limit: 2, merge_array_page_size: 2, merge_data_page_size_limit_bytes: Some(1), ..base(2) } },
        Config { name: "the log is full at every second row", index_cols: 2, cols: 3, opts: TableOptions { max_log_length_bytes: 150, merge_array_size: 2, merge_chunk_size: 2, ..base(2) } },
    ];
    v.push(Config { name: "columns of every type", index_cols: 2, cols: COLS.len(), opts: TableOptions { merge_array_size: 2, merge_chunk_size: 2, merge_array_page_size: 2, merge_row_group_values_limit: 3, ..base(2) } });
    if !replacing { v.push(Config { name: "one index column", index_cols: 1, cols: 3, opts: TableOptions { merge_array_size: 2, merge_chunk_size: 2, merge_array_page_size: 2, ..base(1) } }); }
    v
}

pub struct Store { pub db: Option<OptiDBImpl>, pub path: std::path::PathBuf, pub t: Table, pub cols: usize, pub serial: i64, pub model: Vec<Row>, pub replacing: bool }
impl Store {
    pub fn new(c: &Config) -> Result<Store, String> {
        let path = dir();
        let t = Table { name: "t".into(), opts: c.opts.clone() };
        let db = open(&path)?;
        create(&db, &t, c.cols)?;
        Ok(Store { db: Some(db), path, t, cols: c.cols, serial: 0, model: vec![], replacing: c.opts.is_replacing })
    }
    pub fn db(&self) -> &OptiDBImpl { self.db.as_ref().unwrap() }
    /// the next row with this key: every row is told apart by column p, and has values in all columns but every third
    pub fn row(&mut self, key: &[i64]) -> Row {
        self.serial += 1;
        let n = self.serial;
        let k = self.t.opts.index_cols;
        (0..self.cols).map(|c| {
            if c < k { return Val::I(key[c]); }
            if COLS[c].0 == "p" || c == k { return if COLS[c].0 == "p" || COLS[c].1 == common::types::DType::Int64 { Val::I(n) } else { Val::N }; }
            let d: i128 = 10i128.pow(28) - 1;
            let texts = ["", "v", "a text that is longer than what is stored in place", "\u{e9}\u{1f600}"];
            let i = n as usize + c;
            if i % 3 == 0 { return Val::N; }
            let m = i / 3;
            match COLS[c].0 {
                "s" => Val::S(format!("{}{}", texts[m % 4], if m % 4 == 0 { String::new() } else { n.to_string() })),
                "i8" => Val::I([i8::MIN as i64, i8::MAX as i64, 0, n % 100][m % 4]),
                "i16" => Val::I([i16::MIN as i64, i16::MAX as i64, 0, n][m % 4]),
                "i32" => Val::I([i32::MIN as i64, i32::MAX as i64, 0, n][m % 4]),
                "dec" => Val::D([d, -d, 0, n as i128 * 10_000_000_000_000_000][m % 4]),
                "bool" => Val::B(m % 2 == 0),
                "ts" => Val::T([i64::MIN, i64::MAX, 0, n][m % 4]),
                _ => Val::I([i64::MIN, i64::MAX, 0, n][m % 4]),
            }
        }).collect()
    }
    pub fn insert(&mut self, key: &[i64]) -> Result<(), String> {
        let row = self.row(key);
        insert(self.db(), "t", &row, self.t.opts.index_cols, self.serial % 2 == 0)?;
        let k = self.t.opts.index_cols;
        if self.replacing { self.model.retain(|r| r[..k] != row[..k]); }
        self.model.push(row);
        Ok(())
    }
    pub fn act(&mut self, op: Op, keys: &[&[i64]]) -> Result<(), String> {
        match op {
            Op::Ins(k) => self.insert(keys[k])?,
            Op::Flush => self.db().flush("t").map_err(|e| format!("flush: {e:?}"))?,
            Op::Compact => mc::guard(|| self.db().compact_now()).map_err(|p| format!("compaction panics: {p}"))?,
            Op::Gc => mc::guard(|| self.db().gc_now()).map_err(|p| format!("removing unused files panics: {p}"))?,
            Op::AddField => {
                if self.cols == COLS.len() { return Ok(()) }
                let (n, d) = &COLS[self.cols];
                self.db().add_field("t", n, d.clone(), true).map_err(|e| format!("add_field: {e:?}"))?;
                self.cols += 1;
                for r in &mut self.model { r.push(Val::N) }
            }
            Op::Reopen => { self.db = None; self.db = Some(open(&self.path)?); }
        }
        Ok(())
    }
    pub fn look(&self, proj: &[usize], ordered: bool) -> Result<(), String> {
        let got = mc::guard(|| scan(self.db(), "t", proj)).map_err(|p| format!("a scan panics: {p}"))??;
        same(&got, &project(&self.model, proj), self.t.opts.index_cols, ordered).map_err(|e| format!("{e} (columns {proj:?})"))
    }
    pub fn look_all(&self) -> Result<(), String> { self.look(&(0..self.cols).collect::<Vec<_>>(), true) }
    /// S05: the row found by each of these keys, and by the leading columns of them, is one a scan shows, and of a replacing table the newest
    pub fn look_up(&self, keys: &[&[i64]]) -> Result<(), String> {
        for key in keys { for n in 1..=self.t.opts.index_cols {
            let k: Row = key[..n].iter().map(|x| Val::I(*x)).collect();
            let got = mc::guard(|| get(self.db(), "t", &key[..n])).map_err(|p| format!("a look-up of {k:?} panics: {p}"))??;
            let may: Vec<&Row> = self.model.iter().filter(|r| r[..n] == k[..]).collect();
            let ok = match &got { None => may.is_empty(), Some(g) => if self.replacing { may.last() == Some(&g) } else { may.contains(&g) } };
            if !ok { return Err(format!("a look-up of {k:?} finds {got:?} where {may:?} were inserted")) }
        } }
        Ok(())
    }
    /// the projections queries make: the index and some column; and, of rows in any order, without the last index column
    pub fn look_projections(&self) -> Result<(), String> {
        let k = self.t.opts.index_cols;
        self.look(&(0..k).collect::<Vec<_>>(), true)?;
        for c in k..self.cols {
            self.look(&(0..k).chain([c]).collect::<Vec<_>>(), true)?;
            if !self.replacing && k == 2 && c > 2 { self.look(&[0, 2, c], false)?; }
        }
        let s = self.db().schema("t").map_err(|e| format!("{e:?}"))?;
        let want: Vec<&str> = COLS[..self.cols].iter().map(|c| c.0).collect();
        let got: Vec<String> = s.fields.iter().map(|f| f.name.clone()).collect();
        if got != want { return Err(format!("the schema has {got:?} where {want:?} were added")); }
        Ok(())
    }
    pub fn close(mut self) { self.db = None; let _ = std::fs::remove_dir_all(&self.path); }
}

fn key_of(c: &Config, ops: &[Op]) -> String { format!("{}: {ops:?}", c.name) }
fn sequence(run: &Run, c: &Config, ops: &[Op], keys: &[&[i64]]) {
    let mut n = 0;
    run.case(|| key_of(c, ops), || {
        let e = |s: String| json!(s);
        let mut s = Store::new(c).map_err(e)?;
        let mut last = Ok(());
        for (i, op) in ops.iter().enumerate() {
            last = s.act(*op, keys).and_then(|_| s.look_all()).map_err(|m| json!({"after": format!("{:?}", &ops[..=i]), "what": m}));
            n += 1;
            if last.is_err() { break }
        }
        if last.is_ok() {
            last = s.look_projections().and_then(|_| { s.act(Op::Gc, keys)?; s.look_all()?; s.act(Op::Reopen, keys)?; s.look_all() }).map_err(|m| json!({"after": format!("{ops:?}, then removal of unused files and reopening"), "what": m}));
        }
        s.close();
        last
    });
    run.transitions(n + 2);
    run.states(1);
    run.validated(1);
}

/// a batch of work on parts: the keys of each of some parts, where compaction and reopening take place, and what stays in memory
fn parts(run: &Run, c: &Config, sets: &[&[usize]], which: &[usize], mem: &[usize], compact: usize, wide: bool, keys: &[&[i64]]) {
    let mut ops = vec![];
    for (i, w) in which.iter().enumerate() {
        for k in sets[*w] { ops.push(Op::Ins(*k)) }
        ops.push(Op::Flush);
        if wide && i == 0 { ops.push(Op::AddField) }
        if compact >> i & 1 == 1 { ops.push(Op::Compact) }
    }
    for k in mem { ops.push(Op::Ins(*k)) }
    sequence(run, c, &ops, keys);
}

/// every sequence of operations, and every arrangement of parts, in every configuration
fn explore(run: &Arc<Run>, cs: &[Config], keys: &[&[i64]], depth: usize, n: usize) {
    run.assume("arrow2, parquet2 and the other crates that are not at hand here are the stand-ins that the repository's own storage tests pass on (DESIGN.md)");
    run.phase("operations");
    let alphabet = [Op::Ins(0), Op::Ins(1), Op::Ins(2), Op::Flush, Op::Compact, Op::Gc, Op::AddField, Op::Reopen];
    let total = pow(alphabet.len(), depth);
    par(total * cs.len(), |i| {
        let (c, i) = (&cs[i / total], i % total);
        let ops: Vec<Op> = seq_of(i, alphabet.len(), depth).into_iter().map(|k| alphabet[k]).collect();
        sequence(run, c, &ops, keys);
    });
    run.phase("parts");
    let sets: Vec<&[usize]> = vec![&[0], &[0, 1], &[1, 2], &[2, 0, 0], &[0, 1, 2]];
    let total = pow(sets.len(), n);
    let mems: Vec<&[usize]> = vec![&[], &[1], &[2, 0]];
    let per = total * mems.len() * pow(2, n) * 2;
    par(per * cs.len(), |i| {
        let (c, i) = (&cs[i / per], i % per);
        let (w, i) = (i % total, i / total);
        let (m, i) = (i % mems.len(), i / mems.len());
        let (wide, compact) = (i % 2 == 1, i / 2);
        parts(run, c, &sets, &seq_of(w, sets.len(), n), mems[m], compact, wide, keys);
    });
    run.extra("bounds", json!({"operations": format!("every sequence of {depth} of {alphabet:?} in each of {} configurations, with a scan after each", cs.len()),
        "parts": format!("{n} parts of {} sets of keys each, {} sets of rows in memory, compaction after any of the parts, a column added or not", sets.len(), mems.len()), "configurations": cs.iter().map(|c| c.name).collect::<Vec<_>>()}));
}

/// every choice of rounds of two parts of one row each, merged after each round, with a level 1 that has room for one part, two or three,
/// so that parts of level 1 move on alone, with another, or not at all
fn levels(run: &Arc<Run>, replacing: bool, keys: &[&[i64]], rounds: usize) {
    run.phase("levels");
    let limits = [1500, 2000, 3200, 4500];
    let total = pow(9, rounds);
    par(total * limits.len(), |i| {
        let limit = limits[i / total];
        let c = Config { name: ["level 1 of 1500 bytes", "level 1 of 2000 bytes", "level 1 of 3200 bytes", "level 1 of 4500 bytes"][i / total], index_cols: 2, cols: 3,
            opts: TableOptions { index_cols: 2, levels: 4, l0_max_parts: 1, l1_max_size_bytes: limit, merge_array_size: 2, merge_chunk_size: 1024 * 1024, ..TableOptions::test(replacing) } };
        let ops: Vec<Op> = seq_of(i % total, 9, rounds).into_iter().flat_map(|k| [Op::Ins(k / 3), Op::Flush, Op::Ins(k % 3), Op::Flush, Op::Compact]).collect();
        sequence(run, &c, &ops, keys);
    });
    run.extra("levels", json!(format!("every choice of {rounds} rounds of two parts of one of {} keys each, merged after each round, level 1 of at most {limits:?} bytes", keys.len())));
}

pub fn s01(run: &Arc<Run>) {
    let keys: Vec<&[i64]> = vec![&[1, 1], &[1, 2], &[2, 1]];
    explore(run, &configs(false), &keys, run.pick(4, 5), run.pick(3, 4));
    levels(run, false, &keys, run.pick(3, 4));
}

pub fn s02(run: &Arc<Run>) {
    let cs = configs(true);
    // one value of the second index column for each of the first
    let keys: Vec<&[i64]> = vec![&[1, 1], &[2, 1], &[3, 2]];
    explore(run, &cs, &keys, run.pick(4, 5), run.pick(3, 4));
    levels(run, true, &keys, run.pick(3, 4));
    run.phase("two keys of one first column");
    let keys: Vec<&[i64]> = vec![&[1, 1], &[1, 2], &[2, 1]];
    // in one part, or in memory, rows are told apart by both index columns
    for c in cs.iter().filter(|c| c.opts.max_log_length_bytes > 1000) {
        for ops in [vec![Op::Ins(0), Op::Ins(1), Op::Ins(0)], vec![Op::Ins(1), Op::Ins(0), Op::Ins(2), Op::Ins(1), Op::Reopen]] { sequence(run, c, &ops, &keys); }
    }
    let c = &cs[0];
    for ops in [
        vec![Op::Ins(0), Op::Flush, Op::Ins(1)],
        vec![Op::Ins(0), Op::Flush, Op::Ins(1), Op::Flush],
        vec![Op::Ins(0), Op::Flush, Op::Ins(1), Op::Flush, Op::Compact],
    ] { sequence(run, c, &ops, &keys); }
}

/// S05: after every operation, what look-ups find
pub fn s05(run: &Arc<Run>) {
    run.phase("look-ups");
    let alphabet = [Op::Ins(0), Op::Ins(1), Op::Ins(2), Op::Flush, Op::Compact, Op::AddField, Op::Reopen];
    let depth = run.pick(3, 4);
    let total = pow(alphabet.len(), depth);
    let starts: Vec<Vec<Op>> = { use Op::*; vec![vec![], vec![Ins(0), Flush, Ins(2), Flush], vec![Ins(0), Ins(2), Flush, Ins(1), Flush, Compact, Ins(2), Flush, Ins(0), Flush], vec![Ins(2), Ins(1), Ins(0), Flush, Compact, Ins(1), Flush, Compact, Ins(0)]] };
    let mut n = 0;
    for replacing in [false, true] {
        let cs: Vec<Config> = configs(replacing).into_iter().filter(|c| c.name != "the log is full at every second row").collect();
        n += cs.len();
        let keys: Vec<&[i64]> = if replacing { vec![&[1, 1], &[2, 1], &[4, 2]] } else { vec![&[1, 1], &[1, 3], &[4, 1]] };
        let asked: Vec<&[i64]> = vec![&[0, 0], &[1, 1], &[1, 2], &[1, 3], &[2, 1], &[3, 1], &[4, 1], &[4, 2], &[5, 0]];
        let asked: Vec<&[i64]> = asked.into_iter().filter(|a| !replacing || keys.contains(a) || !keys.iter().any(|k| k[0] == a[0])).collect();
        par(total * cs.len() * starts.len(), |i| {
            let (c, i) = (&cs[i % cs.len()], i / cs.len());
            let (start, i) = (&starts[i % starts.len()], i / starts.len());
            let ops: Vec<Op> = seq_of(i, alphabet.len(), depth).into_iter().map(|k| alphabet[k]).collect();
            run.case(|| format!("{}{}: {start:?} then {ops:?}", c.name, if replacing { ", replacing" } else { "" }), || {
                let e = |s: String| json!(s);
                let mut s = Store::new(c).map_err(e)?;
                let mut go = || -> Result<(), String> {
                    for o in start { s.act(*o, &keys)?; }
                    s.look_up(&asked)?;
                    for (i, o) in ops.iter().enumerate() { s.act(*o, &keys).and_then(|_| s.look_up(&asked)).map_err(|e| format!("after {:?}: {e}", &ops[..=i]))?; }
                    s.look_all()
                };
                let r = go();
                s.close();
                r.map_err(e)
            });
            run.transitions(depth as u64 + 1);
            run.states(1);
            run.validated(1);
        });
    }
    run.extra("look-ups", json!(format!("every sequence of {depth} of {alphabet:?} after each of {} starting points, in each of {n} configurations, replacing or not: look-ups by whole keys and by their first column, of keys that are there and others, after each", starts.len())));
    run.phase("versions of a row");
    // the last index column grows, as the version of a row does
    #[derive(Clone, Copy, Debug)]
    enum V { Next(i64), Flush, Compact, Reopen }
    let alphabet = [V::Next(1), V::Next(2), V::Flush, V::Compact, V::Reopen];
    let depth = run.pick(6, 8);
    let c = &configs(true)[0];
    par(pow(alphabet.len(), depth), |i| {
        let ops: Vec<V> = seq_of(i, alphabet.len(), depth).into_iter().map(|k| alphabet[k]).collect();
        if matches!(ops[0], V::Flush | V::Compact | V::Reopen) { return }
        run.case(|| format!("versions: {ops:?}"), || {
            let e = |s: String| json!(s);
            let mut s = Store::new(c).map_err(e)?;
            let mut n = 0;
            let mut go = || -> Result<(), String> {
                for (i, o) in ops.iter().enumerate() {
                    match o {
                        V::Next(k) => { n += 1; s.act(Op::Ins(0), &[&[*k, n]])? }
                        V::Flush => s.act(Op::Flush, &[])?, V::Compact => s.act(Op::Compact, &[])?, V::Reopen => s.act(Op::Reopen, &[])?,
                    }
                    for k in [1, 2, 3] {
                        let want = s.model.iter().filter(|r| r[0] == Val::I(k)).last();
                        let got = mc::guard(|| get(s.db(), "t", &[k])).map_err(|p| format!("a look-up of {k} panics: {p}"))??;
                        if got.as_ref() != want { return Err(format!("after {:?}: the newest version of {k} is {want:?}, and a look-up finds {got:?}", &ops[..=i])) }
                    }
                }
                Ok(())
            };
            let r = go();
            s.close();
            r.map_err(e)
        });
        run.transitions(depth as u64);
        run.states(1);
        run.validated(1);
    });
    run.extra("versions", json!(format!("every history of {depth} new versions of two rows, flushes, compactions and reopenings: the look-up by the first column after each")));
    crate::conc::s05(run);
}

/// the rows in the files of the table: in those of parts, and in logs
pub fn rows_on_disk(dir: &std::path::Path) -> (usize, usize, Vec<String>) {
    let (mut parts, mut logged, mut odd) = (0, 0, vec![]);
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        let name = e.file_name().to_string_lossy().to_string();
        if p.is_dir() { let (a, b, o) = rows_on_disk(&p); parts += a; logged += b; odd.extend(o); }
        else if name.ends_with(".parquet") {
            match std::fs::File::open(&p).map_err(|e| e.to_string()).and_then(|mut f| arrow2::io::parquet::read::read_metadata(&mut f).map_err(|e| e.to_string())) { Ok(m) => parts += m.num_rows, Err(e) => odd.push(format!("{name}: {e}")) }
        } else if name.ends_with(".log") {
            let b = std::fs::read(&p).unwrap_or_default();
            let mut at = 0;
            while at + 12 <= b.len() { at += 12 + u64::from_le_bytes(b[at + 4..at + 12].try_into().unwrap()) as usize; logged += 1; }
        } else if name != "metadata" { odd.push(name) }
    }
    (parts, logged, odd)
}

/// S07: scans that are being read while their parts are merged and removed; and what is left on disk afterwards
pub fn s07(run: &Arc<Run>) {
    #[derive(Clone, Copy, Debug)]
    enum H { Op(Op), Hold, Read, Drop }
    let keys: Vec<&[i64]> = vec![&[1, 1], &[1, 2], &[2, 1]];
    let cs = configs(false);
    let alphabet = [H::Op(Op::Ins(0)), H::Op(Op::Ins(2)), H::Op(Op::Flush), H::Op(Op::Compact), H::Op(Op::Gc), H::Hold, H::Read, H::Drop];
    let depth = run.pick(3, 5);
    let starts: Vec<Vec<Op>> = {
        use Op::*;
        vec![vec![], vec![Ins(0), Flush, Ins(1), Ins(2)], vec![Ins(0), Flush, Ins(1), Flush, Ins(0)], vec![Ins(0), Flush, Ins(1), Ins(2), Flush, Compact, Ins(2), Flush, Ins(1), Flush]]
    };
    run.phase("scans that are held");
    let total = pow(alphabet.len(), depth);
    par(total * cs.len() * starts.len(), |i| {
        let (c, i) = (&cs[i % cs.len()], i / cs.len());
        let (start, i) = (&starts[i % starts.len()], i / starts.len());
        let ops: Vec<H> = seq_of(i, alphabet.len(), depth).into_iter().map(|k| alphabet[k]).collect();
        run.case(|| format!("{}: {start:?} then {ops:?}", c.name), || {
            let e = |s: String| json!(s);
            let mut s = Store::new(c).map_err(e)?;
            for o in start { s.act(*o, &keys).map_err(e)?; }
            let mut held = vec![];
            let mut go = || -> Result<(), String> {
                let read = |h: (storage::db::ScanStream, Vec<Row>)| { let got = mc::guard(move || drain(h.0)).map_err(|p| format!("reading a scan panics: {p}"))??; same(&got, &h.1, c.index_cols, true).map_err(|e| format!("a scan that was being read: {e}")) };
                for o in &ops {
                    match o {
                        H::Op(o) => s.act(*o, &keys)?,
                        H::Hold => held.push((mc::guard(|| s.db().scan("t", (0..s.cols).collect())).map_err(|p| format!("scan panics: {p}"))?.map_err(|e| format!("scan: {e:?}"))?, s.model.clone())),
                        H::Read => if !held.is_empty() { read(held.remove(0))? },
                        H::Drop => { held.pop(); }
                    }
                    s.look_all()?;
                }
                while let Some(h) = held.pop() { read(h)? }
                s.act(Op::Gc, &keys)?;
                s.look_all()?;
                let (parts, logged, odd) = rows_on_disk(&s.path);
                if !odd.is_empty() || parts + logged != s.model.len() { return Err(format!("{parts} rows in parts and {logged} in logs are on disk for {} rows inserted, after unused files have been removed {odd:?}", s.model.len())); }
                Ok(())
            };
            let r = go().map_err(|e| json!(e));
            drop(held);
            s.close();
            r
        });
        run.transitions(depth as u64 + 1);
        run.states(1);
        run.validated(1);
    });
    run.extra("bounds", json!({"operations": format!("every sequence of {depth} of {alphabet:?} after each of {} starting points, in each of {} configurations", starts.len(), cs.len())}));
}

/// S06: a backup holds what there was when it was made
pub fn s06(run: &Arc<Run>) {
    let keys: Vec<&[i64]> = vec![&[1, 1], &[1, 2], &[2, 1]];
    let cs = configs(false);
    let alphabet = [Op::Ins(0), Op::Ins(2), Op::Flush, Op::Compact, Op::Gc, Op::AddField];
    let (d1, d2) = (run.pick(3, 4), 2);
    let starts: Vec<Vec<Op>> = { use Op::*; vec![vec![], vec![Ins(0), Flush, Ins(1), Flush, Compact, Ins(2), Ins(0)], vec![Ins(0), Flush, Ins(1), Flush, Ins(1)]] };
    let after: Vec<Op> = { use Op::*; vec![Ins(1), Flush, Compact, Gc, Ins(0), AddField, Reopen] };
    run.phase("backup, and restoring it");
    let (t1, t2) = (pow(alphabet.len(), d1), pow(alphabet.len(), d2));
    let modes = 2;
    par(t1 * t2 * modes * starts.len(), |i| {
        let (mode, i) = (i % modes, i / modes);
        let (start, i) = (&starts[i % starts.len()], i / starts.len());
        let c = &cs[i % cs.len()];
        let before: Vec<Op> = seq_of(i % t1, alphabet.len(), d1).into_iter().map(|k| alphabet[k]).collect();
        let between: Vec<Op> = seq_of(i / t1, alphabet.len(), d2).into_iter().map(|k| alphabet[k]).collect();
        run.case(|| format!("{}: {start:?} {before:?}, a backup, {between:?}, and restoring it {}", c.name, if mode == 0 { "in place" } else { "elsewhere" }), || {
            let e = |s: String| json!(s);
            let mut s = Store::new(c).map_err(e)?;
            let bak = dir();
            let other = dir();
            let mut go = || -> Result<(), String> {
                // a second table
                let t2 = Table { name: "u".into(), opts: c.opts.clone() };
                create(s.db(), &t2, 3)?;
                let urow = vec![Val::I(5), if c.index_cols == 2 { Val::I(6) } else { Val::N }, Val::I(7)];
                insert(s.db(), "u", &urow, c.index_cols, false)?;
                for o in start.iter().chain(&before) { s.act(*o, &keys)?; }
                let (model, cols) = (s.model.clone(), s.cols);
                mc::guard(|| s.db().full_backup_local(&bak, |_| {})).map_err(|p| format!("backup panics: {p}"))?.map_err(|e| format!("backup: {e:?}"))?;
                s.look_all()?;
                for o in &between { s.act(*o, &keys)?; s.look_all()?; }
                if mode == 1 { s.db = Some(open(&other)?); std::fs::remove_dir_all(&s.path).map_err(|e| e.to_string())?; s.path = other.clone(); }
                mc::guard(|| s.db().full_restore_local(&bak)).map_err(|p| format!("restore panics: {p}"))?.map_err(|e| format!("restore: {e:?}"))?;
                s.model = model;
                s.cols = cols;
                s.look_projections()?;
                s.look_all()?;
                for o in &after { s.act(*o, &keys)?; s.look_all()?; }
                same(&scan(s.db(), "u", &[0, 1, 2])?, &[urow], c.index_cols, true).map_err(|e| format!("the other table: {e}"))
            };
            let r = go().map_err(|e| json!(e));
            s.close();
            let _ = std::fs::remove_file(&bak);
            let _ = std::fs::remove_dir_all(&other);
            r
        });
        run.transitions((d1 + d2 + after.len()) as u64);
        run.states(1);
        run.validated(1);
    });
    run.extra("bounds", json!({"operations": format!("every sequence of {d1} before and {d2} after the backup of {alphabet:?} after each of {} starting points, restored in place and elsewhere; configurations in turn", starts.len())}));
}
