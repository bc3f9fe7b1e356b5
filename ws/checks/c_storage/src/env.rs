//! A store in a directory of its own, its rows, and what they should be.
use arrow2::array::{Array, BooleanArray, PrimitiveArray, Utf8Array};
use arrow2::datatypes::DataType as D;
use common::types::DType;
use futures::StreamExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;
use storage::{KeyValue, NamedValue, Value};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val { N, I(i64), D(i128), B(bool), T(i64), S(String) }
pub type Row = Vec<Val>;

static N: AtomicUsize = AtomicUsize::new(0);
pub fn dir() -> PathBuf { mc::scratch().join(format!("s{}", N.fetch_add(1, SeqCst))) }

#[derive(Clone, Debug)]
pub struct Table { pub name: String, pub opts: TableOptions }
/// the columns tables are given, in this order: first the index columns, then those of the others there are
pub const COLS: &[(&str, DType)] = &[
    ("a", DType::Int64), ("b", DType::Int64), ("p", DType::Int64), ("s", DType::String), ("i8", DType::Int8), ("i16", DType::Int16), ("i32", DType::Int32), ("dec", DType::Decimal), ("bool", DType::Boolean), ("ts", DType::Timestamp),
];

pub fn open(path: &Path) -> Result<OptiDBImpl, String> {
    mc::guard(|| OptiDBImpl::open(path.to_path_buf(), Options {}).map_err(|e| format!("open: {e:?}")))?
}
pub fn create(db: &OptiDBImpl, t: &Table, cols: usize) -> Result<(), String> {
    db.create_table(t.name.clone(), t.opts.clone()).map_err(|e| format!("create_table: {e:?}"))?;
    for (i, (n, d)) in COLS.iter().enumerate().take(cols) { db.add_field(&t.name, n, d.clone(), i >= t.opts.index_cols).map_err(|e| format!("add_field: {e:?}"))?; }
    Ok(())
}
fn to_value(v: &Val, d: &DType) -> Value {
    match (v, d) {
        (Val::I(x), DType::Int8) => Value::Int8(Some(*x as i8)), (Val::I(x), DType::Int16) => Value::Int16(Some(*x as i16)), (Val::I(x), DType::Int32) => Value::Int32(Some(*x as i32)),
        (Val::I(x), _) => Value::Int64(Some(*x)), (Val::D(x), _) => Value::Decimal(Some(*x)), (Val::B(x), _) => Value::Boolean(Some(*x)), (Val::T(x), _) => Value::Timestamp(Some(*x)), (Val::S(x), _) => Value::String(Some(x.clone())),
        (Val::N, _) => unreachable!(),
    }
}
/// a row is inserted with the values it has; `rev`: its columns but the index are named in reverse
pub fn named(row: &Row, index_cols: usize, rev: bool) -> Vec<NamedValue> {
    let mut v: Vec<NamedValue> = vec![];
    let mut rest: Vec<usize> = (index_cols..row.len()).collect();
    if rev { rest.reverse() }
    for i in (0..index_cols).chain(rest) { if row[i] != Val::N { v.push(NamedValue::new(COLS[i].0.into(), to_value(&row[i], &COLS[i].1))) } }
    v
}
pub fn insert(db: &OptiDBImpl, t: &str, row: &Row, index_cols: usize, rev: bool) -> Result<(), String> { db.insert(t, named(row, index_cols, rev)).map_err(|e| format!("insert: {e:?}")) }

pub fn value(a: &dyn Array, i: usize) -> Val {
    if !a.is_valid(i) { return Val::N; }
    macro_rules! p { ($t:ty) => { a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap().value(i) } }
    match a.data_type() {
        D::Int8 => Val::I(p!(i8) as i64), D::Int16 => Val::I(p!(i16) as i64), D::Int32 => Val::I(p!(i32) as i64), D::Int64 => Val::I(p!(i64)),
        D::Timestamp(_, _) => Val::T(p!(i64)), D::Decimal(_, _) => Val::D(p!(i128)),
        D::Boolean => Val::B(a.as_any().downcast_ref::<BooleanArray>().unwrap().value(i)),
        D::Utf8 => Val::S(a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap().value(i).to_string()),
        o => panic!("column of type {o:?}"),
    }
}
pub fn scan(db: &OptiDBImpl, t: &str, proj: &[usize]) -> Result<Vec<Row>, String> {
    let schema = db.schema(t).map_err(|e| format!("schema: {e:?}"))?;
    let mut s = db.scan(t, proj.to_vec()).map_err(|e| format!("scan: {e:?}"))?;
    let mut out: Vec<Row> = vec![];
    let mut sorted = proj.to_vec(); sorted.sort();
    while let Some(c) = futures::executor::block_on(s.next()) {
        let c = c.map_err(|e| format!("scan: {e:?}"))?;
        if c.arrays().len() != proj.len() { return Err(format!("a scan of {} columns yields {}", proj.len(), c.arrays().len())); }
        for (a, f) in c.arrays().iter().zip(&sorted) {
            if a.data_type() != &schema.fields[*f].data_type { return Err(format!("column {} is {:?} in a scan and {:?} in the schema", schema.fields[*f].name, a.data_type(), schema.fields[*f].data_type)); }
        }
        for i in 0..c.len() { out.push(c.arrays().iter().map(|a| value(a.as_ref(), i)).collect()); }
    }
    Ok(out)
}
/// the row a look-up by the leading columns of the index finds
pub fn get(db: &OptiDBImpl, t: &str, key: &[i64]) -> Result<Option<Row>, String> {
    let r = db.get(t, key.iter().map(|k| KeyValue::Int64(*k)).collect()).map_err(|e| format!("get: {e:?}"))?;
    Ok(r.map(|vs| vs.into_iter().map(|v| match v {
        Value::Int8(Some(x)) => Val::I(x as i64), Value::Int16(Some(x)) => Val::I(x as i64), Value::Int32(Some(x)) => Val::I(x as i64), Value::Int64(Some(x)) => Val::I(x),
        Value::Decimal(Some(x)) => Val::D(x), Value::Boolean(Some(x)) => Val::B(x), Value::Timestamp(Some(x)) => Val::T(x), Value::String(Some(x)) => Val::S(x),
        _ => Val::N,
    }).collect()))
}
pub fn drain(mut s: storage::db::ScanStream) -> Result<Vec<Row>, String> {
    let mut out = vec![];
    while let Some(c) = futures::executor::block_on(s.next()) {
        let c = c.map_err(|e| format!("scan: {e:?}"))?;
        for i in 0..c.len() { out.push(c.arrays().iter().map(|a| value(a.as_ref(), i)).collect()); }
    }
    Ok(out)
}
pub fn project(rows: &[Row], proj: &[usize]) -> Vec<Row> { rows.iter().map(|r| proj.iter().map(|i| r.get(*i).cloned().unwrap_or(Val::N)).collect()).collect() }

/// whether the rows of a scan are those of the model, in the order of the index
pub fn same(got: &[Row], want: &[Row], index_cols: usize, ordered: bool) -> Result<(), String> {
    let (mut g, mut w) = (got.to_vec(), want.to_vec());
    g.sort(); w.sort();
    if g != w { return Err(format!("rows {got:?} where {w:?} were inserted")); }
    if ordered { for p in got.windows(2) { if p[0][..index_cols] > p[1][..index_cols] { return Err(format!("rows out of the order of the index: {got:?}")); } } }
    Ok(())
}
