//! A project with a few properties of each kind, its events in a store, and the real query providers on top of them.
use arrow::array::*;
use arrow::datatypes::DataType as A;
use chrono::{DateTime, TimeZone, Utc};
use common::types::*;
use common::{group_col, GROUPS_COUNT, GROUP_USER_ID};
use metadata::events::CreateEventRequest;
use metadata::projects::CreateProjectRequest;
use metadata::properties::{CreatePropertyRequest, DictionaryType, Status, Type};
use metadata::MetadataProvider;
use query::context::Format;
use query::{ColumnarDataTable, Context};
use rocksdb::TransactionDB;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;
use storage::{NamedValue, Value};

pub const ONE: i128 = 10_000_000_000_000_000;
pub fn dec(n: i128) -> i128 { n * ONE }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val { S(String), N(i128), I(i64), B(bool), T(i64) }

/// an event as the ingester stores it; `props` are indices into PROPS with a value
#[derive(Clone, Debug, PartialEq)]
pub struct Row { pub user: i64, pub event: usize, pub t: i64, pub props: Vec<(usize, Val)> }
impl Row {
    /// the company an event belongs to, group 1: not always the same one for a user
    pub fn company(&self) -> i64 { (self.user + self.t.div_euclid(86_400_000) / 3).rem_euclid(3) + 1 }
    pub fn group(&self, g: usize) -> i64 { if g == 0 { self.user } else { self.company() } }
    pub fn get(&self, p: usize) -> Option<&Val> { self.props.iter().find(|(q, _)| *q == p).map(|(_, v)| v) } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Of { Event, Group(usize) }
pub struct Prop { pub name: &'static str, pub of: Of, pub t: DType, pub dict: Option<DictionaryType> }
pub const EVENTS: &[&str] = &["View", "Buy", "Open"];
pub const D: usize = 0; pub const N: usize = 1; pub const I: usize = 2; pub const B: usize = 3; pub const T: usize = 4; pub const S: usize = 5; pub const U: usize = 6; pub const D8: usize = 7; pub const I8: usize = 8; pub const N2: usize = 9; pub const I16: usize = 10; pub const I32: usize = 11; pub const C: usize = 12; pub const CN: usize = 13;
pub fn props() -> Vec<Prop> {
    let p = |name, of, t, dict| Prop { name, of, t, dict };
    vec![
        p("Product", Of::Event, DType::String, Some(DictionaryType::Int64)), p("Price", Of::Event, DType::Decimal, None), p("Count", Of::Event, DType::Int64, None),
        p("Flag", Of::Event, DType::Boolean, None), p("When", Of::Event, DType::Timestamp, None), p("Note", Of::Event, DType::String, None),
        p("Country", Of::Group(0), DType::String, Some(DictionaryType::Int64)), p("Colour", Of::Event, DType::String, Some(DictionaryType::Int8)), p("Small", Of::Event, DType::Int8, None),
        p("Balance", Of::Group(0), DType::Decimal, None), p("Short", Of::Event, DType::Int16, None), p("Middle", Of::Event, DType::Int32, None),
        p("Plan", Of::Group(1), DType::String, Some(DictionaryType::Int64)), p("Seats", Of::Group(1), DType::Decimal, None),
    ]
}
static COUNT: AtomicUsize = AtomicUsize::new(0);

/// a mapping of rows to the parts of the table: None: all in memory
#[derive(Clone, Debug, PartialEq)]
pub enum Layout { Memory, EachFlushed, Flushed, Halves }
impl Layout { pub const ALL: [Layout; 4] = [Layout::Memory, Layout::EachFlushed, Layout::Flushed, Layout::Halves]; }

pub struct Env { pub md: Arc<MetadataProvider>, pub opti: Arc<OptiDBImpl>, pub path: PathBuf, pub pid: u64, pub other: u64, pub cols: Vec<String>, pub events: Vec<u64>, keys: Arc<Keys> }
impl Drop for Env { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.path); } }

pub fn project(md: &Arc<MetadataProvider>, name: &str) -> (u64, Vec<String>, Vec<u64>) {
    let p = md.projects.create(CreateProjectRequest { created_by: 1, organization_id: 1, name: name.into(), description: None, tags: None, token: format!("token {name}"), session_duration_seconds: 1800 }).unwrap();
    // as the creation of a project and the ingestion do
    for t in std::iter::once(TABLE_EVENTS.to_string()).chain((0..GROUPS_COUNT).map(group_col)) { md.dictionaries.create_key(p.id, &t, COLUMN_PROJECT_ID, p.id, name).unwrap(); }
    for u in 1..=32 { md.dictionaries.create_key(p.id, TABLE_EVENTS, &group_col(GROUP_USER_ID), u, &format!("user {u}")).unwrap(); md.dictionaries.create_key(p.id, &group_col(GROUP_USER_ID), "id", u, &format!("user {u}")).unwrap(); }
    for c in 1..=3 { md.dictionaries.create_key(p.id, TABLE_EVENTS, &group_col(1), c, &format!("company {c}")).unwrap(); md.dictionaries.create_key(p.id, &group_col(1), "id", c, &format!("company {c}")).unwrap(); }
    platform::projects::init_project(p.id, md).unwrap();
    let cols = props().iter().map(|q| {
        let req = |typ: Type| CreatePropertyRequest { created_by: 1, tags: None, name: q.name.to_string(), description: None, display_name: None, typ, data_type: q.t.clone(), status: Status::Enabled, hidden: false, is_system: false, nullable: true, is_array: false, is_dictionary: q.dict.is_some(), dictionary_type: q.dict.clone() };
        let made = match q.of { Of::Event => md.event_properties.create(p.id, req(Type::Event)), Of::Group(g) => md.group_properties[g].create(p.id, req(Type::Group(g))) };
        made.unwrap().column_name()
    }).collect();
    let events = EVENTS.iter().map(|e| md.events.create(p.id, CreateEventRequest { created_by: 1, tags: None, name: e.to_string(), display_name: None, description: None, status: metadata::events::Status::Enabled, is_system: false, event_properties: None, user_properties: None, custom_properties: None }).unwrap().id).collect();
    (p.id, cols, events)
}
fn opts(is_replacing: bool) -> TableOptions { TableOptions { index_cols: 2, merge_array_size: 2, merge_chunk_size: 1024 * 1024, ..TableOptions::test(is_replacing) } }

/// what the project has besides its events: made once, every store starts as a copy of its store
type Keys = std::collections::HashMap<(u64, usize, String), i64>;
pub struct Base { pub md: Arc<MetadataProvider>, pub pid: u64, pub other: u64, pub cols: Vec<String>, pub events: Vec<u64>, keys: Arc<Keys>, path: PathBuf, _db: Arc<TransactionDB> }
fn copy(a: &std::path::Path, b: &std::path::Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap() { let e = e.unwrap(); let t = b.join(e.file_name()); if e.file_type().unwrap().is_dir() { copy(&e.path(), &t) } else { std::fs::copy(e.path(), &t).unwrap(); } }
}
impl Base {
    pub fn new() -> Base {
        let path = mc::scratch().join(format!("qb{}", COUNT.fetch_add(1, SeqCst)));
        let opti = Arc::new(OptiDBImpl::open(path.clone(), Options {}).unwrap());
        opti.create_table(TABLE_EVENTS.to_string(), opts(false)).unwrap();
        for i in 0..GROUPS_COUNT { opti.create_table(group_col(i), opts(true)).unwrap(); }
        let db = Arc::new(TransactionDB::private());
        let md = Arc::new(MetadataProvider::try_new(db.clone(), opti.clone()).unwrap());
        let (pid, cols, events) = project(&md, "p");
        let (other, cols2, events2) = project(&md, "q");
        assert!(cols == cols2 && events == events2, "two projects with the same properties and events have different columns: {cols:?} {cols2:?}");
        let mut keys = Keys::new();
        for q in 0..props().len() { if props()[q].dict.is_some() { for v in DICT { for p in [pid, other] { keys.insert((p, q, v.to_string()), key(&md, p, &cols, q, v)); } } } }
        drop(opti);
        Base { md, pid, other, cols, events, keys: Arc::new(keys), path, _db: db }
    }
}
pub const DICT: &[&str] = &["a", "b", "ab", ""];
fn key(md: &MetadataProvider, pid: u64, cols: &[String], p: usize, v: &str) -> i64 {
    let tbl = match props()[p].of { Of::Event => TABLE_EVENTS.to_string(), Of::Group(g) => group_col(g) };
    md.dictionaries.get_key_or_create(pid, &tbl, &cols[p], v).unwrap() as i64
}
impl Env {
    pub fn new(b: &Base) -> Env {
        let path = mc::scratch().join(format!("q{}", COUNT.fetch_add(1, SeqCst)));
        copy(&b.path, &path);
        let opti = Arc::new(OptiDBImpl::open(path.clone(), Options {}).unwrap());
        Env { md: b.md.clone(), opti, path, pid: b.pid, other: b.other, cols: b.cols.clone(), events: b.events.clone(), keys: b.keys.clone() }
    }
    pub fn key(&self, pid: u64, p: usize, v: &str) -> i64 { self.keys[&(pid, p, v.to_string())] }
    pub fn insert(&self, pid: u64, id: i64, r: &Row) {
        let n = |k: &str, v| NamedValue::new(k.to_string(), v);
        let mut vals = vec![n(COLUMN_PROJECT_ID, Value::Int64(Some(pid as i64))), n(&group_col(GROUP_USER_ID), Value::Int64(Some(r.user))), n(&group_col(1), Value::Int64(Some(r.company()))), n(COLUMN_CREATED_AT, Value::Timestamp(Some(r.t))),
            n(COLUMN_EVENT_ID, Value::Int64(Some(id))), n(COLUMN_EVENT, Value::Int64(Some(self.events[r.event] as i64)))];
        let ps = props();
        for (p, v) in &r.props {
            let q = &ps[*p];
            let v = match (v, &q.dict) {
                (Val::S(s), Some(DictionaryType::Int8)) => Value::Int8(Some(self.key(pid, *p, s) as i8)),
                (Val::S(s), Some(DictionaryType::Int64)) => Value::Int64(Some(self.key(pid, *p, s))),
                (Val::S(s), None) => Value::String(Some(s.clone())),
                (Val::N(x), _) => Value::Decimal(Some(*x)), (Val::B(x), _) => Value::Boolean(Some(*x)), (Val::T(x), _) => Value::Timestamp(Some(*x)),
                (Val::I(x), _) => match q.t { DType::Int8 => Value::Int8(Some(*x as i8)), DType::Int16 => Value::Int16(Some(*x as i16)), DType::Int32 => Value::Int32(Some(*x as i32)), _ => Value::Int64(Some(*x)) },
                o => panic!("{o:?}"),
            };
            vals.push(n(&self.cols[*p], v));
        }
        self.opti.insert(TABLE_EVENTS, vals).unwrap();
    }
    pub fn load(&self, rows: &[Row], layout: &Layout) {
        for (i, r) in rows.iter().enumerate() {
            self.insert(self.pid, i as i64 + 1, r);
            if *layout == Layout::EachFlushed || (*layout == Layout::Halves && i + 1 == rows.len() / 2) { self.opti.flush(TABLE_EVENTS).unwrap(); }
        }
        if *layout == Layout::Flushed { self.opti.flush(TABLE_EVENTS).unwrap(); }
    }
    /// rows of another project, with the same users, events and properties
    pub fn noise(&self, rows: &[Row]) { for (i, r) in rows.iter().enumerate() { self.insert(self.other, i as i64 + 1, r); } }
    pub fn compact(&self, now: DateTime<Utc>) -> Context { Context { format: Format::Compact, ..self.ctx(now) } }
    pub fn ctx(&self, now: DateTime<Utc>) -> Context { Context { project_id: self.pid, format: Format::Regular, cur_time: now } }
}

/// a query plans for as many partitions as the thread has processors
pub fn processors(n: usize, first: usize) {
    let avail = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        let have: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        let mut want: libc::cpu_set_t = std::mem::zeroed();
        for i in 0..n.min(avail) { libc::CPU_SET(have[(first + i) % have.len()], &mut want); }
        libc::sched_setaffinity(0, std::mem::size_of_val(&want), &want);
    }
}
pub fn at(ms: i64) -> DateTime<Utc> { Utc.timestamp_millis_opt(ms).unwrap() }
pub fn block<F: std::future::Future>(f: F) -> F::Output { tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f) }

/// a cell of an answer
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cell { Null, V(Val) }
pub fn cell(a: &ArrayRef, i: usize) -> Cell {
    if a.is_null(i) { return Cell::Null; }
    macro_rules! p { ($t:ty) => { a.as_any().downcast_ref::<$t>().unwrap().value(i) } }
    Cell::V(match a.data_type() {
        A::Int8 => Val::I(p!(Int8Array) as i64), A::Int16 => Val::I(p!(Int16Array) as i64), A::Int32 => Val::I(p!(Int32Array) as i64), A::Int64 => Val::I(p!(Int64Array)),
        A::UInt8 => Val::I(p!(UInt8Array) as i64), A::UInt64 => Val::I(p!(UInt64Array) as i64),
        A::Float64 => Val::N((p!(Float64Array) * ONE as f64) as i128),
        A::Boolean => Val::B(p!(BooleanArray)), A::Utf8 => Val::S(p!(StringArray).to_string()), A::Timestamp(_, _) => Val::T(p!(TimestampMillisecondArray)),
        A::Decimal128(_, s) => Val::N(p!(Decimal128Array) * 10i128.pow(16 - *s as u32)), o => panic!("{o:?}"),
    })
}
/// an answer, by rows
#[derive(Clone)]
pub struct Table { pub cols: Vec<String>, pub rows: Vec<Vec<Cell>> }
impl Table {
    pub fn new(t: &ColumnarDataTable) -> Table {
        let n = t.columns.first().map(|c| c.data.len()).unwrap_or(0);
        Table { cols: t.columns.iter().map(|c| c.name.clone()).collect(), rows: (0..n).map(|i| t.columns.iter().map(|c| cell(&c.data, i)).collect()).collect() }
    }
}
