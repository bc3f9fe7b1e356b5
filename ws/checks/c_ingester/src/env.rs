//! The ingester behind its HTTP routes, on a store of its own, and what can be read back from it.
use arrow2::array::{Array, BooleanArray, PrimitiveArray, Utf8Array};
use arrow2::datatypes::DataType as D;
use axum::extract::ConnectInfo;
use axum::Router;
use common::types::*;
use common::{group_col, GROUPS_COUNT};
use futures::StreamExt;
use ingester::executor::Executor;
use ingester::{Identify, Track};
use metadata::projects::CreateProjectRequest;
use metadata::properties::{CreatePropertyRequest, DictionaryType, Property, Status, Type};
use metadata::MetadataProvider;
use rocksdb::TransactionDB;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;
use tower::ServiceExt;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val { S(String), N(i128), I(i64), B(bool), T(i64) }
pub type Props = BTreeMap<String, Val>;

/// a stored event
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Event { pub record: i64, pub event: String, pub user: i64, pub user_name: String, pub time: i64, pub ip: Option<String>, pub groups: Vec<Option<String>>, pub props: Props, pub group_props: Vec<Props> }
/// a stored profile
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Profile { pub group: usize, pub id: i64, pub name: String, pub version: i64, pub time: i64, pub props: Props }

#[derive(Debug, Clone, PartialEq)]
pub enum Out { Accepted, Refused(u16), Panicked(String) }
impl Out { pub fn ok(&self) -> bool { *self == Out::Accepted } }

static N: AtomicUsize = AtomicUsize::new(0);
pub const API: &[(&str, DType, Option<DictionaryType>)] = &[
    ("i8", DType::Int8, None), ("i16", DType::Int16, None), ("i32", DType::Int32, None), ("i64", DType::Int64, None), ("dec", DType::Decimal, None),
    ("bool", DType::Boolean, None), ("ts", DType::Timestamp, None), ("str", DType::String, None), ("d8", DType::String, Some(DictionaryType::Int8)),
    ("d16", DType::String, Some(DictionaryType::Int16)), ("d32", DType::String, Some(DictionaryType::Int32)), ("d64", DType::String, Some(DictionaryType::Int64)),
];

pub struct Env { pub db: Arc<TransactionDB>, pub md: Arc<MetadataProvider>, pub opti: Arc<OptiDBImpl>, pub app: Router, pub path: PathBuf }

fn opts(is_replacing: bool) -> TableOptions { TableOptions { index_cols: 2, ..TableOptions::test(is_replacing) } }

impl Env {
    pub fn new() -> Env {
        let path = mc::scratch().join(format!("i{}", N.fetch_add(1, SeqCst)));
        let opti = Arc::new(OptiDBImpl::open(path.clone(), Options {}).unwrap());
        opti.create_table(TABLE_EVENTS.to_string(), opts(false)).unwrap();
        for i in 0..GROUPS_COUNT { opti.create_table(group_col(i), opts(true)).unwrap(); }
        Env::with(TransactionDB::private(), opti, path)
    }
    fn with(db: TransactionDB, opti: Arc<OptiDBImpl>, path: PathBuf) -> Env {
        let db = Arc::new(db);
        let md = Arc::new(MetadataProvider::try_new(db.clone(), opti.clone()).unwrap());
        let app = app(&opti, &md);
        Env { db, md, opti, app, path }
    }
    /// the process ends and starts again
    pub fn reopen(self) -> Env {
        let Env { db, md, opti, app, path } = self;
        drop((app, md, opti));
        let opti = Arc::new(OptiDBImpl::open(path.clone(), Options {}).unwrap());
        Env::with(db.reopen(), opti, path)
    }
    /// a project as the platform makes one; `api`: with properties of every type besides
    pub fn project(&self, api: bool) -> (u64, String) {
        let n = N.fetch_add(1, SeqCst);
        let token = format!("token{n}");
        let p = self.md.projects.create(CreateProjectRequest { created_by: 1, organization_id: 1, name: format!("p{n}"), description: None, tags: None, token: token.clone(), session_duration_seconds: 1800 }).unwrap();
        platform::projects::init_project(p.id, &self.md).unwrap();
        if api {
            for (name, t, d) in API {
                let req = |typ: Type| CreatePropertyRequest { created_by: 1, tags: None, name: name.to_string(), description: None, display_name: None, typ, data_type: t.clone(), status: Status::Enabled, hidden: false, is_system: false, nullable: true, is_array: false, is_dictionary: d.is_some(), dictionary_type: d.clone() };
                self.md.event_properties.create(p.id, req(Type::Event)).unwrap();
                for g in 0..2 { self.md.group_properties[g].create(p.id, req(Type::Group(g))).unwrap(); }
            }
        }
        (p.id, token)
    }
    pub fn post(&self, token: &str, what: &str, body: &str) -> Out { post(&self.app, token, what, body) }
    /// the sessions of a project are over
    pub fn end_sessions(&self, pid: u64) { self.md.sessions.check_for_deletion(pid, |_| Ok(true)).unwrap() }

    fn rows(&self, table: &str, pid: u64) -> Vec<BTreeMap<String, Val>> {
        let schema = self.opti.schema(table).unwrap();
        let names: Vec<String> = schema.fields.iter().map(|f| f.name.clone()).collect();
        let mut s = self.opti.scan(table, (0..names.len()).collect()).unwrap();
        let mut out = vec![];
        while let Some(c) = futures::executor::block_on(s.next()) {
            let c = c.unwrap();
            let cols = c.arrays();
            if cols.is_empty() { continue; }
            assert_eq!(cols.len(), names.len(), "columns of a scan of {table}");
            for a in cols { assert_eq!(a.len(), cols[0].len(), "lengths of the columns of a scan of {table}"); }
            let pids = cols[0].as_any().downcast_ref::<PrimitiveArray<i64>>().unwrap();
            let idx: Vec<usize> = (0..pids.len()).filter(|i| pids.value(*i) == pid as i64).collect();
            let base = out.len();
            out.resize(base + idx.len(), BTreeMap::new());
            if idx.is_empty() { continue; }
            for (name, a) in names.iter().zip(cols) {
                for (k, i) in idx.iter().enumerate() { if let Some(v) = value(a.as_ref(), *i) { out[base + k].insert(name.clone(), v); } }
            }
        }
        out
    }
    fn decode(&self, pid: u64, p: &Property, dict_table: &str, v: &Val) -> Result<Val, String> {
        if !p.is_dictionary { return Ok(v.clone()); }
        match v {
            Val::I(k) => self.md.dictionaries.get_value(pid, dict_table, &p.column_name(), *k as u64).map(Val::S).map_err(|e| format!("{} = {k} is not in the dictionary: {e:?}", p.name)),
            v => Err(format!("{} = {v:?} is no dictionary key", p.name)),
        }
    }
    /// the events of a project, by record
    pub fn events(&self, pid: u64) -> Result<Vec<Event>, String> {
        let mut cols: BTreeMap<String, (Option<usize>, Property)> = BTreeMap::new();
        for p in self.md.event_properties.list(pid).unwrap().data { cols.insert(p.column_name(), (None, p)); }
        for g in 0..GROUPS_COUNT { for p in self.md.group_properties[g].list(pid).unwrap().data { if !p.is_system { cols.insert(p.column_name(), (Some(g), p)); } } }
        let mut out = vec![];
        for r in self.rows(TABLE_EVENTS, pid) {
            let (mut props, mut group_props, mut groups) = (Props::new(), vec![Props::new(); GROUPS_COUNT], vec![None; GROUPS_COUNT]);
            let (mut record, mut event, mut user, mut user_name, mut time, mut ip) = (-1, String::new(), -1, String::new(), -1, None);
            for (c, v) in &r {
                let int = |v: &Val| match v { Val::I(i) => Ok(*i), Val::T(i) => Ok(*i), o => Err(format!("{c} = {o:?}")) };
                match c.as_str() {
                    COLUMN_PROJECT_ID => {}
                    COLUMN_EVENT_ID => record = int(v)?,
                    COLUMN_CREATED_AT => time = int(v)?,
                    COLUMN_EVENT => event = self.md.events.get_by_id(pid, int(v)? as u64).map_err(|e| format!("event {v:?}: {e:?}"))?.name,
                    COLUMN_IP => ip = Some(match v { Val::S(s) => s.clone(), o => return Err(format!("ip = {o:?}")) }),
                    _ => match cols.get(c) {
                        None => return Err(format!("a value in column {c}, which is of no property: {v:?}")),
                        Some((None, p)) if p.is_system => {
                            let g: usize = c.strip_prefix("group_").and_then(|s| s.parse().ok()).ok_or(format!("a value in column {c}"))?;
                            let n = match self.decode(pid, p, TABLE_EVENTS, v)? { Val::S(s) => s, o => return Err(format!("{c} = {o:?}")) };
                            if g == 0 { user = int(v)?; user_name = n.clone(); }
                            groups[g] = Some(n);
                        }
                        Some((None, p)) => { props.insert(p.name.clone(), self.decode(pid, p, TABLE_EVENTS, v)?); }
                        Some((Some(g), p)) => { group_props[*g].insert(p.name.clone(), self.decode(pid, p, &group_col(*g), v)?); }
                    }
                }
            }
            out.push(Event { record, event, user, user_name, time, ip, groups, props, group_props });
        }
        out.sort();
        Ok(out)
    }
    pub fn has_profiles(&self, g: usize, pid: u64) -> bool { !self.rows(&group_col(g), pid).is_empty() }
    pub fn profiles(&self, pid: u64) -> Result<Vec<Profile>, String> {
        let mut out = vec![];
        for g in 0..GROUPS_COUNT {
            let cols: BTreeMap<String, Property> = self.md.group_properties[g].list(pid).unwrap().data.into_iter().map(|p| (p.column_name(), p)).collect();
            for r in self.rows(&group_col(g), pid) {
                let mut pr = Profile { group: g, id: -1, name: String::new(), version: -1, time: -1, props: Props::new() };
                for (c, v) in &r {
                    let p = cols.get(c).ok_or(format!("a value in column {c} of group {g}, which is of no property: {v:?}"))?;
                    match (c.as_str(), v) {
                        (GROUP_COLUMN_PROJECT_ID, _) => {}
                        (GROUP_COLUMN_ID, Val::I(i)) => { pr.id = *i; pr.name = match self.decode(pid, p, &group_col(g), v)? { Val::S(s) => s, o => return Err(format!("{c} = {o:?}")) }; }
                        (GROUP_COLUMN_VERSION, Val::I(i)) => pr.version = *i,
                        (GROUP_COLUMN_CREATED_AT, Val::T(t)) => pr.time = *t,
                        _ => { pr.props.insert(p.name.clone(), self.decode(pid, p, &group_col(g), v)?); }
                    }
                }
                out.push(pr);
            }
        }
        out.sort();
        Ok(out)
    }
}

fn value(a: &dyn Array, i: usize) -> Option<Val> {
    if !a.is_valid(i) { return None; }
    macro_rules! p { ($t:ty) => { a.as_any().downcast_ref::<PrimitiveArray<$t>>().unwrap().value(i) } }
    Some(match a.data_type() {
        D::Int8 => Val::I(p!(i8) as i64), D::Int16 => Val::I(p!(i16) as i64), D::Int32 => Val::I(p!(i32) as i64), D::Int64 => Val::I(p!(i64)),
        D::Timestamp(_, _) => Val::T(p!(i64)), D::Decimal(_, _) => Val::N(p!(i128)),
        D::Boolean => Val::B(a.as_any().downcast_ref::<BooleanArray>().unwrap().value(i)),
        D::Utf8 => Val::S(a.as_any().downcast_ref::<Utf8Array<i32>>().unwrap().value(i).to_string()),
        o => panic!("column of type {o:?}"),
    })
}

pub fn app(opti: &Arc<OptiDBImpl>, md: &Arc<MetadataProvider>) -> Router { app_with(opti, md, vec![]) }
pub fn app_with(opti: &Arc<OptiDBImpl>, md: &Arc<MetadataProvider>, transformers: Vec<Arc<dyn ingester::Transformer<Track>>>) -> Router {
    let t = Executor::<Track>::new(transformers, vec![Arc::new(ingester::destinations::local::track::Local::new(opti.clone(), md.clone()))], opti.clone(), md.clone());
    let i = Executor::<Identify>::new(vec![], vec![Arc::new(ingester::destinations::local::identify::Local::new(opti.clone(), md.clone()))], opti.clone(), md.clone());
    ingester::sources::http::attach_routes(Router::new(), t, i)
}
pub fn post(app: &Router, token: &str, what: &str, body: &str) -> Out {
    let r = mc::guard(|| {
        let req = axum::http::Request::builder().method("POST").uri(format!("/api/v1/ingest/{token}/{what}"))
            .header("content-type", "application/json")
            .extension(ConnectInfo(SocketAddr::from(([127, 0, 0, 9], 4000)))).body(axum::body::Body::from(body.to_string())).unwrap();
        futures::executor::block_on(app.clone().oneshot(req)).unwrap().status().as_u16()
    });
    match r { Ok(s) if (200..300).contains(&s) => Out::Accepted, Ok(s) => Out::Refused(s), Err(p) => Out::Panicked(p) }
}
