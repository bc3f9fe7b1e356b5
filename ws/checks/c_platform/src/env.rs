//! A server: the real routes and providers over a store and metadata of its own.
use axum::body::Body;
use axum::http::{Method, Request};
use axum::Router;
use chrono::Duration;
use common::config::Config;
use common::group_col;
use common::rbac::*;
use common::types::*;
use common::GROUPS_COUNT;
use metadata::accounts::CreateAccountRequest;
use metadata::MetadataProvider;
use rocksdb::TransactionDB;
use serde_json::Value;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use storage::db::{OptiDBImpl, Options};
use storage::table::Options as TableOptions;
use tower::ServiceExt;

static COUNT: AtomicUsize = AtomicUsize::new(0);
pub struct Env { pub md: Arc<MetadataProvider>, pub db: Arc<TransactionDB>, pub opti: Arc<OptiDBImpl>, pub app: Router, path: PathBuf, rt: tokio::runtime::Runtime }
impl Drop for Env { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.path); } }
pub const ACCESS: &str = "access key"; pub const REFRESH: &str = "refresh key";

#[derive(Clone, Debug, PartialEq)]
pub struct Answer { pub status: u16, pub body: Value, pub cookie: Option<String> }
impl Answer { pub fn ok(&self) -> bool { (200..300).contains(&self.status) } }

impl Env {
    pub fn new() -> Env {
        let path = mc::scratch().join(format!("p{}", COUNT.fetch_add(1, SeqCst)));
        let opti = Arc::new(OptiDBImpl::open(path.clone(), Options {}).unwrap());
        let o = |r| TableOptions { index_cols: 2, merge_array_size: 2, merge_chunk_size: 1024 * 1024, ..TableOptions::test(r) };
        opti.create_table(TABLE_EVENTS.to_string(), o(false)).unwrap();
        for i in 0..GROUPS_COUNT { opti.create_table(group_col(i), o(true)).unwrap(); }
        let db = Arc::new(TransactionDB::private());
        let md = Arc::new(MetadataProvider::try_new(db.clone(), opti.clone()).unwrap());
        let mut s = metadata::settings::Settings::default();
        s.auth_access_token = ACCESS.into(); s.auth_refresh_token = REFRESH.into();
        md.settings.save(&s).unwrap();
        let mut cfg = Config::default();
        cfg.auth.access_token_duration = Duration::days(1); cfg.auth.refresh_token_duration = Duration::days(2);
        cfg.misc.project_default_session_duration = Duration::seconds(77);
        let pp = Arc::new(platform::PlatformProvider::new(
            md.clone(),
            Arc::new(query::event_segmentation::EventSegmentationProvider::new(md.clone(), opti.clone())),
            Arc::new(query::funnel::FunnelProvider::new(md.clone(), opti.clone())),
            Arc::new(query::properties::PropertiesProvider::new(md.clone(), opti.clone())),
            Arc::new(query::event_records::EventRecordsProvider::new(md.clone(), opti.clone())),
            Arc::new(query::group_records::GroupRecordsProvider::new(md.clone(), opti.clone())),
            cfg.clone(),
        ));
        let app = platform::http::attach_routes(Router::new(), &md, &pp, cfg);
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        Env { md, db, opti, app, path, rt }
    }
    pub fn account(&self, email: &str, role: Option<Role>, orgs: Vec<(u64, OrganizationRole)>, projects: Vec<(u64, ProjectRole)>) -> u64 {
        self.md.accounts.create(CreateAccountRequest { created_by: 1, password_hash: platform::auth::password::make_password_hash("password").unwrap(), email: email.into(), name: None, force_update_password: false, force_update_email: false,
            role, organizations: Some(orgs), projects: Some(projects), teams: None }).unwrap().id
    }
    pub fn token(&self, account: u64, org: u64) -> String { platform::auth::token::make_access_token(account, org, Duration::hours(1), ACCESS).unwrap() }
    pub fn call(&self, method: &str, path: &str, token: Option<&str>, body: Option<&Value>) -> Result<Answer, String> {
        let auth = token.map(|t| format!("Bearer {t}"));
        self.call_with(method, path, auth.as_deref(), None, body)
    }
    /// a panic in a handler is an Err
    pub fn call_with(&self, method: &str, path: &str, auth: Option<&str>, cookie: Option<&str>, body: Option<&Value>) -> Result<Answer, String> {
        let mut req = Request::builder().method(Method::from_bytes(method.as_bytes()).unwrap()).uri(path);
        if let Some(a) = auth { req = req.header("authorization", a); }
        if let Some(c) = cookie { req = req.header("cookie", c); }
        if body.is_some() { req = req.header("content-type", "application/json"); }
        let req = req.body(body.map_or_else(Body::empty, |b| Body::from(b.to_string()))).map_err(|e| e.to_string())?;
        mc::guard(|| self.rt.block_on(async {
            use http_body_util::BodyExt;
            let r = self.app.clone().oneshot(req).await.unwrap();
            let status = r.status().as_u16();
            let cookie = r.headers().get("set-cookie").map(|v| v.to_str().unwrap().to_string());
            let bytes = r.into_body().collect().await.unwrap().to_bytes();
            Answer { status, body: serde_json::from_slice(&bytes).unwrap_or_else(|_| Value::String(String::from_utf8_lossy(&bytes).into_owned())), cookie }
        }))
    }
}
