//! One adapter per kind of stored entity; entities and requests as JSON, so that one reference
//! model serves all kinds.
use chrono::Utc;
use common::types::OptionalProperty;
use metadata::error::MetadataError;
use metadata::MetadataProvider;
use serde_json::{json, Map, Value};

pub type F = Map<String, Value>;
pub type R = Result<Value, MetadataError>;

pub fn f(v: Value) -> F { match v { Value::Object(m) => m, _ => unreachable!() } }

/// An entity as JSON: times become "set" after a look at their plausibility.
pub fn norm<T: serde::Serialize>(e: &T) -> Value {
    let mut v = serde_json::to_value(e).unwrap();
    if let Value::Object(m) = &mut v {
        for k in ["created_at", "updated_at", "createdAt", "updatedAt"] {
            if let Some(x) = m.get_mut(k) {
                if let Some(s) = x.as_str() {
                    let ok = chrono::DateTime::parse_from_rfc3339(s).map(|t| (Utc::now() - t.with_timezone(&Utc)).num_seconds().abs() < 900).unwrap_or(false);
                    *x = if ok { json!("now") } else { json!(format!("strange time {s}")) };
                }
            }
        }
        // keys in snake case whatever the serialisation chose
        let old = std::mem::take(m);
        for (k, x) in old {
            let mut s = String::new();
            for c in k.chars() { if c.is_ascii_uppercase() { s.push('_'); s.push(c.to_ascii_lowercase()) } else { s.push(c) } }
            // no tags and an empty list of tags are stored alike
            if s == "order" { continue }
            let x = match (s.as_str(), x) {
                ("tags" | "organizations" | "projects" | "teams" | "event_properties" | "user_properties" | "custom_properties", Value::Array(a)) if a.is_empty() => Value::Null,
                (_, x) => x,
            };
            m.insert(s, x);
        }
    }
    v
}

macro_rules! g { ($f:expr, $k:literal) => { serde_json::from_value($f.get($k).cloned().unwrap_or(Value::Null)).expect($k) }; }
macro_rules! o { ($f:expr, $k:literal) => { match $f.get($k) { Some(v) => OptionalProperty::Some(serde_json::from_value(v.clone()).expect($k)), None => OptionalProperty::None } }; }

pub trait Kind: Sync + Send {
    fn name(&self) -> &'static str;
    fn scopes(&self) -> Vec<u64>;
    /// fields no two entities of a scope may share (null excepted)
    fn unique(&self) -> &'static [&'static str];
    /// fields with their possible values; the first is the default one
    fn fields(&self) -> Vec<(&'static str, Vec<Value>)>;
    /// fields only in create requests, or only in update requests
    fn create_only(&self) -> &'static [&'static str] { &[] }
    fn update_only(&self) -> &'static [&'static str] { &[] }
    /// what an entity has besides the request's fields
    fn extra(&self, _scope: u64, _id: u64, _f: &F) -> F { F::new() }
    fn prepare(&self, _md: &MetadataProvider) {}
    fn create(&self, md: &MetadataProvider, scope: u64, f: &F) -> R;
    fn get_or_create(&self, _md: &MetadataProvider, _scope: u64, _f: &F) -> Option<R> { None }
    fn update(&self, md: &MetadataProvider, scope: u64, id: u64, f: &F) -> R;
    fn delete(&self, md: &MetadataProvider, scope: u64, id: u64) -> R;
    fn get(&self, md: &MetadataProvider, scope: u64, id: u64) -> R;
    fn list(&self, md: &MetadataProvider, scope: u64) -> Result<Vec<Value>, MetadataError>;
    /// the field by which it can be looked up, besides the id
    fn by(&self) -> Option<&'static str> { None }
    fn find(&self, _md: &MetadataProvider, _scope: u64, _v: &str) -> R { unreachable!() }
}
fn n<T: serde::Serialize>(r: Result<T, MetadataError>) -> R { r.map(|e| norm(&e)) }
fn ns<T: serde::Serialize + std::fmt::Debug>(r: Result<metadata::metadata::ListResponse<T>, MetadataError>) -> Result<Vec<Value>, MetadataError> { r.map(|l| l.data.iter().map(norm).collect()) }

fn tags() -> (&'static str, Vec<Value>) { ("tags", vec![Value::Null, json!(["x"]), json!(["", "ä/b"])]) }
fn desc() -> (&'static str, Vec<Value>) { ("description", vec![Value::Null, json!("d"), json!("")]) }
fn name() -> (&'static str, Vec<Value>) { ("name", vec![json!("a"), json!("b/é")]) }
fn ids(k: &'static str) -> (&'static str, Vec<Value>) { (k, vec![Value::Null, json!([3]), json!([1, 18446744073709551615u64])]) }

pub struct Events;
impl Kind for Events {
    fn name(&self) -> &'static str { "events" }
    fn scopes(&self) -> Vec<u64> { vec![1, 11] }
    fn unique(&self) -> &'static [&'static str] { &["name", "display_name"] }
    fn fields(&self) -> Vec<(&'static str, Vec<Value>)> {
        vec![name(), ("display_name", vec![Value::Null, json!("D")]), desc(), tags(), ("status", vec![json!("Enabled"), json!("Disabled")]), ("is_system", vec![json!(false), json!(true)]), ids("event_properties"), ids("user_properties"), ids("custom_properties")]
    }
    fn extra(&self, s: u64, _: u64, _: &F) -> F { f(json!({"project_id": s})) }
    fn create(&self, md: &MetadataProvider, s: u64, f: &F) -> R { n(md.events.create(s, ev(f))) }
    fn get_or_create(&self, md: &MetadataProvider, s: u64, f: &F) -> Option<R> { Some(n(md.events.get_or_create(s, ev(f)))) }
    fn update(&self, md: &MetadataProvider, s: u64, id: u64, f: &F) -> R {
        n(md.events.update(s, id, metadata::events::UpdateEventRequest { updated_by: g!(f, "updated_by"), tags: o!(f, "tags"), name: o!(f, "name"), display_name: o!(f, "display_name"), description: o!(f, "description"), status: o!(f, "status"), is_system: o!(f, "is_system"), event_properties: o!(f, "event_properties"), user_properties: o!(f, "user_properties"), custom_properties: o!(f, "custom_properties") }))
    }
    fn delete(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n(md.events.delete(s, id)) }
    fn get(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n(md.events.get_by_id(s, id)) }
    fn list(&self, md: &MetadataProvider, s: u64) -> Result<Vec<Value>, MetadataError> { ns(md.events.list(s)) }
    fn by(&self) -> Option<&'static str> { Some("name") }
    fn find(&self, md: &MetadataProvider, s: u64, v: &str) -> R { n(md.events.get_by_name(s, v)) }
}
fn ev(f: &F) -> metadata::events::CreateEventRequest {
    metadata::events::CreateEventRequest { created_by: g!(f, "created_by"), tags: g!(f, "tags"), name: g!(f, "name"), display_name: g!(f, "display_name"), description: g!(f, "description"), status: g!(f, "status"), is_system: g!(f, "is_system"), event_properties: g!(f, "event_properties"), user_properties: g!(f, "user_properties"), custom_properties: g!(f, "custom_properties") }
}

pub struct CustomEvents;
impl Kind for CustomEvents {
    fn name(&self) -> &'static str { "custom events" }
    fn scopes(&self) -> Vec<u64> { vec![1, 11] }
    fn unique(&self) -> &'static [&'static str] { &["name"] }
    fn fields(&self) -> Vec<(&'static str, Vec<Value>)> {
        let fl = json!([{"property": {"Event": "p"}, "operation": "Eq", "value": null}]);
        let fl2 = json!([{"property": {"System": "p"}, "operation": "Like", "value": null}]);
        let _ = (&fl, &fl2);
        vec![name(), desc(), tags(), ("status", vec![json!("Enabled"), json!("Disabled")]), ("is_system", vec![json!(false), json!(true)]),
            ("events", vec![
                json!([{"event": {"RegularName": "e1"}, "filters": null}]),
                json!([{"event": {"Regular": 1}, "filters": null}, {"event": {"RegularName": "e1"}, "filters": null}]),
            ])]
    }
    fn extra(&self, s: u64, _: u64, _: &F) -> F { f(json!({"project_id": s})) }
    fn prepare(&self, md: &MetadataProvider) {
        for s in self.scopes() { md.events.create(s, ev(&f(json!({"created_by": 1, "name": "e1", "status": "Enabled", "is_system": false})))).unwrap(); }
    }
    fn create(&self, md: &MetadataProvider, s: u64, f: &F) -> R {
        n(md.custom_events.create(s, metadata::custom_events::CreateCustomEventRequest { created_by: g!(f, "created_by"), tags: g!(f, "tags"), name: g!(f, "name"), description: g!(f, "description"), status: g!(f, "status"), is_system: g!(f, "is_system"), events: g!(f, "events") }))
    }
    fn update(&self, md: &MetadataProvider, s: u64, id: u64, f: &F) -> R {
        n(md.custom_events.update(s, id, metadata::custom_events::UpdateCustomEventRequest { updated_by: g!(f, "updated_by"), tags: o!(f, "tags"), name: o!(f, "name"), description: o!(f, "description"), status: o!(f, "status"), is_system: o!(f, "is_system"), events: o!(f, "events") }))
    }
    fn delete(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n(md.custom_events.delete(s, id)) }
    fn get(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n(md.custom_events.get_by_id(s, id)) }
    fn list(&self, md: &MetadataProvider, s: u64) -> Result<Vec<Value>, MetadataError> { ns(md.custom_events.list(s)) }
    fn by(&self) -> Option<&'static str> { Some("name") }
    fn find(&self, md: &MetadataProvider, s: u64, v: &str) -> R { n(md.custom_events.get_by_name(s, v)) }
}

pub struct Properties(pub Option<usize>);
impl Properties {
    fn p<'a>(&self, md: &'a MetadataProvider) -> &'a metadata::properties::Properties { match self.0 { None => &md.event_properties, Some(g) => &md.group_properties[g] } }
    fn req(&self, f: &F) -> metadata::properties::CreatePropertyRequest {
        metadata::properties::CreatePropertyRequest { created_by: g!(f, "created_by"), tags: g!(f, "tags"), name: g!(f, "name"), description: g!(f, "description"), display_name: g!(f, "display_name"), typ: g!(f, "typ"), data_type: g!(f, "data_type"), status: g!(f, "status"), hidden: g!(f, "hidden"), is_system: g!(f, "is_system"), nullable: g!(f, "nullable"), is_array: g!(f, "is_array"), is_dictionary: g!(f, "is_dictionary"), dictionary_type: g!(f, "dictionary_type") }
    }
}
impl Kind for Properties {
    fn name(&self) -> &'static str { match self.0 { None => "event properties", Some(_) => "group properties" } }
    fn scopes(&self) -> Vec<u64> { vec![1, 11] }
    fn unique(&self) -> &'static [&'static str] { &["name", "display_name"] }
    fn fields(&self) -> Vec<(&'static str, Vec<Value>)> {
        let typ = match self.0 { None => json!("Event"), Some(g) => json!({ "Group": g }) };
        vec![name(), ("display_name", vec![Value::Null, json!("D")]), desc(), tags(), ("typ", vec![typ]),
            ("data_type", ["string", "int8", "int16", "int32", "int64", "decimal", "boolean", "timestamp"].iter().map(|x| json!(x)).collect()),
            ("status", vec![json!("Enabled"), json!("Disabled")]), ("hidden", vec![json!(false), json!(true)]), ("nullable", vec![json!(true), json!(false)]),
            ("is_array", vec![json!(false), json!(true)]), ("is_dictionary", vec![json!(false), json!(true)]), ("dictionary_type", vec![Value::Null, json!("Int8"), json!("Int16"), json!("Int32"), json!("Int64")])]
    }
    // the name is what the column is called after and does not change; neither does its type
    fn create_only(&self) -> &'static [&'static str] { &["name", "hidden", "is_system", "typ", "data_type"] }
    fn extra(&self, s: u64, _: u64, _: &F) -> F { f(json!({"project_id": s})) }
    fn create(&self, md: &MetadataProvider, s: u64, f: &F) -> R { n(self.p(md).create(s, self.req(f))) }
    fn get_or_create(&self, md: &MetadataProvider, s: u64, f: &F) -> Option<R> { Some(n(self.p(md).get_or_create(s, self.req(f)))) }
    fn update(&self, md: &MetadataProvider, s: u64, id: u64, f: &F) -> R {
        n(self.p(md).update(s, id, metadata::properties::UpdatePropertyRequest { updated_by: g!(f, "updated_by"), tags: o!(f, "tags"), name: OptionalProperty::None, description: o!(f, "description"), display_name: o!(f, "display_name"), typ: OptionalProperty::None, data_type: OptionalProperty::None, status: o!(f, "status"), is_system: OptionalProperty::None, nullable: o!(f, "nullable"), is_array: o!(f, "is_array"), is_dictionary: o!(f, "is_dictionary"), dictionary_type: o!(f, "dictionary_type") }))
    }
    fn delete(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n(self.p(md).delete(s, id)) }
    fn get(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n(self.p(md).get_by_id(s, id)) }
    fn list(&self, md: &MetadataProvider, s: u64) -> Result<Vec<Value>, MetadataError> { ns(self.p(md).list(s)) }
    fn by(&self) -> Option<&'static str> { Some("name") }
    fn find(&self, md: &MetadataProvider, s: u64, v: &str) -> R { n(self.p(md).get_by_name(s, v)) }
}

pub struct Accounts;
pub fn acc(f: &F) -> metadata::accounts::CreateAccountRequest {
    metadata::accounts::CreateAccountRequest { created_by: g!(f, "created_by"), password_hash: g!(f, "password_hash"), email: g!(f, "email"), name: g!(f, "name"), force_update_password: g!(f, "force_update_password"), force_update_email: g!(f, "force_update_email"), role: g!(f, "role"), organizations: g!(f, "organizations"), projects: g!(f, "projects"), teams: g!(f, "teams") }
}
impl Kind for Accounts {
    fn name(&self) -> &'static str { "accounts" }
    fn scopes(&self) -> Vec<u64> { vec![0] }
    fn unique(&self) -> &'static [&'static str] { &["email"] }
    fn fields(&self) -> Vec<(&'static str, Vec<Value>)> {
        vec![("email", vec![json!("a@b"), json!("a@b.c")]), ("name", vec![Value::Null, json!("N"), json!("")]), ("password_hash", vec![json!("h"), json!("$g/2")]), ("role", vec![Value::Null, json!("Admin")]),
            ("force_update_password", vec![json!(false), json!(true)]), ("force_update_email", vec![json!(false), json!(true)]),
            ("organizations", vec![Value::Null, json!([[1, "Owner"]]), json!([[2, "Admin"], [3, "Member"]])]),
            ("projects", vec![Value::Null, json!([[1, "Owner"], [5, "Admin"]]), json!([[2, "Member"], [3, "Reader"]])]),
            ("teams", vec![Value::Null, json!([[1, "Admin"]])])]
    }
    fn create(&self, md: &MetadataProvider, _: u64, f: &F) -> R { n(md.accounts.create(acc(f))) }
    fn update(&self, md: &MetadataProvider, _: u64, id: u64, f: &F) -> R {
        n(md.accounts.update(id, metadata::accounts::UpdateAccountRequest { updated_by: g!(f, "updated_by"), password_hash: o!(f, "password_hash"), email: o!(f, "email"), name: o!(f, "name"), force_update_password: o!(f, "force_update_password"), force_update_email: o!(f, "force_update_email"), role: o!(f, "role"), organizations: o!(f, "organizations"), projects: o!(f, "projects"), teams: o!(f, "teams") }))
    }
    fn delete(&self, md: &MetadataProvider, _: u64, id: u64) -> R { n(md.accounts.delete(id)) }
    fn get(&self, md: &MetadataProvider, _: u64, id: u64) -> R { n(md.accounts.get_by_id(id)) }
    fn list(&self, md: &MetadataProvider, _: u64) -> Result<Vec<Value>, MetadataError> { ns(md.accounts.list()) }
    fn by(&self) -> Option<&'static str> { Some("email") }
    fn find(&self, md: &MetadataProvider, _: u64, v: &str) -> R { n(md.accounts.get_by_email(v)) }
}

pub struct Organizations;
impl Kind for Organizations {
    fn name(&self) -> &'static str { "organizations" }
    fn scopes(&self) -> Vec<u64> { vec![0] }
    fn unique(&self) -> &'static [&'static str] { &["name"] }
    fn fields(&self) -> Vec<(&'static str, Vec<Value>)> { vec![name()] }
    fn extra(&self, _: u64, _: u64, r: &F) -> F { f(json!({"members": [[r["created_by"], "Owner"]]})) }
    fn prepare(&self, md: &MetadataProvider) {
        for i in 1..=3 { md.accounts.create(acc(&f(json!({"created_by": 0, "password_hash": "h", "email": format!("m{i}"), "force_update_password": false, "force_update_email": false})))).unwrap(); }
    }
    fn create(&self, md: &MetadataProvider, _: u64, f: &F) -> R { n(md.organizations.create(metadata::organizations::CreateOrganizationRequest { created_by: g!(f, "created_by"), name: g!(f, "name") })) }
    fn update(&self, md: &MetadataProvider, _: u64, id: u64, f: &F) -> R { n(md.organizations.update(id, metadata::organizations::UpdateOrganizationRequest { updated_by: g!(f, "updated_by"), name: o!(f, "name") })) }
    fn delete(&self, md: &MetadataProvider, _: u64, id: u64) -> R { n(md.organizations.delete(id)) }
    fn get(&self, md: &MetadataProvider, _: u64, id: u64) -> R { n(md.organizations.get_by_id(id)) }
    fn list(&self, md: &MetadataProvider, _: u64) -> Result<Vec<Value>, MetadataError> { ns(md.organizations.list()) }
}

pub struct Projects;
impl Kind for Projects {
    fn name(&self) -> &'static str { "projects" }
    fn scopes(&self) -> Vec<u64> { vec![0] }
    fn unique(&self) -> &'static [&'static str] { &["name", "token"] }
    fn fields(&self) -> Vec<(&'static str, Vec<Value>)> {
        vec![name(), ("token", vec![json!("t1"), json!("t2")]), desc(), tags(), ("session_duration_seconds", vec![json!(60), json!(0), json!(18446744073709551615u64)]), ("organization_id", vec![json!(1), json!(2)])]
    }
    fn create_only(&self) -> &'static [&'static str] { &["organization_id"] }
    fn extra(&self, _: u64, _: u64, _: &F) -> F { f(json!({"events_count": 0})) }
    fn create(&self, md: &MetadataProvider, _: u64, f: &F) -> R {
        n(md.projects.create(metadata::projects::CreateProjectRequest { created_by: g!(f, "created_by"), organization_id: g!(f, "organization_id"), name: g!(f, "name"), description: g!(f, "description"), tags: g!(f, "tags"), token: g!(f, "token"), session_duration_seconds: g!(f, "session_duration_seconds") }))
    }
    fn update(&self, md: &MetadataProvider, _: u64, id: u64, f: &F) -> R {
        n(md.projects.update(id, metadata::projects::UpdateProjectRequest { updated_by: g!(f, "updated_by"), name: o!(f, "name"), description: o!(f, "description"), tags: o!(f, "tags"), token: o!(f, "token"), session_duration_seconds: o!(f, "session_duration_seconds") }))
    }
    fn delete(&self, md: &MetadataProvider, _: u64, id: u64) -> R { n(md.projects.delete(id)) }
    fn get(&self, md: &MetadataProvider, _: u64, id: u64) -> R { n(md.projects.get_by_id(id)) }
    fn list(&self, md: &MetadataProvider, _: u64) -> Result<Vec<Value>, MetadataError> { ns(md.projects.list()) }
    fn by(&self) -> Option<&'static str> { Some("token") }
    fn find(&self, md: &MetadataProvider, _: u64, v: &str) -> R { n(md.projects.get_by_token(v)) }
}

pub struct Teams;
impl Kind for Teams {
    fn name(&self) -> &'static str { "teams" }
    fn scopes(&self) -> Vec<u64> { vec![1, 11] }
    fn unique(&self) -> &'static [&'static str] { &["name"] }
    fn fields(&self) -> Vec<(&'static str, Vec<Value>)> { vec![name()] }
    fn extra(&self, s: u64, _: u64, _: &F) -> F { f(json!({"organization_id": s})) }
    fn create(&self, md: &MetadataProvider, s: u64, f: &F) -> R { n(md_teams(md).create(s, metadata::teams::CreateTeamRequest { created_by: g!(f, "created_by"), organization_id: s, name: g!(f, "name") })) }
    fn update(&self, md: &MetadataProvider, s: u64, id: u64, f: &F) -> R { n(md_teams(md).update(s, id, metadata::teams::UpdateTeamRequest { updated_by: g!(f, "updated_by"), name: o!(f, "name") })) }
    fn delete(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n(md_teams(md).delete(s, id)) }
    fn get(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n(md_teams(md).get_by_id(s, id)) }
    fn list(&self, md: &MetadataProvider, s: u64) -> Result<Vec<Value>, MetadataError> { ns(md_teams(md).list(s)) }
}
thread_local! { pub static DB: std::cell::RefCell<Option<std::sync::Arc<rocksdb::TransactionDB>>> = const { std::cell::RefCell::new(None) }; }
/// the provider does not offer the teams, so they are built on the thread's store
fn md_teams(_: &MetadataProvider) -> metadata::teams::Teams { metadata::teams::Teams::new(DB.with(|d| d.borrow().clone().unwrap())) }

pub struct Dashboards;
impl Kind for Dashboards {
    fn name(&self) -> &'static str { "dashboards" }
    fn scopes(&self) -> Vec<u64> { vec![1, 11] }
    fn unique(&self) -> &'static [&'static str] { &[] }
    fn fields(&self) -> Vec<(&'static str, Vec<Value>)> {
        vec![name(), desc(), tags(), ("panels", vec![json!([]), json!([{"type": "report", "report_id": 7, "x": 1, "y": 2, "w": 3, "h": 4}]), json!([{"type": "report", "report_id": 1, "x": 0, "y": 0, "w": 5, "h": 6}, {"type": "report", "report_id": 18446744073709551615u64, "x": 4294967295u64, "y": 9, "w": 8, "h": 7}])])]
    }
    fn extra(&self, s: u64, _: u64, _: &F) -> F { f(json!({"project_id": s})) }
    fn create(&self, md: &MetadataProvider, s: u64, f: &F) -> R {
        n2(md.dashboards.create(s, metadata::dashboards::CreateDashboardRequest { created_by: g!(f, "created_by"), tags: g!(f, "tags"), name: g!(f, "name"), description: g!(f, "description"), panels: panels(&f["panels"]) }))
    }
    fn update(&self, md: &MetadataProvider, s: u64, id: u64, f: &F) -> R {
        n2(md.dashboards.update(s, id, metadata::dashboards::UpdateDashboardRequest { updated_by: g!(f, "updated_by"), tags: o!(f, "tags"), name: o!(f, "name"), description: o!(f, "description"), panels: match f.get("panels") { Some(p) => OptionalProperty::Some(panels(p)), None => OptionalProperty::None } }))
    }
    fn delete(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n2(md.dashboards.delete(s, id)) }
    fn get(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n2(md.dashboards.get_by_id(s, id)) }
    fn list(&self, md: &MetadataProvider, s: u64) -> Result<Vec<Value>, MetadataError> { md.dashboards.list(s).map(|l| l.data.iter().map(dash).collect()) }
}
fn panels(v: &Value) -> Vec<metadata::dashboards::Panel> {
    v.as_array().unwrap().iter().map(|p| { let u = |k: &str| p[k].as_u64().unwrap(); metadata::dashboards::Panel { typ: metadata::dashboards::Type::Report, report_id: u("report_id"), x: u("x") as usize, y: u("y") as usize, w: u("w") as usize, h: u("h") as usize } }).collect()
}
fn dash(d: &metadata::dashboards::Dashboard) -> Value {
    let mut v = norm(d);
    v["panels"] = d.panels.iter().map(|p| json!({"type": "report", "report_id": p.report_id, "x": p.x, "y": p.y, "w": p.w, "h": p.h})).collect();
    v
}
fn n2(r: Result<metadata::dashboards::Dashboard, MetadataError>) -> R { r.map(|d| dash(&d)) }

pub struct Reports;
impl Kind for Reports {
    fn name(&self) -> &'static str { "reports" }
    fn scopes(&self) -> Vec<u64> { vec![1, 11] }
    fn unique(&self) -> &'static [&'static str] { &[] }
    fn fields(&self) -> Vec<(&'static str, Vec<Value>)> {
        // query: an index into `queries`
        vec![name(), desc(), tags(), ("typ", vec![json!("eventSegmentation"), json!("funnel")]), ("query", (0..queries().len()).map(|i| json!(i)).collect())]
    }
    fn extra(&self, s: u64, _: u64, _: &F) -> F { f(json!({"project_id": s})) }
    fn create(&self, md: &MetadataProvider, s: u64, f: &F) -> R {
        n3(md.reports.create(s, metadata::reports::CreateReportRequest { created_by: g!(f, "created_by"), tags: g!(f, "tags"), name: g!(f, "name"), description: g!(f, "description"), typ: typ(&f["typ"]), query: query(&f["query"]) }))
    }
    fn update(&self, md: &MetadataProvider, s: u64, id: u64, f: &F) -> R {
        n3(md.reports.update(s, id, metadata::reports::UpdateReportRequest { updated_by: g!(f, "updated_by"), tags: o!(f, "tags"), name: o!(f, "name"), description: o!(f, "description"), typ: f.get("typ").map(|t| OptionalProperty::Some(typ(t))).unwrap_or(OptionalProperty::None), query: f.get("query").map(|t| OptionalProperty::Some(query(t))).unwrap_or(OptionalProperty::None) }))
    }
    fn delete(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n3(md.reports.delete(s, id)) }
    fn get(&self, md: &MetadataProvider, s: u64, id: u64) -> R { n3(md.reports.get_by_id(s, id)) }
    fn list(&self, md: &MetadataProvider, s: u64) -> Result<Vec<Value>, MetadataError> { md.reports.list(s).map(|l| l.data.iter().map(rep).collect()) }
}
fn typ(v: &Value) -> metadata::reports::Type { if v == "funnel" { metadata::reports::Type::Funnel } else { metadata::reports::Type::EventSegmentation } }
fn queries() -> &'static [metadata::reports::Query] {
    static Q: std::sync::OnceLock<Vec<metadata::reports::Query>> = std::sync::OnceLock::new();
    Q.get_or_init(crate::sample_queries)
}
fn query(v: &Value) -> metadata::reports::Query { queries()[v.as_u64().unwrap() as usize].clone() }
fn rep(r: &metadata::reports::Report) -> Value {
    let mut v = norm(&metadata::reports::Report { query: queries()[0].clone(), ..r.clone() });
    let m = v.as_object_mut().unwrap();
    m.remove("type");
    m.insert("typ".into(), json!(if r.typ == metadata::reports::Type::Funnel { "funnel" } else { "eventSegmentation" }));
    m.insert("query".into(), match queries().iter().position(|q| *q == r.query) { Some(i) => json!(i), None => json!(format!("{:?}", r.query)) });
    v
}
fn n3(r: Result<metadata::reports::Report, MetadataError>) -> R { r.map(|d| rep(&d)) }

pub fn all() -> Vec<Box<dyn Kind>> {
    vec![Box::new(Events), Box::new(CustomEvents), Box::new(Properties(None)), Box::new(Properties(Some(2))), Box::new(Accounts), Box::new(Organizations), Box::new(Projects), Box::new(Teams), Box::new(Dashboards), Box::new(Reports)]
}
