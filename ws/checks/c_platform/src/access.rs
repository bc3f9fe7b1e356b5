//! Who may do what: every endpoint for every combination of roles.
use crate::env::*;
use common::rbac::*;
use mc::Run;
use metadata::organizations::CreateOrganizationRequest;
use metadata::projects::CreateProjectRequest;
use serde_json::{json, Value};
use std::sync::Arc;
use ProjectPermission as P;

#[derive(Clone, Debug, PartialEq)]
pub enum Need { Global, Org(Option<u64>, OrganizationPermission), Project(P), Own }
#[derive(Clone)]
pub struct Call { pub method: &'static str, pub path: String, pub body: Option<Value>, pub need: Need, pub project: Option<u64>, pub good: bool }

pub fn calls(projects: &[u64], orgs: &[u64]) -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    let mut put = |method: &'static str, path: String, body: Option<Value>, need: Need, project: Option<u64>, good: bool| v.push(Call { method, path, body, need, project, good });
    let g = Need::Global;
    put("GET", "/api/v1/accounts".into(), None, g.clone(), None, true);
    put("GET", "/api/v1/accounts/1".into(), None, g.clone(), None, true);
    put("POST", "/api/v1/accounts".into(), Some(json!({"email": "new@x.y", "password": "a long password", "forceUpdatePassword": false, "forceUpdateEmail": false})), g.clone(), None, true);
    put("PUT", "/api/v1/accounts/2".into(), Some(json!({"name": "n"})), g.clone(), None, true);
    put("DELETE", "/api/v1/accounts/2".into(), None, g.clone(), None, true);
    put("GET", "/api/v1/admin/settings".into(), None, g.clone(), None, true);
    put("PUT", "/api/v1/admin/settings".into(), Some(json!({"backupEnabled": false})), g.clone(), None, true);
    put("GET", "/api/v1/admin/backups".into(), None, g.clone(), None, true);
    put("GET", "/api/v1/admin/backups/1".into(), None, g.clone(), None, false);
    put("POST", "/api/v1/organizations".into(), Some(json!({"name": "new"})), g.clone(), None, true);
    put("GET", "/api/v1/organizations".into(), None, g.clone(), None, true);
    for o in orgs {
        put("GET", format!("/api/v1/organizations/{o}"), None, Need::Org(Some(*o), OrganizationPermission::ViewOrganization), None, true);
        put("PUT", format!("/api/v1/organizations/{o}"), Some(json!({"name": "changed"})), Need::Org(Some(*o), OrganizationPermission::ManageOrganization), None, true);
        put("DELETE", format!("/api/v1/organizations/{o}"), None, g.clone(), None, true);
        put("POST", format!("/api/v1/auth/switch-organization/{o}"), None, Need::Org(Some(*o), OrganizationPermission::ViewOrganization), None, true);
    }
    put("POST", "/api/v1/projects".into(), Some(json!({"name": "new project"})), Need::Org(None, OrganizationPermission::ManageProjects), None, true);
    put("GET", "/api/v1/projects".into(), None, Need::Org(None, OrganizationPermission::ExploreProjects), None, true);
    put("GET", "/api/v1/profile".into(), None, Need::Own, None, true);
    put("PUT", "/api/v1/profile/name".into(), Some(json!({"name": "me"})), Need::Own, None, true);
    let seg = json!({"time": {"type": "last", "last": 1, "unit": "day"}, "group": 0, "intervalUnit": "day", "chartType": "line", "analysis": {"type": "linear"}, "events": [{"eventType": "regular", "eventName": "View", "queries": [{"type": "countEvents"}]}]});
    for p in projects {
        let mut q = |method, rest: &str, body: Option<Value>, need: P, good| put(method, format!("/api/v1/projects/{p}{rest}"), body, Need::Project(need), Some(*p), good);
        q("GET", "", None, P::ViewProject, true);
        q("PUT", "", Some(json!({"description": "d"})), P::ManageProject, true);
        q("DELETE", "", None, P::DeleteProject, true);
        q("GET", "/schema/events", None, P::ViewSchema, true);
        q("GET", "/schema/events/1", None, P::ViewSchema, true);
        q("GET", "/schema/events/name/View", None, P::ViewSchema, true);
        q("POST", "/schema/events", Some(json!({"name": "New", "status": "enabled", "isSystem": false})), P::ManageSchema, true);
        q("PUT", "/schema/events/1", Some(json!({"description": "d"})), P::ManageSchema, true);
        q("POST", "/schema/events/1/properties/1", None, P::ManageSchema, true);
        q("DELETE", "/schema/events/1/properties/1", None, P::ManageSchema, false);
        q("DELETE", "/schema/events/1", None, P::DeleteSchema, true);
        q("GET", "/schema/custom-events", None, P::ViewSchema, true);
        q("GET", "/schema/custom-events/1", None, P::ViewSchema, true);
        q("POST", "/schema/custom-events", Some(json!({"name": "New", "status": "enabled", "isSystem": false, "events": [{"eventType": "regular", "eventName": "View"}]})), P::ManageSchema, true);
        q("PUT", "/schema/custom-events/1", Some(json!({"description": "d"})), P::ManageSchema, true);
        q("DELETE", "/schema/custom-events/1", None, P::DeleteSchema, true);
        q("GET", "/schema/event-properties", None, P::ViewSchema, true);
        q("GET", "/schema/event-properties/1", None, P::ViewSchema, true);
        q("GET", "/schema/event-properties/name/Product", None, P::ViewSchema, true);
        q("PUT", "/schema/event-properties/1", Some(json!({"description": "d"})), P::ManageSchema, true);
        q("DELETE", "/schema/event-properties/1", None, P::DeleteSchema, true);
        q("GET", "/schema/group-properties/0", None, P::ViewSchema, true);
        q("GET", "/schema/group-properties/0/1", None, P::ViewSchema, true);
        q("GET", "/schema/group-properties/0/name/Country", None, P::ViewSchema, true);
        q("PUT", "/schema/group-properties/0/1", Some(json!({"description": "d"})), P::ManageSchema, true);
        q("DELETE", "/schema/group-properties/0/1", None, P::DeleteSchema, true);
        q("GET", "/groups", None, P::ViewSchema, true);
        q("POST", "/groups", Some(json!({"name": "new", "displayName": "New"})), P::ManageSchema, true);
        q("GET", "/dashboards", None, P::ExploreReports, true);
        q("GET", "/dashboards/1", None, P::ExploreReports, true);
        q("POST", "/dashboards", Some(json!({"name": "new", "panels": []})), P::ManageReports, true);
        q("PUT", "/dashboards/1", Some(json!({"description": "d"})), P::ManageReports, true);
        q("DELETE", "/dashboards/1", None, P::ManageReports, true);
        q("GET", "/reports", None, P::ExploreReports, true);
        q("GET", "/reports/1", None, P::ExploreReports, true);
        let mut query = seg.clone(); query["type"] = json!("eventSegmentation");
        q("POST", "/reports", Some(json!({"name": "new", "type": "eventSegmentation", "query": query.clone()})), P::ManageReports, true);
        q("PUT", "/reports/1", Some(json!({"description": "d"})), P::ManageReports, true);
        q("DELETE", "/reports/1", None, P::ManageReports, true);
        q("POST", "/bookmarks", Some(json!({"query": query})), P::ExploreReports, true);
        q("GET", "/bookmarks/none", None, P::ExploreReports, false);
        q("POST", "/queries/event-segmentation", Some(seg.clone()), P::ExploreReports, true);
        q("POST", "/queries/funnel", Some(json!({"time": {"type": "last", "last": 1, "unit": "day"}, "group": 0, "steps": [{"events": [{"eventType": "regular", "eventName": "View"}], "order": {"type": "exact"}}, {"events": [{"eventType": "regular", "eventName": "View"}], "order": {"type": "exact"}}], "timeWindow": {"n": 1, "unit": "day"}, "chartType": {"type": "steps"}, "count": "unique", "attribution": "firstTouch"})), P::ExploreReports, true);
        q("POST", "/event-records/search", Some(json!({"time": {"type": "last", "last": 1, "unit": "day"}})), P::ExploreReports, true);
        q("GET", "/event-records/1", None, P::ExploreReports, false);
        q("POST", "/group-records/search", Some(json!({"group": 0})), P::ExploreReports, true);
        q("GET", "/group-records/0/user", None, P::ExploreReports, false);
        q("POST", "/property-values", Some(json!({"propertyType": "event", "propertyName": "Product"})), P::ExploreReports, true);
    }
    v
}

pub fn world() -> (Env, u64, Vec<u64>, Vec<u64>) {
    let e = Env::new();
    let admin = e.account("admin@x.y", Some(Role::Admin), vec![], vec![]);
    let spare = e.account("spare@x.y", None, vec![], vec![]);
    assert!(admin == 1 && spare == 2);
    let orgs: Vec<u64> = ["one", "two"].into_iter().map(|n| e.md.organizations.create(CreateOrganizationRequest { created_by: 1, name: n.into() }).unwrap().id).collect();
    let projects = orgs.iter().map(|o| {
        let p = e.md.projects.create(CreateProjectRequest { created_by: 1, organization_id: *o, name: format!("of {o}"), description: None, tags: None, token: format!("sdk {o}"), session_duration_seconds: 1800 }).unwrap().id;
        platform::projects::init_project(p, &e.md).unwrap();
        let t = e.token(admin, *o);
        let made = |path: &str, body: Value| { let r = e.call("POST", &format!("/api/v1/projects/{p}{path}"), Some(&t), Some(&body)); assert!(r.as_ref().is_ok_and(|r| r.ok()), "{path}: {r:?}"); };
        made("/schema/events", json!({"name": "View", "status": "enabled", "isSystem": false}));
        for (name, typ, g) in [("Product", metadata::properties::Type::Event, None), ("Country", metadata::properties::Type::Group(0), Some(0))] {
            let r = metadata::properties::CreatePropertyRequest { created_by: 1, tags: None, name: name.into(), description: None, display_name: None, typ, data_type: common::types::DType::String, status: metadata::properties::Status::Enabled, hidden: false, is_system: false, nullable: true, is_array: false, is_dictionary: true, dictionary_type: Some(metadata::properties::DictionaryType::Int64) };
            match g { None => e.md.event_properties.create(p, r).unwrap(), Some(g) => e.md.group_properties[g].create(p, r).unwrap() };
        }
        made("/schema/custom-events", json!({"name": "Custom", "status": "enabled", "isSystem": false, "events": [{"eventType": "regular", "eventName": "View"}]}));
        made("/dashboards", json!({"name": "d", "panels": []}));
        let query = json!({"type": "eventSegmentation", "time": {"type": "last", "last": 1, "unit": "day"}, "group": 0, "intervalUnit": "day", "chartType": "line", "analysis": {"type": "linear"}, "events": [{"eventType": "regular", "eventName": "View", "queries": [{"type": "countEvents"}]}]});
        made("/reports", json!({"name": "r", "type": "eventSegmentation", "query": query}));
        made("/groups", json!({"name": "company", "displayName": "Company"}));
        p
    }).collect();
    (e, admin, orgs, projects)
}

fn org_may(r: &OrganizationRole, p: &OrganizationPermission) -> bool {
    match r { OrganizationRole::Owner => true, OrganizationRole::Admin => *p == OrganizationPermission::ManageProjects, OrganizationRole::Member => false }
}
fn project_may(r: &ProjectRole, p: &P) -> bool {
    match r {
        ProjectRole::Owner => true,
        ProjectRole::Admin => matches!(p, P::ManageProject | P::InviteMembers | P::ManageMembers | P::ExploreReports | P::ManageReports | P::ViewSchema | P::ManageSchema),
        ProjectRole::Member => matches!(p, P::ExploreReports | P::ManageReports | P::ViewSchema | P::ManageSchema),
        ProjectRole::Reader => matches!(p, P::ExploreReports | P::ViewSchema),
    }
}

pub fn p01(run: &Arc<Run>) {
    use OrganizationRole as O;
    use ProjectRole as R;
    let org_roles = [None, Some(O::Owner), Some(O::Admin), Some(O::Member)];
    let project_roles = [None, Some(R::Owner), Some(R::Admin), Some(R::Member), Some(R::Reader)];
    let mut people = vec![];
    for g in [None, Some(Role::Admin)] { for a in &org_roles { for b in &org_roles { for c in &project_roles { for d in &project_roles {
        if g.is_some() && !run.thorough() && (b.is_some() || d.is_some()) { continue; }
        people.push((g.clone(), a.clone(), b.clone(), c.clone(), d.clone()));
    } } } } }
    run.extra("combinations of roles", json!(people.len()));
    run.phase("every endpoint for every combination of roles");
    mc::par(8, |w| {
        let (e, _, orgs, projects) = world();
        let cs = calls(&projects, &orgs);
        if w == 0 { run.extra("requests per account and organization", json!(cs.len())); }
        let base = e.db.dump();
        // what the requests do when nothing forbids them
        if w == 0 { for c in &cs { let t = e.token(1, orgs[0]); let r = e.call(c.method, &c.path, Some(&t), c.body.as_ref()); e.db.load(base.clone());
            match r { Ok(r) if r.ok() || (!c.good && r.status != 403 && r.status != 401) => {}, o => run.violation(&format!("{} {}", c.method, c.path), json!(format!("as the administrator: {o:?}"))) } } }
        for (i, (g, a, b, c, d)) in people.iter().enumerate() {
            if i % 8 != w { continue; }
            run.states(1);
            let pair = |x: &Option<O>, o: u64| x.iter().map(|r| (o, r.clone())).collect::<Vec<_>>();
            let who = e.account("who@x.y", g.clone(), [pair(a, orgs[0]), pair(b, orgs[1])].concat(), [c.iter().map(|r| (projects[0], r.clone())).collect::<Vec<_>>(), d.iter().map(|r| (projects[1], r.clone())).collect()].concat());
            let with = e.db.dump();
            for of in [orgs[0], orgs[1], 0] {
                let token = e.token(who, of);
                let org_role = |o: u64| if o == orgs[0] { a.as_ref() } else if o == orgs[1] { b.as_ref() } else { None };
                for q in &cs {
                    let may = match &q.need {
                        Need::Own => true,
                        Need::Global => g.is_some(),
                        Need::Org(o, p) => g.is_some() || org_role(o.unwrap_or(of)).is_some_and(|r| org_may(r, p)),
                        Need::Project(p) => {
                            let k = projects.iter().position(|x| Some(*x) == q.project).unwrap();
                            g.is_some() || (of == orgs[k] && org_role(of).is_some_and(|r| matches!(r, O::Owner | O::Admin))) || [c, d][k].as_ref().is_some_and(|r| project_may(r, p))
                        }
                    };
                    let key = format!("{} {} in organization {of} as {:?}", q.method, q.path, (g, a, b, c, d));
                    let commits = e.db.commits();
                    let r = e.call(q.method, &q.path, Some(&token), q.body.as_ref());
                    run.transitions(1); run.validated(1);
                    let r = match r { Ok(r) => r, Err(p) => { e.db.load(with.clone()); if may { run.violation(&key, json!(format!("panic: {p}"))); } else { run.violation(&key, json!(format!("forbidden, but it panicked: {p}"))); } continue; } };
                    let changed = e.db.commits() != commits;
                    if may { if r.status == 403 || r.status == 401 || (q.good && r.status >= 500) { run.violation(&key, json!(format!("permitted, but answered {} {}", r.status, r.body))); } }
                    else if r.status != 403 || changed { run.violation(&key, json!(format!("not permitted, but answered {} {}{}", r.status, r.body.to_string().chars().take(100).collect::<String>(), if changed { " and changed something" } else { "" }))); }
                    if q.path == "/api/v1/projects" && q.method == "GET" && r.ok() {
                        let ids: Vec<u64> = r.body["data"].as_array().unwrap().iter().map(|p| p["id"].as_u64().unwrap()).collect();
                        let want: Vec<u64> = (0..2).filter(|k| orgs[*k] == of).map(|k| projects[k]).collect();
                        if ids != want { run.violation(&key, json!(format!("lists the projects {ids:?}, not {want:?}"))); }
                    }
                    if changed { e.db.load(with.clone()); }
                }
            }
            e.db.load(base.clone());
        }
    });
    run.assume("what a role may do is the table of src/common/src/rbac.rs at the pinned commit; a role in an organization counts where the token is for that organization and, for a project, where the project is its own");
}
