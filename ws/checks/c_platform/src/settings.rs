//! P05: every history of settings updates over the API, with backups requested under them.
use crate::env::*;
use common::rbac::Role;
use metadata::settings::{BackupProvider, BackupScheduleInterval, Settings};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

type Model = BTreeMap<&'static str, Value>;
/// of each field: API name, whether it is secret, the values it is set to
fn fields() -> Vec<(&'static str, bool, Vec<Value>)> {
    vec![
        ("authAccessToken", true, vec![json!("another access key")]),
        ("authRefreshToken", true, vec![json!("another refresh key")]),
        ("authAdminDefaultPassword", true, vec![json!("pw")]),
        ("backupEnabled", false, vec![json!(true), json!(false)]),
        ("backupEncryptionEnabled", false, vec![json!(true), json!(false)]),
        ("backupEncryptionPassword", true, vec![json!("encrypt"), json!("")]),
        ("backupCompressionEnabled", false, vec![json!(true), json!(false)]),
        ("backupProvider", false, vec![json!("local"), json!("s3"), json!("gcp")]),
        ("backupProviderS3Bucket", false, vec![json!("b3"), json!("")]),
        ("backupProviderS3Path", false, vec![json!("p3")]),
        ("backupProviderS3Region", false, vec![json!("r3")]),
        ("backupProviderS3AccessKey", false, vec![json!("k3")]),
        ("backupProviderS3SecretKey", true, vec![json!("s3key")]),
        ("backupProviderGcpBucket", false, vec![json!("bg")]),
        ("backupProviderGcpPath", false, vec![json!("pg")]),
        ("backupProviderGcpKey", true, vec![json!("kg"), json!("")]),
        ("backupScheduleInterval", false, ["hourly", "daily", "weekly", "monthly", "yearly"].map(|x| json!(x)).to_vec()),
        ("backupScheduleStartHour", false, vec![json!(0), json!(7), json!(23), json!(24)]),
    ]
}
fn initial() -> Model {
    fields().into_iter().map(|(n, _, v)| (n, match n {
        "authAccessToken" => json!(ACCESS), "authRefreshToken" => json!(REFRESH),
        "backupProvider" => json!("local"), "backupScheduleInterval" => json!("daily"),
        _ if v[0].is_boolean() => json!(false), _ if v[0].is_number() => json!(0), _ => json!(""),
    })).collect()
}
fn valid(m: &Model) -> bool {
    let empty = |n: &str| m[n] == json!("");
    (m["backupEncryptionEnabled"] == json!(false) || !empty("backupEncryptionPassword"))
        && match m["backupProvider"].as_str().unwrap() {
            "s3" => !["backupProviderS3Bucket", "backupProviderS3Region", "backupProviderS3AccessKey", "backupProviderS3SecretKey"].iter().any(|n| empty(n)),
            "gcp" => !empty("backupProviderGcpBucket") && !empty("backupProviderGcpKey"),
            _ => true,
        }
        && m["backupScheduleStartHour"].as_u64().unwrap() < 24
}
fn stored(s: &Settings) -> Model {
    BTreeMap::from([
        ("authAccessToken", json!(s.auth_access_token)), ("authRefreshToken", json!(s.auth_refresh_token)), ("authAdminDefaultPassword", json!(s.auth_admin_default_password)),
        ("backupEnabled", json!(s.backup_enabled)), ("backupEncryptionEnabled", json!(s.backup_encryption_enabled)), ("backupEncryptionPassword", json!(s.backup_encryption_password)),
        ("backupCompressionEnabled", json!(s.backup_compression_enabled)),
        ("backupProvider", json!(match s.backup_provider { BackupProvider::Local => "local", BackupProvider::S3 => "s3", BackupProvider::GCP => "gcp" })),
        ("backupProviderS3Bucket", json!(s.backup_provider_s3_bucket)), ("backupProviderS3Path", json!(s.backup_provider_s3_path)), ("backupProviderS3Region", json!(s.backup_provider_s3_region)),
        ("backupProviderS3AccessKey", json!(s.backup_provider_s3_access_key)), ("backupProviderS3SecretKey", json!(s.backup_provider_s3_secret_key)),
        ("backupProviderGcpBucket", json!(s.backup_provider_gcp_bucket)), ("backupProviderGcpPath", json!(s.backup_provider_gcp_path)), ("backupProviderGcpKey", json!(s.backup_provider_gcp_key)),
        ("backupScheduleInterval", json!(match s.backup_schedule_interval { BackupScheduleInterval::Hourly => "hourly", BackupScheduleInterval::Daily => "daily", BackupScheduleInterval::Weekly => "weekly", BackupScheduleInterval::Monthly => "monthly", BackupScheduleInterval::Yearly => "yearly" })),
        ("backupScheduleStartHour", json!(s.backup_schedule_start_hour)),
    ])
}
fn updates() -> Vec<Value> {
    let mut l = vec![json!({})];
    for (n, _, vs) in fields() { for v in vs { l.push(json!({n: v})); } }
    l.extend([
        json!({"backupProvider": "s3", "backupProviderS3Bucket": "b1", "backupProviderS3Path": "p1", "backupProviderS3Region": "r1", "backupProviderS3AccessKey": "k1", "backupProviderS3SecretKey": "s1"}),
        json!({"backupProvider": "s3", "backupProviderS3Bucket": "b1", "backupProviderS3Region": "r1", "backupProviderS3AccessKey": "k1"}),
        json!({"backupProvider": "gcp", "backupProviderGcpBucket": "b2", "backupProviderGcpPath": "p2", "backupProviderGcpKey": "k2", "backupEnabled": true}),
        json!({"backupEncryptionEnabled": true, "backupEncryptionPassword": "secret", "backupEnabled": true}),
        json!({"backupScheduleInterval": "weekly", "backupScheduleStartHour": 11, "authAdminDefaultPassword": "pw2"}),
        json!({"backupCompressionEnabled": true, "backupScheduleStartHour": 24}),
    ]);
    l
}
fn key(m: &Model) -> &str { m["authAccessToken"].as_str().unwrap() }

struct Walk<'a> { run: &'a mc::Run, env: &'a Env, admin: u64, ups: Vec<Value>, secret: Vec<&'static str> }
impl Walk<'_> {
    fn token(&self, m: &Model) -> String { platform::auth::token::make_access_token(self.admin, 1, chrono::Duration::hours(1), key(m)).unwrap() }
    fn go(&self, m: &Model, hist: &mut Vec<Value>, depth: usize) {
        let bad = |hist: &[Value], what: &str, got: Value, want: Value| self.run.violation(&format!("{what} {}", hist.last().unwrap()), json!({"updates": hist, "what": what, "got": got, "expected": want}));
        for u in &self.ups {
            let saved = self.env.db.dump();
            hist.push(u.clone());
            let mut next = m.clone();
            for (k, v) in u.as_object().unwrap() { *next.get_mut(k.as_str()).unwrap() = v.clone(); }
            let ok = valid(&next);
            self.run.transitions(1);
            let tok = self.token(m);
            let got = match self.env.call("PUT", "/api/v1/admin/settings", Some(&tok), Some(u)) { Ok(a) => a, Err(p) => { bad(hist, "panic", json!(p), json!(null)); hist.pop(); self.env.db.load(saved); continue } };
            if got.ok() != ok { bad(hist, "update accepted", json!([got.status, got.body]), json!(ok)); }
            let next = if ok { next } else { m.clone() };
            let public: Map<String, Value> = next.iter().filter(|(k, _)| !self.secret.contains(k)).map(|(k, v)| (k.to_string(), v.clone())).collect();
            let public = Value::Object(public);
            if ok && got.body != public { bad(hist, "answer to the update", got.body, public.clone()); }
            match self.env.md.settings.load() {
                Ok(s) => if stored(&s) != next { bad(hist, "stored settings", json!(stored(&s)), json!(next)); },
                Err(e) => bad(hist, "stored settings", json!(e.to_string()), json!(next)),
            }
            match self.env.call("GET", "/api/v1/admin/settings", Some(&self.token(&next)), None) {
                Ok(a) if a.status == 200 && a.body == public => {}
                a => bad(hist, "settings read", json!(format!("{a:?}")), public),
            }
            if key(m) != key(&next) {
                match self.env.call("GET", "/api/v1/admin/settings", Some(&tok), None) { Ok(a) if a.status == 401 => {}, a => bad(hist, "token of the earlier key", json!(format!("{a:?}")), json!(401)) }
            }
            self.backup(&next, hist, &bad);
            self.run.states(1); self.run.validated(1);
            if depth > 1 && ok { self.go(&next, hist, depth - 1); }
            hist.pop();
            self.env.db.load(saved);
        }
    }
    /// a backup asked for now, with its state put back afterwards
    fn backup(&self, m: &Model, hist: &[Value], bad: &dyn Fn(&[Value], &str, Value, Value)) {
        let saved = self.env.db.dump();
        let tok = self.token(m);
        let enabled = m["backupEnabled"] == json!(true);
        let a = self.env.call("POST", "/api/v1/admin/backups/backup", Some(&tok), None);
        self.run.transitions(1);
        match &a { Ok(x) if x.ok() == enabled => {}, _ => bad(hist, "backup accepted", json!(format!("{a:?}")), json!(enabled)) }
        let want = |m: &Model| { let s = |n: &str| m[n].clone(); match m["backupProvider"].as_str().unwrap() {
            "s3" => json!({"type": "s3", "bucket": s("backupProviderS3Bucket"), "path": s("backupProviderS3Path"), "region": s("backupProviderS3Region")}),
            "gcp" => json!({"type": "gcp", "bucket": s("backupProviderGcpBucket"), "path": s("backupProviderGcpPath")}),
            _ => json!({"type": "local", "path": ""}),
        } };
        let check = |b: &Value| b["provider"] == want(m) && b["isEncrypted"] == m["backupEncryptionEnabled"] && b["status"] == json!("idle") && b["id"] == json!(1);
        match self.env.call("GET", "/api/v1/admin/backups", Some(&tok), None) {
            Ok(l) if l.body["data"].as_array().is_some_and(|d| d.len() == enabled as usize && d.iter().all(&check)) => {}
            l => bad(hist, "list of backups", json!(format!("{l:?}")), json!([enabled, want(m)])),
        }
        if enabled {
            match self.env.call("GET", "/api/v1/admin/backups/1", Some(&tok), None) { Ok(b) if check(&b.body) => {}, b => bad(hist, "backup read", json!(format!("{b:?}")), want(m)) }
            let pw = if m["backupEncryptionEnabled"] == json!(true) { m["backupEncryptionPassword"].as_str().map(|x| x.to_string()) } else { None };
            match self.env.md.backups.get_by_id(1) { Ok(b) if b.password == pw => {}, b => bad(hist, "password of the backup", json!(format!("{b:?}")), json!(pw)) }
            match self.env.call("POST", "/api/v1/admin/backups/backup", Some(&tok), None) { Ok(x) if !x.ok() => {}, x => bad(hist, "second backup while one waits", json!(format!("{x:?}")), json!("refused")) }
        }
        self.env.db.load(saved);
    }
}

pub fn p05(run: &mc::Run) {
    run.phase("histories of settings");
    let depth = run.pick(3, 4);
    let ups = updates();
    let secret: Vec<&'static str> = fields().into_iter().filter(|f| f.1).map(|f| f.0).collect();
    mc::par(ups.len(), |i| {
        let env = Env::new();
        let admin = env.account("root@x.io", Some(Role::Admin), vec![], vec![]);
        let mut first = vec![ups[i].clone()];
        if i > 0 { first.truncate(1); }
        // the first update of the histories of this thread, then all of them
        let w = Walk { run, env: &env, admin, ups: first, secret: secret.clone() };
        let m = initial();
        let mut hist = vec![];
        w.go(&m, &mut hist, 1);
        let u = ups[i].clone();
        let mut next = m.clone();
        for (k, v) in u.as_object().unwrap() { *next.get_mut(k.as_str()).unwrap() = v.clone(); }
        if !valid(&next) || depth < 2 { return; }
        let _ = env.call("PUT", "/api/v1/admin/settings", Some(&w.token(&m)), Some(&u));
        let w = Walk { ups: ups.clone(), ..w };
        w.go(&next, &mut vec![u], depth - 1);
    });
    run.extra("updates", json!(ups.len()));
    run.sample(json!({"update": ups.last()}));
    run.assume("Two administrators do not change settings at the same moment.");
}
