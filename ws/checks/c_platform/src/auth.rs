//! Tokens and credentials.
use crate::access::{calls, world};
use crate::env::*;
use chrono::{Duration, Utc};
use jsonwebtoken::{encode, Algorithm, EncodingKey, Header};
use mc::Run;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

fn signed(alg: Algorithm, claims: &Value, key: &str) -> String { encode(&Header::new(alg), claims, &EncodingKey::from_secret(key.as_bytes())).unwrap() }
pub fn claims(token: &str) -> Option<(u64, u64)> { platform::auth::token::parse_access_token(token, ACCESS).ok().map(|c| (c.account_id, c.organization_id)) }

fn bad_tokens(good: &str, exp: i64) -> Vec<(String, Option<String>)> {
    let c = json!({"exp": exp, "accountId": 1, "organizationId": 1});
    let no = |k: &str| { let mut c = c.clone(); c.as_object_mut().unwrap().remove(k); c };
    let with = |k: &str, v: Value| { let mut c = c.clone(); c[k] = v; c };
    let parts: Vec<&str> = good.split('.').collect();
    let other = signed(Algorithm::HS512, &with("accountId", json!(2)), "x");
    let o: Vec<&str> = other.split('.').collect();
    let none = "eyJ0eXAiOiJKV1QiLCJhbGciOiJub25lIn0";
    let b = |t: String| Some(format!("Bearer {t}"));
    vec![
        ("no header".into(), None), ("empty header".into(), Some("".into())), ("no token".into(), Some("Bearer ".into())), ("not a scheme".into(), Some(good.into())), ("another scheme".into(), Some(format!("Basic {good}"))),
        ("garbage".into(), b("abc".into())), ("three empty parts".into(), b("..".into())), ("two parts".into(), b(parts[..2].join("."))), ("empty signature".into(), b(format!("{}.{}.", parts[0], parts[1]))),
        ("four parts".into(), b(format!("{good}.{}", parts[2]))), ("another payload".into(), b(format!("{}.{}.{}", parts[0], o[1], parts[2]))), ("another signature".into(), b(format!("{}.{}.{}", parts[0], parts[1], o[2]))),
        ("unsigned".into(), b(format!("{none}.{}.", parts[1]))), ("unsigned with a signature".into(), b(format!("{none}.{}.{}", parts[1], parts[2]))),
        ("of the refresh key".into(), b(signed(Algorithm::HS512, &c, REFRESH))), ("of an empty key".into(), b(signed(Algorithm::HS512, &c, ""))), ("of another key".into(), b(signed(Algorithm::HS512, &c, "Access key"))),
        ("HS256".into(), b(signed(Algorithm::HS256, &c, ACCESS))), ("HS384".into(), b(signed(Algorithm::HS384, &c, ACCESS))),
        ("a refresh token".into(), b(platform::auth::token::make_refresh_token(1, Duration::hours(1), REFRESH).unwrap())), ("a refresh token of the access key".into(), b(platform::auth::token::make_refresh_token(1, Duration::hours(1), ACCESS).unwrap())),
        ("expired".into(), b(signed(Algorithm::HS512, &with("exp", json!(Utc::now().timestamp() - 3600)), ACCESS))), ("expired for two minutes".into(), b(platform::auth::token::make_access_token(1, 1, Duration::seconds(-120), ACCESS).unwrap())), ("expired long ago".into(), b(signed(Algorithm::HS512, &with("exp", json!(0)), ACCESS))), ("expired, as made".into(), b(platform::auth::token::make_access_token(1, 1, Duration::hours(-1), ACCESS).unwrap())),
        ("without expiry".into(), b(signed(Algorithm::HS512, &no("exp"), ACCESS))), ("without account".into(), b(signed(Algorithm::HS512, &no("accountId"), ACCESS))), ("without organization".into(), b(signed(Algorithm::HS512, &no("organizationId"), ACCESS))),
        ("of a negative account".into(), b(signed(Algorithm::HS512, &with("accountId", json!(-1)), ACCESS))), ("of a text account".into(), b(signed(Algorithm::HS512, &with("accountId", json!("1")), ACCESS))),
    ]
}

pub fn p02(run: &Arc<Run>) {
    run.phase("bad tokens at every endpoint");
    {
        let (e, admin, orgs, projects) = world();
        let good = e.token(admin, orgs[0]);
        let mut cs = calls(&projects, &orgs);
        for (m, p, b) in [("PUT", "/api/v1/profile/email", json!({"email": "z@x.y", "password": "password"})), ("PUT", "/api/v1/profile/password", json!({"password": "password", "newPassword": "new password"})), ("PUT", "/api/v1/profile/set-password", json!({"password": "new password"})),
            ("PUT", "/api/v1/profile/set-email", json!({"email": "z@x.y"})), ("POST", "/api/v1/auth/refresh-token", json!({"refreshToken": platform::auth::token::make_refresh_token(1, Duration::hours(1), REFRESH).unwrap()}))] {
            cs.push(crate::access::Call { method: m, path: p.into(), body: Some(b), need: crate::access::Need::Own, project: None, good: true });
        }
        let bad = bad_tokens(&good, Utc::now().timestamp() + 3600);
        let commits = e.db.commits();
        for c in &cs { for (name, auth) in &bad {
            run.transitions(1); run.validated(1);
            let key = format!("{} {} with {name}", c.method, c.path);
            match e.call_with(c.method, &c.path, auth.as_deref(), None, c.body.as_ref()) {
                Ok(r) if r.status == 401 && e.db.commits() == commits => {}
                r => run.violation(&key, json!(format!("not answered 401: {r:?}"))),
            }
        } run.states(1); }
        // one character of the token changed, added or left out
        let alphabet = b"ABab01-_. ";
        let mut n = 0;
        for i in 0..good.len() { for (k, ch) in alphabet.iter().enumerate() { for how in 0..3 {
            let mut t = good.clone().into_bytes();
            match how { 0 => { if t[i] == *ch { continue; } t[i] = *ch }, 1 => t.insert(i, *ch), _ => { if k > 0 { continue; } t.remove(i); } }
            if t[0] == b' ' { continue; }
            let t = String::from_utf8(t).unwrap();
            n += 1; run.transitions(1); run.validated(1);
            match e.call("GET", "/api/v1/profile", Some(&t), None) {
                Ok(r) if r.status == 401 => {}
                r => run.violation(&format!("changed token {i} {} {how}", *ch as char), json!(format!("{t}: {r:?}"))),
            }
        } } }
        // tokens that are to give new ones, in the request or as a cookie
        let (now, mk) = (Utc::now().timestamp(), |h: i64, k: &str| platform::auth::token::make_refresh_token(1, Duration::seconds(h), k).unwrap());
        let fresh = mk(3600, REFRESH);
        let c = json!({"exp": now + 3600, "accountId": 1});
        let parts: Vec<&str> = fresh.split('.').collect();
        let stale = [("good", fresh.clone()), ("just good", mk(30, REFRESH)), ("expired for two minutes", mk(-120, REFRESH)), ("expired for an hour", mk(-3600, REFRESH)), ("expired long ago", signed(Algorithm::HS512, &json!({"exp": 0, "accountId": 1}), REFRESH)), ("of the access key", mk(3600, ACCESS)), ("of an empty key", mk(3600, "")), ("an access token", good.clone()),
            ("HS256", signed(Algorithm::HS256, &c, REFRESH)), ("HS384", signed(Algorithm::HS384, &c, REFRESH)), ("without expiry", signed(Algorithm::HS512, &json!({"accountId": 1}), REFRESH)), ("without account", signed(Algorithm::HS512, &json!({"exp": now + 3600}), REFRESH)),
            ("empty", String::new()), ("garbage", "abc".into()), ("unsigned", format!("{}.{}.", parts[0], parts[1])), ("of another payload", format!("{}.{}.{}", parts[0], signed(Algorithm::HS512, &json!({"exp": now + 7200, "accountId": 2}), "x").split('.').nth(1).unwrap(), parts[2]))];
        for (a, ta) in std::iter::once(("none", None)).chain(stale.iter().map(|(n, t)| (*n, Some(t)))) { for (b, tb) in std::iter::once(("none", None)).chain(stale.iter().map(|(n, t)| (*n, Some(t)))) {
            run.transitions(1); run.validated(1);
            // a cookie goes first
            let may = match (ta, tb) { (Some(_), _) => a.contains("good"), (None, Some(_)) => b.contains("good"), _ => false };
            let body = tb.map(|t| json!({"refreshToken": t})).unwrap_or(json!({}));
            let key = format!("new tokens for {a} as a cookie and {b} in the request");
            match e.call_with("POST", "/api/v1/auth/refresh-token", Some(&format!("Bearer {good}")), ta.map(|t| format!("refresh_token={t}")).as_deref(), Some(&body)) {
                Ok(r) if may && r.ok() && r.body["accessToken"].as_str().and_then(claims) == Some((1, orgs[0])) && r.cookie.is_some() => {}
                Ok(r) if !may && (400..500).contains(&r.status) && r.body.get("accessToken").is_none() && r.cookie.is_none() => {}
                r => run.violation(&key, json!(format!("{r:?}"))),
            }
        } run.states(1); }
        run.extra("changed tokens", json!(n));
        match e.call("GET", "/api/v1/profile", Some(&good), None) { Ok(r) if r.ok() && r.body["email"] == "admin@x.y" => {}, r => run.violation("good token", json!(format!("{r:?}"))) }
        // the tokens of an account that is gone
        let spare = e.token(2, 0);
        assert!(e.call("DELETE", "/api/v1/accounts/2", Some(&good), None).unwrap().ok());
        let commits = e.db.commits();
        for c in &cs { match e.call(c.method, &c.path, Some(&spare), c.body.as_ref()) { Ok(r) if (400..500).contains(&r.status) && e.db.commits() == commits => {}, r => run.violation(&format!("{} {} of a deleted account", c.method, c.path), json!(format!("{r:?}"))) } }
    }
    run.phase("which organization a token is for");
    {
        let (e, _, orgs, _) = world();
        for m in 0..9 {
            let role = |k: u64| match k { 0 => None, 1 => Some(common::rbac::OrganizationRole::Member), _ => Some(common::rbac::OrganizationRole::Owner) };
            let email = format!("m{m}@x.y");
            let id = e.account(&email, None, vec![], vec![]);
            let of = [role(m % 3), role(m / 3)];
            for k in 0..2 { if let Some(r) = &of[k] { e.md.organizations.add_member(orgs[k], id, r.clone()).unwrap(); } }
            for cookie in [None, Some("1"), Some("2"), Some("x"), Some("")] {
                let want = match cookie { Some("1") => if of[0].is_some() { orgs[0] } else { 0 }, Some("2") => if of[1].is_some() { orgs[1] } else { 0 }, _ => if of[0].is_some() { orgs[0] } else if of[1].is_some() { orgs[1] } else { 0 } };
                let r = e.call_with("POST", "/api/v1/auth/login", None, cookie.map(|c| format!("organization_id={c}")).as_deref(), Some(&json!({"email": email, "password": "password"})));
                run.transitions(1); run.validated(1);
                let got = r.as_ref().ok().and_then(|r| r.body["accessToken"].as_str()).and_then(claims);
                if got != Some((id, want)) { run.violation(&format!("log in of a member {m} with cookie {cookie:?}"), json!(format!("{got:?}, not {:?}: {r:?}", (id, want)))); }
            }
        }
    }
    run.phase("histories of accounts");
    let all = ops();
    let depth = run.pick(3, 4);
    run.extra("operations", json!(all.len())); run.extra("depth", json!(depth));
    let n = mc::pow(all.len(), depth);
    mc::par(8, |w| {
        let (e, ..) = world();
        let base = e.db.dump();
        for start in 0..3 {
            let mut i = w;
            while i < n {
                let h: Vec<Op> = mc::seq_of(i, all.len(), depth).into_iter().map(|k| all[k].clone()).collect();
                i += 8;
                e.db.load(base.clone());
                history(run, &e, start, &h);
            }
        }
    });
}

const EMAILS: [&str; 2] = ["a@x.y", "b@x.y"];
const PW: [&str; 2] = ["first password", "other password"];
#[derive(Clone, Debug, PartialEq)]
pub enum Op { SignUp(usize, &'static str), Email(usize, &'static str, usize), Password(usize, usize, &'static str), SetPassword(usize, &'static str), SetEmail(usize, &'static str), Admin(usize, Value), Delete(usize), Refresh(usize) }
fn ops() -> Vec<Op> {
    let mut v = vec![];
    for k in 0..2 { v.push(Op::SignUp(k, PW[0])); }
    v.push(Op::SignUp(0, "short"));
    for w in 0..2 { v.push(Op::Email(0, "b@x.y", w)); v.push(Op::Password(0, w, PW[1])); }
    v.extend([Op::Email(1, "c@x.y", 0), Op::Email(0, "no mail", 0), Op::Password(1, 0, "short"), Op::SetPassword(0, PW[1]), Op::SetPassword(0, "short"), Op::SetEmail(0, "c@x.y"), Op::SetEmail(0, "b@x.y"), Op::SetEmail(0, "no mail")]);
    for b in [json!({"password": PW[1]}), json!({"email": "b@x.y"}), json!({"name": "n"}), json!({"forceUpdatePassword": true}), json!({"role": "Admin"})] { v.push(Op::Admin(0, b)); }
    v.extend([Op::Delete(0), Op::Delete(1), Op::Refresh(0)]);
    v
}
#[derive(Clone, Debug)]
struct Acc { id: u64, email: String, pw: String, force: (bool, bool), admin: bool, name: Option<String>, token: String, refresh: String, gone: bool }

/// people[k] is the account that began as EMAILS[k]
fn history(run: &Arc<Run>, e: &Env, start: usize, h: &[Op]) {
    let admin = e.token(1, 1);
    let mut people: BTreeMap<usize, Acc> = BTreeMap::new();
    let key = |i: usize| format!("start {start}: {:?}", &h[..i]);
    for k in 0..start {
        let force = (start == 2, start == 2 && k == 0);
        let r = e.call("POST", "/api/v1/accounts", Some(&admin), Some(&json!({"email": EMAILS[k], "password": PW[0], "forceUpdatePassword": force.0, "forceUpdateEmail": force.1}))).unwrap();
        let id = r.body["id"].as_u64().unwrap_or(0);
        if !r.ok() || id == 0 { run.violation(&key(0), json!(format!("{r:?}"))); return; }
        people.insert(k, Acc { id, email: EMAILS[k].into(), pw: PW[0].into(), force, admin: false, name: None, token: e.token(id, 0), refresh: platform::auth::token::make_refresh_token(id, Duration::hours(1), REFRESH).unwrap(), gone: false });
    }
    let taken = |people: &BTreeMap<usize, Acc>, m: &str, by: Option<usize>| people.iter().any(|(k, a)| !a.gone && a.email == m && Some(*k) != by);
    for (i, op) in h.iter().enumerate() {
        // an operation of somebody who was never there is no operation
        let who = match op { Op::SignUp(..) => None, Op::Email(k, ..) | Op::Password(k, ..) | Op::SetPassword(k, _) | Op::SetEmail(k, _) | Op::Admin(k, _) | Op::Delete(k) | Op::Refresh(k) => Some(*k) };
        if who.is_some_and(|k| !people.contains_key(&k)) { return; }
        let me = who.map(|k| people[&k].clone());
        let (m, p, auth, body) = match op {
            Op::SignUp(k, pw) => ("POST", "/api/v1/auth/signup".to_string(), None, json!({"email": EMAILS[*k], "password": pw, "passwordRepeat": pw, "name": "n"})),
            Op::Email(_, to, w) => ("PUT", "/api/v1/profile/email".into(), me.as_ref().map(|a| a.token.clone()), json!({"email": to, "password": PW[*w]})),
            Op::Password(_, w, to) => ("PUT", "/api/v1/profile/password".into(), me.as_ref().map(|a| a.token.clone()), json!({"password": PW[*w], "newPassword": to})),
            Op::SetPassword(_, to) => ("PUT", "/api/v1/profile/set-password".into(), me.as_ref().map(|a| a.token.clone()), json!({"password": to})),
            Op::SetEmail(_, to) => ("PUT", "/api/v1/profile/set-email".into(), me.as_ref().map(|a| a.token.clone()), json!({"email": to})),
            Op::Admin(_, b) => ("PUT", format!("/api/v1/accounts/{}", me.as_ref().unwrap().id), Some(admin.clone()), b.clone()),
            Op::Delete(_) => ("DELETE", format!("/api/v1/accounts/{}", me.as_ref().unwrap().id), Some(admin.clone()), Value::Null),
            Op::Refresh(_) => ("POST", "/api/v1/auth/refresh-token".into(), me.as_ref().map(|a| a.token.clone()), json!({"refreshToken": me.as_ref().unwrap().refresh})),
        };
        let short = |p: &str| p.len() < 8;
        let may = match op {
            Op::SignUp(k, pw) => !short(pw) && !taken(&people, EMAILS[*k], None),
            _ => { let a = me.as_ref().unwrap(); let k = who.unwrap(); !a.gone && match op {
                Op::Email(_, to, w) => PW[*w] == a.pw && to.contains('@') && !taken(&people, to, Some(k)),
                Op::Password(_, w, to) => PW[*w] == a.pw && !short(to),
                Op::SetPassword(_, to) => a.force.0 && !short(to),
                Op::SetEmail(_, to) => a.force.1 && to.contains('@') && !taken(&people, to, Some(k)),
                Op::Admin(_, b) => b["email"].as_str().is_none_or(|m| !taken(&people, m, Some(k))),
                _ => true,
            } }
        };
        let commits = e.db.commits();
        let r = match e.call(m, &p, auth.as_deref(), if body.is_null() { None } else { Some(&body) }) { Ok(r) => r, Err(p) => { run.violation(&key(i + 1), json!(format!("panic: {p}"))); return; } };
        run.transitions(1);
        if r.ok() != may || (!may && !(400..500).contains(&r.status)) || (!may && e.db.commits() != commits) { run.violation(&key(i + 1), json!(format!("{} expected, but {r:?}", if may { "success" } else { "a refusal" }))); return; }
        if !may { continue; }
        let tokens = r.body["accessToken"].as_str().map(|t| (t.to_string(), r.body["refreshToken"].as_str().unwrap_or("").to_string()));
        match op {
            Op::SignUp(k, pw) => {
                let Some((id, org)) = tokens.as_ref().and_then(|t| claims(&t.0)) else { run.violation(&key(i + 1), json!(format!("no token: {r:?}"))); return; };
                if org != 0 || people.values().any(|a| a.id == id) || id < 3 { run.violation(&key(i + 1), json!(format!("signed up as {id} in {org}"))); return; }
                if let Some(old) = people.remove(k) { let n = 10 + people.len(); people.insert(n, old); }
                let t = tokens.clone().unwrap();
                people.insert(*k, Acc { id, email: EMAILS[*k].into(), pw: pw.to_string(), force: (false, false), admin: false, name: Some("n".into()), token: t.0, refresh: t.1, gone: false });
            }
            _ => { let a = people.get_mut(&who.unwrap()).unwrap(); match op {
                Op::Email(_, to, _) => a.email = to.to_string(),
                Op::Password(_, _, to) => a.pw = to.to_string(),
                Op::SetPassword(_, to) => { a.pw = to.to_string(); a.force.0 = false; }
                Op::SetEmail(_, to) => { a.email = to.to_string(); a.force.1 = false; }
                Op::Admin(_, b) => { if let Some(p) = b["password"].as_str() { a.pw = p.into(); } if let Some(p) = b["email"].as_str() { a.email = p.into(); } if let Some(p) = b["name"].as_str() { a.name = Some(p.into()); } if b["forceUpdatePassword"] == true { a.force.0 = true; } if b["role"] == "Admin" { a.admin = true; } }
                Op::Delete(_) => a.gone = true,
                _ => {}
            }
            if let (Some(t), false) = (&tokens, matches!(op, Op::Delete(_) | Op::Admin(..))) {
                if claims(&t.0).map(|c| c.0) != Some(a.id) { run.violation(&key(i + 1), json!(format!("the new token is for {:?}, not {}", claims(&t.0), a.id))); return; }
                a.token = t.0.clone(); a.refresh = t.1.clone();
            } }
        }
    }
    // who can log in, and as whom
    run.states(1);
    for m in ["a@x.y", "b@x.y", "c@x.y", "no mail"] { for pw in PW {
        let want = people.values().find(|a| !a.gone && a.email == m && a.pw == pw);
        let r = e.call("POST", "/api/v1/auth/login", None, Some(&json!({"email": m, "password": pw})));
        run.validated(1);
        let got = r.as_ref().ok().filter(|r| r.ok()).and_then(|r| r.body["accessToken"].as_str()).and_then(claims).map(|c| c.0);
        if got != want.map(|a| a.id) || !r.as_ref().is_ok_and(|r| r.ok() || (400..402).contains(&r.status)) { run.violation(&key(h.len()), json!(format!("log in as {m} with {pw}: as {got:?}, not {:?}: {r:?}", want.map(|a| a.id)))); return; }
    } }
    for a in people.values() {
        let r = e.call("GET", "/api/v1/profile", Some(&a.token), None);
        let want = json!({"name": a.name, "email": a.email, "forceUpdatePassword": a.force.0, "forceUpdateEmail": a.force.1});
        match &r { Ok(r) if a.gone && !r.ok() => {}, Ok(r) if !a.gone && r.body == want => {}, _ => { run.violation(&key(h.len()), json!(format!("profile {r:?}, not {want}{}", if a.gone { " (deleted)" } else { "" }))); return; } }
        let r = e.call("GET", "/api/v1/accounts", Some(&a.token), None);
        if r.as_ref().is_ok_and(|r| r.ok()) != (a.admin && !a.gone) { run.violation(&key(h.len()), json!(format!("accounts listed: {r:?}"))); return; }
    }
}
