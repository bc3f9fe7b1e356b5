use crate::env::*;
use crate::model::*;
use chrono::Utc;
use mc::Run;
use serde_json::json;
use common::types::*;
use common::DECIMAL_SCALE;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const STORE: &str = "the key-value store and the array and file formats below the event store are the stand-ins of DESIGN.md; transformers (geo, user agent) are off";

/// what of the alternatives agrees with what is stored
fn compare(run: &Run, ms: Vec<Model>, env: &Env, pid: u64) -> Result<Vec<Model>, serde_json::Value> {
    let (mut ok, mut err) = (vec![], None);
    let got = (env.events(pid).map_err(|e| json!(e))?, env.profiles(pid).map_err(|e| json!(e))?);
    for m in ms { match m.compare(env, pid, &got) { Ok(n) => { run.validated(n); ok.push(m) } Err(e) => err = err.or(Some(e)) } }
    if ok.is_empty() { Err(err.unwrap()) } else { Ok(ok) }
}
/// runs the histories `0..n`, each in a project of its own, several projects to a store; what is stored is compared
/// at the end of each, again when all tables are flushed, and again when the store is opened anew
fn drive(run: &Arc<Run>, label: &str, n: usize, chunk: usize, api: bool, get: impl Fn(usize) -> Vec<Op> + Sync) {
    run.phase(label);
    mc::par(n.div_ceil(chunk), |c| {
        let env = Env::new();
        let mut kept: Vec<(u64, Vec<Model>, String)> = vec![];
        let mut bad = false;
        for i in c * chunk..((c + 1) * chunk).min(n) {
            let ops = get(i);
            let key = format!("{label}: {}", ops.iter().map(|o| o.show()).collect::<Vec<_>>().join("; "));
            let (pid, token) = env.project(api);
            let mut ms = vec![Model::new()];
            let ok = run.case(|| key.clone(), || {
                for op in &ops {
                    let from = Utc::now().timestamp_millis();
                    let out = op.run(&env, pid, &token);
                    let to = Utc::now().timestamp_millis();
                    if let Out::Panicked(p) = &out { return Err(json!({"panic": p, "at": op.show()})) }
                    let mut next = vec![];
                    for m in &ms {
                        let mut n = m.clone();
                        if n.step(op, (from, to), out.ok()) != out.ok() { continue }
                        if out.ok() { next.push(n) } else { next.extend(m.after_refusal(op)) }
                    }
                    if next.is_empty() { return Err(json!({"at": op.show(), "answer": format!("{out:?}"), "must be accepted": !out.ok()})) }
                    ms = next;
                }
                run.transitions(ops.len() as u64);
                run.states(1);
                ms = compare(&run, ms.clone(), &env, pid)?;
                // who has a session is known by the stored sessions
                let open = ms[0].open();
                for u in env.events(pid).unwrap() {
                    let has = env.md.sessions.get_by_user_id(pid, u.user as u64).is_ok();
                    let want = open.iter().any(|n| n.contains(&u.user_name));
                    if has != want { return Err(json!({"what": "whether the user has a session", "user": u.user_name, "is": has, "must be": want})) }
                }
                Ok(())
            });
            if i % (n / 5 + 1) == 0 { run.sample(json!({"history": key})); }
            if ok { kept.push((pid, ms, key)); } else { bad = true; break; }
        }
        if bad || kept.is_empty() { return }
        run.case(|| format!("{label}: flush after {}", kept[0].2), || {
            env.opti.flush(common::types::TABLE_EVENTS).map_err(|e| json!(format!("{e:?}")))?;
            for g in 0..common::GROUPS_COUNT { if kept.iter().any(|(pid, _, _)| env.has_profiles(g, *pid)) { env.opti.flush(&common::group_col(g)).map_err(|e| json!(format!("{e:?}")))?; } }
            Ok(())
        });
        for (pid, m, key) in &kept { run.case(|| format!("{key}; flush"), || { compare(&run, m.clone(), &env, *pid)?; Ok(()) }); }
        let p = env.path.clone();
        let env = env.reopen();
        for (pid, m, key) in &kept { run.case(|| format!("{key}; flush; open again"), || { compare(&run, m.clone(), &env, *pid)?; Ok(()) }); }
        drop(env);
        let _ = std::fs::remove_dir_all(p);
    });
}
/// all sequences over the operations up to the length a budget allows
fn sequences(run: &Arc<Run>, label: &str, ops: &[Op], budget: usize, chunk: usize) {
    let mut depth = 1;
    while mc::pow(ops.len(), depth + 1) <= budget { depth += 1; }
    run.extra(label, json!({"operations": ops.len(), "depth": depth}));
    for len in 1..=depth { drive(run, label, mc::pow(ops.len(), len), chunk, false, |i| mc::seq_of(i, ops.len(), len).into_iter().map(|k| ops[k].clone()).collect()); }
}

fn tr(user: Option<&str>, anon: Option<&str>) -> Track { Track { user: user.map(|s| s.into()), anon: anon.map(|s| s.into()), event: "Buy".into(), ..Default::default() } }
fn pr(p: &[(&str, Lit)]) -> Option<Vec<(String, Lit)>> { Some(p.iter().map(|(k, v)| (k.to_string(), v.clone())).collect()) }
fn gr(g: &[(&str, &str)]) -> Option<Vec<(String, String)>> { Some(g.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()) }
fn id(group: &str, id: &str, p: &[(&str, Lit)]) -> Op { Op::Identify(Identify { group: group.into(), id: id.into(), props: pr(p), time: None }) }

pub fn literals() -> Vec<Lit> {
    let u = UNIT;
    let mut v = vec![
        text(""), text("a"), text(" a "), text("A"), text("йц 🐈"), text("a/b"), text("\0\"\\"), text("1"), text("true"), text("null"), text("2020-01-01"), text(&"x".repeat(300)), text("2020-02-30T00:00:00Z"),
        boolean(true), boolean(false),
        time("2020-01-01T00:00:00Z", 1_577_836_800_000), time("2020-01-01T02:00:00+02:00", 1_577_836_800_000), time("2020-01-01T00:00:00.123456Z", 1_577_836_800_123), time("1969-12-31T23:59:59.999Z", -1), time("1970-01-01T00:00:00Z", 0), time("2999-12-31T23:59:59Z", 32_503_679_999_000), time("0001-01-01T00:00:00-01:00", -62_135_593_200_000),
        num("1.5", 3 * u / 2), num("-0.5", -u / 2), num("0.1", u / 10), num("1e-16", 1), num("-1e-15", -10), num("0.30000000000000004", u / 10 * 3), num("123456789.123456", 123_456_789_123_456 * (u / 1_000_000)), num("1e3", 1000 * u), num("2.5e-3", 25 * u / 10_000), num("-999999999999", -999_999_999_999 * u), num("999999999999.5", 9_999_999_999_995 * (u / 10)),
        num("4000000000000", 4_000_000_000_000 * u), num("7000000000000", 7_000_000_000_000 * u), num("-5e12", -5_000_000_000_000 * u), num("80000000000000", 80_000_000_000_000 * u), num("9007199254740993", 9_007_199_254_740_993 * u), num("9223372036854775807", i64::MAX as i128 * u), num("9223372036854775808", (i64::MAX as i128 + 1) * u), num("-9223372036854775808", i64::MIN as i128 * u),
        lit("1e300", None), lit("null", None), lit("[1]", None), lit("{\"a\":1}", None),
    ];
    // more than sixteen digits after the point are rounded
    v.retain(|l| l.json != "0.30000000000000004");
    v.push(num("-0.0", 0));
    for i in [0i64, 1, -1, 127, 128, -128, -129, 32767, 32768, -32769, 2_147_483_647, 2_147_483_648, -2_147_483_649] { v.push(int(i)); }
    v
}

pub fn values(run: &Arc<Run>) {
    run.assume(STORE);
    run.assume("numbers go into integer properties without their fraction; a number with more digits than a decimal column has may be refused, but not stored as another");
    let lits = literals();
    let few: Vec<Lit> = lits.iter().step_by(run.pick(12, 1)).cloned().collect();
    use common::types::*;
use common::DECIMAL_SCALE;
    let mut names: Vec<String> = vec!["new".into(), EVENT_PROPERTY_HREF.into(), EVENT_PROPERTY_OS.into(), EVENT_PROPERTY_SESSION_LENGTH.into()];
    names.extend(API.iter().map(|a| a.0.to_string()));
    run.extra("literals", json!(lits.len()));
    run.extra("properties", json!(names));
    let one = |name: &str, v: &Lit, what: usize| match what {
        0 => Op::Track(Track { props: pr(&[(name, v.clone())]), ..tr(Some("u"), None) }),
        1 => id("company", "c", &[(name, v.clone())]),
        _ => id("user", "u", &[(name, v.clone())]),
    };
    // every value into every property, then another value
    let mut jobs = vec![];
    for (ni, name) in names.iter().enumerate() {
        for a in 0..lits.len() { for b in 0..=(if ni == 0 { lits.len() } else { few.len() }) { for what in 0..3 { if what == 2 && b > 3 { continue } jobs.push((name, a, b, what)); } } }
    }
    // the properties of every type are there when they are what is looked at
    let (new, old): (Vec<_>, Vec<_>) = jobs.into_iter().partition(|j| !API.iter().any(|a| a.0 == j.0));
    for (jobs, api) in [(new, false), (old, true)] { drive(run, "values", jobs.len(), 4, api, |i| {
        let (name, a, b, what) = &jobs[i];
        let mut ops = vec![one(name, &lits[*a], *what)];
        if *b > 0 { ops.push(one(name, if *name == "new" { &lits[*b - 1] } else { &few[*b - 1] }, *what)); }
        // and what the profile says on an event
        if *what == 1 { ops.push(Op::Track(Track { groups: gr(&[("company", "c")]), ..tr(Some("u"), None) })); }
        if *what == 2 { ops.push(Op::Track(Track { groups: gr(&[]), ..tr(Some("u"), None) })); }
        ops
    }); }
    // names, times, addresses
    let texts = ["", "a", "A", " a", "a/b", "a/../b", "йц 🐈", "Session Begin", "\0", "%25", "names/x", "user"];
    let times = [("2020-01-01T00:00:00Z", 1_577_836_800_000i64), ("2020-06-01T02:00:00.5+02:00", 1_590_969_600_500), ("1969-12-31T23:59:59.999Z", -1), ("2020-01-01T00:00:00.123999Z", 1_577_836_800_123)];
    let mut jobs: Vec<Vec<Op>> = vec![];
    for a in texts { for b in texts {
        jobs.push(vec![Op::Track(Track { event: a.into(), ..tr(Some(b), None) }), Op::Track(Track { event: b.into(), ..tr(None, Some(a)) }), Op::Track(Track { event: a.into(), groups: gr(&[(b, a)]), ..tr(Some(a), None) })]);
        jobs.push(vec![Op::Track(Track { props: pr(&[(a, text(b)), ("other", text(a))]), ..tr(Some("u"), None) }), id(a, b, &[(b, text(a))]), Op::Track(Track { groups: gr(&[(a, b)]), ..tr(Some("u"), None) })]);
        // one string in two properties, two strings in one
        if a != b { jobs.push(vec![Op::Track(Track { props: pr(&[(a, text(a)), (b, text(a))]), ..tr(Some("u"), None) }), Op::Track(Track { props: pr(&[(a, text(b)), (b, text(a))]), ..tr(Some("u"), None) })]); }
    } }
    for t in times { for ip in [None, Some("10.1.2.3"), Some("::1")] { for w in [0, 1] {
        jobs.push(if w == 0 { vec![Op::Track(Track { time: Some((t.0.into(), t.1)), ip: ip.map(|s| s.into()), ..tr(Some("u"), None) })] } else { vec![Op::Identify(Identify { group: "g".into(), id: "x".into(), props: None, time: Some((t.0.into(), t.1)) })] });
    } } }
    // group names that collide with what the keys are made of are not groups of their own: "names" excepted
    drive(run, "names and times", jobs.len(), 4, false, |i| jobs[i].clone());
    // as many strings as a small dictionary can tell apart, and more
    for (p, fill, n) in [("d8", 0, 140usize), ("d8", 120, 10), ("d16", 32_760, 20), ("d16", 0, run.pick(0, 32_800))] {
        if n == 0 { continue }
        drive(run, "small dictionaries", 2, 1, true, |i| {
            let ev = |k: usize| if i == 0 { Op::Track(Track { props: pr(&[(p, text(&format!("s{k}")))]), ..tr(Some("u"), None) }) } else { id("company", "c", &[(p, text(&format!("s{k}")))]) };
            let mut v: Vec<Op> = if fill > 0 { vec![ev(0), Op::Fill(if i == 0 { None } else { Some(1) }, p, fill)] } else { vec![] };
            v.extend((0..n).map(ev));
            v.push(ev(0)); v.push(ev(n - 1));
            v
        });
    }
}

pub fn identity(run: &Arc<Run>) {
    run.assume(STORE);
    let mut ops: Vec<Op> = vec![];
    for (u, a) in [(Some("1"), None), (Some("2"), None), (None, Some("1")), (None, Some("x")), (Some("1"), Some("1")), (Some("1"), Some("x")), (Some("2"), Some("x")), (Some("2"), Some("1"))] { ops.push(Op::Track(tr(u, a))); }
    ops.push(id("user", "1", &[("age", int(3))]));
    ops.push(id("company", "1", &[]));
    ops.push(Op::Track(Track { groups: gr(&[("company", "1")]), ..tr(Some("1"), None) }));
    ops.push(Op::Track(Track { groups: gr(&[("company", "2"), ("team", "1")]), ..tr(None, Some("x")) }));
    sequences(run, "identity", &ops, run.pick(21_000, 300_000), 4);
}

pub fn sessions(run: &Arc<Run>) {
    run.assume(STORE);
    let utm = |p: &[(&str, &str)]| p.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>();
    let all = [("source", "s1"), ("medium", "m"), ("campaign", "c"), ("term", "t"), ("content", "c")];
    let ops = vec![
        Op::Track(Track { time: Some(("2020-01-01T00:00:00Z".into(), 1_577_836_800_000)), ..tr(Some("u1"), None) }),
        Op::Track(Track { event: "View".into(), utm: utm(&all), groups: gr(&[("company", "c1")]), props: pr(&[("p", int(1))]), ip: Some("10.0.0.1".into()), ..tr(Some("u1"), None) }),
        Op::Track(Track { utm: utm(&all[..1]), ..tr(Some("u2"), None) }),
        Op::Track(Track { utm: utm(&[all[0], all[3]]), props: pr(&[("q", text("x"))]), ..tr(None, Some("a1")) }),
        Op::Track(tr(Some("u1"), Some("a1"))),
        Op::End,
        // refused when it is the first or when p is a number
        Op::Track(Track { props: pr(&[("p", int(1)), ("i", lit("null", None))]), ..tr(Some("u2"), None) }),
        Op::Track(Track { props: pr(&[("p", text("x"))]), ..tr(Some("u2"), None) }),
    ];
    sequences(run, "sessions", &ops, run.pick(5_000, 270_000), 4);
    // what a campaign says: any of its parts, any text
    let texts = ["t", "", " t ", "T\u{fc}r \"%", "2020-01-01T00:00:00Z", "5"];
    let mut jobs = vec![];
    for which in 0..16u32 { for k in 0..texts.len() {
        let parts: Vec<(&str, &str)> = all.iter().enumerate().filter(|(i, _)| *i == 0 || which & (1 << (i - 1)) != 0).map(|(i, (f, _))| (*f, texts[(k * (1 + i)) % texts.len()])).collect();
        jobs.push(vec![Op::Track(Track { utm: utm(&parts), ..tr(Some("u1"), None) }), Op::End, Op::Track(Track { utm: utm(&parts[..1]), ..tr(Some("u1"), None) })]);
    } }
    drive(run, "campaigns", jobs.len(), 4, false, |i| jobs[i].clone());
}

pub fn profiles(run: &Arc<Run>) {
    run.assume(STORE);
    let ops = vec![
        id("user", "u1", &[("a", int(1))]), id("user", "u1", &[("a", int(2)), ("b", text("s"))]), Op::Identify(Identify { group: "user".into(), id: "u1".into(), ..Default::default() }),
        id("company", "c1", &[("plan", text("x")), ("on", boolean(true))]), id("company", "c1", &[("plan", text("y")), ("since", time("2020-01-01T00:00:00Z", 1_577_836_800_000))]), id("company", "c2", &[("plan", text("x"))]), id("team", "c1", &[("plan", int(7))]),
        Op::Track(Track { groups: gr(&[("company", "c1")]), props: pr(&[("plan", boolean(false))]), ..tr(Some("u1"), None) }),
        Op::Track(Track { groups: gr(&[("company", "c2"), ("team", "c1")]), ..tr(Some("u1"), None) }),
        Op::Track(Track { groups: gr(&[("company", "c1")]), ..tr(None, Some("a1")) }),
        Op::Track(tr(Some("u1"), Some("a1"))),
    ];
    sequences(run, "profiles", &ops, run.pick(15_000, 170_000), 4);
}

pub fn refusals(run: &Arc<Run>) {
    run.assume(STORE);
    let good = vec![
        Op::Track(Track { props: pr(&[("p", int(1))]), ..tr(Some("u1"), None) }),
        Op::Track(Track { groups: gr(&[("company", "c1")]), ..tr(None, Some("a1")) }),
        id("company", "c1", &[("p", text("x"))]),
        Op::Track(tr(Some("fresh"), None)),
    ];
    let b = |w: &str, body: &str| Op::Bad(w.into(), body.into());
    let mut bad = vec![];
    for w in ["track", "identify"] {
        for body in ["", "{", "null", "[]", "{}", "\"x\"", r#"{"context":{}}"#] { bad.push(b(w, body)); }
    }
    for (k, v) in [("event", "1"), ("event", "null"), ("userId", "5"), ("context", "null"), ("timestamp", "\"yesterday\""), ("timestamp", "5"), ("groups", "[]"), ("groups", r#"{"company":1}"#), ("properties", "[]"), ("properties", r#"{"x":null}"#), ("properties", r#"{"x":[]}"#), ("properties", r#"{"x":1e999}"#)] {
        let mut m: std::collections::BTreeMap<&str, &str> = [("event", "\"e\""), ("userId", "\"fresh\""), ("context", "{}")].into();
        m.insert(k, v);
        bad.push(b("track", &format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","))));
    }
    bad.push(b("track", r#"{"event":"e","context":{}}"#));
    bad.push(b("track", r#"{"event":"e","userId":"fresh","context":{"ip":"nowhere"}}"#));
    bad.push(b("track", r#"{"event":"e","userId":"fresh","context":{"campaign":{"medium":"x"}}}"#));
    bad.push(b("nosuchtoken track", r#"{"event":"e","userId":"fresh","context":{}}"#));
    bad.push(b("nosuchtoken identify", r#"{"group":"company","id":"c1","context":{}}"#));
    bad.push(b("nosuch", r#"{}"#));
    bad.push(b("identify", r#"{"group":"company","context":{}}"#));
    bad.push(b("identify", r#"{"group":"company","id":"c1","context":{},"properties":{"p":null}}"#));
    // numbers no column can hold, into properties of their own
    for (i, n) in ["8e13", "-8e13", "1e20", "79228162514264337593543950335", "9223372036854775807"].iter().enumerate() {
        bad.push(Op::Bad("track".into(), format!(r#"{{"event":"e","userId":"fresh","context":{{}},"properties":{{"big{i}":{n}}}}}"#)));
        bad.push(Op::Bad("identify".into(), format!(r#"{{"group":"company","id":"c1","context":{{}},"properties":{{"big{i}":{n}}}}}"#)));
    }
    // the wrong type for a property there is
    bad.push(b("track", &format!(r#"{{"event":"e","userId":"fresh","context":{{}},"properties":{{"{}":5}}}}"#, common::types::EVENT_PROPERTY_HREF)));
    bad.push(b("track", &format!(r#"{{"event":"e","userId":"fresh","context":{{}},"properties":{{"{}":true}}}}"#, common::types::EVENT_PROPERTY_OS)));
    bad.push(b("track", &format!(r#"{{"event":"e","anonymousId":"a1","context":{{}},"properties":{{"{}":"x","ok":5}}}}"#, common::types::EVENT_PROPERTY_SESSION_LENGTH)));
    run.extra("requests to be refused", json!(bad.len()));
    let (n, g) = (bad.len(), good.len());
    // bad good | good bad good | bad bad good good
    drive(run, "refused", n * g + g * n * g + n * n * run.pick(1, g), 4, false, |i| {
        if i < n * g { return vec![bad[i / g].clone(), good[i % g].clone()] }
        let i = i - n * g;
        if i < g * n * g { return vec![good[i / (n * g)].clone(), bad[i / g % n].clone(), good[i % g].clone()] }
        let i = i - g * n * g;
        vec![bad[i % n].clone(), bad[i / n % n].clone(), good[i % g].clone(), good[(i / (n * n) + 3) % g].clone()]
    });
    // more groups than there can be
    let name = |i: usize| format!("g{i}");
    let mut jobs: Vec<Vec<Op>> = vec![];
    for fill in 0..2 { for over in 0..2 { for more in [0, 1, 2] {
        let mut v: Vec<Op> = (1..common::GROUPS_COUNT).map(|i| if fill == 0 { id(&name(i), "x", &[("p", int(i as i64))]) } else { Op::Track(Track { groups: gr(&[(name(i).as_str(), "x")]), ..tr(Some("u1"), None) }) }).collect();
        for _ in 0..=more { v.push(if over == 0 { id("one too many", "x", &[]) } else { Op::Track(Track { groups: gr(&[("one too many", "x")]), ..tr(Some("fresh"), None) }) }); }
        v.push(Op::Track(Track { groups: gr(&[("g1", "x"), ("g4", "x")]), ..tr(Some("fresh"), None) }));
        v.push(id("g4", "x", &[("q", boolean(true))]));
        jobs.push(v);
    } } }
    drive(run, "groups beyond the limit", jobs.len(), 4, false, |i| jobs[i].clone());
}

/// I06: what the schema says an event has is what it was tracked with.
pub fn definitions(run: &Arc<Run>) {
    run.assume(STORE);
    const OPS: usize = 12;
    let depth = if run.thorough() { 5 } else { 4 };
    run.phase("histories");
    let total = mc::pow(OPS, depth);
    let chunk = 60;
    mc::par(total.div_ceil(chunk), |c| {
        let mut env = Env::new();
        for i in c * chunk..((c + 1) * chunk).min(total) {
            let seq = mc::seq_of(i, OPS, depth);
            run.states(1);
            run.case(|| format!("definitions {seq:?}"), || {
                let ps = [env.project(false), env.project(false)];
                // of each project: properties of events, the type of each property
                let mut want: [BTreeMap<&str, BTreeSet<&str>>; 2] = Default::default();
                // of a refused event the name and the properties may be known
                let mut maybe: [BTreeMap<&str, BTreeSet<&str>>; 2] = Default::default();
                let mut types: [BTreeMap<&str, char>; 2] = Default::default();
                let mut did = vec![];
                let first: Vec<usize> = ps.iter().map(|p| env.md.event_properties.list(p.0).unwrap().data.len()).collect();
                for op in &seq {
                    run.transitions(1);
                    // project, event, properties with the letters of their types
                    let (p, e, l): (usize, &str, &[(&str, char)]) = match op {
                        0 => (0, "a", &[("p", 's')]), 1 => (0, "a", &[("q", 's')]), 2 => (0, "a", &[("p", 's'), ("q", 's')]),
                        3 => (0, "a", &[("r", 'n'), ("p", 's'), ("s", 'b')]), 4 => (0, "b", &[("p", 's'), ("r", 'n')]), 5 => (0, "b", &[]),
                        6 => (1, "a", &[("r", 's')]), 7 => (0, "a", &[("q", 'n')]), 8 => (0, "Page", &[("p", 's'), ("s", 'n')]),
                        9 => (1, "a", &[("p", 'b'), ("q", 's')]),
                        10 => {
                            // a property of an event is taken off by hand
                            did.push("detached p from a".to_string());
                            let Ok(ev) = env.md.events.get_by_name(ps[0].0, "a") else { continue };
                            let Ok(p) = env.md.event_properties.get_by_name(ps[0].0, "p") else { continue };
                            let has = want[0].get_mut("a").is_some_and(|s| s.remove("p"));
                            let may = maybe[0].get_mut("a").is_some_and(|s| s.remove("p"));
                            let is = env.md.events.detach_event_property(ps[0].0, ev.id, p.id).is_ok();
                            if is != has && !(is && may) { return Err(json!({"history": did, "had": has})) }
                            continue
                        }
                        _ => (0, "A", &[("P", 's')]),
                    };
                    let j = json!({"event": e, "userId": "u", "context": {}, "properties": l.iter().map(|(n, t)| (n.to_string(), match t { 's' => json!("x"), 'n' => json!(1.5), _ => json!(true) })).collect::<serde_json::Map<_, _>>()});
                    did.push(format!("project {p}: {j}"));
                    let fits = l.iter().all(|(n, t)| types[p].get(n).is_none_or(|x| x == t));
                    let out = env.post(&ps[p].1, "track", &j.to_string());
                    if out.ok() != fits { return Err(json!({"history": did, "answer": format!("{out:?}"), "accepted must be": fits})) }
                    for (n, t) in l { types[p].entry(n).or_insert(*t); }
                    if fits { want[p].entry(e).or_default().extend(l.iter().map(|x| x.0)); } else { maybe[p].entry(e).or_default().extend(l.iter().map(|x| x.0)); }
                }
                if i % chunk == chunk - 1 { run.sample(json!(did)); }
                for p in 0..2 {
                    let props = env.md.event_properties.list(ps[p].0).unwrap().data;
                    let name = |id: u64| props.iter().find(|x| x.id == id).map(|x| x.name.clone()).unwrap_or(format!("no property {id}"));
                    if props.len() != first[p] + types[p].len() { return Err(json!({"history": did, "properties": props.len() - first[p], "must be": types[p].len()})) }
                    for (n, t) in &types[p] {
                        let Ok(x) = env.md.event_properties.get_by_name(ps[p].0, n) else { return Err(json!({"history": did, "missing": n})) };
                        let is = match x.data_type { DType::String => 's', DType::Decimal => 'n', DType::Boolean => 'b', _ => '?' };
                        if is != *t || x.is_dictionary != (is == 's') { return Err(json!({"history": did, "property": n, "is": format!("{x:?}"), "must be": t.to_string()})) }
                    }
                    let all: Vec<String> = env.md.events.list(ps[p].0).unwrap().data.into_iter().map(|e| e.name).collect();
                    for n in &all { if all.iter().filter(|x| *x == n).count() > 1 { return Err(json!({"history": did, "twice": n})) } }
                    for (e, l) in &want[p] {
                        let Ok(ev) = env.md.events.get_by_name(ps[p].0, e) else { return Err(json!({"history": did, "missing": e})) };
                        let mut is: Vec<String> = ev.event_properties.unwrap_or_default().into_iter().map(name).collect();
                        is.sort();
                        let must: Vec<String> = l.iter().map(|x| x.to_string()).collect();
                        run.validated(1);
                        let more = maybe[p].get(e).cloned().unwrap_or_default();
                        let twice = is.windows(2).any(|w| w[0] == w[1]);
                        if twice || !must.iter().all(|x| is.contains(x)) || !is.iter().all(|x| must.contains(x) || more.contains(x.as_str())) { return Err(json!({"history": did, "event": e, "is": is, "must be": must})) }
                    }
                }
                Ok(())
            });
            if i % 20 == 19 { env = env.reopen(); }
        }
    });
}

/// I07: where and with what an event was sent.
pub fn transformers(run: &Arc<Run>) {
    use ingester::transformers::{geo::track::Geo, user_agent::track::UserAgent};
    run.assume(STORE);
    run.assume("the parser of user agents and the database of places are stand-ins behind the interfaces of uaparser and maxminddb");
    // what the parser makes of it is part of the oracle
    const AGENTS: [Option<&str>; 6] = [None, Some("Firefox/1.2.3; iPhone Apple X; iOS/14.1.2.3"), Some("Chrome/9; ; Linux/5.4"), Some(""), Some("Ä b; d e; W/10"), Some("Safari/3.0.1; Mac Apple; macOS/11.0.2")];
    const PLACES: [(Option<&str>, Option<(Option<&str>, Option<&str>)>); 6] = [
        (None, Some((Some("Home"), Some("Loop")))), (Some("1.2.3.4"), Some((Some("Germany"), Some("Berlin")))), (Some("1.2.3.5"), Some((Some("France"), None))),
        (Some("2001:db8::1"), Some((None, Some("Paris")))), (Some("9.9.9.9"), None), (Some("1.2.3.6"), Some((None, None))),
    ];
    let own: [serde_json::Value; 5] = [json!(null), json!({"p": "x"}), json!({"OS": "mine", "City": "mine too", "p": "y"}), json!({"Country": 7}), json!({"Client Family": "Firefox", "n": 2})];
    let owns = own.len();
    let reqs = AGENTS.len() * PLACES.len() * owns;
    let geo = |env: &Env| Geo::try_new(env.md.event_properties.clone(), maxminddb::Reader::stand_in(PLACES.iter().filter_map(|(a, p)| p.map(|(c, t)| (a.unwrap_or("127.0.0.9").parse().unwrap(), (c.map(|x| x.to_string()), t.map(|x| x.to_string()))))).collect())).unwrap();
    let ua = |env: &Env| UserAgent::try_new(env.md.event_properties.clone(), uaparser::UserAgentParser::stand_in()).unwrap();
    // 0: as the server has it
    let set = |env: &mut Env, how: usize| {
        let l: Vec<Arc<dyn ingester::Transformer<ingester::Track>>> = match how { 0 => vec![Arc::new(ua(env)), Arc::new(geo(env))], 1 => vec![Arc::new(geo(env)), Arc::new(ua(env))], 2 => vec![Arc::new(ua(env))], _ => vec![Arc::new(geo(env))] };
        env.app = app_with(&env.opti, &env.md, l);
    };
    let derived = |a: Option<&str>, p: Option<(Option<&str>, Option<&str>)>, how: usize| -> BTreeMap<&'static str, String> {
        let mut m = BTreeMap::new();
        if how != 3 { if let Some(a) = a {
            use uaparser::Parser;
            let c = uaparser::UserAgentParser::stand_in().parse(a);
            let mut add = |n: &'static str, v: Option<String>| if let Some(v) = v { m.insert(n, v); };
            let s = |v: &Option<std::borrow::Cow<str>>| v.as_ref().map(|x| x.to_string());
            add(EVENT_PROPERTY_CLIENT_FAMILY, Some(c.user_agent.family.to_string()));
            add(EVENT_PROPERTY_CLIENT_VERSION_MAJOR, s(&c.user_agent.major)); add(EVENT_PROPERTY_CLIENT_VERSION_MINOR, s(&c.user_agent.minor)); add(EVENT_PROPERTY_CLIENT_VERSION_PATCH, s(&c.user_agent.patch));
            add(EVENT_PROPERTY_DEVICE_FAMILY, Some(c.device.family.to_string())); add(EVENT_PROPERTY_DEVICE_BRAND, s(&c.device.brand)); add(EVENT_PROPERTY_DEVICE_MODEL, s(&c.device.model));
            add(EVENT_PROPERTY_OS, Some(c.os.family.to_string()));
            let version: Vec<String> = [&c.os.major, &c.os.minor, &c.os.patch, &c.os.patch_minor].into_iter().map_while(|x| s(x)).collect();
            add(EVENT_PROPERTY_OS_FAMILY, Some(if version.is_empty() { c.os.family.to_string() } else { format!("{} {}", c.os.family, version.join(".")) }));
            add(EVENT_PROPERTY_OS_VERSION_MAJOR, s(&c.os.major)); add(EVENT_PROPERTY_OS_VERSION_MINOR, s(&c.os.minor)); add(EVENT_PROPERTY_OS_VERSION_PATCH, s(&c.os.patch)); add(EVENT_PROPERTY_OS_VERSION_PATCH_MINOR, s(&c.os.patch_minor));
        } }
        if how != 2 { if let Some((c, t)) = p { if let Some(c) = c { m.insert(EVENT_PROPERTY_COUNTRY, c.to_string()); } if let Some(t) = t { m.insert(EVENT_PROPERTY_CITY, t.to_string()); } } }
        m
    };
    // a history: how, then requests
    let mut all: Vec<(usize, Vec<usize>)> = vec![];
    for how in 0..4 { for a in 0..reqs { all.push((how, vec![a])); } }
    for a in 0..reqs { for b in 0..reqs { if run.thorough() || (a + b) % 4 == 0 { all.push((0, vec![a, b])); } } }
    run.phase("requests");
    let chunk = 40;
    mc::par(all.len().div_ceil(chunk), |c| {
        let mut env = Env::new();
        let mut is = 9;
        for (how, seq) in &all[c * chunk..((c + 1) * chunk).min(all.len())] {
            if is != *how { set(&mut env, *how); is = *how; }
            run.states(1);
            run.case(|| format!("transformers {how} {seq:?}"), || {
                let (pid, token) = env.project(false);
                let mut want: Vec<(String, Option<String>, i64, Props)> = vec![];
                let mut did = vec![];
                for (n, r) in seq.iter().enumerate() {
                    run.transitions(1);
                    let (a, p, o) = (AGENTS[r % AGENTS.len()], PLACES[r / AGENTS.len() % PLACES.len()], &own[r / AGENTS.len() / PLACES.len()]);
                    let t = 1_700_000_000_000 + n as i64;
                    let mut j = json!({"event": "e", "userId": "u", "timestamp": chrono::DateTime::from_timestamp_millis(t).unwrap().to_rfc3339(), "context": {}});
                    if let Some(a) = a { j["context"]["userAgent"] = json!(a); }
                    if let Some(ip) = p.0 { j["context"]["ip"] = json!(ip); }
                    if !o.is_null() { j["properties"] = o.clone(); }
                    did.push(j.clone());
                    let fits = o.get("Country").is_none();
                    let out = env.post(&token, "track", &j.to_string());
                    if out.ok() != fits { return Err(json!({"sent": did, "answer": format!("{out:?}"), "accepted must be": fits})) }
                    if !fits { continue }
                    let mut props: Props = derived(a, p.1, *how).into_iter().map(|(n, v)| (n.to_string(), Val::S(v))).collect();
                    for (n, v) in o.as_object().into_iter().flatten() { props.insert(n.clone(), match v { serde_json::Value::String(s) => Val::S(s.clone()), v => Val::N(v.as_i64().unwrap() as i128 * 10i128.pow(DECIMAL_SCALE as u32)) }); }
                    if want.is_empty() { want.push((EVENT_SESSION_BEGIN.to_string(), Some(p.0.unwrap_or("127.0.0.9").to_string()), t, props.clone())); }
                    want.push(("e".to_string(), None, t, props));
                }
                let got: Vec<(String, Option<String>, i64, Props)> = env.events(pid).map_err(|e| json!({"sent": did, "stored": e}))?.into_iter().map(|e| (e.event, e.ip, e.time, e.props)).collect();
                run.validated(1);
                if run.wants_sample() { run.sample(json!({"sent": did, "stored": format!("{got:?}")})); }
                if got != want { return Err(json!({"sent": did, "stored": format!("{got:?}"), "must be": format!("{want:?}")})) }
                Ok(())
            });
        }
    });
}
