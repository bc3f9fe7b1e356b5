//! M01, M02: every kind of entity against one reference model of a keyed store.
use crate::env::Env;
use crate::kinds::{self, f, Kind, F, R};
use mc::Run;
use metadata::error::MetadataError;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Op { Create(u64, F), GetOrCreate(u64, F), Update(u64, u64, F), Delete(u64, u64) }

#[derive(Clone, Default)]
pub struct Model { pub ents: BTreeMap<u64, BTreeMap<u64, F>>, used: BTreeMap<u64, BTreeSet<u64>> }
/// what the model expects of an operation
#[derive(Debug, PartialEq)]
enum Expect { New(u64, F), Same(u64, u64), Updated(u64, u64, F), Deleted(u64, u64), Exists, Missing }

impl Model {
    fn clash(&self, k: &dyn Kind, scope: u64, ent: &F, me: Option<u64>) -> bool {
        self.ents.get(&scope).map(|m| m.iter().any(|(id, e)| Some(*id) != me && k.unique().iter().any(|u| !ent[*u].is_null() && e[*u] == ent[*u]))).unwrap_or(false)
    }
    fn expect(&self, k: &dyn Kind, op: &Op) -> Expect {
        match op {
            Op::GetOrCreate(s, r) | Op::Create(s, r) => {
                if let Op::GetOrCreate(..) = op {
                    if let Some(m) = self.ents.get(s) { if let Some((id, _)) = m.iter().find(|(_, e)| e["name"] == r["name"]) { return Expect::Same(*s, *id); } }
                }
                if self.clash(k, *s, r, None) { return Expect::Exists; }
                let mut e = r.clone();
                e.extend(f(json!({"created_at": "now", "updated_at": null, "updated_by": null})));
                Expect::New(*s, e)
            }
            Op::Update(s, id, r) => match self.ents.get(s).and_then(|m| m.get(id)) {
                None => Expect::Missing,
                Some(e) => {
                    let mut e = e.clone();
                    e.extend(r.clone());
                    e.insert("updated_at".into(), json!("now"));
                    if self.clash(k, *s, &e, Some(*id)) { Expect::Exists } else { Expect::Updated(*s, *id, e) }
                }
            },
            Op::Delete(s, id) => if self.ents.get(s).and_then(|m| m.get(id)).is_some() { Expect::Deleted(*s, *id) } else { Expect::Missing },
        }
    }
    /// applies the operation to the model, comparing the result
    pub fn step(&mut self, k: &dyn Kind, op: &Op, got: &R) -> Result<(), Value> {
        let bad = |what: String| Err(json!({"operation": format!("{op:?}"), "problem": what, "got": format!("{got:?}")}));
        match (self.expect(k, op), got) {
            (Expect::Exists, Err(MetadataError::AlreadyExists(_))) | (Expect::Missing, Err(MetadataError::NotFound(_))) => Ok(()),
            (Expect::New(s, mut e), Ok(g)) => {
                let Some(id) = g["id"].as_u64() else { return bad("no id".into()) };
                if !self.used.entry(s).or_default().insert(id) { return bad(format!("id {id} was used before")) }
                let x = k.extra(s, id, &e);
                e.extend(x);
                e.insert("id".into(), json!(id));
                if *g != Value::Object(e.clone()) { return bad(format!("not what was asked for: {}", Value::Object(e))) }
                self.ents.entry(s).or_default().insert(id, e);
                Ok(())
            }
            (Expect::Same(s, id), Ok(g)) => if *g == Value::Object(self.ents[&s][&id].clone()) { Ok(()) } else { bad(format!("not the stored one: {:?}", self.ents[&s][&id])) },
            (Expect::Updated(s, id, e), Ok(g)) => {
                if *g != Value::Object(e.clone()) { return bad(format!("not what was asked for: {}", Value::Object(e))) }
                self.ents.get_mut(&s).unwrap().insert(id, e);
                Ok(())
            }
            (Expect::Deleted(s, id), Ok(_)) => { self.ents.get_mut(&s).unwrap().remove(&id); Ok(()) }
            (x, _) => bad(format!("expected {x:?}")),
        }
    }
    /// every lookup and list
    pub fn observe(&self, k: &dyn Kind, env: &Env, max_id: u64, names: &[&str]) -> Result<u64, Value> {
        let none = BTreeMap::new();
        let mut n = 0;
        for s in k.scopes() {
            let m = self.ents.get(&s).unwrap_or(&none);
            let l = k.list(&env.md, s).map_err(|e| json!(format!("list: {e:?}")))?;
            let mut l: Vec<(u64, Value)> = l.into_iter().map(|v| (v["id"].as_u64().unwrap_or(0), v)).collect();
            l.sort_by_key(|x| x.0);
            let want: Vec<(u64, Value)> = m.iter().map(|(i, e)| (*i, Value::Object(e.clone()))).collect();
            if l != want { return Err(json!({"list of scope": s, "got": l, "want": want})); }
            for id in 0..=max_id {
                n += 1;
                let g = k.get(&env.md, s, id);
                let ok = match (&g, m.get(&id)) { (Ok(g), Some(e)) => *g == Value::Object(e.clone()), (Err(MetadataError::NotFound(_)), None) => true, _ => false };
                if !ok { return Err(json!({"get by id": id, "scope": s, "got": format!("{g:?}"), "want": m.get(&id)})); }
            }
            if let Some(by) = k.by() {
                for v in names {
                    n += 1;
                    let g = k.find(&env.md, s, v);
                    let w = m.values().find(|e| e[by] == json!(v));
                    let ok = match (&g, w) { (Ok(g), Some(e)) => *g == Value::Object(e.clone()), (Err(MetadataError::NotFound(_)), None) => true, _ => false };
                    if !ok { return Err(json!({"look up by": by, "value": v, "scope": s, "got": format!("{g:?}"), "want": w})); }
                }
            }
        }
        Ok(n)
    }
}
pub fn apply(k: &dyn Kind, env: &Env, op: &Op) -> R {
    match op {
        Op::Create(s, r) => k.create(&env.md, *s, r),
        Op::GetOrCreate(s, r) => k.get_or_create(&env.md, *s, r).unwrap(),
        Op::Update(s, id, r) => k.update(&env.md, *s, *id, r),
        Op::Delete(s, id) => k.delete(&env.md, *s, *id),
    }
}
/// the default request with some fields changed
pub fn req(k: &dyn Kind, over: Value) -> F {
    let mut r: F = k.fields().into_iter().map(|(n, v)| (n.to_string(), v[0].clone())).collect();
    r.insert("created_by".into(), json!(1));
    for c in k.create_only() { if !r.contains_key(*c) && *c == "is_system" { r.insert((*c).into(), json!(false)); } }
    r.extend(f(over));
    r
}
const POOL: [&str; 2] = ["a", "A"];
fn values(field: &str) -> Vec<Value> {
    match field {
        "display_name" => vec![Value::Null, json!("a")],
        "token" => vec![json!("t1"), json!("t2")],
        _ => POOL.iter().map(|p| json!(p)).collect(),
    }
}
/// the operations of the history exploration
pub fn ops(k: &dyn Kind) -> Vec<Op> {
    let mut v = vec![];
    let uniq: Vec<&str> = if k.unique().is_empty() { vec!["name"] } else { k.unique().to_vec() };
    for (sn, s) in k.scopes().into_iter().enumerate() {
        let mut combos: Vec<F> = vec![F::new()];
        for u in &uniq {
            let mut next = vec![];
            for c in &combos { for x in values(u) { let mut c = c.clone(); c.insert(u.to_string(), x); next.push(c); } }
            combos = next;
        }
        for c in &combos { v.push(Op::Create(s, req(k, Value::Object(c.clone())))); }
        if k.name() == "events" || k.name().ends_with("properties") {
            for c in &combos { if c["display_name"].is_null() || sn == 0 && c["name"] == "a" { v.push(Op::GetOrCreate(s, req(k, Value::Object(c.clone())))); } }
        }
        for id in 1..=2u64 {
            if sn == 0 || id == 1 {
                for u in &uniq {
                    if k.create_only().contains(u) { continue; }
                    for x in values(u) { let mut r = F::new(); r.insert(u.to_string(), x); r.insert("updated_by".into(), json!(2)); v.push(Op::Update(s, id, r)); }
                }
                if sn == 0 && uniq.len() > 1 && !uniq.iter().any(|u| k.create_only().contains(u)) {
                    let mut r = F::new();
                    for u in &uniq { r.insert(u.to_string(), values(u)[1].clone()); }
                    r.insert("updated_by".into(), json!(2));
                    v.push(Op::Update(s, id, r));
                }
                v.push(Op::Delete(s, id));
            }
        }
    }
    v
}
pub fn histories(run: &Run) {
    run.assume("the key-value store is the in-memory stand-in for RocksDB's TransactionDB (DESIGN.md)");
    let mut per = serde_json::Map::new();
    for k in kinds::all() {
        let k = k.as_ref();
        let ops = ops(k);
        // as deep as a budget of sequences allows
        let budget: usize = run.pick(400_000, 8_000_000);
        let mut depth = 1;
        while mc::pow(ops.len(), depth + 1) <= budget { depth += 1; }
        run.phase(&format!("{} operations={} depth={depth}", k.name(), ops.len()));
        per.insert(k.name().into(), json!({"operations": ops.len(), "depth": depth}));
        for len in 1..=depth {
            let total = mc::pow(ops.len(), len);
            let chunk = (total / 512).max(1);
            mc::par(total.div_ceil(chunk), |c| {
                let base = { let e = Env::new(); k.prepare(&e.md); e.db.dump() };
                for i in c * chunk..((c + 1) * chunk).min(total) {
                    let seq: Vec<&Op> = mc::seq_of(i, ops.len(), len).into_iter().map(|x| &ops[x]).collect();
                    run.case(|| format!("{}: {}", k.name(), seq.iter().map(|o| show(o)).collect::<Vec<_>>().join("; ")), || {
                        let env = Env::load(&base);
                        let mut m = Model::default();
                        for op in &seq { let got = apply(k, &env, op); m.step(k, op, &got)?; }
                        run.transitions(len as u64);
                        let names = ["a", "A", "t1", "t2", "e1"];
                        let names: Vec<&str> = names.into_iter().filter(|n| !(k.name() == "custom events" && *n == "e1")).filter(|n| !(k.name() == "events" && *n == "e1")).collect();
                        let n = m.observe(k, &env, len as u64 + 1, &names)?;
                        run.states(1);
                        run.validated(n);
                        // and again after closing and opening
                        if i % 7 == 0 { let env = env.reopen(); m.observe(k, &env, len as u64 + 1, &names)?; }
                        Ok(())
                    });
                }
            });
        }
        if run.wants_sample() { run.sample(json!({"kind": k.name(), "operations": ops.iter().take(6).map(show).collect::<Vec<_>>()})); }
    }
    run.extra("kinds", Value::Object(per));
}
pub fn show(o: &Op) -> String {
    let u = |r: &F| ["name", "display_name", "email", "token"].iter().filter_map(|k| r.get(*k).map(|v| format!("{k}={v}"))).collect::<Vec<_>>().join(",");
    match o {
        Op::Create(s, r) => format!("create[{s}]({})", u(r)),
        Op::GetOrCreate(s, r) => format!("get_or_create[{s}]({})", u(r)),
        Op::Update(s, id, r) => format!("update[{s}] {id}({})", u(r)),
        Op::Delete(s, id) => format!("delete[{s}] {id}"),
    }
}

/// M02: every field survives; an update changes what it names and nothing else.
pub fn fields(run: &Run) {
    run.assume("the key-value store is the in-memory stand-in for RocksDB's TransactionDB (DESIGN.md)");
    run.assume("an empty list of tags (or of ids) and no list are the same thing; stored times have a resolution of a second");
    let mut per = serde_json::Map::new();
    for k in kinds::all() {
        let k = k.as_ref();
        let fields = k.fields();
        let s = *k.scopes().last().unwrap();
        run.phase(k.name());
        let base = { let e = Env::new(); k.prepare(&e.md); e.db.dump() };
        // another entity, which must stay as it is
        let mut other = F::new();
        for u in ["name", "email", "token"] { if fields.iter().any(|x| x.0 == u) { other.insert(u.into(), json!("zz")); } }
        let other = req(k, Value::Object(other));
        // requests to create: all pairs of fields with all pairs of values, the rest at the first or at the last value
        let first: F = req(k, json!({}));
        let mut last = first.clone();
        for (n, v) in &fields { last.insert(n.to_string(), v.last().unwrap().clone()); }
        let mut creates: Vec<F> = vec![];
        for b in [&first, &last] {
            for i in 0..fields.len() { for j in i..fields.len() { for a in &fields[i].1 { for c in &fields[j].1 {
                let mut r = b.clone();
                r.insert(fields[i].0.into(), a.clone());
                r.insert(fields[j].0.into(), c.clone());
                if k.name().ends_with("properties") { for sys in [false, true] { let mut r = r.clone(); r.insert("is_system".into(), json!(sys)); creates.push(r); } }
                else { creates.push(r); }
            } } } }
        }
        let mut seen = BTreeSet::new();
        creates.retain(|c| seen.insert(serde_json::to_string(c).unwrap()));
        // updates: every set of fields, each to its 2nd or its last value; every field to every value
        let upd: Vec<&(&str, Vec<Value>)> = fields.iter().filter(|x| !k.create_only().contains(&x.0)).collect();
        let mut updates: Vec<F> = vec![];
        for m in 0..1usize << upd.len() {
            for which in 0..2 {
                let mut r = F::new();
                for (i, (n, v)) in upd.iter().map(|x| (x.0, &x.1)).enumerate() { if m >> i & 1 == 1 { r.insert(n.to_string(), if which == 0 { v[1].clone() } else { v.last().unwrap().clone() }); } }
                r.insert("updated_by".into(), json!(9));
                updates.push(r);
            }
        }
        for (n, v) in upd.iter().map(|x| (x.0, &x.1)) { for x in v { let mut r = F::new(); r.insert(n.to_string(), x.clone()); r.insert("updated_by".into(), json!(u64::MAX)); updates.push(r); } }
        per.insert(k.name().into(), json!({"creations": creates.len(), "updates": updates.len() * 3}));
        let go = |label: &str, seq: Vec<Op>| {
            run.case(|| format!("{} {label}: {}", k.name(), seq.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join("; ")), || {
                let mut env = Env::load(&base);
                let mut m = Model::default();
                for op in &seq {
                    let got = apply(k, &env, op);
                    m.step(k, op, &got)?;
                    m.observe(k, &env, 3, &[])?;
                    run.transitions(1);
                }
                env = env.reopen();
                let n = m.observe(k, &env, 3, &["zz", "a"])?;
                run.states(1);
                run.validated(n);
                Ok(())
            });
        };
        mc::par(creates.len(), |i| go("create", vec![Op::Create(s, other.clone()), Op::Create(s, creates[i].clone())]));
        mc::par(updates.len(), |i| {
            for b in [&first, &last] { go("update", vec![Op::Create(s, other.clone()), Op::Create(s, b.clone()), Op::Update(s, 2, updates[i].clone())]); }
            let one = &updates[(i * 7 + 3) % updates.len()];
            go("two updates", vec![Op::Create(s, last.clone()), Op::Update(s, 1, updates[i].clone()), Op::Update(s, 1, one.clone())]);
        });
        if run.wants_sample() { run.sample(json!({"kind": k.name(), "update": updates[updates.len() / 2]})); }
    }
    run.extra("kinds", Value::Object(per));
}
