use arrow_schema::{DataType, TimeUnit};
use arrow2::datatypes::DataType as D2;
use common::types::{DType, OptionalProperty};
use mc::{guard, Run};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

fn scalars() -> Vec<DType> { use DType::*; vec![String, Int8, Int16, Int32, Int64, Decimal, Boolean, Timestamp] }
fn want1(d: &DType) -> DataType {
    match d {
        DType::String => DataType::Utf8, DType::Int8 => DataType::Int8, DType::Int16 => DataType::Int16, DType::Int32 => DataType::Int32, DType::Int64 => DataType::Int64,
        DType::Decimal => DataType::Decimal128(28, 16), DType::Boolean => DataType::Boolean, DType::Timestamp => DataType::Timestamp(TimeUnit::Millisecond, None),
        DType::List(i) => want1(i),
    }
}
fn want2(d: &DType) -> D2 {
    match d {
        DType::String => D2::Utf8, DType::Int8 => D2::Int8, DType::Int16 => D2::Int16, DType::Int32 => D2::Int32, DType::Int64 => D2::Int64,
        DType::Decimal => D2::Decimal(28, 16), DType::Boolean => D2::Boolean, DType::Timestamp => D2::Timestamp(arrow2::datatypes::TimeUnit::Millisecond, None),
        DType::List(i) => want2(i),
    }
}
/// X01
pub fn columns(run: &Run) {
    let mut all = scalars();
    all.extend(scalars().into_iter().map(|d| DType::List(Box::new(d))));
    let mut names: BTreeMap<String, DType> = BTreeMap::new();
    for d in &all {
        run.states(1); run.transitions(6); run.validated(6);
        let key = |w: &str| format!("{w}:{d:?}");
        let elem = match d { DType::List(i) => (**i).clone(), o => o.clone() };
        run.case(|| key("query column"), || { let g: DataType = d.clone().into(); if g == want1(d) { Ok(()) } else { Err(json!(format!("{g:?}"))) } });
        run.case(|| key("storage column"), || match D2::try_from(d.clone()) { Ok(g) if g == want2(d) => Ok(()), o => Err(json!(format!("{o:?}"))) });
        run.case(|| key("query round trip"), || { let g = DType::from(DataType::from(d.clone())); if g == elem { Ok(()) } else { Err(json!(format!("{g:?}"))) } });
        run.case(|| key("storage round trip"), || match D2::try_from(d.clone()).and_then(DType::try_from) { Ok(g) if g == elem => Ok(()), o => Err(json!(format!("{o:?}"))) });
        // a column read back as a list of the element type
        run.case(|| key("query list"), || { let g = DType::from(DataType::List(std::sync::Arc::new(arrow_schema::Field::new("item", want1(&elem), true)))); if g == elem { Ok(()) } else { Err(json!(format!("{g:?}"))) } });
        run.case(|| key("storage list"), || match DType::try_from(D2::List(Box::new(arrow2::datatypes::Field::new("item", want2(&elem), true)))) { Ok(g) if g == elem => Ok(()), o => Err(json!(format!("{o:?}"))) });
        match guard(|| d.short_name()) {
            Ok(n) => { if n.is_empty() { run.violation(&key("empty short name"), json!({})); } if let Some(o) = names.insert(n.clone(), d.clone()) { run.violation(&key("column prefix clash"), json!({"with": format!("{o:?}"), "prefix": n})); } }
            Err(p) => run.violation(&key("short name"), json!({"panic": p})),
        }
        run.case(|| key("saved type"), || { let s = serde_json::to_string(d).map_err(|e| json!(e.to_string()))?; let g: DType = serde_json::from_str(&s).map_err(|e| json!(e.to_string()))?; let b: DType = bincode::deserialize(&bincode::serialize(d).unwrap()).map_err(|e| json!(e.to_string()))?; if &g == d && &b == d { Ok(()) } else { Err(json!([format!("{g:?}"), format!("{b:?}")])) } });
        run.sample(json!({"type": format!("{d:?}"), "query": format!("{:?}", want1(d))}));
    }
    // timestamps of every unit and decimals of every precision the engines accept read back as the declared type
    for u in [TimeUnit::Second, TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond] {
        for tz in [None, Some("UTC".into())] { run.states(1); run.transitions(1); run.validated(1); run.case(|| format!("timestamp:{u:?}:{tz:?}"), || if DType::from(DataType::Timestamp(u, tz.clone())) == DType::Timestamp { Ok(()) } else { Err(json!("not a timestamp")) }); }
    }
    for p in 1..=38u8 { for s in 0..=p as i8 {
        run.states(1); run.transitions(2); run.validated(2);
        run.case(|| format!("decimal:{p}:{s}"), || if DType::from(DataType::Decimal128(p, s)) == DType::Decimal && matches!(DType::try_from(D2::Decimal(p as usize, s as usize)), Ok(DType::Decimal)) { Ok(()) } else { Err(json!("not a decimal")) });
    } }
    // types with no column representation are refused, not mistaken for another type
    for d in [D2::Null, D2::UInt8, D2::UInt16, D2::UInt32, D2::UInt64, D2::Float32, D2::Float64, D2::Date32, D2::Binary, D2::LargeUtf8, D2::LargeBinary] {
        run.states(1); run.transitions(2); run.validated(2);
        run.case(|| format!("unsupported:{d:?}"), || match DType::try_from(d.clone()) { Err(_) => Ok(()), Ok(o) => Err(json!(format!("{o:?}"))) });
        run.case(|| format!("unsupported list:{d:?}"), || match DType::try_from(D2::List(Box::new(arrow2::datatypes::Field::new("item", d.clone(), true)))) { Err(_) => Ok(()), Ok(o) => Err(json!(format!("{o:?}"))) });
    }
}

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Patch {
    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")] a: OptionalProperty<Option<String>>,
    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")] b: OptionalProperty<String>,
    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")] c: OptionalProperty<Option<Vec<u64>>>,
    #[serde(default, skip_serializing_if = "OptionalProperty::is_none")] d: OptionalProperty<bool>,
}
/// X03: partial updates
pub fn patch(run: &Run) {
    use OptionalProperty as O;
    let sa = [O::None, O::Some(None), O::Some(Some(String::new())), O::Some(Some("x".to_string()))];
    let sb = [O::None, O::Some(String::new()), O::Some("null".to_string())];
    let sc = [O::None, O::Some(None), O::Some(Some(vec![])), O::Some(Some(vec![0, u64::MAX]))];
    let sd = [O::None, O::Some(true), O::Some(false)];
    for a in &sa { for b in &sb { for c in &sc { for d in &sd {
        let p = Patch { a: a.clone(), b: b.clone(), c: c.clone(), d: d.clone() };
        run.states(1); run.transitions(3); run.validated(3);
        run.case(|| format!("patch:{p:?}"), || {
            // the JSON a client sends
            let mut m = serde_json::Map::new();
            if let O::Some(v) = a { m.insert("a".into(), json!(v)); }
            if let O::Some(v) = b { m.insert("b".into(), json!(v)); }
            if let O::Some(v) = c { m.insert("c".into(), json!(v)); }
            if let O::Some(v) = d { m.insert("d".into(), json!(v)); }
            let sent = serde_json::Value::Object(m);
            let got: Patch = serde_json::from_value(sent.clone()).map_err(|e| json!(e.to_string()))?;
            if got != p { return Err(json!({"sent": sent, "understood": format!("{got:?}")})); }
            let text: Patch = serde_json::from_str(&sent.to_string()).map_err(|e| json!(e.to_string()))?;
            if text != p { return Err(json!({"sent": sent, "understood": format!("{text:?}")})); }
            let out = serde_json::to_value(&p).map_err(|e| json!(e.to_string()))?;
            if out != sent { return Err(json!({"sent": sent, "written": out})); }
            Ok(())
        });
        run.sample(json!(format!("{p:?}")));
    } } } }
    // null for a field that cannot be cleared is refused
    for f in ["b", "d"] { run.states(1); run.transitions(1); run.validated(1); run.case(|| format!("null:{f}"), || if serde_json::from_value::<Patch>(json!({f: null})).is_err() { Ok(()) } else { Err(json!("accepted")) }); }
    // conversions keep the three states apart
    for v in [O::None, O::Some(0u8), O::Some(255)] {
        let present = v != O::None;
        run.states(1); run.transitions(5); run.validated(5);
        run.case(|| format!("convert:{v:?}"), || {
            let want = |x: O<u64>| match (&v, x) { (O::None, O::None) => true, (O::Some(a), O::Some(b)) => *a as u64 == b, _ => false };
            if v.is_none() == present { return Err(json!("is_none")); }
            if !want(v.clone().into::<u64>()) { return Err(json!("into")); }
            if !want(v.clone().try_into::<u64>().map_err(|_| json!("try_into"))?) { return Err(json!("try_into")); }
            if !want(v.clone().map(|x| x as u64)) { return Err(json!("map")); }
            let mut w = v.clone(); w.insert(9); if w != O::Some(9) { return Err(json!("insert")); }
            Ok(())
        });
    }
    for v in [O::Some(255u64), O::Some(256), O::None] { run.states(1); run.transitions(1); run.validated(1); run.case(|| format!("narrow:{v:?}"), || match (v.clone().try_into::<u8>(), &v) { (Ok(O::None), O::None) => Ok(()), (Ok(O::Some(255)), O::Some(255)) => Ok(()), (Err(_), O::Some(256)) => Ok(()), o => Err(json!(format!("{o:?}"))) }); }
    if O::<u8>::default() != O::None { run.violation("default", json!({})); }
}
