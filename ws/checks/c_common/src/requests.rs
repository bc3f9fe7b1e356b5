use common::scalar::ScalarValueRef;
use datafusion_common::ScalarValue;
use mc::{guard, par, Run};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::json;
use std::fmt::Debug;

#[serde_with::serde_as]
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct One { #[serde_as(as = "ScalarValueRef")] v: ScalarValue }

fn trip<T: Serialize + DeserializeOwned + PartialEq + Debug + Sync>(run: &Run, kind: &str, items: Vec<T>) {
    run.phase(kind);
    par(items.len().div_ceil(64), |c| {
        let mut n = 0;
        for i in &items[c * 64..((c + 1) * 64).min(items.len())] {
            for enc in ["bincode", "json"] {
                n += 1;
                let key = || format!("{kind}:{enc}:{i:?}");
                let r = guard(|| -> Result<T, String> {
                    if enc == "bincode" { bincode::deserialize(&bincode::serialize(i).map_err(|e| e.to_string())?).map_err(|e| e.to_string()) }
                    else { serde_json::from_slice(&serde_json::to_vec(i).map_err(|e| e.to_string())?).map_err(|e| e.to_string()) }
                });
                match r {
                    Ok(Ok(b)) if &b == i => {}
                    Ok(Ok(b)) => run.violation(&key(), json!({"reloaded": format!("{b:?}")})),
                    Ok(Err(e)) => run.violation(&key(), json!({"error": e})),
                    Err(p) => run.violation(&key(), json!({"panic": p})),
                }
            }
        }
        run.states(n / 2); run.transitions(n); run.validated(n);
    });
    run.sample(json!({"kind": kind, "value": format!("{:?}", items.last().unwrap())}));
    run.extra(kind, json!(items.len()));
}

/// X02: saved definitions reload unchanged.
pub fn saved(run: &Run) {
    trip(run, "filter value", gen::scalars().into_iter().map(|v| One { v }).collect());
    for s in gen::scalars() {
        run.transitions(1);
        match guard(|| ScalarValue::from(ScalarValueRef::from(&s))) {
            Ok(b) if b == s => {}
            o => run.violation(&format!("filter value:convert:{s:?}"), json!({"reloaded": format!("{o:?}")})),
        }
    }
    trip(run, "event segmentation", gen::es_requests());
    trip(run, "funnel", gen::funnels());
    run.assume("finite floating-point values (JSON has no NaN or infinity)");
}
