//! Waveform translation (spade-compiler's state and vcd-translate) and test bench access (spade-simulation-ext).
use serde_json::{Value, json};
use spade::compiler_state::StoredCompilerState;
use spade_common::location_info::WithLocation;
use spade_simulation_ext::field_ref::FieldRef;
use spade_simulation_ext::{BitString, Spade};
use std::panic::AssertUnwindSafe;
use vcd_translate::translation::{translate_value, value_from_str};

fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, Value> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(json!({"err": e})),
        Err(p) => {
            let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(json!({"panic": s}))
        }
    }
}

/// {top, q: [{path: [..], bits: [..]}]}: the text of values of signals
pub fn wave(spec: &Value, state: &[u8]) -> Value {
    let st = match guard(|| postcard::from_bytes::<StoredCompilerState>(state).map(|s| s.into_compiler_state()).map_err(|e| e.to_string())) {
        Ok(s) => s,
        Err(e) => return e,
    };
    let top = crate::spath(spec["top"].as_str().unwrap_or("")).nowhere();
    let Ok((top, _)) = st.symtab.symtab().lookup_unit(&top, false) else { return json!({"err": "no top"}) };
    let empty = vec![];
    let out: Vec<Value> = spec["q"]
        .as_array()
        .unwrap_or(&empty)
        .iter()
        .map(|q| {
            let path: Vec<String> = q["path"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
            let r = guard(|| {
                let ty = st.type_of_hierarchical_value(&top, &path).map_err(|e| format!("{e}"))?;
                let texts: Vec<Value> = q["bits"]
                    .as_array()
                    .unwrap_or(&empty)
                    .iter()
                    .map(|b| match guard(|| Ok(translate_value(&ty, &value_from_str(b.as_str().unwrap())))) {
                        Ok(s) => json!(s),
                        Err(e) => e,
                    })
                    .collect();
                Ok(json!({ "texts": texts }))
            });
            match r {
                Ok(v) => v,
                Err(e) => e,
            }
        })
        .collect();
    json!(out)
}

fn field(s: &mut Spade, path: &[String]) -> Result<FieldRef, String> {
    let mut f = if path[0] == "o" {
        match s.output_as_field_ref().map_err(|e| format!("{e:?}"))? {
            Some(f) => f,
            None => return Err("no output".into()),
        }
    } else {
        s.arg_as_field(&path[1]).map_err(|e| format!("{e:?}"))?
    };
    for n in &path[if path[0] == "o" { 1 } else { 2 }..] {
        f = s.field_of_field(&mut f, n).map_err(|e| format!("{e:?}"))?;
    }
    Ok(f)
}

fn op(s: &mut Spade, o: &Value) -> Result<Value, String> {
    let path: Vec<String> = o["path"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let expr = o["expr"].as_str().unwrap_or("");
    let bits = BitString(o["bits"].as_str().unwrap_or("").to_string());
    match o["op"].as_str().unwrap() {
        "arg" => {
            let (n, b) = s.arg_value(o["arg"].as_str().unwrap(), expr).map_err(|e| format!("{e:?}"))?;
            Ok(json!({"name": n, "bits": b.0}))
        }
        "set" => {
            let f = field(s, &path)?;
            let (r, _) = f.write_range_and_type().map_err(|e| format!("{e:?}"))?;
            let b = s.compile_field_value(&f, expr).map_err(|e| format!("{e:?}"))?;
            let name = f.source.fwd_mangled();
            Ok(json!({"from": r.from, "to": r.to, "full": r.is_full, "bits": b.0, "name": name}))
        }
        "read" => {
            let f = field(s, &path)?;
            let (r, _) = f.read_range_and_type().map_err(|e| format!("{e:?}"))?;
            Ok(json!({"from": r.from, "to": r.to, "full": r.is_full, "name": f.source.back_mangled()}))
        }
        "cmp" => {
            let f = field(s, &path)?;
            let c = s.compare_field(f, expr, &bits).map_err(|e| format!("{e:?}"))?;
            Ok(json!({"match": c.matches(), "exp": c.expected_bits.0, "got": c.got_bits.0, "text": c.got_spade}))
        }
        "val" => {
            let f = field(s, &path)?;
            Ok(json!({"text": s.field_value(f, &bits).map_err(|e| format!("{e:?}"))?}))
        }
        x => Err(format!("unknown op {x}")),
    }
}

/// {top, groups: [[op]]}: every group is a session of its own
pub fn bench(spec: &Value, file: &std::path::Path) -> Value {
    let empty = vec![];
    let groups: Vec<Value> = spec["groups"]
        .as_array()
        .unwrap_or(&empty)
        .iter()
        .map(|g| {
            let mut s = match guard(|| Spade::new(spec["top"].as_str().unwrap().to_string(), file.to_string_lossy().to_string()).map_err(|e| format!("{e:?}"))) {
                Ok(s) => s,
                Err(e) => return e,
            };
            let res: Vec<Value> = g
                .as_array()
                .unwrap_or(&empty)
                .iter()
                .map(|o| match guard(|| op(&mut s, o)) {
                    Ok(v) => v,
                    Err(e) => e,
                })
                .collect();
            json!(res)
        })
        .collect();
    json!(groups)
}
