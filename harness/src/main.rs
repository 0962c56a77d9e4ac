mod ast;
mod val;
mod vparse;
mod vsim;
mod wave;

use serde_json::{Value, json};
use spade::{CompilationGoal, ModuleNamespace, Opt};
use spade_codespan_reporting::term::termcolor::Buffer;
use spade_common::name::Path as SpadePath;
use spade_diagnostics::DiagHandler;
use spade_diagnostics::emitter::CodespanEmitter;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::AssertUnwindSafe;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use val::V;

fn spath(s: &str) -> SpadePath {
    if s.is_empty() {
        SpadePath(vec![])
    } else {
        SpadePath::from_strs(&s.split("::").collect::<Vec<_>>())
    }
}

struct Compiled {
    ok: bool,
    panic: Option<String>,
    diags: String,
    sv: Option<String>,
    mir: Option<String>,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

fn compile(job: &Value, dir: &std::path::Path) -> Compiled {
    let mut sources = vec![];
    match &job["src"] {
        Value::String(s) => sources.push((
            ModuleNamespace { namespace: spath(""), base_namespace: spath(""), file: "main.spade".into(), working_dir: None },
            "main.spade".to_string(),
            s.clone(),
        )),
        Value::Array(a) => {
            for f in a {
                let file = f["file"].as_str().unwrap_or("main.spade").to_string();
                sources.push((
                    ModuleNamespace {
                        namespace: spath(f["ns"].as_str().unwrap_or("")),
                        base_namespace: spath(f["base"].as_str().unwrap_or("")),
                        file: file.clone(),
                        working_dir: None,
                    },
                    file,
                    f["src"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
        _ => {}
    }
    let stdlib = job["stdlib"].as_bool().unwrap_or(false);
    let passes: Vec<String> = job["passes"].as_array().map(|a| a.iter().map(|p| p.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let sv = dir.join("out.sv");
    let mir = dir.join("out.mir");
    let _ = std::fs::remove_file(&sv);
    let _ = std::fs::remove_file(&mir);
    let state = dir.join("out.state");
    let _ = std::fs::remove_file(&state);
    let want_state = !job["wave"].is_null() || !job["bench"].is_null();
    let want_mir = job["mir"].as_bool().unwrap_or(false);
    let mut buffer = Buffer::no_color();
    let res = std::panic::catch_unwind(AssertUnwindSafe(|| {
        let opts = Opt {
            error_buffer: &mut buffer,
            outfile: Some(sv.clone()),
            mir_output: if want_mir { Some(mir.clone()) } else { None },
            verilator_wrapper_output: None,
            state_dump_file: if want_state { Some(state.clone()) } else { None },
            item_list_file: None,
            print_parse_traceback: None,
            opt_passes: passes,
        };
        spade::compile(sources, CompilationGoal::Codegen, stdlib, opts, DiagHandler::new(Box::new(CodespanEmitter))).is_ok()
    }));
    let diags = String::from_utf8_lossy(buffer.as_slice()).to_string();
    match res {
        Ok(ok) => Compiled {
            ok,
            panic: None,
            diags,
            sv: std::fs::read_to_string(&sv).ok(),
            mir: if want_mir { std::fs::read_to_string(&mir).ok() } else { None },
        },
        Err(_) => {
            let mut msg = LAST_PANIC.with(|p| p.borrow().clone());
            if msg.is_empty() {
                msg = ANY_PANIC.lock().unwrap().clone();
            }
            Compiled { ok: false, panic: Some(msg), diags, sv: None, mir: None }
        }
    }
}

/// "12", "-3", "0b01xz"
fn parse_val(v: &Value, w: usize) -> Result<V, String> {
    match v {
        Value::Number(n) => {
            let s = n.to_string();
            let b: num_bigint::BigInt = s.parse().map_err(|_| format!("bad value {s}"))?;
            Ok(V::from_bigi(w, &b))
        }
        Value::Bool(b) => Ok(V::from_u64(w, *b as u64)),
        Value::String(s) => {
            if let Some(b) = s.strip_prefix("0b") {
                let v = V::from_bits(b);
                if v.w != w {
                    return Err(format!("value {s} for width {w}"));
                }
                Ok(v)
            } else {
                let b: num_bigint::BigInt = s.parse().map_err(|_| format!("bad value {s}"))?;
                Ok(V::from_bigi(w, &b))
            }
        }
        _ => Err("bad value".into()),
    }
}

/// sim: {top, clocks?: [names set to 0 first], steps: [{set: {port: v}, tick: [ports]}], watch: [signals]}
/// per step: apply `set`, settle, sample `watch`, then raise the `tick` clocks together, settle, lower them, settle
fn run_sim(mods: &HashMap<String, &vparse::Module>, spec: &Value) -> Value {
    let top = spec["top"].as_str().unwrap_or("");
    let mut sim = match vsim::Sim::new(mods, top) {
        Ok(s) => s,
        Err(e) => return json!({"err": e}),
    };
    let mut widths = HashMap::new();
    for (n, d, w) in &sim.ports {
        widths.insert(n.clone(), (*d, *w));
    }
    let ports: Vec<Value> = sim
        .ports
        .iter()
        .map(|(n, d, w)| json!([n, match d { vparse::Dir::In => "in", vparse::Dir::Out => "out", _ => "inout" }, w]))
        .collect();
    let watch: Vec<String> = match spec["watch"].as_array() {
        Some(a) => a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect(),
        None => sim.ports.iter().filter(|p| p.1 == vparse::Dir::Out).map(|p| p.0.clone()).collect(),
    };
    let mut out = vec![];
    let mut fired_row: Vec<Value> = vec![];
    let mut rng = spec["meta"].as_u64().unwrap_or(0); // nonzero: coinciding edges have no order
    let mut go = || -> Result<(), String> {
        if let Some(a) = spec["zero"].as_array() {
            for c in a {
                let n = c.as_str().unwrap_or("");
                let w = widths.get(n).map(|x| x.1).unwrap_or(1);
                sim.set(n, V::zero(w))?;
            }
            sim.settle()?;
        }
        let empty = vec![];
        for st in spec["steps"].as_array().unwrap_or(&empty) {
            if let Some(o) = st["set"].as_object() {
                for (k, v) in o {
                    let w = widths.get(k).ok_or_else(|| format!("no port {k}"))?.1;
                    sim.set(k, parse_val(v, w)?)?;
                }
                sim.settle()?;
            }
            let fired = sim.check_asserts();
            if st["nosample"].as_bool() != Some(true) {
                let mut row = vec![];
                for wname in &watch {
                    row.push(match sim.get(wname) {
                        Ok(v) => Value::String(v.to_bits()),
                        Err(_) if spec["opt"].as_u64() == Some(1) => Value::Null,
                        Err(e) => return Err(e),
                    });
                }
                out.push(Value::Array(row));
                fired_row.push(json!(fired));
            }
            if let Some(t) = st["tick"].as_array() {
                if rng != 0 && t.len() > 1 {
                    let t: Vec<String> = t.iter().map(|c| c.as_str().unwrap_or("").to_string()).collect();
                    sim.tick_unordered(&t, &mut rng)?;
                } else {
                    for c in t {
                        sim.set(c.as_str().unwrap_or(""), V::bit(true))?;
                    }
                    sim.settle()?;
                }
                for c in t {
                    sim.set(c.as_str().unwrap_or(""), V::bit(false))?;
                }
                sim.settle()?;
            }
        }
        Ok(())
    };
    let r = go();
    let af = sim.assert_failures;
    match r {
        Ok(()) => json!({"out": out, "watch": watch, "asserts": af, "as": fired_row, "ports": if spec["ports"].as_bool() == Some(true) { Value::Array(ports) } else { Value::Null }}),
        Err(e) => json!({"err": e, "out": out, "watch": watch}),
    }
}

fn run_job(job: &Value, dir: &std::path::Path) -> Value {
    let mut res = serde_json::Map::new();
    res.insert("id".into(), job["id"].clone());
    let sv = if let Some(s) = job["sv"].as_str() {
        Some(s.to_string())
    } else {
        LAST_PANIC.with(|p| p.borrow_mut().clear());
        let c = compile(job, dir);
        res.insert("ok".into(), json!(c.ok));
        if let Some(p) = &c.panic {
            res.insert("panic".into(), json!(p));
        }
        if !c.diags.is_empty() {
            res.insert("diags".into(), json!(c.diags));
        }
        if let Some(m) = c.mir {
            res.insert("mir".into(), json!(m));
        }
        res.insert("wrote".into(), json!(c.sv.is_some()));
        c.sv
    };
    let Some(sv) = sv else { return Value::Object(res) };
    if job["emit"].as_bool() == Some(true) {
        res.insert("sv".into(), json!(sv));
    }
    let need = job["sims"].is_array() || job["ast"].as_bool() == Some(true);
    if need {
        match vparse::parse(&sv) {
            Err(e) => {
                res.insert("verr".into(), json!(e));
            }
            Ok(mods) => {
                if job["ast"].as_bool() == Some(true) {
                    res.insert("ast".into(), json!(mods.iter().map(ast::module).collect::<Vec<_>>()));
                }
                let map: HashMap<String, &vparse::Module> = mods.iter().map(|m| (m.name.clone(), m)).collect();
                if let Some(a) = job["sims"].as_array() {
                    let outs: Vec<Value> = a.iter().map(|s| run_sim(&map, s)).collect();
                    res.insert("sims".into(), json!(outs));
                }
                if job["modules"].as_bool() == Some(true) {
                    let l: Vec<Value> = mods.iter().map(|m| json!(m.name)).collect();
                    res.insert("modules".into(), json!(l));
                }
            }
        }
    }
    if !job["wave"].is_null() {
        res.insert("wave".into(), wave::wave(&job["wave"], &std::fs::read(dir.join("out.state")).unwrap_or_default()));
    }
    if !job["bench"].is_null() {
        res.insert("bench".into(), wave::bench(&job["bench"], &dir.join("out.state")));
    }
    Value::Object(res)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let threads: usize = std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}");
        LAST_PANIC.with(|p| *p.borrow_mut() = s.clone());
        *ANY_PANIC.lock().unwrap() = s;
    }));
    let (inp, outp) = (&args[1], &args[2]);
    let f = std::io::BufReader::new(std::fs::File::open(inp).expect("input"));
    let lines: Vec<String> = f.lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect();
    let results: Vec<Mutex<String>> = lines.iter().map(|_| Mutex::new(String::new())).collect();
    let next = AtomicUsize::new(0);
    let base = std::env::var("VH_TMP").map(std::path::PathBuf::from).unwrap_or(std::env::temp_dir()).join(format!("vh.{}", std::process::id()));
    std::thread::scope(|s| {
        for t in 0..threads {
            let dir = base.join(t.to_string());
            let (lines, results, next) = (&lines, &results, &next);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    std::fs::create_dir_all(&dir).expect("scratch");
                    // every worker compiles on its own rayon pool of one thread unless told otherwise
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).stack_size(64 << 20).build().unwrap();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= lines.len() {
                            break;
                        }
                        let job: Value = serde_json::from_str(&lines[i]).expect("job json");
                        let r = match job["pool"].as_u64() {
                            Some(n) => {
                                let p = rayon::ThreadPoolBuilder::new().num_threads(n as usize).stack_size(64 << 20).build().unwrap();
                                p.install(|| run_job(&job, &dir))
                            }
                            None => pool.install(|| run_job(&job, &dir)),
                        };
                        *results[i].lock().unwrap() = r.to_string();
                    }
                })
                .unwrap();
        }
    });
    let _ = std::fs::remove_dir_all(&base);
    let mut o = std::io::BufWriter::new(std::fs::File::create(outp).expect("output"));
    for r in &results {
        writeln!(o, "{}", r.lock().unwrap()).unwrap();
    }
}
