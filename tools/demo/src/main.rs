//! vdemo out.sv stim.txt: run a module and compare its ports with the expected values.
#![allow(dead_code)]
mod val;
mod vparse;
mod vsim;
use std::collections::HashMap;
use val::V;

fn run() -> Result<bool, String> {
    let a: Vec<String> = std::env::args().collect();
    let sv = std::fs::read_to_string(&a[1]).map_err(|e| e.to_string())?;
    let stim = std::fs::read_to_string(&a[2]).map_err(|e| e.to_string())?;
    let mods = vparse::parse(&vparse::preprocess(&sv, &[])?)?;
    let m: HashMap<String, &vparse::Module> = mods.iter().map(|m| (m.name.clone(), m)).collect();
    let mut sim: Option<vsim::Sim> = None;
    let mut good = true;
    let mut n = 0;
    for l in stim.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() { continue; }
        match w[0] {
            "top" => {
                let mut s = vsim::Sim::new(&m, w[1])?;
                for z in &w[2..] { s.set(z, V::from_bits("0"))?; }
                s.settle()?;
                sim = Some(s);
            }
            "step" => {
                n += 1;
                let s = sim.as_mut().ok_or("no top")?;
                for x in &w[1..] {
                    if let Some((k, v)) = x.split_once('=') { s.set(k, V::from_bits(v))?; }
                }
                s.settle()?;
                for x in &w[1..] {
                    if let Some((k, v)) = x.split_once(':') {
                        let got = s.get(k)?.to_bits();
                        if v != "?" && v.chars().zip(got.chars()).any(|(a, b)| a != '?' && a != 'x' && a != b) {
                            println!("step {n}: {k} is {got}, expected {v}");
                            good = false;
                        }
                    }
                }
                if std::env::var("SHOW").is_ok() {
                    let o: Vec<String> = w[1..].iter().map(|x| match x.split_once(':') {
                        Some((k, _)) => format!("{k}:{}", s.get(k).map(|v| v.to_bits()).unwrap_or("!".into())),
                        None => x.to_string(),
                    }).collect();
                    println!("step {}", o.join(" "));
                }
                let ticks: Vec<&str> = w[1..].iter().filter_map(|x| x.strip_prefix('@')).collect();
                for t in &ticks { s.set(t, V::from_bits("1"))?; }
                s.settle()?;
                for t in &ticks { s.set(t, V::from_bits("0"))?; }
                s.settle()?;
            }
            _ => return Err(format!("bad line {l}")),
        }
    }
    Ok(good)
}

fn main() {
    match run() {
        Ok(true) => println!("as expected"),
        Ok(false) => std::process::exit(1),
        Err(e) => { println!("error: {e}"); std::process::exit(1) }
    }
}
