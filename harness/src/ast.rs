//! The emitted netlist as JSON, for the specification SpadeNet.tla to judge.
use crate::vparse::*;
use serde_json::{json, Value};

fn num(v: &crate::val::V) -> i64 {
    // a number of wildcards only is -2
    if v.w > 0 && *v == crate::val::V::z(v.w) {
        return -2;
    }
    // values the specification never computes with (undefined or large) are -1
    if v.has_xz() {
        return -1;
    }
    i64::try_from(v.to_bigi(false)).ok().filter(|x| *x < (1 << 30)).unwrap_or(-1)
}

fn e(x: &E) -> Value {
    match x {
        E::Num { v, signed } => json!(["n", v.w, num(v), *signed as u8]),
        E::Str(s) => json!(["str", 8 * s.len().max(1)]),
        E::Id(n) => json!(["i", n]),
        E::Bit(b, i) => json!(["b", e(b), e(i)]),
        E::Part(b, h, l) => json!(["p", e(b), e(h), e(l)]),
        E::Up(b, s, w) => json!(["up", e(b), e(s), e(w)]),
        E::Down(b, s, w) => json!(["dn", e(b), e(s), e(w)]),
        E::Un(op, a) => json!(["u", op, e(a)]),
        E::Bin(op, a, b) => json!(["2", op, e(a), e(b)]),
        E::Tern(c, a, b) => json!(["?", e(c), e(a), e(b)]),
        E::Cat(v) => json!(["cat", v.iter().map(e).collect::<Vec<_>>()]),
        E::Rep(n, a) => json!(["rep", e(n), e(a)]),
        E::Signed(a) | E::Unsigned(a) => json!(["cast", e(a)]),
        E::Call(_, a) => json!(["call", a.iter().map(e).collect::<Vec<_>>()]),
    }
}

fn range(r: &Option<(E, E)>) -> Value {
    match r {
        None => json!([]),
        Some((h, l)) => json!([e(h), e(l)]),
    }
}

fn opt(x: Option<Value>) -> Value {
    match x {
        None => json!([]),
        Some(v) => json!([v]),
    }
}

fn s(x: &S) -> Value {
    match x {
        S::Block(v) => json!(["blk", v.iter().map(s).collect::<Vec<_>>()]),
        S::If(c, t, f) => json!(["if", e(c), s(t), opt(f.as_ref().map(|f| s(f)))]),
        S::Case { sel, arms, default, .. } => json!([
            "case",
            e(sel),
            arms.iter().map(|(c, b)| json!([c.iter().map(e).collect::<Vec<_>>(), s(b)])).collect::<Vec<_>>(),
            opt(default.as_ref().map(|d| s(d)))
        ]),
        S::Blocking(l, r) | S::NonBlocking(l, r) => json!(["set", e(l), e(r)]),
        S::Assert(c) => json!(["ast", e(c)]),
        S::Sys(_) | S::Nop => json!(["nop"]),
    }
}

pub fn interface(m: &Module) -> Value {
    json!({
        "ports": m.ports.iter().map(|p| json!([
            p.name,
            match p.dir { Dir::In => "in", Dir::Out => "out", Dir::InOut => "inout" },
            range(&p.range)
        ])).collect::<Vec<_>>(),
        "param": m.items.iter().filter_map(|i| match i { Item::Param { name, local: false, .. } => Some(json!(name)), _ => None }).collect::<Vec<_>>(),
    })
}

pub fn module(m: &Module) -> Value {
    let items: Vec<Value> = m
        .items
        .iter()
        .map(|i| match i {
            Item::Net { name, kind, range: r, mem, init, .. } => json!(["net", name, range(r), range(mem), opt(init.as_ref().map(e)), kind]),
            Item::Param { name, range: r, value, local } => json!([if *local { "local" } else { "param" }, name, range(r), e(value)]),
            Item::Assign(l, r) => json!(["assign", e(l), e(r)]),
            Item::Comb(b) => json!(["comb", s(b)]),
            Item::Seq { clocks, body } => json!(["seq", clocks.iter().map(|(_, c)| e(c)).collect::<Vec<_>>(), s(body)]),
            Item::OnChange(l, b) => json!(["chg", l.iter().map(e).collect::<Vec<_>>(), s(b)]),
            Item::Initial(b) => json!(["init", s(b)]),
            Item::Inst { module, name, params, ports, .. } => json!([
                "inst", module, name,
                params.iter().map(|(n, x)| json!([n, e(x)])).collect::<Vec<_>>(),
                ports.iter().map(|(n, x)| json!([n, opt(x.as_ref().map(e))])).collect::<Vec<_>>()
            ]),
        })
        .collect();
    let mut v = interface(m);
    v["name"] = json!(m.name);
    v["items"] = json!(items);
    v
}
