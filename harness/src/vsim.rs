//! Elaboration and event-driven four-state simulation of the parsed netlist.
#![allow(dead_code)]
use crate::val::V;
use crate::vparse::*;
use num_bigint::{BigInt, BigUint};
use std::collections::{HashMap, VecDeque};

pub type SigId = usize;

#[derive(Clone, Debug)]
pub struct Sig {
    pub name: String,
    pub w: usize,
    pub mem: Option<usize>,
    pub is_net: bool,
}

#[derive(Clone, Debug)]
pub struct X {
    pub k: K,
    pub w: usize,
    pub s: bool,
}

#[derive(Clone, Debug)]
pub enum K {
    Const(V),
    Sig(SigId),
    Mem(SigId, Box<X>),
    Sel { base: Box<X>, idx: Box<X>, off: i64, width: usize }, // bits [idx+off .. idx+off+width)
    ConstSel { base: Box<X>, lo: i64, width: usize },
    Un(&'static str, Box<X>),
    Bin(&'static str, Box<X>, Box<X>),
    Tern(Box<X>, Box<X>, Box<X>),
    Cat(Vec<X>),
    Cast(Box<X>),
}

#[derive(Clone, Debug)]
pub enum L {
    Part(SigId, usize, usize),          // sig, lo, width
    Dyn(SigId, Box<X>, usize),          // sig, lo expr, width
    Mem(SigId, Box<X>),
    Cat(Vec<L>),
}

#[derive(Clone, Debug)]
pub enum XS {
    Block(Vec<XS>),
    If(X, Box<XS>, Option<Box<XS>>),
    Case { kind: &'static str, sel: X, arms: Vec<(Vec<X>, XS)>, default: Option<Box<XS>> },
    Blocking(L, usize, X),
    NonBlocking(L, usize, X),
    Assert(X),
    Nop,
}

#[derive(Clone, Debug)]
pub enum Proc {
    Assign(L, usize, X),
    Comb(XS),
}

struct Seq {
    clocks: Vec<(bool, X, V)>,
    body: XS,
}

pub struct Sim {
    pub sigs: Vec<Sig>,
    pub vals: Vec<V>,
    pub mems: Vec<Vec<V>>,
    procs: Vec<Proc>,
    seqs: Vec<Seq>,
    asserts: Vec<X>,
    readers: Vec<Vec<usize>>,
    multi: Vec<Option<Vec<(usize, V)>>>, // for multiply driven nets: contribution by driving process
    queue: VecDeque<usize>,
    inq: Vec<bool>,
    pub names: HashMap<String, SigId>,
    pub ports: Vec<(String, Dir, usize)>,
    pub assert_failures: usize,
    pub evals: u64,
}

struct State {
    vals: Vec<V>,
    mems: Vec<Vec<V>>,
    multi: Vec<Option<Vec<(usize, V)>>>,
    clocks: Vec<Vec<V>>,
}

struct Elab<'a> {
    mods: &'a HashMap<String, &'a Module>,
    sigs: Vec<Sig>,
    procs: Vec<Proc>,
    seqs: Vec<(Vec<(bool, X)>, XS)>,
    initials: Vec<XS>,
    asserts: Vec<X>,
    depth: usize,
}

type R<T> = Result<T, String>;

#[derive(Clone)]
enum Def {
    Sig(SigId),
    Const(V, bool),
}
type Scope = HashMap<String, Def>;

fn cmp_op(op: &str) -> bool {
    matches!(op, "==" | "!=" | "===" | "!==" | "<" | "<=" | ">" | ">=")
}

impl<'a> Elab<'a> {
    fn const_eval(&self, e: &E, sc: &Scope) -> R<V> {
        let x = self.expr(e, sc)?;
        let sim = Sim::empty();
        if !is_const(&x) {
            return Err("constant expression expected".into());
        }
        Ok(sim.eval(&x, x.w, x.s))
    }
    fn const_i(&self, e: &E, sc: &Scope) -> R<i64> {
        let x = self.expr(e, sc)?;
        if !is_const(&x) {
            return Err("constant expression expected".into());
        }
        let v = Sim::empty().eval(&x, x.w, x.s);
        if v.has_xz() {
            return Err("constant expression is unknown".into());
        }
        let b = v.to_bigi(x.s);
        i64::try_from(b).map_err(|_| "constant too large".into())
    }
    fn range_w(&self, r: &Option<(E, E)>, sc: &Scope) -> R<usize> {
        match r {
            None => Ok(1),
            Some((h, l)) => {
                let h = self.const_i(h, sc)?;
                let l = self.const_i(l, sc)?;
                if l != 0 || h < 0 {
                    return Err(format!("unsupported or zero-width range [{h}:{l}]"));
                }
                Ok((h - l + 1) as usize)
            }
        }
    }
    fn new_sig(&mut self, name: String, w: usize, mem: Option<usize>, is_net: bool) -> SigId {
        self.sigs.push(Sig { name, w, mem, is_net });
        self.sigs.len() - 1
    }
    fn expr(&self, e: &E, sc: &Scope) -> R<X> {
        Ok(match e {
            E::Num { v, signed } => X { w: v.w, s: *signed, k: K::Const(v.clone()) },
            E::Str(s) => {
                let mut parts: Vec<V> = s.bytes().map(|b| V::from_u64(8, b as u64)).collect();
                if parts.is_empty() {
                    parts.push(V::zero(8));
                }
                let v = V::concat(&parts);
                X { w: v.w, s: false, k: K::Const(v) }
            }
            E::Id(n) => match sc.get(n) {
                Some(Def::Sig(id)) => {
                    if self.sigs[*id].mem.is_some() {
                        return Err(format!("memory {n} used without an index"));
                    }
                    X { w: self.sigs[*id].w, s: false, k: K::Sig(*id) }
                }
                Some(Def::Const(v, s)) => X { w: v.w, s: *s, k: K::Const(v.clone()) },
                None => return Err(format!("undeclared identifier {n}")),
            },
            E::Bit(b, i) => {
                if let E::Id(n) = &**b {
                    if let Some(Def::Sig(id)) = sc.get(n) {
                        if self.sigs[*id].mem.is_some() {
                            let ix = self.expr(i, sc)?;
                            return Ok(X { w: self.sigs[*id].w, s: false, k: K::Mem(*id, Box::new(ix)) });
                        }
                    }
                }
                let base = self.expr(b, sc)?;
                let ix = self.expr(i, sc)?;
                self.sel(base, ix, 0, 1)
            }
            E::Part(b, h, l) => {
                let base = self.expr(b, sc)?;
                let h = self.const_i(h, sc)?;
                let l = self.const_i(l, sc)?;
                if h < l {
                    return Err(format!("reversed part select [{h}:{l}]"));
                }
                let w = (h - l + 1) as usize;
                X { w, s: false, k: K::ConstSel { base: Box::new(base), lo: l, width: w } }
            }
            E::Up(b, st, w) => {
                let base = self.expr(b, sc)?;
                let ix = self.expr(st, sc)?;
                let w = self.const_i(w, sc)?;
                if w <= 0 {
                    return Err("zero-width part select".into());
                }
                self.sel(base, ix, 0, w as usize)
            }
            E::Down(b, st, w) => {
                let base = self.expr(b, sc)?;
                let ix = self.expr(st, sc)?;
                let w = self.const_i(w, sc)?;
                if w <= 0 {
                    return Err("zero-width part select".into());
                }
                self.sel(base, ix, 1 - w, w as usize)
            }
            E::Un(op, a) => {
                let a = self.expr(a, sc)?;
                match *op {
                    "+" | "-" | "~" => X { w: a.w, s: a.s, k: K::Un(op, Box::new(a)) },
                    _ => X { w: 1, s: false, k: K::Un(op, Box::new(a)) },
                }
            }
            E::Bin(op, a, b) => {
                let a = self.expr(a, sc)?;
                let b = self.expr(b, sc)?;
                let (w, s) = if cmp_op(op) || *op == "&&" || *op == "||" {
                    (1, false)
                } else if matches!(*op, "<<" | ">>" | "<<<" | ">>>" | "**") {
                    (a.w, a.s)
                } else {
                    (a.w.max(b.w), a.s && b.s)
                };
                X { w, s, k: K::Bin(op, Box::new(a), Box::new(b)) }
            }
            E::Tern(c, a, b) => {
                let c = self.expr(c, sc)?;
                let a = self.expr(a, sc)?;
                let b = self.expr(b, sc)?;
                X { w: a.w.max(b.w), s: a.s && b.s, k: K::Tern(Box::new(c), Box::new(a), Box::new(b)) }
            }
            E::Cat(v) => {
                let v: Vec<X> = v.iter().map(|e| self.expr(e, sc)).collect::<R<_>>()?;
                X { w: v.iter().map(|x| x.w).sum(), s: false, k: K::Cat(v) }
            }
            E::Rep(n, e) => {
                let n = self.const_i(n, sc)?;
                if n <= 0 {
                    return Err(format!("replication count {n}"));
                }
                let x = self.expr(e, sc)?;
                X { w: x.w * n as usize, s: false, k: K::Cat(vec![x; n as usize]) }
            }
            E::Signed(e) => {
                let x = self.expr(e, sc)?;
                X { w: x.w, s: true, k: K::Cast(Box::new(x)) }
            }
            E::Unsigned(e) => {
                let x = self.expr(e, sc)?;
                X { w: x.w, s: false, k: K::Cast(Box::new(x)) }
            }
            E::Call(n, _) => return Err(format!("unsupported system function {n}")),
        })
    }
    fn sel(&self, base: X, ix: X, off: i64, width: usize) -> X {
        if is_const(&ix) {
            let v = Sim::empty().eval(&ix, ix.w, ix.s);
            if !v.has_xz() {
                if let Ok(i) = i64::try_from(v.to_bigi(ix.s)) {
                    return X { w: width, s: false, k: K::ConstSel { base: Box::new(base), lo: i + off, width } };
                }
            }
        }
        X { w: width, s: false, k: K::Sel { base: Box::new(base), idx: Box::new(ix), off, width } }
    }
    fn lval(&self, e: &E, sc: &Scope) -> R<(L, usize)> {
        match e {
            E::Id(n) => match sc.get(n) {
                Some(Def::Sig(id)) => {
                    if self.sigs[*id].mem.is_some() {
                        return Err(format!("assignment to whole memory {n}"));
                    }
                    Ok((L::Part(*id, 0, self.sigs[*id].w), self.sigs[*id].w))
                }
                Some(_) => Err(format!("assignment to constant {n}")),
                None => Err(format!("undeclared identifier {n}")),
            },
            E::Bit(b, i) => {
                let E::Id(n) = &**b else { return Err("bad lvalue".into()) };
                let Some(Def::Sig(id)) = sc.get(n) else { return Err(format!("bad lvalue {n}")) };
                let ix = self.expr(i, sc)?;
                if self.sigs[*id].mem.is_some() {
                    return Ok((L::Mem(*id, Box::new(ix)), self.sigs[*id].w));
                }
                if is_const(&ix) {
                    let k = self.const_i(i, sc)?;
                    if k < 0 || k as usize >= self.sigs[*id].w {
                        return Err(format!("bit select {n}[{k}] out of range"));
                    }
                    return Ok((L::Part(*id, k as usize, 1), 1));
                }
                Ok((L::Dyn(*id, Box::new(ix), 1), 1))
            }
            E::Part(b, h, l) => {
                let E::Id(n) = &**b else { return Err("bad lvalue".into()) };
                let Some(Def::Sig(id)) = sc.get(n) else { return Err(format!("bad lvalue {n}")) };
                let h = self.const_i(h, sc)?;
                let l = self.const_i(l, sc)?;
                if l < 0 || h < l || h as usize >= self.sigs[*id].w {
                    return Err(format!("part select {n}[{h}:{l}] out of range"));
                }
                Ok((L::Part(*id, l as usize, (h - l + 1) as usize), (h - l + 1) as usize))
            }
            E::Up(b, st, w) | E::Down(b, st, w) => {
                let E::Id(n) = &**b else { return Err("bad lvalue".into()) };
                let Some(Def::Sig(id)) = sc.get(n) else { return Err(format!("bad lvalue {n}")) };
                let up = matches!(e, E::Up(..));
                let w = self.const_i(w, sc)?;
                let ix = self.expr(st, sc)?;
                if is_const(&ix) {
                    let s = self.const_i(st, sc)?;
                    let lo = if up { s } else { s - w + 1 };
                    if lo < 0 || (lo + w) as usize > self.sigs[*id].w || w <= 0 {
                        return Err(format!("part select {n}[{lo}+:{w}] out of range"));
                    }
                    return Ok((L::Part(*id, lo as usize, w as usize), w as usize));
                }
                if !up {
                    return Err("dynamic down-select lvalue unsupported".into());
                }
                Ok((L::Dyn(*id, Box::new(ix), w as usize), w as usize))
            }
            E::Cat(v) => {
                let mut ls = vec![];
                let mut w = 0;
                for e in v {
                    let (l, lw) = self.lval(e, sc)?;
                    w += lw;
                    ls.push(l);
                }
                Ok((L::Cat(ls), w))
            }
            _ => Err("unsupported lvalue".into()),
        }
    }
    fn stmt(&self, s: &S, sc: &Scope) -> R<XS> {
        Ok(match s {
            S::Block(v) => XS::Block(v.iter().map(|s| self.stmt(s, sc)).collect::<R<_>>()?),
            S::If(c, t, e) => XS::If(
                self.expr(c, sc)?,
                Box::new(self.stmt(t, sc)?),
                match e {
                    Some(e) => Some(Box::new(self.stmt(e, sc)?)),
                    None => None,
                },
            ),
            S::Case { kind, sel, arms, default } => XS::Case {
                kind,
                sel: self.expr(sel, sc)?,
                arms: arms
                    .iter()
                    .map(|(es, s)| Ok((es.iter().map(|e| self.expr(e, sc)).collect::<R<_>>()?, self.stmt(s, sc)?)))
                    .collect::<R<_>>()?,
                default: match default {
                    Some(e) => Some(Box::new(self.stmt(e, sc)?)),
                    None => None,
                },
            },
            S::Blocking(l, r) => {
                let (l, w) = self.lval(l, sc)?;
                XS::Blocking(l, w, self.expr(r, sc)?)
            }
            S::NonBlocking(l, r) => {
                let (l, w) = self.lval(l, sc)?;
                XS::NonBlocking(l, w, self.expr(r, sc)?)
            }
            S::Assert(e) => XS::Assert(self.expr(e, sc)?),
            S::Sys(_) | S::Nop => XS::Nop,
        })
    }

    /// `bind`: inout ports already bound to a parent's signal
    fn module(&mut self, m: &Module, prefix: &str, params: &HashMap<String, V>, bind: &HashMap<String, SigId>, names: &mut HashMap<String, SigId>) -> R<Scope> {
        self.depth += 1;
        if self.depth > 200 {
            return Err("instance recursion".into());
        }
        let mut sc: Scope = HashMap::new();
        // parameters first
        for it in &m.items {
            if let Item::Param { name, range, value, local } = it {
                let v = if !*local && params.contains_key(name) {
                    params[name].clone()
                } else {
                    let x = self.expr(value, &sc).map_err(|e| format!("{}: {e}", m.name))?;
                    if !is_const(&x) {
                        return Err(format!("{}: non-constant parameter {name}", m.name));
                    }
                    match range {
                        Some(_) => {
                            let w = self.range_w(range, &sc).map_err(|e| format!("{}: {name}: {e}", m.name))?;
                            let cw = w.max(x.w);
                            Sim::empty().eval(&x, cw, x.s).ext(w, false)
                        }
                        None => Sim::empty().eval(&x, x.w, x.s),
                    }
                };
                if sc.insert(name.clone(), Def::Const(v, range.is_none())).is_some() {
                    return Err(format!("{}: duplicate declaration of {name}", m.name));
                }
            }
        }
        for p in &m.ports {
            let w = self.range_w(&p.range, &sc).map_err(|e| format!("{}: port {}: {e}", m.name, p.name))?;
            let id = match bind.get(&p.name) {
                Some(id) => {
                    if self.sigs[*id].w != w {
                        return Err(format!("{}: inout port {} width mismatch", m.name, p.name));
                    }
                    *id
                }
                None => self.new_sig(format!("{prefix}{}", p.name), w, None, p.dir == Dir::InOut),
            };
            if sc.insert(p.name.clone(), Def::Sig(id)).is_some() {
                return Err(format!("{}: duplicate port {}", m.name, p.name));
            }
            names.insert(format!("{prefix}{}", p.name), id);
        }
        for it in &m.items {
            if let Item::Net { name, range, mem, kind, .. } = it {
                let w = self.range_w(range, &sc).map_err(|e| format!("{}: {name}: {e}", m.name))?;
                let mm = match mem {
                    None => None,
                    Some(_) => Some(self.range_w(mem, &sc).map_err(|e| format!("{}: {name}: {e}", m.name))?),
                };
                let id = self.new_sig(format!("{prefix}{name}"), w, mm, *kind == "wire");
                if sc.insert(name.clone(), Def::Sig(id)).is_some() {
                    return Err(format!("{}: duplicate declaration of {name}", m.name));
                }
                names.insert(format!("{prefix}{name}"), id);
            }
        }
        let er = |e: String| format!("{}: {e}", m.name);
        for it in &m.items {
            match it {
                Item::Net { name, init: Some(e), .. } => {
                    let (l, w) = self.lval(&E::Id(name.clone()), &sc).map_err(er)?;
                    let x = self.expr(e, &sc).map_err(er)?;
                    self.procs.push(Proc::Assign(l, w, x));
                }
                Item::Net { .. } | Item::Param { .. } => {}
                Item::Assign(l, r) => {
                    let (l, w) = self.lval(l, &sc).map_err(er)?;
                    let x = self.expr(r, &sc).map_err(er)?;
                    self.procs.push(Proc::Assign(l, w, x));
                }
                Item::Comb(s) => {
                    let s = self.stmt(s, &sc).map_err(er)?;
                    let mut seen = vec![];
                    reads_s(&s, &mut seen);
                    collect_asserts(&s, &seen, false, &mut self.asserts).map_err(er)?;
                    self.procs.push(Proc::Comb(s));
                }
                Item::Seq { clocks, body } => {
                    let c = clocks.iter().map(|(e, x)| Ok((*e, self.expr(x, &sc)?))).collect::<R<Vec<_>>>().map_err(er)?;
                    let b = self.stmt(body, &sc).map_err(er)?;
                    self.seqs.push((c, b));
                }
                Item::OnChange(sens, s) => {
                    let s = self.stmt(s, &sc).map_err(er)?;
                    let mut seen = vec![];
                    for e in sens {
                        reads_x(&self.expr(e, &sc).map_err(er)?, &mut seen);
                    }
                    collect_asserts(&s, &seen, true, &mut self.asserts).map_err(er)?;
                }
                Item::Initial(s) => {
                    let s = self.stmt(s, &sc).map_err(er)?;
                    collect_asserts(&s, &[], false, &mut self.asserts).map_err(er)?;
                    self.initials.push(s);
                }
                Item::Inst { module, name, params, ports, .. } => {
                    let child = *self.mods.get(module).ok_or_else(|| format!("{}: unknown module {module}", m.name))?;
                    let mut pv = HashMap::new();
                    for (n, e) in params {
                        pv.insert(n.clone(), self.const_eval(e, &sc).map_err(er)?);
                    }
                    let mut bind = HashMap::new();
                    for p in &child.ports {
                        if p.dir == Dir::InOut {
                            if let Some((_, Some(e))) = ports.iter().find(|q| q.0 == p.name) {
                                match e {
                                    E::Id(n) => match sc.get(n) {
                                        Some(Def::Sig(id)) => {
                                            self.sigs[*id].is_net = true;
                                            bind.insert(p.name.clone(), *id);
                                        }
                                        _ => return Err(er(format!("inout port {} bound to {n}", p.name))),
                                    },
                                    _ => return Err(er("inout port bound to an expression".into())),
                                }
                            }
                        }
                    }
                    let csc = self.module(child, &format!("{prefix}{name}."), &pv, &bind, names)?;
                    for (pn, e) in ports {
                        let Some(p) = child.ports.iter().find(|p| &p.name == pn) else {
                            return Err(er(format!("instance {name} of {module}: no port {pn}")));
                        };
                        let Some(e) = e else { continue };
                        let Some(Def::Sig(pid)) = csc.get(pn) else { unreachable!() };
                        let pw = self.sigs[*pid].w;
                        match p.dir {
                            Dir::In => {
                                let x = self.expr(e, &sc).map_err(er)?;
                                self.procs.push(Proc::Assign(L::Part(*pid, 0, pw), pw, x));
                            }
                            Dir::Out => {
                                let (l, w) = self.lval(e, &sc).map_err(er)?;
                                let x = X { w: pw, s: false, k: K::Sig(*pid) };
                                self.procs.push(Proc::Assign(l, w, x));
                            }
                            Dir::InOut => {}
                        }
                    }
                }
            }
        }
        self.depth -= 1;
        Ok(sc)
    }
}

/// The assertions of an `always @(seen)` (on_change) or `initial` block: they have to be evaluated
/// whenever their condition changes.
fn collect_asserts(s: &XS, seen: &[SigId], on_change: bool, out: &mut Vec<X>) -> R<()> {
    match s {
        XS::Block(v) => v.iter().try_for_each(|s| collect_asserts(s, seen, on_change, out)),
        XS::Assert(x) => {
            let mut reads = vec![];
            reads_x(x, &mut reads);
            if on_change && seen.is_empty() {
                return Err("an assertion waits for a constant and is never evaluated".into());
            }
            if reads.iter().any(|r| !seen.contains(r)) {
                return Err("an assertion is not evaluated when its condition changes".into());
            }
            out.push(x.clone());
            Ok(())
        }
        XS::Nop => Ok(()),
        _ if on_change => Err("unexpected statement in an always block of assertions".into()),
        _ => Ok(()),
    }
}

pub fn is_const(x: &X) -> bool {
    match &x.k {
        K::Const(_) => true,
        K::Sig(_) | K::Mem(..) => false,
        K::Sel { base, idx, .. } => is_const(base) && is_const(idx),
        K::ConstSel { base, .. } => is_const(base),
        K::Un(_, a) | K::Cast(a) => is_const(a),
        K::Bin(_, a, b) => is_const(a) && is_const(b),
        K::Tern(a, b, c) => is_const(a) && is_const(b) && is_const(c),
        K::Cat(v) => v.iter().all(is_const),
    }
}

fn reads_x(x: &X, out: &mut Vec<SigId>) {
    match &x.k {
        K::Const(_) => {}
        K::Sig(i) => out.push(*i),
        K::Mem(i, a) => {
            out.push(*i);
            reads_x(a, out)
        }
        K::Sel { base, idx, .. } => {
            reads_x(base, out);
            reads_x(idx, out)
        }
        K::ConstSel { base, .. } => reads_x(base, out),
        K::Un(_, a) | K::Cast(a) => reads_x(a, out),
        K::Bin(_, a, b) => {
            reads_x(a, out);
            reads_x(b, out)
        }
        K::Tern(a, b, c) => {
            reads_x(a, out);
            reads_x(b, out);
            reads_x(c, out)
        }
        K::Cat(v) => v.iter().for_each(|x| reads_x(x, out)),
    }
}
fn reads_l(l: &L, out: &mut Vec<SigId>) {
    match l {
        L::Part(..) => {}
        L::Dyn(_, x, _) | L::Mem(_, x) => reads_x(x, out),
        L::Cat(v) => v.iter().for_each(|l| reads_l(l, out)),
    }
}
fn reads_s(s: &XS, out: &mut Vec<SigId>) {
    match s {
        XS::Block(v) => v.iter().for_each(|s| reads_s(s, out)),
        XS::If(c, t, e) => {
            reads_x(c, out);
            reads_s(t, out);
            if let Some(e) = e {
                reads_s(e, out)
            }
        }
        XS::Case { sel, arms, default, .. } => {
            reads_x(sel, out);
            for (es, s) in arms {
                es.iter().for_each(|x| reads_x(x, out));
                reads_s(s, out);
            }
            if let Some(d) = default {
                reads_s(d, out)
            }
        }
        XS::Blocking(l, _, x) | XS::NonBlocking(l, _, x) => {
            reads_l(l, out);
            reads_x(x, out)
        }
        XS::Assert(x) => reads_x(x, out),
        XS::Nop => {}
    }
}
fn l_parts(l: &L, out: &mut Vec<(SigId, usize, usize)>, sigs: &[Sig]) {
    match l {
        L::Part(s, lo, w) => out.push((*s, *lo, *w)),
        L::Dyn(s, _, _) => out.push((*s, 0, sigs[*s].w)),
        L::Mem(s, _) => out.push((*s, 0, 0)),
        L::Cat(v) => v.iter().for_each(|l| l_parts(l, out, sigs)),
    }
}

impl Sim {
    pub fn empty() -> Sim {
        Sim {
            sigs: vec![],
            vals: vec![],
            mems: vec![],
            procs: vec![],
            seqs: vec![],
            asserts: vec![],
            readers: vec![],
            multi: vec![],
            queue: VecDeque::new(),
            inq: vec![],
            names: HashMap::new(),
            ports: vec![],
            assert_failures: 0,
            evals: 0,
        }
    }
    pub fn new(mods: &HashMap<String, &Module>, top: &str) -> R<Sim> {
        let m = *mods.get(top).ok_or_else(|| format!("no module {top}"))?;
        let mut el = Elab { mods, sigs: vec![], procs: vec![], seqs: vec![], initials: vec![], asserts: vec![], depth: 0 };
        let mut names = HashMap::new();
        let sc = el.module(m, "", &HashMap::new(), &HashMap::new(), &mut names)?;
        let ports = m
            .ports
            .iter()
            .map(|p| {
                let Some(Def::Sig(id)) = sc.get(&p.name) else { unreachable!() };
                (p.name.clone(), p.dir, el.sigs[*id].w)
            })
            .collect();
        let n = el.sigs.len();
        let mut s = Sim::empty();
        s.vals = el.sigs.iter().map(|g| if g.is_net { V::z(g.w) } else { V::x(g.w) }).collect();
        s.mems = el.sigs.iter().map(|g| g.mem.map(|l| vec![V::x(g.w); l]).unwrap_or_default()).collect();
        s.readers = vec![vec![]; n];
        s.multi = vec![None; n];
        for (i, p) in el.procs.iter().enumerate() {
            let mut r = vec![];
            match p {
                Proc::Assign(l, _, x) => {
                    reads_l(l, &mut r);
                    reads_x(x, &mut r)
                }
                Proc::Comb(b) => reads_s(b, &mut r),
            }
            r.sort();
            r.dedup();
            for q in r {
                s.readers[q].push(i);
            }
        }
        // nets with overlapping continuous drivers (tri-state)
        let mut seen: HashMap<SigId, Vec<u32>> = HashMap::new();
        for p in &el.procs {
            if let Proc::Assign(l, _, _) = p {
                let mut parts = vec![];
                l_parts(l, &mut parts, &el.sigs);
                for (sid, lo, w) in parts {
                    let v = seen.entry(sid).or_insert_with(|| vec![0; el.sigs[sid].w]);
                    for k in lo..lo + w {
                        v[k] += 1;
                    }
                }
            }
        }
        for (sid, v) in seen {
            let top_inout = m.ports.iter().any(|p| p.dir == Dir::InOut && matches!(sc.get(&p.name), Some(Def::Sig(i)) if *i == sid));
            if v.iter().any(|c| *c > 1) || (top_inout && v.iter().any(|c| *c > 0)) {
                s.multi[sid] = Some(vec![]);
            }
        }
        s.sigs = el.sigs;
        s.procs = el.procs;
        s.asserts = el.asserts;
        s.names = names;
        s.ports = ports;
        s.inq = vec![false; s.procs.len()];
        s.seqs = el
            .seqs
            .into_iter()
            .map(|(c, body)| Seq { clocks: c.into_iter().map(|(e, x)| (e, x, V::x(1))).collect(), body })
            .collect();
        for st in el.initials {
            let mut nba = vec![];
            s.exec(&st, &mut nba);
            s.apply(nba);
        }
        for i in 0..s.procs.len() {
            s.inq[i] = true;
            s.queue.push_back(i);
        }
        s.settle()?;
        // edges seen while leaving the initial all-x state are not clock edges
        Ok(s)
    }

    fn touch(&mut self, id: SigId) {
        for k in 0..self.readers[id].len() {
            let p = self.readers[id][k];
            if !self.inq[p] {
                self.inq[p] = true;
                self.queue.push_back(p);
            }
        }
    }
    fn write_part(&mut self, id: SigId, lo: usize, v: &V) {
        if lo == 0 && v.w == self.vals[id].w {
            if self.vals[id] != *v {
                self.vals[id] = v.clone();
                self.touch(id);
            }
            return;
        }
        let mut n = self.vals[id].clone();
        n.put(lo, v);
        if n != self.vals[id] {
            self.vals[id] = n;
            self.touch(id);
        }
    }
    fn contribute(&mut self, proc_id: usize, id: SigId, lo: usize, v: &V) {
        let w = self.vals[id].w;
        let mut list = self.multi[id].take().unwrap();
        let pos = match list.iter().position(|(p, _)| *p == proc_id) {
            Some(p) => p,
            None => {
                list.push((proc_id, V::z(w)));
                list.len() - 1
            }
        };
        list[pos].1.put(lo, v);
        let mut r = V::z(w);
        for (_, c) in &list {
            r = r.resolve(c);
        }
        self.multi[id] = Some(list);
        if self.vals[id] != r {
            self.vals[id] = r;
            self.touch(id);
        }
    }
    fn write(&mut self, l: &L, v: V, proc_id: Option<usize>) {
        match l {
            L::Part(id, lo, _) => {
                if let (Some(p), true) = (proc_id, self.multi[*id].is_some()) {
                    self.contribute(p, *id, *lo, &v)
                } else {
                    self.write_part(*id, *lo, &v)
                }
            }
            L::Dyn(id, x, w) => {
                let i = self.eval(x, x.w, x.s);
                if let Some(i) = i.to_usize() {
                    let tot = self.vals[*id].w;
                    if i < tot {
                        let ww = (*w).min(tot - i);
                        let vv = v.slice(0, ww);
                        if let (Some(p), true) = (proc_id, self.multi[*id].is_some()) {
                            self.contribute(p, *id, i, &vv)
                        } else {
                            self.write_part(*id, i, &vv)
                        }
                    }
                }
            }
            L::Mem(id, x) => {
                let i = self.eval(x, x.w, x.s);
                if let Some(i) = i.to_usize() {
                    if i < self.mems[*id].len() && self.mems[*id][i] != v {
                        self.mems[*id][i] = v;
                        self.touch(*id);
                    }
                }
            }
            L::Cat(ls) => {
                let widths: Vec<usize> = ls.iter().map(|l| self.lw(l)).collect();
                let mut pos: usize = widths.iter().sum();
                for (l, w) in ls.iter().zip(widths) {
                    pos -= w;
                    let part = v.slice(pos as i64, w);
                    self.write(l, part, proc_id);
                }
            }
        }
    }
    fn lw(&self, l: &L) -> usize {
        match l {
            L::Part(_, _, w) | L::Dyn(_, _, w) => *w,
            L::Mem(id, _) => self.sigs[*id].w,
            L::Cat(v) => v.iter().map(|l| self.lw(l)).sum(),
        }
    }
    fn rhs(&self, w: usize, x: &X) -> V {
        let cw = w.max(x.w);
        let v = self.eval(x, cw, x.s);
        v.ext(w, false)
    }
    fn exec(&mut self, s: &XS, nba: &mut Vec<(L, V)>) {
        match s {
            XS::Block(v) => {
                for s in v {
                    self.exec(s, nba);
                }
            }
            XS::If(c, t, e) => {
                let v = self.eval(c, c.w, c.s);
                if v.truth() == Some(true) {
                    self.exec(t, nba)
                } else if let Some(e) = e {
                    self.exec(e, nba)
                }
            }
            XS::Case { kind, sel, arms, default } => {
                let w = arms.iter().flat_map(|(es, _)| es.iter().map(|e| e.w)).chain([sel.w]).max().unwrap();
                let sgn = sel.s && arms.iter().all(|(es, _)| es.iter().all(|e| e.s));
                let sv = self.eval(sel, w, sgn);
                for (es, st) in arms {
                    for e in es {
                        let ev = self.eval(e, w, sgn);
                        let hit = (0..w).all(|i| {
                            let p = sv.get(i);
                            let q = ev.get(i);
                            match *kind {
                                "casez" => p == (0, 1) || q == (0, 1) || p == q,
                                "casex" => p.1 == 1 || q.1 == 1 || p == q,
                                _ => p == q,
                            }
                        });
                        if hit {
                            self.exec(st, nba);
                            return;
                        }
                    }
                }
                if let Some(d) = default {
                    self.exec(d, nba)
                }
            }
            XS::Blocking(l, w, x) => {
                let v = self.rhs(*w, x);
                self.write(l, v, None)
            }
            XS::NonBlocking(l, w, x) => {
                let v = self.rhs(*w, x);
                // the target address is evaluated now, not at update time
                let l2 = match l {
                    L::Mem(id, a) => {
                        let av = self.eval(a, a.w, a.s);
                        L::Mem(*id, Box::new(X { w: av.w, s: false, k: K::Const(av) }))
                    }
                    l => l.clone(),
                };
                nba.push((l2, v));
            }
            XS::Assert(_) | XS::Nop => {}
        }
    }
    fn apply(&mut self, nba: Vec<(L, V)>) {
        for (l, v) in nba {
            self.write(&l, v, None);
        }
    }
    fn comb(&mut self) -> R<()> {
        let mut budget = 2000 + 400 * self.procs.len() as u64;
        while let Some(p) = self.queue.pop_front() {
            self.inq[p] = false;
            self.evals += 1;
            if budget == 0 {
                self.queue.clear();
                self.inq.iter_mut().for_each(|x| *x = false);
                return Err("combinational loop does not settle".into());
            }
            budget -= 1;
            let pr = std::mem::replace(&mut self.procs[p], Proc::Comb(XS::Nop));
            match &pr {
                Proc::Assign(l, w, x) => {
                    let v = self.rhs(*w, x);
                    self.write(l, v, Some(p));
                }
                Proc::Comb(s) => {
                    let mut nba = vec![];
                    self.exec(s, &mut nba);
                    self.apply(nba);
                }
            }
            self.procs[p] = pr;
        }
        Ok(())
    }
    pub fn settle(&mut self) -> R<()> {
        for _ in 0..1000 {
            self.comb()?;
            let mut fired = vec![];
            for i in 0..self.seqs.len() {
                let mut hit = false;
                for c in 0..self.seqs[i].clocks.len() {
                    let (edge, new) = {
                        let (e, x, _) = &self.seqs[i].clocks[c];
                        (*e, self.eval(x, x.w, x.s).slice(0, 1))
                    };
                    let old = self.seqs[i].clocks[c].2.clone();
                    if old != new {
                        let (o, n) = (old.get(0), new.get(0));
                        let pos = (o == (0, 0) && n != (0, 0)) || (o != (1, 0) && n == (1, 0));
                        let neg = (o == (1, 0) && n != (1, 0)) || (o != (0, 0) && n == (0, 0));
                        if (edge && pos) || (!edge && neg) {
                            hit = true;
                        }
                        self.seqs[i].clocks[c].2 = new;
                    }
                }
                if hit {
                    fired.push(i);
                }
            }
            if fired.is_empty() {
                return Ok(());
            }
            let mut nba = vec![];
            for i in fired {
                let body = std::mem::replace(&mut self.seqs[i].body, XS::Nop);
                self.exec(&body, &mut nba);
                self.seqs[i].body = body;
            }
            self.apply(nba);
        }
        Err("clock loop does not settle".into())
    }
    fn state(&self) -> State {
        State {
            vals: self.vals.clone(),
            mems: self.mems.clone(),
            multi: self.multi.clone(),
            clocks: self.seqs.iter().map(|s| s.clocks.iter().map(|c| c.2.clone()).collect()).collect(),
        }
    }
    fn restore(&mut self, st: &State) {
        self.vals = st.vals.clone();
        self.mems = st.mems.clone();
        self.multi = st.multi.clone();
        for (s, c) in self.seqs.iter_mut().zip(&st.clocks) {
            for (x, v) in s.clocks.iter_mut().zip(c) {
                x.2 = v.clone();
            }
        }
    }
    /// Raises several clocks at once.  A register that samples something another of these clocks
    /// changes gets, bit by bit, what was there before or what is there after.
    pub fn tick_unordered(&mut self, clocks: &[String], rng: &mut u64) -> R<()> {
        fn regs(s: &XS, out: &mut Vec<SigId>) {
            fn l(x: &L, out: &mut Vec<SigId>) {
                match x {
                    L::Part(i, ..) | L::Dyn(i, ..) => out.push(*i),
                    L::Mem(..) => {}
                    L::Cat(v) => v.iter().for_each(|y| l(y, out)),
                }
            }
            match s {
                XS::Block(v) => v.iter().for_each(|y| regs(y, out)),
                XS::If(_, a, b) => {
                    regs(a, out);
                    if let Some(b) = b {
                        regs(b, out)
                    }
                }
                XS::Case { arms, default, .. } => {
                    arms.iter().for_each(|(_, y)| regs(y, out));
                    if let Some(b) = default {
                        regs(b, out)
                    }
                }
                XS::Blocking(a, ..) | XS::NonBlocking(a, ..) => l(a, out),
                XS::Assert(_) | XS::Nop => {}
            }
        }
        let mut ids = vec![];
        self.seqs.iter().for_each(|s| regs(&s.body, &mut ids));
        ids.sort();
        ids.dedup();
        let start = self.state();
        let mut seen = vec![];
        for rev in [false, true] {
            let mut order = clocks.to_vec();
            if rev {
                order.reverse();
            }
            for c in &order {
                self.set(c, V::bit(true))?;
                self.settle()?;
            }
            seen.push(ids.iter().map(|i| self.vals[*i].clone()).collect::<Vec<_>>());
            self.restore(&start);
        }
        for c in clocks {
            self.set(c, V::bit(true))?;
        }
        self.settle()?;
        seen.push(ids.iter().map(|i| self.vals[*i].clone()).collect::<Vec<_>>());
        for (k, id) in ids.iter().enumerate() {
            let w = self.sigs[*id].w;
            if seen.iter().all(|s| s[k] == seen[0][k]) {
                continue;
            }
            for b in 0..w {
                *rng ^= *rng << 13;
                *rng ^= *rng >> 7;
                *rng ^= *rng << 17;
                let bit = seen[(*rng % 3) as usize][k].slice(b as i64, 1);
                self.write_part(*id, b, &bit);
            }
        }
        self.settle()
    }
    pub fn check_asserts(&mut self) -> usize {
        let n = self
            .asserts
            .iter()
            .filter(|x| {
                let v = self.eval(x, x.w, x.s);
                v.truth() == Some(false)
            })
            .count();
        self.assert_failures += n;
        n
    }
    pub fn set(&mut self, name: &str, v: V) -> R<()> {
        let id = *self.names.get(name).ok_or_else(|| format!("no signal {name}"))?;
        let w = self.sigs[id].w;
        let v = v.ext(w, false);
        if self.multi[id].is_some() {
            self.contribute(usize::MAX, id, 0, &v);
        } else {
            self.write_part(id, 0, &v);
        }
        Ok(())
    }
    pub fn get(&self, name: &str) -> R<V> {
        let id = *self.names.get(name).ok_or_else(|| format!("no signal {name}"))?;
        Ok(self.vals[id].clone())
    }

    pub fn eval(&self, x: &X, w: usize, s: bool) -> V {
        match &x.k {
            K::Const(v) => v.ext(w, s),
            K::Sig(i) => self.vals[*i].ext(w, s),
            K::Mem(i, a) => {
                let av = self.eval(a, a.w, a.s);
                let r = match av.to_usize() {
                    Some(k) if k < self.mems[*i].len() => self.mems[*i][k].clone(),
                    _ => V::x(self.sigs[*i].w),
                };
                r.ext(w, s)
            }
            K::ConstSel { base, lo, width } => {
                let b = self.eval(base, base.w, base.s);
                b.slice(*lo, *width).ext(w, s)
            }
            K::Sel { base, idx, off, width } => {
                let b = self.eval(base, base.w, base.s);
                let i = self.eval(idx, idx.w, idx.s);
                match i.to_usize() {
                    Some(k) if k < (1 << 40) => b.slice(k as i64 + off, *width).ext(w, s),
                    _ => V::x(*width).ext(w, s),
                }
            }
            K::Cast(a) => self.eval(a, a.w, a.s).ext(w, s),
            K::Cat(v) => {
                let parts: Vec<V> = v.iter().map(|x| self.eval(x, x.w, x.s)).collect();
                V::concat(&parts).ext(w, s)
            }
            K::Un(op, a) => match *op {
                "+" => self.eval(a, w, s),
                "-" => {
                    let v = self.eval(a, w, s);
                    if v.has_xz() {
                        return V::x(w);
                    }
                    V::from_bigi(w, &-v.to_bigi(false))
                }
                "~" => {
                    let v = self.eval(a, w, s);
                    let mut r = v.clone();
                    for i in 0..r.a.len() {
                        r.a[i] = !v.a[i] | v.b[i];
                    }
                    r.mask();
                    r
                }
                "!" => {
                    let v = self.eval(a, a.w, a.s);
                    V::tri(v.truth().map(|b| !b)).ext(w, s)
                }
                red => {
                    let v = self.eval(a, a.w, a.s);
                    let mut ones = 0u64;
                    let mut zeros = 0;
                    let mut unk = 0;
                    for i in 0..v.w {
                        match v.get(i) {
                            (0, 0) => zeros += 1,
                            (1, 0) => ones += 1,
                            _ => unk += 1,
                        }
                    }
                    let t = match red.trim_start_matches('~') {
                        "&" => {
                            if zeros > 0 {
                                Some(false)
                            } else if unk > 0 {
                                None
                            } else {
                                Some(true)
                            }
                        }
                        "|" => {
                            if ones > 0 {
                                Some(true)
                            } else if unk > 0 {
                                None
                            } else {
                                Some(false)
                            }
                        }
                        _ => {
                            if unk > 0 {
                                None
                            } else {
                                Some(ones % 2 == 1)
                            }
                        }
                    };
                    let inv = red.contains('~');
                    V::tri(t.map(|b| b ^ inv)).ext(w, s)
                }
            },
            K::Tern(c, a, b) => {
                let cv = self.eval(c, c.w, c.s);
                match cv.truth() {
                    Some(true) => self.eval(a, w, s),
                    Some(false) => self.eval(b, w, s),
                    None => {
                        let p = self.eval(a, w, s);
                        let q = self.eval(b, w, s);
                        p.bitwise(&q, |p, q| if p == q && p.1 == 0 { p } else { (1, 1) })
                    }
                }
            }
            K::Bin(op, a, b) => self.bin(op, a, b, w, s),
        }
    }
    fn bin(&self, op: &str, a: &X, b: &X, w: usize, s: bool) -> V {
        match op {
            "&&" | "||" => {
                let p = self.eval(a, a.w, a.s).truth();
                let q = self.eval(b, b.w, b.s).truth();
                let r = if op == "&&" {
                    match (p, q) {
                        (Some(false), _) | (_, Some(false)) => Some(false),
                        (Some(true), Some(true)) => Some(true),
                        _ => None,
                    }
                } else {
                    match (p, q) {
                        (Some(true), _) | (_, Some(true)) => Some(true),
                        (Some(false), Some(false)) => Some(false),
                        _ => None,
                    }
                };
                V::tri(r).ext(w, s)
            }
            _ if cmp_op(op) => {
                let cw = a.w.max(b.w);
                let cs = a.s && b.s;
                let p = self.eval(a, cw, cs);
                let q = self.eval(b, cw, cs);
                let r = match op {
                    "===" => Some(p == q),
                    "!==" => Some(p != q),
                    "==" | "!=" => {
                        let mut diff = false;
                        let mut unk = false;
                        for i in 0..p.a.len() {
                            let xz = p.b[i] | q.b[i];
                            if (p.a[i] ^ q.a[i]) & !xz != 0 {
                                diff = true;
                            }
                            if xz != 0 {
                                unk = true;
                            }
                        }
                        let eq = if diff {
                            Some(false)
                        } else if unk {
                            None
                        } else {
                            Some(true)
                        };
                        if op == "==" { eq } else { eq.map(|b| !b) }
                    }
                    _ => {
                        if p.has_xz() || q.has_xz() {
                            None
                        } else {
                            let (m, n) = (p.to_bigi(cs), q.to_bigi(cs));
                            Some(match op {
                                "<" => m < n,
                                "<=" => m <= n,
                                ">" => m > n,
                                _ => m >= n,
                            })
                        }
                    }
                };
                V::tri(r).ext(w, s)
            }
            "<<" | "<<<" | ">>" | ">>>" => {
                let p = self.eval(a, w, s);
                let q = self.eval(b, b.w, b.s);
                let Some(k) = q.to_usize() else { return V::x(w) };
                let arith = op == ">>>" && s;
                let fill = if arith { p.get(w.wrapping_sub(1)) } else { (0, 0) };
                let mut r = V::zero(w);
                for i in 0..w {
                    let v = if op.starts_with("<<") {
                        if i >= k { p.get(i - k) } else { (0, 0) }
                    } else if k < w && i + k < w {
                        p.get(i + k)
                    } else {
                        fill
                    };
                    r.set(i, v.0, v.1);
                }
                r
            }
            "&" | "|" | "^" | "~^" | "^~" => {
                let p = self.eval(a, w, s);
                let q = self.eval(b, w, s);
                let mut r = V::zero(w);
                for i in 0..r.a.len() {
                    let (pa, pb, qa, qb) = (p.a[i], p.b[i], q.a[i], q.b[i]);
                    let (p1, p0) = (pa & !pb, !pa & !pb);
                    let (q1, q0) = (qa & !qb, !qa & !qb);
                    let (one, zero) = match op {
                        "&" => (p1 & q1, p0 | q0),
                        "|" => (p1 | q1, p0 & q0),
                        "^" => ((p1 & q0) | (p0 & q1), (p1 & q1) | (p0 & q0)),
                        _ => ((p1 & q1) | (p0 & q0), (p1 & q0) | (p0 & q1)),
                    };
                    let unk = !(one | zero);
                    r.a[i] = one | unk;
                    r.b[i] = unk;
                }
                r.mask();
                r
            }
            _ => {
                let p = self.eval(a, w, s);
                let q = self.eval(b, w, s);
                if p.has_xz() || q.has_xz() {
                    return V::x(w);
                }
                if w <= 64 && !p.a.is_empty() && !matches!(op, "/" | "%" | "**") {
                    let r = match op {
                        "+" => p.a[0].wrapping_add(q.a[0]),
                        "-" => p.a[0].wrapping_sub(q.a[0]),
                        _ => p.a[0].wrapping_mul(q.a[0]),
                    };
                    return V::from_u64(w, r);
                }
                let (m, n): (BigInt, BigInt) = (p.to_bigi(s), q.to_bigi(s));
                let r = match op {
                    "+" => m + n,
                    "-" => m - n,
                    "*" => m * n,
                    "/" | "%" => {
                        if n == BigInt::from(0) {
                            return V::x(w);
                        }
                        if op == "/" { m / n } else { m % n }
                    }
                    "**" => {
                        let e = u32::try_from(n).unwrap_or(0);
                        BigInt::from(m.magnitude().pow(e) as BigUint)
                    }
                    _ => return V::x(w),
                };
                V::from_bigi(w, &r)
            }
        }
    }
}
