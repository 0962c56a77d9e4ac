//! Preprocessor, lexer and parser for the SystemVerilog the Spade compiler emits
#![allow(dead_code)]
//! (a strict subset: anything unknown is a parse error, never silently skipped).
use crate::val::V;
use num_bigint::BigUint;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Id(String),
    Num { v: V, signed: bool, sized: bool },
    Str(String),
    P(&'static str),
    Sys(String),
    Eof,
}

#[derive(Clone, Debug)]
pub enum E {
    Num { v: V, signed: bool },
    Str(String),
    Id(String),
    Bit(Box<E>, Box<E>),
    Part(Box<E>, Box<E>, Box<E>),
    Up(Box<E>, Box<E>, Box<E>),
    Down(Box<E>, Box<E>, Box<E>),
    Un(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Tern(Box<E>, Box<E>, Box<E>),
    Cat(Vec<E>),
    Rep(Box<E>, Box<E>),
    Signed(Box<E>),
    Unsigned(Box<E>),
    Call(String, Vec<E>),
}

#[derive(Clone, Debug)]
pub enum S {
    Block(Vec<S>),
    If(E, Box<S>, Option<Box<S>>),
    Case { kind: &'static str, sel: E, arms: Vec<(Vec<E>, S)>, default: Option<Box<S>> },
    Blocking(E, E),
    NonBlocking(E, E),
    Assert(E),
    Sys(String),
    Nop,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dir {
    In,
    Out,
    InOut,
}

#[derive(Clone, Debug)]
pub enum Item {
    Net { name: String, kind: &'static str, range: Option<(E, E)>, mem: Option<(E, E)>, init: Option<E>, attrs: Vec<String> },
    Param { name: String, range: Option<(E, E)>, value: E, local: bool },
    Assign(E, E),
    Comb(S),
    Seq { clocks: Vec<(bool, E)>, body: S },
    OnChange(Vec<E>, S),
    Initial(S),
    Inst { module: String, name: String, params: Vec<(String, E)>, ports: Vec<(String, Option<E>)>, attrs: Vec<String> },
}

#[derive(Clone, Debug)]
pub struct Port {
    pub name: String,
    pub dir: Dir,
    pub range: Option<(E, E)>,
    pub is_reg: bool,
}

#[derive(Clone, Debug)]
pub struct Module {
    pub name: String,
    pub ports: Vec<Port>,
    pub items: Vec<Item>,
    pub attrs: Vec<String>,
}

const PUNCT: &[&str] = &[
    "<<<", ">>>", "===", "!==", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "**", "~^", "^~", "~&", "~|", "+:", "-:", "(*", "*)",
    "(", ")", "[", "]", "{", "}", ";", ":", ",", ".", "?", "+", "-", "*", "/", "%", "<", ">", "!", "~", "&", "|", "^", "=", "#", "@", "'",
];

/// `ifdef / `ifndef / `else / `endif / `define / macro use. `defs` = names considered defined.
pub fn preprocess(src: &str, defs: &[&str]) -> Result<String, String> {
    let mut macros: HashMap<String, (Option<Vec<String>>, String)> = HashMap::new();
    for d in defs {
        macros.insert(d.to_string(), (None, String::new()));
    }
    let mut out = String::new();
    let mut stack: Vec<(bool, bool)> = vec![]; // (active, taken)
    let mut lines = src.split('\n').peekable();
    while let Some(line) = lines.next() {
        let mut line = line.to_string();
        // a directive may follow other text on a line ("`default_nettype none`ifdef X")
        loop {
            let active = stack.iter().all(|s| s.0);
            let pos = match find_tick(&line) {
                Some(p) => p,
                None => {
                    if active {
                        out.push_str(&line);
                        out.push('\n');
                    }
                    break;
                }
            };
            let (before, after) = line.split_at(pos);
            if active {
                out.push_str(before);
                out.push(' ');
            }
            let after = &after[1..];
            let nlen = after.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '$').map(|c| c.len_utf8()).sum();
            let name = after[..nlen].to_string();
            let rest = after[nlen..].to_string();
            match name.as_str() {
                "ifdef" | "ifndef" => {
                    let r = rest.trim_start();
                    let n: String = r.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
                    let d = macros.contains_key(&n);
                    let c = if name == "ifdef" { d } else { !d };
                    stack.push((c, c));
                    line = r[n.len()..].to_string();
                }
                "else" => {
                    let s = stack.last_mut().ok_or("`else without `if")?;
                    s.0 = !s.1;
                    s.1 = true;
                    line = rest;
                }
                "endif" => {
                    stack.pop().ok_or("`endif without `if")?;
                    line = rest;
                }
                "define" => {
                    let mut body = rest.clone();
                    while body.trim_end().ends_with('\\') {
                        let t = body.trim_end();
                        body = format!("{}\n{}", &t[..t.len() - 1], lines.next().unwrap_or(""));
                    }
                    if active {
                        let r = body.trim_start();
                        // an escaped identifier as macro name: `define \name other
                        let (n, r) = if let Some(r) = r.strip_prefix('\\') {
                            let n: String = r.chars().take_while(|c| !c.is_whitespace()).collect();
                            let l = n.len();
                            (n, r[l..].to_string())
                        } else {
                            let n: String = r.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
                            let l = n.len();
                            (n, r[l..].to_string())
                        };
                        if n.is_empty() {
                            return Err("`define without a name".into());
                        }
                        if let Some(r2) = r.strip_prefix('(') {
                            let e = r2.find(')').ok_or("bad `define")?;
                            let ps = r2[..e].split(',').map(|s| s.trim().to_string()).collect();
                            macros.insert(n, (Some(ps), r2[e + 1..].to_string()));
                        } else {
                            macros.insert(n, (None, r.trim().to_string()));
                        }
                    }
                    line = String::new();
                }
                "default_nettype" => {
                    let r = rest.trim_start();
                    let n: String = r.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').collect();
                    line = r[n.len()..].to_string();
                }
                "timescale" | "resetall" | "include" => {
                    line = String::new();
                }
                _ => {
                    if !active {
                        line = rest;
                        continue;
                    }
                    let (ps, body) = macros.get(&name).cloned().ok_or_else(|| format!("undefined macro `{name}"))?;
                    match ps {
                        None => line = format!("{} {}", body, rest),
                        Some(ps) => {
                            let r = rest.trim_start();
                            if !r.starts_with('(') {
                                return Err(format!("macro `{name} without arguments"));
                            }
                            let mut depth = 0;
                            let mut end = None;
                            let mut args = vec![String::new()];
                            for (i, c) in r.char_indices() {
                                match c {
                                    '(' => {
                                        depth += 1;
                                        if depth > 1 {
                                            args.last_mut().unwrap().push(c)
                                        }
                                    }
                                    ')' => {
                                        depth -= 1;
                                        if depth == 0 {
                                            end = Some(i);
                                            break;
                                        }
                                        args.last_mut().unwrap().push(c)
                                    }
                                    ',' if depth == 1 => args.push(String::new()),
                                    _ => args.last_mut().unwrap().push(c),
                                }
                            }
                            let end = end.ok_or("unterminated macro arguments")?;
                            let mut b = body.clone();
                            if !b.trim().is_empty() {
                                for (p, a) in ps.iter().zip(&args) {
                                    b = b.replace(p.as_str(), a.trim());
                                }
                            }
                            line = format!("{} {}", b, &r[end + 1..]);
                        }
                    }
                }
            }
        }
    }
    if !stack.is_empty() {
        return Err("unterminated `ifdef".into());
    }
    Ok(out)
}

/// position of the first backtick outside a string literal / line comment / escaped identifier
fn find_tick(l: &str) -> Option<usize> {
    let b = l.as_bytes();
    let mut i = 0;
    let mut in_str = false;
    while i < b.len() {
        let c = b[i];
        if in_str {
            if c == b'\\' {
                i += 1;
            } else if c == b'"' {
                in_str = false;
            }
        } else if c == b'"' {
            in_str = true;
        } else if c == b'\\' {
            // escaped identifier
            while i < b.len() && !b[i].is_ascii_whitespace() {
                i += 1;
            }
        } else if c == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            return None;
        } else if c == b'`' {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// The reserved words of IEEE 1800-2017 (sorted).
pub const RESERVED: &[&str] = &[
    "accept_on", "alias", "always", "always_comb", "always_ff", "always_latch", "and", "assert", "assign",
    "assume", "automatic", "before", "begin", "bind", "bins", "binsof", "bit", "break", "buf", "bufif0", "bufif1",
    "byte", "case", "casex", "casez", "cell", "chandle", "checker", "class", "clocking", "cmos", "config",
    "const", "constraint", "context", "continue", "cover", "covergroup", "coverpoint", "cross", "deassign",
    "default", "defparam", "design", "disable", "dist", "do", "edge", "else", "end", "endcase", "endchecker",
    "endclass", "endclocking", "endconfig", "endfunction", "endgenerate", "endgroup", "endinterface", "endmodule",
    "endpackage", "endprimitive", "endprogram", "endproperty", "endsequence", "endspecify", "endtable", "endtask",
    "enum", "event", "eventually", "expect", "export", "extends", "extern", "final", "first_match", "for",
    "force", "foreach", "forever", "fork", "forkjoin", "function", "generate", "genvar", "global", "highz0",
    "highz1", "if", "iff", "ifnone", "ignore_bins", "illegal_bins", "implements", "implies", "import", "incdir",
    "include", "initial", "inout", "input", "inside", "instance", "int", "integer", "interconnect", "interface",
    "intersect", "join", "join_any", "join_none", "large", "let", "liblist", "library", "local", "localparam",
    "logic", "longint", "macromodule", "matches", "medium", "modport", "module", "nand", "negedge", "nettype",
    "new", "nexttime", "nmos", "nor", "noshowcancelled", "not", "notif0", "notif1", "null", "or", "output",
    "package", "packed", "parameter", "pmos", "posedge", "primitive", "priority", "program", "property",
    "protected", "pull0", "pull1", "pulldown", "pullup", "pulsestyle_ondetect", "pulsestyle_onevent", "pure",
    "rand", "randc", "randcase", "randsequence", "rcmos", "real", "realtime", "ref", "reg", "reject_on",
    "release", "repeat", "restrict", "return", "rnmos", "rpmos", "rtran", "rtranif0", "rtranif1", "s_always",
    "s_eventually", "s_nexttime", "s_until", "s_until_with", "scalared", "sequence", "shortint", "shortreal",
    "showcancelled", "signed", "small", "soft", "solve", "specify", "specparam", "static", "string", "strong",
    "strong0", "strong1", "struct", "super", "supply0", "supply1", "sync_accept_on", "sync_reject_on", "table",
    "tagged", "task", "this", "throughout", "time", "timeprecision", "timeunit", "tran", "tranif0", "tranif1",
    "tri", "tri0", "tri1", "triand", "trior", "trireg", "type", "typedef", "union", "unique", "unique0",
    "unsigned", "until", "until_with", "untyped", "use", "uwire", "var", "vectored", "virtual", "void", "wait",
    "wait_order", "wand", "weak", "weak0", "weak1", "while", "wildcard", "wire", "with", "within", "wor", "xnor",
    "xor",
];

pub fn reserved(w: &str) -> bool {
    RESERVED.binary_search(&w).is_ok()
}

pub fn lex(src: &str) -> Result<Vec<T>, String> {
    let s = src.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'$';
    while i < s.len() {
        let c = s[i];
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if c == b'/' && i + 1 < s.len() && s[i + 1] == b'/' {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if c == b'/' && i + 1 < s.len() && s[i + 1] == b'*' {
            let e = src[i + 2..].find("*/").ok_or("unterminated comment")?;
            i = i + 2 + e + 2;
            continue;
        }
        if c == b'"' {
            let mut j = i + 1;
            let mut st = Vec::new();
            loop {
                if j >= s.len() {
                    return Err("unterminated string".into());
                }
                if s[j] == b'\\' {
                    st.push(s[j + 1]);
                    j += 2;
                    continue;
                }
                if s[j] == b'"' {
                    break;
                }
                st.push(s[j]);
                j += 1;
            }
            out.push(T::Str(String::from_utf8_lossy(&st).to_string()));
            i = j + 1;
            continue;
        }
        if c == b'\\' {
            let mut j = i + 1;
            while j < s.len() && !s[j].is_ascii_whitespace() {
                j += 1;
            }
            let w = &src[i + 1..j];
            // an escaped reserved word is a name; it keeps its backslash here
            out.push(T::Id(if reserved(w) { src[i..j].to_string() } else { w.to_string() }));
            i = j;
            continue;
        }
        if c == b'$' {
            let mut j = i + 1;
            while j < s.len() && isid(s[j]) {
                j += 1;
            }
            out.push(T::Sys(src[i..j].to_string()));
            i = j;
            continue;
        }
        if c.is_ascii_digit() || (c == b'\'' && i + 1 < s.len() && (s[i + 1] as char).is_ascii_alphabetic()) {
            let mut j = i;
            while j < s.len() && (s[j].is_ascii_digit() || s[j] == b'_') {
                j += 1;
            }
            let size: String = src[i..j].replace('_', "");
            let mut k = j;
            while k < s.len() && (s[k] == b' ') {
                k += 1;
            }
            if k < s.len() && s[k] == b'\'' {
                k += 1;
                let mut signed = false;
                if k < s.len() && (s[k] == b's' || s[k] == b'S') {
                    signed = true;
                    k += 1;
                }
                let base = *s.get(k).ok_or("bad literal")? as char;
                k += 1;
                while k < s.len() && s[k] == b' ' {
                    k += 1;
                }
                let st = k;
                while k < s.len() && (s[k].is_ascii_alphanumeric() || s[k] == b'_' || s[k] == b'?') {
                    k += 1;
                }
                let digits = src[st..k].replace('_', "").to_lowercase();
                if digits.is_empty() {
                    return Err(format!("literal without digits near {}", &src[i..k.min(src.len())]));
                }
                let w: Option<usize> = if size.is_empty() { None } else { Some(size.parse().map_err(|_| "bad size")?) };
                if w == Some(0) {
                    return Err("zero-width literal".into());
                }
                let v = match base.to_ascii_lowercase() {
                    'd' => {
                        if digits == "x" {
                            V::x(w.unwrap_or(32))
                        } else if digits == "z" || digits == "?" {
                            V::z(w.unwrap_or(32))
                        } else {
                            let n = BigUint::parse_bytes(digits.as_bytes(), 10).ok_or(format!("bad digits {digits}"))?;
                            V::from_bigu(w.unwrap_or(32.max(n.bits() as usize)), &n)
                        }
                    }
                    b @ ('b' | 'o' | 'h') => {
                        let per = match b {
                            'b' => 1,
                            'o' => 3,
                            _ => 4,
                        };
                        let mut bits = String::new();
                        for ch in digits.chars() {
                            match ch {
                                'x' => bits.push_str(&"x".repeat(per)),
                                'z' | '?' => bits.push_str(&"z".repeat(per)),
                                c => {
                                    let d = c.to_digit(1 << per).ok_or(format!("bad digit {c}"))?;
                                    for q in (0..per).rev() {
                                        bits.push(if (d >> q) & 1 == 1 { '1' } else { '0' });
                                    }
                                }
                            }
                        }
                        let raw = V::from_bits(&bits);
                        let tw = w.unwrap_or(32.max(raw.w));
                        let top = raw.get(raw.w - 1);
                        let fill_signed = top.1 == 1; // x / z extend
                        raw.ext(tw, fill_signed)
                    }
                    _ => return Err(format!("bad base {base}")),
                };
                out.push(T::Num { v, signed, sized: w.is_some() });
                i = k;
                continue;
            }
            let n = BigUint::parse_bytes(size.as_bytes(), 10).ok_or("bad number")?;
            // an unsized decimal is a 32 bit signed integer
            out.push(T::Num { v: V::from_bigu(32, &n), signed: true, sized: false });
            i = j;
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' {
            let mut j = i;
            while j < s.len() && isid(s[j]) {
                j += 1;
            }
            out.push(T::Id(src[i..j].to_string()));
            i = j;
            continue;
        }
        let mut hit = false;
        for p in PUNCT {
            if src[i..].starts_with(p) {
                // "always @(*)" / "(*)" is not an attribute
                if *p == "(*" && src[i..].starts_with("(*)") {
                    continue;
                }
                out.push(T::P(p));
                i += p.len();
                hit = true;
                break;
            }
        }
        if !hit {
            return Err(format!("unexpected character {:?}", src[i..].chars().next()));
        }
    }
    Ok(out)
}

pub struct P {
    t: Vec<T>,
    i: usize,
}

type R<X> = Result<X, String>;

const BINPREC: &[&[&str]] = &[
    &["||"],
    &["&&"],
    &["|"],
    &["^", "~^", "^~"],
    &["&"],
    &["==", "!=", "===", "!=="],
    &["<", "<=", ">", ">="],
    &["<<", ">>", "<<<", ">>>"],
    &["+", "-"],
    &["*", "/", "%"],
    &["**"],
];

impl P {
    pub fn new(t: Vec<T>) -> P {
        P { t, i: 0 }
    }
    fn peek(&self) -> &T {
        self.t.get(self.i).unwrap_or(&T::Eof)
    }
    fn next(&mut self) -> T {
        let r = self.peek().clone();
        self.i += 1;
        r
    }
    fn isp(&self, p: &str) -> bool {
        matches!(self.peek(), T::P(q) if *q == p)
    }
    fn isk(&self, k: &str) -> bool {
        matches!(self.peek(), T::Id(q) if q == k)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.isp(p) || self.isk(p) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            let lo = self.i.saturating_sub(6);
            Err(format!("expected {p:?}, got {:?} after {:?}", self.peek(), &self.t[lo..self.i.min(self.t.len())]))
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.next() {
            T::Id(s) if reserved(&s) => Err(format!("reserved word {s} used as a name (after {:?})", &self.t[self.i.saturating_sub(5)..self.i.saturating_sub(1)])),
            T::Id(s) => Ok(s),
            t => Err(format!("expected identifier, got {t:?} (after {:?})", &self.t[self.i.saturating_sub(5)..self.i.saturating_sub(1)])),
        }
    }
    pub fn file(&mut self) -> R<Vec<Module>> {
        let mut out = vec![];
        loop {
            let attrs = self.attrs()?;
            if *self.peek() == T::Eof {
                return Ok(out);
            }
            let mut m = self.module()?;
            m.attrs = attrs;
            out.push(m);
        }
    }
    fn attrs(&mut self) -> R<Vec<String>> {
        let mut out = vec![];
        while self.eat("(*") {
            let mut cur = String::new();
            loop {
                if self.eat("*)") {
                    break;
                }
                match self.next() {
                    T::Eof => return Err("unterminated attribute".into()),
                    T::P(",") => {
                        out.push(std::mem::take(&mut cur));
                    }
                    T::Id(s) => cur.push_str(&s),
                    T::Str(s) => {
                        cur.push('"');
                        cur.push_str(&s);
                        cur.push('"')
                    }
                    T::P(p) => cur.push_str(p),
                    T::Num { v, .. } => cur.push_str(&v.to_bigu().to_string()),
                    T::Sys(s) => cur.push_str(&s),
                }
            }
            out.push(cur);
        }
        Ok(out)
    }
    fn range(&mut self) -> R<Option<(E, E)>> {
        if self.eat("[") {
            let h = self.expr()?;
            self.want(":")?;
            let l = self.expr()?;
            self.want("]")?;
            Ok(Some((h, l)))
        } else {
            Ok(None)
        }
    }
    fn module(&mut self) -> R<Module> {
        self.want("module")?;
        let name = self.ident()?;
        let mut items = vec![];
        if self.eat("#") {
            self.want("(")?;
            while !self.isp(")") {
                self.eat("parameter");
                if self.isk("integer") || self.isk("int") {
                    self.i += 1;
                }
                let range = self.range()?;
                let n = self.ident()?;
                let value = if self.eat("=") { self.expr()? } else { E::Num { v: V::zero(32), signed: true } };
                items.push(Item::Param { name: n, range, value, local: false });
                if !self.eat(",") {
                    break;
                }
            }
            self.want(")")?;
        }
        self.want("(")?;
        let mut ports = vec![];
        while !self.isp(")") {
            self.attrs()?;
            let dir = if self.eat("input") {
                Dir::In
            } else if self.eat("output") {
                Dir::Out
            } else if self.eat("inout") {
                Dir::InOut
            } else {
                return Err(format!("expected port direction, got {:?}", self.peek()));
            };
            let mut is_reg = false;
            if self.eat("reg") {
                is_reg = true;
            } else if self.eat("logic") || self.eat("wire") {
            }
            let range = self.range()?;
            let n = self.ident()?;
            ports.push(Port { name: n, dir, range, is_reg });
            if !self.eat(",") {
                break;
            }
        }
        self.want(")")?;
        self.want(";")?;
        while !self.eat("endmodule") {
            if *self.peek() == T::Eof {
                return Err(format!("unterminated module {name}"));
            }
            let attrs = self.attrs()?;
            if self.isk("endmodule") {
                continue;
            }
            self.item(&mut items, attrs)?;
        }
        Ok(Module { name, ports, items, attrs: vec![] })
    }
    fn item(&mut self, items: &mut Vec<Item>, attrs: Vec<String>) -> R<()> {
        if self.eat(";") {
            return Ok(());
        }
        for k in ["logic", "reg", "wire"] {
            if self.isk(k) {
                let kind: &'static str = match k {
                    "logic" => "logic",
                    "reg" => "reg",
                    _ => "wire",
                };
                self.i += 1;
                let range = self.range()?;
                loop {
                    let name = self.ident()?;
                    let mem = self.range()?;
                    let init = if self.eat("=") { Some(self.expr()?) } else { None };
                    items.push(Item::Net { name, kind, range: range.clone(), mem, init, attrs: attrs.clone() });
                    if !self.eat(",") {
                        break;
                    }
                }
                return self.want(";");
            }
        }
        if self.isk("localparam") || self.isk("parameter") {
            let local = self.isk("localparam");
            self.i += 1;
            let range = self.range()?;
            let name = self.ident()?;
            self.want("=")?;
            let value = self.expr()?;
            self.want(";")?;
            items.push(Item::Param { name, range, value, local });
            return Ok(());
        }
        if self.eat("assign") {
            let l = self.primary()?;
            self.want("=")?;
            let r = self.expr()?;
            self.want(";")?;
            items.push(Item::Assign(l, r));
            return Ok(());
        }
        if self.eat("always_comb") {
            let s = self.stmt()?;
            items.push(Item::Comb(s));
            return Ok(());
        }
        if self.eat("always") || self.eat("always_ff") {
            self.want("@")?;
            self.want("(")?;
            if self.eat("*") {
                self.want(")")?;
                let s = self.stmt()?;
                items.push(Item::Comb(s));
                return Ok(());
            }
            let mut clocks = vec![];
            let mut any_edge = false;
            loop {
                let edge = if self.eat("posedge") {
                    any_edge = true;
                    true
                } else if self.eat("negedge") {
                    any_edge = true;
                    false
                } else {
                    true
                };
                clocks.push((edge, self.expr()?));
                if !(self.eat(",") || self.eat("or")) {
                    break;
                }
            }
            self.want(")")?;
            let s = self.stmt()?;
            if any_edge {
                items.push(Item::Seq { clocks, body: s });
            } else {
                items.push(Item::OnChange(clocks.into_iter().map(|c| c.1).collect(), s));
            }
            return Ok(());
        }
        if self.eat("initial") {
            let s = self.stmt()?;
            items.push(Item::Initial(s));
            return Ok(());
        }
        // instance
        let module = self.ident()?;
        let mut params = vec![];
        if self.eat("#") {
            self.want("(")?;
            while !self.isp(")") {
                self.want(".")?;
                let n = self.ident()?;
                self.want("(")?;
                let e = self.expr()?;
                self.want(")")?;
                params.push((n, e));
                if !self.eat(",") {
                    break;
                }
            }
            self.want(")")?;
        }
        let name = self.ident()?;
        self.want("(")?;
        let mut ports = vec![];
        while !self.isp(")") {
            self.want(".")?;
            let n = self.ident()?;
            self.want("(")?;
            let e = if self.isp(")") { None } else { Some(self.expr()?) };
            self.want(")")?;
            ports.push((n, e));
            if !self.eat(",") {
                break;
            }
        }
        self.want(")")?;
        self.want(";")?;
        items.push(Item::Inst { module, name, params, ports, attrs });
        Ok(())
    }
    fn stmt(&mut self) -> R<S> {
        self.attrs()?;
        if self.eat(";") {
            return Ok(S::Nop);
        }
        if self.eat("#") {
            // "#0" delay
            self.next();
            return if self.isp(";") {
                self.i += 1;
                Ok(S::Nop)
            } else {
                self.stmt()
            };
        }
        if self.eat("begin") {
            if self.eat(":") {
                self.ident()?;
            }
            let mut v = vec![];
            while !self.eat("end") {
                if *self.peek() == T::Eof {
                    return Err("unterminated begin".into());
                }
                v.push(self.stmt()?);
            }
            return Ok(S::Block(v));
        }
        if self.eat("if") {
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            let t = self.stmt()?;
            let e = if self.eat("else") { Some(Box::new(self.stmt()?)) } else { None };
            return Ok(S::If(c, Box::new(t), e));
        }
        if self.eat("assert") {
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            if self.eat("else") {
                self.stmt()?;
            } else {
                self.want(";")?;
            }
            return Ok(S::Assert(c));
        }
        for q in ["priority", "unique", "unique0"] {
            if self.isk(q) {
                self.i += 1;
            }
        }
        for k in ["casez", "casex", "case"] {
            if self.isk(k) {
                self.i += 1;
                self.want("(")?;
                let sel = self.expr()?;
                self.want(")")?;
                let mut arms = vec![];
                let mut default = None;
                while !self.eat("endcase") {
                    if *self.peek() == T::Eof {
                        return Err("unterminated case".into());
                    }
                    if self.eat("default") {
                        self.eat(":");
                        default = Some(Box::new(self.stmt()?));
                        continue;
                    }
                    let mut es = vec![self.expr()?];
                    while self.eat(",") {
                        es.push(self.expr()?);
                    }
                    self.want(":")?;
                    let s = self.stmt()?;
                    arms.push((es, s));
                }
                let kind = match k {
                    "casez" => "casez",
                    "casex" => "casex",
                    _ => "case",
                };
                return Ok(S::Case { kind, sel, arms, default });
            }
        }
        if let T::Sys(n) = self.peek().clone() {
            self.i += 1;
            if self.eat("(") {
                let mut d = 1;
                while d > 0 {
                    match self.next() {
                        T::P("(") => d += 1,
                        T::P(")") => d -= 1,
                        T::Eof => return Err("unterminated system task".into()),
                        _ => {}
                    }
                }
            }
            self.want(";")?;
            return Ok(S::Sys(n));
        }
        let l = self.primary()?;
        if self.eat("<=") {
            let r = self.expr()?;
            self.want(";")?;
            return Ok(S::NonBlocking(l, r));
        }
        self.want("=")?;
        let r = self.expr()?;
        self.want(";")?;
        Ok(S::Blocking(l, r))
    }
    pub fn expr(&mut self) -> R<E> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let t = self.expr()?;
            self.want(":")?;
            let e = self.expr()?;
            return Ok(E::Tern(Box::new(c), Box::new(t), Box::new(e)));
        }
        Ok(c)
    }
    fn bin(&mut self, lvl: usize) -> R<E> {
        if lvl >= BINPREC.len() {
            return self.unary();
        }
        let mut l = self.bin(lvl + 1)?;
        loop {
            let op = match self.peek() {
                T::P(p) if BINPREC[lvl].contains(p) => *p,
                _ => return Ok(l),
            };
            self.i += 1;
            let r = self.bin(lvl + 1)?;
            l = E::Bin(op, Box::new(l), Box::new(r));
        }
    }
    fn unary(&mut self) -> R<E> {
        if let T::P(p) = self.peek().clone() {
            if ["+", "-", "!", "~", "&", "|", "^", "~&", "~|", "~^", "^~"].contains(&p) {
                self.i += 1;
                let e = self.unary()?;
                return Ok(E::Un(p, Box::new(e)));
            }
        }
        self.primary()
    }
    fn primary(&mut self) -> R<E> {
        let mut e = match self.next() {
            T::Num { v, signed, .. } => return Ok(E::Num { v, signed }),
            T::Str(s) => return Ok(E::Str(s)),
            T::P("(") => {
                let e = self.expr()?;
                self.want(")")?;
                return Ok(e);
            }
            T::P("{") => {
                let first = self.expr()?;
                if self.eat("{") {
                    let mut inner = vec![self.expr()?];
                    while self.eat(",") {
                        inner.push(self.expr()?);
                    }
                    self.want("}")?;
                    self.want("}")?;
                    return Ok(E::Rep(Box::new(first), Box::new(E::Cat(inner))));
                }
                let mut v = vec![first];
                while self.eat(",") {
                    v.push(self.expr()?);
                }
                self.want("}")?;
                return Ok(E::Cat(v));
            }
            T::Sys(s) => {
                let mut args = vec![];
                if self.eat("(") {
                    while !self.isp(")") {
                        args.push(self.expr()?);
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.want(")")?;
                }
                return match (s.as_str(), args.len()) {
                    ("$signed", 1) => Ok(E::Signed(Box::new(args.remove(0)))),
                    ("$unsigned", 1) => Ok(E::Unsigned(Box::new(args.remove(0)))),
                    _ => Ok(E::Call(s, args)),
                };
            }
            T::Id(s) if !reserved(&s) => E::Id(s),
            t => {
                return Err(format!(
                    "unexpected token {t:?} in expression (after {:?})",
                    &self.t[self.i.saturating_sub(6)..self.i.saturating_sub(1).min(self.t.len())]
                ));
            }
        };
        while self.eat("[") {
            let a = self.expr()?;
            if self.eat(":") {
                let b = self.expr()?;
                e = E::Part(Box::new(e), Box::new(a), Box::new(b));
            } else if self.eat("+:") {
                let b = self.expr()?;
                e = E::Up(Box::new(e), Box::new(a), Box::new(b));
            } else if self.eat("-:") {
                let b = self.expr()?;
                e = E::Down(Box::new(e), Box::new(a), Box::new(b));
            } else {
                e = E::Bit(Box::new(e), Box::new(a));
            }
            self.want("]")?;
        }
        Ok(e)
    }
}

pub fn parse(src: &str) -> R<Vec<Module>> {
    let pp = preprocess(src, &[])?;
    let t = lex(&pp)?;
    P::new(t).file()
}
