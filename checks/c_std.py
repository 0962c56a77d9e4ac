"""C20: the standard library against SpadeStd.tla."""
import json, os, random
from lib import *
from c_sem import rng_of

# types: ("u",w) ("s",w) ("b",) ("a",t,n) ("t",ts) ("o",t);  values: bit lists (most significant
# first), 0/1, lists, [] or [v]
U = lambda w: ("u", w)
S = lambda w: ("s", w)
BO = ("b",)
A = lambda t, n: ("a", t, n)
T = lambda *ts: ("t", list(ts))
O = lambda t: ("o", t)

def rt(t):
    k = t[0]
    return {"u": lambda: "uint<%d>" % t[1], "s": lambda: "int<%d>" % t[1], "b": lambda: "bool", "a": lambda: "[%s; %d]" % (rt(t[1]), t[2]),
            "t": lambda: "(%s)" % ", ".join(map(rt, t[1])), "o": lambda: "Option<%s>" % rt(t[1])}[k]()
def width(t):
    k = t[0]
    if k in "us": return t[1]
    if k == "b": return 1
    if k == "a": return width(t[1]) * t[2]
    if k == "t": return sum(map(width, t[1]))
    return 1 + width(t[1])
def enc(t, v):
    k = t[0]
    if k in "us": return "".join(map(str, v))
    if k == "b": return str(v)
    if k == "a": return "".join(enc(t[1], x) for x in reversed(v))
    if k == "t": return "".join(enc(a, x) for a, x in zip(t[1], v))
    return "1" + enc(t[1], v[0]) if v else "0" + "0" * width(t[1])
class X(Exception): pass
def dec(t, b):
    k = t[0]
    if k in "us":
        if set(b) - set("01"): raise X()
        return [int(c) for c in b]
    if k == "b":
        if b not in ("0", "1"): raise X()
        return int(b)
    if k == "a":
        w = width(t[1])
        return [dec(t[1], b[len(b) - (i + 1) * w:len(b) - i * w]) for i in range(t[2])]
    if k == "t":
        o, p = [], 0
        for x in t[1]: o.append(dec(x, b[p:p + width(x)])); p += width(x)
        return o
    if b[0] == "0": return []
    if b[0] == "1": return [dec(t[1], b[1:])]
    raise X()

class G:
    def __init__(self, r): self.r = r
    def bits(self, w):
        k = self.r.random()
        if k < .1: return [0] * w
        if k < .2: return [1] * w
        if k < .3: return [1] + [0] * (w - 1)
        if k < .4: return [0] * (w - 1) + [1]
        return [self.r.randrange(2) for _ in range(w)]
    def val(self, t):
        k = t[0]
        if k in "us": return self.bits(t[1])
        if k == "b": return self.r.randrange(2)
        if k == "a": return [self.val(t[1]) for _ in range(t[2])]
        if k == "t": return [self.val(x) for x in t[1]]
        return [self.val(t[1])] if self.r.random() < .7 else []
    def w(self): return self.r.choice([1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 31, 40])
    def ty(self, d=2):
        r = self.r
        k = r.random()
        if d == 0 or k < .6: return r.choice([U, U, S])(r.choice([1, 2, 3, 5, 8])) if r.random() < .85 else BO
        if k < .75: return A(self.ty(d - 1), r.randint(1, 3))
        if k < .9: return T(*[self.ty(d - 1) for _ in range(r.choice([2, 2, 3]))])
        return O(self.ty(d - 1))
    def n(self): return self.r.choice([1, 2, 2, 3, 4, 5, 6, 7, 8])
    # function arguments: (source, record, result type)
    def lit(self, v): return "%du%d" % (int("0" + "".join(map(str, v)), 2), len(v))
    def f1(self, w, kinds):
        k = self.r.choice(kinds)
        c = self.bits(w); l = self.lit(c); b = self.r.choice(["fn |x| %s", "fn |x| { %s }", "fn |x| { let y = x; %s }"])
        src, t = {"addc": ("x +. %s" % l, U(w)), "xor": ("x ^ %s" % l, U(w)), "pair": ("[x, ~x]", A(U(w), 2)), "gt": ("x > %s" % l, BO),
                  "eq": ("x == %s" % l, BO), "lsb": ("x.lsb()", BO),
                  "opt": ("if x > %s { Some(x +. %s) } else { None }" % (l, l), O(U(w)))}[k]
        return b % src, dict(op=k, c=c), t
    def f2(self, wa, w, kinds):
        k = self.r.choice(kinds)
        c = self.bits(w); l = self.lit(c)
        src = {"sub": "a -. x", "mix": "(a +. a) +. x", "first": "a", "second": "x", "nei": "a && (x != %s)" % l,
               "cnt": "if x > %s { a +. 1 } else { a }" % l}[k]
        return "fn |a, x| %s" % src, dict(op=k, c=c)

SAME = ["addc", "xor"]
ANY = ["addc", "xor", "pair", "gt", "eq", "lsb", "opt"]
PRED = ["gt", "eq", "lsb"]

def alt(r, *xs): return r.choice(xs)
def z(f):           # functions that also take empty arrays
    def h(g, r, n, t, w): return f(g, r, r.choice([0, n, n, n, n]), t, w)
    return h
@z
def c_unfold(g, r, n, t, w):
    f, d, _ = g.f1(w, SAME); return dict(fn="unfold", f=d, n=n), [U(w)], A(U(w), n), "std::array::unfold::<uint<%d>, %d>(a0, %s)" % (w, n, f)
@z
def c_interleave(g, r, n, t, w): return dict(fn="interleave"), [A(t, n)] * 2, A(t, 2 * n), alt(r, "a0.interleave(a1)", "std::array::interleave_arrays(a0, a1)")
@z
def c_zip(g, r, n, t, w):
    u = g.ty(); return dict(fn="zip"), [A(t, n), A(u, n)], A(T(t, u), n), alt(r, "a0.zip(a1)", "std::array::zip(a0, a1)")
@z
def c_unzip(g, r, n, t, w):
    u = g.ty(); return dict(fn="unzip"), [A(T(t, u), n)], T(A(t, n), A(u, n)), "a0.unzip()"
@z
def c_all(g, r, n, t, w):
    f, d, _ = g.f1(w, PRED); m = r.choice(["all", "any"]); return dict(fn=m, f=d), [A(U(w), n)], BO, "a0.%s(%s)" % (m, f)
def c_chunks(g, r, n, t, w):
    k = r.randint(1, 4); return dict(fn="chunks_of", n=k), [A(t, k * r.randint(1, 4))], None, "a0.chunks::<%d>()" % k
@z
def c_concat(g, r, n, t, w):
    m = g.n(); return dict(fn="concat"), [A(t, n), A(t, m)], A(t, n + m), alt(r, "a0.concat(a1)", "std::conv::concat_arrays(a0, a1)")
@z
def c_reversed(g, r, n, t, w): return dict(fn="reversed"), [A(t, n)], A(t, n), alt(r, "a0.reversed()", "std::conv::flip_array(a0)")
def c_fold(g, r, n, t, w):
    k = r.choice([0, 1, 2])
    if k == 0: f, d = g.f2(w, w, ["sub", "mix", "first", "second"]); b = U(w)
    elif k == 1: f, d = g.f2(1, w, ["nei"]); b = BO
    else: x = r.randint(1, 5); f, d = g.f2(x, w, ["cnt"]); b = U(x)
    n = r.choice([0, n, n, n])
    return dict(fn="fold", f=d), [A(U(w), n), b], b, "a0.fold(a1, %s)" % f
def c_reduce(g, r, n, t, w):
    f, d = g.f2(w, w, ["sub", "mix", "first", "second"]); return dict(fn="reduce", f=d), [A(U(w), n)], U(w), "a0.reduce(%s)" % f
@z
def c_map(g, r, n, t, w):
    f, d, o = g.f1(w, ANY); return dict(fn="map", f=d), [A(U(w), n)], A(o, n), "a0.map(%s)" % f
def c_push(g, r, n, t, w):
    m = r.choice(["push_back", "push_front", "shift_back", "shift_front"])
    return dict(fn=m), [A(t, n), t], A(t, n + (m[0] == "p")), "a0.%s(a1)" % m
def c_window(g, r, n, t, w):
    m = r.randint(1, n); return dict(fn="sliding_window", n=m), [A(t, n)], A(A(t, m), n - m + 1), "a0.sliding_window::<%d>()" % m
def c_split(g, r, n, t, w):
    m = r.randint(0, n); return dict(fn="split_at", n=m), [A(t, n)], T(A(t, m), A(t, n - m)), "a0.split_at::<%d>()" % m
def c_len(g, r, n, t, w): return dict(fn="len"), [A(t, n)], U(n.bit_length()), "a0.len()"
def c_ends(g, r, n, t, w):
    m = r.choice(["first", "last"]); return dict(fn=m), [A(t, n)], t, "a0.%s()" % m
@z
def c_flatten(g, r, n, t, w):
    m = g.n(); return dict(fn="flatten"), [A(A(t, m), n)], A(t, n * m), "a0.flatten()"
def c_bits(g, r, n, t, w):
    m = r.choice(["reduce_and", "reduce_or", "reduce_xor"]); n = r.choice([1, n, 17, 40])
    return dict(fn=m), [A(BO, n)], BO, alt(r, "a0.%s()" % m, "std::ops::%s(a0)" % m)
def c_default(g, r, n, t, w):
    def z(t): return {"u": lambda: [0] * t[1], "s": lambda: [0] * t[1], "b": lambda: 0, "a": lambda: [z(t[1])] * t[2], "t": lambda: [z(x) for x in t[1]], "o": lambda: []}[t[0]]()
    return dict(fn="zero", d=z(t)), [], t, alt(r, "std::default::default()", "std::default::default::<%s>()" % rt(t))
def c_defaults(g, r, n, t, w):
    t = T(*[g.ty(1) for _ in range(r.randint(2, 8))]); c = c_default(g, r, n, t, w)[0]
    return c, [], t, "std::default::default()"
def c_clockbits(g, r, n, t, w):
    return dict(fn="same"), [BO], BO, "unsafe { %s }" % alt(r, "a0.to_clock().to_bool()", "a0.as_clock().as_bool()", "inst std::conv::clock_to_bool(inst std::conv::bool_to_clock(a0))")
def c_transpose(g, r, n, t, w):
    if r.random() < .5:
        return dict(fn="same"), [A(t, n)], A(t, n), "{ let (o, i) = port::<%s>(); let i = i.transpose(); %s o }" % (rt(A(t, n)), " ".join("set i[%d] = a0[%d];" % (k, k) for k in r.sample(range(n), n)))
    return dict(fn="same"), [A(t, n)], A(t, n), "{ %s let i: inv %s = [%s].transpose(); set i = a0; [%s] }" % (
        " ".join("let (o%d, i%d) = port::<%s>();" % (k, k, rt(t)) for k in range(n)), rt(A(t, n)), ", ".join("i%d" % k for k in range(n)), ", ".join("o%d" % k for k in range(n)))
def c_tobits(g, r, n, t, w):
    s = r.random() < .5; y = (S if s else U)(w); k = "int" if s else "uint"
    return dict(fn="to_bits"), [y], A(BO, w), alt(r, "a0.as_bits()", "a0.to_bits()", "std::conv::%s_to_bits(a0)" % k)
def c_frombits(g, r, n, t, w):
    s = r.random() < .5; y = (S if s else U)(w); k = "int" if s else "uint"
    return dict(fn="from_bits"), [A(BO, w)], y, alt(r, "a0.as_%s()" % k, "a0.to_%s()" % k, "std::conv::bits_to_%s(a0)" % k)
def c_cast(g, r, n, t, w):
    s = r.random() < .5
    return dict(fn="same"), [(S if s else U)(w)], (U if s else S)(w), alt(r, "a0.as_%s()" % ("uint" if s else "int"), "std::conv::%s(a0)" % ("int_to_uint" if s else "uint_to_int"))
def c_b2u(g, r, n, t, w): return dict(fn="b2u"), [BO], U(1), alt(r, "a0.as_uint()", "a0.to_uint()")
def c_widen(g, r, n, t, w):
    k = r.choice("usU"); m = w + r.choice([0, 1, 2, 9])
    if k == "U": return dict(fn="widen", n=w + 1, k="u"), [U(w)], S(w + 1), "a0.to_int()"
    y = U if k == "u" else S
    return dict(fn="widen", n=m, k=k), [y(w)], y(m), alt(r, "%s(a0)" % ("zext" if k == "u" else "sext"), "%s::<%d, %d>(a0)" % ("zext" if k == "u" else "sext", w, m))
def c_trunc(g, r, n, t, w):
    m = r.randint(1, w); y = r.choice([U, S]); return dict(fn="trunc", n=m), [y(w)], y(m), alt(r, "trunc(a0)", "a0.trunc::<%d>()" % m, "a0.trunc()", "std::num::trunc(a0)")
def c_bytes(g, r, n, t, w):
    m = r.choice([("le", "to_le_bytes"), ("be", "to_be_bytes"), ("german", "to_german_endian_bytes")]); k = r.choice([1, 2, 3, 4, 5, 8])
    if m[0] == "german": k = r.choice([1, 2, 4, 8])
    return dict(fn=m[0]), [U(8 * k)], A(U(8), k), "a0.%s()" % m[1]
def c_abs(g, r, n, t, w):
    k = r.random()
    if k < .7: return dict(fn="abs"), [S(w)], U(w), alt(r, "a0.abs()", "std::num::abs(a0)")
    return dict(fn="abs"), [S(w)], S(w), "std::ops::abs_trunc(a0)"
def c_minmax(g, r, n, t, w):
    m = r.choice(["min", "max"]); k = r.choice("us"); y = U if k == "u" else S
    return dict(fn=m, k=k), [y(w)] * 2, y(w), alt(r, "a0.%s(a1)" % m, "a0.%s(a1)" % m if k == "u" else "std::ops::%s(a0, a1)" % m)
def c_order(g, r, n, t, w): return dict(fn="order"), [S(w)] * 2, T(S(w), S(w)), "std::ops::order(a0, a1)"
def c_concatn(g, r, n, t, w):
    y = r.choice([U, S]); v = g.w(); return dict(fn="concat_num"), [y(w), y(v)], y(w + v), alt(r, "a0.concat(a1)", "std::num::concat(a0, a1)", "a0 `concat` a1")
def c_internum(g, r, n, t, w): return dict(fn="interleave_num"), [U(w)] * 2, U(2 * w), alt(r, "a0.interleave(a1)", "std::ops::interleave(a0, a1)")
def c_gray(g, r, n, t, w):
    return dict(fn="gray"), [U(w)], U(w), alt(r, "a0.to_gray().inner", "std::ops::bin_to_gray(a0)", "a0.to_gray().as_bits().as_uint()")
def c_ungray(g, r, n, t, w): return dict(fn="ungray"), [U(w)], U(w), alt(r, "std::num::Gray(a0).to_uint()", "std::ops::gray_to_bin(a0)")
def c_round(g, r, n, t, w): return dict(fn="same"), [U(w)], U(w), "a0.to_gray().to_uint()"
def c_msb(g, r, n, t, w):
    m = r.choice(["msb", "lsb", "sign_bit"]); y = S if m == "sign_bit" else r.choice([U, S])
    return dict(fn="lsb" if m == "lsb" else "msb"), [y(w)], BO, "a0.%s()" % m
def c_div(g, r, n, t, w):
    m = r.choice(["div", "mod"]); k = r.choice("us"); w = r.choice([1, 2, 3, 5, 8, 14]); y = U if k == "u" else S
    return dict(fn=m, k=k), [y(w)] * 2, y(w), alt(r, "a0 `std::ops::comb_%s` a1" % m, "std::ops::comb_%s(a0, a1)" % m)
def c_some(g, r, n, t, w):
    m = r.choice(["is_some", "is_none"]); return dict(fn=m), [O(t)], BO, "a0.%s()" % m
def c_unwrap(g, r, n, t, w): return dict(fn="unwrap_or"), [O(t), t], t, "a0.unwrap_or(a1)"
def c_omap(g, r, n, t, w):
    if r.random() < .5: f, d, o = g.f1(w, ANY); return dict(fn="opt_map", f=d), [O(U(w))], O(o), "a0.map(%s)" % f
    f, d, o = g.f1(w, ["opt"]); return dict(fn="and_then", f=d), [O(U(w))], o, "a0.and_then(%s)" % f
def c_oeq(g, r, n, t, w):
    m = r.choice([("eq", "=="), ("ne", "!=")]); t = O(r.choice([U(w), S(w), BO, A(U(r.randint(1, 6)), r.randint(1, 3))]))
    return dict(fn=m[0]), [t, t], BO, alt(r, "a0 %s a1" % m[1], "a0.%s(a1)" % m[0])
def c_graycmp(g, r, n, t, w):
    m = r.choice([("eq", "=="), ("ne", "!=")]); return dict(fn=m[0]), [U(w)] * 2, BO, "a0.to_gray() %s a1.to_gray()" % m[1]
def c_wire(g, r, n, t, w):
    return dict(fn="same"), [t], t, alt(r, "{ let m = inst std::ports::new_mut_wire(); set m = a0; inst std::ports::read_mut_wire(m) }",
                                        "{ let m = inst std::ports::new_mut_wire(); let (v, m) = m.inspect(); set m = a0; v }")
FNS = {k[2:]: v for k, v in globals().items() if k.startswith("c_") and callable(v)}

def s_edge(g, r):
    m = r.choice(["rising_edge", "falling_edge"])
    return dict(fn=m), [BO], BO, "inst std::io::%s(clk, a0)" % m
def s_pad(g, r):
    t = U(r.choice([1, 4, 9])) if r.random() < .6 else g.ty(1); n = r.randint(1, 5)
    while t[0] not in "us": t = g.ty(0)
    d = g.bits(t[1]); v = int("".join(map(str, d)), 2)
    l = "%d" % (v - 2 ** t[1] if t[0] == "s" and d[0] else v)
    return dict(fn="padded_sliding_window", n=n, d=d), [O(t), BO], O(A(t, n)), "a0.inst padded_sliding_window::<%d>(clk, a1, %s)" % (n, l)
def s_chunks(g, r):  # n = 1: every value by itself
    t = g.ty(1); n = r.randint(1, 5)
    return dict(fn="chunks", n=n), [O(t), BO], O(A(t, n)), "a0.inst chunks::<%d>(clk, a1)" % n
def s_pmap(g, r):
    w = g.w(); f, d, o = g.f1(w, ANY); n = r.randint(1, 4)
    body = f[len("fn |x| "):].strip()
    k = r.randint(0, n)
    lam = "pipeline(%d) |clk, x| { %s let y = %s; %s y }" % (n, "reg; " * k, body if not body.startswith("{") else body, "reg; " * (n - k))
    return dict(fn="pmap", n=n, f=d), [O(U(w))], O(o), "a0.inst(%d) pmap::<%d, %s>(clk, %s)" % (n, n, rt(o), lam)
def s_bram(g, r):
    t = g.ty(1); w = r.choice([1, 2, 3])
    return dict(fn="bram"), [O(t), U(w), U(w)], t, """{
        let (wp, rp) = inst std::mem::dp_bram::<%d, %s, %d>(clk, clk);
        %s
        %s
    }""" % (w, rt(t), 2 ** w, alt(r, "set wp.addr = a1; set wp.write = a0;", "let _ = wp.write(a1, a0);"),
            alt(r, "rp.inst(1) read(clk, a2)", "inst(1) std::mem::read_read_port(clk, a2, rp)"))
SEQ = [s_edge, s_pad, s_chunks, s_pmap, s_bram]

def finish(g, c, ps, res, body, seq):
    r = g.r
    if res is None:       # chunks
        t, n = ps[0][1], ps[0][2]; res = A(A(t, c["n"]), n // c["n"])
    rows = []
    if seq:
        p = r.choice([.05, .2])
        for i in range(r.randint(6, 40)):
            a = [g.val(t) for t in ps]
            if c["fn"] in ("padded_sliding_window", "chunks"): a[1] = 1 if i == 0 or r.random() < p else 0
            rows.append(a)
    else:
        for _ in range(12): rows.append([g.val(t) for t in ps])
        for a in rows:
            if c["fn"] in ("div", "mod"):
                while not any(a[1]): a[1] = g.bits(len(a[1]))
            if c["fn"] in ("eq", "ne") and r.random() < .4: a[1] = a[0]
    src = "entity top(%s) -> %s {\n    %s\n}\n" % (", ".join((["clk: clock"] if seq else []) + ["a%d: %s" % (i, rt(t)) for i, t in enumerate(ps)]), rt(res), body)
    if "pmap" in body:
        src = "pipeline(%d) top(%s) -> %s {\n    let z = %s;\n    %s z\n}\n" % (c["n"], ", ".join(["clk: clock"] + ["a%d: %s" % (i, rt(t)) for i, t in enumerate(ps)]), rt(res), body, "reg; " * c["n"])
    if "inst(1)" in body and c["fn"] == "bram":
        src = "pipeline(1) top(clk: clock, %s) -> %s {\n    let z = %s;\n    reg; z\n}\n" % (", ".join("a%d: %s" % (i, rt(t)) for i, t in enumerate(ps)), rt(res), body)
    c["seq"] = seq
    return dict(c=c, ps=ps, res=res, rows=rows, src=src)

def run_cases(ck, cases, batch=600):
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        jobs = [dict(src=x["src"], stdlib=True, sims=[dict(top="top", zero=["clk_i"] if x["c"]["seq"] else [], watch=["output__"] if width(x["res"]) else [],
                     steps=[dict(set={"a%d_i" % i: "0b" + enc(t, v) for i, (t, v) in enumerate(zip(x["ps"], a)) if width(t) > 0},
                                 tick=["clk_i"] if x["c"]["seq"] else []) for a in x["rows"]])]) for x in part]
        res = ck.jobs(jobs)
        runs = []
        for i, (x, r) in enumerate(zip(part, res)):
            s = (r.get("sims") or [{}])[0]
            if not r["ok"] or r.get("verr") or s.get("err"):
                ck.violation("std:%s:build" % x["c"]["fn"], "the function cannot be used: %s" % str((r.get("panic") or "") + (r.get("diags") or "") if not r["ok"] else r.get("verr") or s.get("err"))[:1200], dict(src=x["src"])); continue
            rows = []
            for k, (a, o) in enumerate(zip(x["rows"], s["out"])):
                try: rows.append(dict(a=a, upto=k + 1, v=dec(x["res"], o[0]) if width(x["res"]) else dec(x["res"], ""), **{"def": True}))
                except X: rows.append(dict(a=a, upto=k + 1, v=o[0], **{"def": False}))
            runs.append(dict(id=b + i, c=x["c"], rows=rows))
        f = os.path.join(ck.tmp, "std%d.json" % b)
        json.dump(runs, open(f, "w"))
        out, st = ck.tlc_ok("SpadeStd", env=dict(TRACE_FILE=f))
        bad = [json.loads(json.loads(l)[7:]) for l in out.splitlines() if l.startswith('"REJECT ')]
        want = sum(len(x["rows"]) + 1 for x in runs)
        if not bad and st["distinct"] != want: raise ToolError("TLC explored %d states, expected %d" % (st["distinct"], want))
        ck.cov["traces_validated_against_impl"] += len(runs)
        ck.cov["samples"] += want
        for rid, k, e, o in bad:
            x = part[rid - b]
            ck.violation("std:%s:value" % x["c"]["fn"], "row %d: arguments %s: expected %s, observed %s" % (k, x["rows"][k - 1], e, o),
                         dict(src=x["src"], c=x["c"], rows=x["rows"][:k]))

def run(prop, tier):
    ck = Check(prop, tier)
    cases = []
    for i, f in enumerate(list(FNS) * ck.pick(8, 200)):        # every function, every run
        g = G(rng_of(ck, i, 2001))
        c, ps, res, body = FNS[f](g, g.r, g.n(), g.ty(), g.w())
        cases.append(finish(g, c, ps, res, body, False))
    for i, f in enumerate(SEQ * ck.pick(16, 400)):
        g = G(rng_of(ck, i, 2002))
        c, ps, res, body = f(g, g.r)
        cases.append(finish(g, c, ps, res, body, True))
    run_cases(ck, cases)
    return ck.finish()
