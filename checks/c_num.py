"""Numbers of the type system: literals at the limits of wide types (C06), bounds of ranges (C11),
const generic arithmetic, conditions, where clauses and widths (C13), by verdict."""
import random
from sp import *
from c_sem import rng_of

EMPTY = dict(units={}, structs={}, enums={}, impls=[], top="top")
def bits(n): return [int(c) for c in bin(n)[2:]] if n else []

# ------------------------------------------------------------------ literals
def spell(r, v):
    a = abs(v)
    k = r.random()
    s = str(a) if k < .5 else hex(a) if k < .75 else bin(a) if k < .9 else "0o%o" % a
    return ("-" if v < 0 else "") + s

FORMS = [
    "fn top() -> {t} {{ {v} }}",
    "entity top() -> bool {{ let x: {t} = {v}; true }}",
    "fn f(x: {t}) -> bool {{ true }} fn top() -> bool {{ f({v}) }}",
    "fn f(a: bool, x: {t}) -> bool {{ a }} fn top() -> bool {{ f$(x: {v}, a: true) }}",
    "fn top(x: {t}) -> bool {{ match x {{ {v} => true, _ => false }} }}",
    "fn top(x: ({t}, bool)) -> bool {{ match x {{ ({v}, _) => true, _ => false }} }}",
    "fn top(x: {t}) -> bool {{ x == {v} }}",
    "fn top(x: {t}) -> {t} {{ x & {v} }}",
    "fn top(x: {t}) -> {t} {{ x +. {v} }}",
    "fn top(x: {t}, c: bool) -> {t} {{ if c {{ x }} else {{ {v} }} }}",
    "fn top() -> [{t}; 3] {{ [0, {v}, 1] }}",
    "fn top() -> [{t}; 2] {{ [{v}; 2] }}",
    "fn top() -> (bool, {t}) {{ (true, {v}) }}",
    "struct S {{ a: bool, b: {t} }} fn top() -> S {{ S(true, {v}) }}",
    "enum E {{ A, B {{ x: {t} }} }} fn top() -> E {{ E::B({v}) }}",
    "struct S<T> {{ b: T }} fn top() -> S<{t}> {{ S({v}) }}",
    "fn id<T>(x: T) -> T {{ x }} fn top() -> {t} {{ id({v}) }}",
    "entity top(clk: clock, rst: bool) -> {t} {{ reg(clk) x reset(rst: {v}) = x; x }}",
    "entity top(clk: clock) -> {t} {{ reg(clk) x initial({v}) = x; x }}",
    "fn top(x: {t}) -> bool {{ let y = {v}; let z = x == y; z }}",
    "entity top(o: inv {t}) {{ set o = {v}; }}",
    "fn f<#int N>() -> {t} {{ N }} fn top() -> {t} {{ f::<{{{v}}}>() }}",
]
SUFFIXED = ["fn top() -> {t} {{ {s} }}", "fn top() -> bool {{ {s} == 0 }}", "fn top(x: {t}) -> bool {{ match x {{ {s} => true, _ => false }} }}"]

def lit_cases(ck, n):
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 613)
        k = r.choice("us")
        w = r.choice([r.randint(0, 12), 31, 32, 33, 63, 64, 65, r.choice([100, 127, 128, 129, 200])])
        v = r.choice([2 ** w, 2 ** w - 1, 2 ** w + 1, 2 ** max(w - 1, 0), 2 ** max(w - 1, 0) - 1, 2 ** max(w - 1, 0) + 1,
                      r.getrandbits(w + 1), r.getrandbits(max(w - 1, 1)), 2 ** (w + 3)])
        if r.random() < .45: v = -v
        t = ("uint<%d>" if k == "u" else "int<%d>") % w
        if r.random() < .15 and v >= 0:
            src = r.choice(SUFFIXED).format(t=t, s=spell(r, v) + k.replace("s", "i") + str(w))
        else: src = r.choice(FORMS).format(t=t, v=spell(r, v))
        cases.append(dict(src=src, prog=EMPTY, q=dict(k="fits", kind=k, width=w, neg=v < 0, bits=bits(abs(v))), tag="literal"))
    return cases

# ------------------------------------------------------------------ ranges
def range_cases(ck, n):
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 1113)
        m = r.choice([1, 2, 3, 4, 5, 8, 9])
        a = r.choice([None, 0, 1, m - 1, m, m + 1, r.randint(0, m + 2)])
        b = r.choice([None, 0, 1, m - 1, m, m + 1, m + 2, r.randint(0, m + 2)])
        lo, hi = a or 0, m if b is None else b
        ln = max(0, hi - lo) + r.choice([0] * 8 + [1, -1])
        t = r.choice(["bool", "uint<3>", "(bool, int<2>)"])
        s = lambda x: "" if x is None else str(x)
        idx = "x[%s..%s]" % (s(a), s(b))
        if ln < 0: continue
        if r.random() < .2:         # one element, by a constant
            v = r.choice([0, m - 1, m, m + 1, 2 ** (m - 1).bit_length() - 1, 2 ** (m - 1).bit_length(), r.randint(0, 2 * m)])
            src = r.choice(["fn top(x: [%s; %d]) -> %s { x[%s] }" % (t, m, t, spell(r, v)),
                            "fn f<#uint N>(x: [%s; N]) -> %s { x[%s] } fn top(x: [%s; %d]) -> %s { f(x) }" % (t, t, spell(r, v), t, m, t)])
            cases.append(dict(src=src, prog=EMPTY, q=dict(k="fits", kind="u", width=(m - 1).bit_length(), neg=False, bits=bits(v)), tag="index"))
            continue
        c = r.random()
        if c < .35: src = "fn top(x: [%s; %d]) -> [%s; %d] { %s }" % (t, m, t, ln, idx)
        elif c < .55: src = "fn top(x: [%s; %d]) -> bool { let y: [%s; %d] = %s; true }" % (t, m, t, ln, idx)
        elif c < .7: src = "fn f(y: [%s; %d]) -> bool { true } fn top(x: [%s; %d]) -> bool { f(%s) }" % (t, ln, t, m, idx)
        elif c < .85:
            src = "fn f<#uint N>(x: [%s; N]) -> [%s; %d] { %s } fn top(x: [%s; %d]) -> [%s; %d] { f(x) }" % (t, t, ln, idx, t, m, t, ln)
        else:
            src = "fn f<#uint A, #uint B>(x: [%s; %d]) -> [%s; {B - A}] { x[A..B] } fn top(x: [%s; %d]) -> [%s; %d] { f::<%d, %d>(x) }" % (t, m, t, t, m, t, ln, lo, hi)
        cases.append(dict(src=src, prog=EMPTY, q=dict(k="range", n=m, a=lo, b=hi, len=ln), tag="range"))
    return cases

# ------------------------------------------------------------------ const generics
class NG:
    def __init__(self, r, names): self.r, self.names = r, names
    def num(self, d=2):
        r = self.r
        c = r.random()
        if d == 0 or c < .3:
            return ["tv", r.choice(self.names)] if r.random() < .7 else ["#", r.randint(0, 6)]
        if c < .38: return ["neg", self.num(d - 1)]
        if c < .46: return ["ibits", self.num(d - 1)]
        if c < .52: return ["bits", ["#", r.choice([0, 1, 2, 3, 4, 7, 8, 9, 255, 256])]]
        return [r.choice("++--**/%"), self.num(d - 1), self.num(d - 1)]
    def cond(self, d=2):
        r = self.r
        if d == 0 or r.random() < .35: return [r.choice(["==", "!=", "<", ">", "<=", ">="]), self.num(1), self.num(1)]
        c = r.random()
        if c < .2: return ["!", self.cond(d - 1)]
        return [r.choice(["&&", "||", "^^", "b==", "b!="]), self.cond(d - 1), self.cond(d - 1)]

def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
def ev(x, m):
    """For choosing interesting constants only; the specification decides."""
    k = x[0]
    if k == "#": return x[1]
    if k == "tv": return m[x[1]]
    if k == "neg": return -ev(x[1], m)
    if k == "bits": return abs(ev(x[1], m)).bit_length()
    if k == "ibits":
        v = ev(x[1], m)
        return 1 + (v if v >= 0 else -v - 1).bit_length()
    a, b = ev(x[1], m), ev(x[2], m)
    if k in "/%":
        if b == 0: raise ZeroDivisionError
        return tdiv(a, b) if k == "/" else a - b * tdiv(a, b)
    return a + b if k == "+" else a - b if k == "-" else a * b

def cg_cases(ck, n):
    cases = []
    i = 0
    while len(cases) < n:
        i += 1
        r = rng_of(ck, i, 1313)
        names = ["A", "B", "C"][:r.randint(1, 3)]
        m = {x: r.choice([r.randint(-9, 9), r.randint(0, 9), r.choice([0, 1, -1, 7, 8, -8, 16])]) for x in names}
        meta = {x: "uint" if m[x] >= 0 and r.random() < .4 else "int" for x in names}
        g = NG(r, names)
        q = dict(k="cgen", ts={x: ["#", v] for x, v in m.items()}, conds=[], eqs=[], fits=[], nums=[])
        where, body, rt, tail = [], "true", "bool", ""
        def value(x):
            try: return ev(x, m)
            except ZeroDivisionError: return None
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            a, op, e = r.choice(names), r.choice(["==", "!=", "<", ">", "<=", ">="]), g.num(r.choice([0, 1, 2]))
            v = value(e)
            if v is not None and r.random() < .7:       # close to the limit
                d = m[a] - v + r.choice([-1, 0, 0, 1])
                e = ["+", e, ["#", d]] if d >= 0 else ["-", e, ["#", -d]]
            where.append("%s %s %s%s" % (a, op, rnum(e, False), r.choice(["", "", ' else "no"'])))
            q["conds"].append([op, ["tv", a], e])
        c = r.random()
        if c < .3:
            x = g.cond()
            rt = "uint<4>"
            good, bad = str(r.randint(0, 15)), "bad::<%s>()" % names[0]
            tail = None
            if r.random() < .5: body = "gen if %s { %s } else { %s }" % (rcond(x), good, bad); q["conds"].append(x)
            else: body = "gen if %s { %s } else { %s }" % (rcond(x), bad, good); q["conds"].append(["!", x])
        elif c < .6:
            e = g.num()
            v = value(e)
            if v is None: w, off = 3, 0
            else:
                off = max(0, 1 - v) + r.choice([0, 0, 1, 2])
                w = v + off + r.choice([0, 0, 0, 1, -1])
            if off or e[0] == "tv": e = ["+", e, ["#", off]]
            if w < 1 or w > 200: continue
            t = r.choice(["uint<%s>", "int<%s>", "[bool; %s]"])
            rt = t % rnum(e)
            body = "[true; %s]" % rnum(e) if t[0] == "[" else "0"
            if t[0] == "[":     # repeat counts are numbers, not expressions: pass an argument
                tail = (t % w)
                body = "x"
            else: tail = (t % w)
            q["eqs"].append([e, ["#", w]])
        elif c < .85:
            a = r.choice(names)
            k = r.choice("us")
            w = r.choice([max(1, abs(m[a]).bit_length() + d) for d in (-1, 0, 0, 1, 1)])
            rt = ("uint<%d>" if k == "u" else "int<%d>") % w
            body = a if r.random() < .6 else "{ let y: %s = %s; y }" % (rt, a)
            q["fits"].append([k, ["#", w], ["tv", a]])
        else:
            e = g.num()
            k = r.choice("us")
            v = value(e)
            w = max(1, abs(v or 0).bit_length() + r.choice([-1, 0, 0, 1, 1]))
            if w > 60: continue
            rt = ("uint<%d>" if k == "u" else "int<%d>") % w
            q["fits"].append([k, ["#", w], ["tv", "Z"]])
            q["ts"]["Z"] = ["#", v or 0]
            q["eqs"].append([e, ["tv", "Z"]])
            body = "inner::<%s>()" % rnum(e)
            tail = None
        if tail is None:
            helper = "fn inner<#int Q>() -> %s { Q }\n" % rt if c >= .85 else "fn bad<#%s Q>() -> %s where Q > 999 { 0 }\n" % (meta[names[0]], rt)
            if c >= .85: meta = dict.fromkeys(names, "int")
        else: helper = ""
        ws = " where " + ", ".join(where) if where else ""
        arr = body == "x"
        kind = r.choice(["fn", "fn", "entity"])
        f = "%s f<%s>(%s) -> %s%s { %s }" % (kind, ", ".join("#%s %s" % (meta[x], x) for x in names), "x: %s" % rt if arr else "", rt, ws, body)
        f = helper + f
        def arg(v): return str(v) if v >= 0 and r.random() < .7 else "{%d}" % v if r.random() < .7 else "{%d + %d}" % (v - 3, 3)
        if r.random() < .6: ta = "::<%s>" % ", ".join(arg(m[x]) for x in names)
        else:
            o = list(names); r.shuffle(o)
            ta = "::$<%s>" % ", ".join("%s: %s" % (x, arg(m[x])) for x in o)
        call = ("inst " if kind == "entity" else "") + "f%s(%s)" % (ta, "z" if arr else "")
        ty = tail or rt
        src = f + "\nentity top(%s) -> %s { let x: %s = %s; x }" % ("z: %s" % ty if arr else "", ty, ty, call)
        cases.append(dict(src=src, prog=EMPTY, q=q, tag="const-generic"))
    return cases
