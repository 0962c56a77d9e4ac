"""Abstract syntax of the modelled Spade core (the JSON read by SpadeSem.tla) and its
rendering as Spade source.  No semantics lives here."""
import json

# ---------------------------------------------------------------- types
def num(n): return ["#", n] if isinstance(n, int) else n
def UT(n): return ["u", num(n)]
def ST(n): return ["s", num(n)]
BT = ["b"]
CK = ["ck"]
def TT(*ts): return ["t", list(ts)]
def AT(t, n): return ["a", t, num(n)]
def STR(name, *args): return ["st", name, list(args)]
def ENM(name, *args): return ["en", name, list(args)]
def INV(t): return ["inv", t]
def TV(n): return ["tv", n]

def rnum(x, top=True):
    if x[0] == "#": return str(x[1])
    if x[0] == "tv": return x[1]
    if x[0] in ("bits", "ibits"):
        s = "%s::bits_for(%s)" % ("uint" if x[0] == "bits" else "int", rnum(x[1], False))
        return "{%s}" % s if top else s
    if x[0] == "neg":
        s = "-%s" % rnum(x[1], False)
        return "{%s}" % s if top else "(%s)" % s
    s = "%s %s %s" % (rnum(x[1], False), x[0], rnum(x[2], False))
    return "{%s}" % s if top else "(%s)" % s

def rcond(x):
    if x[0] in ("&&", "||", "^^"):
        return "(%s) %s (%s)" % (rcond(x[1]), x[0], rcond(x[2]))
    if x[0] == "!": return "!(%s)" % rcond(x[1])
    if x[0] in ("b==", "b!="): return "(%s) %s (%s)" % (rcond(x[1]), x[0][1:], rcond(x[2]))
    return "%s %s %s" % (rnum(x[1], False), x[0], rnum(x[2], False))

def rty(t):
    k = t[0]
    if k == "u": return "uint<%s>" % rnum(t[1])
    if k == "s": return "int<%s>" % rnum(t[1])
    if k == "b": return "bool"
    if k == "ck": return "clock"
    if k == "t":
        return "(" + ", ".join(rty(x) for x in t[1]) + ")"
    if k == "a": return "[%s; %s]" % (rty(t[1]), rnum(t[2]))
    if k in ("st", "en"):
        return t[1] + ("<" + ", ".join(rty(x) for x in t[2]) + ">" if t[2] else "")
    if k == "inv": return "inv " + rty(t[1])
    if k == "tv": return t[1]
    if k == "fn": return t[1]
    return rnum(t)

# ---------------------------------------------------------------- expressions
def lit(v, t): return dict(k="lit", v=v, t=t)
def boo(v): return dict(k="bool", v=bool(v))
def var(n): return dict(k="var", n=n)
def bi(op, l, r, t): return dict(k="bin", op=op, l=l, r=r, t=t)
def un(op, e, t): return dict(k="un", op=op, e=e, t=t)
def if_(c, a, b): return dict(k="if", c=c, a=a, b=b)
def tup(*es): return dict(k="tup", es=list(es))
def arr(*es): return dict(k="arr", es=list(es))
def rep(e, n): return dict(k="rep", e=e, n=num(n))
def tix(e, i): return dict(k="tix", e=e, i=i)
def idx(e, i): return dict(k="idx", e=e, i=i)
def rng(e, a=None, b=None):
    d = dict(k="rng", e=e)
    if a is not None: d["a"] = num(a)
    if b is not None: d["b"] = num(b)
    return d
def cast(e, t): return dict(k="cast", e=e, t=t)
def mk(s, *es): return dict(k="str", s=s, es=list(es))
def fld(e, s, f): return dict(k="fld", e=e, s=s, f=f)
def enm(en, v, vn, *es): return dict(k="enm", en=en, v=v, vn=vn, es=list(es))
def match(e, *arms): return dict(k="match", e=e, arms=list(arms))
def arm(p, e, g=None):
    d = dict(p=p, e=e)
    if g is not None: d["g"] = g
    return d
def iflet(p, e, a, b): return dict(k="iflet", p=p, e=e, a=a, b=b)
def blk(ss, e): return dict(k="blk", ss=ss, e=e)
def call(u, *args, ta=None, an=None): return _call("call", u, args, ta, an)
def inst(u, id, *args, d=None, ta=None, an=None):
    r = _call("inst", u, args, ta, an); r["id"] = id
    if d is not None: r["d"] = num(d)
    return r
def mcall(e, rt, m, *args, ta=None, an=None):
    d = dict(k="mcall", m=m, rt=rt, args=[e] + list(args))
    if ta: d["ta"] = ta
    if an: d["an"] = ["self"] + an
    return d
def _call(k, u, args, ta, an):
    d = dict(k=k, u=u, args=list(args))
    if ta: d["ta"] = ta
    if an: d["an"] = an
    return d
def std(f, args, ts, rt, **kw): return dict(k="std", f=f, args=args, ts=ts, rt=rt, **kw)
def mem(id, ck, ws, n, init=None):
    d = dict(k="mem", id=id, ck=ck, ws=ws, n=num(n))
    if init is not None: d["init"] = init
    return d
def read(m, a): return dict(k="read", m=m, a=a)
def lam(ps, e, kind=None, clk=None, d=None):
    x = dict(k="lam", ps=ps, e=e)
    if kind: x.update(kind=kind, clk=clk)
    if d is not None: x["depth"] = d
    return x
def linst(f, id, ck, args, d=None):
    x = dict(k="linst", f=f, id=id, ck=ck, args=list(args))
    if d is not None: x["d"] = num(d)
    return x
def lcall(f, *args): return dict(k="lcall", f=f, args=list(args))

# patterns
PW = dict(k="pw")
def pn(n): return dict(k="pn", n=n)
def pi(v, t=None): return dict(k="pi", v=v, t=t or ["u", ["#", 1]])
def pb(v): return dict(k="pb", v=bool(v))
def pt(*ps): return dict(k="pt", ps=list(ps), a=0)
def pa(*ps): return dict(k="pt", ps=list(ps), a=1)
def ps(s, fs, style=0): return dict(k="ps", s=s, fs=fs, y=style)
def pe(en, v, vn, *ps): return dict(k="pe", en=en, v=v, vn=vn, ps=list(ps))
def pat(n, p): return dict(k="pat", n=n, p=p)

# statements
def let(p, e, t=None, wire=False):
    d = dict(k="let", p=pn(p) if isinstance(p, str) else p, e=e)
    if t is not None: d["t"] = t
    if wire: d["wire"] = True
    return d
def reg(id, p, ck, e, rst=None, init=None, t=None):
    d = dict(k="reg", id=id, p=pn(p) if isinstance(p, str) else p, ck=ck, e=e)
    if rst: d["rst"] = dict(c=rst[0], v=rst[1])
    if init is not None: d["init"] = init
    if t is not None: d["t"] = t
    return d
def decl(*ns): return dict(k="decl", ns=list(ns))
def stage(c=None):
    d = dict(k="stage")
    if c is not None: d["c"] = c
    return d
def set_(l, e): return dict(k="set", l=l, e=e)
def assert_(id, e): return dict(k="assert", id=id, e=e)
def label(n): return dict(k="label", n=n)

def param(n, t, wire=False):
    d = dict(n=n, t=t)
    if wire: d["wire"] = True
    return d
def unit(kind, params, ss, e, rt=None, depth=None, tp=None, where=None, attrs=None):
    d = dict(kind=kind, params=params, ss=ss, e=e if e is not None else dict(k="unit"))
    if rt is not None: d["rt"] = rt
    if depth is not None: d["depth"] = depth
    if tp: d["tp"] = tp
    if where: d["where"] = where
    if attrs: d["attrs"] = attrs
    return d
def prog(top, units, structs=None, enums=None, impls=None, **kw):
    return dict(top=top, units=units, structs=structs or {}, enums=enums or {}, impls=impls or [], **kw)

# ---------------------------------------------------------------- rendering
def rpat(p):
    k = p["k"]
    if k == "pw": return "_"
    if k == "pn": return p.get("src", p["n"])
    if k == "pi": return str(p["v"])
    if k == "pb": return "true" if p["v"] else "false"
    if k == "pt":
        s = ", ".join(rpat(q) for q in p["ps"])
        return "[%s]" % s if p.get("a") else "(%s)" % s
    if k == "ps":
        if p.get("y"):
            return "%s$(%s)" % (p["s"], ", ".join("%s: %s" % (f, rpat(q)) for f, q in p["fs"]))
        return "%s(%s)" % (p["s"], ", ".join(rpat(q) for _, q in p["fs"]))
    if k == "pe":
        if p.get("nm"):
            return "%s$(%s)" % (p["vn"], ", ".join("%s: %s" % (f, rpat(p["ps"][i])) for f, i in p["nm"]))
        return p["vn"] + ("(%s)" % ", ".join(rpat(q) for q in p["ps"]) if p["ps"] else "")
    if k == "pat": return "%s @ %s" % (p.get("src", p["n"]), rpat(p["p"]))
    raise ValueError(p)

def rlit(e):
    t, v = e["t"], e["v"]
    if e.get("fmt"): return e["fmt"]
    if e.get("bare") or t is None or t[1][0] != "#": return str(v)
    return "%d%s%d" % (v, "u" if t[0] == "u" else "i", t[1][1])

STDRENDER = {}
def rargs(e, skip=0):
    a = [rx(x) for x in e["args"]]
    if "an" in e:
        return "$(" + ", ".join("%s: %s" % (n, x) for n, x in list(zip(e["an"], a))[skip:]) + ")"
    return "(" + ", ".join(a[skip:]) + ")"

def turbo(e):
    if e.get("ta") and e.get("tf"):
        if e["tf"] == "$":
            return "::$<" + ", ".join("%s: %s" % (n, rty(t)) for n, t in e["ta"].items()) + ">"
        return "::<" + ", ".join(rty(e["ta"][n]) for n in e["tf"]) + ">"
    return ""

def rx(e):
    k = e["k"]
    if k == "lit": return rlit(e) if e["v"] >= 0 or e.get("fmt") else "(%s)" % rlit(e)
    if k == "bool": return "true" if e["v"] else "false"
    if k == "unit": return "()"
    if k == "nlit": return rnum(e["n"], False)
    if k == "var": return e.get("src", e["n"])
    if k == "bin":
        if e.get("raw"): return "%s %s %s" % (rx(e["l"]), e["op"], rx(e["r"]))
        return "(%s %s %s)" % (rx(e["l"]), e["op"], rx(e["r"]))
    if k == "un":
        if e.get("raw"): return "%s%s" % (e["op"], rx(e["e"]))
        return "(%s%s)" % (e["op"], rx(e["e"]))
    if k == "par": return "(%s)" % rx(e["e"])
    if k == "if":
        return "if %s {%s} else {%s}" % (rx(e["c"]), rx(e["a"]), rx(e["b"])) if e.get("raw") else \
               "(if %s {%s} else {%s})" % (rx(e["c"]), rx(e["a"]), rx(e["b"]))
    if k == "gif":
        b = e["b"]
        tail = rx(b).lstrip() if b["k"] == "gif" else None
        return "gen if %s {%s} else %s" % (rcond(e["c"]), rx(e["a"]),
               tail[4:] if tail is not None and tail.startswith("gen ") else "{%s}" % rx(b))
    if k == "match":
        arms = ", ".join("%s%s => %s" % (rpat(a["p"]), " if " + rx(a["g"]) if "g" in a else "", rx(a["e"]))
                         for a in e["arms"])
        return "(match %s {%s})" % (rx(e["e"]), arms)
    if k == "iflet":
        return "(if let %s = %s {%s} else {%s})" % (rpat(e["p"]), rx(e["e"]), rx(e["a"]), rx(e["b"]))
    if k == "tup":
        return "(" + ", ".join(rx(x) for x in e["es"]) + ")"
    if k == "arr": return "[" + ", ".join(rx(x) for x in e["es"]) + "]"
    if k == "rep": return "[%s; %s]" % (rx(e["e"]), rnum(e["n"], False))
    if k == "str": return e["s"] + rargs(dict(e, args=e["es"]))
    if k == "enm":
        if not e["es"]: return e["vn"]
        return e["vn"] + rargs(dict(e, args=e["es"]))
    if k == "tix": return "%s.%d" % (rpost(e["e"]), e["i"])
    if k == "fld": return "%s.%s" % (rpost(e["e"]), e["f"])
    if k == "idx": return "%s[%s]" % (rpost(e["e"]), rx(e["i"]))
    if k == "rng":
        return "%s[%s..%s]" % (rpost(e["e"]), rnum(e["a"], False) if "a" in e else "", rnum(e["b"], False) if "b" in e else "")
    if k == "cast": return "(%s as %s)" % (rx(e["e"]), rty(e["t"]))
    if k == "blk": return ("unsafe " if e.get("uns") else "") + "{\n%s%s}" % ("".join(rstmt(s) for s in e["ss"]), rx(e["e"]))
    if k == "call":
        if e.get("infix"):
            return "(%s `%s` %s)" % (rx(e["args"][0]), e["u"], rx(e["args"][1]))
        return e.get("src", e["u"]) + turbo(e) + rargs(e)
    if k == "inst":
        return "inst%s %s%s%s" % ("(%s)" % rnum(e["d"], False) if "d" in e else "", e.get("src", e["u"]), turbo(e), rargs(e))
    if k in ("mcall", "minst"):
        i = "inst%s " % ("(%s)" % rnum(e["d"], False) if "d" in e else "") if k == "minst" else ""
        return "%s.%s%s%s%s" % (rpost(e["args"][0]), i, e["m"], turbo(e), rargs(e, 1))
    if k == "lam":
        b = rx(e["e"])
        kind = e.get("kind", "fn")
        return "(%s |%s| %s)" % ("pipeline(%d)" % e["depth"] if kind == "pipeline" else kind,
            ", ".join(([e["clk"]] if "clk" in e else []) + [rpat(p) for p in e["ps"]]), b if e["e"]["k"] == "blk" else "{%s}" % b)
    if k == "linst":
        return "%s.inst%s call(%s, (%s))" % (rpost(e["f"]), "(%s)" % rnum(e["d"], False) if "d" in e else "", rx(e["ck"]),
            ", ".join(rx(a) for a in e["args"]) + ("," if len(e["args"]) == 1 else ""))
    if k == "lcall":
        return "%s.call((%s))" % (rpost(e["f"]), ", ".join(rx(a) for a in e["args"]) + ("," if len(e["args"]) == 1 else ""))
    if k == "port": return e.get("src", "port()")
    if k == "ref": return "(&%s)" % rx(e["e"])
    if k == "stgref": return "stage(%s).%s" % (e["w"], e.get("src", e["n"]))
    if k == "ready": return "stage.ready"
    if k == "valid": return "stage.valid"
    if k == "mem":
        if e.get("named"):
            a = [("clk", e["ck"]), ("writes", e["ws"])] + ([("initial_values", e["init"])] if "init" in e else [])
            return "inst std::mem::clocked_memory%s$(%s)" % ("_init" if "init" in e else "", ", ".join("%s: %s" % (n, rx(x)) for n, x in reversed(a)))
        if "init" in e:
            return "inst std::mem::clocked_memory_init(%s, %s, %s)" % (rx(e["ck"]), rx(e["ws"]), rx(e["init"]))
        return "inst std::mem::clocked_memory(%s, %s)" % (rx(e["ck"]), rx(e["ws"]))
    if k == "read": return "inst std::mem::read_memory(%s, %s)" % (rx(e["m"]), rx(e["a"]))
    if k == "std":
        a = [rx(x) for x in e["args"]]
        form = e["form"]
        for i, x in enumerate(a):
            form = form.replace("$%d" % (i + 1), x)
        return form
    raise ValueError(e)

def rpost(e):
    s = rx(e)
    return s if e["k"] in ("var", "fld", "tix", "idx", "call", "mcall") or s.startswith(("(", "[")) and e["k"] not in ("rng",) else "(%s)" % s

def rstmt(s):
    k = s["k"]
    ty = ": " + rty(s["t"]) if "t" in s and s["t"] is not None and not s.get("not") else ""
    if k == "let":
        return "    let %s%s%s = %s;\n" % ("wire " if s.get("wire") else "", rpat(s["p"]), ty, rx(s["e"]))
    if k == "reg":
        ex = ""
        if "rst" in s: ex += " reset(%s: %s)" % (rx(s["rst"]["c"]), rx(s["rst"]["v"]))
        if "init" in s: ex += " initial(%s)" % rx(s["init"])
        return "    reg(%s) %s%s%s = %s;\n" % (rx(s["ck"]), rpat(s["p"]), ty, ex, rx(s["e"]))
    if k == "decl": return "    decl %s;\n" % ", ".join(s["ns"])
    if k == "stage":
        if s.get("rend") is not None: return s["rend"]
        return "reg%s;\n" % ("[%s]" % rx(s["c"]) if "c" in s else "")
    if k == "set": return "    set %s = %s;\n" % (rx(s["l"]), rx(s["e"]))
    if k == "assert": return "    assert %s;\n" % rx(s["e"])
    if k == "expr": return "    %s;\n" % rx(s["e"])
    if k == "label": return "    '%s\n" % s["n"]
    raise ValueError(s)

def runit(name, u, indent=""):
    s = "".join("#[%s]\n" % a for a in u.get("attrs", []))
    kind = u["kind"] if u["kind"] != "pipeline" else "pipeline(%s)" % (u["depth"] if isinstance(u["depth"], (int, str)) else rnum(u["depth"], False))
    tp = "<" + ", ".join(u["tp"]) + ">" if u.get("tp") else ""
    ps = ", ".join(("wire " if p.get("wire") else "") + ("self" if p["n"] == "self" else "%s: %s" % (p["n"], rty(p["t"]))) for p in u["params"])
    rt = " -> " + rty(u["rt"]) if "rt" in u else ""
    wh = " where " + ", ".join(u["where"]) if u.get("where") else ""
    body = "".join(rstmt(x) for x in u["ss"])
    if u["e"]["k"] != "unit" or "rt" in u: body += "    " + rx(u["e"]) + "\n"
    return s + "%s %s%s(%s)%s%s {\n%s}\n" % (("unsafe " if u.get("unsafe") else "") + kind, name, tp, ps, rt, wh, body)

def rprog(p):
    if "src" in p: return p["src"]
    out = []
    for n, d in p["structs"].items():
        if d.get("std"): continue
        tp = "<" + ", ".join(d.get("tps", d["tp"])) + ">" if d["tp"] else ""
        out.append("struct %s%s {%s}\n" % (n, tp, ", ".join("%s: %s" % (f, rty(t)) for f, t in d["fs"])))
    for n, d in p["enums"].items():
        if d.get("std"): continue
        tp = "<" + ", ".join(d.get("tps", d["tp"])) + ">" if d["tp"] else ""
        out.append("enum %s%s {%s}\n" % (n, tp, ", ".join(
            v + (" {%s}" % ", ".join("%s: %s" % (f, rty(t)) for f, t in fs) if fs else "") for v, fs in d["vs"])))
    meth = set()
    for n, d in p.get("traits", {}).items():
        out.append("trait %s {\n%s}\n" % (n, "".join("    " + m + ";\n" for m in d)))
    for im in p["impls"]:
        body = ""
        for m, u in im["ms"].items():
            meth.add(u)
            body += runit(m, p["units"][u])
        tp = "<" + ", ".join(im["tps"]) + ">" if im.get("tps") else ""
        wh = " where " + ", ".join(im["where"]) if im.get("where") else ""
        out.append("impl%s %s%s%s {\n%s}\n" % (tp, (im["trait"] + " for ") if im.get("trait") else "", rty(im["ty"]), wh, body))
    for n, u in p["units"].items():
        if n not in meth and not u.get("std"):
            out.append(runit(n, u))
    return "\n".join(out)

def varnames(x, out):
    if isinstance(x, dict):
        if x.get("k") == "var": out.add(x["n"])
        for v in x.values(): varnames(v, out)
    elif isinstance(x, list):
        for v in x: varnames(v, out)
    return out

# mark everything that contains an instance, set, assert or memory
def mark(p):
    units = p["units"]
    def has(x):
        h = False
        if isinstance(x, dict):
            for kk, v in x.items():
                if kk in ("t", "ts", "rt", "ta"): continue
                if isinstance(v, (dict, list)): h |= has(v)
            if x.get("k") in ("inst", "minst", "linst", "mem", "assert", "set", "reg", "decl"): h = True
            if x.get("k") == "lam":
                x["fv"] = sorted(varnames(x["e"], set()))
                h = False
            if x.get("k") == "call" and units[x["u"]].get("hs"): h = True
            if x.get("k") == "mcall":
                for im in p["impls"]:
                    if x["m"] in im["ms"] and units[im["ms"][x["m"]]].get("hs"): h = True
            if "k" in x and h: x["hs"] = 1
        elif isinstance(x, list):
            for v in x: h |= has(v)
        return h
    while True:
        ch = False
        for u in units.values():
            h = has(u["ss"]) | has(u["e"])
            if h and not u.get("hs"):
                u["hs"] = 1
                ch = True
        if not ch: return p

def width(t, p):
    k = t[0]
    if k in ("u", "s"): return t[1][1]
    if k in ("b", "ck"): return 1
    if k == "t": return sum(width(x, p) for x in t[1])
    if k == "a": return t[2][1] * width(t[1], p)
    if k == "inv": return width(t[1], p)
    if k == "st":
        d = p["structs"][t[1]]
        return sum(width(sub(ft, dict(zip(d["tp"], t[2]))), p) for _, ft in d["fs"])
    if k == "en":
        d = p["enums"][t[1]]
        m = dict(zip(d["tp"], t[2]))
        return tagw(len(d["vs"])) + max([sum(width(sub(ft, m), p) for _, ft in fs) for _, fs in d["vs"]])
    raise ValueError(t)

def fbw(t, p):
    """(forward, backward) width of a port type."""
    k = t[0]
    if k == "inv":
        f, b = fbw(t[1], p)
        return b, f
    def tot(ts):
        q = [fbw(x, p) for x in ts]
        return sum(f for f, _ in q), sum(b for _, b in q)
    if k == "t": return tot(t[1])
    if k == "a":
        f, b = fbw(t[1], p)
        return f * t[2][1], b * t[2][1]
    if k == "st":
        d = p["structs"][t[1]]
        return tot([sub(ft, dict(zip(d["tp"], t[2]))) for _, ft in d["fs"]])
    return width(t, p), 0

def has_inv(t, p):
    k = t[0]
    if k == "inv": return True
    if k == "t": return any(has_inv(x, p) for x in t[1])
    if k == "a": return has_inv(t[1], p)
    if k == "st": return any(has_inv(x, p) for _, x in p["structs"][t[1]]["fs"])
    return False

def tagw(n): return (n - 1).bit_length()

def sub(t, m):
    if t[0] == "tv": return m.get(t[1], t)
    return [t[0]] + [sub(x, m) if isinstance(x, list) and x and isinstance(x[0], str) else
                     [sub(y, m) for y in x] if isinstance(x, list) else x for x in t[1:]]

ATTRS_DROP = ("named", "src", "raw", "fmt", "bare", "form", "attrs", "rend", "w", "tf", "vn", "infix", "not", "where", "tps", "y", "nm")
def strip(x):
    """The part of the tree the specification reads."""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if v is not None and not (k in ATTRS_DROP and not isinstance(v, dict)) or k == "w" and False}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x
