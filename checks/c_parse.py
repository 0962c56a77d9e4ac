"""C25: lexical structure and precedence.  Expressions are written with as few parentheses as
the grammar of SpadeParse.tla allows (and some more), with random spacing and comments; TLC lexes,
parses and evaluates the characters and compares with the compiled hardware.  Second part: whole
programs of the other generators with other spacing, comments and parentheses, against SpadeSem."""
import json, os, re
from lib import *
import sp, conform
from c_sem import rng_of
import c_sem

# ------------------------------------------------------------------ trees
LV = {"||": 1, "&&": 2, "^^": 3, "==": 4, "!=": 4, "<": 5, ">": 5, "<=": 5, ">=": 5, "|": 6, "^": 7, "&": 8,
      "<<": 9, ">>": 9, ">>>": 9, "<<.": 9, ">>.": 9, "+": 10, "-": 10, "+.": 10, "-.": 10, "*": 11, "/": 11, "%": 11, "*.": 11}
def num(v, y="n", w=0): return dict(k="num", v=v, y=y, w=w)
def bin_(op, l, r): return dict(k="bin", op=op, l=l, r=r)
def call(f, *a, form="call"): return dict(k="call", f=f, as_=list(a), form=form)
def strip(e):
    if isinstance(e, dict):
        return {("as" if k == "as_" else k): strip(v) for k, v in e.items() if k != "form"}
    if isinstance(e, list): return [strip(x) for x in e]
    return e

def level(e):
    k = e["k"]
    if k == "bin": return LV[e["op"]]
    if k == "un": return 12
    if k == "call" and e["form"] == "infix": return 0
    if k in ("if", "match", "blk"): return 13
    return 14

BOOL = ("b",)
class G:
    def __init__(self, r, W):
        self.r, self.W = r, W
        self.n = 0
        self.types = [("u", W), ("s", W), ("u", W + 1), ("u", 2 * W), ("s", 2 * W)]
        self.params = [("a", ("u", W)), ("b", ("u", W)), ("c", ("u", W)), ("x", ("s", W)), ("y", ("s", W)), ("p", BOOL), ("q", BOOL), ("t", BOOL),
                       ("d", ("u", W + 1)), ("e", ("u", 2 * W)), ("z", ("s", 2 * W)),
                       ("v", ("arr", ("u", W), 4)), ("m", ("tup", ("u", W), BOOL, ("s", W))), ("o", ("S",))]
    def rt(self, t):
        return {"u": lambda: "uint<%d>" % t[1], "s": lambda: "int<%d>" % t[1], "b": lambda: "bool", "S": lambda: "S",
                "arr": lambda: "[%s; %d]" % (self.rt(t[1]), t[2]), "tup": lambda: "(%s)" % ", ".join(map(self.rt, t[1:]))}[t[0]]()
    def lit(self, t):
        if t == BOOL: return dict(k="bool", v=self.r.random() < .5)
        w = t[1] - (t[0] == "s")
        v = self.r.randrange(2 ** w)
        return num(v, *t)
    def bare(self, t):
        w = t[1] - (t[0] == "s")
        return num(self.r.randrange(min(2 ** w, 2 * self.W)))
    def leaf(self, t):
        r = self.r
        o = [dict(k="id", n=n) for n, u in self.params if u == t]
        U = ("u", self.W)
        if t == U:
            o += [dict(k="tix", e=dict(k="id", n="m"), i=0), dict(k="fld", e=dict(k="id", n="o"), f="p"),
                  dict(k="idx", e=dict(k="id", n="v"), i=num(r.randrange(4)))]
        if t == BOOL: o += [dict(k="tix", e=dict(k="id", n="m"), i=1), dict(k="fld", e=dict(k="id", n="o"), f="q")] * 2
        if t == ("s", self.W): o += [dict(k="tix", e=dict(k="id", n="m"), i=2)]
        if r.random() < .2 or not o: return self.lit(t)
        return r.choice(o)
    def ex(self, t, d):
        r = self.r
        if d <= 0 or r.random() < .06: return self.leaf(t)
        X = lambda t: self.ex(t, d - 1)
        def two(t, op):
            a, b = X(t), X(t)
            if t != BOOL and r.random() < .15: b = self.bare(t)
            elif t != BOOL and r.random() < .1: a = self.bare(t)
            return bin_(op, a, b)
        k = r.random()
        if k < .06: return dict(k="if", c=X(BOOL), a=X(t), b=X(t))
        if k < .09:
            mt = r.choice([BOOL, ("u", self.W), ("s", self.W)])
            arms = []
            for _ in range(r.randint(0, 2)):
                p = dict(k="pb", v=r.random() < .5) if mt == BOOL else dict(k="pi", v=r.randint(-3 if mt[0] == "s" else 0, 3))
                arms.append(dict(p=p, g=X(BOOL) if r.random() < .4 else dict(k="bool", v=True), e=X(t)))
            arms.append(dict(p=dict(k="pw"), g=dict(k="bool", v=True), e=X(t)))
            return dict(k="match", e=X(mt), arms=arms)
        if k < .11:
            self.n += 1
            n = "l%d" % self.n
            e = X(t)
            self.params.append((n, t)); b = X(t); self.params.pop()
            return dict(k="blk", ls=[dict(n=n, e=e)], e=b)
        if k < .14: return dict(k="tix", e=dict(k="tup", es=[X(t), X(r.choice(self.types))][::1]), i=0)
        if k < .17: return dict(k="idx", e=dict(k="arr", es=[X(t), X(t)]), i=num(r.randrange(2)))
        if t == BOOL:
            k = r.random()
            if k < .3: return two(BOOL, r.choice(["||", "&&", "^^"]))
            if k < .4: return two(BOOL, r.choice(["==", "!="]))
            if k < .55: return dict(k="un", op="!", e=X(BOOL))
            if k < .62: return call("imp", X(BOOL), X(BOOL), form=r.choice(["infix", "infix", "call"]))
            if k < .7: return call("gt", X(("u", self.W)), X(("u", self.W)), form=r.choice(["infix", "infix", "call"]))
            return two(r.choice(self.types), r.choice(["==", "!=", "<", ">", "<=", ">="]))
        U = ("u", self.W)
        k = r.random()
        if k < .1: return dict(k="un", op=r.choice(["~", "-", "-."]) if t[0] == "s" else "~", e=X(t))
        if k < .2 and t == ("u", self.W + 1): return two(U, r.choice(["+", "-"]))
        if k < .2 and t[1] == 2 * self.W: return two((t[0], self.W), "*")
        if k < .35 and t == U:
            f = r.choice(["dbl", "mix"])
            if r.random() < .3: return call("dbm", X(U), X(U), form="meth")
            if r.random() < .2: return call("neg", X(U), form="meth")
            return call(f, X(U), X(U), form=r.choice(["infix", "infix", "call"]))
        if k < .4 and t == U:
            return dict(k="idx", e=r.choice([dict(k="rng", e=dict(k="id", n="v"), a=1, b=3), dict(k="rng", e=dict(k="id", n="v"), a=-1, b=2),
                                             dict(k="rng", e=dict(k="id", n="v"), a=2, b=-1)]), i=num(r.randrange(2)))
        if k < .43 and t == U: return dict(k="fld", e=call("S", X(U), X(BOOL)), f="p")
        if k < .5: return bin_(r.choice("/%"), X(t), num(2 ** r.randint(0, self.W - 2)))
        return two(t, r.choice(["+.", "-.", "*.", "&", "|", "^", "<<", ">>", ">>>", "<<.", ">>.", "&", "|", "^", "<<", "+.", "-.", "*."]))

# ------------------------------------------------------------------ writing
class Out:
    """Tokens of the tree, with the parentheses the grammar needs and a few it does not."""
    def __init__(self, r, extra): self.r, self.extra, self.t = r, extra, []
    def lit(self, e):
        v, y, w = e["v"], e["y"], e["w"]
        k = self.r.random()
        s = str(v) if k < .6 else "0x%x" % v if k < .7 else "0x%X" % v if k < .75 else "0b" + bin(v)[2:] if k < .9 else "0o%o" % v
        if self.r.random() < .1 and k < .6: s = "0" * self.r.randint(1, 3) + s
        if self.r.random() < .3:
            lo = 3 if s[:2] in ("0x", "0b", "0o") else 1
            for _ in range(self.r.randint(1, 3)):
                i = self.r.randint(lo, len(s)); s = s[:i] + "_" + s[i:]
        if y == "n": return s
        return s + {"u": self.r.choice("uuU"), "s": self.r.choice("iiI")}[y] + str(w)
    def go(self, e, need=0):
        k = e["k"]; T = self.t.append
        lv = level(e)
        par = lv < need or (self.extra and k not in ("num",) and self.r.random() < self.extra)
        if par: T("(")
        if k == "id": T(e["n"])
        elif k == "num": T(self.lit(e))
        elif k == "bool": T("true" if e["v"] else "false")
        elif k == "bin": self.go(e["l"], lv); T(e["op"]); self.go(e["r"], lv + 1)
        elif k == "un": T(e["op"]); self.go(e["e"], 12)
        elif k == "if":
            T("if"); self.go(e["c"]); T("{"); self.go(e["a"]); T("}"); T("else"); T("{"); self.go(e["b"]); T("}")
        elif k == "blk":
            T("{"); T("let"); T(e["ls"][0]["n"]); T("="); self.go(e["ls"][0]["e"]); T(";"); self.go(e["e"]); T("}")
        elif k == "match":
            T("match"); self.go(e["e"]); T("{")
            for i, a in enumerate(e["arms"]):
                p = a["p"]
                if p["k"] == "pw": T("_")
                elif p["k"] == "pb": T("true" if p["v"] else "false")
                else:
                    if p["v"] < 0: T("-")
                    T(str(abs(p["v"])))
                if a["g"] != dict(k="bool", v=True): T("if"); self.go(a["g"])
                T("=>"); self.go(a["e"])
                if i + 1 < len(e["arms"]) or self.r.random() < .3: T(",")
            T("}")
        elif k == "tix": self.go(e["e"], 14); T("."); T(str(e["i"]))
        elif k == "fld": self.go(e["e"], 14); T("."); T(e["f"])
        elif k == "idx": self.go(e["e"], 14); T("["); self.go(e["i"]); T("]")
        elif k == "rng":
            self.go(e["e"], 14); T("[")
            if e["a"] >= 0: T(str(e["a"]))
            T("..")
            if e["b"] >= 0: T(str(e["b"]))
            T("]")
        elif k in ("tup", "arr"):
            T("(" if k == "tup" else "[")
            for i, x in enumerate(e["es"]):
                if i: T(",")
                self.go(x)
            if self.r.random() < .2: T(",")
            T(")" if k == "tup" else "]")
        elif k == "call":
            a = e["as_"]
            if e["form"] == "infix": self.go(a[0], 1); T("`"); T(e["f"]); T("`"); self.go(a[1], 0)
            else:
                if e["form"] == "meth": self.go(a[0], 14); T("."); a = a[1:]
                T(e["f"]); T("(")
                for i, x in enumerate(a):
                    if i: T(",")
                    self.go(x)
                T(")")
        if par: T(")")

SYM = sorted([">>>", ">>.", "<<.", "==", "!=", "<=", ">=", ">>", "<<", "+.", "-.", "*.", "||", "&&", "^^", "=>", "->", "..", "::", "//", "/*", "*/"], key=lambda s: -len(s))
def clash(a, b):
    """Would the two tokens written together be read as something else?"""
    if re.match(r"\w", a[-1]) and re.match(r"\w", b[0]): return True
    if re.match(r"\w", a[-1]) or re.match(r"\w", b[0]): return a == "@"     # @name is one token
    s = a + b
    for n in range(len(a) + 1, len(s) + 1):
        if s[:n] in SYM or any(x.startswith(s[:n]) for x in SYM): return True
    return False
COMMENTS = ["/* x */", "/**/", "/* a /* nested */ + 1 */", "// line -\n", "/* + b */", "/* 'q */", "/***/", "// */ \n", "/* \n ) */",
            "/* 5\" wide */", "/* http://x.y */", "/* b\"s */", "/* // */", "// /* \n", "/* \\ ` */", "//\n", "/* \u00e5 # */"]
def spaced(r, ts, style):
    out = ""
    for i, t in enumerate(ts):
        if i:
            k = r.random()
            sep = ""
            if style == "tight": sep = ""
            elif style == "plain": sep = " "
            else: sep = "" if k < .35 else " " if k < .75 else "\n" if k < .8 else "\t " if k < .84 else r.choice(COMMENTS) if k < .94 else " " + r.choice(COMMENTS) + " "
            if sep == "" and clash(ts[i - 1], t): sep = " "
            # a comment must not be formed by, or glued to, an operator
            if sep[:1] == "/" and ts[i - 1][-1] in "/*<>=!&|^+-.": sep = " " + sep
            out += sep
        out += t
    return out

DECLS = """struct S { p: uint<%(W)d>, q: bool }
fn dbl(a: uint<%(W)d>, b: uint<%(W)d>) -> uint<%(W)d> { let k = a << 1; k -. b }
fn mix(a: uint<%(W)d>, b: uint<%(W)d>) -> uint<%(W)d> { let k = ~a; let j = b << 2; k +. j }
fn gt(a: uint<%(W)d>, b: uint<%(W)d>) -> bool { a > b }
fn imp(a: bool, b: bool) -> bool { let k = !a; k || b }
impl uint<%(W)d> {
  fn dbm(self, b: uint<%(W)d>) -> uint<%(W)d> { let k = self << 1; k -. b }
  fn neg(self) -> uint<%(W)d> { let k: uint<%(W)d> = 0; k -. self }
}
"""
def enc(t, v):
    k = t[0]
    if k in "usb" and k != "S": return "".join(map(str, v["b"]))
    if k == "arr": return "".join(enc(t[1], x) for x in reversed(v["es"]))
    ts = t[1:] if k == "tup" else (("u", None), BOOL)
    return "".join(enc(a, x) for a, x in zip(ts, v["es"]))
def val(r, t, W):
    k = t[0]
    if k in ("u", "s", "b"):
        w = 1 if k == "b" else t[1]
        x = r.random()
        return dict(k=k, b=[0] * w if x < .08 else [1] * w if x < .16 else [r.randrange(2) for _ in range(w)])
    if k == "arr": return dict(k="t", es=[val(r, t[1], W) for _ in range(t[2])])
    return dict(k="t", es=[val(r, x, W) for x in (t[1:] if k == "tup" else (("u", W), BOOL))])

def case(r, i):
    W = r.choice([3, 4, 5, 8])
    g = G(r, W)
    t = r.choice([BOOL, BOOL, ("u", W), ("u", W), ("s", W), ("u", W + 1), ("u", 2 * W), ("s", 2 * W)])
    e = g.ex(t, r.choice([2, 3, 3, 4]))
    o = Out(r, r.choice([0, 0, .1, .3])); o.go(e)
    txt = spaced(r, o.t, r.choice(["tight", "plain", "any", "any"]))
    full = Out(r, 1.0); full.go(e)
    rows = [[val(r, u, W) for _, u in g.params] for _ in range(10)]
    head = DECLS % dict(W=W) + "entity top(%s) -> %s {\n    let result: %s = " % (", ".join("%s: %s" % (n, g.rt(u)) for n, u in g.params), g.rt(t), g.rt(t))
    return dict(tree=strip(e), txt=txt, src=head + txt + ";\n    result\n}\n", full=head + " ".join(full.t) + ";\n    result\n}\n", params=g.params, rows=rows)

def run_exprs(ck, cases):
    sims = lambda c: [dict(top="top", zero=[], watch=["output__"], steps=[dict(set={"%s_i" % n: "0b" + enc(t, v) for (n, t), v in zip(c["params"], a)}, tick=[]) for a in c["rows"]])]
    res = ck.jobs([dict(src=c["src"], stdlib=True, sims=sims(c)) for c in cases])
    runs, again = [], []
    for i, (c, r) in enumerate(zip(cases, res)):
        s = (r.get("sims") or [{}])[0]
        if not r["ok"] or r.get("verr") or s.get("err"): again.append((i, r, s)); continue
        rows = [dict(a=a, v=[int(x) for x in o[0]] if set(o[0]) <= set("01") else [9]) for a, o in zip(c["rows"], s["out"])]
        runs.append(dict(id=i, chars=list(c["txt"]), tree=c["tree"], params={n: k + 1 for k, (n, _) in enumerate(c["params"])}, rows=rows))
    # a rejected expression has to be accepted with all its parentheses written out, else it is not ours to judge
    if again:
        r2 = ck.jobs([dict(src=cases[i]["full"], stdlib=True) for i, _, _ in again])
        skipped = 0
        for (i, r, s), f in zip(again, r2):
            if f["ok"]:
                ck.violation("parse:rejected", "the expression is rejected, but accepted with its parentheses written out: %s" % str((r.get("panic") or "") + r.get("diags", "") or r.get("verr") or s.get("err"))[:1200],
                             dict(src=cases[i]["src"], full=cases[i]["full"]))
            else: skipped += 1
        ck.cov["rejected_programs"] = ck.cov.get("rejected_programs", 0) + skipped
        if skipped * 4 > len(cases):
            log(str(r2[0].get("diags"))[:800])
            raise ToolError("%d of %d programs rejected" % (skipped, len(cases)))
    f = os.path.join(ck.tmp, "parse%d.json" % ck.njob)
    json.dump(runs, open(f, "w"))
    out, st = ck.tlc_ok("SpadeParse", env=dict(TRACE_FILE=f))
    os.unlink(f)
    bad = [json.loads(json.loads(l)[7:]) for l in out.splitlines() if l.startswith('"REJECT ')]
    tree = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"TREE ')]
    if tree:
        log("%s\n%s\n%s" % (cases[tree[0][0]]["txt"], tree[0], json.dumps(cases[tree[0][0]]["tree"])))
        raise ToolError("the generator and the specification disagree on a tree")
    if not bad and st["distinct"] != 2 * len(runs): raise ToolError("TLC explored %d states, expected %d" % (st["distinct"], 2 * len(runs)))
    ck.cov["traces_validated_against_impl"] += len(runs)
    ck.cov["samples"] += sum(len(x["rows"]) for x in runs)
    for rid, k, e, o in bad:
        c = cases[rid]
        ck.violation("parse:value", "`%s`: expected %s, observed %s" % (c["txt"], e, o), dict(src=c["src"], args=c["rows"][k - 1]))

# ------------------------------------------------------------------ whole programs
TOK = re.compile(r"\s+|//[^\n]*|[A-Za-z_][A-Za-z0-9_]*|[0-9][0-9A-Za-z_]*|'[A-Za-z_]\w*|>>>|>>\.|<<\.|==|!=|<=|>=|>>|<<|\+\.|-\.|\*\.|\|\||&&|\^\^|=>|->|\.\.|::|.", re.S)
def respell(r, src):
    ts = [t for t in TOK.findall(src) if not t.isspace() and not t.startswith("//")]
    out = []
    i = 0
    while i < len(ts):            # > > from nested generic lists was one token in the text
        out.append(ts[i]); i += 1
    return spaced(r, out, "any")

def run(prop, tier):
    ck = Check(prop, tier)
    n = ck.pick(500, 12000)
    for b in range(0, n, 1000):
        run_exprs(ck, [case(rng_of(ck, i, 2501), i) for i in range(b, min(n, b + 1000))])
    m = ck.pick(30, 600)
    cs = c_sem.reg_cases(ck, m) + c_sem.pipe_cases(ck, m) + c_sem.match_cases(ck, m)
    for i, c in enumerate(cs): c["src"] = respell(rng_of(ck, i, 2502), sp.rprog(c["prog"])); c["tag"] = "respelled"
    conform.run_cases(ck, cs)
    return ck.finish()
