"""C13: generic units and types, by random symbolic bodies and random instantiations."""
import random
from sp import *
from gen import Gen
from lib import *
from c_sem import rng_of, comb_case, ASSUME
import conform, static, c_num, c_lam

N_ = lambda n: ["tv", n]
def plus(a, b): return ["+", a, b]

def cnum(x, m):
    if x[0] == "#": return x[1]
    if x[0] == "tv": return m[x[1]][1]
    a, b = cnum(x[1], m), cnum(x[2], m)
    return {"+": a + b, "-": a - b, "*": a * b, "/": a // b if b else 0, "%": a % b if b else 0}[x[0]]

def conc(t, m):
    k = t[0]
    if k in ("u", "s"): return [k, ["#", cnum(t[1], m)]]
    if k in ("b", "ck"): return t
    if k == "t": return ["t", [conc(x, m) for x in t[1]]]
    if k == "a": return ["a", conc(t[1], m), ["#", cnum(t[2], m)]]
    if k in ("st", "en"): return [k, t[1], [conc(x, m) for x in t[2]]]
    if k == "tv": return m[t[1]]
    if k == "inv": return ["inv", conc(t[1], m)]
    return ["#", cnum(t, m)]

class SG:
    """Generic units over a Gen."""
    def __init__(self, g):
        self.g, self.r = g, g.r
        self.gs = []            # dict(n, tv, nv, ps, rt, kind)
        g.structs["Pair"] = dict(tp=["A", "B"], fs=[["a", TV("A")], ["b", TV("B")]])
        g.enums["Either"] = dict(tp=["A", "B"], vs=[["L", [["v", TV("A")]]], ["R", [["w", TV("B")], ["x", TV("A")]]], ["Z", []]])
        g.structs["Vec"] = dict(tp=["E", "K"], tps=["E", "#uint K"], fs=[["len", UT(4)], ["d", ["a", TV("E"), N_("K")]]])

    # symbolic types of the scope
    def base(self, sc):
        r = self.r
        c = r.random()
        if sc["tv"] and c < .4: return TV(r.choice(sc["tv"]))
        if sc["nv"] and c < .75: return [r.choice("us"), N_(r.choice(sc["nv"]))]
        return r.choice([BT, UT(4), ST(3)])
    def ty(self, sc, d=2):
        r = self.r
        c = r.random()
        if d <= 0 or c < .5: return self.base(sc)
        if c < .62: return TT(self.ty(sc, d - 1), self.ty(sc, d - 1))
        if c < .74: return STR("Pair", self.ty(sc, d - 1), self.ty(sc, d - 1))
        if c < .86: return ENM("Either", self.ty(sc, d - 1), self.ty(sc, d - 1))
        if c < .93 and sc["nv"]:
            n = r.choice(sc["nv"])
            return r.choice([["a", self.base(sc), N_(n)], ["st", "Vec", [self.base(sc), N_(n)]]])
        return ["a", self.base(sc), ["#", r.randint(1, 3)]]
    def wide(self, sc):
        n = N_(self.r.choice(sc["nv"]))
        c = self.r.random()
        if c < .6 or len(sc["nv"]) < 2: return [self.r.choice("us"), plus(n, ["#", 1])]
        return ["u", plus(N_(sc["nv"][0]), N_(sc["nv"][1]))]

    def can(self, t, sc, env):
        """Whether an expression of type t can always be built."""
        k = t[0]
        if k == "tv": return any(x == t for _, x in env)
        if k in ("u", "s", "b"): return True
        if k == "t": return all(self.can(x, sc, env) for x in t[1])
        if k == "a": return self.can(t[1], sc, env)
        if k == "st": return all(self.can(x, sc, env) for x in t[2] if x[0] not in ("#", "+"))
        if k == "en": return True
        return False

    def fields(self, t):
        if t[1] == "Vec": return [("len", UT(4)), ("d", ["a", t[2][0], t[2][1]])]
        return self.g.fields(t)

    def paths(self, env, t):
        out = []
        def walk(e, et, d):
            if et == t: out.append(e)
            if d == 0 or len(out) > 30: return
            if et[0] == "t":
                for i, x in enumerate(et[1]): walk(tix(e, i), x, d - 1)
            elif et[0] == "st":
                for f, x in self.fields(et): walk(fld(e, et[1], f), x, d - 1)
            elif et[0] == "a":
                if et[2][0] != "#": walk(idx(e, lit(0, None)), et[1], d - 1)
                else:
                    k = et[2][1]
                    walk(idx(e, lit(self.r.randrange(k), None)), et[1], d - 1)
        for n, et in env: walk(var(n), et, 3)
        return out

    def leaf(self, t, env, sc):
        ps_ = self.paths(env, t)
        if ps_ and self.r.random() < .85: return self.r.choice(ps_)
        k = t[0]
        if k == "u": return self.typed(lit(self.r.choice([0, 1]), None), t) if t[1][0] != "#" else self.g.lit(t)
        if k == "s": return self.typed(lit(0, None), t) if t[1][0] != "#" else self.g.lit(t)
        if k == "b": return boo(self.r.random() < .5)
        if ps_: return self.r.choice(ps_)
        return self.build(t, env, 0, sc)

    def typed(self, e, t):
        """An expression with its type fixed by an annotation."""
        n = self.g.fresh("k")
        return blk([let(n, e, t)], var(n))

    def build(self, t, env, d, sc):
        k = t[0]
        ex = lambda x: self.ex(x, env, d - 1, sc)
        if k == "t": return tup(*[ex(x) for x in t[1]])
        if k == "a":
            if t[2][0] != "#": return self.typed(rep(ex(t[1]), t[2]), t)
            return arr(*[ex(t[1]) for _ in range(t[2][1])])
        if k == "st": return self.typed(mk(t[1], *[ex(x) for _, x in self.fields(t)]), t)
        if k == "en":
            vs = self.g.variants(t)
            i = self.r.randrange(len(vs))
            if not all(self.can(x, sc, env) for _, x in vs[i][1]): i = len(vs) - 1
            return self.typed(enm(t[1], i + 1, "%s::%s" % (t[1], vs[i][0]), *[ex(x) for _, x in vs[i][1]]), t)
        return self.leaf(t, env, sc)

    def callees(self, t, sc):
        """Generic units that can return t in this scope: (unit, bindings)."""
        out = []
        for u in self.gs:
            if u["kind"] == "entity" and not sc.get("clk"): continue
            m = {}
            if self.unify(u["rt"], t, m): out.append((u, m))
        return out
    def unify(self, q, t, m):
        if q[0] == "tv":
            if q[1] in m: return m[q[1]] == t
            m[q[1]] = t
            return True
        if q[0] != t[0]: return False
        if q[0] in ("u", "s"):
            return self.unify(q[1], t[1], m)
        if q[0] in ("b",): return True
        if q[0] == "#": return q == t
        if q[0] == "+": return self.unify(q[1], t[1], m) and self.unify(q[2], t[2], m)
        if q[0] == "t": return len(q[1]) == len(t[1]) and all(self.unify(a, b, m) for a, b in zip(q[1], t[1]))
        if q[0] == "a": return self.unify(q[1], t[1], m) and self.unify(q[2], t[2], m)
        if q[0] in ("st", "en"): return q[1] == t[1] and all(self.unify(a, b, m) for a, b in zip(q[2], t[2]))
        return False
    def complete(self, u, m, sc):
        for v in u["tv"]:
            if v not in m: m[v] = self.base(sc)
        for v in u["nv"]:
            if v not in m:
                m[v] = N_(self.r.choice(sc["nv"])) if sc["nv"] and self.r.random() < .7 else ["#", self.r.randint(1, 4)]
        return m
    def okbind(self, u, m):
        for v in u["nv"]:
            x = m[v]
            if x[0] == "#" and x[1] < 1: return False
        return True

    def call(self, u, m, env, d, sc):
        args = []
        for q in u["ps"]:
            if q["t"][0] == "ck": args.append(var(sc["clk"])); continue
            t = ssub(q["t"], m)
            if not self.can(t, sc, env): return None
            args.append(self.ex(t, env, d - 1, sc))
        ta = {v: m[v] for v in u["tv"] + u["nv"]}
        kw = dict(ta=ta)
        x = call(u["n"], *args, **kw) if u["kind"] == "fn" else inst(u["n"], self.g.fresh("n"), *args, **kw)
        self.turbo(x, u)
        return x
    def turbo(self, x, u):
        c = self.r.random()
        if c < .45: x["tf"] = "$"
        elif c < .9 or not u["inf"]: x["tf"] = u["tv"] + u["nv"]
        if x.get("tf") == "$":
            ks = list(x["ta"]); self.r.shuffle(ks)
            x["ta"] = {k: x["ta"][k] for k in ks}

    def ex(self, t, env, d, sc):
        r = self.r
        if d <= 0: return self.leaf(t, env, sc)
        k = t[0]
        c = r.random()
        if c < .15: return self.leaf(t, env, sc)
        if c < .3 and self.can(t, sc, env):
            return if_(self.ex(BT, env, d - 1, sc), self.ex(t, env, d - 1, sc), self.ex(t, env, d - 1, sc))
        if c < .5:
            cs = self.callees(t, sc)
            r.shuffle(cs)
            for u, m in cs:
                m = self.complete(u, m, sc)
                if self.okbind(u, m):
                    x = self.call(u, m, env, d, sc)
                    if x: return x
        if c < .65:
            es = [(n, x) for n, x in env if x[0] == "en"]
            if es and self.can(t, sc, env):
                n, et = r.choice(es)
                arms = []
                for i, (v, fs) in enumerate(self.g.variants(et)):
                    b = [(self.g.fresh("m"), x) for _, x in fs]
                    arms.append(arm(pe(et[1], i + 1, "%s::%s" % (et[1], v), *[pn(a) for a, _ in b]),
                                    self.ex(t, env + b, d - 1, sc)))
                r.shuffle(arms)
                return match(var(n), *arms)
        if k in ("u", "s"):
            if t[1][0] == "+":
                a, b = t[1][1], t[1][2]
                if b == ["#", 1] and a[0] == "tv":
                    return bi(r.choice("+-"), self.ex([k, a], env, d - 1, sc), self.ex([k, a], env, d - 1, sc), [k, a])
                if k == "u" and b[0] == "tv":
                    return std("concat", [self.ex(["u", a], env, d - 1, sc), self.ex(["u", b], env, d - 1, sc)],
                               [["u", a], ["u", b]], t, form="concat($1, $2)")
                return self.leaf(t, env, sc)
            if t[1][0] == "#": return self.leaf(t, env, sc) if r.random() < .5 else \
                bi(r.choice(["+.", "-.", "^", "&", "|"]), self.ex(t, env, d - 1, sc), self.ex(t, env, d - 1, sc), t)
            if r.random() < .3:
                w = [k, plus(t[1], ["#", 1])]
                return std("trunc", [self.typed(self.ex(w, env, d - 1, sc), w)], [w], t, form="trunc::<%s, %s>($1)" % (rty(w), rty(t)))
            return bi(r.choice(["+.", "-.", "^", "&", "|"]), self.ex(t, env, d - 1, sc), self.ex(t, env, d - 1, sc), t)
        if k == "b":
            ints = [(n, x) for n, x in env if x[0] in ("u", "s")]
            if ints and r.random() < .7:
                n, x = r.choice(ints)
                return bi(r.choice(["<", ">", "<=", ">=", "==", "!="]), var(n), self.ex(x, env, d - 1, sc), x)
            return bi(r.choice(["&&", "||", "^^"]), self.ex(BT, env, d - 1, sc), self.ex(BT, env, d - 1, sc), BT)
        if k == "tv": return self.leaf(t, env, sc)
        return self.build(t, env, d, sc)

    def gnum(self, sc, d=1):
        r = self.r
        c = r.random()
        if d == 0 or c < .6: return N_(r.choice(sc["nv"])) if r.random() < .7 else ["#", r.randint(0, 5)]
        return [r.choice("++-*"), self.gnum(sc, d - 1), self.gnum(sc, d - 1)]
    def gcond(self, sc, d=1):
        r = self.r
        if d and r.random() < .25: return [r.choice(["&&", "||"]), self.gcond(sc, 0), self.gcond(sc, 0)]
        return [r.choice(["==", "!=", "<", ">", "<=", ">="]), self.gnum(sc), self.gnum(sc)]

    def mk(self, kind=None):
        g, r = self.g, self.r
        kind = kind or r.choice(["fn", "fn", "entity"])
        tv = ["T", "U"][:r.randint(0, 2)]
        nv = ["N", "M"][:r.randint(0 if tv else 1, 2)]
        sc = dict(tv=tv, nv=nv)
        ps = []
        if kind == "entity":
            sc["clk"] = g.fresh("clk")
            ps.append(param(sc["clk"], CK))
        for v in tv: ps.append(param(g.fresh("p"), TV(v)))
        for v in nv: ps.append(param(g.fresh("p"), [r.choice("us"), N_(v)]))
        for _ in range(r.randint(0, 2)): ps.append(param(g.fresh("p"), self.ty(sc)))
        env = [(q["n"], q["t"]) for q in ps if q["t"][0] != "ck"]
        ss = []
        for _ in range(r.randint(0, 3)):
            t = self.ty(sc) if r.random() < .8 or not nv else self.wide(sc)
            if not self.can(t, sc, env): continue
            n = g.fresh("v")
            if kind == "entity" and r.random() < .5:
                e2 = env + ([(n, t)] if r.random() < .5 else [])
                ss.append(reg(g.fresh("g"), n, var(sc["clk"]), self.ex(t, e2, 2, sc), None, None, t))
            else: ss.append(let(n, self.ex(t, env, 2, sc), t))
            env = env + [(n, t)]
        for _ in range(20):
            rt = self.ty(sc) if r.random() < .8 or not nv else self.wide(sc)
            if self.can(rt, sc, env): break
        else: rt = BT
        n = g.fresh("gen")
        tps = tv + nv
        def body(d):
            if nv and d and r.random() < .5: return dict(k="gif", c=self.gcond(sc), a=body(d - 1), b=body(d - 1))
            e = self.ex(rt, env, 3, sc)
            if kind == "entity" and nv and r.random() < .3:
                x = g.fresh("r")
                return blk([reg(g.fresh("g"), x, var(sc["clk"]), e, None, None, rt)], var(x))
            return self.typed(e, rt) if rt[0] in ("st", "en", "a") else e
        e = body(2)
        g.units[n] = unit(kind, ps, ss, e, rt, tp=["#uint " + v if v in nv else v for v in tps],
                          attrs=["inline"] if r.random() < .15 else None)
        u = dict(n=n, tv=tv, nv=nv, ps=ps, rt=rt, kind=kind, inf=True)
        # recursive unit over N: peel one off while N is large
        self.gs.append(u)
        return u

    def mk_rec(self):
        """A unit that recurses on a number."""
        g, r = self.g, self.r
        c = r.randrange(5)
        n = g.fresh("rec")
        Nm = lambda k: ["-", N_("N"), ["#", k]]
        rc = lambda *a, kind="call", **ta: dict(call(n, *a, ta=dict(ta), an=None) if kind == "call" else inst(n, g.fresh("n"), *a, ta=dict(ta)), tf="$")
        z = ["==", N_("N"), ["#", 0]]
        if c == 0:      # delay chain
            ps = [param("clk", CK), param("x", TV("T"))]
            b = blk([reg(g.fresh("g"), "y", var("clk"), var("x"), None, None, TV("T"))],
                    rc(var("clk"), var("y"), kind="inst", N=Nm(1), T=TV("T")))
            u = dict(n=n, tv=["T"], nv=["N"], ps=ps, rt=TV("T"), kind="entity", inf=False)
            g.units[n] = unit("entity", ps, [], dict(k="gif", c=z, a=var("x"), b=b), TV("T"), tp=["T", "#uint N"])
        elif c == 1:    # xor of the elements with their index
            w = r.randint(3, 6)
            ps = [param("x", ["a", UT(w), N_("N")])]
            rest = rc(rng(var("x"), 1, N_("N")), N=Nm(1))
            b = bi(r.choice(["^", "+.", "-."]), bi(r.choice(["^", "+."]), idx(var("x"), lit(0, None)), dict(k="nlit", n=N_("N")), UT(w)), rest, UT(w))
            u = dict(n=n, tv=[], nv=["N"], ps=ps, rt=UT(w), kind="fn", inf=True)
            g.units[n] = unit("fn", ps, [], dict(k="gif", c=z, a=lit(r.randrange(2 ** w), UT(w)), b=b), UT(w), tp=["#uint N"])
        elif c == 2:    # last element by recursion with two conditions
            ps = [param("x", ["a", TV("T"), N_("N")]), param("d", TV("T"))]
            b = dict(k="gif", c=["==", N_("N"), ["#", 1]], a=idx(var("x"), lit(0, None)),
                     b=rc(rng(var("x"), 1, N_("N")), var("d"), N=Nm(1), T=TV("T")))
            u = dict(n=n, tv=["T"], nv=["N"], ps=ps, rt=TV("T"), kind="fn", inf=True)
            g.units[n] = unit("fn", ps, [], dict(k="gif", c=z, a=var("d"), b=b), TV("T"), tp=["T", "#uint N"])
        elif c == 3:    # accumulate over two numbers
            ps = [param("x", UT(5))]
            t1 = ["&&", [">", N_("N"), ["#", 2]], ["<", N_("M"), ["#", 4]]]
            e = dict(k="gif", c=z, a=var("x"),
                     b=dict(k="gif", c=t1, a=bi("+.", rc(var("x"), N=Nm(2), M=plus(N_("M"), ["#", 1])), dict(k="nlit", n=N_("M")), UT(5)),
                            b=bi("^", rc(var("x"), N=Nm(1), M=N_("M")), dict(k="nlit", n=N_("N")), UT(5))))
            u = dict(n=n, tv=[], nv=["N", "M"], ps=ps, rt=UT(5), kind="fn", inf=False)
            g.units[n] = unit("fn", ps, [], e, UT(5), tp=["#uint N", "#uint M"])
        else:           # halving recursion with a register at every level
            ps = [param("clk", CK), param("x", ["a", TV("T"), N_("N")])]
            h = ["/", N_("N"), ["#", 2]]
            b = blk([reg(g.fresh("g"), "y", var("clk"), idx(var("x"), lit(0, None)), None, None, TV("T"))],
                    tup(var("y"), tix(rc(var("clk"), rng(var("x"), 0, h), kind="inst", N=h, T=TV("T")), 0)))
            rt = TT(TV("T"), TV("T"))
            u = dict(n=n, tv=["T"], nv=["N"], ps=ps, rt=rt, kind="entity", inf=False)
            g.units[n] = unit("entity", ps, [], dict(k="gif", c=["<=", N_("N"), ["#", 1]],
                              a=tup(idx(var("x"), lit(0, None)), idx(var("x"), lit(0, None))), b=b), rt, tp=["T", "#uint N"])
        self.gs.append(u)
        return u

def ssub(t, m):
    """Substitute without evaluating."""
    k = t[0]
    if k == "tv": return m.get(t[1], t)
    if k in ("u", "s"): return [k, ssub(t[1], m)]
    if k == "t": return ["t", [ssub(x, m) for x in t[1]]]
    if k == "a": return ["a", ssub(t[1], m), ssub(t[2], m)]
    if k in ("st", "en"): return [k, t[1], [ssub(x, m) for x in t[2]]]
    if k in ("+", "-", "*", "/", "%"): return [k, ssub(t[1], m), ssub(t[2], m)]
    return t

def generic_cases(ck, n):
    cases = []
    i = 0
    while len(cases) < n:
        i += 1
        r = rng_of(ck, i, 13)
        g = Gen(r, depth=1, maxw=5, match=.3, calls=0, agg=1)
        sg = SG(g)
        for _ in range(r.randint(1, 4)): sg.mk()
        if r.random() < .4: sg.mk_rec()
        clk = "clk"
        prm = [param("clk", CK)]
        for _ in range(3):
            t = g.ty(1)
            prm.append(param(g.fresh("p"), t if g.w(t) <= 12 else g.int_t()))
        env = [(q["n"], q["t"]) for q in prm[1:]]
        ss, outs = [], []
        for u in sg.gs:
            for _ in range(r.choice([1, 2, 2, 3])):
                m = {}
                for v in u["tv"]: m[v] = g.ty(1)
                for v in u["nv"]: m[v] = ["#", r.randint(1, 4)]
                pts = [conc(q["t"], m) for q in u["ps"]]
                rt = conc(u["rt"], m)
                if any(g.w(t) > 60 for t in pts) or g.w(rt) > 30 or g.w(rt) == 0: continue
                args = [var("clk") if t[0] == "ck" else g.ex(t, env, 1) for t in pts]
                ta = {v: m[v] for v in u["tv"] + u["nv"]}
                x = call(u["n"], *args, ta=ta) if u["kind"] == "fn" else inst(u["n"], g.fresh("n"), *args, ta=ta)
                sg.turbo(x, u)
                nm = g.fresh("o")
                ss.append(let(nm, x, rt))
                outs.append((nm, rt))
        if len(outs) < 2: continue
        u = g.units["top"] = unit("entity", prm, ss, tup(*[var(a) for a, _ in outs]), TT(*[t for _, t in outs]))
        if g.w(u["rt"]) > 400: continue
        cases.append(dict(prog=g.prog("top"), steps=g.tx(u, 14), tag="generic"))
    return cases

def run(prop, tier):
    ck = Check(prop, tier)
    conform.run_cases(ck, generic_cases(ck, ck.pick(220, 5000)))
    conform.run_cases(ck, c_lam.twin_cases(ck, ck.pick(60, 1500)))   # instances for functions taking functions
    static.run_verdicts(ck, c_num.cg_cases(ck, ck.pick(800, 20000)))
    ck.assumptions = ASSUME
    return ck.finish()
