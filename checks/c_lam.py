"""C15: lambdas: captures, nesting, passing through generic units and the standard library, entity and
pipeline lambdas."""
import random
from sp import *
from gen import Gen, has_tv
from c_sem import rng_of, run_profile

class LG(Gen):
    def __init__(self, r, **kw):
        super().__init__(r, **kw)
        self.nest = 0
        self.hofs = []           # units taking functions

    # a lambda ps -> rt over env
    def lambda_(self, pts, rt, env, d):
        r = self.r
        pats, binds, pre = [], [], []
        for t in pts:
            if t[0] in ("t",) and r.random() < .5:
                ns = [self.fresh("m") for _ in t[1]]
                pats.append(pt(*[pn(n) for n in ns]))
                binds += list(zip(ns, t[1]))
            else:
                n = self.fresh("a")
                pats.append(pn(n))
                binds.append((n, t))
        # pin the types of the parameters
        e2 = list(env)
        for n, t in binds:
            x = self.fresh("b")
            pre.append(let(x, var(n), t))
            e2 = e2 + [(x, t), (n, t)]
        self.nest += 1
        for _ in range(r.choice([0, 0, 1])):
            s2, e2 = self.lets(e2, 1, max(1, d - 1))
            pre += s2
        self.nest -= 1
        o = self.fresh("z")
        self.nest += 1
        pre.append(let(o, self.ex(rt, e2, d), rt))
        self.nest -= 1
        return lam(pats, blk(pre, var(o)))

    def small(self):
        for _ in range(20):
            t = self.ty(1)
            if 0 < self.w(t) <= 12: return t
        return BT

    def fnval(self, pts, rt, env, d):
        """A function value of the given type: a lambda in scope or a new one."""
        c = [m for m in self.lams if m["kind"] == "fn" and m["ps"] == pts and m["rt"] == rt]
        if c and self.r.random() < .6: return var(self.r.choice(c)["n"])
        return self.lambda_(pts, rt, env, d - 1)

    def g_lcall(self, t, env, d):
        m = self.r.choice([m for m in self.lams if m["rt"] == t and m["kind"] == "fn"])
        return lcall(var(m["n"]), *[self.arg(x, env, d - 1) for x in m["ps"]])

    def arg(self, t, env, d):
        e = self.ex(t, env, d)
        return self.typed(e, t) if self.nest and e["k"] not in ("var", "lit", "bool") else e

    def typed(self, e, t):
        n = self.fresh("k")
        return blk([let(n, e, t)], var(n))

    def g_hof(self, t, env, d):
        # the type of a lambda inside a lambda must follow from its use
        e = self.hof(t, env, d)
        return self.typed(e, t) if self.nest and e["k"] not in ("blk", "var") else e

    def hof(self, t, env, d):
        r = self.r
        k = t[0]
        opts = ["imm", "user", "user"]
        if k == "a": opts += ["map"] * 4
        if t == BT: opts += ["all", "any"]
        opts += ["fold", "reduce"]
        if k == "en" and t[1] == "Option": opts += ["omap", "and_then"] * 2
        if k == "a" and t[2][1] >= 1: opts += ["unfold"]
        o = r.choice(opts)
        arr_ = lambda et, n: self.typed(self.ex(AT(et, n), env, d - 1), AT(et, n)) if r.random() < .7 or not [x for x in env if x[1] == AT(et, n)] else var([x for x, y in env if y == AT(et, n)][0])
        S = lambda f, args, ts, form, **kw: std(f, args, ts, t, form=form, **kw)
        if o == "imm":
            pts = [self.small() for _ in range(r.randint(0, 3))]
            return lcall(self.lambda_(pts, t, env, d - 1), *[self.arg(x, env, d - 1) for x in pts]) if pts else self.leaf(t, env)
        if o == "user":
            c = [h for h in self.hofs if h["rt"] == t and h["kind"] == "fn"]
            g = [h for h in self.hofs if h["kind"] == "generic" and not (self.nest and h["n"] == "comp")]
            if c and (r.random() < .6 or not g):
                h = r.choice(c)
                return call(h["n"], *[self.fnval(x[1], x[2], env, d) if x[0] == "F" else self.ex(x, env, d - 1) for x in h["ps"]])
            if g: return self.typed(r.choice(g)["mk"](t, env, d), t)
            return self.leaf(t, env)
        if o == "map":
            et = self.small()
            n = t[2][1]
            return S("map", [arr_(et, n), self.fnval([et], t[1], env, d)], [AT(et, n)], "$1.map($2)")
        if o in ("all", "any"):
            et, n = self.small(), r.randint(0 if False else 1, 4)
            return S(o, [arr_(et, n), self.fnval([et], BT, env, d)], [AT(et, n)], "$1.%s($2)" % o)
        if o == "fold":
            et, n = self.small(), r.randint(1, 4)
            return S("fold", [arr_(et, n), self.ex(t, env, d - 1), self.fnval([t, et], t, env, d)], [AT(et, n)], "$1.fold($2, $3)")
        if o == "reduce":
            n = r.randint(1, 4)
            if self.w(t) > 8: return self.leaf(t, env)
            return S("reduce", [arr_(t, n), self.fnval([t, t], t, env, d)], [AT(t, n)], "$1.reduce($2)")
        if o == "unfold":
            n = t[2][1]
            return S("unfold", [self.ex(t[1], env, d - 1), self.fnval([t[1]], t[1], env, d)], [t[1]],
                     "std::array::unfold::<%s, %d>($1, $2)" % (rty(t[1]), n), n=["#", n])
        et = self.small()
        ot = ENM("Option", et)
        e = self.typed(self.ex(ot, env, d - 1), ot)
        if o == "omap": return S("omap", [e, self.fnval([et], t[2][0], env, d)], [ot], "$1.map($2)")
        return S("and_then", [e, self.fnval([et], t, env, d)], [ot], "$1.and_then($2)")

    def let_lams(self, env, k, d):
        """Statements binding new lambdas, which become callable."""
        ss = []
        for _ in range(k):
            pts = [self.small() for _ in range(self.r.randint(1, 3))]
            rt = self.small()
            n = self.fresh("f")
            ss.append(let(n, self.lambda_(pts, rt, env, d)))
            self.lams.append(dict(n=n, ps=pts, rt=rt, kind="fn"))
        return ss

    def lets(self, env, k, depth):
        if not self.prof.get("nolet"):
            ss = []
            for _ in range(k):
                if self.r.random() < .3 and depth > 1:
                    ss += self.let_lams(env, 1, depth - 1)
                    m = self.lams[-1]     # a lambda in a lambda has to be called to have a type
                    x = self.fresh("u")
                    ss.append(let(x, lcall(var(m["n"]), *[self.arg(y, env, 1) for y in m["ps"]]), m["rt"]))
                    env = env + [(x, m["rt"])]
                s2, env = super().lets(env, 1, depth)
                ss += s2
            return ss, env
        return super().lets(env, k, depth)

    def g_blk(self, t, env, d):
        save = list(self.lams)
        x = super().g_blk(t, env, d)
        self.lams = save
        return x

    # ------------------------------------------------ units taking functions
    def fty(self, F): return ["fn", "impl Fn(%s) -> %s" % (", ".join(rty(x) for x in F[1]), rty(F[2]))]

    def mk_hof(self, kind="fn"):
        r = self.r
        n = self.fresh("h")
        ps_ = []
        for _ in range(r.randint(1, 2)): ps_.append(("F", [self.small() for _ in range(r.randint(1, 2))], self.small()))
        for _ in range(r.randint(1, 2)): ps_.append(self.small())
        r.shuffle(ps_)
        prm = [param("clk", CK)] if kind == "entity" else []
        save, self.lams = self.lams, []
        env = []
        for x in ps_:
            q = self.fresh("p")
            if x[0] == "F":
                prm.append(param(q, self.fty(x)))
                self.lams.append(dict(n=q, ps=x[1], rt=x[2], kind="fn"))
            else:
                prm.append(param(q, x))
                env.append((q, x))
        ss, env = self.lets(env, r.randint(0, 2), 2)
        for m in list(self.lams):
            x = self.fresh("v")
            ss.append(let(x, lcall(var(m["n"]), *[self.ex(y, env, 1) for y in m["ps"]]), m["rt"]))
            env = env + [(x, m["rt"])]
        if kind == "entity":
            for _ in range(r.randint(1, 2)):
                x, t = self.fresh("r"), self.small()
                ss.append(reg(self.fresh("g"), x, var("clk"), self.ex(t, env + [(x, t)], 2), None, None, t))
                env = env + [(x, t)]
        rt = self.small()
        e = self.ex(rt, env, 2)
        self.lams = save
        self.units[n] = unit(kind, prm, ss, e, rt, attrs=["inline"] if r.random() < .2 else None)
        self.hofs.append(dict(n=n, kind=kind, ps=ps_, rt=rt))

    def mk_generic_hofs(self):
        r = self.r
        A, B, C = TV("A"), TV("B"), TV("C")
        F = lambda s: ["fn", s]
        def add(n, prm, e, rt, tp, mk, ss=()):
            self.units[n] = unit("fn", prm, list(ss), e, rt, tp=tp)
            self.hofs.append(dict(n=n, kind="generic", mk=mk, rt=None))
        if r.random() < .6:
            add("comp", [param("cf", F("impl Fn(A) -> B")), param("cg", F("impl Fn(B) -> C")), param("cx", A)],
                lcall(var("cg"), lcall(var("cf"), var("cx"))), C, ["A", "B", "C"],
                lambda t, env, d: (lambda a, b: call("comp", self.fnval([a], b, env, d), self.fnval([b], t, env, d), self.ex(a, env, d - 1),
                                                     ta=dict(A=a, B=b, C=t)))(self.small(), self.small()))
        if r.random() < .6:
            add("twice", [param("tf", F("impl Fn(A) -> A")), param("tx", A)],
                lcall(var("tf"), lcall(var("tf"), var("tx"))), A, ["A"],
                lambda t, env, d: call("twice", self.fnval([t], t, env, d), self.ex(t, env, d - 1), ta=dict(A=t)))
        if r.random() < .5:        # a lambda around a function parameter, in a generic unit
            add("wrap", [param("wf", F("impl Fn(A, B) -> C")), param("wx", A), param("wy", B)],
                lcall(var("wl"), var("wy")), C, ["A", "B", "C"],
                lambda t, env, d: (lambda a, b: call("wrap", self.fnval([a, b], t, env, d), self.ex(a, env, d - 1), self.ex(b, env, d - 1),
                                                     ta=dict(A=a, B=b, C=t)))(self.small(), self.small()),
                ss=[let("wl", lam([pn("wq")], lcall(var("wf"), var("wx"), var("wq"))))])
        if r.random() < .5:        # captures a generic number and a generic value
            t0 = TT(UT(8), A)
            def mk(t, env, d):
                n, a = r.randint(0, 60), self.small()
                k = self.fresh("k")
                return blk([let(k, call("capn", self.ex(a, env, d - 1), self.ex(UT(8), env, d - 1), ta=dict(N=["#", n], A=a)) | dict(tf="$"), TT(UT(8), a))],
                           self.ex(t, env + [(k, TT(UT(8), a))], max(1, d - 1)))
            add("capn", [param("nx", A), param("ny", UT(8))], lcall(var("nl"), var("ny")), t0, ["#uint N", "A"], mk,
                ss=[let("nl", lam([pn("nq")], blk([let("nn", dict(k="nlit", n=["tv", "N"]), UT(8)), let("np", var("nq"), UT(8))],
                                                  tup(bi("^", var("nn"), var("np"), UT(8)), var("nx")))))])
        if r.random() < .5:        # the function is generic over its own type
            add("viaf", [param("vx", A), param("vf", F("F"))], lcall(var("vf"), var("vx")), B, ["A", "B", "F: Fn(A) -> B"],
                lambda t, env, d: (lambda a: call("viaf", self.ex(a, env, d - 1), self.fnval([a], t, env, d), ta=dict(A=a, B=t)))(self.small()))

def seq_lams(g, env, clk, k):
    """Entity and pipeline lambdas and their instances."""
    r, ss = g.r, []
    for _ in range(k):
        kind = r.choice(["entity", "pipeline"])
        pts = [g.small() for _ in range(r.randint(1, 2))]
        rt = g.small()
        f = g.fresh("f")
        ns = [g.fresh("a") for _ in pts]
        c2 = "clk"
        b, e2, d = [], list(env), None
        g.nest += 1
        save = list(g.lams)
        for n, t in zip(ns, pts):
            x = g.fresh("b")
            b.append(let(x, var(n), t))
            e2 = e2 + [(x, t)]
        if kind == "entity":
            for _ in range(r.randint(1, 2)):
                x, t = g.fresh("r"), g.small()
                rst = [n for n, t2 in env if t2 == BT]
                b.append(g.reg_stmt(x, t, e2 + [(x, t)], 2, [c2], rst))
                e2 = e2 + [(x, t)]
        else:
            d = r.randint(1, 3)
            for _ in range(d):
                s2, e2 = g.lets(e2, 1, 2)
                b += s2
                b.append(stage())
        o = g.fresh("z")
        b.append(let(o, g.ex(rt, e2, 2), rt))
        g.lams = save
        g.nest -= 1
        ss.append(let(f, lam([pn(n) for n in ns], blk(b, var(o)), kind, c2, d)))
        for _ in range(r.choice([1, 1, 2])):
            x = g.fresh("i")
            ss.append(("inst", f, kind, pts, rt, d, x))
    return ss

def lam_cases(ck, n):
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 15)
        g = LG(r, depth=2, maxw=5, match=.4, calls=1, agg=1, arrays=.6, lam=r.choice([1.5, 3]), named=.2, conv=.5)
        g.decl_types(1, 1)
        for _ in range(r.randint(0, 2)): g.mk_hof()
        g.mk_generic_hofs()
        if r.random() < .3:
            g.lams = []
            g.mk_fn()
        hofe = None
        if r.random() < .3:
            g.mk_hof("entity")
            hofe = g.hofs.pop()
        prm = [param("clk", CK)]
        for _ in range(r.randint(2, 4)):
            t = g.ty(2)
            prm.append(param(g.fresh("x"), t if 0 < g.w(t) <= 20 else g.int_t()))
        env = [(q["n"], q["t"]) for q in prm[1:]]
        g.lams = []
        ss, vis = [], []
        for _ in range(r.randint(1, 3)):
            s2, env = g.lets(env, 1, 2)
            ss += s2
            ss += g.let_lams(env, 1, 2)
        if hofe:
            x = g.fresh("i")
            ss.append(let(x, inst(hofe["n"], g.fresh("n"), var("clk"), *[g.fnval(y[1], y[2], env, 2) if y[0] == "F" else g.ex(y, env, 1) for y in hofe["ps"]]), hofe["rt"]))
            env = env + [(x, hofe["rt"])]; vis.append((x, hofe["rt"]))
        if r.random() < .5:
            for s in seq_lams(g, env, "clk", r.randint(1, 2)):
                if isinstance(s, tuple):
                    _, f, kind, pts, rt, d, x = s
                    s = let(x, linst(var(f), g.fresh("n"), var("clk"), [g.ex(t, env, 1) for t in pts], d), rt)
                    vis.append((x, rt))
                ss.append(s)
        for m in list(g.lams):
            x = g.fresh("o")
            ss.append(let(x, lcall(var(m["n"]), *[g.ex(t, env, 2) for t in m["ps"]]), m["rt"]))
            vis.append((x, m["rt"]))
        for _ in range(r.randint(1, 3)):
            x, t = g.fresh("o"), g.small()
            ss.append(let(x, g.g_hof(t, env, 3), t))
            vis.append((x, t))
        if r.random() < .4:              # lambdas that travel through a pipeline
            d = r.randint(1, 2)
            pps = [param("clk", CK)] + [param("y%d" % j, t) for j, (_, t) in enumerate(env)]
            e2 = [(q["n"], q["t"]) for q in pps[1:]]
            save, g.lams = g.lams, []
            b = g.let_lams(e2, r.randint(1, 2), 2)
            for _ in range(d):
                b.append(stage())
                s2, e2 = Gen.lets(g, e2, 1, 2)
                b += s2
            m = r.choice(g.lams)
            z = g.fresh("z")
            b.append(let(z, lcall(var(m["n"]), *[g.ex(t, e2, 2) for t in m["ps"]]), m["rt"]))
            g.units["pipe"] = unit("pipeline", pps, b, var(z), m["rt"], depth=d)
            g.lams = save
            ss.append(let("op", inst("pipe", "np", var("clk"), *[var(a) for a, _ in env], d=d), m["rt"]))
            vis.append(("op", m["rt"]))
        vis = [v for v in vis if g.w(v[1]) > 0]
        if len(vis) < 2: vis = vis + [(a, t) for a, t in env if g.w(t) > 0][:2]
        g.units["top"] = unit("entity", prm, ss, tup(*[var(a) for a, _ in vis]), TT(*[t for _, t in vis]))
        p = g.prog("top")
        if r.random() < .5:
            import shadow
            shadow.cross(p, r)
        cases.append(dict(prog=p, steps=g.tx(g.units["top"], 12), tag="lambda"))
    return cases

def twin_cases(ck, n):
    """Several calls of one generic unit at the same types, each with its own function."""
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 151)
        g = LG(r, depth=1, maxw=4, match=.2, calls=.3, agg=1, arrays=.3, lam=1, named=.2, conv=.3)
        g.decl_types(1, 0)
        while not g.hofs: g.mk_generic_hofs()
        prm = [param("x%d" % j, UT(r.randint(1, 4)) if j < 2 else r.choice([BT, ST(3), UT(2)])) for j in range(4)]
        env = [(q["n"], q["t"]) for q in prm]
        ss, vis = [], []
        for _ in range(2):
            h = r.choice([h for h in g.hofs if h["kind"] == "generic" and h["mk"]])
            t = g.small()
            for _ in range(r.randint(2, 3)):
                x = g.fresh("o")
                ss.append(let(x, g.typed(h["mk"](t, env, 2), t), t))
                if g.w(t) > 0: vis.append((x, t))
        if len(vis) < 2: vis += env[:2]
        g.units["top"] = unit("entity", prm, ss, tup(*[var(a) for a, _ in vis]), TT(*[t for _, t in vis]))
        cases.append(dict(prog=g.prog("top"), steps=g.tx(g.units["top"], 8), tag="lambda-twins"))
    return cases

def run(prop, tier): return run_profile(prop, tier, [(lam_cases, 200, 5000)])
