"""C14: methods and traits: random impl blocks, generic impls, bounded generic units and calls."""
import random
from sp import *
from gen import Gen, has_tv
from c_sem import rng_of, run_profile

FINITE = [UT(3), UT(5), UT(8), ST(4), ST(2), BT, TT(BT, UT(2)), TT(UT(2), UT(2)), AT(BT, 2), AT(UT(2), 2), AT(UT(2), 3)]

class MG:
    def __init__(self, g):
        self.g, self.r = g, g.r
        g.structs["Pair"] = dict(tp=["A", "B"], fs=[["a", TV("A")], ["b", TV("B")]])
        g.enums["Either"] = dict(tp=["A", "B"], vs=[["L", [["v", TV("A")]]], ["R", [["w", TV("B")]]]])
        self.traits = {}
        self.impls = []
        self.where = {}

    def sigs(self, k, pre="m"):
        g, r = self.g, self.r
        out = []
        for i in range(k):
            kind = r.choice(["fn", "fn", "fn", "entity", "pipeline"])
            ps = [param("clk", CK)] if kind != "fn" else []
            ps += [param("q%d" % j, r.choice([UT(4), BT, ST(3), UT(2)])) for j in range(r.randint(0, 3))]
            out.append(dict(m="%s%d" % (pre, i), ps=ps, rt=r.choice([UT(4), BT, ST(3), TT(BT, UT(4))]), kind=kind,
                            d=r.randint(1, 2) if kind == "pipeline" else None))
        return out

    def body(self, sig, ty, extra_meths):
        """A unit implementing sig for receiver type ty."""
        g, r = self.g, self.r
        name = "%s_%s" % (sig["m"], g.fresh("u"))
        ps = [param("self", ty)] + sig["ps"]
        env = [(q["n"], q["t"]) for q in ps if q["t"][0] != "ck"]
        save = g.meths
        g.meths = extra_meths
        ss = []
        if sig["kind"] == "entity":
            for _ in range(r.randint(0, 2)):
                n = g.fresh("r")
                t = r.choice([UT(4), BT, ST(3)])
                ss.append(reg(g.fresh("g"), n, var("clk"), g.ex(t, env + [(n, t)], 2), None, None, t))
                env = env + [(n, t)]
        elif sig["kind"] == "pipeline":
            for _ in range(sig["d"]):
                n = g.fresh("v")
                t = r.choice([UT(4), BT, ST(3)])
                ss += [let(n, g.ex(t, env, 2), t), stage()]
                env = env + [(n, t)]
        e = g.ex(sig["rt"], env, 2)
        g.meths = save
        g.units[name] = unit(sig["kind"], ps, ss, e, sig["rt"], depth=sig["d"])
        return name

    def impl(self, ty, sigs, meths, trait=None, tps=None, where=None, tp=None):
        ms = {}
        order = list(sigs)
        self.r.shuffle(order)
        for s in order: ms[s["m"]] = self.body(s, ty, meths)
        im = dict(ty=ty, ms=ms)
        if trait: im["trait"] = trait
        if tps: im["tps"] = tps
        if where: im["where"] = where
        self.impls.append(im)

def at(sigs, ty): return [dict(s, ty=ty) for s in sigs]

def method_cases(ck, n):
    cases = []
    i = 0
    while len(cases) < n:
        i += 1
        r = rng_of(ck, i, 14)
        g = Gen(r, depth=2, maxw=5, match=.5, calls=0, agg=1, arrays=.2, meth=5)
        mg = MG(g)
        g.decl_types(2, 2)
        own = [["st", n_, []] for n_, d in g.structs.items() if not d["tp"]] + [["en", n_, []] for n_, d in g.enums.items() if not d["tp"]]
        pool = own + r.sample(FINITE, r.randint(2, 6))
        r.shuffle(pool)
        callable_ = []                       # methods on concrete receivers
        # traits with concrete and generic impls
        bounded = []
        for ti in range(r.randint(1, 2)):
            tr = "Tr%d" % ti
            sg = mg.sigs(r.randint(1, 3), "t%d_" % ti)
            mg.traits[tr] = ["%s %s(self%s) -> %s" % ("pipeline(%d)" % s["d"] if s["kind"] == "pipeline" else s["kind"], s["m"],
                             "".join(", %s: %s" % (q["n"], rty(q["t"])) for q in s["ps"]), rty(s["rt"])) for s in sg]
            tys = r.sample(pool, min(len(pool), r.randint(1, 4)))
            done = []
            for t in tys:
                mg.impl(t, sg, list(callable_), trait=tr)
                done.append(t)
                callable_ += at(sg, t)
            if r.random() < .6:
                A, B = TV("A"), TV("B")
                t = r.choice([STR("Pair", A, B), ENM("Either", A, B)])
                mg.impl(t, sg, at(sg, A) + at(sg, B), trait=tr, tps=["A", "B"], where=["A: " + tr, "B: " + tr])
                for _ in range(2):
                    x = [t[0], t[1], [r.choice(done), r.choice(done)]]
                    done.append(x); callable_ += at(sg, x)
            elif r.random() < .5 and not any(x[0] == "a" for x in done):
                t = ["a", TV("A"), ["tv", "N"]]
                mg.impl(t, sg, at(sg, TV("A")), trait=tr, tps=["A", "#uint N"], where=["A: " + tr])
                x = AT(r.choice(done), r.randint(1, 3))
                done.append(x); callable_ += at(sg, x)
            elif r.random() < .5 and not any(x[0] == "u" for x in done):
                mg.impl(["u", ["tv", "N"]], sg, [], trait=tr, tps=["#uint N"])
                for w in r.sample([1, 2, 4, 6], 2):
                    done.append(UT(w)); callable_ += at(sg, UT(w))
            # bounded generic units
            for _ in range(r.randint(0, 2)):
                nm = g.fresh("bg")
                kind = r.choice(["fn", "entity"])
                sgs = [s for s in sg if kind == "entity" or s["kind"] == "fn"]
                if not sgs: continue
                ps = ([param("clk", CK)] if kind == "entity" else []) + [param("t", TV("T")), param("v", UT(4)), param("w", BT)]
                env = [(q["n"], q["t"]) for q in ps if q["t"][0] != "ck"]
                g.meths = at(sgs, TV("T"))
                ss = []
                for _ in range(r.randint(1, 3)):
                    m = r.choice(g.meths)
                    x = g.fresh("b")
                    e = g.mk_mcall(m, env, 2, "clk")
                    ss.append(let(x, e, m["rt"]))
                    env = env + [(x, m["rt"])]
                rt = r.choice([UT(4), BT, TT(UT(4), BT)])
                e = g.ex(rt, env, 2)
                g.meths = []
                g.units[nm] = unit(kind, ps, ss, e, rt, tp=["T" if r.random() < .5 else "T: " + tr])
                if g.units[nm]["tp"] == ["T"]: g.units[nm]["where"] = ["T: " + tr]
                bounded.append((nm, kind, ps, rt, list(done)))
        # inherent impls: the same method names on several types
        sg = mg.sigs(r.randint(1, 2), "i")
        for t in r.sample(pool, min(len(pool), r.randint(1, 3))):
            mg.impl(t, sg, list(callable_))
            callable_ += at(sg, t)
        prm = [param("clk", CK)]
        for t in r.sample(pool, min(3, len(pool))): prm.append(param(g.fresh("p"), t))
        prm.append(param(g.fresh("p"), UT(4)))
        env = [(q["n"], q["t"]) for q in prm[1:]]
        g.meths = [m for m in callable_ if m["kind"] == "fn"]
        ss, outs = [], []
        for m in r.sample(callable_, min(len(callable_), 8)):
            x = g.fresh("o")
            d = m["d"] or 0
            if d: continue
            ss.append(let(x, g.mk_mcall(m, env, 2, "clk"), m["rt"]))
            outs.append((x, m["rt"]))
        for nm, kind, ps, rt, done in bounded:
            for t in r.sample(done, min(len(done), 2)):
                args = [var("clk") if q["t"][0] == "ck" else g.ex(t if q["t"][0] == "tv" else q["t"], env, 1) for q in ps]
                x = g.fresh("o")
                e = call(nm, *args, ta={"T": t}) if kind == "fn" else inst(nm, g.fresh("n"), *args, ta={"T": t})
                if r.random() < .3: e["tf"] = ["T"]
                ss.append(let(x, e, rt)); outs.append((x, rt))
        pip = [m for m in callable_ if m["kind"] == "pipeline"]
        if pip and r.random() < .7:      # a pipeline around pipeline methods
            m = r.choice(pip)
            pps = [param("clk", CK)] + [param("x%d" % j, t) for j, (_, t) in enumerate(env)]
            e2 = [(q["n"], q["t"]) for q in pps[1:]]
            sv = g.meths
            b = [let("z", g.mk_mcall(m, e2, 2, "clk"), m["rt"])] + [stage() for _ in range(m["d"])]
            g.units["outer"] = unit("pipeline", pps, b, var("z"), m["rt"], depth=m["d"])
            ss.append(let("oz", inst("outer", "no", var("clk"), *[var(a) for a, _ in env], d=m["d"]), m["rt"]))
            outs.append(("oz", m["rt"]))
        if len(outs) < 2: continue
        u = g.units["top"] = unit("entity", prm, ss, tup(*[var(a) for a, _ in outs]), TT(*[t for _, t in outs]))
        g.impls = mg.impls
        p = g.prog("top")
        p["traits"] = mg.traits
        cases.append(dict(prog=p, steps=g.tx(u, 14), tag="method"))
    return cases

def run(prop, tier): return run_profile(prop, tier, [(method_cases, 220, 5000)])
