"""C08: match exhaustiveness and refutability of let and reg patterns."""
from lib import *
from sp import *
from gen import Gen
from c_sem import rng_of, ASSUME
import static

class PGen(Gen):
    def leafp(self):
        if self.r.random() < .5: return PW
        return pn(self.fresh("m"))
    def ilits(self, t):
        w = t[1][1]
        return list(range(2 ** w)) if t[0] == "u" else list(range(-2 ** (w - 1), 2 ** (w - 1)))
    def part(self, t, d):
        """Patterns that together match every value of t."""
        r, k = self.r, t[0]
        if d <= 0 or r.random() < .2: return [self.leafp()]
        if k == "b": out = [pb(True), pb(False)]
        elif k in ("u", "s"):
            if t[1][1] <= 3 and r.random() < .6: out = [pi(v, t) for v in self.ilits(t)]
            else: out = [pi(self.lit(t)["v"], t) for _ in range(r.randint(1, 3))] + [self.leafp()]
        elif k == "t": out = [pt(*q) for q in self.prod(t[1], d - 1)]
        elif k == "a": out = [pa(*q) for q in self.prod([t[1]] * t[2][1], d - 1)] if t[2][1] else [self.leafp()]
        elif k == "st":
            fs = self.fields(t)
            out = []
            for q in self.prod([x for _, x in fs], d - 1):
                y = r.random() < .3
                o = list(range(len(fs)))
                if y: r.shuffle(o)
                out.append(ps(t[1], [[fs[i][0], q[i]] for i in o], 1 if y else 0))
        elif k == "en":
            out = []
            for i, (v, fs) in enumerate(self.variants(t)):
                nm = v if self.enums[t[1]].get("std") else "%s::%s" % (t[1], v)
                for q in self.prod([x for _, x in fs], d - 1):
                    x = pe(t[1], i + 1, nm, *q)
                    if fs and r.random() < .2:
                        o = list(range(len(fs))); r.shuffle(o)
                        x["nm"] = [[fs[j][0], j] for j in o]
                    out.append(x)
        else: out = [self.leafp()]
        return [pat(self.fresh("m"), q) if r.random() < .05 else q for q in out]
    def prod(self, ts, d):
        if not ts: return [[]]
        cols = list(range(len(ts)))
        self.r.shuffle(cols)
        def go(cs):
            if not cs: return [{}]
            i = cs[0]
            out = []
            for q in self.part(ts[i], d):
                rest = go(cs[1:]) if self.r.random() < .6 else [{j: self.leafp() for j in cs[1:]}]
                out += [dict(x, **{str(i): None}) | {i: q} for x in rest]
            return out
        import copy
        return [[copy.deepcopy(x[i]) for i in range(len(ts))] for x in go(cols)][:40]
    def reps(self, t, nl):
        """Number of representative values the specification enumerates."""
        k = t[0]
        if k == "b": return 2
        if k in ("u", "s"): return min(2 ** t[1][1], nl + 1)
        def pr(ts):
            n = 1
            for x in ts: n *= self.reps(x, nl)
            return n
        if k == "t": return pr(t[1])
        if k == "a": return pr([t[1]] * t[2][1])
        if k == "st": return pr([x for _, x in self.fields(t)])
        if k == "en": return sum(pr([x for _, x in fs]) for _, fs in self.variants(t))
        return 1

def nlits(x, out):
    if isinstance(x, dict):
        if x.get("k") == "pi": out.add(x["v"])
        for v in x.values(): nlits(v, out)
    elif isinstance(x, list):
        for v in x: nlits(v, out)
    return len(out)

def subpats(p, out):
    out.append(p)
    for q in p.get("ps", []): subpats(q, out)
    if p["k"] == "ps":
        for _, q in p["fs"]: subpats(q, out)
    if p["k"] == "pat": subpats(p["p"], out)
    return out

def rename(p, g):
    """Fresh names, so that no pattern binds a name twice."""
    for q in subpats(p, []):
        if q["k"] in ("pn", "pat"): q["n"] = g.fresh("m")

def match_cases(ck, n):
    cases = []
    i = 0
    while len(cases) < n:
        i += 1
        r = rng_of(ck, i, 8001)
        g = PGen(r, maxw=r.choice([2, 3, 8]), opt=0)
        if r.random() < .4: g.enums["Opt"] = dict(tp=["T"], vs=[["N", []], ["S", [["v", TV("T")]]]])
        g.decl_types(r.randint(0, 2), r.randint(0, 3))
        t = g.ty(r.choice([1, 2, 3]))
        pats = g.part(t, r.choice([1, 2, 3, 4]))
        if not pats or len(pats) > 60: continue
        k = r.random()
        if k < .25 and len(pats) > 1: pats.pop(r.randrange(len(pats)))
        elif k < .45 and pats:
            q = r.choice(subpats(r.choice(pats), []))
            if q["k"] == "pi": q["v"] = g.lit(q["t"])["v"]
            elif q["k"] == "pb": q["v"] = not q["v"]
            elif q["k"] in ("pn", "pw") and len(pats) > 2: pats.pop(r.randrange(len(pats)))
            elif q["k"] in ("pt", "pe") and q["ps"] and r.random() < .6:
                j = r.randrange(len(q["ps"])); q["ps"][j] = PW.copy()
        elif k < .6:
            for _ in range(r.randint(1, 3)): pats.insert(r.randrange(len(pats) + 1), g.pattern(t, [], 3))
            if r.random() < .5: pats.pop(r.randrange(len(pats)))
        if r.random() < .4: r.shuffle(pats)
        arms = [arm(q, lit(j % 16, UT(4))) for j, q in enumerate(pats)]
        if r.random() < .3 and arms:
            for a in r.sample(arms, 1 if r.random() < .7 else min(2, len(arms))):
                a["g"] = var("c") if r.random() < .7 else boo(True)
        if not arms or g.reps(t, nlits(pats, set())) > 1200: continue
        for q in pats: rename(q, g)
        form = r.random()
        ret, e = UT(4), match(var("x"), *arms)
        if form < .2: e = tup(e, boo(True)); ret = TT(UT(4), BT)
        elif form < .3: e = blk([let("q", e, UT(4))], var("q"))
        u = unit("fn" if r.random() < .5 else "entity", [param("x", t), param("c", BT)], [], e, ret)
        g.units["top"] = u
        cases.append(dict(prog=g.prog("top"), q=dict(k="match", t=t, arms=arms), tag="match"))
    return cases

def let_cases(ck, n):
    cases = []
    i = 0
    while len(cases) < n:
        i += 1
        r = rng_of(ck, i, 8002)
        g = PGen(r, maxw=r.choice([1, 2, 8]), opt=0)
        if r.random() < .3: g.enums["Opt"] = dict(tp=["T"], vs=[["N", []], ["S", [["v", TV("T")]]]])
        g.decl_types(r.randint(0, 2), r.randint(0, 1))
        for _ in range(r.randint(0, 2)):       # enums with one variant are irrefutable
            g.enums[g.fresh("E")] = dict(tp=[], vs=[["V0", [["p%d" % j, g.ty(1)] for j in range(r.randint(0, 2))]]])
        t = g.ty(3)
        if t[0] in ("u", "s", "b") and r.random() < .7: continue
        p = g.pattern(t, [], 4, r.random() < .3)
        if g.reps(t, nlits(p, set())) > 1500: continue
        rename(p, g)
        prm = [param("clk", CK), param("x", t)]
        k = r.random()
        if k < .5: ss = [let(p, var("x"), t if r.random() < .5 else None)]
        elif k < .8: ss = [reg("r1", p, var("clk"), var("x"), t=t if r.random() < .5 else None)]
        else: ss = [let("q", blk([let(p, var("x"))], boo(True)), BT)]
        g.units["top"] = unit("entity", prm, ss, boo(True), BT)
        cases.append(dict(prog=g.prog("top"), q=dict(k="irrefutable", t=t, p=p), tag="let" if k < .5 or k >= .8 else "reg"))
    return cases

def run(prop, tier):
    ck = Check(prop, tier)
    static.run_verdicts(ck, match_cases(ck, ck.pick(1500, 30000)))
    static.run_verdicts(ck, let_cases(ck, ck.pick(500, 10000)))
    ck.assumptions = ["patterns and types are drawn at random, half of them next to the boundary between exhaustive and not",
                      "integer types are represented by the values the patterns name and one they do not name"]
    return ck.finish()
