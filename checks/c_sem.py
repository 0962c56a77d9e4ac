"""Checks by trace validation of random programs with a profile per property."""
import random
from lib import *
from sp import *
from gen import Gen
import conform

def rng_of(ck, i, salt): return random.Random(ck.seed * 1000003 + salt * 7919 + i * 31)

def reg_cases(ck, n):
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 1)
        g = Gen(r, depth=2, maxw=8, match=.7, calls=1, agg=2)
        g.decl_types(1, 1)
        if r.random() < .4: g.mk_fn()
        for _ in range(r.choice([0, 1, 1, 2])): g.mk_entity(2, r.randint(1, 3), r.choice([1, 1, 2]))
        u = g.mk_entity(2, r.randint(2, 6), r.choice([1, 1, 2, 3]), top=True)
        cases.append(dict(prog=g.prog("top", passes=4 if g.fwd else 1), steps=g.tx(u, r.choice([12, 20, 30])), tag="registers"))
    return cases

def pipe_cases(ck, n, stalls=0.0):
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 2 if not stalls else 3)
        g = Gen(r, depth=2, maxw=8, match=.5, calls=1, agg=2, initial=.1, decl=0)
        g.decl_types(1, 1)
        if r.random() < .4: g.mk_fn()
        if r.random() < .4: g.mk_entity(2, 2, 1)
        for _ in range(r.choice([0, 1, 1, 2])): g.mk_pipe(stalls=stalls if r.random() < .5 else 0, maxd=3)
        u = g.mk_pipe(top=True, stalls=stalls)
        cases.append(dict(prog=g.prog("top", passes=6 if g.fwd else 1), steps=g.tx(u, r.choice([16, 24])), tag="pipeline"))
    return cases

def stall_cases(ck, n): return pipe_cases(ck, n, .6)

def comb_case(g, r, nin=4, nlets=4, depth=3, steps=16, tag="random"):
    prm = [param("x%d" % i, g.ty(2)) for i in range(nin)]
    prm = [q if g.w(q["t"]) <= 30 else param(q["n"], g.int_t()) for q in prm]
    env = [(q["n"], q["t"]) for q in prm]
    ss, env = g.lets(env, nlets, depth)
    rt = g.out_t()
    g.units["top"] = unit("entity", prm, ss, g.build(rt, env, depth), rt)
    return dict(prog=g.prog("top"), steps=g.tx(g.units["top"], steps), tag=tag)

def match_cases(ck, n):
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 7)
        g = Gen(r, match=9, cond=2, arith=1.5, agg=1, conv=.7, calls=.7, cmp=1.5, arrays=.4, maxw=5)
        g.decl_types(2, 3)
        if r.random() < .4: g.mk_fn()
        cases.append(comb_case(g, r, steps=24, tag="match"))
    return cases

def exhaustive_match_cases(ck, n):
    """One match over a small scrutinee type, driven with every scrutinee value."""
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 8)
        g = Gen(r, match=9, cond=2, arith=.5, agg=1, conv=.3, calls=0, cmp=1.5, arrays=.4, maxw=3)
        g.decl_types(1, 2)
        for _ in range(50):
            t = g.ty(2)
            if 1 <= g.w(t) <= 7: break
        else: t = BT
        rt = UT(3)
        env = [("x", t), ("y", UT(3)), ("c", BT)]
        arms = []
        for _ in range(r.randint(2, 7)):
            b = []
            p = g.pattern(t, b, 3)
            a = arm(p, g.ex(rt, env + b, 1))
            if r.random() < .3: a["g"] = g.ex(BT, env + b, 1)
            arms.append(a)
        arms.append(arm(PW if r.random() < .5 else pn("z"), lit(r.randrange(8), rt)))
        b = []
        q = g.pattern(t, b, 3)
        e2 = iflet(q, var("x"), g.ex(rt, env + b, 1), lit(r.randrange(8), rt))
        u = unit("entity", [param(a, ty) for a, ty in env], [let("m", match(var("x"), *arms), rt), let("n", e2, rt)],
                 tup(var("m"), var("n")), TT(rt, rt))
        g.units["top"] = u
        steps = []
        for v in all_values(g, t):
            steps.append(dict(set=dict(x=v, y=format(r.randrange(8), "03b"), c=r.choice("01")), tick=[]))
        cases.append(dict(prog=g.prog("top"), steps=steps, tag="match-exhaustive"))
    return cases

def all_values(g, t, limit=256):
    """Bit strings of every value of t (payload padding zero)."""
    k = t[0]
    w = g.w(t)
    if k in ("u", "s", "b"): return [format(v, "0%db" % w) for v in range(2 ** w)] if w else [""]
    def prod(ts):
        out = [""]
        for x in ts: out = [a + b for a in out for b in all_values(g, x, limit)][:limit * 4]
        return out
    if k == "t": return prod(t[1])
    if k == "a": return prod([t[1]] * t[2][1])
    if k == "st": return prod([x for _, x in g.fields(t)])
    if k == "en":
        vs = g.variants(t)
        tw = tagw(len(vs))
        out = []
        for i, (_, fs) in enumerate(vs):
            tag = format(i, "0%db" % tw) if tw else ""
            for v in prod([x for _, x in fs]):
                s = tag + v
                out.append(s + "".join(g.r.choice("01") for _ in range(w - len(s))))
        return out
    raise ValueError(t)

def agg_cases(ck, n):
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 11)
        g = Gen(r, match=.5, cond=1, arith=.7, agg=5, conv=.5, calls=1, cmp=1.2, arrays=5, maxw=r.choice([3, 8]), named=.4)
        g.decl_types(3, 2)
        if r.random() < .5: g.mk_fn()
        cases.append(comb_case(g, r, tag="aggregate"))
    return cases

ASSUME = ["Verilog is executed by the harness's own IEEE 1364/1800 subset simulator",
          "programs and stimuli are drawn at random from a seeded generator over the core language"]

def run_profile(prop, tier, parts):
    """parts: [(generator, number of programs at quick, at thorough)]"""
    ck = Check(prop, tier)
    for g, q, t in parts:
        conform.run_cases(ck, g(ck, ck.pick(q, t)))
    ck.assumptions = ASSUME
    return ck.finish()

def run_regs(prop, tier): return run_profile(prop, tier, [(reg_cases, 300, 5000)])
def run_pipes(prop, tier): return run_profile(prop, tier, [(pipe_cases, 350, 6000)])
def run_stalls(prop, tier): return run_profile(prop, tier, [(stall_cases, 600, 9000)])
def run_match(prop, tier): return run_profile(prop, tier, [(exhaustive_match_cases, 300, 4000), (match_cases, 250, 4000)])
def run_aggs(prop, tier):
    import static, c_num
    ck = Check(prop, tier)
    conform.run_cases(ck, agg_cases(ck, ck.pick(450, 6000)))
    static.run_verdicts(ck, c_num.range_cases(ck, ck.pick(500, 8000)))
    ck.assumptions = ASSUME
    return ck.finish()
