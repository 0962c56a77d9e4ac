"""C17: clocked memories: ports, initial contents, several memories and clocks."""
from sp import *
from gen import Gen
from c_sem import rng_of, run_profile

def memty(t, n): return ["fn", "Memory<%s, %d>" % (rty(t), n)]

def addr_steps(r, u, g, n, addrs):
    """Stimuli whose addresses collide often."""
    st = g.tx(u, n)
    for s in st:
        pool = {}
        for q in u["params"]:
            if q["n"] in addrs:
                w = g.w(q["t"])
                v = r.choice(pool.setdefault(w, [r.randrange(2 ** w)])) if r.random() < .5 else r.randrange(min(2 ** w, 3))
                s["set"][q["n"]] = format(v, "0%db" % w)
    return st

def mem_unit(g, name, top):
    r = g.r
    nclk = r.choice([1, 1, 2])
    prm = [param("clk%d" % i, CK) for i in range(nclk)]
    clocks = [q["n"] for q in prm]
    q = param("rst", BT); q["rst"] = 1
    prm.append(q)
    env, addrs = [], []
    for _ in range(r.randint(1, 3)):
        t = g.ty(2)
        prm.append(param(g.fresh("p"), t if 0 < g.w(t) <= 16 else g.int_t()))
    for i in range(r.randint(1, 2)): prm.append(param("we%d" % i, BT))
    mems = []
    sizes = []
    for i in range(r.randint(1, 3)):
        n = r.choice([2, 2, 3, 4, 5, 7, 8])
        sizes.append(n)
        for j in range(r.randint(1, 2)):
            a = "ad%d_%d" % (i, j)
            prm.append(param(a, UT((n - 1).bit_length())))
            addrs.append(a)
    env = [(q["n"], q["t"]) for q in prm if q["t"][0] != "ck"]
    ss, env = g.seq_stmts(env, r.randint(0, 3), 1, clocks, ["rst"], decls=False)
    # registers fed by reads of the memories declared below
    fb = []
    if r.random() < .4:
        for _ in range(r.randint(1, 2)): fb.append((g.fresh("d"), r.choice([BT, UT(3), UT(2), ST(4)])))
        ss.append(decl(*[x for x, _ in fb]))
    e2 = env + fb
    vis = []
    for i, n in enumerate(sizes):
        aw = UT((n - 1).bit_length())
        for _ in range(20):
            t = g.ty(2)
            if 0 < g.w(t) <= 12: break
        else: t = BT
        def addr():
            c = [a for a in addrs if a.startswith("ad%d_" % i)]
            return var(r.choice(c)) if r.random() < .7 else g.ex(aw, e2, 1)
        we = lambda: var(r.choice([x for x, t2 in env if t2 == BT])) if r.random() < .6 else g.ex(BT, e2, 1) if r.random() < .8 else boo(r.random() < .5)
        np = r.choice([0, 1, 1, 1, 2, 2, 3])
        ports = [tup(we(), addr(), g.ex(t, e2, 2)) for _ in range(np)]
        init = None
        if r.random() < .5 or np == 0:
            if r.random() < .2: init = rep(g.const(t), n)
            else: init = arr(*[g.const(t) for _ in range(n)])
        ws = arr(*ports)
        if np and r.random() < .3:
            w = g.fresh("w")
            ss.append(let(w, ws, AT(TT(BT, aw, t), np)))
            ws = var(w)
        m = g.fresh("m")
        e = mem(g.fresh("n"), var(r.choice(clocks)), ws, n, init)
        if r.random() < .25: e["named"] = 1
        if np == 0:         # the width of addresses follows from the memory's size
            ss.append(let(m, e, memty(t, n)))
        else: ss.append(let(m, e, memty(t, n)))
        if r.random() < .25:
            m2 = g.fresh("m")
            ss.append(let(m2, var(m)))
            m = m2
        reader = None
        if r.random() < .25:
            reader = g.fresh("rd")
            g.units[reader] = unit("entity", [param("mm", memty(t, n)), param("aa", aw)], [], read(var("mm"), var("aa")), t, attrs=["inline"])
        for _ in range(r.randint(1, 3)):
            x = g.fresh("o")
            a = addr()
            ss.append(let(x, inst(reader, g.fresh("n"), var(m), a) if reader and r.random() < .6 else read(var(m), a), t))
            vis.append((x, t))
            e2 = e2 + [(x, t)]
            if r.random() < .3:        # synchronous read
                y = g.fresh("r")
                ss.append(reg(g.fresh("g"), y, var(r.choice(clocks)), var(x), None, None, t))
                vis.append((y, t))
    for x, t in fb:
        ss.append(reg(g.fresh("g"), x, var(r.choice(clocks)), g.ex(t, e2, 2), (var("rst"), g.const(t)), None, t))
        vis.append((x, t))
    if not top:
        vis = vis[:3]
    g.units[name] = unit("entity", prm, ss, tup(*[var(x) for x, _ in vis]) if len(vis) > 1 else var(vis[0][0]),
                         TT(*[t for _, t in vis]) if len(vis) > 1 else vis[0][1],
                         attrs=["inline"] if not top and r.random() < .3 else None)
    if not top: g.ents.append((name, [q["t"] for q in prm], g.units[name]["rt"]))
    return addrs

def mem_cases(ck, n):
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 17)
        g = Gen(r, depth=2, maxw=5, match=.5, calls=0, agg=1, initial=.1, arrays=.5)
        g.decl_types(1, 1)
        for _ in range(r.choice([0, 0, 1])): mem_unit(g, g.fresh("ment"), False)
        addrs = mem_unit(g, "top", True)
        p = g.prog("top", passes=4)
        cases.append(dict(prog=p, steps=addr_steps(r, g.units["top"], g, r.choice([20, 30]), addrs), tag="memory"))
    return cases

def run(prop, tier): return run_profile(prop, tier, [(mem_cases, 250, 5000)])
