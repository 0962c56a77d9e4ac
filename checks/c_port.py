"""C10: data written to inverted wires arrives at the reader, through any routing of port ends."""
from sp import *
from gen import Gen
from c_sem import rng_of, run_profile

def flip(t): return t[1] if t[0] == "inv" else INV(t)

class PGen(Gen):
    def named(self, k, d=1):
        """Data types only."""
        if k == "en": return Gen.named(self, k, d)
        pool = [n for n in self.structs if not n.startswith("P")]
        return STR(self.r.choice(pool)) if pool else self.int_t()

class End:
    """A linear value: expression, type, what its inputs depend on and the wires its owner drives."""
    def __init__(self, e, t, reads, drives):
        self.e, self.t, self.reads, self.drives = e, t, frozenset(reads), frozenset(drives)

class Ports:
    def __init__(self, g):
        self.g, self.r = g, g.r
        self.edges = {}             # wire -> wires/data it depends on
        self.nw = 0
        self.clk = None
        self.infn = False

    def node(self):
        self.nw += 1
        return self.nw

    def reach(self, ns):
        out, todo = set(), list(ns)
        while todo:
            n = todo.pop()
            if n in out: continue
            out.add(n)
            todo += self.edges.get(n, ())
        return out

    def drive(self, drives, deps):
        """Record that `drives` now depend on `deps`; False if that closes a loop."""
        if self.reach(deps) & set(drives): return False
        for d in drives: self.edges.setdefault(d, set()).update(deps)
        return True

    # ------------------------------------------------ types
    def data_t(self):
        g = self.g
        for _ in range(20):
            t = g.ty(1)
            if 0 < g.w(t) <= 10: return t
        return BT

    def port_t(self, d=2):
        """A type with at least one inverted wire."""
        g, r = self.g, self.r
        c = r.random()
        if d <= 0 or c < .3: return INV(self.data_t())
        if c < .6:
            ts = [self.port_t(d - 1)] + [self.port_t(d - 1) if r.random() < .4 else self.data_t() for _ in range(r.randint(1, 2))]
            r.shuffle(ts)
            return TT(*ts)
        if c < .75: return AT(self.port_t(d - 1), r.randint(1, 4))
        ps_ = [n for n in g.structs if n.startswith("P")]
        if ps_ and c < .95:
            t = STR(r.choice(ps_))
            return t if r.random() < .6 else INV(t)
        return INV(self.data_t())

    def decl(self):
        g, r = self.g, self.r
        for _ in range(r.randint(1, 2)):
            fs = [self.port_t(1)] + [self.port_t(1) if r.random() < .3 else self.data_t() for _ in range(r.randint(0, 2))]
            fs = [flip(t) if t[0] == "inv" and t[1][0] == "st" and t[1][1].startswith("P") else t for t in fs]
            r.shuffle(fs)
            g.structs[g.fresh("P")] = dict(tp=[], fs=[["f%d" % i, t] for i, t in enumerate(fs)])

    def lin(self, t): return fbw(t, self.g.P())[1] > 0
    def linear(self, t):
        """Does the type contain an inverted wire (with or without bits)?"""
        if t[0] == "inv": return True
        if t[0] == "t": return any(self.linear(x) for x in t[1])
        if t[0] == "a": return self.linear(t[1])
        if t[0] == "st": return any(self.linear(x) for _, x in self.g.fields(t))
        return False

    # ------------------------------------------------ bodies
    def parts(self, e, t):
        """One level of access: [(expr, type)] or None."""
        g = self.g
        if t[0] == "t": return [(tix(e, i), x) for i, x in enumerate(t[1])]
        if t[0] == "st": return [(fld(e, t[1], f), x) for f, x in g.fields(t)]
        if t[0] == "a": return [(idx(e, lit(i, UT((t[2][1] - 1).bit_length())) if t[2][1] > 1 else lit(0, None)), t[1]) for i in range(t[2][1])]
        if t[0] == "inv" and t[1][0] == "st" and any(self.linear(x) for _, x in g.fields(t[1])) or t[0] == "inv" and t[1][0] == "st" and self.r.random() < .5:
            return [(fld(e, t[1][1], f), flip(x)) for f, x in g.fields(t[1])]
        return None

    def data(self, avoid):
        """Data that may drive wires `avoid`."""
        return [(n, t) for n, t, d in self.env if not (self.reach(d) & set(avoid))]

    def deps_of(self, e):
        out = set()
        ns = varnames(e, set())
        for n, t, d in self.env:
            if n in ns: out |= set(d)
        return out

    def set_leaf(self, ss, e, t, drives):
        env = self.data(drives)
        x = self.g.ex(t, env, 2)
        self.drive(drives, self.deps_of(x))
        ss.append(set_(e, x))

    def make(self, ss, t, end):
        """A value of a port type to connect to an inverted end: new wires for its inverted parts."""
        g = self.g
        if not self.linear(t):
            x = g.ex(t, self.data(end.drives), 1)
            self.drive(end.drives, self.deps_of(x))
            return x
        if t[0] == "inv":
            rd, wr, w = g.fresh("w"), g.fresh("w"), self.node()
            ss.append(let(pt(pn(rd), pn(wr)), dict(k="port", id=g.fresh("n"), t=t[1], src="port::<%s>()" % rty(t[1]))))
            self.edges[w] = set(end.reads)
            if self.linear(t[1]): self.consume(ss, End(var(rd), t[1], {w}, end.drives))
            else: self.env.append((rd, t[1], {w}))
            return var(wr)
        if t[0] == "t": return tup(*[self.make(ss, x, end) for x in t[1]])
        if t[0] == "a": return arr(*[self.make(ss, t[1], end) for _ in range(t[2][1])])
        return mk(t[1], *[self.make(ss, x, end) for _, x in g.fields(t)])

    def consume(self, ss, end):
        """Use every part of an end, in random order."""
        todo = [(end.e, end.t)]
        while todo:
            e, t = todo.pop(self.r.randrange(len(todo)))
            ps_ = self.parts(e, t)
            if ps_ is None and t[0] == "inv" and self.linear(t[1]):
                x = self.make(ss, t[1], end)
                ss.append(set_(e, x))
            elif ps_ is None and t[0] == "inv":
                self.set_leaf(ss, e, t[1], end.drives)
            elif not self.linear(t):
                if self.r.random() < .8:
                    n = self.g.fresh("q")
                    ss.append(let(n, e, t))
                    self.env.append((n, t, end.reads))
            else: todo += ps_

    def bind(self, ss, e, t, reads, drives):
        """Name a linear value."""
        n = self.g.fresh("w")
        ss.append(let(n, e, t if self.r.random() < .5 else None))
        return End(var(n), t, reads, drives)

    def body(self, ss, pool, budget):
        g, r = self.g, self.r
        while budget > 0:
            budget -= 1
            c = r.random()
            if c < .2 or not pool:
                t = self.port_t(2)
                while t[0] == "inv": t = t[1]
                a, b = self.node(), self.node()
                x, y = g.fresh("w"), g.fresh("w")
                pe_ = dict(k="port", id=g.fresh("n"), t=t)
                k = r.random()
                if k < .4: pe_["src"] = "port::<%s>()" % rty(t); ann = None
                else: pe_["src"] = "port()"; ann = TT(t, INV(t))
                if r.random() < .25:
                    n = g.fresh("w")
                    ss.append(let(n, pe_, ann))
                    ex_, ey = tix(var(n), 0), tix(var(n), 1)
                    if r.random() < .7:
                        ss.append(let(x, ex_)); ss.append(let(y, ey))
                        ex_, ey = var(x), var(y)
                else:
                    ss.append(let(pt(pn(x), pn(y)), pe_, ann))
                    ex_, ey = var(x), var(y)
                pool.append(End(ex_, t, {a}, {b}))
                pool.append(End(ey, INV(t), {b}, {a}))
            elif c < .35:
                self.consume(ss, pool.pop(r.randrange(len(pool))))
            elif c < .5:            # take apart by a pattern
                e = pool.pop(r.randrange(len(pool)))
                if e.t[0] == "a" and r.random() < .6:      # ranges of an array of ends
                    n = e.t[2][1]
                    cut = sorted({0, n, r.randint(0, n)})
                    for a, b in zip(cut, cut[1:]):
                        x = rng(e.e, a if a or r.random() < .5 else None, b if b < n or r.random() < .5 else None)
                        pool.append(self.bind(ss, x, AT(e.t[1], b - a), e.reads, e.drives))
                    continue
                if r.random() < .15:
                    pool.append(self.bind(ss, cast(e.e, e.t), e.t, e.reads, e.drives))
                    continue
                if e.t[0] in ("t", "a") or e.t[0] == "st":
                    ts = e.t[1] if e.t[0] == "t" else [e.t[1]] * e.t[2][1] if e.t[0] == "a" else [x for _, x in g.fields(e.t)]
                    ns = [g.fresh("w") for _ in ts]
                    pats = [pn(n) for n in ns]
                    p = pt(*pats) if e.t[0] == "t" else pa(*pats) if e.t[0] == "a" else ps(e.t[1], [[f, q] for (f, _), q in zip(g.fields(e.t), pats)], int(r.random() < .3))
                    if e.t[0] == "st" and p["y"]: r.shuffle(p["fs"])
                    ss.append(let(p, e.e))
                    for n, t in zip(ns, ts):
                        if self.linear(t): pool.append(End(var(n), t, e.reads, e.drives))
                        else: self.env.append((n, t, e.reads))
                else: pool.append(self.bind(ss, e.e, e.t, e.reads, e.drives))
            elif c < .62 and len(pool) >= 1:           # put together
                es = [pool.pop(r.randrange(len(pool))) for _ in range(min(len(pool), r.randint(1, 3)))]
                items = [(e.e, e.t) for e in es]
                reads = set().union(*[e.reads for e in es])
                drives = set().union(*[e.drives for e in es])
                if r.random() < .5 or len(items) == 1:
                    t = self.data_t()
                    x = g.ex(t, self.data(drives), 1)
                    reads |= self.deps_of(x)
                    items.append((x, t))
                r.shuffle(items)
                if len(es) > 1 and len(items) == len(es) and all(e.t == es[0].t for e in es) and r.random() < .6:
                    pool.append(self.bind(ss, arr(*[x for x, _ in items]), AT(es[0].t, len(es)), reads, drives))
                else:
                    pool.append(self.bind(ss, tup(*[x for x, _ in items]), TT(*[t for _, t in items]), reads, drives))
            elif c < .87 and self.depth > 0:
                self.through_unit(ss, pool)
            elif c < .94:           # connect two ends of one type
                m = [(i, j) for i, a in enumerate(pool) for j, b in enumerate(pool) if i != j and a.t == INV(b.t)]
                if m:
                    i, j = r.choice(m)
                    a, b = pool[i], pool[j]
                    sv = {k: set(v) for k, v in self.edges.items()}
                    if self.drive(a.drives, b.reads) and self.drive(b.drives, a.reads):
                        for q in sorted([i, j], reverse=True): pool.pop(q)
                        ss.append(set_(a.e, b.e))
                    else: self.edges = sv
            elif self.clk:
                n, t = g.fresh("r"), self.data_t()
                d = self.data([])
                x = g.ex(t, d, 1)
                ss.append(reg(g.fresh("g"), n, var(self.clk), x, None, None, t))
                self.env.append((n, t, ()))

    def through_unit(self, ss, pool):
        """Pass ends and data through a new unit which uses some and returns the rest."""
        g, r = self.g, self.r
        es = [pool.pop(r.randrange(len(pool))) for _ in range(min(len(pool), r.randint(1, 3)))]
        drives = set().union(*[e.drives for e in es])
        reads = set().union(*[e.reads for e in es])
        dd = []
        for _ in range(r.randint(0, 2)):
            t = self.data_t()
            x = g.ex(t, self.data(drives), 1)
            dd.append((x, t))
        alld = reads | set().union(set(), *[self.deps_of(x) for x, _ in dd])
        if self.reach(alld) & drives:        # might close a loop inside: hand over only one end and no data
            pool += es[1:]
            es, dd = es[:1], []
            drives, alld = set(es[0].drives), set(es[0].reads)
            if self.reach(alld) & drives:
                self.consume(ss, es[0])
                return
        kind = r.choice(["fn", "entity", "entity"]) if not self.infn else "fn"
        clk = kind == "entity" and self.clk and r.random() < .5
        sub_ = Ports(g)
        sub_.depth = self.depth - 1
        sub_.infn = kind == "fn"
        prm, env, sp_ = [], [], []
        n0 = sub_.node()
        args = []
        for e in es:
            n = g.fresh("p")
            prm.append(param(n, e.t))
            args.append(e.e)
            sp_.append(End(var(n), e.t, {n0}, {sub_.node()}))
        for x, t in dd:
            n = g.fresh("p")
            prm.append(param(n, t))
            args.append(x)
            env.append((n, t, {n0}))
        o = list(range(len(prm)))
        r.shuffle(o)
        prm, args = [prm[i] for i in o], [args[i] for i in o]
        if clk:
            prm.insert(0, param("clk", CK)); args.insert(0, var(self.clk))
            sub_.clk = "clk"
        sub_.env = env
        ss2 = []
        sub_.body(ss2, sp_, r.randint(0, 4))
        out = []
        r.shuffle(sp_)
        for e in sp_[r.randint(0, 2):]: sub_.consume(ss2, e); sp_.remove(e)
        for e in sp_: out.append((e.e, e.t))
        nl = len(out)
        for _ in range(r.randint(0 if out else 1, 1)):
            t = self.data_t()
            out.append((g.ex(t, sub_.data([]), 1), t))
        un_ = g.fresh("u")
        attrs = ["inline"] if r.random() < .25 else None
        one = len(out) == 1
        rt = out[0][1] if one else TT(*[t for _, t in out])
        g.units[un_] = unit(kind, prm, ss2, out[0][0] if one else tup(*[x for x, _ in out]), rt, attrs=attrs)
        iv = call(un_, *args) if kind == "fn" else inst(un_, g.fresh("n"), *args)
        if r.random() < .25 and args:
            iv["an"] = [q["n"] for q in prm]
            o = list(range(len(args)))
            r.shuffle(o)
            iv["args"], iv["an"] = [args[i] for i in o], [iv["an"][i] for i in o]
        # conservatively: everything that leaves the unit, and every wire it drives, depends on all it was given
        for d in drives: self.edges.setdefault(d, set()).update(alld)
        fresh = self.node()
        ndrv = {self.node()}
        newr = alld
        nd = drives | ndrv
        # wires made inside and returned: reading them depends on what drives the other returned ends
        self.edges.setdefault(fresh, set()).update(alld)
        newr = {fresh}
        ns = [g.fresh("w") for _ in out]
        if not out: ss.append(dict(k="expr", e=iv)); return
        ss.append(let(pn(ns[0]) if one else pt(*[pn(n) for n in ns]), iv))
        for n, (_, t) in zip(ns, out):
            if self.linear(t): pool.append(End(var(n), t, newr, nd))
            else: self.env.append((n, t, newr))
        # what is read from the unit may depend on how the returned ends are driven
        if nl: self.edges[fresh] |= nd

    # ------------------------------------------------ top
    def top(self):
        g, r = self.g, self.r
        self.depth = r.choice([1, 2, 2])
        self.decl()
        prm, pool, self.env = [], [], []
        if r.random() < .4:
            prm.append(param("clk", CK)); self.clk = "clk"
        for i in range(r.randint(1, 3)):
            t = self.port_t(2)
            prm.append(param("io%d" % i, t))
            pool.append(End(var("io%d" % i), t, set(), {self.node()}))
        for i in range(r.randint(1, 3)):
            t = self.data_t()
            prm.append(param("x%d" % i, t))
            self.env.append(("x%d" % i, t, ()))
        ss = []
        self.body(ss, pool, r.randint(2, 8))
        r.shuffle(pool)
        while pool:
            self.consume(ss, pool.pop())
        vis = [(n, t) for n, t, _ in self.env][-8:]
        e = tup(*[var(n) for n, _ in vis])
        g.units["top"] = unit("entity", prm, ss, e if len(vis) > 1 else var(vis[0][0]), TT(*[t for _, t in vis]) if len(vis) > 1 else vis[0][1])

def port_cases(ck, n):
    cases = []
    i = 0
    while len(cases) < n:
        r = rng_of(ck, i, 10)
        i += 1
        g = PGen(r, depth=2, maxw=5, match=.4, calls=0, agg=1, arrays=.5, shadow=.5)
        g.decl_types(1, 1)
        Ports(g).top()
        p = g.prog("top", passes=14)
        if len(str(p)) > 40000: continue
        cases.append(dict(prog=p, steps=g.tx(g.units["top"], r.choice([8, 12])), tag="ports"))
    return cases

def run(prop, tier): return run_profile(prop, tier, [(port_cases, 300, 5000)])
