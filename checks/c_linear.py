"""C09: every inverted wire is used exactly once, or the compiler rejects the unit."""
import copy
from sp import *
from gen import *
from lib import *
import static
from c_port import PGen, Ports, End, flip
from c_sem import rng_of

class LPorts(Ports):
    """Also records where linear values are used."""
    def __init__(self, g, log=None):
        Ports.__init__(self, g)
        self.log = log if log is not None else g.log
    def set_leaf(self, ss, e, t, drives):
        Ports.set_leaf(self, ss, e, t, drives)
        self.log.append(("set", ss, ss[-1], e, INV(t)))
    def consume(self, ss, end):
        if self.linear(end.t): self.log.append(("end", ss, len(ss), end.e, end.t))
        Ports.consume(self, ss, end)
    def bind(self, ss, e, t, reads, drives):
        self.log.append(("bind", ss, len(ss), e, t))
        return Ports.bind(self, ss, e, t, reads, drives)

import c_port

class LinMut:
    def __init__(self, g, r):
        self.g, self.r, self.n = g, r, 0
        self.pp = Ports(g)
        self.pp.env, self.pp.depth = [], 0

    def name(self):
        self.n += 1
        return "z%d" % self.n

    def sink(self, t):
        """A unit that uses a value of the type."""
        g = self.g
        n = g.fresh("snk")
        p2 = Ports(g)
        p2.env, p2.depth = [], 0
        ss = []
        Ports.consume(p2, ss, End(var("p"), t, set(), {p2.node()}))
        g.units[n] = unit("fn", [param("p", t)], ss, boo(True), BT)
        return n

    def same(self, e, t):
        """Another way of writing the value, which uses nothing more."""
        r, g = self.r, self.g
        c = r.random()
        if c < .18: return blk([], e)
        if c < .32: return tix(tup(e, boo(True)), 0)
        if c < .44: return tix(tup(lit(1, UT(2)), e), 1)
        if c < .55: return idx(arr(e), lit(0, None))
        if c < .68: return cast(e, t)
        if c < .8:
            n = self.name()
            return blk([let(n, e)], var(n))
        if c < .9:
            n = self.name()
            return blk([let(pt(pn(n), PWN("q" + n)), tup(e, boo(False)))], var(n))
        return rngw(e)

    def use(self, e, t, ss, at):
        """Statements which use the value once."""
        r, g = self.r, self.g
        c = r.random()
        if c < .35 and t[0] == "inv" and not self.pp.linear(t[1]):
            new = [set_(e, g.ex(t[1], [], 1))]
        elif c < .5: new = [let(self.name(), call(self.sink(t), e), BT)]
        elif c < .65:
            n = self.name()
            new = [let(n, e)]
            self.pp.env = []
            Ports.consume(self.pp, new, End(var(n), t, set(), {self.pp.node()}))
        elif c < .8 :
            q = call(self.sink(t), e)
            new = [assert_(g.fresh("as"), q)]
        else:
            n = self.name()
            q = call(self.sink(t), e)
            x = r.random()
            if x < .3: new = [let(n, blk([let(self.name(), q, BT)], boo(True)))]
            elif x < .5: new = [let(n, if_(boo(True), q, boo(False)))]
            elif x < .7: new = [let(n, match(boo(True), arm(pb(True), boo(False)), arm(PW, q)))]
            elif x < .85: new = [let(n, un("!", q, BT))]
            else: new = [let(n, bi("&&", boo(False), q, BT))]
        ss[at:at] = new

    def subpart(self, e, t):
        """Some part of a value, possibly the value itself."""
        r = self.r
        while r.random() < .6:
            ps_ = self.pp.parts(e, t)
            ps_ = [(a, b) for a, b in ps_ or [] if self.pp.linear(b)]
            if not ps_: break
            e, t = r.choice(ps_)
        return e, t

    def mutate(self):
        """One change to the recorded program; what it does to the verdict is for the specification to say."""
        r, g = self.r, self.g
        log = [x for x in g.log if self.pp.linear(x[4])]
        if not log: return None
        k = r.choice(["same", "same", "drop", "dup", "dup", "dup", "swap", "wild", "range", "nonconst", "bothends", "match", "matchres", "expr", "oob", "at", "rep", "ref", "selfalias"])
        kind, ss, at, e, t = r.choice(log)
        pos = lambda: (ss.index(at) + 1 if isinstance(at, dict) else at) if not isinstance(at, dict) or any(x is at for x in ss) else None
        if isinstance(at, dict):
            w = [i for i, x in enumerate(ss) if x is at]
            if not w: return None
            p0 = w[0]
        else: p0 = min(at, len(ss))
        later = r.randint(p0, len(ss))
        if k == "same":
            sets = [x for x in log if x[0] == "set"]
            if not sets: return None
            _, ss, st, e, t = r.choice(sets)
            if st["l"] is not e: return None
            st["l"] = self.same(e, t)
        elif k == "drop":
            sets = [x for x in log if x[0] == "set"]
            if not sets: return None
            _, ss, st, e, t = r.choice(sets)
            ss[:] = [x for x in ss if x is not st]
        elif k == "dup":
            e2, t2 = self.subpart(e, t)
            self.use(self.same(e2, t2) if r.random() < .3 else copy.deepcopy(e2), t2, ss, later)
        elif k == "swap":        # use another part of the same type instead
            sets = [x for x in log if x[0] == "set" and x[3]["k"] in ("tix", "idx", "fld")]
            if not sets: return None
            _, ss, st, e, t = r.choice(sets)
            l = copy.deepcopy(e)
            if l["k"] == "idx":
                l["i"] = dict(l["i"], v=max(0, l["i"]["v"] + r.choice([-1, 1])))
                if l["i"]["t"] is None or l["i"]["v"] >= 2 ** l["i"]["t"][1][1]: return None
            elif l["k"] == "fld":
                fs = dict((f, x) for f, x in g.structs[l["s"]]["fs"])
                l["f"] = r.choice([f for f in fs if fs[f] == fs[l["f"]]])
            else: return None
            if st["l"] is not e: return None
            st["l"] = l
        elif k == "wild":
            ss.insert(later, let(PW, copy.deepcopy(e)))
        elif k == "range":       # take a range out of an array of ends
            es = [x for x in log if x[4][0] == "a" and x[0] != "set"]
            if not es: return None
            kind, ss, at, e, t = r.choice(es)
            n = t[2][1]
            a = r.randint(0, n - 1)
            b = r.randint(a + 1, n)
            if r.random() < .1: b = n + 1
            m = self.name()
            new = [let(m, rng(copy.deepcopy(e), a if a or r.random() < .5 else None, b if b != n or r.random() < .5 else None))]
            todo = [idx(var(m), lit(i, None if b - a == 1 else UT((b - a - 1).bit_length()))) for i in range(b - a)]
            todo += [idx(copy.deepcopy(e), lit(i, None if n == 1 else UT((n - 1).bit_length()))) for i in range(n) if not a <= i < b]
            if r.random() < .4: todo.pop(r.randrange(len(todo)))
            elif r.random() < .2: todo.append(copy.deepcopy(r.choice(todo)))
            for x in todo: self.use(x, t[1], new, len(new))
            # instead of what was done with it: a unit of its own
            n_ = g.fresh("rg")
            ren = {}
            g.units[n_] = unit("entity", [param("p", t)], subst(new, e, var("p")), boo(True), BT)
        elif k == "nonconst":
            if t[0] != "a": return None
            n = t[2][1]
            n_ = g.fresh("nc")
            body = []
            i = if_(boo(True), lit(0, UT(max(0, (n - 1).bit_length()))), lit(0, UT(max(0, (n - 1).bit_length()))))
            self.use(idx(var("p"), i if r.random() < .7 else bi("&", i, i, UT((n - 1).bit_length())) if n > 1 else i), t[1], body, 0)
            g.units[n_] = unit("entity", [param("p", t)], body, boo(True), BT)
            return "nonconst"
        elif k == "oob":
            if t[0] != "a" or t[2][1] != 3: return None
            n_ = g.fresh("nc")
            body = []
            for i in r.sample([0, 1, 2, 3], r.choice([3, 4])): self.use(idx(var("p"), lit(i, UT(2))), t[1], body, len(body))
            g.units[n_] = unit("entity", [param("p", t)], body, boo(True), BT)
        elif k == "at":
            n = self.name()
            q = pn(n + "b") if t[0] != "t" or r.random() < .4 else pt(*[pn("%sb%d" % (n, i)) for i in range(len(t[1]))])
            if r.random() < .3: q = PW
            n_ = g.fresh("at")
            body = [let(pat(n, q), var("p"))]
            if r.random() < .4: self.use(var(n), t, body, 1)
            if r.random() < .4 and q["k"] == "pn": self.use(var(n + "b"), t, body, len(body))
            g.units[n_] = unit("entity", [param("p", t)], body, boo(True), BT)
        elif k == "bothends":
            ss.insert(later, let(self.name(), tup(copy.deepcopy(e), boo(True))))
        elif k == "match":
            n = self.name()
            pats = [pn(n)]
            if t[0] == "t": pats = [pt(*[pn(n + "_%d" % i) for i in range(len(t[1]))])]
            s2 = []
            if r.random() < .7:
                for x, y in ([(var(n), t)] if t[0] != "t" else [(var(n + "_%d" % i), y) for i, y in enumerate(t[1])]):
                    if self.pp.linear(y): self.use(x, y, s2, len(s2))
            ss.insert(later, let(self.name(), match(copy.deepcopy(e), arm(pats[0], blk(s2, boo(True)))), BT))
        elif k == "matchres":
            arms = [(pb(True), copy.deepcopy(e)), (PW, copy.deepcopy(e))]
            if r.random() < .4: arms = arms[1:]
            m = match(boo(True), *[arm(*x) for x in arms]) if r.random() < .6 else if_(boo(True), arms[0][1], arms[-1][1])
            n = self.name()
            new = [let(n, m)]
            self.use(var(n), t, new, 1)
            ss[later:later] = new
        elif k == "expr":
            if not self.pp.lin(t): return None
            ss.insert(later, dict(k="expr", e=copy.deepcopy(e)))
        elif k == "rep":
            n = self.name()
            new = [let(n, rep(copy.deepcopy(e), r.choice([2, 2, 3])))]
            ss[later:later] = new
        elif k == "ref":
            ss.insert(later, let(self.name(), dict(k="ref", e=copy.deepcopy(e))))
        elif k == "selfalias":
            n = self.name()
            ss.insert(p0, let(n, copy.deepcopy(e)))
        return k

def PWN(n): return pn(n)
def rngw(e): return idx(rng(arr(e), 0, 1), lit(0, None))
def subst(x, a, b):
    if x == a: return copy.deepcopy(b)
    if isinstance(x, dict): return {k: subst(v, a, b) for k, v in x.items()}
    if isinstance(x, list): return [subst(v, a, b) for v in x]
    return x

def cases(ck, n):
    out = []
    i = 0
    c_port.Ports_, saved = None, c_port.Ports
    try:
        c_port.Ports = LPorts          # sub-units are made by the same class
        while len(out) < n:
            r = rng_of(ck, i, 9)
            i += 1
            g = PGen(r, depth=1, maxw=3, match=.3, calls=0, agg=1, arrays=.7, shadow=.3)
            g.decl_types(1, 1)
            g.log = []
            LPorts(g).top()
            tag = "valid"
            if r.random() < .9:
                m = LinMut(g, r)
                tag = "+".join(filter(None, [m.mutate() for _ in range(r.choice([1, 1, 1, 2]))])) or "valid"
            p = g.prog("top", passes=4)
            if len(str(p)) > 30000: continue
            out.append(dict(prog=p, q=dict(k="linear"), tag=tag))
    finally:
        c_port.Ports = saved
    return out

def run(prop, tier):
    ck = Check(prop, tier)
    n = 900 if tier == "quick" else 12000
    cs = cases(ck, n)
    static.run_verdicts(ck, cs, batch=700, stdlib=True, module="SpadeLinear")
    return ck.finish()
