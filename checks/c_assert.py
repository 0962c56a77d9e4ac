"""C28: assertions fire exactly when their condition is false."""
from lib import *
from sp import *
import c_sem, c_mem, c_gen, c_meth, c_pass, c_lam
from c_sem import rng_of, run_profile
from gen import Gen

COMMENTS = ["", "", "", " // ok", ' // the "quoted" part', " // 100% sure, %d", " // C:\\dir\\new \\", " // å \t tab", " /* a */"]

class Asserts:
    """Puts assertions into the statement lists of a program's units."""
    def __init__(self, g, r):
        self.g, self.r, self.n = g, r, 0
    def cond(self, env, d=2):
        r = self.r
        bs = [n for n, t in env if t == BT]
        if bs and r.random() < .2: return var(r.choice(bs))
        if bs and r.random() < .15: return un("!", var(r.choice(bs)), BT)
        return self.g.ex(BT, env, d)
    def stmt(self, env):
        self.n += 1
        x = assert_("a%d" % self.n, self.cond(env))
        return x
    def block(self, ss, env, known=None, p=.5):
        """known: name -> type of everything bound by a let or reg with a simple pattern."""
        out, env = [], list(env)
        for s in ss:
            if self.r.random() < p * .5: out.append(self.stmt(env))
            out.append(s)
            if s["k"] in ("let", "reg") and s["p"]["k"] == "pn" and s.get("t") and s["p"]["n"] not in dict(env):
                env = [b for b in env if b[0] != s["p"]["n"]] + [(s["p"]["n"], s["t"])]
        if self.r.random() < p: out.append(self.stmt(env))
        return out
    def unit(self, u):
        env = [(q["n"], q["t"]) for q in u["params"] if q["t"][0] not in ("ck", "inv")]
        if u["kind"] == "pipeline": u["ss"] = self.pipe(u["ss"], env)
        else: u["ss"] = self.block(u["ss"], env)
    def pipe(self, ss, env):
        """Assertions in every stage, over names that are available there."""
        out, env, late, st = [], list(env), [], 0
        for s in ss:
            if self.r.random() < .25 and not (s["k"] == "stage" and s.get("rend") == ""): out.append(self.stmt(env))
            out.append(s)
            if s["k"] == "stage":
                st += 1
                env += [b for at, b in late if at == st]
            if s["k"] in ("let", "reg") and s["p"]["k"] == "pn" and s.get("t"):
                b = (s["p"]["n"], s["t"])
                d = s["e"].get("d") if s["k"] == "let" and s["e"]["k"] in ("inst", "minst", "linst") else None
                if d: late.append((st + d[1], b))
                else: env.append(b)
        if self.r.random() < .5: out.append(self.stmt(env))
        return out

def assert_cases(ck, n):
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 28)
        k = r.random()
        g = Gen(r, depth=2, maxw=6, match=.5, calls=1.5, agg=1.5, decl=0, shadow=0, initial=.5)
        g.decl_types(1, 1)
        if r.random() < .7: g.mk_fn()
        if k < .45:
            for _ in range(r.choice([0, 1, 2])): g.mk_entity(2, r.randint(1, 2), 1)
            u = g.mk_entity(2, r.randint(1, 4), r.choice([1, 1, 2]), top=True)
        elif k < .8:
            if r.random() < .5: g.mk_entity(2, 1, 1)
            if r.random() < .5: g.mk_pipe(maxd=2)
            u = g.mk_pipe(top=True, stalls=.4 if r.random() < .3 else 0)
        else:
            c = c_sem.comb_case(g, r, steps=1)
            u = g.units["top"]
        a = Asserts(g, r)
        fns = g.fns
        for nm in list(g.units):
            g.fns = [] if g.units[nm]["kind"] == "fn" else fns      # no recursion
            a.unit(g.units[nm])
        if r.random() < .3:
            for nm, q in g.units.items():
                if nm != "top" and r.random() < .5: q["attrs"] = ["inline"]
        p = g.prog("top", passes=6 if g.fwd else 1)
        src = rprog(p)
        # comments on the lines of assertions become part of the message that is shown
        src = "\n".join(l + r.choice(COMMENTS) if "assert " in l else l for l in src.split("\n"))
        cases.append(dict(prog=p, src=src, steps=g.tx(u, 16), asserts=True, tag="assert"))
    return cases

def run(prop, tier): return run_profile(prop, tier, [(assert_cases, 300, 5000)])
