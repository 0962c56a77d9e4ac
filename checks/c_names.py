"""C12: what names and paths denote."""
import random
from lib import *
import static, conform, shadow, c_sem, c_lam, c_type
from gen import Gen
from c_sem import rng_of

MODS, FNS, TYS = ["a", "b", "c"], ["f", "g", "h"], ["s", "t"]
VIS = {"": "", "pub": "pub ", "lib": "pub(lib) ", "self": "pub(self) ", "super": "pub(super) "}

class W:
    def __init__(self, r):
        self.r, self.items, self.id, self.refs, self.tag = r, [], 0, [], "paths"
        self.multi = r.random() < .4
        self.libs = [["p"], ["q"]] if self.multi else [[]]
        if self.multi and r.random() < .3: self.libs = [["p"]]
        self.pubness = r.choice([.6, .9, .97, 1])
        self.files = []         # namespaces with a file of their own
        for l in self.libs:
            self.files.append(l)
            if l: self.items.append(dict(ns=[], n=l[0], k="mod", vis="", root=1))
            self.module(l, r.choice([1, 2, 2, 3]), True)
        for _ in range(r.randint(1, 5)): self.use()
        if r.random() < .06:     # a second declaration of some name
            x = dict(r.choice([i for i in self.items if not i.get("root")]))
            y = r.choice([i for i in self.items if not i.get("root")])
            if x["k"] in ("fn", "use"):
                self.items.append(dict(x, ns=x["ns"] if r.random() < .5 else y["ns"], id=self.nid()))
        for _ in range(r.choice([1, 2, 2, 3])): self.ref()
    def nid(self): self.id += 1; return self.id
    def vis(self):
        r = self.r
        return "pub" if r.random() < self.pubness else r.choice(["", "self", "super", "lib", "lib"])
    def free(self, ns, n): return not any(i["ns"] == ns and i["n"] == n for i in self.items)
    def module(self, ns, depth, isfile):
        r = self.r
        for _ in range(r.choice([1, 1, 2])):
            n = r.choice(FNS)
            if self.free(ns, n): self.items.append(dict(ns=ns, n=n, k="fn", vis=self.vis(), id=self.nid()))
        if r.random() < .35:
            n = r.choice(TYS)
            if self.free(ns, n): self.items.append(dict(ns=ns, n=n, k="st", vis=self.vis(), id=self.nid()))
        if r.random() < .35:
            n = r.choice(["e", "f", "s"])
            if self.free(ns, n): self.items.append(dict(ns=ns, n=n, k="en", vis=self.vis(), id=self.nid(), vs=["V", "W"]))
        if depth > 0:
            for n in r.sample(MODS, r.choice([1, 1, 2])):
                if self.free(ns, n):
                    f = isfile and self.multi and r.random() < .4
                    self.items.append(dict(ns=ns, n=n, k="mod", vis=self.vis(), **(dict(file=1) if f else {})))
                    if f: self.files.append(ns + [n])
                    self.module(ns + [n], depth - 1, f)
    def spaces(self): return [i["ns"] + [i["n"]] for i in self.items if i["k"] == "mod"] + ([[]] if not self.multi else [])
    def path(self, src, dst):
        """Some path from namespace src that may denote dst."""
        r = self.r
        c = []
        lib = next(l for l in self.libs if src[:len(l)] == l)
        if dst[:len(lib)] == lib: c.append(["lib"] + dst[len(lib):])
        for k in range(len(src) + 1):
            if dst[:len(src) - k] == src[:len(src) - k] and len(dst) > len(src) - k:
                rest = dst[len(src) - k:]
                c.append((["super"] * k if k else r.choice([[], ["self"]])) + rest)
        c.append(dst)
        q = list(r.choice(c))
        if r.random() < .05:
            j = r.randrange(len(q))
            q[j] = r.choice(MODS + FNS + TYS + ["super", "self", "lib"])
        elif r.random() < .03: q = ["super"] + q
        elif r.random() < .04 and len(q) > 1: q.pop(0)
        return q if self.legal(q) else self.path(src, dst)
    def legal(self, q):
        k = 0
        while k < len(q) and q[k] == "super": k += 1
        if k == 0 and q[0] in ("lib", "self"): k = 1
        return k < len(q) and not any(s in ("lib", "self", "super") for s in q[k:])
    def through(self, dst):
        """Replace a prefix of dst by an alias for it."""
        al = [i for i in self.items if i["k"] == "use"]
        self.r.shuffle(al)
        for a in al:
            t = a.get("abs")
            if t and dst[:len(t)] == t: return a["ns"] + [a["n"]] + dst[len(t):]
        return dst
    def target(self, kinds):
        c = [i for i in self.items if i["k"] in kinds]
        return self.r.choice(c) if c else None
    def use(self):
        r = self.r
        ns = r.choice(self.spaces())
        k = r.random()
        t = self.target(("mod", "mod", "fn", "st", "en", "use"))
        if not t: return
        dst = t["ns"] + [t["n"]]
        ab = t.get("abs", dst)
        if t["k"] == "en" and r.random() < .5: dst = dst + ["V"]; ab = dst
        if r.random() < .3: dst = self.through(dst)
        q = self.path(ns, dst)
        n = q[-1] if r.random() < .4 else r.choice(FNS + MODS + ["x", "y"])
        if n in ("lib", "self", "super"): n = "x"
        if not self.free(ns, n): return
        self.items.append(dict(ns=ns, n=n, k="use", vis=self.vis(), tgt=q, abs=ab, **(dict(ren=1) if n != q[-1] else {})))
    def ref(self):
        r = self.r
        k = r.choice(["call", "call", "call", "call", "st", "var", "var", "ty"])
        t = self.target(dict(call=("fn",), st=("st",), ty=("st",), var=("en",))[k])
        if not t: k, t = "call", self.target(("fn",))
        if not t: return
        ns = r.choice(self.spaces())
        if r.random() < .35: ns = t["ns"]
        dst = t["ns"] + [t["n"]] + (["V"] if k == "var" else [])
        if r.random() < .6: dst = self.through(dst)
        if r.random() < .2:
            al = [i for i in self.items if i["k"] == "use"]
            if al:
                a = r.choice(al); dst = a["ns"] + [a["n"]]
        loc = []
        if r.random() < .12: loc = [r.choice(FNS + ["x"])]
        self.refs.append(dict(ns=ns, n="r%d" % len(self.refs), k=k, q=self.path(ns, dst), id=t["id"], loc=loc))
    # ---- text
    def item(self, i):
        v = VIS[i["vis"]]
        if i["k"] == "fn": return "%sfn %s() -> uint<8> { %d }" % (v, i["n"], i["id"])
        if i["k"] == "st": return "%sstruct %s { f%d: uint<8> }" % (v, i["n"], i["id"])
        if i["k"] == "en": return "%senum %s { V { f%d: uint<8> }, W }" % (v, i["n"], i["id"])
        if i["k"] == "use":
            return "%suse %s%s;" % (v, "::".join(i["tgt"]), " as " + i["n"] if i.get("ren") else "")
        if i.get("file"): return "%smod %s;" % (v, i["n"])
        return "%smod %s {\n%s}" % (v, i["n"], self.body(i["ns"] + [i["n"]]))
    def refsrc(self, f):
        q = "::".join(f["q"])
        ps = ", ".join("%s: uint<3>" % n for n in f["loc"])
        b = {"call": "%s()" % q, "st": "%s$(f%d: %d).f%d" % (q, f["id"], f["id"], f["id"]),
             "var": "match %s$(f%d: %d) { %s$(f%d: v) => v, _ => 255 }" % (q, f["id"], f["id"], q, f["id"]),
             "ty": "hx%d($H$).f%d" % (f["id"], f["id"])}[f["k"]]
        if f["k"] == "ty":
            return "fn %s(o: %s%s) -> uint<8> { o.f%d }" % (f["n"], q, "".join(", " + x for x in ps.split(", ") if x), f["id"])
        return "fn %s(%s) -> uint<8> { %s }" % (f["n"], ps, b)
    def body(self, ns):
        r = self.r
        l = [self.item(i) for i in self.items if i["ns"] == ns and not i.get("root")] + [self.refsrc(f) for f in self.refs if f["ns"] == ns]
        r.shuffle(l)
        s = "".join("  " + x + "\n" for x in l)
        # known finding: a type is looked up before the units written after it are declared
        for f in self.refs:
            if f["ns"] == ns and f["k"] == "ty" and "fn %s()" % f["q"][0] in s and s.index("fn %s(" % f["n"]) < s.index("fn %s()" % f["q"][0]):
                self.tag = "unit-hides-type"
        return s
    def sources(self):
        if not self.multi: return self.body([])
        return [dict(file="/".join(f) + ("/main.spade" if f in self.libs else ".spade"), ns="::".join(f),
                     base="::".join(next(l for l in self.libs if f[:len(l)] == l)), src=self.body(f)) for f in self.files]

def mod_cases(ck, n):
    cases = []
    i = 0
    while len(cases) < n:
        i += 1
        r = rng_of(ck, i, 1201)
        w = W(r)
        if not w.refs: continue
        src = w.sources()
        if isinstance(src, list): r.shuffle(src)
        items = [{k: v for k, v in x.items() if k in ("ns", "n", "k", "vis", "id", "vs", "tgt")} for x in w.items]
        sims = [dict(top="::".join(f["ns"] + [f["n"]]), steps=[dict(set={("o_i" if f["k"] == "ty" else "%s_i" % x): (f["id"] if f["k"] == "ty" else 0)
                                                                        for x in (["o"] if f["k"] == "ty" else f["loc"])})]) for f in w.refs]
        cases.append(dict(src=src, prog=dict(items=items, libs=w.libs, refs=w.refs), q=0, tag=w.tag, job=dict(sims=sims)))
    return cases

def vals(c, r):
    v = []
    for s in r.get("sims") or []:
        o = (s.get("out") or [["x"]])[0][0]
        v.append(int(o, 2) if set(o) <= set("01") else -1)
    return dict(vals=v)

def run_mods(ck, n):
    return static.run_verdicts(ck, mod_cases(ck, n), module="SpadeNames", extra=vals)

def scope_cases(ck, n):
    """Programs whose locals are renamed so that as many as possible hide another name, and
    units sharing each other's names."""
    cases = []
    for i in range(n):
        r = rng_of(ck, i, 1202)
        k = r.choice(["comb", "comb", "regs", "pipe", "lam"])
        if k == "lam":
            cases += swapped(c_lam.lam_cases, c_lam, 1203 + i, ck, 1); continue
        g = Gen(r, depth=3, maxw=6, match=2, cond=1.5, calls=1, agg=1.5, blk=3, shadow=1, trials=40, decl=.2)
        g.decl_types(1, 1)
        for _ in range(r.randint(0, 2)): g.mk_fn()
        if k == "comb": c = c_sem.comb_case(g, r, nin=3, nlets=r.randint(3, 6), steps=10)
        elif k == "regs":
            u = g.mk_entity(2, r.randint(2, 5), 1, top=True)
            c = dict(prog=g.prog("top", passes=4 if g.fwd else 1), steps=g.tx(u, 10))
        else:
            if r.random() < .5: g.mk_pipe(maxd=2)
            u = g.mk_pipe(top=True)
            c = dict(prog=g.prog("top", passes=6 if g.fwd else 1), steps=g.tx(u, 12))
        if r.random() < .5: shadow.cross(c["prog"], r, .4)
        c["tag"] = "scopes"
        cases.append(c)
    return cases

def swapped(fn, mod, salt, ck, n):
    old = mod.rng_of
    mod.rng_of = lambda c, i, s: rng_of(c, i, salt * 100 + s)
    try: return fn(ck, n)
    finally: mod.rng_of = old

def run(prop, tier):
    ck = Check(prop, tier)
    run_mods(ck, ck.pick(2500, 80000))
    static.run_verdicts(ck, c_type.program_cases(ck, ck.pick(500, 12000), salt=12001, nm=(0, 1, 1, 2),
                                                 muts=["m_var", "m_var", "m_name", "m_name", "m_decl", "m_stmt"]))
    conform.run_cases(ck, scope_cases(ck, ck.pick(150, 4000)))
    return ck.finish()
