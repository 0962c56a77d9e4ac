"""C06: random programs, valid and slightly wrong, against the static semantics."""
import copy, json, random
from sp import *
from gen import *
from lib import *
import static, c_num
from c_sem import rng_of

OPS = ["+", "-", "*", "+.", "-.", "*.", "&", "|", "^", "<<", ">>", ">>>", "<<.", ">>.", "&&", "||", "^^", "<", "<=", ">", ">=", "==", "!="]

def exprs(x, out, inpat=False):
    """(container, key) of every expression below x."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("t", "ts", "rt", "n", "d", "p", "ps", "fv", "an"): continue
            if isinstance(v, dict) and "k" in v: out.append((x, k))
            if isinstance(v, (dict, list)): exprs(v, out)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, dict) and v.get("k") and v["k"] not in STM: out.append((x, i))
            if isinstance(v, (dict, list)): exprs(v, out)
    return out
STM = ("let", "reg", "decl", "stage", "set", "assert", "label")

def stmlists(x, out):
    if isinstance(x, dict):
        if isinstance(x.get("ss"), list): out.append(x["ss"])
        for v in x.values(): stmlists(v, out)
    elif isinstance(x, list):
        for v in x: stmlists(v, out)
    return out

def patterns(x, out):
    if isinstance(x, dict):
        if x.get("k") in ("pw", "pn", "pi", "pb", "pt", "ps", "pe", "pat"): out.append(x)
        for v in x.values(): patterns(v, out)
    elif isinstance(x, list):
        for v in x: patterns(v, out)
    return out

def binders(u):
    ns = ["nope"] + [p["n"] for p in u["params"]] + [q["n"] for q in patterns(u, []) if q["k"] in ("pn", "pat")]
    for ss in stmlists(u, []):
        for s in ss:
            if s["k"] == "decl": ns += s["ns"]
    return ns

class Mut:
    def __init__(self, g, r): self.g, self.r = g, r
    def pick(self, u, *kinds):
        c = [(a, k) for a, k in exprs([u["ss"], u], []) if not kinds or a[k]["k"] in kinds]
        return self.r.choice(c) if c else None
    def nty(self, t):
        r = self.r
        if t[0] in ("u", "s") and r.random() < .8:
            w = t[1][1]
            return r.choice([[t[0], num(max(1, w + r.choice([-1, 1])))], [("s" if t[0] == "u" else "u"), num(w)], BT])
        if t[0] == "t" and t[1] and r.random() < .6:
            c = copy.deepcopy(t); j = r.randrange(len(c[1]))
            if r.random() < .3: c[1].pop(j)
            else: c[1][j] = self.nty(c[1][j])
            return c if len(c[1]) > 1 else self.g.ty(1)
        if t[0] == "a" and r.random() < .6:
            return [t[0], t[1], num(max(1, t[2][1] + r.choice([-1, 1])))] if r.random() < .6 else [t[0], self.nty(t[1]), t[2]]
        return self.g.ty(1)
    # each returns True when it changed something
    def m_var(self, u):
        p = self.pick(u, "var")
        if not p: return
        n = self.r.choice(binders(u)) if self.r.random() < .93 else "nope"
        p[0][p[1]] = var(n); return True
    def m_lit(self, u):
        p = self.pick(u, "lit")
        if not p or not p[0][p[1]].get("t"): return
        e = p[0][p[1]]
        w = e["t"][1][1]
        if self.r.random() < .4: e["v"] = self.r.choice([2 ** w, 2 ** w - 1, 2 ** (w - 1), -2 ** (w - 1), -2 ** (w - 1) - 1, -1])
        else: e["t"] = self.nty(e["t"]) if self.r.random() < .8 else e["t"]
        if e["t"][0] not in ("u", "s"): p[0][p[1]] = boo(True)
        return True
    def m_op(self, u):
        p = self.pick(u, "bin")
        if not p: return
        p[0][p[1]]["op"] = self.r.choice(OPS); return True
    def m_un(self, u):
        p = self.pick(u)
        if not p: return
        if p[0][p[1]]["k"] == "un": p[0][p[1]]["op"] = self.r.choice("!~-")
        else: p[0][p[1]] = un(self.r.choice("!~-"), p[0][p[1]], BT)
        return True
    def m_swap(self, u):
        p = self.pick(u, "bin")
        if not p: return
        e = p[0][p[1]]; e["l"], e["r"] = e["r"], e["l"]; return True
    def m_ann(self, u):
        c = [s for ss in stmlists(u, []) for s in ss if s["k"] in ("let", "reg") and "t" in s]
        if not c: return
        s = self.r.choice(c)
        if self.r.random() < .3: del s["t"]
        else: s["t"] = self.nty(s["t"])
        return True
    def m_sig(self, u):
        if self.r.random() < .5 and "rt" in u:
            if self.r.random() < .06: del u["rt"]
            else: u["rt"] = self.nty(u["rt"])
        elif u["params"]:
            p = self.r.choice(u["params"])
            if p["t"][0] == "ck" or self.r.random() < .05: p["t"] = self.r.choice([BT, CK])
            else: p["t"] = self.nty(p["t"])
        return True
    def m_param(self, u):
        if not u["params"]: return
        k = self.r.random()
        ps_ = u["params"]
        if k < .3: ps_.pop(self.r.randrange(len(ps_)))
        elif k < .5: ps_.insert(self.r.randrange(len(ps_) + 1), param(self.g.fresh("x"), self.g.ty(1)))
        elif k < .8: self.r.shuffle(ps_)
        else: self.r.choice(ps_)["n"] = self.r.choice(ps_)["n"]
        return bool(ps_)
    def m_args(self, u):
        p = self.pick(u, "call", "inst", "str", "enm")
        if not p: return
        e = p[0][p[1]]
        k = "args" if "args" in e else "es"
        a = e[k]
        c = self.r.random()
        if "infix" in e: del e["infix"]
        if "an" in e and c < .5 and a:
            j = self.r.randrange(len(a))
            if c < .15: e["an"][j] = self.r.choice(e["an"])
            elif c < .3: e["an"][j] = "nope"
            elif c < .4: a.pop(j); e["an"].pop(j)
            else: self.r.shuffle(e["an"])
        elif c < .65 and a:
            j = self.r.randrange(len(a)); a.pop(j)
            if "an" in e: e["an"].pop(j)
        elif c < .8 and "an" not in e: a.insert(self.r.randrange(len(a) + 1), copy.deepcopy(self.r.choice(a)) if a else boo(True))
        elif len(a) > 1: self.r.shuffle(a)
        if "an" in e and not a: del e["an"]
        return True
    def m_proj(self, u):
        p = self.pick(u, "tix", "fld", "rng", "idx")
        if not p: return
        e = p[0][p[1]]
        if e["k"] == "tix": e["i"] = max(0, e["i"] + self.r.choice([-1, 1, 1]))
        elif e["k"] == "fld": e["f"] = "f%d" % self.r.randrange(5)
        elif e["k"] == "rng":
            q = self.r.choice("ab")
            e[q] = num(max(0, e.get(q, num(0))[1] + self.r.choice([-1, 1])))
        else:
            i = e["i"]
            if i["k"] == "lit" and i.get("t"): i["t"] = self.nty(i["t"])
            else: e["i"] = lit(0, UT(self.r.randint(1, 3)))
            if i["k"] == "lit" and i.get("t") and i["t"][0] not in ("u", "s"): e["i"] = boo(True)
        return True
    def m_wrap(self, u):
        p = self.pick(u)
        if not p: return
        e = p[0][p[1]]
        k = self.r.randrange(4)
        p[0][p[1]] = [tix(e, 0), fld(e, "S", "f0"), tup(e, e), idx(e, lit(0, UT(1)))][k]
        return True
    def m_copy(self, u):
        p, q = self.pick(u), self.pick(u)
        if not p: return
        e = copy.deepcopy(q[0][q[1]])
        p[0][p[1]] = e
        return True
    def m_cond(self, u):
        p = self.pick(u, "if", "match")
        if not p: return
        e = p[0][p[1]]
        if e["k"] == "if":
            k = self.r.random()
            if k < .4: e["c"] = self.r.choice([lit(1, UT(1)), var(self.r.choice(binders(u)))])
            elif k < .8: e[self.r.choice("ab")] = copy.deepcopy(self.r.choice([e["c"], boo(True), lit(1, UT(self.r.randint(1, 4)))]))
            else: e["a"], e["b"] = e["b"], e["a"]
            return True
        a = e["arms"]
        k = self.r.random()
        if k < .4 and len(a) > 1: a.pop(self.r.randrange(len(a)))
        elif k < .6: self.r.choice(a)["g"] = self.r.choice([boo(False), lit(1, UT(1)), var(self.r.choice(binders(u)))])
        elif k < .8: self.r.choice(a)["e"] = self.r.choice([boo(False), lit(1, UT(2)), var(self.r.choice(binders(u)))])
        else: self.r.shuffle(a)
        return True
    def m_pat(self, u):
        c = [q for q in patterns(u, [])]
        if not c: return
        q = self.r.choice(c)
        k = q["k"]
        if k == "pi": q["v"] = self.r.choice([q["v"] + 1, -1, 2 ** 5, 0])
        elif k == "pb": q.clear(); q.update(pi(1))
        elif k in ("pt", "pe") and q["ps"]:
            j = self.r.randrange(len(q["ps"]))
            if "nm" in q: del q["nm"]
            if k == "pt" and self.r.random() < .2: q["a"] = 1 - q["a"]
            elif self.r.random() < .5: q["ps"].pop(j)
            else: q["ps"].insert(j, PW.copy())
            if k == "pt" and len(q["ps"]) < 2: q["ps"] += [PW.copy()] * 2
        elif k == "ps" and q["fs"]:
            q["fs"].pop(self.r.randrange(len(q["fs"])))
        elif k in ("pn", "pw"):
            q.clear(); q.update(self.r.choice([pi(0), pi(1), pb(True), PW, pt(PW.copy(), pn("zz"))]))
        return True
    def m_stmt(self, u):
        ss = self.r.choice(stmlists(u, []))
        if not ss: return
        for s in ss: s.pop("rend", None)
        i = self.r.randrange(len(ss))
        k = self.r.random()
        if k < .35: ss.pop(i)
        elif k < .75: s = ss.pop(i); ss.insert(self.r.randrange(len(ss) + 1), s)
        else: ss.insert(self.r.randrange(len(ss) + 1), copy.deepcopy(ss[i]))
        return True
    def m_name(self, u):
        c = [q for q in patterns(u, []) if q["k"] in ("pn", "pat")]
        if not c: return
        self.r.choice(c)["n"] = self.r.choice(binders(u)); return True
    def m_reg(self, u):
        c = [s for ss in stmlists(u, []) for s in ss if s["k"] == "reg"]
        if not c: return
        s = self.r.choice(c)
        k = self.r.random()
        n = lambda: var(self.r.choice(binders(u)))
        if k < .3: s["ck"] = n()
        elif k < .5 and "rst" in s: s["rst"]["c"] = n()
        elif k < .7 and "rst" in s: s["rst"]["v"] = n()
        elif k < .85: s["rst"] = dict(c=n(), v=lit(0, UT(self.r.randint(1, 4))))
        else: s["init"] = lit(0, UT(self.r.randint(1, 4)))
        return True
    def m_decl(self, u):
        ss = u["ss"]
        c = [s for s in ss if s["k"] == "decl"]
        if c and self.r.random() < .5:
            s = self.r.choice(c)
            if self.r.random() < .5: ss.remove(s)
            else: s["ns"] = s["ns"] + [self.r.choice(binders(u) + ["nope"])]
        else: ss.insert(0, decl(self.r.choice(binders(u) + ["nope"])))
        return True
    def m_kind(self, u):
        k = self.r.random()
        if k < .3:
            u["kind"] = self.r.choice(["fn", "entity"]); u.pop("depth", None)
        elif k < .65:
            p = self.pick(u, "call", "inst")
            if not p: return
            e = p[0][p[1]]
            e["k"] = "inst" if e["k"] == "call" else "call"
            e.pop("infix", None)
            if e["k"] == "inst": e["id"] = "zz"
            else: e.pop("d", None)
        else:
            p = self.pick(u, "inst")
            if not p: return
            e = p[0][p[1]]
            if "d" in e and self.r.random() < .3: del e["d"]
            else: e["d"] = num(self.r.randint(0, 3))
        return True
    def m_callee(self, u):
        p = self.pick(u, "call", "inst")
        if not p: return
        e = p[0][p[1]]
        e["u"] = self.r.choice(list(self.g.units) + ["nope"]); e.pop("infix", None)
        return True
    def m_depth(self, u):
        if u["kind"] != "pipeline": return
        ss = u["ss"]
        k = self.r.random()
        st = [i for i, s in enumerate(ss) if s["k"] == "stage"]
        for s in ss: s.pop("rend", None)
        if k < .3: u["depth"] = max(0, u["depth"] + self.r.choice([-1, 1]))
        elif k < .5 and st: ss.pop(self.r.choice(st))
        elif k < .7: ss.insert(self.r.randrange(len(ss) + 1), stage())
        elif st:
            s = ss.pop(self.r.choice(st)); ss.insert(self.r.randrange(len(ss) + 1), s)
        return True

    def m_delay(self, u):
        """Instances inside larger expressions and blocks."""
        c = [s for ss in stmlists(u, []) for s in ss if s["k"] in ("let", "reg")]
        if not c: return
        p = [s for s in c if s["e"]["k"] == "inst" and "d" in s["e"]]
        s = self.r.choice(p) if p and self.r.random() < .8 else self.r.choice(c)
        e, q, t = s["e"], s["p"], s.get("t")
        k = self.r.randrange(7)
        other = self.r.choice([boo(True), var(self.r.choice(binders(u))), self.r.choice(c)["e"]])
        other = copy.deepcopy(other)
        n = self.g.fresh("b")
        if k == 0: s["e"] = blk([let(pn(n), e, t)] if t else [let(pn(n), e)], var(n))
        elif k == 1: s["e"] = blk([let(pn(n), other)], e)
        elif k in (2, 3):
            s["p"] = pt(q, PW.copy()); s["e"] = tup(e, other); s.pop("t", None)
        elif k == 4: s["e"] = if_(other, e, copy.deepcopy(e))
        elif k == 5: s["e"] = match(e, arm(pn(n), var(n)))
        else: s["e"] = match(other, arm(PW.copy(), e))
        return True

    def m_when(self, u):
        """Conditions and assertions on values that may not be ready."""
        ss = u["ss"]
        st = [s for s in ss if s["k"] == "stage"]
        n = var(self.r.choice(binders(u)))
        e = self.r.choice([n, dict(k="bin", op="==", l=n, r=copy.deepcopy(n))])
        if st and self.r.random() < .4:
            for s in st: s.pop("rend", None)
            self.r.choice(st)["c"] = e
        else: ss.insert(self.r.randrange(len(ss) + 1), assert_("zz", e))
        return True

    def m_unsafe(self, u):
        k = self.r.random()
        if k < .35 and not u.get("unsafe"):
            u["unsafe"] = True; return True
        kinds = ("call", "inst") if k < .8 else ()
        p = self.pick(u, *kinds)
        if not p: return
        e = p[0][p[1]]
        if "infix" in e and self.r.random() < .5: e.pop("infix")
        p[0][p[1]] = dict(blk([], e), uns=1); return True
    def m_ref(self, u):
        """Stage references: another stage, label or name."""
        p = self.pick(u, "stgref")
        if not p:
            p = self.pick(u)
            if not p or u["kind"] != "pipeline" or self.r.random() < .7: return
            p[0][p[1]] = dict(k="stgref", n=self.r.choice(binders(u)), w="+0", st=0); return True
        e = p[0][p[1]]
        k = self.r.random()
        if k < .4: e["n"] = self.r.choice(binders(u))
        elif k < .8: e["w"] = "%+d" % self.r.randint(-3, 3)
        else: e["w"] = self.r.choice(["nope"] + [s["n"] for s in u["ss"] if s["k"] == "label"])
        return True
    def m_infn(self, u):
        """Something only some kinds of unit may contain."""
        ss = self.r.choice(stmlists(u, []))
        n = self.g.fresh("w")
        cl = [p["n"] for p in u["params"] if p["t"][0] == "ck"]
        k = self.r.randrange(4)
        if k == 0: s = dict(k="reg", p=pn(n), t=BT, ck=var(self.r.choice(cl or binders(u))), e=boo(True))
        elif k == 1: s = stage()
        elif k == 2: s = let(pn(n), dict(k=self.r.choice(["ready", "valid"])))
        else: s = dict(k="label", n=n)
        ss.insert(self.r.randrange(len(ss) + 1), s); return True

ALL = [m for m in dir(Mut) if m.startswith("m_")]

def fix_refs(u):
    """Absolute stages of the stage references, from what is written."""
    if u["kind"] != "pipeline": return
    labels, n = {}, 0
    for s in u["ss"]:
        if s["k"] == "stage": n += 1
        if s["k"] == "label": labels.setdefault(s["n"], n)
    n = 0
    for s in u["ss"] + [u["e"]]:
        for a, k in exprs([s], []):
            e = a[k]
            if e["k"] == "stgref":
                e["st"] = n + int(e["w"]) if e["w"][0] in "+-" else labels.get(e["w"], -1)
        if s["k"] == "stage": n += 1

def base(r, kind):
    g = Gen(r, opt=0, shadow=0, maxw=r.choice([3, 5, 8]), depth=2, ann=1)
    g.decl_types(r.randint(0, 2), r.randint(0, 2))
    for _ in range(r.randint(0, 2)): g.mk_fn(2)
    if kind == "fn":
        n = "top"
        g.mk_fn(r.randint(2, 3))
        k, (a, b) = list(g.units)[-1], (0, 0)
        u = g.units.pop(k); g.units["top"] = u
        if g.fns and g.fns[-1][0] == k: g.fns.pop()
        u.pop("attrs", None)
    elif kind == "entity":
        for _ in range(r.randint(0, 2)): g.mk_entity(1, 2)
        g.mk_entity(2, r.randint(1, 4), r.randint(1, 2), top=True)
    else:
        if r.random() < .4: g.mk_entity(1, 1)
        for _ in range(r.randint(0, 2)): g.mk_pipe(refs=.3, maxd=3)
        g.mk_pipe(top=True, stalls=r.choice([0, .3]), refs=.5, maxd=4)
    return g

def program_cases(ck, n, muts=None, kinds=("fn", "entity", "pipeline"), salt=6001, nm=(0, 0, 1, 1, 1, 1, 2, 3)):
    cases = []
    i = 0
    while len(cases) < n:
        i += 1
        r = rng_of(ck, i, salt)
        kind = r.choice(kinds)
        g = base(r, kind)
        p = json.loads(json.dumps(g.prog("top")))      # no shared nodes
        m = Mut(g, r)
        k = r.choice(nm)
        done = []
        for _ in range(k):
            u = p["units"][r.choice(list(p["units"])) if r.random() < .3 else "top"]
            for _ in range(10):
                f = r.choice(muts or ALL)
                if getattr(m, f)(u):
                    done.append(f); break
        for u in p["units"].values(): fix_refs(u)
        if r.random() < .4:       # let the compiler infer the types of variables
            for u in p["units"].values():
                for ss in stmlists(u, []):
                    for s in ss:
                        if s["k"] == "let" and "t" in s and not s["t"][0] == "en" and r.random() < .5: del s["t"]
        src = rprog(p)
        cases.append(dict(prog=p, src=src, stdlib=any(x in src for x in ("zext", "sext", "trunc")), q=dict(k="program"), tag="+".join(sorted(done)) or "valid"))
    return cases

def checker(muts, kinds, salt, nm, quick=1200, more=()):
    def run(prop, tier):
        ck = Check(prop, tier)
        static.run_verdicts(ck, program_cases(ck, ck.pick(quick, 25000), muts=muts, kinds=kinds, salt=salt, nm=nm))
        for f, q, t in more: static.run_verdicts(ck, f(ck, ck.pick(q, t)))
        return ck.finish()
    return run

run = checker(None, ("fn", "entity", "pipeline"), 6001, (0, 0, 1, 1, 1, 1, 2, 3), more=((c_num.lit_cases, 700, 12000), (c_num.range_cases, 300, 4000)))
run_pipe = checker(["m_delay", "m_delay", "m_delay", "m_when", "m_depth", "m_depth", "m_ref", "m_ref", "m_stmt", "m_kind"],
                   ("pipeline",), 4001, (0, 1, 1, 1, 2))
run_kind = checker(["m_kind", "m_kind", "m_callee", "m_unsafe", "m_unsafe", "m_unsafe", "m_infn"],
                   ("fn", "entity", "pipeline", "pipeline"), 27001, (0, 1, 1, 2, 3))
