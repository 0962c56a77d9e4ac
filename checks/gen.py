"""Seeded random generation of well-typed core programs (syntax only) and of stimuli."""
import random
from sp import *
import shadow

INTW = [1, 2, 3, 4, 5, 7, 8]

def has_tv(t): return isinstance(t, list) and (t[:1] == ["tv"] or any(has_tv(x) for x in t))

class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        self.prof = dict(depth=3, arith=4, agg=2, cond=2, match=2, calls=2, conv=1, arrays=1, cmp=2,
                         enums=2, maxw=12, ann=0.7, lam=0, std=0, opt=1, named=0.3, inline=0.2)
        self.prof.update(prof)
        self.n = 0
        self.structs, self.enums, self.units, self.impls = {}, {}, {}, []
        if self.prof["opt"]:
            self.enums["Option"] = dict(tp=["T"], vs=[["None", []], ["Some", [["value", TV("T")]]]], std=1)
        self.fns = []       # (name, ptypes, rtype)
        self.lams = []      # dict(n, ps, rt, kind, d): lambdas callable in this scope
        self.meths = []     # dict(m, ty, ps, rt, kind): methods callable in this scope
        self.ents = []
        self.pipes = []
        self.fwd = False
        self.inconst = False

    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def P(self): return dict(structs=self.structs, enums=self.enums)
    def w(self, t): return width(t, self.P())

    # ------------------------------------------------ types
    def int_t(self, maxw=None):
        w = self.r.choice([x for x in INTW if x <= (maxw or self.prof["maxw"])])
        return (UT if self.r.random() < 0.5 else ST)(w)

    def ty(self, d=2):
        r = self.r.random()
        if d <= 0 or r < 0.45: return self.int_t()
        if r < 0.6: return BT
        if r < 0.72: return TT(*[self.ty(d - 1) for _ in range(self.r.randint(1 if False else 2, 3))])
        if r < 0.8 and self.prof["arrays"]: return AT(self.ty(d - 1), self.r.randint(1, 4))
        if r < 0.88 and self.structs: return self.named("st")
        if r < 0.96 and self.enums: return self.named("en", d)
        return self.int_t()

    def named(self, k, d=1):
        pool = self.structs if k == "st" else self.enums
        n = self.r.choice(list(pool))
        return [k, n, [["#", self.r.randint(1, 3)] if q.startswith("#") else self.ty(min(d - 1, 1))
                       for q in pool[n].get("tps", pool[n]["tp"])]]

    def decl_types(self, ns=2, ne=2):
        for _ in range(ns):
            self.structs[self.fresh("S")] = dict(tp=[], fs=[["f%d" % i, self.ty(1)] for i in range(self.r.randint(1, 4))])
        for _ in range(ne):
            n = self.fresh("E")
            vs = []
            for i in range(self.r.choice([1, 2, 2, 3, 3, 4, 5])):
                fs = [["p%d" % j, self.ty(1)] for j in range(self.r.choice([0, 0, 1, 1, 2, 3]))]
                vs.append(["V%d" % i, fs])
            self.enums[n] = dict(tp=[], vs=vs)

    def variants(self, t):
        d = self.enums[t[1]]
        m = dict(zip(d["tp"], t[2]))
        return [(v, [(f, sub(ft, m)) for f, ft in fs]) for v, fs in d["vs"]]

    def fields(self, t):
        d = self.structs[t[1]]
        m = dict(zip(d["tp"], t[2]))
        return [(f, sub(ft, m)) for f, ft in d["fs"]]

    # ------------------------------------------------ expressions
    def lit(self, t):
        w = t[1][1]
        lo, hi = (0, 2 ** w - 1) if t[0] == "u" else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        c = self.r.random()
        v = lo if c < .1 else hi if c < .25 else 0 if c < .3 and lo <= 0 <= hi else self.r.randint(lo, hi)
        return lit(v, t)

    def paths(self, env, t, limit=40):
        """Expressions that are parts of variables and have type t."""
        out = []
        def walk(e, et, d):
            if et == t: out.append(e)
            if d == 0 or len(out) > limit: return
            if et[0] == "t":
                for i, x in enumerate(et[1]): walk(tix(e, i), x, d - 1)
            elif et[0] == "st":
                for f, x in self.fields(et): walk(fld(e, et[1], f), x, d - 1)
            elif et[0] == "a" and et[2][0] == "tv": walk(idx(e, lit(0, None)), et[1], d - 1)
            elif et[0] == "a" and et[2][1] > 0:
                k = et[2][1]
                iw = (k - 1).bit_length()
                if iw: walk(idx(e, lit(self.r.randrange(k), UT(iw))), et[1], d - 1)
        for n, et in env: walk(var(n), et, 3)
        return out

    def leaf(self, t, env):
        ps_ = self.paths(env, t)
        if ps_ and self.r.random() < 0.8: return self.r.choice(ps_)
        k = t[0]
        if k in ("u", "s"):
            # widen or narrow a variable of another width
            vs = [(n, et) for n, et in env if et[0] == k and et != t and not has_tv(et)]
            if vs and self.r.random() < 0.5: return self.conv(*self.r.choice(vs), t)
            return self.lit(t)
        if k == "b":
            vs = [(n, et) for n, et in env if et[0] in ("u", "s") and not has_tv(et)]
            if vs and self.r.random() < 0.6:
                n, et = self.r.choice(vs)
                return bi(self.r.choice(["<", ">", "<=", ">=", "==", "!="]), var(n), self.lit(et), et)
            return boo(self.r.random() < 0.5)
        return self.build(t, env, 0)

    def conv(self, n, et, t):
        a, b = et[1][1], t[1][1]
        e = var(n) if isinstance(n, str) else n
        if a > b:
            return std("trunc", [e], [et], t, form="trunc::<%s, %s>($1)" % (rty(et), rty(t)))
        f = "zext" if t[0] == "u" else "sext"
        return std(f, [e], [et], t, form="%s::<%d, %d>($1)" % (f, a, b))

    def build(self, t, env, d):
        k = t[0]
        if k == "t": return tup(*[self.ex(x, env, d - 1) for x in t[1]])
        if k == "a":
            if self.r.random() < 0.15: return rep(self.ex(t[1], env, d - 1), t[2][1])
            return arr(*[self.ex(t[1], env, d - 1) for _ in range(t[2][1])])
        if k == "st":
            fs = self.fields(t)
            es = [self.ex(ft, env, d - 1) for _, ft in fs]
            if self.r.random() < self.prof["named"]:
                o = list(range(len(fs)))
                self.r.shuffle(o)
                x = mk(t[1], *[es[i] for i in o])
                x["an"] = [fs[i][0] for i in o]
                return x
            return mk(t[1], *es)
        if k == "en":
            vs = self.variants(t)
            i = self.r.randrange(len(vs))
            v, fs = vs[i]
            nm = v if self.enums[t[1]].get("std") else "%s::%s" % (t[1], v)
            x = enm(t[1], i + 1, nm, *[self.ex(ft, env, d - 1) for _, ft in fs])
            if fs and self.r.random() < self.prof["named"] * 0.5:
                o = list(range(len(fs)))
                self.r.shuffle(o)
                x["es"] = [x["es"][j] for j in o]
                x["an"] = [fs[j][0] for j in o]
            if t[2] and not self.inconst:
                nn = self.fresh("o")
                return blk([let(nn, x, t)], var(nn))
            return x
        raise ValueError(t)

    def ex(self, t, env, d):
        if d <= 0: return self.leaf(t, env)
        p = self.prof
        k = t[0]
        opts = [("leaf", 1.5)]
        if p["cond"]: opts.append(("if", p["cond"] * 0.5))
        if p["match"] and self.w(t) > 0: opts.append(("match", p["match"] * 0.6))
        if p["calls"] and any(f[2] == t for f in self.fns): opts.append(("call", p["calls"]))
        if self.meths and any(m["rt"] == t and m["kind"] == "fn" for m in self.meths): opts.append(("mcall", p.get("meth", 4)))
        if self.lams and any(m["rt"] == t and m["kind"] == "fn" for m in self.lams): opts.append(("lcall", p.get("lcall", 4)))
        if p["lam"]: opts.append(("hof", p["lam"]))
        if k in ("u", "s"):
            opts.append(("arith", p["arith"]))
            opts.append(("conv", p["conv"]))
        elif k == "b":
            opts.append(("cmp", p["cmp"]))
            opts.append(("logic", p["cmp"]))
        else:
            opts.append(("build", p["agg"] * 1.5))
        if p["arrays"]: opts.append(("index", p["arrays"] * 0.5))
        if p["agg"]: opts.append(("blk", 0.3))
        if k == "a" and p["arrays"]: opts.append(("range", p["arrays"]))
        c = self.r.choices([o for o, _ in opts], [x for _, x in opts])[0]
        return getattr(self, "g_" + c)(t, env, d)

    def g_leaf(self, t, env, d): return self.leaf(t, env)
    def g_build(self, t, env, d): return self.build(t, env, d)
    def g_if(self, t, env, d): return if_(self.ex(BT, env, d - 1), self.ex(t, env, d - 1), self.ex(t, env, d - 1))
    def g_blk(self, t, env, d):
        n, t2 = self.fresh("b"), self.ty(1)
        return blk([let(n, self.ex(t2, env, d - 1), t2)], self.ex(t, env + [(n, t2)], d - 1))
    def g_conv(self, t, env, d):
        w = t[1][1]
        w2 = self.r.choice([x for x in INTW if x <= self.prof["maxw"]])
        if w2 == w: return self.leaf(t, env)
        t2 = [t[0], ["#", w2]]
        return self.conv(self.ex(t2, env, d - 1), t2, t)
    def g_cmp(self, t, env, d):
        if self.r.random() < 0.25:
            t2 = self.eq_t()
            return bi(self.r.choice(["==", "!="]), self.ex(t2, env, d - 1), self.ex(t2, env, d - 1), t2)
        t2 = self.int_t()
        return bi(self.r.choice(["<", ">", "<=", ">=", "==", "!="]), self.ex(t2, env, d - 1), self.ex(t2, env, d - 1), t2)
    def eq_t(self):
        c = self.r.random()
        if c < .3: return BT
        if c < .6: return AT(self.int_t(), self.r.randint(1, 3))
        return TT(*[self.r.choice([BT, self.int_t()]) for _ in range(self.r.randint(2, 3))])
    def g_logic(self, t, env, d):
        op = self.r.choice(["&&", "||", "^^", "!", "==", "!="])
        if op == "!": return un("!", self.ex(BT, env, d - 1), BT)
        return bi(op, self.ex(BT, env, d - 1), self.ex(BT, env, d - 1), BT)
    def g_arith(self, t, env, d):
        w = t[1][1]
        ops = ["+.", "-.", "*.", "&", "|", "^", "~", "<<", ">>", ">>>", self.r.choice(["<<.", ">>."])]
        if w >= 2: ops += ["+", "-"] * 3 + ["*"] * 2
        if t[0] == "s": ops += ["-u"] * 2
        op = self.r.choice(ops)
        if op == "*." and w > 14: op = "+."
        if op == "~": return un("~", self.ex(t, env, d - 1), t)
        if op == "-u": return un("-", self.ex(t, env, d - 1), t)
        if op in ("+", "-"):
            t2 = [t[0], ["#", w - 1]]
            return bi(op, self.ex(t2, env, d - 1), self.ex(t2, env, d - 1), t2)
        if op == "*":
            a = self.r.randint(1, w - 1)
            ta, tb = [t[0], ["#", a]], [t[0], ["#", w - a]]
            return bi(op, self.ex(ta, env, d - 1), self.ex(tb, env, d - 1), ta)
        if op in ("<<", ">>", ">>>", "<<.", ">>."):
            rhs = self.lit(t) if self.r.random() < 0.3 else self.ex(t, env, d - 1)
            if self.r.random() < 0.5:
                rhs = lit(self.r.randint(0, min(w + 1, 2 ** (w - (t[0] == "s")) - 1)), t)
            return bi(op, self.ex(t, env, d - 1), rhs, t)
        return bi(op, self.ex(t, env, d - 1), self.ex(t, env, d - 1), t)
    def g_call(self, t, env, d):
        f = self.r.choice([f for f in self.fns if f[2] == t])
        args = [self.ex(x, env, d - 1) for x in f[1]]
        u = self.units[f[0]]
        if self.r.random() < self.prof["named"]:
            o = list(range(len(args)))
            self.r.shuffle(o)
            return call(f[0], *[args[i] for i in o], an=[u["params"][i]["n"] for i in o])
        c = call(f[0], *args)
        if len(args) == 2 and self.r.random() < 0.15: c["infix"] = 1
        return c
    def g_mcall(self, t, env, d):
        m = self.r.choice([m for m in self.meths if m["rt"] == t and m["kind"] == "fn"])
        return self.mk_mcall(m, env, d)
    def recv(self, t, env, d):
        if t[0] == "tv" or has_tv(t):
            ps_ = self.paths(env, t)
            return self.r.choice(ps_) if ps_ else None
        return self.ex(t, env, d - 1)
    def mk_mcall(self, m, env, d, clk=None):
        e = self.recv(m["ty"], env, d)
        if e is None: return self.leaf(m["rt"], env)
        args = [var(clk) if q["t"][0] == "ck" else self.ex(q["t"], env, d - 1) for q in m["ps"]]
        an = None
        if args and self.r.random() < self.prof["named"]:
            o = list(range(len(args)))
            self.r.shuffle(o)
            args, an = [args[i] for i in o], [m["ps"][i]["n"] for i in o]
        x = mcall(e, m["ty"], m["m"], *args, an=an)
        if m["kind"] != "fn":
            x["k"], x["id"] = "minst", self.fresh("n")
            if m["kind"] == "pipeline": x["d"] = ["#", m["d"]]
        if m.get("ta"): x["ta"], x["tf"] = m["ta"], m["tf"]
        return x

    def g_index(self, t, env, d):
        k = self.r.randint(2, 5)
        at = AT(t, k)
        if self.w(t) * k > 64: return self.leaf(t, env)
        it = UT((k - 1).bit_length())
        cand = [n for n, et in env if et[0] == "a" and et[1] == t and not has_tv(et) and et[2][1] > 1]
        if cand and self.r.random() < 0.7:
            n = self.r.choice(cand)
            at = dict(env)[n]
            m = at[2][1]
            if self.r.random() < .4:         # an element of a part of the array
                a = self.r.randint(0, m - 1)
                b = self.r.randint(a + 1, m)
                e = rng(var(n), a if a or self.r.random() < .5 else None, b if b < m or self.r.random() < .5 else None)
                if b - a == 1: return idx(e, lit(0, None))
                return idx(e, self.ex(UT((b - a - 1).bit_length()), env, d - 1))
            it = UT((m - 1).bit_length())
            return idx(var(n), self.ex(it, env, d - 1))
        nm = self.fresh("a")
        return blk([let(nm, self.build(at, env, d - 1), at)], idx(var(nm), self.ex(it, env, d - 1)))
    def g_range(self, t, env, d):
        k = t[2][1]
        a, b = self.r.randint(0, 2), self.r.randint(0, 2)
        at = AT(t[1], k + a + b)
        nm = self.fresh("a")
        cand = [n for n, et in env if et[0] == "a" and et[1] == t[1] and et[2][1] >= k]
        if cand and self.r.random() < .7:
            nm = self.r.choice(cand)
            m = dict(env)[nm][2][1]
            a = self.r.randint(0, m - k)
            return rng(var(nm), a if a or self.r.random() < .5 else None, a + k if a + k < m or self.r.random() < .5 else None)
        return blk([let(nm, self.build(at, env, d - 1), at)],
                   rng(var(nm), a if a or self.r.random() < .5 else None, a + k if b or self.r.random() < .5 else None))

    # patterns --------------------------------------------------------
    def pattern(self, t, binds, d=2, refut=True):
        r = self.r.random()
        k = t[0]
        if d <= 0 or r < 0.2: 
            if self.r.random() < 0.4: return PW
            n = self.fresh("m"); binds.append((n, t)); return pn(n)
        if refut and r < 0.27 and d > 0:
            n = self.fresh("m"); binds.append((n, t))
            q = self.pattern(t, binds, d - 1, refut)
            return pat(n, q)
        if k in ("u", "s") and refut:
            return pi(self.lit(t)["v"])
        if k == "b" and refut: return pb(self.r.random() < 0.5)
        if k == "t": return pt(*[self.pattern(x, binds, d - 1, refut) for x in t[1]])
        if k == "a" and t[2][1] > 0: return pa(*[self.pattern(t[1], binds, d - 1, refut) for _ in range(t[2][1])])
        if k == "st":
            fs = self.fields(t)
            if self.r.random() < 0.4:
                o = list(range(len(fs)))
                self.r.shuffle(o)
                return ps(t[1], [[fs[i][0], self.pattern(fs[i][1], binds, d - 1, refut)] for i in o], 1)
            return ps(t[1], [[f, self.pattern(x, binds, d - 1, refut)] for f, x in fs])
        if k == "en":
            vs = self.variants(t)
            if refut or len(vs) == 1:
                i = self.r.randrange(len(vs))
                v, fs = vs[i]
                nm = v if self.enums[t[1]].get("std") else "%s::%s" % (t[1], v)
                q = pe(t[1], i + 1, nm, *[self.pattern(x, binds, d - 1, refut) for _, x in fs])
                if fs and self.r.random() < self.prof["named"]:
                    o = list(range(len(fs)))
                    self.r.shuffle(o)
                    q["nm"] = [[fs[j][0], j] for j in o]
                return q
        n = self.fresh("m"); binds.append((n, t)); return pn(n)

    def g_match(self, t, env, d):
        st = self.r.choice([et for _, et in env if et[0] not in ("ck",) and not has_tv(et)] or [BT]) if self.r.random() < .6 else self.ty(2)
        if self.w(st) > 40: st = self.int_t()
        e = self.ex(st, env, d - 1)
        if self.r.random() < 0.2:
            b = []
            p = self.pattern(st, b)
            return iflet(p, e, self.ex(t, env + b, d - 1), self.ex(t, env, d - 1))
        arms = []
        # sometimes an exhaustive split over the constructors, else a catch-all
        if self.r.random() < 0.4 and st[0] in ("b", "en"):
            alts = []
            if st[0] == "b":
                alts = [(pb(True), []), (pb(False), [])]
            else:
                for i, (v, fs) in enumerate(self.variants(st)):
                    b = []
                    nm = v if self.enums[st[1]].get("std") else "%s::%s" % (st[1], v)
                    alts.append((pe(st[1], i + 1, nm, *[self.pattern(x, b, 1, False) for _, x in fs]), b))
            self.r.shuffle(alts)
            for p, b in alts: arms.append(arm(p, self.ex(t, env + b, d - 1)))
            if self.r.random() < 0.4:
                b = []
                p = self.pattern(st, b)
                a = arm(p, self.ex(t, env + b, d - 1))
                if self.r.random() < 0.5: a["g"] = self.ex(BT, env + b, d - 1)
                arms.insert(self.r.randrange(len(arms) + 1), a)
        else:
            for _ in range(self.r.randint(1, 4)):
                b = []
                p = self.pattern(st, b)
                a = arm(p, self.ex(t, env + b, d - 1))
                if self.r.random() < 0.3: a["g"] = self.ex(BT, env + b, d - 1)
                arms.append(a)
            if self.r.random() < .5: arms.append(arm(PW, self.ex(t, env, d - 1)))
            else:
                n = self.fresh("m")
                arms.append(arm(pn(n), self.ex(t, env + [(n, st)], d - 1)))
        return match(e, *arms)

    # ------------------------------------------------ units
    def mk_fn(self, depth=2):
        n = self.fresh("fn")
        pts = [self.ty(2) for _ in range(self.r.randint(1, 3))]
        pts = [t if self.w(t) <= 40 else self.int_t() for t in pts]
        rt = self.ty(1)
        prm = [param(self.fresh("p"), t) for t in pts]
        env = [(p["n"], p["t"]) for p in prm]
        ss, env = self.lets(env, self.r.randint(0, 2), depth)
        self.units[n] = unit("fn", prm, ss, self.ex(rt, env, depth), rt,
                             attrs=["inline"] if self.r.random() < self.prof["inline"] else None)
        self.fns.append((n, pts, rt))

    def lets(self, env, k, depth):
        ss = []
        for _ in range(k):
            t = self.ty(2)
            if self.w(t) > 40: t = self.int_t()
            if self.r.random() < 0.25 and t[0] in ("t", "st", "a", "en"):
                b = []
                e = self.ex(t, env, depth)
                p = self.pattern(t, b, 2, False)
                ss.append(let(p, e, t))
                env = env + b
            else:
                n = self.fresh()
                ss.append(let(n, self.ex(t, env, depth), t))
                env = env + [(n, t)]
        return ss, env

    # ------------------------------------------------ sequential units
    def const(self, t):
        """A constant expression (no variables)."""
        k = t[0]
        if k in ("u", "s"): return self.lit(t)
        if k == "b": return boo(self.r.random() < 0.5)
        self.inconst = True
        e = self.build(t, [], 0)
        self.inconst = False
        return e

    def seq_stmts(self, env, n, depth, clocks, rsts, decls=True):
        """Registers, instances and lets over clocks [(expr)]; returns statements and environment.
        Statement ids are unique within the unit."""
        ss, fwd = [], []
        p = self.prof
        if decls and self.r.random() < p.get("decl", 0.4):
            for _ in range(self.r.randint(1, 2)):
                nm, t = self.fresh("d"), (self.int_t() if self.r.random() < .7 else BT)
                fwd.append((nm, t))
            ss.append(decl(*[x for x, _ in fwd]))
            self.fwd = True
        todo = list(fwd)
        for i in range(n):
            # names declared ahead may be used as registers' inputs and in lets
            c = self.r.random()
            e2 = env + todo
            if c < 0.5 or (todo and i >= n - len(todo)):
                if todo and self.r.random() < .6 or (todo and i >= n - len(todo)):
                    nm, t = todo.pop(0)
                    ss.append(self.reg_stmt(nm, t, e2, depth, clocks, rsts))
                    env = env + [(nm, t)]
                else:
                    t = self.reg_t()
                    if self.r.random() < 0.2 and t[0] in ("t", "st", "a"):
                        b = []
                        q = self.pattern(t, b, 2, False)
                        ss.append(self.reg_stmt(q, t, e2 + b, depth, clocks, rsts))
                        env = env + b
                    else:
                        nm = self.fresh("r")
                        ss.append(self.reg_stmt(nm, t, e2 + [(nm, t)], depth, clocks, rsts))
                        env = env + [(nm, t)]
            elif c < 0.7 and self.ents:
                nm, pts, rt = self.r.choice(self.ents)
                x = self.fresh("i")
                ss.append(let(x, self.inst_of(nm, e2, depth, clocks, rsts), rt))
                env = env + [(x, rt)]
            elif c < 0.78 and p.get("asserts"):
                ss.append(assert_(self.fresh("as"), self.ex(BT, e2, depth)))
            else:
                s2, env2 = self.lets(e2, 1, depth)
                ss += s2
                env = env + [b for b in env2 if b not in e2]
        for nm, t in todo:
            ss.append(self.reg_stmt(nm, t, env + todo, depth, clocks, rsts))
            env = env + [(nm, t)]
        return ss, env

    def reg_t(self):
        t = self.ty(2)
        return t if 0 < self.w(t) <= 24 else self.int_t()

    def reg_stmt(self, pat_, t, env, depth, clocks, rsts):
        ck = self.r.choice(clocks)
        rst = init = None
        c = self.r.random()
        if c < 0.6 and rsts:
            rc = var(self.r.choice(rsts)) if self.r.random() < .8 else self.ex(BT, env, 1)
            rst = (rc, self.const(t) if self.r.random() < .7 else self.ex(t, [b for b in env], 1))
        if self.r.random() < self.prof.get("initial", .3): init = self.const(t)
        e = self.ex(t, env, depth)
        if rst is None and init is None and self.r.random() < .5:
            pass
        return reg(self.fresh("g"), pat_, var(ck), e, rst, init, t)

    def inst_of(self, nm, env, depth, clocks, rsts):
        u = self.units[nm]
        args = []
        for q in u["params"]:
            if q["t"][0] == "ck": args.append(var(self.r.choice(clocks)))
            elif q.get("rst") and rsts and self.r.random() < .8: args.append(var(self.r.choice(rsts)))
            else: args.append(self.ex(q["t"], env, depth - 1))
        an = None
        if self.r.random() < self.prof["named"]:
            o = list(range(len(args)))
            self.r.shuffle(o)
            args, an = [args[i] for i in o], [u["params"][i]["n"] for i in o]
        return inst(nm, self.fresh("n"), *args, an=an)

    def mk_entity(self, depth=2, nstmt=3, nclk=1, top=False, nin=2, rt=None):
        n = "top" if top else self.fresh("ent")
        prm = [param(self.fresh("clk"), CK) for _ in range(nclk)]
        clocks = [q["n"] for q in prm]
        rsts = []
        if self.r.random() < .8:
            q = param(self.fresh("rst"), BT)
            q["rst"] = 1
            prm.append(q)
            rsts = [q["n"]]
        for _ in range(self.r.randint(1, nin)):
            t = self.ty(2)
            prm.append(param(self.fresh("p"), t if self.w(t) <= 30 else self.int_t()))
        if not top: self.r.shuffle(prm)
        env = [(q["n"], q["t"]) for q in prm if q["t"][0] != "ck"]
        ss, env = self.seq_stmts(env, nstmt, depth, clocks, rsts)
        rt = rt or (self.out_t() if top else self.ty(2))
        if self.w(rt) == 0 or self.w(rt) > 80: rt = self.int_t()
        regs = [b for b in env if b[0][0] in "rid"]
        e = self.build(rt, env, depth) if rt[0] in ("t", "st", "a") else self.ex(rt, env, depth)
        if top:      # make every register visible
            vis = [b for b in regs if self.w(b[1]) > 0]
            rt = TT(*([rt] + [t for _, t in vis])) if vis else rt
            e = tup(*([e] + [var(x) for x, _ in vis])) if vis else e
        self.units[n] = unit("entity", prm, ss, e, rt,
                             attrs=["inline"] if not top and self.r.random() < self.prof["inline"] else None)
        if not top: self.ents.append((n, [q["t"] for q in prm], rt))
        return self.units[n]

    # ------------------------------------------------ pipelines
    def mk_pipe(self, top=False, stalls=0.0, refs=0.4, maxd=5, nest=True, nin=3):
        r = self.r
        name = "top" if top else self.fresh("pipe")
        N = r.randint(1, maxd)
        clk = self.fresh("clk")
        prm = [param(clk, CK)]
        wireb = []                                     # bool wires usable as stall conditions
        for _ in range(r.randint(1, nin)):
            t = self.reg_t()
            prm.append(param(self.fresh("p"), t))
        for _ in range(r.randint(1, 2) if stalls else int(r.random() < .25)):
            q = param(self.fresh("w"), BT if stalls or r.random() < .5 else self.int_t(), wire=True)
            if q["t"] == BT: wireb.append(q["n"])
            q["stall"] = 1
            prm.append(q)
        fwd_only = r.random() < .5
        wires = [(q["n"], q["t"]) for q in prm if q.get("wire")]
        pars = [(q["n"], q["t"]) for q in prm if q["t"][0] != "ck" and not q.get("wire")]
        # pass 1: plain lets per stage
        clean = [[] for _ in range(N + 1)]
        env = list(pars)
        for s in range(N + 1):
            for _ in range(r.choice([0, 1, 1])):
                ss, e2 = self.lets(env + wires, 1, 2)
                clean[s].append((ss, [b for b in e2 if b not in env and b not in wires]))
                env = env + clean[s][-1][1]
        # pass 2
        ss, avail, late = [], {n: (0, t) for n, t in pars}, []
        order = [n for n, _ in pars]
        labels = {s: self.fresh("l") for s in range(N + 1) if r.random() < .5} if refs else {}
        cleanat = {n: (s, t) for s in range(N + 1) for _, bs in clean[s] for n, t in bs}
        pool = [p for p in self.pipes]
        for s in range(N + 1):
            if s in labels: ss.append(label(labels[s]))
            for st, bs in clean[s]:
                ss += st
                for n, t in bs: avail[n] = (s, t); order.append(n)
            here = lambda: [(n, avail[n][1]) for n in order if avail[n][0] <= s] + wires
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                c = r.random()
                if c < refs and N >= 1:
                    o = r.choice([x for x in range(N + 1) if x != s])
                    if o < s: cand = [(n, t) for n, (a, t) in avail.items() if a <= o]
                    else:
                        cand = [(n, t) for n, (a, t) in avail.items() if a < o]
                        cand += [(n, t) for n, (a, t) in cleanat.items() if a < o or (fwd_only and a == o)]
                    if o < s and fwd_only and r.random() < .8: cand = []
                    if o < s and fwd_only: cand = []
                    cand = [x for x in cand if self.w(x[1]) > 0]
                    if not cand: continue
                    n, t = r.choice(cand)
                    w = "%+d" % (o - s)
                    if o in labels and r.random() < .5: w = labels[o]
                    x = self.fresh("q")
                    ss.append(let(x, dict(k="stgref", w=w, st=o, n=n), t))
                    avail[x] = (s, t); order.append(x)
                    self.fwd = True
                elif c < refs + .12 and stalls:
                    x = self.fresh("z")
                    ss.append(let(x, dict(k=r.choice(["ready", "valid"])), BT))
                    avail[x] = (s, BT); order.append(x)
                    self.fwd = True
                elif c < refs + .35 and pool and nest:
                    p, d, pts, rt = r.choice(pool)
                    u = self.units[p]
                    args = [var(clk) if q["t"][0] == "ck" else self.ex(q["t"], here(), 1) for q in u["params"]]
                    x = self.fresh("y")
                    ss.append(let(x, inst(p, self.fresh("n"), *args, d=d), rt))
                    avail[x] = (s + d, rt); order.append(x)
                elif c < refs + .45 and self.ents:
                    nm, pts, rt = r.choice(self.ents)
                    x = self.fresh("i")
                    bs = [n for n, t in here() if t == BT]
                    ss.append(let(x, self.inst_of(nm, here(), 2, [clk], bs), rt))
                    avail[x] = (s, rt); order.append(x)
                elif c < refs + .55:
                    x, t = self.fresh("r"), self.reg_t()
                    ss.append(self.reg_stmt(x, t, here() + [(x, t)], 1, [clk], [n for n, t2 in here() if t2 == BT]))
                    avail[x] = (s, t); order.append(x)
                else:
                    st, e2 = self.lets(here(), 1, 2)
                    ss += st
                    known = here()
                    for b in e2:
                        if b not in known: avail[b[0]] = (s, b[1]); order.append(b[0])
            if s < N:
                if r.random() < stalls:
                    # known quickly: wires and inputs, or a wire OR something from the data
                    base = var(r.choice(wireb)) if wireb else boo(True)
                    cs = [n for n, t in pars if t == BT] + \
                         [n for n, (a, t) in cleanat.items() if t == BT and a <= s]
                    k = r.random()
                    if k < .3: c = base
                    elif k < .5:
                        x = self.fresh("z")
                        ss.append(let(x, dict(k="valid"), BT))
                        c = bi("||", base, var(x) if r.random() < .5 else un("!", var(x), BT), BT)
                        self.fwd = True
                    elif k < .85 and cs: c = bi("||", base, var(r.choice(cs)), BT)
                    else: c = base
                    ss.append(stage(c))
                else:
                    ss.append(stage())
        # merge consecutive plain stage registers into reg*n;
        i = 0
        while i < len(ss):
            j = i
            while j < len(ss) and ss[j]["k"] == "stage" and "c" not in ss[j]: j += 1
            if j - i >= 2 and r.random() < .7:
                ss[i]["rend"] = "    reg*%d;\n" % (j - i)
                for k in range(i + 1, j): ss[k]["rend"] = ""
            i = max(j, i + 1)
        fin = [(n, avail[n][1]) for n in order if avail[n][0] <= N] + wires
        if top:
            vis = [b for b in fin if self.w(b[1]) > 0]
            extra = [self.ex(self.int_t(), fin, 2)]
            rt0 = self.int_t()
            rt = TT(*([rt0] + [t for _, t in vis]))
            e = tup(*([self.ex(rt0, fin, 2)] + [var(n) for n, _ in vis]))
        else:
            rt = self.ty(2)
            if self.w(rt) == 0 or self.w(rt) > 40: rt = self.int_t()
            e = self.ex(rt, fin, 2)
        self.units[name] = unit("pipeline", prm, ss, e, rt, depth=N)
        if not top: self.pipes.append((name, N, [q["t"] for q in prm], rt))
        return self.units[name]

    def out_t(self):
        return TT(*[self.ty(2) for _ in range(self.r.randint(1, 3) + 1)])

    def prog(self, top, **kw):
        p = mark(prog(top, self.units, self.structs, self.enums, self.impls, **kw))
        if self.r.random() < self.prof.get("shadow", .6): shadow.shadow(p, self.r, self.prof.get("trials", 12))
        return p

    # ------------------------------------------------ stimuli
    def port_bits(self, t, fwd=True):
        """Random bits for the inputs among the wires of a port."""
        k = t[0]
        if not has_inv(t, self.P()): return self.val_bits(t) if fwd else ""
        if k == "inv": return self.port_bits(t[1], not fwd)
        ts = t[1] if k == "t" else [t[1]] * t[2][1] if k == "a" else [x for _, x in self.fields(t)]
        return "".join(self.port_bits(x, fwd) for x in ts)
    def val_bits(self, t):
        """Random bits of type t as a string, enum tags kept valid."""
        k = t[0]
        if k in ("u", "s", "b", "ck"):
            w = self.w(t)
            c = self.r.random()
            if c < .1: return "0" * w
            if c < .2: return "1" * w
            if c < .3 and w: return "1" + "0" * (w - 1)
            if c < .4 and w: return "0" + "1" * (w - 1)
            return "".join(self.r.choice("01") for _ in range(w))
        if k == "t": return "".join(self.val_bits(x) for x in t[1])
        if k == "a": return "".join(self.val_bits(t[1]) for _ in range(t[2][1]))
        if k == "st": return "".join(self.val_bits(x) for _, x in self.fields(t))
        if k == "en":
            vs = self.variants(t)
            i = self.r.randrange(len(vs))
            tw = tagw(len(vs))
            s = (format(i, "0%db" % tw) if tw else "") + "".join(self.val_bits(x) for _, x in vs[i][1])
            return s + "".join(self.r.choice("01") for _ in range(self.w(t) - len(s)))
        raise ValueError(t)

    def tx(self, u, n, pulses=None):
        """n steps of random stimulus for unit u: [{set:{param:bits}, tick:[clk params]}]"""
        steps = []
        cks = [p["n"] for p in u["params"] if p["t"][0] == "ck"]
        for i in range(n):
            s = {}
            for p in u["params"]:
                if p["t"][0] == "ck": continue
                if has_inv(p["t"], self.P()):
                    s[p["n"]] = self.port_bits(p["t"])
                    continue
                if p.get("stall"):
                    s[p["n"]] = self.r.choice("1110") if p["t"] == BT else self.val_bits(p["t"])
                elif p.get("rst"):
                    s[p["n"]] = "1" if i < 2 or self.r.random() < 0.12 else "0"
                else:
                    s[p["n"]] = self.val_bits(p["t"])
            if len(cks) > 1:
                tk = [c for c in cks if self.r.random() < 0.6] if i >= 2 else cks
            else:
                tk = cks
            steps.append(dict(set=s, tick=tk))
        return steps
