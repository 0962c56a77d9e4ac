"""Renames local variables of a program so that they shadow each other wherever that keeps the
meaning.  The specification keeps the distinct names, so it never has to resolve them."""
import sp

class Clash(Exception): pass

def names_of(p, out):
    if isinstance(p, dict):
        if p.get("k") in ("pn", "pat"): out.append(p["n"])
        for key, v in p.items():
            if key in ("t",): continue
            if isinstance(v, (dict, list)): names_of(v, out)
    elif isinstance(p, list):
        for v in p: names_of(v, out)
    return out

class Res:
    def __init__(self, m): self.m = m
    def s(self, n): return self.m.get(n, n)
    def use(self, n, env):
        if env.get(self.s(n)) != n: raise Clash(n)
    def bind(self, p, env):
        ns = names_of(p, [])
        if len({self.s(n) for n in ns}) != len(ns): raise Clash(ns)
        e = dict(env)
        for n in ns: e[self.s(n)] = n
        return e
    def ex(self, e, env):
        if isinstance(e, list):
            for x in e: self.ex(x, env)
            return
        if not isinstance(e, dict): return
        k = e.get("k")
        if k == "var": self.use(e["n"], env)
        elif k == "stgref": self.use(e["n"], env)
        elif k == "match":
            self.ex(e["e"], env)
            for a in e["arms"]:
                v = self.bind(a["p"], env)
                if "g" in a: self.ex(a["g"], v)
                self.ex(a["e"], v)
        elif k == "iflet":
            self.ex(e["e"], env)
            self.ex(e["a"], self.bind(e["p"], env))
            self.ex(e["b"], env)
        elif k == "blk":
            self.ex(e["e"], self.stmts(e["ss"], env))
        elif k == "lam":
            v = dict(env)
            if "clk" in e: v[e["clk"]] = e["clk"]
            for p in e["ps"]: v = self.bind(p, v)
            if len({self.s(n) for n in names_of(e["ps"], [])}) != len(names_of(e["ps"], [])): raise Clash()
            self.ex(e["e"], v)
        else:
            for key, v in e.items():
                if key in ("t", "ts", "rt", "ta", "n"): continue
                if isinstance(v, (dict, list)): self.ex(v, env)
    def stmts(self, ss, env):
        for s in ss:
            k = s["k"]
            if k == "let":
                self.ex(s["e"], env)
                env = self.bind(s["p"], env)
            elif k == "reg":
                new = self.bind(s["p"], env)
                for key in ("ck", "rst", "init"):
                    if key in s: self.ex(list(s[key].values()) if key == "rst" else s[key], new)
                self.ex(s["e"], new)
                env = new
            elif k == "decl":
                env = dict(env)
                for n in s["ns"]: env[self.s(n)] = n
            else:
                self.ex({a: b for a, b in s.items() if a != "k"}, env)
        return env
    def unit(self, u):
        env = {}
        for q in u["params"]: env[self.s(q["n"])] = q["n"]
        env = self.stmts(u["ss"], env)
        self.ex(u["e"], env)

def fixed_names(u):
    """Names that may not be renamed: declared ahead or used ahead of their declaration."""
    out = set()
    def w(x):
        if isinstance(x, dict):
            if x.get("k") == "decl": out.update(x["ns"])
            if x.get("k") == "stgref" and not str(x["w"]).startswith("-"): out.add(x["n"])
            for v in x.values(): w(v)
        elif isinstance(x, list):
            for v in x: w(v)
    w(u["ss"]); w(u["e"])
    return out

def shadow_unit(u, r, trials, mode="src"):
    fixed = fixed_names(u)
    pars = [q["n"] for q in u["params"]]
    locs = [n for n in names_of(u["ss"], []) + names_of(u["e"], []) if n not in fixed]
    locs = list(dict.fromkeys(locs))
    tgt = [n for n in locs + [q["n"] for q in u["params"] if q["t"][0] != "ck"] if n not in fixed]
    if not locs or len(tgt) < 2: return 0
    m = {}
    try: Res(m).unit(u)
    except Clash: return 0          # something this resolver does not model
    done = 0
    for _ in range(trials):
        a, b = r.choice(locs), r.choice(tgt)
        if a == b or a in m: continue
        m[a] = m.get(b, b)
        try:
            Res(m).unit(u)
            done += 1
        except Clash:
            del m[a]
    def w(x):
        if isinstance(x, dict):
            if x.get("k") in ("var", "pn", "pat", "stgref") and x["n"] in m: x["src"] = m[x["n"]]
            for v in x.values(): w(v)
        elif isinstance(x, list):
            for v in x: w(v)
    w(u["ss"]); w(u["e"])
    return done

def cross(prog, r, p=.5):
    """Gives locals of a unit names that other units use for their own."""
    pool = sorted({q["n"] for u in prog["units"].values() for q in u["params"] if q["n"] != "self"} |
                  {n for u in prog["units"].values() for n in names_of(u["ss"], []) + names_of(u["e"], [])})
    for u in prog["units"].values():
        fixed = fixed_names(u) | {q["n"] for q in u["params"]}
        used, m = set(q["n"] for q in u["params"]), {}
        def walk(x):
            if isinstance(x, dict):
                if x.get("k") in ("var", "pn", "pat", "stgref"): used.add(x.get("src", x["n"]))
                if "clk" in x and isinstance(x["clk"], str): used.add(x["clk"]); fixed.add(x["clk"])
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        walk(u["ss"]); walk(u["e"])
        for n in sorted(used - fixed):
            if r.random() < p:
                t = r.choice(pool)
                if t not in used and t not in fixed: m[n] = t; used.add(t)
        def ren(x):
            if isinstance(x, dict):
                if x.get("k") in ("var", "pn", "pat", "stgref"):
                    s = x.get("src", x["n"])
                    if s in m: x["src"] = m[s]
                for v in x.values(): ren(v)
            elif isinstance(x, list):
                for v in x: ren(v)
        if m: ren(u["ss"]); ren(u["e"])

def shadow(prog, r, trials=12):
    return sum(shadow_unit(u, r, trials) for u in prog["units"].values())
