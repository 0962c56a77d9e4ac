"""C24, C26: texts of waveform values and test bench access against SpadeWave.tla."""
import json, os, random
from lib import *
from sp import *
from gen import Gen, has_tv
from c_sem import rng_of

WIDE = [20, 31, 32, 33, 63, 64, 65, 70, 100, 128, 130]

class WGen(Gen):
    def int_t(self, maxw=None):
        if self.r.random() < .12: return self.r.choice([UT, ST])(self.r.choice(WIDE))
        return Gen.int_t(self, maxw)

def val4(g, t, kind):
    """Random bits of type t, some of them undefined or high impedance (kind)."""
    r = g.r
    b = list(g.val_bits(t))
    if kind == "tag":      # any tag
        b = [r.choice("01") for _ in b]
    elif kind in ("x", "z"):
        c = r.random()
        if c < .5:
            b[r.randrange(len(b))] = kind
        elif c < .7:
            i = r.randrange(len(b)); j = r.randint(i, len(b))
            b[i:j] = kind * (j - i)
        elif c < .8: b = [kind] * len(b)
        else: b = [kind if r.random() < .2 else x for x in b]
    return "".join(b)

# ------------------------------------------------------------------ C24
def parts(g, root, t, pre=(), txt="", d=3):
    """[(path for the specification, source text, type)] of the parts of a value."""
    out = [(list(pre), root + txt, t)]
    if d == 0: return out
    if t[0] == "t":
        for i, x in enumerate(t[1]): out += parts(g, root, x, pre + (["t", i + 1],), txt + ".%d" % i, d - 1)
    if t[0] == "st":
        for i, (f, x) in enumerate(g.fields(t)): out += parts(g, root, x, pre + (["f", i + 1],), txt + "." + f, d - 1)
    if t[0] == "a":
        for i in range(t[2][1]): out += parts(g, root, t[1], pre + (["a", i],), txt + "[%d]" % i, d - 1)
    return out

def body(g, env, clk, depth, uniq, regs=True):
    """env: [(source, root, path, delay, type)]; returns statements and the variables
    [(name, root, path, delay, type)]."""
    r = g.r
    ss, rows = [], []
    env = list(env)
    names = list("abcdefgh")
    for _ in range(r.randint(2, 6)):
        s, root, path, dl, t = r.choice(env)
        ps = [q for q in parts(g, s, t) if g.w(q[2]) > 0]
        if not ps: continue
        pp, src, pt_ = r.choice(ps)
        n = g.fresh("v") if uniq or r.random() < .8 else r.choice(names)
        c = r.random()
        ann = ": %s" % rty(pt_) if r.random() < .5 else ""
        if pt_[0] == "t" and c < .35:
            ns = [g.fresh("d") for _ in pt_[1]]
            kw, dd = ("reg(%s)" % clk, dl + 1) if regs and r.random() < .4 else ("let", dl)
            ss.append("%s (%s)%s = %s;" % (kw, ", ".join(ns), ann, src))
            new = [(x, root, path + pp + [["t", i + 1]], dd, y) for i, (x, y) in enumerate(zip(ns, pt_[1]))]
        elif pt_[0] == "st" and c < .35:
            fs = g.fields(pt_)
            ns = [g.fresh("d") for _ in fs]
            kw, dd = ("reg(%s)" % clk, dl + 1) if regs and r.random() < .4 else ("let", dl)
            ss.append("%s %s(%s)%s = %s;" % (kw, pt_[1], ", ".join(ns), ann, src))
            new = [(x, root, path + pp + [["f", i + 1]], dd, y) for i, (x, (_, y)) in enumerate(zip(ns, fs))]
        elif regs and c < .6:
            n = g.fresh("r")
            ss.append("reg(%s) %s%s = %s;" % (clk, n, ann, src))
            new = [(n, root, path + pp, dl + 1, pt_)]
        else:
            ss.append("let %s%s = %s;" % (n, ann, src))
            new = [(n, root, path + pp, dl, pt_)]
        new = [x for x in new if g.w(x[4]) > 0]
        rows += new
        hid = {x[0] for x in new}
        env = [x for x in env if x[0] not in hid] + new
    return ss, rows, env

def wave_prog(g):
    """Source, the parameters of top and the variables
    [(instance path, names it may have, root, path, delay, type, required)]."""
    r = g.r
    src = []
    subs = []       # (name, kind, generic?, param type or None, body rows, return (path, delay, type))
    rows = []
    top_params = []
    for i in range(r.randint(2, 4)):
        for _ in range(30):
            t = g.ty(3)
            if 0 < g.w(t) <= 260: break
        else: t = BT
        top_params.append(("p%d" % i, t))
    defs = {}
    def define(depth):
        """A new sub unit: (name, kind, generic, parameter type, body builder)."""
        name = g.fresh("sub")
        gen = r.random() < .5
        if gen:
            pt_ = r.choice([TV("T"), TT(TV("T"), BT), AT(TV("T"), 2), TT(AT(TV("T"), 3), TV("T"))])
        else:
            for _ in range(30):
                pt_ = g.ty(2)
                if 0 < g.w(pt_) <= 130: break
            else: pt_ = BT
        kind = r.choice(["entity", "entity", "fn", "pipeline"])
        # body over the formal type: paths that do not look inside T
        ss, brows = [], []
        env = [("q", [], 0, pt_)]
        depth_ = r.randint(1, 3) if kind == "pipeline" else 0
        stage = 0
        stagevars = []
        def formal_parts(s, t, pre=(), d=3):
            out = [(list(pre), s, t)]
            if d == 0: return out
            if t[0] == "t":
                for i, x in enumerate(t[1]): out += formal_parts(s + ".%d" % i, x, pre + (["t", i + 1],), d - 1)
            if t[0] == "st":
                for i, (f, x) in enumerate(g.fields(t)): out += formal_parts(s + "." + f, x, pre + (["f", i + 1],), d - 1)
            if t[0] == "a":
                for i in range(t[2][1]): out += formal_parts(s + "[%d]" % i, t[1], pre + (["a", i],), d - 1)
            return out
        children = []
        for _ in range(r.randint(1, 4)):
            s, path, dl, t = r.choice(env)
            pp, sx, pt2 = r.choice(formal_parts(s, t))
            if not has_tv(pt2) and g.w(pt2) == 0: continue
            n = g.fresh("v")
            if kind == "entity" and r.random() < .4:
                ss.append("reg(clk) %s = %s;" % (n, sx)); row = (n, path + pp, dl + 1, pt2)
            else:
                ss.append("let %s = %s;" % (n, sx)); row = (n, path + pp, dl, pt2)
            env.append(row)
            brows.append(row + (stage,))
            if kind == "pipeline" and stage < depth_ and r.random() < .5:
                ss.append("reg;")
                stage += 1
                env = [(a, b, c + 1, d) for a, b, c, d in env]
                for a, b, c, d in env: stagevars.append(("s%d_%s" % (stage, a), b, c, d))
        if depth and kind == "entity" and subs and r.random() < .7:
            ch = r.choice(subs)
            # pass on a value of the parameter's type if there is one
            for s, path, dl, t in env:
                if t == ch["pt"] or ch["pt"] == TV("T"):
                    n = g.fresh("o")
                    ss.append("let %s = %s;" % (n, callof(ch, s)))
                    children.append((ch, path, dl, t))
                    rt_ = ch["ret"]
                    row = (n, path + rt_[0], dl + rt_[1], t if ch["pt"] == TV("T") and rt_[2] == TV("T") else rt_[2])
                    if not (has_tv(rt_[2]) and ch["pt"] != TV("T")) : brows.append(row + (stage,))
                    break
        while kind == "pipeline" and stage < depth_:
            ss.append("reg;")
            stage += 1
            env = [(a, b, c + 1, d) for a, b, c, d in env]
            for a, b, c, d in env: stagevars.append(("s%d_%s" % (stage, a), b, c, d))
        ret = r.choice(env)
        inl = r.random() < .1
        hd = {"fn": "fn %s%s(%sq: %s) -> %s", "entity": "entity %s%s(%sq: %s) -> %s", "pipeline": "pipeline(%d) %%s%%s(%%sq: %%s) -> %%s" % depth_}[kind]
        defs[name] = "%s%s {\n  %s\n  %s\n}\n" % ("#[inline]\n" if inl else "",
            hd % (name, "<T>" if gen else "", "" if kind == "fn" else "clk: clock, ", rty(pt_), rty(ret[3])), "\n  ".join(ss), ret[0])
        d = dict(name=name, kind=kind, pt=pt_, rows=[("q", [], 0, pt_, 0)] + brows, ret=ret[1:], depth=depth_, stage=stagevars, children=children, inl=inl)
        subs.append(d)
    def callof(ch, arg):
        if ch["kind"] == "fn": return "%s(%s)" % (ch["name"], arg)
        return "inst%s %s(clk, %s)" % ("(%d)" % ch["depth"] if ch["kind"] == "pipeline" else "", ch["name"], arg)
    for i in range(r.randint(0, 3)): define(i)
    env = [(n, n, [], 0, t) for n, t in top_params]
    uniq = r.random() < .6
    ss, tr, env = body(g, env, "clk", 2, uniq)
    groups = {}
    for x in [(n, n, [], 0, t) for n, t in top_params] + tr: groups.setdefault(x[0], []).append(x)
    for n, xs in groups.items():
        for k in range(len(xs)):
            rows.append(([], n + ("_n%d" % k if k else ""), xs, True))
    def match_formal(f, t):
        """The type bound to T when t is an instance of f."""
        if f == TV("T"): return t
        if f[0] != t[0]: return None
        if f[0] == "t":
            if len(f[1]) != len(t[1]): return None
            b = [match_formal(a, x) for a, x in zip(f[1], t[1])]
            b = [x for x in b if x is not None and x != 0]
            if any(has_tv(a) for a in f[1]):
                want = [match_formal(a, x) for a, x in zip(f[1], t[1])]
                if any(w is None for w in want): return None
                ws = [w for w in want if w != 0]
                return ws[0] if all(w == ws[0] for w in ws) else None
            return 0 if f == t else None
        if f[0] == "a":
            return match_formal(f[1], t[1]) if f[2] == t[2] else None
        return 0 if f == t else None
    def instances(ch, inst, root, path, dl, T, out):
        """Rows of the variables of an instance (several names of it in inst)."""
        sb = lambda t: sub(t, {"T": T}) if T else t
        for n, pp, d, t, st in ch["rows"]:
            out.append((n, (n, root, path + pp, dl + d, sb(t)), st == 0 and not ch["inl"]))
        for n, pp, d, t in ch["stage"]: out.append((n, (n, root, path + pp, dl + d, sb(t)), False))
    made = {}
    for ch in subs:
        if r.random() < .15: continue
        for _ in range(r.randint(1, 2)):
            cand = []
            for s, root, path, dl, t in env:
                for pp, sx, pt_ in parts(g, s, t):
                    if g.w(pt_) == 0 or g.w(pt_) > 130: continue
                    m = match_formal(ch["pt"], pt_)
                    if m is not None: cand.append((sx, root, path + pp, dl, m))
            if not cand: continue
            sx, root, path, dl, m = r.choice(cand)
            n = g.fresh("o")
            ss.append("let %s = %s;" % (n, callof(ch, sx)))
            T = m if m else None
            rp, rd, rtp = ch["ret"]
            rows.append(([], n, [(n, root, path + rp, dl + rd, sub(rtp, {"T": T}) if T else rtp)], True))
            if ch["inl"]: continue
            out = []
            instances(ch, None, root, path, dl, T, out)
            made.setdefault(("", ch["name"]), []).append(out)
            for c2, p2, d2, t2 in ch["children"]:
                if c2["inl"]: continue
                t3 = sub(t2, {"T": T}) if T else t2
                T2 = match_formal(c2["pt"], t3)
                if T2 is None: continue
                o2 = []
                instances(c2, None, root, path + p2, dl + d2, T2 or None, o2)
                made.setdefault((ch["name"], c2["name"]), []).append((len(made[("", ch["name"])]) - 1, o2))
    for (par, name), l in made.items():
        if par == "":
            for k in range(len(l)):
                for j, (n, x, req) in enumerate(l[k]):
                    rows.append((["%s_%d" % (name, k)], n, [o[j][1] for o in l], req))
        else:
            for k, o in l:
                alts = [q for _, q in l]
                for j, (n, x, req) in enumerate(o):
                    rows.append((["%s_%d" % (par, k), "%s_0" % name], n, [q[j][1] for q in alts], req))
    rows = [x for x in rows if all(g.w(y[4]) > 0 for y in x[2])]
    p = rprog(prog("", {}, g.structs, g.enums))
    text = p + "\n" + "".join(defs.values()) + "entity top(clk: clock, %s) -> bool {\n  %s\n  true\n}\n" % (
        ", ".join("%s: %s" % (n, rty(t)) for n, t in top_params), "\n  ".join(ss))
    return text, top_params, rows

def wave_case(ck, i):
    r = rng_of(ck, i, 24)
    g = WGen(r, depth=2, maxw=8, enums=2, arrays=1)
    g.decl_types(r.randint(1, 2), r.randint(1, 3))
    src, params, rows = wave_prog(g)
    nst = 4
    ins = [{n: val4(g, t, r.choice(["", "", "", "tag", "x"])) for n, t in params} for _ in range(nst)]
    watch = [".".join(inst + [n]) for inst, n, _, _ in rows]
    extra = []
    for inst, n, alts, req in rows:
        q = []
        if len(alts) == 1 and req:
            t = alts[0][4]
            w = g.w(t)
            for _ in range(ck.pick(5, 8)):
                b = val4(g, t, r.choice(["", "tag", "x", "z", "x", "z"]))
                if r.random() < .25: b = b[r.randrange(len(b)):]
                elif r.random() < .05: b = b + "1"
                q.append(b)
        extra.append(q)
    return dict(src=src, params=params, rows=rows, ins=ins, watch=watch, extra=extra, g=g)

TR = str.maketrans("01xzXZ", "012323")
def b4(s): return [int(c) for c in s.translate(TR)]

def wave_check(ck, n, batch=200):
    for base in range(0, n, batch):
        cs = [wave_case(ck, i) for i in range(base, min(n, base + batch))]
        jobs = []
        for c in cs:
            sim = dict(top="top", zero=["clk_i"], watch=c["watch"], opt=1,
                       steps=[dict(set={k + "_i": "0b" + v for k, v in s.items()}, tick=["clk_i"]) for s in c["ins"]])
            jobs.append(dict(src=c["src"], stdlib=True, sims=[sim]))
        res = ck.jobs(jobs)
        jobs2, keep = [], []
        for c, j, r in zip(cs, jobs, res):
            if r.get("panic") or not r["ok"]:
                ck.violation("compile", "program that the specification accepts was not compiled: %s" % ((r.get("panic") or "") + r.get("diags", ""))[:1500], dict(src=c["src"]))
                continue
            sim = r.get("sims", [{}])[0] if not r.get("verr") else dict(err=r["verr"])
            if sim.get("err"):
                ck.violation("sim:" + str(sim["err"])[:80], "emitted Verilog cannot be executed: %s" % sim["err"], dict(src=c["src"]))
                continue
            c["out"] = sim["out"]
            qs = []
            for k, (inst, n_, alts, req) in enumerate(c["rows"]):
                seen = []
                for s in range(len(c["ins"])):
                    v = sim["out"][s][k]
                    if v is not None: seen.append(v)
                c.setdefault("seen", []).append(seen)
                qs.append(dict(path=inst + [n_], bits=seen + c["extra"][k]))
            jobs2.append(dict(src=c["src"], stdlib=True, wave=dict(top="top", q=qs)))
            keep.append(c)
        res = ck.jobs(jobs2)
        recs, meta, progs = [], [], []
        for c, j, r in zip(keep, jobs2, res):
            progs.append(strip(prog("", {}, c["g"].structs, c["g"].enums)))
            for k, ((inst, n_, alts, req), q, a) in enumerate(zip(c["rows"], j["wave"]["q"], r["wave"] if isinstance(r.get("wave"), list) else [r.get("wave", {})] * len(c["rows"]))):
                name = "/".join(q["path"])
                if "texts" not in a:
                    if req or "panic" in a:
                        ck.violation("wave:lookup", "no type for signal %s: %s" % (name, json.dumps(a)), dict(src=c["src"], path=q["path"]))
                    continue
                ns = len(c["seen"][k])
                if ns == 0 and req:
                    ck.violation("wave:signal", "no signal %s in the Verilog" % name, dict(src=c["src"]))
                for s, (b, t) in enumerate(zip(q["bits"], a["texts"])):
                    if not isinstance(t, str):
                        ck.violation("wave:panic", "signal %s, bits %s: %s" % (name, b, json.dumps(t)), dict(src=c["src"], path=q["path"], bits=b))
                        continue
                    rec = dict(k="wave", id=len(recs), p=len(progs), got=t)
                    if s < ns:
                        rec["alts"] = []
                        for _, root, path, dl, ty in alts:
                            rt_ = dict(c["params"])[root]
                            rec["alts"].append(dict(t=rt_, path=path, b=b4(c["ins"][s - dl][root]) if s >= dl else []))
                        rec["s"] = b4(b)
                    else:
                        rec["alts"] = [dict(t=alts[0][4], path=[], b=b4(b))]
                    recs.append(rec)
                    meta.append((c["src"], name, b, s < ns, j))
        judge(ck, recs, progs, meta, "wave")

def judge(ck, recs, progs, meta, what):
    if not recs: return
    f = os.path.join(ck.tmp, "trace%d.json" % ck.njob)
    with open(f, "w") as fh: json.dump(dict(recs=recs, progs=progs), fh)
    out, st = ck.tlc_ok("WaveTrace", env=dict(TRACE_FILE=f))
    os.unlink(f)
    if st["distinct"] != 2 * len(recs):
        log(out[-3000:])
        raise ToolError("TLC explored %d states, expected %d" % (st["distinct"], 2 * len(recs)))
    ck.cov["traces_validated_against_impl"] += len(progs)
    ck.cov["samples"] += len(recs)
    for l in out.splitlines():
        if l.startswith('"REJECT '):
            i, why, want = json.loads(json.loads(l)[7:])
            src, name, b, simd, extra = meta[i]
            r = recs[i]
            ck.violation("%s:%s" % (what, why), "%s of %s: expected %s, observed %s (bits %s)" % (what, name, json.dumps(want), json.dumps(r["got"]), b),
                         dict(src=src, name=name, bits=b, record=r))

def run_wave(prop, tier):
    ck = Check(prop, tier)
    wave_check(ck, ck.pick(160, 2500))
    return ck.finish()

# ------------------------------------------------------------------ C26
def plain(g, d):
    """A type without inverted parts."""
    for _ in range(30):
        t = g.ty(d)
        if g.w(t) and not has_inv(t, g.P()): return t
    return BT

def port_types(g):
    """Declares structs with inverted fields; returns their types."""
    r = g.r
    ps = []
    for _ in range(r.randint(1, 3)):
        n = g.fresh("P")
        fs = []
        for i in range(r.randint(1, 4)):
            c = r.random()
            t = plain(g, 2)
            if c < .4: t = INV(t)
            elif c < .55 and ps: t = r.choice(ps)
            elif c < .62 and g.structs:
                vs = [x for x, d in g.structs.items() if not d["tp"] and not has_inv(["st", x, []], g.P())]
                if vs: t = INV(["st", r.choice(vs), []])
            fs.append(["f%d" % i, t])
        g.structs[n] = dict(tp=[], fs=fs)
        ps.append(["st", n, []])
    return ps

def fields_of(g, t):
    """[(field path, type, inverted)] of the fields of a port."""
    inv = t[0] == "inv"
    if inv: t = t[1]
    out = [([], t, inv)]
    if t[0] == "st":
        for f, x in g.fields(t):
            for p, y, i in fields_of(g, x): out.append(([f] + p, y, i != inv))
    return out

def bench_expr(g, t, d=2):
    """An expression of type t (bad or wide literals aside)."""
    r = g.r
    k = t[0]
    if k in "us":
        w = t[1][1]
        c = r.random()
        if w > 30:
            v = r.choice([r.randrange(2 ** w), r.randrange(2 ** min(w, 40)), 2 ** (w - 1), 2 ** w - 1, 0])
            if k == "s" and v >= 2 ** (w - 1): v -= 2 ** w
            return dict(k="lit", v=v, t=None, txt=str(v)) if d == 2 else dict(k="lit", v=v % 1000, t=None)
        if d and w > 1 and c < .25:
            o = [k, ["#", w - 1]]
            return bi(r.choice("+-"), bench_expr(g, o, d - 1), bench_expr(g, o, 0), None)
        v = r.choice([r.randrange(2 ** w), 0, 2 ** w - 1, 2 ** (w - 1)])
        if k == "s" and v >= 2 ** (w - 1): v -= 2 ** w
        if r.random() < .6: return dict(k="lit", v=v, t=None)
        return lit(v, t)
    if k == "b": return boo(r.random() < .5)
    if k == "t": return tup(*[bench_expr(g, x, 1) for x in t[1]])
    if k == "a": return arr(*[bench_expr(g, t[1], 1) for _ in range(t[2][1])])
    if k == "st": return mk(t[1], *[bench_expr(g, x, 1) for _, x in g.fields(t)])
    if k == "en":
        vs = g.variants(t)
        i = r.randrange(len(vs))
        v, fs = vs[i]
        return enm(t[1], i + 1, v if g.enums[t[1]].get("std") else "%s::%s" % (t[1], v), *[bench_expr(g, x, 1) for _, x in fs])
    raise ValueError(t)

def spoil(g, e, t):
    """A change to an expression that often makes it ill typed."""
    r = g.r
    e = json.loads(json.dumps(e))
    sub_ = [x for x in ([e] + nodes(e))]
    x = r.choice(sub_)
    k = x["k"]
    if k == "lit":
        c = r.random()
        if c < .5: x["v"] = r.choice([1, -1]) * r.choice([2, 4, 8, 16, 32, 64, 128, 256, 2 ** 20])
        elif c < .7: x["t"] = r.choice([UT, ST])(r.choice([1, 2, 3, 4, 5, 8]))
        else: x.clear(); x.update(boo(1))
        if "t" in x and x["t"] is not None:
            w = x["t"][1][1]
            lo, hi = (0, 2 ** w) if x["t"][0] == "u" else (-2 ** (w - 1), 2 ** (w - 1))
            x["v"] = min(max(x["v"], lo), hi - 1)
        x.pop("txt", None)
    elif k == "bool": x.clear(); x.update(k="lit", v=r.choice([0, 1]), t=None)
    elif k in ("tup", "arr", "str", "enm"):
        es = x["es"]
        c = r.random()
        if len(es) > 2 and c < .4: es.pop(r.randrange(len(es)))
        elif len(es) > 1 and c < .7:
            i, j = r.sample(range(len(es)), 2)
            es[i], es[j] = es[j], es[i]
        elif es: es.append(json.loads(json.dumps(r.choice(es))))
    elif k == "bin": x["op"] = "-" if x["op"] == "+" else "+"
    return e

def nodes(e):
    out = []
    for x in e.get("es", []) + [e[k] for k in ("l", "r", "e") if isinstance(e.get(k), dict)]:
        out += [x] + nodes(x)
    return out

def rand_bits(g, t, back, want=None):
    """Bits of one direction of a port."""
    r = g.r
    w = fbw(t, g.P())[1 if back else 0]
    b = [r.choice("01") for _ in range(w)]
    if r.random() < .3 and w:
        kind = r.choice("xzXx")
        for _ in range(r.randint(1, 3)): b[r.randrange(w)] = kind
    return b

def enc(g, e, t):
    """Bits of an expression (to make comparisons match; not used to judge)."""
    def val(e, w):
        if e["k"] == "bin":
            a, b = val(e["l"], w - 1), val(e["r"], w - 1)
            return a + b if e["op"] == "+" else a - b
        return e["v"]
    k = t[0]
    if k in "us":
        w = t[1][1]
        return format(val(e, w) % 2 ** w, "0%db" % w) if w else ""
    if k == "b": return "1" if e["v"] else "0"
    if k == "t": return "".join(enc(g, x, y) for x, y in zip(e["es"], t[1]))
    if k == "a": return "".join(enc(g, x, t[1]) for x in reversed(e["es"]))
    if k == "st": return "".join(enc(g, x, y) for x, (_, y) in zip(e["es"], g.fields(t)))
    vs = g.variants(t)
    tw = tagw(len(vs))
    s = (format(e["v"] - 1, "0%db" % tw) if tw else "") + "".join(enc(g, x, y) for x, (_, y) in zip(e["es"], vs[e["v"] - 1][1]))
    return s + "".join(g.r.choice("01x") for _ in range(g.w(t) - len(s)))

def bench_case(ck, i):
    r = rng_of(ck, i, 26)
    g = WGen(r, depth=2, maxw=8, enums=2, arrays=1)
    g.decl_types(r.randint(1, 2), r.randint(1, 2))
    ports = port_types(g)
    params, fs, args, body_ = [], [], [], []
    for j in range(r.randint(2, 4)):
        c = r.random()
        n = "p%d" % j
        if c < .45: t = r.choice(ports)
        elif c < .6:
            t = INV(plain(g, 1))
        else:
            t = plain(g, 2)
        params.append((n, t))
        if has_inv(t, g.P()) or r.random() < .7:
            fs.append(["o%d" % j, t])
            args.append(n)
    if not fs:
        fs.append(["o0", params[0][1]]); args.append("p0")
    if len(fs) == 1 and r.random() < .5:
        rt_ = fs[0][1]
        ret = args[0]
    else:
        o = list(range(len(fs)))
        r.shuffle(o)
        g.structs["Out"] = dict(tp=[], fs=[fs[k] for k in o])
        rt_ = ["st", "Out", []]
        ret = "Out(%s)" % ", ".join(args[k] for k in o)
    src = rprog(prog("", {}, g.structs, g.enums)) + "\nentity top(clk: clock, %s) -> %s {\n  %s\n}\n" % (
        ", ".join("%s: %s" % (n, rty(t)) for n, t in params), rty(rt_), ret)
    groups, recs = [], []
    for _ in range(r.randint(2, 3)):
        ops = []
        for _ in range(r.randint(5, 9)):
            if ops and r.random() < .1:
                ops.append(dict(r.choice(ops)))
                continue
            o = r.random() < .5
            n, t = ("", rt_) if o else r.choice(params)
            fs_ = [x for x in fields_of(g, t)]
            path, ft, inv = r.choice(fs_)
            op = r.choice(["set", "read", "cmp", "cmp", "val"] if r.random() < .75 else ["arg"] if not o else ["set"])
            good = [x for x in fs_ if not has_inv(x[1], g.P()) and g.w(x[1]) and ((x[2] == o) if op == "set" else (x[2] != o))]
            if op != "arg" and good and r.random() < .8: path, ft, inv = r.choice(good)
            path = list(path)
            if r.random() < .06: path.insert(r.randint(0, len(path)), r.choice(["zz", "f0", "f1", "o0", "clk"]))
            d = dict(op=op, path=["o" if o else "i"] + ([] if o else [n]) + path)
            rec = dict(k="bench", op=op, o=o, arg=n, t=t, path=path, e=dict(k="none"), b=[])
            et = t if op == "arg" else ft
            if op in ("set", "cmp", "arg"):
                if has_inv(et, g.P()): et = BT
                c = r.random()
                if c < .1:
                    et = plain(g, 2)
                e = bench_expr(g, et)
                sp_ = r.random() < .2
                if sp_: e = spoil(g, e, et)
                d["expr"] = e["txt"] if "txt" in e else rx(e)
                if not sp_ and r.random() < .04:
                    d["expr"] += r.choice([" 1", " )", ", 3", " +"])
                    rec["k"] = "none"
                rec["e"] = dict(k="wide", txt=e["txt"], neg=e["v"] < 0, mag=[int(c) for c in format(abs(e["v"]), "b")] if e["v"] else []) if "txt" in e else strip(e)
                if rec["k"] == "none": rec["e"] = dict(k="none")
            if op in ("cmp", "val"):
                b = rand_bits(g, t, not o)
                # the bits of the field as the expression wants them
                if op == "cmp" and r.random() < .6 and not sp_ and et == ft:
                    try:
                        w = enc(g, e, ft)
                        at = [k for k in range(len(b) - len(w) + 1)]
                        off = offset(g, t, path, not o)
                        if off is not None:
                            b[off:off + len(w)] = w
                            if r.random() < .3 and w:
                                k = off + r.randrange(len(w))
                                b[k] = r.choice("01xX")
                    except (KeyError, IndexError): pass
                d["bits"] = "".join(b)
                if "z" in d["bits"] and ("x" in d["bits"] or "X" in d["bits"]): d["bits"] = d["bits"].replace("z", "0")
                rec["b"] = b4(d["bits"])
            if op == "arg": d["arg"] = n
            if r.random() < .02 and not o:
                rec["k"] = "none"
                d = dict(d, op="arg", arg="nope", expr="1") if r.random() < .5 else dict(d, path=["i", "nope"] + path)
                if d["op"] == "arg" and "arg" in d and d["arg"] == n: d["arg"] = "nope"
            d["_"] = rec
            ops.append(d)
        groups.append(ops)
    return dict(src=src, groups=groups, g=g)

def offset(g, t, path, back):
    """First bit of a field (to make comparisons match; not used to judge)."""
    off = 0
    inv = back
    while True:
        if t[0] == "inv": t, inv = t[1], not inv
        if not path: return off
        if t[0] != "st": return None
        for f, x in g.fields(t):
            if f == path[0]: break
            off += fbw(x, g.P())[1 if inv else 0]
        else: return None
        t, path = x, path[1:]

OPERATORS = ["3 * 2", "if true {1} else {2}", "3 & 1", "trunc(5u9)", "match true {true => 1, false => 0}", "!0", "{let x = 3; x}", "3 << 1"]

def bench_check(ck, n, batch=300):
    for base in range(0, n, batch):
        cs = [bench_case(ck, i) for i in range(base, min(n, base + batch))]
        jobs = []
        for c in cs:
            jobs.append(dict(src=c["src"], stdlib=True, bench=dict(top="top", groups=[[{k: v for k, v in o.items() if k != "_"} for o in gr] for gr in c["groups"]])))
        if base == 0:
            cs.append(dict(src="entity top(clk: clock, x: uint<8>) -> uint<8> {x}\n", groups=[], g=None))
            jobs.append(dict(src=cs[-1]["src"], stdlib=True, bench=dict(top="top", groups=[[dict(op="arg", arg="x", expr=e)] for e in OPERATORS])))
        res = ck.jobs(jobs)
        recs, meta, progs = [], [], []
        for c, j, r in zip(cs, jobs, res):
            if r.get("panic") or not r["ok"] or not isinstance(r.get("bench"), list):
                ck.violation("compile", "program that the specification accepts was not compiled: %s" % ((r.get("panic") or "") + r.get("diags", "") + str(r.get("bench")))[:1500], dict(src=c["src"]))
                continue
            if c["g"] is None:
                for e, a in zip(OPERATORS, r["bench"]):
                    if not isinstance(a, list) or "panic" in a[0]:
                        ck.violation("bench:operator:" + e + ":" + str(a)[:80], "the expression `%s` for a uint<8>: %s" % (e, json.dumps(a)), dict(src=c["src"], expr=e))
                continue
            progs.append(strip(prog("", {}, c["g"].structs, c["g"].enums)))
            for gr, a in zip(c["groups"], r["bench"]):
                if not isinstance(a, list):
                    ck.violation("bench:session", "no session: %s" % json.dumps(a), dict(src=c["src"]))
                    continue
                hist = []
                for o, x in zip(gr, a):
                    hist.append({k: v for k, v in o.items() if k != "_"})
                    got = dict(x)
                    if "err" not in got and "panic" not in got: got["ok"] = True
                    for k in ("bits", "exp", "got"):
                        if k in got: got[k] = b4(got[k])
                    recs.append(dict(o["_"], id=len(recs), p=len(progs), got=got))
                    meta.append((c["src"], json.dumps(hist[-1]), o.get("bits", ""), False, list(hist)))
        judge(ck, recs, progs, meta, "bench")

def run_bench(prop, tier):
    ck = Check(prop, tier)
    bench_check(ck, ck.pick(250, 4000))
    return ck.finish()
