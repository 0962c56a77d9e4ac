"""C05: exact integer arithmetic."""
import random
from lib import *
from sp import *
from gen import Gen
import conform

def bitstr(v, w): return format(v % (1 << w), "0%db" % w) if w else ""

def table_cases(ck):
    """Every operator on every operand pair at small widths (exhaustive)."""
    cases = []
    W = range(1, ck.pick(4, 6) + 1)
    def two(op, ta, tb, rt, e=None):
        prm = [param("a", ta), param("b", tb)]
        u = unit("entity", prm, [], e or bi(op, var("a"), var("b"), ta), rt)
        wa, wb = ta[1][1], tb[1][1]
        steps = [dict(set=dict(a=bitstr(x, wa), b=bitstr(y, wb)), tick=[]) for x in range(2 ** wa) for y in range(2 ** wb)]
        if len(steps) > 1100:
            steps = random.Random(ck.seed).sample(steps, 1100)
        cases.append(dict(prog=mark(prog("top", dict(top=u))), steps=steps, tag="%s %s %s" % (rty(ta), op, rty(tb)), stdlib=False))
    def one(tag, ta, rt, e, stdlib=False):
        u = unit("entity", [param("a", ta)], [], e, rt)
        w = ta[1][1]
        steps = [dict(set=dict(a=bitstr(x, w)), tick=[]) for x in range(2 ** w)]
        cases.append(dict(prog=mark(prog("top", dict(top=u))), steps=steps, tag=tag, stdlib=stdlib))
    for T in (UT, ST):
        for w in W:
            t = T(w)
            for op in ("+", "-"): two(op, t, t, T(w + 1))
            for op in ("+.", "-.", "*.", "&", "|", "^", "<<", ">>", ">>>", "<<.", ">>."): two(op, t, t, t)
            for op in ("==", "!=", "<", ">", "<=", ">="): two(op, t, t, BT)
            for w2 in W:
                if w + w2 <= 8: two("*", t, T(w2), T(w + w2))
                cc = std("concat", [var("a"), var("b")], [t, T(w2)], T(w + w2), form="concat($1, $2)")
                if w + w2 <= 6:
                    two("concat", t, T(w2), T(w + w2), cc)
                    cases[-1]["stdlib"] = True
            one("~", t, t, un("~", var("a"), t))
            if T is ST:
                one("-", t, t, un("-", var("a"), t))
                one("-.", t, t, un("-.", var("a"), t))
            for w2 in range(1, w + 1):
                one("trunc", t, T(w2), std("trunc", [var("a")], [t], T(w2), form="trunc($1)"), True)
                one("ext", T(w2), t, std("zext", [var("a")], [T(w2)], t, form=("zext" if T is UT else "sext") + "($1)"), True)
            for k in range(0, w):
                if 2 ** k < 2 ** w - (2 ** (w - 1) if T is ST else 0):
                    for op in ("/", "%"):
                        one("%s%s%d" % (rty(t), op, 2 ** k), t, t, bi(op, var("a"), lit(2 ** k, t), t))
            # operators applied to constants and to expressions that are not variables
            for v in range(2 ** min(w, 3)):
                x = v if T is UT else v - 2 ** (min(w, 3) - 1)
                one("+c", t, T(w + 1), bi("+", var("a"), lit(x, t), t))
                one("c-", t, T(w + 1), bi("-", lit(x, t), var("a"), t))
                one("*c", t, T(2 * w), bi("*", lit(x, t), var("a"), t))
                one("<c", t, BT, bi("<", var("a"), lit(x, t), t))
    return cases

def literal_cases(ck):
    """Literals in every base, with and without suffix and underscores."""
    r = random.Random(ck.seed * 7 + 1)
    cases = []
    for n in range(ck.pick(8, 60)):
        ss, es, ts = [], [], []
        for i in range(12):
            w = r.choice([1, 2, 3, 5, 8, 12, 16, 20, 24, 29, 30])
            sg = r.random() < 0.5
            t = (ST if sg else UT)(w)
            lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)
            v = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
            b = r.choice(["d", "x", "b"])
            m = abs(v)
            s = {"d": "%d", "x": "0x%x", "b": "0b%s"}[b] % (bin(m)[2:] if b == "b" else m)
            if b == "x" and r.random() < .5: s = "0x" + s[2:].upper()
            if len(s) > 4 and r.random() < .5: s = s[:-2] + "_" + s[-2:]
            sfx = r.random() < .5
            if sfx: s += "%s%d" % ("i" if sg else "u", w)
            if v < 0: s = "-" + s
            ss.append(let("v%d" % i, dict(lit(v, t), fmt=s), t if not sfx or r.random() < .5 else None))
            ts.append(t)
        u = unit("entity", [], ss, tup(*[var("v%d" % i) for i in range(12)]), TT(*ts))
        cases.append(dict(prog=prog("top", dict(top=u)), steps=[dict(set={}, tick=[])], tag="literal", stdlib=False))
    return cases

def random_cases(ck, n, seed0=0, **prof):
    cases = []
    for s in range(n):
        g = Gen(random.Random(ck.seed * 1000003 + seed0 + s), **dict(dict(depth=4, arith=9, conv=3, agg=1, match=.4, cond=.7, enums=0, calls=1, maxw=8 if s % 2 else 14), **prof))
        if s % 3 == 0: g.mk_fn()
        prm = [param("x%d" % i, g.int_t(8)) for i in range(4)]
        env = [(p["n"], p["t"]) for p in prm]
        ss, env = g.lets(env, 3, 3)
        ts = []
        for _ in range(3):
            t = g.int_t()
            if g.r.random() < .5: t = [t[0], ["#", g.r.choice([9, 10, 12, 16, 20])]]
            ts.append(t)
        rt = TT(*ts)
        g.units["top"] = unit("entity", prm, ss, tup(*[g.ex(t, env, 4) for t in ts]), rt)
        cases.append(dict(prog=g.prog("top"), steps=g.tx(g.units["top"], 16), tag="random"))
    return cases

# ---- operands wider than TLC's integers: bit vector specification ---------------------------
def wide_jobs(ck):
    r = random.Random(ck.seed * 31 + 5)
    jobs, meta = [], []
    def add(op, ta, tb, rt, src_e, n):
        def ty(t): return "bool" if t == "b" else "%s<%d>" % ("uint" if t[0] == "u" else "int", t[1])
        two = tb is not None
        src = "entity top(a: %s%s) -> %s {\n    %s\n}\n" % (ty(ta), ", b: %s" % ty(tb) if two else "", ty(rt), src_e)
        steps = []
        def val(w, amt=None):
            c = r.random()
            if amt is not None and c < .8: return format(r.randint(0, min(amt + 2, 2 ** w - 1)), "0%db" % w)
            if c < .12: return "0" * w
            if c < .24: return "1" * w
            if c < .34: return "1" + "0" * (w - 1)
            if c < .44: return "0" + "1" * (w - 1)
            if c < .54: return "0" * (w - 1) + "1"
            return "".join(r.choice("01") for _ in range(w))
        for i in range(n):
            a = val(ta[1])
            b = val(tb[1], ta[1] if op in ("<<", ">>", ">>>") else None) if two else None
            if two and tb == ta and r.random() < .2: b = a
            s = {"a_i": "0b" + a}
            if two: s["b_i"] = "0b" + b
            steps.append((s, a, b))
        jobs.append(dict(src=src, stdlib=True, sims=[dict(top="top", steps=[dict(set=s) for s, _, _ in steps], watch=["output__"])]))
        meta.append((op, ta, tb, rt, src, steps))
    widths = [31, 32, 33, 63, 64, 65, 100] + ([127, 128, 129, 200] if ck.thorough else [128])
    n = ck.pick(6, 30)
    for k in "us":
        for w in widths:
            t = (k, w)
            for op in ("+", "-"): add(op, t, t, (k, w + 1), "a %s b" % op, n)
            for op in ("+.", "-.", "&", "|", "^", "<<", ">>", ">>>"): add(op, t, t, t, "a %s b" % op, n)
            for op in ("==", "!=", "<", ">", "<=", ">="): add(op, t, t, "b", "a %s b" % op, n)
            w2 = r.choice([1, 5, 17, 33, 64])
            add("*", t, (k, w2), (k, w + w2), "a * b", max(3, n // 2))
            add("concat", t, (k, w2), (k, w + w2), "concat(a, b)", n)
            add("~", t, None, t, "~a", n)
            if k == "s": add("-u", t, None, t, "-a", n)
            for w2 in (1, 8, 31, 32, 33, w - 1):
                if w2 < w:
                    add("trunc", t, None, (k, w2), "trunc(a)", 4)
                    add("ext", (k, w2), None, (k, w), ("zext" if k == "u" else "sext") + "(a)", 4)
            e = r.randint(1, min(w - 2, 120))
            add("/", t, None, t, "a / %d%s%d" % (2 ** e, "u" if k == "u" else "i", w), n)
            meta[-1] = meta[-1][:2] + (e,) + meta[-1][3:]
            add("%", t, None, t, "a %% %d%s%d" % (2 ** e, "u" if k == "u" else "i", w), n)
            meta[-1] = meta[-1][:2] + (e,) + meta[-1][3:]
            # wide literals
            lo, hi = (0, 2 ** w - 1) if k == "u" else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            for v in (lo, hi, r.randint(lo, hi), hi // 3):
                add("lit", t, None, t, "%d%s%d ^ (a ^ a)" % (v, "u" if k == "u" else "i", w), 1)
                digs = []
                m = v % (1 << w)
                meta[-1] = meta[-1][:2] + (format(m, "0%db" % w),) + meta[-1][3:]
    return jobs, meta

def wide(ck):
    jobs, meta = wide_jobs(ck)
    res = ck.jobs(jobs)
    recs = []
    for j, m, r in zip(jobs, meta, res):
        op, ta, tb, rt, src, steps = m
        if not r["ok"] or r.get("verr") or r["sims"][0].get("err"):
            ck.violation("wide-compile", "wide operator %s not compiled or not executable: %s" % (op, r.get("panic") or r.get("diags") or r), dict(src=src))
            continue
        for (s, a, b), o in zip(steps, r["sims"][0]["out"]):
            d = dict(op=op, k=ta[0], rw=1 if rt == "b" else rt[1], a=bits(a), o=bits(o[0]), e=0, b=[])
            if op in ("/", "%"): d["e"] = tb
            elif op == "lit": d["b"] = bits(tb)
            elif b is not None: d["b"] = bits(b)
            recs.append((d, src))
    f = os.path.join(ck.tmp, "wide.json")
    json.dump([d for d, _ in recs], open(f, "w"))
    out, st = ck.tlc_ok("WideTrace", env=dict(TRACE_FILE=f))
    for l in out.splitlines():
        if l.startswith('"REJECT '):
            i = json.loads(json.loads(l)[7:])
            d, src = recs[i[0] - 1]
            ck.violation("wide:" + d["op"], "operator %s on wide operands: expected %s, observed %s" % (d["op"], i[1], d["o"]), dict(src=src, rec=d))
    ck.cov["traces_validated_against_impl"] += len(recs)
    ck.cov["samples"] += len(recs)

def run(prop, tier):
    ck = Check(prop, tier)
    conform.run_cases(ck, table_cases(ck))
    conform.run_cases(ck, literal_cases(ck))
    conform.run_cases(ck, random_cases(ck, ck.pick(150, 4000)))
    wide(ck)
    ck.assumptions = ["Verilog is executed by the built-in IEEE 1364/1800 subset simulator of the harness",
                      "operator tables are exhaustive up to %d bits, wider operands are sampled" % ck.pick(4, 6)]
    return ck.finish()
