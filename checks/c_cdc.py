"""C18, C19: clock domain crossings under arbitrary interleavings of the two clocks."""
import json, os, random
from lib import *
from c_sem import rng_of

def schedule(r, n):
    """n sets of clocks that rise together."""
    out = []
    mode = r.choice(["free", "ratio", "same", "burst", "mixed", "mixed"])
    a, b, pa, pb = r.randint(1, 7), r.randint(1, 7), r.random() * 3, r.random() * 3
    while len(out) < n:
        if mode == "mixed" and r.random() < .03: a, b = r.randint(1, 7), r.randint(1, 7)
        if mode == "free": out.append(r.choice([["w"], ["r"], ["w", "r"]]))
        elif mode == "same": out.append(["w", "r"])
        elif mode == "burst": out += [r.choice([["w"], ["r"], ["w", "r"]])] * r.randint(1, 12)
        else:
            if abs(pa - pb) < 1e-9: out.append(["w", "r"]); pa += a; pb += b
            elif pa < pb: out.append(["w"]); pa += a
            else: out.append(["r"]); pb += b
            if mode == "mixed" and r.random() < .2: pb = pa
    return out[:n]

def settle(n):
    return [["w", "r"], ["w"], ["r"]] * n

def opt(d, w): return ("0b1" + format(d[0], "0%db" % w)) if d else "0b0" + "0" * w

class Fifo:
    kind = "fifo"
    def __init__(self, r, design=None):
        self.W = 2 if design else r.choice([1, 2, 2, 3, 4])
        self.d = r.choice([1, 3, 8, 33]) if not design else 4
        self.cap = 2 ** self.W
        C = self.cap
        self.src = """entity top(w: clock, r: clock, rst: bool, d: Option<uint<%d>>, ack: bool) -> (bool, uint<%d>, Option<uint<%d>>) {
    let (fw, fr) = inst std::mem::fifo::<%d, uint<%d>, %d>$(write_clk: w, write_rst: rst, read_clk: r, read_rst: rst);
    set fw.write = d; set fr.ack = ack;
    (fw.full, fr.num_elements, fr.read)
}""" % (self.d, self.W, self.d, self.W, self.d, C)
        self.steps = []
        val = lambda: r.randrange(2 ** min(self.d, 30))
        def go(sched, pw, pr):
            for t in sched: self.steps.append(dict(rst=0, w=[val()] if r.random() < pw else [], ack=int(r.random() < pr), tick=t))
        def reset(n=8):
            self.steps.extend(dict(rst=1, w=[], ack=0, tick=t) for t in settle(n))
        reset()
        if design:
            for o in design: self.steps.append(dict(rst=0, w=o["w"], ack=o["ack"], tick=o["tick"]))
            go(settle(12), 0, 0); go(settle(12), 0, 1)
            return
        for _ in range(r.choice([1, 2])):
            for _ in range(r.randint(2, 5)):
                k = r.randint(5, 30)
                go(schedule(r, k), r.choice([0, .3, .9, 1]), r.choice([0, .3, .9, 1]))
                if r.random() < .4: go(settle(r.choice([2, 12])), 0, 0)
            go(settle(12), 0, 0)
            go(settle(2 * C + 12), 0, 1)
            if r.random() < .4: reset()
    def set_(self, o): return dict(rst_i=o["rst"], d_i=opt(o["w"], self.d), ack_i=o["ack"])
    def out(self, o, b):
        W = self.W
        f, n, rd = b[:1], b[1:1 + W], b[1 + W:]
        o["full"] = int(f) if f in "01" else -1
        o["num"] = int(n, 2) if set(n) <= set("01") else -1
        o["read"] = option(rd)

def option(b):
    if b[0] == "0": return []
    return [int(b[1:], 2)] if set(b) <= set("01") and b[0] == "1" and int(b[1:], 2) < 2**31 else [-1]

class Hand:
    kind = "hand"
    def __init__(self, r):
        self.d = r.choice([1, 4, 9, 20])
        self.src = """entity top(w: clock, r: clock, rst: bool, d: Option<uint<%d>>) -> Option<uint<%d>> {
    unsafe { inst std::cdc::handshake$(from_clk: w, rst, data: d, to_clk: r) }
}""" % (self.d, self.d)
        self.steps = [dict(rst=1, w=[], tick=t) for t in settle(8)]
        for _ in range(r.randint(2, 8)):
            d = [r.randrange(2 ** self.d)]
            t = ["w"]
            for t in schedule(r, 6):      # the value is there for exactly one source edge
                if "w" in t: self.steps.append(dict(rst=0, w=d, tick=t)); break
                self.steps.append(dict(rst=0, w=d, tick=t))
            else: self.steps.append(dict(rst=0, w=d, tick=["w"]))
            a, b = 0, set()
            s = schedule(r, 400) + settle(13)
            for t in s:
                if a >= 12: break
                self.steps.append(dict(rst=0, w=[], tick=t))
                b |= set(t)
                if len(b) == 2: a += 1; b = set()
            if r.random() < .2: self.steps.extend(dict(rst=1, w=[], tick=t) for t in settle(8))
    def set_(self, o): return dict(rst_i=o["rst"], d_i=opt(o["w"], self.d))
    def out(self, o, b): o["out"] = option(b)

class Wide:
    kind = "wide"
    def __init__(self, r):
        self.d = r.choice([1, 2, 6, 12])
        self.init = r.randrange(2 ** self.d)
        self.src = """entity top(w: clock, r: clock, rst: bool, d: uint<%d>) -> uint<%d> {
    inst std::cdc::sync_wide$(source_clk: w, rst, input: d, init: %du%d, dest_clk: r)
}""" % (self.d, self.d, self.init, self.d)
        self.steps = [dict(rst=1, w=0, tick=t) for t in settle(8)]
        v = r.randrange(2 ** self.d)
        for _ in range(r.randint(2, 5)):
            p = r.choice([.02, .1, .5, 1])
            for t in schedule(r, r.randint(10, 60)):
                if r.random() < p: v = r.randrange(2 ** self.d)
                self.steps.append(dict(rst=0, w=v, tick=t))
            if r.random() < .5: self.steps.extend(dict(rst=0, w=v, tick=t) for t in settle(20))
    def set_(self, o): return dict(rst_i=o["rst"], d_i=o["w"])
    def out(self, o, b): o["out"] = int(b, 2) if set(b) <= set("01") else -1

class Flop:
    kind = "flop"
    def __init__(self, r):
        if r.random() < .5:
            self.d, body = 1, "inst std::cdc::sync2_bool(r, d == 1u1)"
            ret = "bool"
        else:
            self.d = r.choice([1, 5, 14]); body = "unsafe { inst std::cdc::sync2(r, d) }"; ret = "uint<%d>" % self.d
        self.src = "entity top(w: clock, r: clock, d: uint<%d>) -> %s { %s }" % (self.d, ret, body)
        self.steps = [dict(w=r.randrange(2 ** self.d), tick=["r"]) for _ in range(r.randint(5, 30))]
    def set_(self, o): return dict(d_i=o["w"])
    def out(self, o, b): o["out"] = int(b, 2) if set(b) <= set("01") else -2

class Count:
    kind = "count"
    def __init__(self, r):
        self.d = r.choice([1, 2, 3, 5, 9])
        self.src = """entity top(w: clock, r: clock, d: uint<%d>) -> uint<%d> {
    unsafe { inst std::cdc::sync_uint_counter$(source_clk: w, dest_clk: r, input: d) }
}""" % (self.d, self.d)
        self.steps = []
        v = r.randrange(2 ** self.d); p = r.choice([.3, .8, 1])
        for t in schedule(r, r.randint(20, 80)):
            self.steps.append(dict(w=v, tick=t))
            if "w" in t and r.random() < p: v = (v + r.choice([1, 1, 1, -1])) % 2 ** self.d
    def set_(self, o): return dict(d_i=o["w"])
    out = Flop.out

def run_runs(ck, cases, batch=300):
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        jobs = [dict(src=c.src, stdlib=True,
                     sims=[dict(top="top", zero=["w_i", "r_i"], meta=1 + ck.seed * 7919 + b + i, watch=["output__"],
                                steps=[dict(set=c.set_(o), tick=[t + "_i" for t in o["tick"]]) for o in c.steps])]) for i, c in enumerate(part)]
        res = ck.jobs(jobs)
        runs = []
        for i, (c, j, r) in enumerate(zip(part, jobs, res)):
            s = (r.get("sims") or [{}])[0]
            if not r["ok"] or r.get("verr") or s.get("err"):
                ck.violation("%s:build" % c.kind, "the crossing cannot be built or run: %s" % str(r.get("diags") or r.get("panic") or r.get("verr") or s.get("err"))[:1000], dict(src=c.src)); continue
            st = []
            for o, row in zip(c.steps, s["out"]):
                o = dict(o, rst=bool(o.get("rst")))
                c.out(o, row[0]); st.append(o)
            runs.append(dict(id=b + i, kind=c.kind, cap=getattr(c, "cap", 0), init=getattr(c, "init", 0), steps=st))
        f = os.path.join(ck.tmp, "cdc%d.json" % b)
        json.dump(runs, open(f, "w"))
        out, st = ck.tlc_ok("SpadeCdc", env=dict(TRACE_FILE=f))
        bad = [json.loads(json.loads(l)[7:]) for l in out.splitlines() if l.startswith('"REJECT ')]
        want = sum(len(x["steps"]) + 1 for x in runs)
        if not bad and st["distinct"] != want: raise ToolError("TLC explored %d states, expected %d" % (st["distinct"], want))
        ck.cov["traces_validated_against_impl"] += len(runs)
        ck.cov["samples"] += want
        for rid, k, s, o in bad:
            c = part[rid - b]
            ck.violation("%s:trace" % c.kind, "step %d is not one of the specification: state %s, observed %s" % (k, s, o),
                         dict(src=c.src, steps=jobs[rid - b]["sims"][0], observed=runs and next(x for x in runs if x["id"] == rid)["steps"][:k]))

def design_traces(ck, module, n, hist, consts):
    """Histories of the design model."""
    cfg = "SPECIFICATION Spec\nCONSTANTS\n%s\n  Hist = %d\nINVARIANTS Emit\nCHECK_DEADLOCK FALSE\n" % (consts, hist)
    out, st = ck.tlc_ok(module, cfgtext=cfg, extra=["-simulate", "num=%d" % n, "-depth", str(hist + 1), "-seed", str(ck.seed)], workers=1)
    return [json.loads(json.loads(l)[6:]) for l in out.splitlines() if l.startswith('"TRACE ')][:n]

def model(ck, module, consts, invs):
    out, st = ck.tlc_ok(module, cfgtext="SPECIFICATION Spec\nCONSTANTS\n%s\n  Hist = 0\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (consts, invs))

def run_fifo(prop, tier):
    ck = Check(prop, tier)
    for W, D in ck.pick([(1, "{0, 1}"), (2, "{0, 1}")], [(1, "{0, 1, 2}"), (2, "{0, 1, 2}"), (3, "{0, 1}")]):
        model(ck, "FifoDesign", "  W = %d\n  Data = %s\n  Gray = TRUE" % (W, D), "IsFifo Lower Fits Live")
    tr = design_traces(ck, "FifoDesign", ck.pick(20, 400), 60, "  W = 2\n  Data = {1, 2, 3, 4, 5, 6}\n  Gray = TRUE")
    n = ck.pick(300, 8000)
    run_runs(ck, [Fifo(rng_of(ck, i, 1801), design=t) for i, t in enumerate(tr)] + [Fifo(rng_of(ck, i, 1802)) for i in range(n)])
    ck.assumptions = ["coinciding edges resolve every sampled bit to its old or new value; no longer metastability is modelled"]
    return ck.finish()

def run_cdc(prop, tier):
    ck = Check(prop, tier)
    n = ck.pick(120, 2500)
    run_runs(ck, [k(rng_of(ck, i, 1900 + j)) for j, k in enumerate((Hand, Wide, Flop, Count)) for i in range(n)])
    ck.assumptions = ["coinciding edges resolve every sampled bit to its old or new value; no longer metastability is modelled"]
    return ck.finish()
