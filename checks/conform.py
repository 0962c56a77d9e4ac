"""Trace validation: run programs on the real compiler and the Verilog simulator, then let TLC
decide whether each recorded execution is a behaviour of SpadeSem."""
import json, os
from lib import *
import sp

def port_in(n): return n + "_i"

def sim_of(case):
    """The simulation job of a case: dict(prog, steps, [top])."""
    p = case["prog"]
    u = p["units"][p["top"]]
    P = p
    steps = []
    wd = {q["n"]: sp.fbw(q["t"], P)[0] for q in u["params"]}
    for s in case["steps"]:
        steps.append(dict(set={port_in(n): "0b" + v for n, v in s["set"].items() if wd[n] > 0},
                          tick=[port_in(c) for c in s["tick"]]))
    watch, outs = [], []
    if "rt" in u and sp.width(u["rt"], P) > 0:
        watch.append("output__"); outs.append("output")
    for q in u["params"]:
        if sp.fbw(q["t"], P)[1] > 0:
            watch.append(q["n"] + "_o"); outs.append(q["n"])
    return dict(top=case.get("vtop", p["top"]), zero=[port_in(q["n"]) for q in u["params"] if q["t"][0] == "ck"],
                steps=steps, watch=watch), outs

def run_cases(ck, cases, batch=400, passes=None, module="SpadeTrace", what="execution", tlc_kw=None):
    """cases: [{prog, steps, src?, passes?}] -> number rejected.  Adds violations to ck."""
    nrej = 0
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        jobs, outs = [], []
        for c in part:
            s, o = sim_of(c)
            outs.append(o)
            j = dict(src=c.get("src") or sp.rprog(c["prog"]), stdlib=c.get("stdlib", True), sims=[s])
            if c.get("passes"): j["passes"] = c["passes"]
            jobs.append(j)
        res = ck.jobs(jobs)
        runs, meta = [], {}
        for i, (c, j, r, o) in enumerate(zip(part, jobs, res, outs)):
            if r.get("panic") or not r["ok"]:
                nrej += 1
                ck.violation("compile:" + (r.get("panic") or r.get("diags", ""))[:200],
                             "program that the specification accepts was not compiled: %s" % ((r.get("panic") or "") + r.get("diags", ""))[:1500],
                             dict(src=j["src"], passes=j.get("passes")))
                continue
            sim = r.get("sims", [{}])[0] if not r.get("verr") else dict(err=r["verr"])
            if sim.get("err"):
                nrej += 1
                ck.violation("sim:" + str(sim["err"])[:120], "emitted Verilog cannot be executed: %s" % sim["err"], dict(src=j["src"]))
                continue
            steps = []
            for k, s in enumerate(c["steps"]):
                d = dict(i={n: bits(v) for n, v in s["set"].items()}, tick=s["tick"],
                         o={n: bits(x) for n, x in zip(o, sim["out"][k])})
                if c.get("asserts"): d["as"] = sim["as"][k]
                steps.append(d)
            rid = "%d" % (b + i)
            meta[rid] = (c, j)
            runs.append(dict(id=rid, prog=sp.strip(c["prog"]), steps=steps))
        if not runs: continue
        f = os.path.join(ck.tmp, "trace%d.json" % ck.njob)
        with open(f, "w") as fh: json.dump(runs, fh)
        out, st = ck.tlc_ok(module, env=dict(TRACE_FILE=f), **(tlc_kw or {}))
        os.unlink(f)
        rejected = {}
        for l in out.splitlines():
            if l.startswith('"REJECT ') or l.startswith("REJECT "):
                d = json.loads(json.loads(l)[7:]) if l.startswith('"') else json.loads(l[7:])
                rejected[d[0]] = d
        ck.cov["traces_validated_against_impl"] += len(runs)
        ck.cov["samples"] += sum(len(r["steps"]) for r in runs)
        want = sum(len(r["steps"]) + 1 for r in runs)
        if not rejected and st["distinct"] != want:
            log(out[-3000:])
            raise ToolError("TLC explored %d states, expected %d" % (st["distinct"], want))
        for rid, d in rejected.items():
            c, j = meta[rid]
            nrej += 1
            ck.violation("reject:" + c.get("tag", ""), "%s is not a behaviour of the specification at step %d: expected %s, observed %s"
                         % (what, d[1], json.dumps(d[2]), json.dumps(d[3]) + (", assertions fired %s, expected %s" % (d[4], d[5]) if len(d) > 4 else "")),
                         dict(src=j["src"], passes=j.get("passes"), steps=c["steps"][:d[1]], expected=d[2], observed=d[3]))
    return nrej
