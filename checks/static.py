"""Verdict conformance: the compiler's accept/reject decisions against SpadeStatic."""
import json, os
from lib import *
import sp

def run_verdicts(ck, cases, batch=1500, stdlib=False, module="SpadeStatic", tlc_kw=None, extra=None):
    """cases: [{src, prog, q, tag}] -> number of wrong verdicts; adds violations to ck."""
    nrej = 0
    for b in range(0, len(cases), batch):
        part = cases[b:b + batch]
        jobs = [dict(src=c.get("src") or sp.rprog(c["prog"]), stdlib=c.get("stdlib", stdlib), verdict=True, **c.get("job", {})) for c in part]
        res = ck.jobs(jobs)
        runs, meta = [], {}
        for i, (c, j, r) in enumerate(zip(part, jobs, res)):
            if r.get("panic"):
                nrej += 1
                ck.violation("panic:" + r["panic"][:160], "the compiler crashed instead of reporting a verdict: %s" % r["panic"][:800], dict(src=j["src"]))
                continue
            if not r["ok"] and not r.get("diags", "").strip():
                nrej += 1
                ck.violation("silent:" + c.get("tag", ""), "the program was rejected without a diagnostic", dict(src=j["src"]))
                continue
            if not r["ok"] and r.get("wrote"):
                nrej += 1
                ck.violation("output:" + c.get("tag", ""), "a rejected program produced output", dict(src=j["src"]))
                continue
            rid = "%d" % (b + i)
            meta[rid] = (c, j, r)
            run = dict(id=rid, prog=sp.strip(c["prog"]), q=sp.strip(c["q"]), verdict="ok" if r["ok"] else "err")
            if extra: run.update(extra(c, r))
            runs.append(run)
        if not runs: continue
        f = os.path.join(ck.tmp, "verdict%d.json" % ck.njob)
        with open(f, "w") as fh: json.dump(runs, fh)
        out, st = ck.tlc_ok(module, env=dict(TRACE_FILE=f), **(tlc_kw or {}))
        os.unlink(f)
        if st["distinct"] != 2 * len(runs):
            log(out[-3000:])
            raise ToolError("TLC explored %d states, expected %d" % (st["distinct"], 2 * len(runs)))
        ck.cov["traces_validated_against_impl"] += len(runs)
        ck.cov["samples"] += len(runs)
        ck.cov["rejected_programs"] = ck.cov.get("rejected_programs", 0) + sum(r["verdict"] == "err" for r in runs)
        for l in out.splitlines():
            if l.startswith('"REJECT '):
                d = json.loads(json.loads(l)[7:])
                c, j, r = meta[d[0]]
                nrej += 1
                ck.violation("verdict:%s:%s" % (c.get("tag", ""), d[2]),
                             ("the hardware of this program computes something else%s%s%s" if d[1] == d[2] else
                              "the specification %s this program, the compiler %s it%s") %
                             (("", "", "") if d[1] == d[2] else ("accepts" if d[1] == "ok" else "rejects", "accepts" if d[2] == "ok" else "rejects",
                              (": " + r["diags"][:800]) if d[2] == "err" else "")), dict(src=j["src"], expected=d[1], observed=d[2]))
    return nrej
