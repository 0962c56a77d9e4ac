"""Shared plumbing of all checks: building the harness, running compile/simulate jobs,
running TLC, evidence, known findings and verdicts."""
import json, os, re, subprocess, sys, time, shutil, threading, random

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPADE_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
BIN = os.path.join(BUILD, "target", "debug", "vharness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(cli=False):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
    t = time.time()
    cmd = ["cargo", "build", "--offline", "--quiet"]
    cmd += ["-p", "vharness"] + (["-p", "spade-lang"] if cli else [])
    r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-4000:])
        raise ToolError("harness build failed")
    return time.time() - t


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, level="model_checking", cli=False):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.t0 = time.time()
        self.tmp = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.tmp, ignore_errors=True)
        os.makedirs(self.tmp)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=0)
        self.assumptions = []
        self.viol = []          # (key, message, data)
        self.known = load_known(prop)
        self.known_hit = {}
        self.replay_dir = os.path.join(ROOT, "replay")
        self.njob = 0
        self.build_s = build(cli)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, q, t):
        return t if self.thorough else q

    # ---- harness -------------------------------------------------------
    def jobs(self, jobs, chunk=None):
        """Run compile/simulate jobs; returns results in order."""
        if not jobs:
            return []
        self.njob += 1
        base = os.path.join(self.tmp, "jobs%d" % self.njob)
        for i, j in enumerate(jobs):
            j["id"] = str(i)
        with open(base + ".in", "w") as f:
            for j in jobs:
                f.write(json.dumps(j) + "\n")
        env = dict(os.environ, VH_TMP=os.path.join(self.tmp, "vh"), RUST_BACKTRACE="0")
        os.makedirs(env["VH_TMP"], exist_ok=True)
        r = subprocess.run([BIN, base + ".in", base + ".out"], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        res = {}
        if os.path.exists(base + ".out"):
            for l in open(base + ".out"):
                try:
                    d = json.loads(l)
                    res[d["id"]] = d
                except ValueError:
                    pass
        missing = [j for j in jobs if j["id"] not in res]
        if missing:
            # the process died (stack overflow, abort): isolate the culprit
            if len(jobs) == 1:
                return [dict(id="0", ok=False, panic="process died: rc %d %s" % (r.returncode, r.stderr[-300:]), diags="")]
            out = []
            order = list(jobs)
            ids = [j["id"] for j in jobs]
            for j, i in zip(order, ids):
                if i in res:
                    out.append(res[i])
                else:
                    out.extend(self.jobs([j]))
            return out
        os.unlink(base + ".in")
        os.unlink(base + ".out")
        return [res[j["id"]] for j in jobs]

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, mem="6g", timeout=800, extra=(), cfgtext=None):
        """Run TLC; returns (stdout, stats)."""
        self.njob += 1
        meta = os.path.join(self.tmp, "tlc%d" % self.njob)
        os.makedirs(meta, exist_ok=True)
        if cfgtext is not None:
            cfg = os.path.join(meta, module + ".cfg")
            open(cfg, "w").write(cfgtext)
        cfg = cfg or os.path.join(SPEC, module + ".cfg")
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss256m", "-Xmx" + mem,
               "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dx=y",
               "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s" % module)
        out = r.stdout
        m = re.search(r"([\d,]+) states generated[^,\n]*, ([\d,]+) distinct states", out)
        st = dict(generated=0, distinct=0, rc=r.returncode)
        for m in re.finditer(r"([\d,]+) states generated[^,\n]*, ([\d,]+) distinct states", out):
            st["generated"] = int(m.group(1).replace(",", ""))
            st["distinct"] = int(m.group(2).replace(",", ""))
        st["depth"] = max([int(x) for x in re.findall(r"depth of the complete state graph search is (\d+)", out)] or [0])
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += max(0, st["generated"])
        shutil.rmtree(meta, ignore_errors=True)
        return out, st

    def tlc_ok(self, module, **kw):
        out, st = self.tlc(module, **kw)
        if st["rc"] != 0:
            log(out[-6000:])
            raise ToolError("TLC failed (rc %s) on %s" % (st["rc"], module))
        return out, st

    # ---- verdicts ------------------------------------------------------
    def violation(self, key, msg, data):
        for k in self.known:
            if re.search(k["match"], key) or re.search(k["match"], msg):
                self.known_hit[k["id"]] = k
                return
        self.viol.append((key, msg, data))

    def finish(self, **extra):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        self.cov.update(extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        p = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if not self.viol:
            log("%s %s: held; %s (%.1fs, build %.1fs)" % (self.prop, self.tier, json.dumps(self.cov), time.time() - self.t0, self.build_s))
            return 0
        os.makedirs(self.replay_dir, exist_ok=True)
        for n, (key, msg, data) in enumerate(self.viol[:5]):
            rp = os.path.join(self.replay_dir, "%s-%d.json" % (self.prop, n))
            with open(rp, "w") as f:
                json.dump(dict(property=self.prop, key=key, message=msg, data=data), f, indent=1, default=str)
            log("---- %s: %s" % (key, msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
        log("%d violations in total" % len(self.viol))
        return 1


def load_known(prop):
    """known-findings.txt lines:
         known: property=<id> id=<name> match=<regex> what=<text>
         fixed: property=<id> <commit> <text>          (suppresses nothing)"""
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) match=(.*?) what=(.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                res.append(dict(id=m.group(2), match=m.group(3), what=m.group(4)))
    return res


def bits(s):
    return [dict(zip("01xz", range(4))).get(c, 2) for c in s]


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, set):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    raise ValueError(v)
