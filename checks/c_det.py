"""C21: the output is a function of the sources and options."""
import json, os, random, re, shutil, subprocess, hashlib, types
from concurrent.futures import ThreadPoolExecutor
from lib import *
import sp, c_sem, c_lam, c_gen, c_meth, c_port, c_names, c_type, c_linear, c_mem, c_assert, c_driver
CLI = c_driver.CLI

def canon(t):
    """The text without generated names: numbers of instances, and which of several aliased names stands for a value."""
    t = re.sub(r"^[ \t]*(let|const) .*= Alias\(.*\n", "", t, flags=re.M)
    t = re.sub(r"(?<=\])\[\d+\](?= )|(?<=[^\s\[\(,])\[\d+\](?= )", "[]", t)
    parts = []
    for part in re.split(r"^(?=module |entity )", t, flags=re.M):
        head, _, body = part.partition("\n")
        parts.append(head + "\n" + re.sub(r"#?(?:\\[^\s]+ |[A-Za-z_][A-Za-z_0-9]*)", lambda x: x.group(0) if x.group(0) in KEEP or "::" in x.group(0) else "$", body))
    return "".join(parts)
KEEP = set("""let const reg set assign logic input output inout module endmodule entity uint int bool enum option clock always begin end if else case
    posedge reset initial Instance Alias IndexTuple ConstructTuple ConstructArray Select Match IsEnumVariant EnumMember ConstructEnum Add Sub Mul Eq
    NotEq Lt Gt Le Ge LeftShift RightShift ArithmeticRightShift LogicalAnd LogicalOr LogicalXor LogicalNot BitwiseAnd BitwiseOr BitwiseXor BitwiseNot
    Not USub Truncate SignExtend ZeroExtend Concat IndexArray RangeIndexArray IndexMemory DeclClockedMemory Memory true false src a spade
    BitReverse ReadPort FlipPort ReadMutWire UnsignedLt ReduceAnd ReduceOr ReduceXor Bitreverse localparam signed unsigned display error""".split())
def canon_diags(t):
    """The diagnostics without the place which asked for a generic unit first."""
    return re.sub(r"^ +╰ \S+:\d+ .*(\n|$)", "", t, flags=re.M)
def dig(t): return hashlib.sha1(t.encode()).hexdigest()[:12]
def both(sv, mir, items, diags, ok):
    ex, ca = {}, {}
    for k, v in dict(sv=sv, mir=mir, items=items, diags=diags).items():
        ex[k] = "-" if v is None else dig(v)
        ca[k] = "-" if v is None else dig(canon(v)) if k in ("sv", "mir") else dig(canon_diags(v)) if k == "diags" else dig(v)
    ex["ok"] = ca["ok"] = str(ok)
    return ex, ca

def graph_job(r):
    """Generic units which use each other at types made from their own."""
    nu = r.randint(4, 12)
    us = ["g%d" % i for i in range(nu)]
    graph, src = {}, []
    for i, u in enumerate(us):
        uses = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            if i + 1 < nu:
                v = r.choice(us[i + 1:min(nu, i + 4)])
                how = r.choice(["same", "same", "pair", "bool", "uint<3>", "int<5>"])
                uses.append([v, how])
        graph[u] = uses
        body = []
        for v, how in uses:
            if how == "same": body.append("let _ = %s(a);" % v)
            elif how == "pair": body.append("let _ = %s((a, a));" % v)
            elif how == "bool": body.append("let _ = %s(true);" % v)
            elif how == "uint<3>": body.append("let _ = %s(5u3);" % v)
            else: body.append("let _ = %s(5i5);" % v)
        src.append("fn %s<T>(a: T) -> T { %s a }" % (u, " ".join(body)))
    roots = []
    for i in range(r.randint(2, 8)):
        ps, body = [], []
        for k in range(r.randint(1, 4)):
            u, t = r.choice(us), r.choice(["bool", "uint<3>", "uint<%d>" % r.randint(4, 9), "int<5>", "(bool,bool)"])
            ps.append("p%d: %s" % (k, t)); body.append("let _ = %s(p%d);" % (u, k))
            roots.append([u, t])
        src.append("fn r%d(%s) -> bool { %s true }" % (i, ", ".join(ps), " ".join(body)))
    r.shuffle(src)
    return dict(files=[("main.spade", "", "", "\n".join(src) + "\n")], graph=graph, roots=roots, stdlib=False, passes=[], tag="graph")

def bundle(r, pool, k):
    """Several programs as libraries of one job."""
    part = [r.choice(pool) for _ in range(k)]
    files = [("main.spade", "", "", "")]
    for i, (src, _) in enumerate(part):
        files.append(("p%d.spade" % i, "l%d" % i, "l%d" % i, src))
    return dict(files=files, stdlib=any(s for _, s in part), passes=r.choice([[], [], ["split_compound_regs", "enum_clock_gating"]]), tag="bundle")

def errs_job(r):
    """Several errors or warnings of the same sort in one unit, item or module, so that their order matters."""
    def names(n, p=""):
        out = set()
        while len(out) < n: out.add(p + "".join(r.choice("abcdefghijkmnpqrstuvwxyz") for _ in range(r.randint(2, 6))) + str(r.randint(0, 99)))
        return sorted(out, key=lambda _: r.random())
    n = r.randint(3, 7)
    ns, k = names(n, "v"), r.randint(0, 99)
    fs = lambda body: " ".join("fn %s(self) -> bool %s" % (x, body) for x in ns)
    inv = ", ".join("%s: inv bool" % x for x in ns)
    parts = []
    for kind in r.sample(["undef", "dup", "duptargets", "unset", "unsetgen", "struct", "structuse", "trait", "traitx", "nometh", "args", "pipe", "types", "vis", "mono", "match", "mods", "where"], r.randint(1, 3)):
        k += 1
        parts.append(dict(
            undef=lambda: "entity e%d() -> bool { decl %s; true }" % (k, ", ".join(ns)),
            dup=lambda: "struct S%d {}\nimpl S%d { %s }\nimpl S%d { %s }" % (k, k, fs("{ true }"), k, fs("{ false }")),
            duptargets=lambda: "\n".join("struct %s_%d {}\nimpl %s_%d { fn f(self) -> bool { true } }\nimpl %s_%d { fn f(self) -> bool { true } }" % ((x, k) * 3) for x in ns),
            unset=lambda: "entity e%d(%s) -> bool { true }" % (k, inv),
            unsetgen=lambda: "entity e%d<T>(a: T, %s) -> bool { true }\nentity m%d() -> bool { %s let _ = inst e%d(true, %s); true }" % (
                k, inv, k, " ".join("let (_, p%s) = port::<bool>();" % x for x in ns), k, ", ".join("p" + x for x in ns)),
            struct=lambda: "struct P%d { %s }\nentity e%d(p: P%d) -> bool { true }" % (k, inv, k, k),
            structuse=lambda: "struct P%d { %s }\nentity u%d(p: P%d) -> bool { %s true }\nentity e%d(p: P%d) -> bool { %s inst u%d(p) }" % (
                k, inv, k, k, " ".join("set p.%s = true;" % x for x in ns), k, k, " ".join("set p.%s = true;" % x for x in ns[:-1]), k),
            trait=lambda: "trait T%d { %s }\nstruct S%d {}\nimpl T%d for S%d {}" % (k, fs(";"), k, k, k),
            traitx=lambda: "trait T%d { fn q(self) -> bool; }\nstruct S%d {}\nimpl T%d for S%d { %s fn q(self) -> bool { true } }" % (k, k, k, k, fs("{ true }")),
            nometh=lambda: "struct S%d<T> { x: T }\n%s\nfn t%d(s: S%d<uint<9>>) -> bool { s.f() }" % (
                k, "\n".join("impl S%d<uint<%d>> { fn f(self) -> bool { true } }" % (k, i + 1) for i in range(n)), k, k),
            args=lambda: "fn f%d(%s) -> bool { true }\nfn t%d() -> bool { f%d$(%s) }" % (k, ", ".join(x + ": bool" for x in ns), k, k, ", ".join("q%s: true" % x for x in ns[1:])),
            pipe=lambda: "pipeline(3) p%d(clk: clock, a: bool) -> bool { %s reg; a }" % (k, " ".join("let x%s = stage(+1).%s;" % (x, x) for x in ns)),
            types=lambda: "\n".join("fn t%s_%d(a: uint<3>, b: bool) -> bool { let x: bool = a; let y: uint<%d> = b; y }" % (x, k, i + 2) for i, x in enumerate(ns)),
            vis=lambda: "mod m%d { %s }\nfn t%d() -> bool { %s }" % (k, " ".join("fn %s() -> bool { true }" % x for x in ns), k, " || ".join("m%d::%s()" % (k, x) for x in ns)),
            mono=lambda: "\n".join("fn b%s_%d<T>(a: T) -> bool { a }" % (x, k) for x in ns) + "\nfn t%d() -> bool { %s true }" % (k, " ".join("let _ = b%s_%d(5u%d);" % (x, k, i + 3) for i, x in enumerate(ns))),
            match=lambda: "enum E%d { %s }\nfn t%d(e: E%d, f: E%d) -> bool { match (e, f) { (E%d::%s, _) => true, (_, E%d::%s) => true } }" % (k, ", ".join("V" + x for x in ns), k, k, k, k, "V" + ns[0], k, "V" + ns[1]),
            mods=lambda: "\n".join("mod %s_%d;" % (x, k) for x in ns),
            where=lambda: "%s\nfn g%d<T>(t: T) -> bool where T: %s { true }\nfn t%d() -> bool { g%d(true) }" % ("\n".join("trait T%s_%d {}" % (x, k) for x in ns), k, " + ".join("T%s_%d" % (x, k) for x in ns), k, k),
        )[kind]())
    return dict(files=[("main.spade", "", "", "\n".join(parts) + "\n")], stdlib=True, passes=[], tag="errs")

def make_jobs(ck, n):
    r = random.Random(ck.seed * 6151 + 21)
    jobs = [graph_job(r) for _ in range(n // 5)] + [errs_job(r) for _ in range(n // 5)]
    m = max(20, n // 6)
    ok, bad = [], []
    for f in (c_lam.lam_cases, c_gen.generic_cases, c_meth.method_cases, c_port.port_cases, c_sem.reg_cases, c_sem.pipe_cases, c_mem.mem_cases, c_assert.assert_cases):
        for c in f(ck, m): ok.append((c.get("src") or sp.rprog(c["prog"]), c.get("stdlib", True)))
    for c in c_type.program_cases(ck, 2 * m, salt=2101, nm=(1, 1, 2, 3)): bad.append((c.get("src") or sp.rprog(c["prog"]), c.get("stdlib", False)))
    for c in c_linear.cases(ck, m): bad.append((c.get("src") or sp.rprog(c["prog"]), True))
    for _ in range(n // 4): jobs.append(bundle(r, ok, r.randint(2, 5)))
    for _ in range(n // 6): jobs.append(bundle(r, bad, r.randint(1, 4)))
    for c in c_names.mod_cases(ck, n // 8):
        s = c["src"]
        if isinstance(s, list): jobs.append(dict(files=[(f["file"], f.get("base", ""), f.get("ns", ""), f["src"]) for f in s], stdlib=False, passes=[], tag="names"))
        else: jobs.append(dict(files=[("main.spade", "", "", s)], stdlib=False, passes=[], tag="names"))
    while len(jobs) < n:
        d = c_driver.make(r, len(jobs))
        if d["fail"]: continue
        fs = []
        for name, spec, _ in d["files"]:
            p = spec.replace("@", "").split(",")
            fs.append((p[-1], p[0] if len(p) == 3 else "", p[1] if len(p) == 3 else "", d["src"][name]))
        jobs.append(dict(files=fs, stdlib=d["stdlib"], passes=[], tag="driver"))
    r.shuffle(jobs)
    for i, j in enumerate(jobs): j["id"] = str(i)
    return jobs

def counts(job, sv):
    if "graph" not in job or sv is None: return None
    ns = re.findall(r"^module \\(\S+?)\[\d+\]", sv, re.M)
    return {u: ns.count(u) for u in job["graph"]}

def cli(job, d, threads):
    d = os.path.join(d, "%s-%d-%d" % (job["id"], threads, random.getrandbits(40)))
    os.makedirs(d)
    try:
        args = []
        for f, b, ns, src in job["files"]:
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), "w") as fh: fh.write(src)
            args.append(f if not b and not ns else "%s,%s,%s" % (b, ns, f))
        cmd = [CLI, "--no-color"] + args + ["-o", "out.sv", "--mir-output", "out.mir", "--item-list", "out.items"] + ([] if job["stdlib"] else ["--omit-stdlib"])
        for p in job["passes"]: cmd += ["--optimize", p]
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200,
                           env=dict(os.environ, RUST_BACKTRACE="0", RAYON_NUM_THREADS=str(threads)))
        rd = lambda f: open(os.path.join(d, f)).read() if os.path.exists(os.path.join(d, f)) else ""
        err = r.stderr.decode("utf8", "replace").split("Error: aborting due to")[0].rstrip()
        sv = rd("out.sv")
        ex, ca = both(sv, rd("out.mir"), rd("out.items"), err, r.returncode == 0)
        o = dict(threads=threads, ex=ex, ca=ca, how="process with %d threads" % threads)
        c = counts(job, sv)
        if c is not None: o["counts"] = c
        return o
    finally:
        shutil.rmtree(d, ignore_errors=True)

def hjob(j, pool=None):
    h = dict(src=[dict(file=f, base=b, ns=ns, src=s) for f, b, ns, s in j["files"]], stdlib=j["stdlib"], passes=j["passes"], mir=True, emit=True, of=j["id"])
    if pool: h["pool"] = pool
    return h

def run(prop, tier):
    ck = Check(prop, tier, cli=True)
    # the design: what the scheduler of instances guarantees, and what it does not
    cfg = open(os.path.join(SPEC, "MonoGraphs.cfg")).read()
    for w in ck.pick(["W1", "W2"], ["W1", "W2", "W3"]):
        text = cfg.replace("<- W2", "<- " + w)
        if w == "W1": text = text.replace("INVARIANTS", "INVARIANTS Deterministic")
        out, st = ck.tlc_ok("MonoGraphs", cfgtext=text)
        ck.cov["design_states_" + w] = st["distinct"]
    out, st = ck.tlc("MonoGraphs", cfgtext=cfg.replace("INVARIANTS", "INVARIANTS Deterministic").replace("PROPERTY Terminates\n", ""))
    if "Invariant Deterministic is violated" not in out: raise ToolError("the model of two workers should depend on the schedule")
    jobs = make_jobs(ck, ck.pick(120, 1500))
    obs = {j["id"]: [] for j in jobs}
    # one process, several threads compiling in some order, every job twice
    hj = [hjob(j) for j in jobs] + [hjob(j) for j in reversed(jobs)]
    par = [hjob(j, 4) for j in jobs if j["tag"] in ("graph", "bundle", "errs")]
    of = [h.pop("of") for h in hj + par]
    for h, o, r in zip(hj + par, of, ck.jobs(hj + par)):
        if r.get("panic"): ck.violation("panic:" + r["panic"][:100], "the compiler crashed: " + r["panic"][:600], dict(src=h["src"])); continue
        j = jobs[int(o)]
        sv = r.get("sv") or ""
        ex, ca = both(sv, r.get("mir") or "", None, r.get("diags", "").rstrip(), r["ok"])
        x = dict(threads=h.get("pool", 1), ex=ex, ca=ca, how="in process, pool of %d" % h.get("pool", 1))
        c = counts(j, sv)
        if c is not None: x["counts"] = c
        obs[o].append(x)
    base = os.path.join(ck.tmp, "cli"); os.makedirs(base)
    plan = [(j, t) for j in jobs for t in ck.pick((1, 8), (1, 1, 3, 8, 8))]
    with ThreadPoolExecutor(6) as ex:
        for (j, t), o in zip(plan, ex.map(lambda x: cli(x[0], base, x[1]), plan)): obs[j["id"]].append(o)
    runs = []
    for j in jobs:
        d = dict(id=j["id"], obs=obs[j["id"]])
        if "graph" in j: d["graph"], d["roots"] = j["graph"], j["roots"]
        runs.append(d)
    f = os.path.join(ck.tmp, "det.json")
    with open(f, "w") as fh: json.dump(runs, fh)
    out, st = ck.tlc_ok("DetTrace", env=dict(TRACE_FILE=f))
    want = sum(1 + len(r["obs"]) for r in runs)
    if st["distinct"] != want: raise ToolError("TLC explored %d states, expected %d" % (st["distinct"], want))
    ck.cov["traces_validated_against_impl"] += len(runs)
    ck.cov["samples"] += want - len(runs)
    nums = 0
    for l in out.splitlines():
        if l.startswith('"REJECT '):
            i, n, what, s = json.loads(json.loads(l)[7:])
            j = jobs[int(i)]
            nums += what == "numbers"
            ck.violation("det:%s:%s:%s" % (what, "+".join(sorted(s)) if isinstance(s, list) else "", j["tag"]),
                         "%s: observation %d (%s) of the same sources differs in %s" % (what, n, obs[i][n - 1]["how"], s), dict(job=j, obs=obs[i]))
    ck.cov["jobs_with_errors"] = sum(o[0]["ex"]["ok"] != "True" for o in obs.values() if o)
    ck.cov["numbers_differ"] = nums
    return ck.finish()
