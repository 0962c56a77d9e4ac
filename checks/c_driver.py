"""C22: the command line compiler against SpadeDriver.tla."""
import json, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import *

CLI = os.path.join(BUILD, "target", "debug", "spade")
OLD = "// what was here before " * 40 + "\nmodule \\oldmark ( ); endmodule\n" + "OLDTEXT " * 3000

# template -> (phase, text).  {n} is the unit's name; text must stay on one line.
BAD = {
 "parse": ("parse", "fn {n}(a bool) -> bool {{ a }}"),
 "parse2": ("parse", "fn {n}(a: bool) -> bool {{ a + }}"),
 "parse3": ("parse", "fn {n}(a: bool) -> bool {{ (a, }}"),
 "lex": ("parse", "fn {n}(a: bool) -> bool {{ a ? a }}"),
 "infn": ("parse", "entity {n}e(a: bool) -> bool {{ a }} fn {n}(a: bool) -> bool {{ inst {n}e(a) }}"),
 "type": ("global", "struct {n} {{ a: {n}_t }}"),
 "dup": ("global", "struct {n} {{ a: bool }} struct {n} {{ a: bool }}"),
 "sig": ("global", "fn {n}(a: {n}_t) -> bool {{ true }}"),
 "sig2": ("global", "fn {n}(a: bool) -> uint<{n}_N> {{ 0 }}"),
 "dupunit": ("global", "fn {n}(a: bool) -> bool {{ a }} fn {n}(a: bool) -> bool {{ a }}"),
 "trait": ("global", "impl {n}_t for bool {{ }}"),
 "use": ("global", "use lib::{n}_q; fn {n}(a: bool) -> bool {{ a }}"),
 "mod": ("global", "mod {n}_m;"),
 "mangle": ("global", "#[no_mangle] fn {n}<#uint N>(a: uint<N>) -> bool {{ true }}"),
 "name": ("lower", "fn {n}(a: bool) -> bool {{ {n}_x }}"),
 "name2": ("lower", "fn {n}(a: bool) -> bool {{ {n}_x(a) }}"),
 "name3": ("lower", "fn {n}(a: bool) -> bool {{ let b = a; {{ let c = a; c }} & c }}"),
 "use2": ("lower", "fn {n}(a: bool) -> bool {{ {n}_q::b(a) }}"),
 "pat": ("lower", "fn {n}(a: bool) -> bool {{ match a {{ {n}_T(x) => x, _ => a }} }}"),
 "unsafe": ("late", "unsafe fn {n}u(a: bool) -> bool {{ a }} fn {n}(a: bool) -> bool {{ {n}u(a) }}"),
 "ty": ("late", "fn {n}(a: bool) -> uint<8> {{ a }}"),
 "ty2": ("late", "fn {n}(a: uint<8>) -> uint<4> {{ let b: uint<4> = a; b }}"),
 "ty3": ("late", "fn {n}(a: uint<8>) -> uint<8> {{ a + a }}"),
 "args": ("late", "fn {n}f(a: bool) -> bool {{ a }} fn {n}(a: bool) -> bool {{ {n}f(a, a) }}"),
 "width": ("late", "fn {n}(a: uint<8>) -> uint<8> {{ 256u8 }}"),
 "width2": ("late", "fn {n}(a: uint<4>) -> uint<4> {{ if a == 16 {{ a }} else {{ 3 }} }}"),
 "exh": ("late", "fn {n}(a: uint<8>) -> bool {{ match a {{ 0 => true }} }}"),
 "ref": ("late", "fn {n}(a: (bool, bool)) -> bool {{ let (true, x) = a; x }}"),
 "lin": ("late", "entity {n}(a: inv uint<8>) -> bool {{ true }}"),
 "lin2": ("late", "entity {n}(a: inv bool, b: bool) {{ set a = b; set a = b; }}"),
 "pipe": ("late", "pipeline(2) {n}(clk: clock, a: uint<8>) -> uint<8> {{ reg; a }}"),
 "pipe2": ("late", "pipeline(1) {n}(clk: clock, a: uint<8>) -> uint<8> {{ reg; stage(+1).a }}"),
 "inst": ("late", "pipeline(2) {n}p(clk: clock, a: bool) -> bool {{ reg; reg; a }} entity {n}(clk: clock, a: bool) -> bool {{ inst(3) {n}p(clk, a) }}"),
 "range": ("late", "fn {n}(a: [bool; 4]) -> [bool; 3] {{ a[2..5] }}"),
 "div": ("late", "fn {n}(a: uint<8>) -> uint<8> {{ a / 3 }}"),
 "infer": ("late", "fn {n}(a: bool) -> bool {{ let x = 0; a }}"),
 "init": ("late", "entity {n}(clk: clock, a: uint<8>) -> uint<8> {{ reg(clk) q initial(a) = q; q }}"),
 "where": ("late", "fn {n}g<#uint N>(a: uint<N>) -> bool where N: {{ 4 }} {{ true }} fn {n}(a: uint<8>) -> bool {{ {n}g(a) }}"),
 "assertty": ("late", "entity {n}(a: uint<8>) -> bool {{ assert a; true }}"),
 "clk": ("late", "entity {n}(clk: bool, a: uint<8>) -> uint<8> {{ reg(clk) r = a; r }}"),
 "field": ("late", "struct {n}s {{ x: bool }} fn {n}(a: {n}s) -> bool {{ a.y }}"),
 "meth": ("late", "fn {n}(a: bool) -> bool {{ a.{n}_m() }}"),
 "impl": ("late", "struct {n}s {{ x: bool }} impl {n}s {{ fn f(self) -> uint<4> {{ self.x }} }} fn {n}(a: {n}s) -> uint<4> {{ a.f() }}"),
 "lam": ("late", "fn {n}(a: bool) -> uint<4> {{ (fn |x| {{ !x }}).call((a,)) }}"),
 "mono": ("late", "fn {n}g<#uint N>(a: uint<N>) -> bool {{ match a {{ 0 => true }} }} fn {n}(a: uint<4>) -> bool {{ {n}g(a) }}"),
 "mono2": ("late", "fn {n}g<T>(a: T) -> bool {{ gen if 1 == 1 {{ a == a }} else {{ true }} }} fn {n}(a: bool) -> uint<2> {{ if {n}g(a) {{ 1 }} else {{ 4 }} }}"),
 "warnbad": ("late", "entity {n}(wire a: bool) -> uint<3> {{ a }}"),
 "bug": ("late", "pipeline(1) {n}(clk: clock, a: bool) -> bool {{ reg[stage.valid]; a }}"),
 "inout": ("late", "entity {n}(a: inout<bool>) -> bool {{ let b = a; true }}"),
}
# template -> (text, units which must be in the output)
GOOD = {
 "fn": ("fn {n}(a: bool) -> bool {{ a }}", ["{n}"]),
 "ent": ("entity {n}(clk: clock, a: bool) -> bool {{ reg(clk) r = a; r }}", ["{n}"]),
 "pipe": ("pipeline(2) {n}(clk: clock, a: uint<8>) -> uint<9> {{ reg; let b = a + 1; reg; b }}", ["{n}"]),
 "call": ("fn {n}f(a: bool) -> bool {{ !a }} fn {n}(a: bool) -> bool {{ {n}f(a) }}", ["{n}", "{n}f"]),
 "gen": ("fn {n}g<T>(a: T) -> T {{ a }} fn {n}(a: bool) -> bool {{ {n}g(a) }}", ["{n}"]),
 "unusedgen": ("fn {n}g<T>(a: T) -> T {{ a }} fn {n}(a: bool) -> bool {{ a }}", ["{n}"]),
 "struct": ("struct {n}s {{ x: bool }} impl {n}s {{ fn f(self) -> bool {{ self.x }} }} fn {n}(a: bool) -> bool {{ {n}s(a).f() }}", ["{n}", "*f"]),
 "method": ("struct {n}s {{ x: bool }} impl {n}s {{ fn {n}f(self) -> bool {{ self.x }} entity {n}e(self, clk: clock) -> bool {{ reg(clk) r = self.x; r }} }}", ["*{n}f", "*{n}e"]),
 "tmethod": ("trait {n}T {{ fn {n}m(self) -> bool; }} struct {n}s {{ x: bool }} impl {n}T for {n}s {{ fn {n}m(self) -> bool {{ self.x }} }}", ["*{n}m"]),
 "enum": ("enum {n}e {{ A, B{{x: bool}} }} fn {n}(a: bool) -> bool {{ match {n}e::B(a) {{ {n}e::A => true, {n}e::B(x) => x }} }}", ["{n}"]),
 "trait": ("trait {n}T {{ fn {n}m(self) -> bool; }} impl {n}T for bool {{ fn {n}m(self) -> bool {{ true }} }} fn {n}(a: bool) -> bool {{ a.{n}m() }}", ["{n}"]),
 "modf": ("mod {n}m {{ pub fn f(a: bool) -> bool {{ a }} }} use {n}m::f as {n}f; fn {n}(a: bool) -> bool {{ {n}f(a) }}", ["{n}", "{n}m::f"]),
 "port": ("entity {n}(a: inv bool, b: bool) {{ set a = b; }}", ["{n}"]),
 "lam": ("fn {n}(a: bool) -> bool {{ (fn |x| {{ !x }}).call((a,)) }}", ["{n}"]),
 # warnings are no errors
 "wparam": ("entity {n}(wire a: bool) -> bool {{ a }}", ["{n}"]),
 "wlet": ("entity {n}(a: bool) -> bool {{ let wire b = a; b }}", ["{n}"]),
 "wgen": ("entity {n}g<T>(wire a: T) -> T {{ a }} entity {n}(a: bool) -> bool {{ inst {n}g(a) }}", ["{n}"]),
 "hash": ("fn {n}(a: (bool, bool)) -> bool {{ a#0 }}", ["{n}"]),
 "depr": ("#[deprecated] fn {n}d(a: bool) -> bool {{ a }} fn {n}(a: bool) -> bool {{ {n}d(a) }}", ["{n}", "{n}d"]),
}
HW = ["sv", "mir", "items", "cpp"]
FLAG = dict(sv="-o", mir="--mir-output", items="--item-list", cpp="--verilator-wrapper-output", dump="--state-dump")

def make(R, k):
    """A random job: files with units, options, what is at the outputs beforehand."""
    files = [("main", "main.spade", "")]
    lay = R.choice([0, 0, 1, 2, 3])
    if lay in (1, 3): files.append(("lib1", "lib1,lib1,@l1.spade", "lib1::"))
    if lay in (2, 3): files.append(("sub", ",sub,@sub.spade", "sub::"))
    if lay == 3: files.append(("deep", "lib1,lib1::deep,@deep.spade", "lib1::deep::"))
    mode = R.random()
    nb = 0 if mode < 0.33 else 1 if mode < 0.7 else R.randint(2, 4)
    if mode >= 0.85:   # all faults in one phase
        ph = R.choice(["parse", "lower", "late", "late"])
        pool = [b for b in BAD if BAD[b][0] == ph]
    else: pool = list(BAD)
    kinds = [("bad", R.choice(pool)) for _ in range(nb)] + [("good", R.choice(list(GOOD))) for _ in range(R.randint(1, 5))]
    R.shuffle(kinds)
    units, lines, expect = {}, {f[0]: [] for f in files}, []
    where = {}
    for i, (g, t) in enumerate(kinds):
        n = "u%d%s" % (i, R.choice("xyz"))
        f = R.choice(files)
        txt = (BAD[t][1] if g == "bad" else GOOD[t][0]).format(n=n)
        pre = f[2]
        if R.random() < 0.25 and not (g == "bad" and t == "mod"):
            txt = "mod %sin { %s }" % (n, txt); pre += n + "in::"
        units[n] = dict(ph=BAD[t][0] if g == "bad" else "none", file=f[0], t=t)
        lines[f[0]].append((n, txt))
        if g == "good": expect += [e.format(n=n) if e[0] == '*' else pre + e.format(n=n) for e in GOOD[t][1]]
    decl = {f[0]: [] for f in files}
    if lay in (2, 3): decl["main"].append("mod sub;")
    if lay == 3: decl["lib1"].append("mod deep;")
    src = {}
    for f in files:
        L = [("", d) for d in decl[f[0]]] + lines[f[0]]
        if f[0] not in ("main",): pass
        R.shuffle(L)
        out = []
        for n, txt in L:
            if R.random() < 0.3: out.append("// a comment"); 
            out.append(txt)
            if n: where[(f[0], len(out))] = n
        src[f[0]] = "\n".join(out) + "\n"
    fail = []
    if R.random() < 0.04: fail.append("options")
    elif R.random() < 0.04: fail.append("read")
    outs = {}
    for o in HW:
        req = o == "sv" or R.random() < 0.6
        x = R.random()
        outs[o] = dict(req=req, before="absent" if x < 0.45 else "old" if x < 0.95 else R.choice(["dir", "nodir", "full"]))
    return dict(id=str(k), files=files, src=src, units=units, where={"%s:%d" % a: b for a, b in where.items()}, expect=expect,
                fail=fail, readhow=R.choice(["missing", "binary"]), outs=outs, dump=R.random() < 0.3, stdlib=R.random() < 0.12, cmdfile=R.random() < 0.15,
                passes=R.choice([[], [], [], ["enum_clock_gating"]]))

def names(o, text):
    """The units in an output; "*x" for a unit x wherever it is."""
    if o == "sv": N = [m.rstrip() for m in re.findall(r"^module \\(\S+)", text, re.M)]
    elif o == "mir": N = re.findall(r"^entity \\(\S+)", text, re.M)
    elif o == "items": N = ["::".join(json.loads("[%s]" % m)) for m in re.findall(r'\[((?:"[^"]*",?)+)\]:Normal', text)]
    else: return None
    return N + sorted({"*" + x.split("::")[-1] for x in N})

def run_one(job, base):
    d = os.path.join(base, "d" + job["id"])
    os.makedirs(d)
    try:
        args = []
        for n, spec, _ in job["files"]:
            s = spec.replace("@", d + "/") if "@" in spec else d + "/" + spec
            p = s.split(",")[-1]
            with open(p, "w") as fh: fh.write(job["src"][n])
            args.append(s)
        if "read" in job["fail"]:
            p = args[-1].split(",")[-1]
            if job["readhow"] == "missing": os.unlink(p)
            else:
                with open(p, "ab") as fh: fh.write(b"// \xff\xfe\n")
        paths, opts = {}, {}
        for o, v in job["outs"].items():
            p = os.path.join(d, "out." + o)
            if v["before"] == "old":
                with open(p, "w") as fh: fh.write(OLD)
            elif v["before"] == "dir": os.makedirs(p)
            elif v["before"] == "nodir": p = os.path.join(d, "nodir", "out." + o)
            elif v["before"] == "full": os.symlink("/dev/full", p)
            paths[o] = p
            if v["req"]: opts[o] = p
        if job["dump"]: opts["dump"] = os.path.join(d, "out.dump")
        passes = list(job["passes"]) + (["no_such_pass"] if "options" in job["fail"] else [])
        if job["cmdfile"]:
            c = dict(files=args, outfile=opts["sv"], no_color=True, print_type_traceback=False, omit_stdlib=not job["stdlib"], opt_passes=passes,
                     mir_output=opts.get("mir"), verilator_wrapper_output=opts.get("cpp"), state_dump=opts.get("dump"), item_list=opts.get("items"),
                     print_parse_traceback=None, command_file=None)
            cf = os.path.join(d, "cmd.json")
            with open(cf, "w") as fh: json.dump(c, fh)
            cmd = [CLI, "--command-file", cf, "-o", os.path.join(d, "ignored.sv"), args[0]]
        else:
            cmd = [CLI, "--no-color"] + args + ([] if job["stdlib"] else ["--omit-stdlib"])
            for o, p in opts.items(): cmd += [FLAG[o], p]
            for q in passes: cmd += ["--optimize", q]
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                           env=dict(os.environ, RUST_BACKTRACE="0"))
        err = r.stderr.decode("utf8", "replace")
        said, kind = [], None
        for l in err.splitlines():
            m = re.match(r"(error|warning|bug)\b", l)
            if m: kind = m.group(1); continue
            m = re.match(r"\s*┌─ (.*):(\d+):\d+", l)
            if m and kind in ("error", "bug"):
                f = [n for n, s, _ in job["files"] if os.path.basename(m.group(1)) == os.path.basename(s.split(",")[-1].replace("@", ""))]
                u = f and job["where"].get("%s:%s" % (f[0], m.group(2)))
                if u and u not in said: said.append(u)
                kind = None
        outs = {}
        for o, v in job["outs"].items():
            p, b = paths[o], v["before"]
            if b in ("dir", "nodir", "full"):
                ok = os.path.isdir(p) if b == "dir" else not os.path.lexists(p) if b == "nodir" else os.path.islink(p)
                after, nm = b if ok else "damaged", []
            elif not os.path.exists(p): after, nm = "absent", []
            else:
                t = open(p, encoding="utf8", errors="replace").read()
                if t == OLD: after, nm = "old", []
                elif "OLDTEXT" in t or not t.strip() : after, nm = "damaged", []
                else:
                    after = "new"; nm = names(o, t)
                    if nm is None: nm = sorted(set(job["expect"]))
            outs[o] = dict(req=v["req"], before=b, after=after, names=sorted(set(nm) & set(job["expect"])),
                           twice=sorted(n for n in set(nm) if nm.count(n) > 1))
        return dict(id=job["id"], units={u: dict(ph=x["ph"], file=x["file"]) for u, x in job["units"].items()}, fail=job["fail"], outs=outs,
                    said=said, exit=r.returncode, quiet=not err.strip() and not r.stdout.strip(), expect=job["expect"],
                    err=err, panic="panicked at" in err or r.returncode not in (0, 1))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(prop, tier):
    ck = Check(prop, tier, cli=True)
    out, st = ck.tlc_ok("DriverDesign")
    ck.cov["design_states"] = st["distinct"]
    n = ck.pick(500, 6000)
    R = random.Random(ck.seed * 7919 + 22)
    jobs = [make(R, k) for k in range(n)]
    # every fault alone, and every fault-free unit alone
    for b in BAD:
        j = make(R, len(jobs)); j.update(single(b, True)); jobs.append(j)
    for g in GOOD:
        j = make(R, len(jobs)); j.update(single(g, False)); jobs.append(j)
    for k, j in enumerate(jobs): j["id"] = str(k)
    base = os.path.join(ck.tmp, "cli")
    os.makedirs(base)
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(lambda j: run_one(j, base), jobs))
    good = []
    for j, r in zip(jobs, runs):
        if r["panic"]:
            ck.violation("panic:" + r["err"][-200:], "the compiler crashed (status %s): %s" % (r["exit"], r["err"][-800:]), dict(job=j))
        elif any(v["twice"] for v in r["outs"].values()):
            ck.violation("twice", "a unit is in the output twice", dict(job=j, run=r))
        else: good.append((j, r))
    for b in range(0, len(good), 1500):
        part = good[b:b + 1500]
        f = os.path.join(ck.tmp, "drv.json")
        with open(f, "w") as fh: json.dump([{k: v for k, v in r.items() if k not in ("err", "panic")} for _, r in part], fh)
        out, st = ck.tlc_ok("DriverTrace", env=dict(TRACE_FILE=f))
        if st["distinct"] != 8 * len(part): raise ToolError("TLC explored %d states, expected %d" % (st["distinct"], 8 * len(part)))
        meta = {j["id"]: (j, r) for j, r in part}
        seen = set()
        for l in out.splitlines():
            if l.startswith('"REJECT '):
                d = json.loads(json.loads(l)[7:])
                j, r = meta[d[0]]
                ts = sorted(x["t"] for x in j["units"].values() if x["ph"] != "none")
                key = "driver:%s:%s" % (d[1][:60], "+".join(ts))
                ck.violation(key, "%s\n%s" % (d[1], r["err"][:1500]), dict(job=j, run=r))
        ck.cov["traces_validated_against_impl"] += len(part)
        ck.cov["samples"] += len(part)
    ck.cov["failing_runs"] = sum(r["exit"] != 0 for r in runs)
    ck.assumptions.append("faults are those of %d templates, each attributed to the phase which finds it" % len(BAD))
    return ck.finish()

def single(t, bad):
    n = "only"
    txt = (BAD[t][1] if bad else GOOD[t][0]).format(n=n)
    return dict(files=[("main", "main.spade", "")], src=dict(main=txt + "\n"), where={"main:1": n}, fail=[],
                units={n: dict(ph=BAD[t][0] if bad else "none", file="main", t=t)},
                expect=[] if bad else [e.format(n=n) for e in GOOD[t][1]])
