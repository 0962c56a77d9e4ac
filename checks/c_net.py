"""C23: emitted netlists against SpadeNet.tla."""
import json, os, random, re
from lib import *
import sp, c_sem, c_gen, c_meth, c_lam, c_port, c_mem, c_pass, c_assert, c_names, c_std, c_cdc

GENS = [(c_sem.reg_cases, 1), (c_sem.pipe_cases, 1), (c_sem.stall_cases, 1), (c_sem.match_cases, 1), (c_sem.agg_cases, 1.5),
        (c_gen.generic_cases, 1.5), (c_meth.method_cases, 1), (c_lam.lam_cases, 1), (c_port.port_cases, 1.5), (c_mem.mem_cases, 1),
        (c_assert.assert_cases, .5), (c_pass.reg_pass_cases, .5), (c_pass.mem_pass_cases, .5), (c_pass.lam_pass_cases, .5)]

def from_cases(ck, n):
    jobs = []
    for g, k in GENS:
        for c in g(ck, max(1, int(n * k))):
            p = c["prog"]
            src = c.get("src") or sp.rprog(p)
            r = random.Random("%s|%s" % (ck.seed, src))
            if r.random() < .4:
                q, m = odd_names(src, p, r)
                u = p["units"][p["top"]]
                jobs.append(dict(src=q, stdlib=c.get("stdlib", True), passes=c.get("passes"), tag="names",
                                 prog=dict(p, units={p["top"]: dict(u, params=[dict(x, n=m.get(x["n"], x["n"])) for x in u["params"]])})))
                continue
            jobs.append(dict(src=c.get("src") or sp.rprog(p), stdlib=c.get("stdlib", True), passes=c.get("passes"), tag=g.__name__, prog=p))
    return jobs

KEYWORDS = "always begin module endmodule logic signed case casez assign function task posedge parameter localparam integer output input not and xor nand priority unique final new this class interface do return bit byte end wire_ tri supply0 real time event edge cell config design".split()

def odd_names(src, p, r):
    """The same program with names that are easily confused: reserved words of Verilog, letters outside
    ASCII, and names which look like those the compiler makes up.  Returns text and renaming."""
    vs = sorted({n for n in sp.varnames(p, set()) if re.fullmatch(r"[a-z]+\d+(_\d+)?", n)} | {q["n"] for q in p["units"][p["top"]]["params"] if re.search(r"\d$", q["n"])})
    m, used = {}, set(re.findall(r"\w+", src))
    for v in vs:
        if r.random() < .35: continue
        other = m.get(r.choice(vs), r.choice(vs))
        c = r.choice([other + "_i", other + "_o", other + "_n1", other + "_n2", other + "_mut", "s1_" + other, "s2_" + other, "_e_%d" % r.randint(1700, 2300),
                      r.choice(list(p["units"])) + "_%d" % r.choice([0, 0, 1]), r.choice(KEYWORDS), r.choice(KEYWORDS), "\u00e9" + other, other + "\u00f6", "output__", "input__",
                      other + "__", "_" + other, other + "_valid", other + "_enable"])
        if c in used: continue
        used.add(c); m[v] = c
    return re.sub(r"\b[A-Za-z_]\w*", lambda x: m.get(x[0], x[0]), src), m

def library_jobs(ck, n):
    jobs = []
    for i, f in enumerate((list(c_std.FNS) * n)[:60 * n]):
        g = c_std.G(c_sem.rng_of(ck, i, 2301))
        c, ps, res, body = c_std.FNS[f](g, g.r, g.n(), g.ty(), g.w())
        jobs.append(dict(src=c_std.finish(g, c, ps, res, body, False)["src"], stdlib=True, tag="library"))
    for i, f in enumerate(c_std.SEQ * n):
        g = c_std.G(c_sem.rng_of(ck, i, 2302))
        c, ps, res, body = f(g, g.r)
        jobs.append(dict(src=c_std.finish(g, c, ps, res, body, True)["src"], stdlib=True, tag="library"))
    for k in (c_cdc.Fifo, c_cdc.Hand, c_cdc.Wide, c_cdc.Flop, c_cdc.Count):
        for i in range(n): jobs.append(dict(src=k(c_sem.rng_of(ck, i, 2303)).src, stdlib=True, tag="crossing"))
    return jobs

# memories outside the unit that makes them (a known finding)
MEM = "use std::mem::clocked_memory;\nuse std::mem::read_memory;\n"
DIRECTED = [("memory-crosses", MEM + """entity sub(clk: clock, we: bool, a: uint<2>, d: uint<4>) -> Memory<uint<4>, 4> { inst clocked_memory(clk, [(we, a, d)]) }
entity rd(m: Memory<uint<4>, 4>, a: uint<2>) -> uint<4> { inst read_memory(m, a) }
entity top(clk: clock, we: bool, a: uint<2>, d: uint<4>) -> uint<4> { let m = inst sub(clk, we, a, d); inst rd(m, a) }
"""), ("memory-in-value", MEM + """entity top(clk: clock, we: bool, a: uint<2>, d: uint<4>) -> uint<4> {
    let m: Memory<uint<4>, 4> = inst clocked_memory(clk, [(we, a, d)]);
    let k = (m, d);
    let s = if we {m} else {k.0};
    inst read_memory(k.0, a) ^ inst read_memory(s, a)
}
"""), ("unicode", """#[no_mangle(all)] entity \u00e9ndm(beg: bool, x: inv uint<2>, \u00f6: bool) { set x = 1; }
#[no_mangle] entity always1(clk: clock, always: bool, \u00e4: uint<3>) -> uint<3> { reg(clk) module = \u00e4; module }
entity top(clk: clock, b: bool, module: uint<3>, \u00e9: bool) -> uint<3> {
    let (always, p) = port();
    inst \u00e9ndm(b, p, \u00e9);
    inst always1(clk, b, module)
}
"""), ("one-bit", """struct S { a: bool }
struct Q { a: [bool; 1], z: [bool; 0] , v: (), w: uint<1>}
enum E1 { A { x: bool } }
enum E2 { A { x: (), y: bool }, B }
entity top(clk: clock, x: uint<1>, y: int<1>, a: [bool; 1], s: S, q: Q, e: E1, f: E2, n: [[bool;1];1], i: uint<0>) -> (uint<1>, int<1>, bool, [bool; 1], bool, bool, uint<1>, bool, bool, bool, bool, [bool;1], uint<4>, int<3>) {
    let t = trunc::<uint<1>, uint<1>>(x);
    let u = trunc::<int<1>, int<1>>(y);
    let b = a[0];
    let b2 = a[0..1];
    let sa = s.a;
    let Q(qa, qz, qv, qw) = q;
    let ea = match e { E1::A(x) => x };
    let fa = match f { E2::A(_, y) => y, E2::B => false };
    let na = n[0][0];
    let nb = n[0..1][0][0];
    reg(clk) r: E1 reset(s.a: E1::A(true)) = e;
    (t, u, b, b2, sa, qa[0], qw, ea, fa, na, nb, n[0], zext::<1, 4>(x), sext::<1, 3>(y))
}
"""), ("one-bit", """struct P { a: inv bool, b: bool }
entity sub(p: [(bool, inv bool); 1], q: P) -> [bool; 1] { set p[0].1 = p[0].0; set q.a = q.b; [q.b] }
fn g(x: [uint<1>; 1], i: uint<0>) -> uint<1> { x[i] }
fn g3(x: [[uint<1>; 1]; 1], i: uint<0>) -> uint<1> { x[i][i] }
fn g2(x: uint<0>, y: uint<3>) -> uint<3> { trunc(zext::<0, 3>(x) + y) }
entity top(clk: clock, x: [uint<1>; 1], i: uint<0>, y: [bool; 3], j: uint<2>, k: int<1>) -> (uint<1>, uint<3>, bool, [bool; 1], [bool;1], bool, bool, uint<1>, [bool;1]) {
    let (a, b) = port(); let (c, d): (bool, inv bool) = port();
    let r = inst sub([(true, b)], P(d, true));
    let z: [bool; 1] = y[1..2];
    let m: Memory<bool, 2> = inst std::mem::clocked_memory(clk, [(true, 0, y[j])]);
    let w: Memory<bool, 1> = inst std::mem::clocked_memory(clk, [(true, i, y[j])]);
    let v: [bool; 1] = if y[0] { r } else { z };
    (g(x, i), 1, y[j], r, z, inst std::mem::read_memory(m, 1), inst std::mem::read_memory(w, i), g3([x], i), v)
}
"""), ("no-bits", """fn sx(x: int<0>) -> int<4> { sext(x) }
fn zx(x: uint<0>) -> uint<4> { zext(x) }
fn cc(x: uint<0>, y: uint<3>) -> uint<3> { std::conv::concat(x, y) }
fn ma(x: uint<0>) -> bool { match x { 0 => true, _ => false} }
fn ex(x: uint<4>) -> uint<0> { trunc(x) }
fn ar(x: [uint<0>; 4], i: uint<2>) -> uint<0> { x[i] }
fn ar2(x: [uint<0>; 4]) -> [uint<0>;2] { x[1..3] }
fn tu(x: (uint<0>, bool)) -> (bool, uint<0>) { (x.1, x.0) }
fn op(x: Option<()>) -> bool { match x { Some(_) => true, None => false } }
fn opp(x: Option<uint<0>>) -> bool { match x { Some(0) => true, _ => false } }
fn r1(x: [bool; 0]) -> (bool, bool, bool) { (std::ops::reduce_and(x), std::ops::reduce_or(x), std::ops::reduce_xor(x)) }
fn lsb(x: [bool; 0]) -> bool { std::ops::reduce_and(x) }
fn zc(x: ()) -> () { x }
entity ze(clk: clock, a: ()) -> () { reg(clk) b: () = a; b }
pipeline(2) zp(clk: clock, a: (), b: uint<0>) -> (uint<0>, ()) { reg; reg; (b, a) }
fn zr(x: [uint<0>; 3], y: [(); 2]) -> [uint<0>; 2] { x[1..3] }
fn zs(c: bool, x: (), y: ()) -> () { if c { x } else { y } }
entity zi(p: inv uint<0>, q: inv ()) { set p = 0; }
fn b0(x: [bool; 0]) -> [bool; 0] { x }
""")]

def records(jobs, res, ck):
    """Facts for the specification: distinct modules with the interfaces of the modules
    they use, the names in each file, and the ports of each unit."""
    recs, seen, meta = [], set(), {}
    def add(r, j):
        k = json.dumps(r, sort_keys=True)
        if k in seen: return
        seen.add(k)
        r["id"] = str(len(recs))
        meta[r["id"]] = (j, r)
        recs.append(r)
    nfile = 0
    for j, r in zip(jobs, res):
        if r.get("panic") or not r["ok"]: continue
        if r.get("verr"):
            ck.violation("net:syntax:" + r["verr"][:100], "the emitted Verilog cannot be read: %s" % r["verr"], dict(src=j["src"], passes=j.get("passes")))
            continue
        nfile += 1
        mods = {}
        for m in r["ast"]: mods.setdefault(m["name"], m)
        for m in r["ast"]:
            used = {i[1] for i in m["items"] if i[0] == "inst"}
            add(dict(k="module", m=m, iface={n: dict(ports=mods[n]["ports"], param=mods[n]["param"]) for n in used if n in mods}), j)
        p = j.get("prog")
        us = [] if not p else [n for n, u in p["units"].items() if not u.get("tp")]
        add(dict(k="file", names=[m["name"] for m in r["ast"]], units=[p["top"]] if p else []), j)
        for n in us:
            if n in mods:
                u = p["units"][n]
                s = sp.strip(dict(structs=p["structs"], enums=p["enums"]))
                add(dict(k="unit", u=sp.strip(dict(params=[dict(n=q["n"], t=q["t"]) for q in u["params"]], **({"rt": u["rt"]} if u.get("rt") else {}))),
                         p=s, ports=mods[n]["ports"], n=n), j)
    return recs, meta, nfile

def judge(ck, jobs, batch=150):
    nrec = 0
    for b in range(0, len(jobs), batch):
        part = jobs[b:b + batch]
        res = ck.jobs([dict({k: v for k, v in j.items() if k in ("src", "passes", "files") and v is not None}, stdlib=True, ast=True) for j in part])
        recs, meta, nfile = records(part, res, ck)
        if nfile * 2 < len(part): raise ToolError("%d of %d programs compiled: %s" % (nfile, len(part), [(r.get("diags") or r.get("panic")) for r in res if not r["ok"]][:1]))
        f = os.path.join(ck.tmp, "net%d.json" % ck.njob)
        with open(f, "w") as fh: json.dump(dict(recs=recs), fh)
        out, st = ck.tlc_ok("NetTrace", env=dict(TRACE_FILE=f))
        os.unlink(f)
        if st["distinct"] != 2 * len(recs): raise ToolError("TLC explored %d states, expected %d" % (st["distinct"], 2 * len(recs)))
        for l in out.splitlines():
            if l.startswith('"REJECT '):
                i, x = json.loads(json.loads(l)[7:])
                j, r = meta[i]
                where = r["m"]["name"] if r["k"] == "module" else r.get("n", "file")
                for what, n in x:
                    ck.violation("net:%s:%s:%s" % (j.get("tag"), what, n), "%s: %s %s" % (where, what, n), dict(src=j["src"], passes=j.get("passes"), where=where))
        ck.cov["traces_validated_against_impl"] += nfile
        ck.cov["samples"] += len(recs)
        nrec += len(recs)
    return nrec

def run(prop, tier):
    ck = Check(prop, tier)
    jobs = from_cases(ck, ck.pick(22, 300)) + library_jobs(ck, ck.pick(1, 20))
    for c in c_names.scope_cases(ck, ck.pick(20, 400)):
        p = c["prog"]
        jobs.append(dict(src=c.get("src") or sp.rprog(p), passes=c.get("passes"), tag="scopes", prog=dict(p, units={p["top"]: p["units"][p["top"]]})))
    jobs += [dict(src=t, tag=n) for n, t in DIRECTED]
    random.Random(ck.seed).shuffle(jobs)
    judge(ck, jobs)
    ck.assumptions = c_sem.ASSUME[1:] + ["the rules are those of IEEE 1800 for the constructs which the compiler emits, with equal widths on both sides of an assignment"]
    return ck.finish()
