"""C16: optimisation passes, #[optimize(..)] and #[inline] do not change behaviour."""
from lib import *
from sp import *
import gen
from gen import Gen
import c_sem, c_mem, c_lam
from c_sem import rng_of, run_profile

PASSES = ["split_compound_regs", "enum_clock_gating"]

class OptGen(Gen):
    """Types that the passes rewrite: Option-like enums, nested tuples, arrays and structs."""
    def ty(self, d=2):
        if d > 0:
            c = self.r.random()
            if c < .22:
                return self.named("en", d)
            if c < .34: return TT(*[self.ty(d - 1) for _ in range(self.r.randint(2, 3))])
            if c < .40: return AT(self.ty(d - 1), self.r.randint(1, 3))
            if c < .46 and self.structs: return self.named("st", d)
        return Gen.ty(self, d)
    def decl_types(self, ns=2, ne=2):
        Gen.decl_types(self, ns, ne)
        for _ in range(self.r.randint(0, 2)):
            fs = [["p%d" % j, self.ty(1)] for j in range(self.r.choice([0, 1, 1, 2, 3]))]
            self.enums[self.fresh("G")] = dict(tp=[], vs=[["A", []], ["B", fs]])

def with_passes(cases, ck, salt):
    """Set random passes and inlining on programs."""
    for i, c in enumerate(cases):
        r = rng_of(ck, i, salt)
        p = c["prog"]
        k = r.random()
        if k < .6:
            c["passes"] = r.choice([PASSES[:1], PASSES[1:], PASSES, PASSES[::-1]])
        pi = r.choice([0, .3, .8])
        meth = {u for im in p["impls"] for u in im["ms"].values()}
        for n, u in p["units"].items():
            if u.get("std"): continue
            a = [x for x in u.get("attrs", [])]
            if n != p["top"] and "inline" not in a and r.random() < pi: a.append("inline")
            if n not in meth and r.random() < (.6 if k >= .6 else .2):
                o = r.choice([PASSES[:1], PASSES[1:], PASSES, PASSES[::-1]])
                a.append("optimize(%s)" % ", ".join(o))
            r.shuffle(a)
            if a: u["attrs"] = a
        c["tag"] = "passes-" + c["tag"]
    return cases

def swap(fn, mods):
    """fn with OptGen in place of Gen."""
    def f(ck, n):
        old = [m.Gen for m in mods]
        for m in mods: m.Gen = OptGen
        try: return fn(ck, n)
        finally:
            for m, o in zip(mods, old): m.Gen = o
    return f

def reg_pass_cases(ck, n): return with_passes(swap(c_sem.reg_cases, [c_sem])(ck, n), ck, 161)
def pipe_pass_cases(ck, n): return with_passes(swap(c_sem.pipe_cases, [c_sem])(ck, n // 2) + swap(c_sem.stall_cases, [c_sem])(ck, n // 2), ck, 162)
def mem_pass_cases(ck, n): return with_passes(swap(c_mem.mem_cases, [c_mem])(ck, n), ck, 163)
def lam_pass_cases(ck, n): return with_passes(c_lam.lam_cases(ck, n), ck, 164)

def run(prop, tier): return run_profile(prop, tier, [(reg_pass_cases, 200, 4000), (pipe_pass_cases, 120, 3000),
                                                     (mem_pass_cases, 60, 1500), (lam_pass_cases, 40, 1000)])
