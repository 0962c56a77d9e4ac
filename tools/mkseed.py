#!/usr/bin/env python3
"""mkseed.py ID PROP PROG.spade STIM NEEDS BREAKS [OPTS]: keep /repo's working tree difference as a planted bug.
The stimulus file's ?-outputs are filled in from the tree without the change."""
import sys, os, subprocess, json, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(HERE, "tools", "demo")
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def build():
    r = sh(". /opt/vp/env.sh && cargo build --offline -q -p spade-lang", executable="/bin/bash")
    if r.returncode: print(r.stdout[-3000:]); sys.exit("build failed")
def main():
    sid, prop, prog, stim, needs, breaks = sys.argv[1:7]
    opts = sys.argv[7] if len(sys.argv) > 7 else ""
    out = os.path.join(HERE, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    diff = sh("git diff", cwd="/repo").stdout
    if not diff.strip(): sys.exit("no change in /repo")
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.copy(os.path.join(D, "demo.sh"), out)
    os.makedirs(os.path.join(out, "sim/src"), exist_ok=True)
    shutil.copy(os.path.join(D, "Cargo.toml"), os.path.join(out, "sim"))
    shutil.copy(os.path.join(D, "src/main.rs"), os.path.join(out, "sim/src"))
    for f in ("val", "vparse", "vsim"): shutil.copy(os.path.join(HERE, "harness/src/%s.rs" % f), os.path.join(out, "sim/src"))
    shutil.copy(prog, os.path.join(out, "p.spade"))
    if opts: open(os.path.join(out, "p.opts"), "w").write(opts + "\n")
    patch = os.path.join(out, "patch.diff")
    sh("git checkout -- .", cwd="/repo")
    build()
    # expected values on the unchanged tree
    b = "/tmp/w/vdemo"
    r = sh("cargo build --offline -q", cwd=os.path.join(out, "sim"), env=dict(os.environ, CARGO_TARGET_DIR=b))
    if r.returncode: sys.exit(r.stdout)
    if os.path.exists(os.path.join(out, "sim/Cargo.lock")): pass
    t = tempfile.mkdtemp()
    r = sh("/repo/target/debug/spade %s/p.spade -o %s/o.sv %s && SHOW=1 %s/debug/vdemo %s/o.sv %s" % (out, t, opts, b, t, stim))
    print(r.stdout)
    lines = [l for l in open(stim).read().splitlines() if l.startswith("top")] 
    got = [l for l in r.stdout.splitlines() if l.startswith("step ") and " is " not in l]
    open(os.path.join(out, "p.stim"), "w").write("\n".join(lines + got) + "\n")
    a = sh("sh %s/demo.sh" % out, cwd="/repo")
    print("unchanged:", a.returncode, a.stdout[-300:])
    sh("git apply %s" % patch, cwd="/repo")
    build()
    c = sh("sh %s/demo.sh" % out, cwd="/repo")
    print("changed:", c.returncode, c.stdout[-600:])
    if a.returncode or not c.returncode: print("NOT A DEMONSTRATION")
    shutil.rmtree(t)
main()
