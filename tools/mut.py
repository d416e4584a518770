#!/usr/bin/env python3
"""Development helper: runs checks on small changes of the repository. mut.py SPEC.py [name...]
SPEC.py defines M = [(name, "C01,C02", [(file, old, new), ...]), ...]; '=' before the props: the change keeps the behaviour."""
import sys, os, subprocess, shutil, concurrent.futures as cf
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:]
env = dict(os.environ, PATH="/opt/veriftools/go1.26.10/bin:" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
subprocess.check_call("cd /verif/checker && go build -o /tmp/hx .", shell=True, env=env)
def run(m):
    name, props, edits = m
    d = "/tmp/mut/" + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get("REPO","/repo"), d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    out = []
    try:
        for f, old, new in edits:
            p = d + "/" + f
            s = open(p).read()
            if s.count(old) < 1: return name + ": OLD TEXT NOT FOUND: " + old[:60]
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run(". /opt/vp/env.sh; cd %s && go build ./... " % d, shell=True, executable="/bin/bash", capture_output=True, text=True)
        if b.returncode: return name + ": DOES NOT BUILD " + b.stderr[:600]
        keep = props.startswith("=")
        for p in props.lstrip("=").split(","):
            v = d + "/.vt"; os.makedirs(v, exist_ok=True)
            shutil.copy("/verif/KNOWN_FINDINGS", v) if os.path.exists("/verif/KNOWN_FINDINGS") else None
            r = subprocess.run(". /opt/vp/env.sh; timeout 900 /tmp/hx %s %s %s" % (p, d, v), shell=True, executable="/bin/bash", capture_output=True, text=True)
            l = [x for x in r.stdout.splitlines() if not x.startswith("    ")]
            ok = (r.returncode == 0) == keep and r.returncode in (0, 1)
            first = "; ".join(x.strip()[:500] for x in l[:2])
            out.append("%-4s %-28s %s: %s" % ("ok" if ok else "BAD", name, p, first if r.returncode or not keep else ""))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)
ms = [m for m in spec["M"] if not want or m[0] in want]
with cf.ThreadPoolExecutor(7) as ex:
    for r in ex.map(run, ms): print(r, flush=True)
