#!/usr/bin/env python3
"""Run groups on edited scratch copies (development aid): mut.py SPEC.py [names]
SPEC defines MUTS = [(name, [(file, old, new)...], ["group:arg", ...])]"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf


def one(m):
    name, edits, groups = m
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        subprocess.run(f"mkdir -p {w}/r && cd /repo && git archive HEAD | tar x -C {w}/r", shell=True, check=True)
        for f, old, *new in edits:
            s = open(f"{w}/r/{f}").read()
            if callable(old):
                open(f"{w}/r/{f}", "w").write(old(s))
                continue
            new = new[0]
            if old not in s:
                return name, "OLD TEXT NOT FOUND " + old[:60]
            open(f"{w}/r/{f}", "w").write(s.replace(old, new, 1))
        r = subprocess.run(["python3", "-c", f"import sys; sys.path.insert(0,'/verif')\nfrom sa import mir\nimport os\nos.makedirs('{w}/o')\nmir.extract('{w}/o')"],
                           capture_output=True, text=True, env={**os.environ, "VERIF_REPO": w + "/r"})
        if r.returncode:
            return name, "DUMP FAILED " + r.stderr[-800:]
        r = subprocess.run(["timeout", os.environ.get("T", "300"), "python3", "/verif/tools/g.py", w + "/o", "quick"] + groups, capture_output=True, text=True, env={**os.environ, "VERIF_JOBS": "1"})
        return name, "\n".join("    " + l[:int(os.environ.get("W", 300))] for l in (r.stdout + r.stderr[-600:]).splitlines() if not l.startswith("   fn"))
    finally:
        shutil.rmtree(w, ignore_errors=True)


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
with cf.ThreadPoolExecutor(6) as ex:
    for n, t in ex.map(one, [m for m in ns["MUTS"] if not only or m[0] in only]):
        print(n)
        print(t, flush=True)
