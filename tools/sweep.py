#!/usr/bin/env python3
"""Run checks against patches in scratch copies (development aid).   sweep.py [-p P01,P02] [-a] DIR_OR_PATCH...
Without -p, runs the property named in meta.json (and, with -a, all)."""
import glob, json, os, subprocess, sys, concurrent.futures as cf, tempfile, shutil
sys.path.insert(0, "/verif")


def one(job):
    name, patch, props = job
    w = tempfile.mkdtemp(prefix="sweep.", dir="/tmp")
    try:
        subprocess.run(f"mkdir -p {w}/r && cd /repo && git archive HEAD | tar x -C {w}/r && cd {w}/r && git init -q . && git apply {patch}", shell=True, check=True)
        out = {}
        mirdir = f"{w}/o"
        r = subprocess.run(["python3", "-c", f"import sys; sys.path.insert(0,'/verif')\nfrom sa import mir\nimport os\nos.makedirs({mirdir!r})\nmir.extract({mirdir!r})"], capture_output=True, text=True, env={**os.environ, "VERIF_REPO": w + "/r"})
        if r.returncode:
            return name, {"-": "DUMP FAILED " + r.stderr[-600:]}, {}
        txt = {}
        for p in props:
            r = subprocess.run(["python3", "/verif/check.py", p, "--mir", mirdir, "--evidence", f"{w}/ev"], capture_output=True, text=True)
            und = 0
            for l in r.stdout.splitlines():
                if " undecided " in l and l.split("undecided")[1].split()[0].isdigit():
                    und += int(l.split("undecided")[1].split()[0])
            out[p] = {0: "quiet", 1: "VIOLATION"}.get(r.returncode, "exit %d" % r.returncode) + (" und=%d" % und if und else "")
            txt[p] = r.stdout + r.stderr[-1500:]
        return name, out, txt
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    from sa import props
    args = sys.argv[1:]
    sel, allp, verbose = None, False, False
    jobs = []
    while args:
        a = args.pop(0)
        if a == "-p":
            sel = args.pop(0).split(",")
        elif a == "-a":
            allp = True
        elif a == "-v":
            verbose = True
        elif os.path.isdir(a):
            ps = sel or (sorted(props.PROPS) if allp else [json.load(open(a + "/meta.json"))["property"]])
            jobs.append((os.path.basename(a.rstrip("/")), os.path.abspath(a) + "/patch.diff", ps))
        else:
            jobs.append((os.path.basename(a), os.path.abspath(a), sel or sorted(props.PROPS)))
    with cf.ThreadPoolExecutor(4) as ex:
        for name, out, txt in ex.map(one, jobs):
            print("%-28s %s" % (name, "  ".join(f"{k}:{v}" for k, v in out.items())), flush=True)
            if verbose:
                for p, t in txt.items():
                    print(t)


main()
