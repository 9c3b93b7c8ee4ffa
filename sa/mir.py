"""Extraction and loading of /repo's MIR (see ../driver)."""
import json, os, subprocess, sys, tempfile, shutil, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CRATES = ["common", "bddcore", "mddcore", "bss", "mss"]


class ExtractError(Exception):
    pass


def _sysroot_lib():
    out = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True)
    if out.returncode != 0:
        raise ExtractError("nightly toolchain missing: " + out.stderr)
    return os.path.join(out.stdout.strip(), "lib")


def ensure_driver():
    exe = os.path.join(VERIF, "driver", "target", "debug", "mirdump")
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet"],
                       cwd=os.path.join(VERIF, "driver"), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(exe):
        raise ExtractError("cannot build the MIR extractor:\n" + r.stderr[-4000:])
    os.utime(exe)
    return exe


def extract(outdir):
    exe = ensure_driver()
    env = dict(os.environ)
    lib = _sysroot_lib()
    env["LD_LIBRARY_PATH"] = lib + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    env["MIRDUMP_OUT"] = outdir
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    tgt = tempfile.mkdtemp(prefix="sa_target_")
    env["CARGO_TARGET_DIR"] = tgt
    try:
        r = subprocess.run(["cargo", "+nightly", "check", "--workspace", "--lib", "--offline", "--locked"],
                           cwd=REPO, env=env, capture_output=True, text=True)
    finally:
        shutil.rmtree(tgt, ignore_errors=True)
    if r.returncode != 0:
        raise ExtractError("cargo check failed on " + REPO + ":\n" + r.stderr[-4000:])
    for c in CRATES:
        if not os.path.exists(os.path.join(outdir, c + ".jsonl")):
            raise ExtractError("crate %s was not analysed" % c)


class Body:
    __slots__ = ("key", "name", "self_ty", "trait", "pub", "file", "line", "crate", "root", "params",
                 "argc", "locals", "names", "blocks", "promoted", "kind", "backs")

    def __init__(self, d, kind="body"):
        self.kind = kind
        self.key = d.get("key")
        self.name = d.get("name")
        self.self_ty = d.get("self")
        self.trait = d.get("trait")
        self.pub = d.get("pub")
        f = d.get("file") or ""
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        self.file = f
        self.line = d.get("line")
        self.crate = d.get("crate")
        self.root = d.get("root")
        self.params = d.get("params")
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.names = dict((a, b) for a, b in d.get("names", []))
        self.blocks = d["blocks"]
        self.promoted = [Body(dict(p, key=self.key, name=self.name, file=d.get("file"), line=d.get("line"), crate=d.get("crate")), "promoted") for p in d.get("promoted", [])]

    def self_adt(self):
        t = self.self_ty
        while t and t[0] in ("ref",):
            t = t[1]
        if t and t[0] == "adt":
            return t[1]
        return None

    def where(self):
        a = self.self_adt()
        return "%s: %s%s" % (self.file, (a.split("::")[-1] + "::") if a else "", self.name)


class Program:
    def __init__(self, outdir):
        self.bodies = {}
        self.adts = {}
        self.crates = []
        for c in CRATES:
            with open(os.path.join(outdir, c + ".jsonl")) as fh:
                for line in fh:
                    d = json.loads(line)
                    k = d["kind"]
                    if k == "crate":
                        self.crates.append(d["name"])
                    elif k == "body":
                        self.bodies[d["key"]] = Body(d)
                    elif k == "ext":
                        self.bodies.setdefault(d["key"], Body(d, "ext"))
                    elif k == "adt":
                        if d["key"] not in self.adts:
                            self.adts[d["key"]] = d
        self.index = {}
        for b in self.bodies.values():
            if b.kind != "body" or b.name == "{closure}":
                continue
            a = b.self_adt()
            self.index.setdefault((b.crate, a.split("::")[-1] if a else None, b.name), []).append(b)

    def find(self, crate, adt, name, trait=None):
        """The function `name` of type `adt` (or free function when adt is None) in crate."""
        c = self.index.get((crate, adt, name), [])
        if trait is not None:
            c = [b for b in c if b.trait and b.trait.split("::")[-1] == trait]
        elif len(c) > 1:
            d = [b for b in c if not b.trait]
            c = d or c
        return c[0] if len(c) == 1 else (c[0] if c else None)

    def adt_by_name(self, crate, name):
        for k, a in self.adts.items():
            if a["local"] and k.split("::")[0] == crate and k.split("::")[-1] == name:
                return a
        return None


def load(outdir=None):
    if outdir:
        return Program(outdir)
    d = tempfile.mkdtemp(prefix="sa_mir_")
    try:
        extract(d)
        return Program(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
