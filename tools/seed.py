#!/usr/bin/env python3
"""Create a planted change: seed.py spec.json
spec: {id, property, needs, what_it_breaks, edits: [[file, old, new], ...], main: rust source}
Confirms in a scratch copy that it builds, passes the stable tests, and that the demo tells the trees apart."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(s):
    d = V / "seeded" / s["id"]
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    for f in ("demo.sh", "qr.rs"):
        shutil.copy(V / "tools/demo" / f, d / f)
    (d / "main.rs").write_text(s["main"])
    (d / "meta.json").write_text(json.dumps({k: s[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
    t = pathlib.Path(tempfile.mkdtemp(prefix="seed", dir="/tmp"))
    try:
        shutil.copytree("/repo", t / "r", ignore=shutil.ignore_patterns("target"))
        r = t / "r"
        for f, a, b in s["edits"]:
            p = r / f
            x = p.read_text()
            assert x.count(a) == 1, (s["id"], f, x.count(a), a)
            p.write_text(x.replace(a, b))
        (d / "patch.diff").write_text(sh("git diff", r).stdout)
        env = dict(os.environ, CARGO_TARGET_DIR="/tmp/seedtarget", CARGO_NET_OFFLINE="true")
        a = sh("cargo test --offline 2>&1", r, env=env)
        fails = [l for l in a.stdout.splitlines() if l.endswith("FAILED") or l.startswith("error")]
        x = sh(f"bash {d}/demo.sh", "/repo")
        y = sh(f"bash {d}/demo.sh", r)
        ok = a.returncode == 0 and x.returncode == 0 and y.returncode != 0
        print(s["id"], "OK" if ok else "BAD", "tests", a.returncode, fails[:6], "demo clean", x.returncode, "patched", y.returncode)
        if not ok:
            print(x.stdout[-800:], "\n---", y.stdout[-800:])
        else:
            print("   ", y.stdout.strip()[-200:])
    finally:
        shutil.rmtree(t, ignore_errors=True)
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for s in g["SEEDS"]:
        one(s)
