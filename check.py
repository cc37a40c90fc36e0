#!/usr/bin/env python3
"""Run the static check of one property on /repo's working tree.

  check.py C03            decide property C03 (tier from VERIF_TIER, default quick)
  check.py --setup        build the analysis driver and the analysed crate's dependencies
"""
import concurrent.futures, fcntl, json, os, pathlib, re, shutil, subprocess, sys, threading, time

ROOT = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("QRAI_REPO", "/repo"))
BUILD = ROOT / "build"
DRIVER = ROOT / "qrai/target/release/qrai"
TRIPLE = "x86_64-unknown-linux-gnu"
TOTAL = 800  # seconds for one check
UNIT = 280  # seconds for one of its parts

sys.path.insert(0, str(ROOT))
from checks_config import CHECKS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS",
              "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env["HOME"] = env.get("HOME", "/root")
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    env["CARGO_INCREMENTAL"] = "0"
    return env


def die(msg, code=2):
    print(msg, flush=True)
    sys.exit(code)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(["rustc", "--print", "sysroot"], env=base_env()).stdout.strip().splitlines()[-1]
    return _sysroot


def build_driver():
    r = sh(["cargo", "build", "--release", "--offline"], cwd=ROOT / "qrai", env=base_env())
    if r.returncode or not DRIVER.exists():
        die("cannot build the analysis driver\n" + r.stdout[-3000:])


def std_sysroot():
    """A sysroot whose standard library carries MIR (built from rust-src by `cargo miri setup`)."""
    for d in (pathlib.Path("/root/.cache/miri"), BUILD / "miri"):
        if (d / "lib/rustlib" / TRIPLE / "lib").exists():
            return d
    env = base_env()
    env["MIRI_SYSROOT"] = str(BUILD / "miri")
    r = sh(["cargo", "miri", "setup", "--target", TRIPLE], env=env)
    if (BUILD / "miri/lib/rustlib" / TRIPLE / "lib").exists():
        return BUILD / "miri"
    die("no standard library with MIR available\n" + r.stdout[-2000:])


def record():
    """How cargo compiles the crate: the analysis uses the same arguments."""
    args = BUILD / "args.txt"
    env = base_env()
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    env["CARGO_TARGET_DIR"] = str(BUILD / "target")
    env["RUSTFLAGS"] = f"--sysroot {std_sysroot()} -Zalways-encode-mir"
    env["RUSTC_WORKSPACE_WRAPPER"] = str(DRIVER)
    env["QRAI_RECORD"] = str(args)
    args.unlink(missing_ok=True)
    out = ""
    for attempt in range(2):
        for sub in (f"{TRIPLE}/debug/.fingerprint", f"{TRIPLE}/debug/build"):
            d = BUILD / "target" / sub
            if d.exists():
                for x in d.iterdir():
                    if x.name == "rqrr" or x.name.startswith("rqrr-"):
                        shutil.rmtree(x, ignore_errors=True)
        r = sh(["cargo", "check", "--lib", "--offline", "--locked", "--target", TRIPLE], cwd=REPO, env=env)
        out = r.stdout
        if args.exists():
            return args
        shutil.rmtree(BUILD / "target", ignore_errors=True)
    die("cargo cannot compile the crate\n" + out[-3000:])


def run_unit(prop, tier, unit, public, tmp, args, deadline, stop, crowded):
    out = tmp / f"{unit}.json"
    out.unlink(missing_ok=True)
    wd = tmp / f"w{unit}"
    wd.mkdir(exist_ok=True)
    env = base_env()
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    left = min(deadline - time.time(), UNIT if tier == "quick" and crowded else deadline)
    if stop.is_set():
        return unit, {"obligations": 1, "decided": 0, "violations": [], "undecided": [f"unit {unit}: not run after a violation"], "notes": [], "counters": {}}
    cmd = [str(DRIVER), "--repo", str(REPO), "--args", str(args), "--prop", prop, "--tier", tier, "--out", str(out),
           "--tmp", str(wd), "--only", str(unit)]
    if public:
        cmd.append("--public")
    if left < 20:
        return unit, {"obligations": 1, "decided": 0, "violations": [], "undecided": [f"unit {unit}: time budget"], "notes": [], "counters": {}}
    cmd += ["--seconds", str(int(left - 12))]
    log = ""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    end = time.time() + left
    while True:
        try:
            log = p.communicate(timeout=1)[0][-1500:]
            break
        except subprocess.TimeoutExpired:
            if stop.is_set() or time.time() > end:
                p.kill()
                p.communicate()
                log = "not finished after a violation" if stop.is_set() else "time budget"
                break
    if out.exists():
        try:
            return unit, json.loads(out.read_text())
        except ValueError:
            pass
    return unit, {"obligations": 1, "decided": 0, "violations": [], "undecided": [f"unit {unit}: {log}"], "notes": [], "counters": {}}


def analyse(prop, cfg, tier, args):
    tmp = BUILD / "work" / prop
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir(parents=True)
    units = cfg["units"] if tier == "quick" else cfg.get("units_thorough", cfg["units"])
    deadline = time.time() + (TOTAL if tier == "quick" else cfg.get("thorough_seconds", 6000))
    public = False
    while True:
        res, stop = [], threading.Event()
        with concurrent.futures.ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 8)) as ex:
            fs = [ex.submit(run_unit, prop, tier, u, public, tmp, args, deadline, stop, len(units) > 8) for u in units]
            for f in concurrent.futures.as_completed(fs):
                res.append(f.result())
                if any(not is_known(prop, v) for v in res[-1][1]["violations"]):
                    stop.set()
        if not public and cfg.get("private") and all(any("does not type-check" in u for u in r["undecided"]) for _, r in res):
            print(f"{prop}: private items changed, using the public interface only")
            public = True
            continue
        break
    shutil.rmtree(tmp, ignore_errors=True)
    tot = {"obligations": 0, "decided": 0, "violations": [], "undecided": [], "notes": [], "counters": {}}
    for u, r in sorted(res, key=lambda x: str(x[0])):
        tot["obligations"] += r["obligations"]
        tot["decided"] += r["decided"]
        for k in ("violations", "undecided", "notes"):
            tot[k] += r[k]
        for k, v in r["counters"].items():
            if k.endswith("_max"):
                tot["counters"][k] = max(v, tot["counters"].get(k, 0))
            else:
                tot["counters"][k] = tot["counters"].get(k, 0) + v
    tot["public"] = public
    return tot


def known_findings():
    p = ROOT / "known-findings.txt"
    r = []
    if p.exists():
        for l in p.read_text().splitlines():
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
            if m:
                r.append(m.groups())
    return r


def is_known(prop, v):
    return any(f[0] == prop and f[1] in v["site"] + " " + v["what"] for f in known_findings())


def main():
    BUILD.mkdir(exist_ok=True)
    lock = open(BUILD / "lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if sys.argv[1:] == ["--setup"]:
        build_driver()
        record()
        print("ready")
        return
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    cfg = CHECKS[prop]
    t0 = time.time()
    if cfg.get("special"):
        import special
        tot = getattr(special, cfg["special"])(sys.modules[__name__], tier)
    else:
        build_driver()
        tot = analyse(prop, cfg, tier, record())
    known, fresh = [], []
    for v in tot["violations"]:
        (known if is_known(prop, v) else fresh).append(v)
    (ROOT / "evidence").mkdir(exist_ok=True)
    expected = cfg.get("min_obligations", 1)
    cov = {
        "rule": cfg["rule"],
        "obligations": tot["obligations"],
        "discharged": tot["decided"] - len(tot["violations"]),
        "undecided": len(tot["undecided"]),
        "undecided_list": tot["undecided"][:20],
        "counters": tot["counters"],
        "checker_cmd": f"python3 check.py {prop}",
        "trusted_base": cfg.get("trusted", TRUSTED),
        "explanation": cfg["rule"],
        "samples": tot["notes"][:10],
    }
    if tot.get("public"):
        cov["public_interface_only"] = True
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": cfg["level"],
        "coverage": cov,
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for v in known:
        print(f"KNOWN-FINDING: property={prop} {v['site']}: {v['what'][:300]}")
    print(f"{prop}: {tot['obligations']} obligations, {tot['decided']} decided, {len(tot['undecided'])} undecided, "
          f"{len(tot['violations'])} violated ({ev['wall_s']} s)")
    for u in tot["undecided"][:5]:
        print("  undecided:", u[:400])
    if fresh:
        d = ROOT / "evidence" / "replay"
        d.mkdir(exist_ok=True)
        p = d / f"{prop}.txt"
        with p.open("w") as f:
            f.write(f"property {prop}; reproduce the verdict: python3 check.py {prop} (in /verif)\n\n")
            for v in fresh:
                f.write(f"at   {v['site']}\nwhat {v['what']}\n")
                if v.get("witness"):
                    f.write("member of the analysed set of inputs that shows it:\n" + v["witness"] + "\n")
                f.write("\n")
        for v in fresh[:5]:
            print(f"  at {v['site']}: {v['what'][:500]}")
        print(f"VIOLATION property={prop} replay={p}")
        sys.exit(1)
    if any("does not type-check" in u for u in tot["undecided"]) and not tot["violations"]:
        # the crate compiles, but the items this check is about have other names or types now
        print(f"{prop}: NOT DECIDED: the check has to be adapted to the changed private items")
        sys.exit(0)
    if tot["decided"] == 0:
        print(f"{prop}: NOT DECIDED: nothing of {tot['obligations']} obligations, {expected} expected")
        sys.exit(0)
    if tot["obligations"] < expected:
        print(f"{prop}: PARTLY DECIDED: {tot['obligations']} obligations, {expected} expected")
    sys.exit(0)


TRUSTED = [
    "rustc front end: type checking, MIR construction and monomorphisation",
    "qrai: abstract transfer functions for MIR statements and compiler intrinsics",
    "qrai/src/spec.rs: the standard's tables and rules, written independently of the crate",
]

if __name__ == "__main__":
    main()
