"""Checks that are decided by the compiler: programs against the public interface that must, or must not, be accepted."""
import json, os, pathlib, shutil, subprocess


def _extern(args):
    r, l = [], args.read_text().splitlines()
    for i, a in enumerate(l):
        if a in ("--extern", "-L"):
            r += [a, l[i + 1]]
            if "=/" in l[i + 1] and a == "--extern":
                r += ["-L", "dependency=" + os.path.dirname(l[i + 1].split("=", 1)[1])]
    return r


def _errors(out):
    r = []
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("level", "").startswith("error"):
            c = (m.get("code") or {}).get("code")
            s = m.get("spans") or [{}]
            if not c and "aborting due to" in m.get("message", ""):
                continue
            r.append((c, m.get("message", ""), s[0].get("line_start", 0)))
    return r


# the interface itself is gone or has another shape: nothing is said about the property
SHAPE = {"E0432", "E0433", "E0425", "E0412", "E0405", "E0599", "E0560", "E0609", "E0061", "E0107", "E0407", "E0046", "E0050", "E0053",
         "E0308", "E0616", "E0603", "E0624", "E0220", "E0282", "E0283", "E0437", "E0463", "E0573", "E0631", None}


def borrow(check, tier):
    check.build_driver()
    args = check.record()
    tmp = check.BUILD / "work" / "C29"
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir(parents=True)
    env = check.base_env()
    std = check.std_sysroot()
    tot = {"obligations": 0, "decided": 0, "violations": [], "undecided": [], "notes": [], "counters": {}}
    ext = _extern(args)
    # the crate as it is now
    l = args.read_text().splitlines()
    mine, skip = [], False
    for a in l[1:]:
        if skip:
            skip = False
            continue
        if a in ("-C", "--out-dir"):
            skip = True
            continue
        if a.startswith(("--error-format", "--json", "--emit", "-Cincremental", "-Cmetadata", "--diagnostic-width")):
            continue
        mine.append(a)
    lib = tmp / "librqrr.rmeta"
    r = check.sh([l[0]] + mine + ["--emit=metadata", "--cap-lints=allow", "-o", str(lib)], cwd=check.REPO, env=env)
    if not lib.exists():
        check.die("the crate does not compile\n" + r.stdout[-2000:])
    base = [l[0], "--edition=2021", "--crate-type", "lib", "--emit=metadata", "--cap-lints=allow", "--error-format=json", "--sysroot", str(std),
            "--target", check.TRIPLE, "--extern", f"rqrr={lib}"] + ext

    def compile_(name, text):
        f = tmp / f"{name}.rs"
        f.write_text(text)
        r = check.sh(base + ["--crate-name", name, "-o", str(tmp / f"lib{name}.rmeta"), str(f)], env=env)
        return r.returncode, _errors(r.stdout), r.stdout

    for f in sorted((check.ROOT / "witness").glob("*.rs")):
        text = f.read_text()
        doc = next(x[3:] for x in text.splitlines() if x.startswith("// "))
        name = f.stem
        if name.startswith("pass_"):
            tot["obligations"] += 1
            rc, errs, out = compile_(name, text)
            if rc == 0:
                tot["decided"] += 1
                tot["notes"].append(f"{name}: accepted. {doc}")
                continue
            hard = [e for e in errs if e[0] not in SHAPE]
            if hard and len(hard) == len(errs):
                tot["decided"] += 1
                c, m, line = hard[0]
                tot["violations"].append({"site": f"witness/{f.name}:{line}", "what": f"a program that should be accepted is rejected ({c}: {m}). {doc}",
                                          "witness": text.splitlines()[line - 1].strip() if line else ""})
            else:
                tot["undecided"].append(f"{name}: the interface has another shape: {errs[:1]} {out[-300:] if not errs else ''}")
            continue
        codes = set(text.splitlines()[0].split("codes:")[1].strip().split(","))
        lines = text.splitlines()
        good = "\n".join("" if x.endswith("//bad") else x for x in lines) + "\n"
        rc, errs, out = compile_(name + "_control", good)
        if rc:
            tot["obligations"] += 1
            tot["undecided"].append(f"{name}: the control program is rejected: {errs[:1]} {out[-300:] if not errs else ''}")
            continue
        for i, x in enumerate(lines):
            if not x.endswith("//bad"):
                continue
            tot["obligations"] += 1
            one = "\n".join("" if (y.endswith("//bad") and j != i) or y.endswith("//good") else y for j, y in enumerate(lines)) + "\n"
            rc, errs, out = compile_(f"{name}_{i}", one)
            if rc == 0:
                tot["decided"] += 1
                tot["violations"].append({"site": f"witness/{f.name}:{i + 1}", "what": f"a program that should be rejected is accepted. {doc}", "witness": one})
            elif errs and all(e[0] in codes for e in errs):
                tot["decided"] += 1
                tot["notes"].append(f"{name}:{i + 1}: rejected ({errs[0][0]}). {doc}")
            else:
                tot["undecided"].append(f"{name}:{i + 1}: rejected for another reason: {errs[:3]}")
    tot["counters"]["programs"] = tot["obligations"]
    shutil.rmtree(tmp, ignore_errors=True)
    return tot
