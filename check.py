#!/usr/bin/env python3
"""Run one property's check: mirror /repo, build the property's binary against it, run it.

  check.py C05            the check (tier and seed from VERIF_TIER / VERIF_SEED)
  check.py C05 --replay F re-run one replay file
  check.py --setup        build everything

Exit 0: held on everything explored.  1: a VIOLATION line was printed.  2: the check itself could not run.
"""
import os, subprocess, sys, json, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
# property -> list of (binary, cargo features, config name)
CONFIGS = {
    "C24": [("c24", "left", "left"), ("c24", "fake_exp", "fake_exp"), ("c24", "left,fake_exp", "left_fake_exp")],
    "C23": [("c23", "rerun", "")],
    "C26": [("c26", "f32", "f32"), ("c26", "rayon", "rayon")],
}


def env():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", f". {HERE}/env.sh; env -0"], capture_output=True, check=True, env=e).stdout
    e = dict(x.split("=", 1) for x in out.decode().split("\0") if "=" in x)
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target")
    e["VERIF_DIR"] = HERE
    return e


def build(bins, features, e):
    cmd = ["cargo", "build", "--release", "--offline", "--quiet"]
    for b in bins:
        cmd += ["--bin", b]
    if features:
        cmd += ["--features", features]
    # rustc's lints on the repository's own code are not our business
    r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=e, capture_output=True, text=True)
    return r


def run_bin(b, e, extra=()):
    return subprocess.run([os.path.join(HERE, "target", "release", b), *extra], env=e).returncode


def main():
    a = sys.argv[1:]
    e = env()
    lock = open(os.path.join(HERE, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    subprocess.run([sys.executable, os.path.join(HERE, "mirror.py")], check=True)
    os.makedirs(os.path.join(HERE, "out", "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    if a and a[0] == "--setup":
        plain = [p.lower() for p in props if p not in CONFIGS and p != "C22"]
        jobs = [(plain, "")] + [([b], f) for p in props for b, f, _ in CONFIGS.get(p, [])]
        for bins, feats in jobs:
            r = build(bins, feats, e)
            if r.returncode:
                sys.stderr.write(r.stderr[-6000:])
                return 2
        if "C22" in props:
            sys.path.insert(0, HERE)
            import fac_check
            fac_check.setup(e)
        return 0
    prop = a[0]
    if "--thorough" in a:
        a.remove("--thorough")
        e["VERIF_TIER"] = "thorough"
    if prop == "C22":
        sys.path.insert(0, HERE)
        import fac_check
        return fac_check.main(prop, a[1:], e)
    worst = 0
    todo = CONFIGS.get(prop, [(prop.lower(), "", "")])
    evs = []
    for b, feats, cfg in todo:
        r = build([b], feats, e)
        if r.returncode:
            sys.stderr.write(r.stderr[-6000:])
            # C28 is about macros: the library builds, but a documented form of a macro does not compile
            if prop == "C28" and not build(["c27"], "", e).returncode:
                rep = os.path.join(HERE, "out", "replays", "C28-rejected.json")
                json.dump({"property": prop, "rejected_by_the_compiler": r.stderr[-6000:]}, open(rep, "w"), indent=1)
                print("a form of the assertion helpers is rejected by the compiler")
                print(f"VIOLATION property={prop} replay={rep}")
                return 1
            print(f"check of {prop} could not be built")
            return 2
        ee = dict(e, VERIF_CONFIG=cfg) if cfg else e
        if len(a) > 2 and a[1] == "--replay":
            if cfg and json.load(open(a[2])).get("config") != cfg:
                continue
            return run_bin(b, ee, ["--replay", a[2]])
        rc = run_bin(b, ee)
        if rc < 0 or rc > 2:
            # killed by a signal: run again one case at a time, noting each before it starts
            trace = os.path.join(HERE, "out", f"trace-{prop}")
            rc2 = run_bin(b, ee, ["--trace"])
            if rc2 < 0 or rc2 > 2:
                rep = os.path.join(HERE, "out", "replays", f"{prop}-crash.json")
                where = open(trace).read() if os.path.exists(trace) else "?"
                json.dump({"property": prop, "config": cfg, "crash": where, "returncode": rc2,
                           "seed": e.get("VERIF_SEED", "1")}, open(rep, "w"))
                print(f"the process died (code {rc2}) in case: {where}")
                print(f"VIOLATION property={prop} replay={rep}")
                rc = 1
            else:
                rc = rc2
        if rc == 2:
            return 2
        worst = max(worst, rc)
        if cfg:
            evs.append(os.path.join(HERE, "evidence", f"{prop}.{cfg}.json"))
    if evs:
        merge(prop, evs)
    return worst


def merge(prop, files):
    """One evidence file for a property checked in several build configurations."""
    ds = [json.load(open(f)) for f in files]
    out = dict(ds[0])
    out.pop("config", None)
    cov = dict(ds[0]["coverage"])
    cov["evaluations"] = sum(d["coverage"]["evaluations"] for d in ds)
    cov["distinct_nontrivial"] = sum(d["coverage"]["distinct_nontrivial"] for d in ds)
    cov["sub_checks"] = {f'{d["config"]}/{k}': v for d in ds for k, v in d["coverage"]["sub_checks"].items()}
    cov["samples"] = [dict(s, config=d["config"]) for d in ds for s in d["coverage"]["samples"][:4]]
    out["coverage"] = cov
    out["wall_s"] = sum(d["wall_s"] for d in ds)
    out["violations"] = sum(d["violations"] for d in ds)
    json.dump(out, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    for f in files:
        os.unlink(f)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as x:  # noqa
        sys.stderr.write(f"check error: {x!r}\n")
        sys.exit(2)
