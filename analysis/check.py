#!/usr/bin/env python3
"""check.py ID: decide one property from /repo's current source, write evidence/ID.json"""
import fcntl
import importlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CRATE = os.path.join(REPO, "crates/cfg-noodle")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from engine import Engine  # noqa: E402
from specs import SPECS, CONFIGS, Job, CheckError  # noqa: E402


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def toolenv():
    rc, out = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise CheckError("no nightly toolchain: %s" % out[-300:])
    return {
        "LD_LIBRARY_PATH": out.strip() + "/lib", "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0",
        "RUSTFLAGS": "", "CARGO_TERM_COLOR": "never",
    }


def build_driver(env):
    src, exe = os.path.join(VERIF, "driver/main.rs"), os.path.join(BUILD, "driver")
    if os.path.exists(exe) and os.path.getmtime(exe) > os.path.getmtime(src):
        return exe
    tmp = exe + ".%d" % os.getpid()
    rc, out = sh(["rustc", "+nightly", "-O", "--edition", "2024", src, "-o", tmp], env)
    if rc:
        raise CheckError("the driver does not build:\n" + out[-2000:])
    os.replace(tmp, exe)
    return exe


def dump(config):
    """compile the crate with the driver as compiler wrapper; returns the program dump"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = toolenv()
        exe = build_driver(env)
        out = os.path.join(BUILD, "dump-%s-%d.json" % (config, os.getpid()))
        target = os.path.join(BUILD, "target")
        env.update(CARGO_TARGET_DIR=target, VERIF_DUMP=out, RUSTC_WORKSPACE_WRAPPER=exe)
        forget(target)
        args = ["cargo", "+nightly", "check", "--lib", "--offline", "--locked"] + CONFIGS[config]
        rc, text = sh(args, env, CRATE)
        if rc or not os.path.exists(out):
            raise CheckError("the crate does not build in configuration %s:\n%s" % (config, text[-3000:]))
    return out


def forget(target):
    """make cargo build the crate anew, whatever the time stamps say"""
    fp = os.path.join(target, "debug/.fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith("cfg-noodle-"):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    shutil.rmtree(os.path.join(target, "debug/build/cfg-noodle"), ignore_errors=True)


def library(config):
    """compile the crate as it is, for the witness programs: {rmeta, deps, tmp}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = toolenv()
        target = os.path.join(BUILD, "target")
        env.update(CARGO_TARGET_DIR=target)
        forget(target)
        rc, text = sh(["cargo", "+nightly", "check", "--lib", "--offline", "--locked", "--message-format", "json"] + CONFIGS[config], env, CRATE)
        rmeta, deps = None, set()
        for line in text.splitlines():
            if line.startswith("{") and '"compiler-artifact"' in line:
                m = json.loads(line)
                deps |= {os.path.dirname(f) for f in m["filenames"]}
                if m["target"]["name"] == "cfg_noodle" and "lib" in m["target"]["kind"]:
                    rmeta = next((f for f in m["filenames"] if f.endswith(".rmeta")), None)
        if rc or not rmeta:
            raise CheckError("the crate does not build in configuration %s:\n%s" % (config, text[-3000:]))
        tmp = tempfile.mkdtemp(prefix="witness-", dir=BUILD)
        own = os.path.join(tmp, os.path.basename(rmeta))
        shutil.copy(rmeta, own)
        return {"rmeta": own, "deps": sorted(deps), "tmp": tmp}


class Result:
    def __init__(self):
        self.obligations = []     # [rule, function, file, construct, count, fails]
        self.violations = []
        self.stats = {}
        self.notes = []


def run_jobs(jobs, dumps, par):
    """run the jobs in worker processes (the programs are loaded before the fork)"""
    import base
    global _progs
    _progs = {}
    for j in jobs:
        if j.config in dumps and j.config not in _progs:
            p = base.Program(dumps[j.config])
            _progs[j.config] = (p, base.Anchors(p))
    ctx = multiprocessing.get_context("fork")
    if len(jobs) == 1 or par == 1:
        return [run_job(j) for j in jobs]
    with ctx.Pool(min(par, len(jobs))) as pool:
        return pool.map(run_job, jobs, chunksize=1)


def run_job(j):
    r = Result()
    try:
        t = time.time()
        p, a = _progs.get(j.config, (None, None))
        j.run(p, a, r)
        r.stats.setdefault("wall_s", round(time.time() - t, 2))
        r.stats["job"] = str(j)
        return r
    except Exception:
        r.stats["job"] = str(j)
        r.error = traceback.format_exc()
        return r


def known(pid):
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out.append((key, what))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    Engine.deadline = time.monotonic() + 700
    spec = SPECS[pid]
    jobs = spec.jobs(tier)
    configs = sorted({c for j in jobs for c in ([j.config] if j.config else []) + list(getattr(j, "also", ()))})
    dumps, libs = {}, {}
    try:
        for c in configs:
            if any(c in ([j.config] + list(getattr(j, "also", ()))) for j in jobs if not hasattr(j, "witness")):
                dumps[c] = dump(c)
            if any(c == j.config for j in jobs if hasattr(j, "witness")):
                libs[c] = library(c)
        for j in jobs:
            j.dumps, j.libs = dumps, libs
        res = run_jobs(jobs, dumps, 8)
    finally:
        for x in libs.values():
            shutil.rmtree(x["tmp"], ignore_errors=True)
        for f in dumps.values():
            if os.path.exists(f):
                os.remove(f)
    errors = [r for r in res if getattr(r, "error", None)]
    if errors:
        for r in errors:
            print("ERROR in %s\n%s" % (r.stats.get("job"), r.error), file=sys.stderr)
        sys.exit(2)
    obl, viols, seen = {}, [], set()
    for r in res:
        for rule, fn, f, construct, n, fails in r.obligations:
            o = obl.setdefault((rule, construct, f, fn), [0, 0])
            o[0] += n
            o[1] += fails
        for v in r.violations:
            key = "%s|%s|%s" % (v.get("file"), v.get("function"), v.get("construct"))
            if key not in seen:
                seen.add(key)
                viols.append(dict(v, key=key, config=r.stats.get("config")))
    # constructs that must exist for the property to be about anything
    found = {c for (_, c, _, _) in obl}
    gaps = sorted({g for r in res for g in getattr(r, "gaps", ())})
    for c in spec.required:
        if c not in found and not gaps:
            viols.append({"key": "-|-|missing: %s" % c, "file": "-", "function": "-", "construct": "missing: %s" % c,
                          "message": "no program point with this obligation was found: the code no longer does what the property is about", "path": []})
    total = sum(o[0] for o in obl.values())
    failed = sum(o[1] for o in obl.values())
    kn = known(pid)
    fresh = []
    for v in viols:
        hit = [w for k, w in kn if k == v["key"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]))
        else:
            fresh.append(v)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec.level,
        "coverage": {
            "explanation": spec.explain,
            "rule": spec.rule,
            "obligation_sites": len(obl),
            "obligations": total,
            "discharged": total - failed,
            "configurations": configs,
            "entries": [r.stats for r in res],
            "sites": [{"rule": k[0], "construct": k[1], "file": k[2], "function": k[3], "checked": o[0], "failed": o[1]}
                      for k, o in sorted(obl.items(), key=lambda x: str(x[0]))],
            "notes": [n for r in res for n in r.notes],
            "complete": not gaps,
            "not_followed": gaps,
        },
        "assumptions": spec.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    replay = os.path.join(VERIF, "evidence", pid + ".violations.json")
    if os.path.exists(replay):
        os.remove(replay)
    if fresh:
        with open(replay, "w") as f:
            json.dump(fresh, f, indent=1, default=str)
        for v in fresh[:20]:
            print("%s:%s %s: %s" % (v.get("file"), v.get("line", "?"), v.get("function"), v.get("message")))
            for s in (v.get("path") or [])[-14:]:
                print("    " + str(s))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.exit(1)
    for g in gaps:
        print("INCOMPLETE: %s" % g)
    print("%s: %d obligations at %d sites discharged in %.1fs" % (pid, total, len(obl), time.time() - t0))


if __name__ == "__main__":
    try:
        main()
    except CheckError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
