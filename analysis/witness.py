"""compile-fail witnesses with compiling twins, judged by rustc's type and borrow checker on the current crate"""
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

# resolution errors: the witness does not fit the interface any more (it says nothing about the rule)
UNFIT = {"E0432", "E0433", "E0425", "E0412", "E0405", "E0407", "E0599", "E0061", "E0107", "E0191", "E0220", "E0603", "E0583", "E0463", "E0460", "E0786"}


def cases(path):
    out, cur, pre = [], None, []
    for line in open(path):
        if line.startswith("## "):
            if line.strip() == "## prelude":
                cur = pre
            else:
                _, pid, title = line.strip().split(" ", 2)
                cur = []
                out.append((pid, title, cur))
        elif cur is not None:
            cur.append(line)
    return "".join(pre), [(p, t, "".join(c)) for p, t, c in out]


def pick(text, good):
    return re.sub(r"@\[(.*?)\|(.*?)\]@", lambda m: m.group(2 if good else 1), text, flags=re.S)


class Rustc:
    def __init__(self, lib, tmp):
        self.lib, self.tmp = lib, tmp

    def run(self, name, src):
        """None if accepted, else the errors [(code, line, message)]"""
        f = os.path.join(self.tmp, name + ".rs")
        with open(f, "w") as o:
            o.write(src)
        env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN")}
        p = subprocess.run(["rustc", "+nightly", "--edition", "2024", "--crate-type", "lib", "--emit", "metadata", "--error-format", "json", "-A", "warnings",
                            "--crate-name", name, "--out-dir", self.tmp, "--extern", "cfg_noodle=" + self.lib["rmeta"],
                            f] + [x for d in self.lib["deps"] for x in ("-L", "dependency=" + d)], capture_output=True, text=True, env=env)
        if p.returncode == 0:
            return None
        errs = []
        for line in p.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") == "error" and m.get("spans"):
                errs.append(((m.get("code") or {}).get("code"), m["spans"][0]["line_start"], m["message"]))
        return errs or [(None, 0, p.stderr[-400:])]


class WitnessJob:
    def __init__(self, pid, config="core"):
        self.pid, self.config = pid, config
        self.witness = True

    def __str__(self):
        return "compile-fail witnesses (%s)" % self.config

    def run(self, p, a, r):
        here = os.path.dirname(os.path.abspath(__file__))
        pre, cs = cases(os.path.join(here, "..", "witness", "cases.txt"))
        cs = [c for c in cs if c[0] == self.pid]
        lib = self.libs[self.config]
        rc = Rustc(lib, lib["tmp"])
        jobs = []
        for i, (pid, title, text) in enumerate(cs):
            jobs.append((i, False, pre + pick(text, False)))
            jobs.append((i, True, pre + pick(text, True)))
        with ThreadPoolExecutor(8) as ex:
            res = dict(((i, g), x) for (i, g, _), x in zip(jobs, ex.map(lambda j: rc.run("%s_%d_%s" % (self.pid.lower(), j[0], "good" if j[1] else "bad"), j[2]), jobs)))
        for i, (pid, title, text) in enumerate(cs):
            bad, good = res[(i, False)], res[(i, True)]
            if good is not None and any(c in UNFIT for c, _, _ in good):
                # the permitted program does not compile either: this witness cannot decide anything
                raise Exception("witness '%s': its permitted twin does not compile: %s" % (title, good[:2]))
            unfit = bad is not None and all(c in UNFIT for c, _, _ in bad)
            ok = bad is not None and not unfit
            r.obligations.append((self.pid, "witness", "witness/cases.txt", title, 1, 0 if ok else 1))
            if good is not None:
                r.notes.append("%s: the permitted twin is rejected as well: %s" % (title, good[0][2]))
            elif ok:
                r.notes.append("%s: rejected with %s: %s" % (title, bad[0][0], bad[0][2]))
            else:
                r.violations.append({"rule": self.pid, "file": "witness/cases.txt", "line": None, "function": "witness", "construct": title,
                                     "message": "safe code can do this: " + title if not unfit else "the witness does not fit the interface",
                                     "path": pick(text, False).splitlines()})
        r.stats = {"entry": "witness/cases.txt", "config": self.config, "witnesses": len(cs)}
