#!/usr/bin/env python3
"""Decides one property: check.py <id> quick|thorough, or check.py <id> replay <file>.

Builds the property's tests against /repo's working tree, runs them over
generated cases in several processes, and writes evidence/<id>.json.

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path>
exit 2: no answer (build error, time out, out of memory ...)
"""
import glob
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

from perturb import perturbed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
SHARDS = 4
QUICK_LIMIT, THOROUGH_LIMIT = 700, 860

# package, (quick scale, thorough scale), race detector
PROPS = json.load(open(os.path.join(VERIF, "bin", "checks.json")))


def env(extra=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off",
             GOWORK="off", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(extra or {})
    return e


def parts(prop):
    """the packages holding the property's tests; the first is the principal one"""
    return [PROPS[prop]] + PROPS[prop].get("also", [])


def build(cfg, scratch, perturb=False):
    """the package's tests; with the pool's schedule perturbed: None if that can't be built"""
    name = cfg["pkg"].replace("/", "_") + ("-perturbed" if perturb else "")
    out = os.path.join(scratch, name + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if perturb:
        try:
            mod = perturbed(HARNESS, scratch, env())
        except OSError:
            mod = None
        if not mod:
            return None
        cmd.append(mod)
    if cfg.get("race"):
        cmd.append("-race")
    cmd.append("./" + cfg["pkg"])
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        if perturb:
            print("can't perturb the schedule of the pool:\n" + r.stdout[-1000:])
            return None
        print("build failed:\n" + r.stdout[-4000:])
        sys.exit(2)
    return out


class Shard:
    def __init__(self, prop, pkg, binary, scratch, index, seed, scale):
        self.pkg = pkg
        self.perturbed = "-perturbed" in os.path.basename(binary)
        self.scale = scale
        self.dir = os.path.join(scratch, f"shard{index}")
        self.stats = os.path.join(self.dir, "stats")
        self.tmp = os.path.join(self.dir, "tmp")
        os.makedirs(self.stats)
        os.makedirs(self.tmp)
        self.current = os.path.join(self.dir, "current")
        self.log = os.path.join(self.dir, "log")
        self.seed = seed
        with open(self.log, "w") as log:
            self.proc = subprocess.Popen(
                [binary, "-test.run", f"^Test{prop}([^0-9].*)?$", "-test.timeout=0", "-test.v",
                 f"-rapid.seed={seed}", "-rapid.shrinktime=20s"],
                cwd=self.dir, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
                env=env({"VERIF_STATS": self.stats, "VERIF_CURRENT": self.current, "VERIF_SCALE": str(scale),
                         "TMPDIR": self.tmp, "GORACE": "halt_on_error=1 exitcode=66",
                         "GOTRACEBACK": "all"}))

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def text(self):
        with open(self.log, errors="replace") as f:
            return f.read()

    def verdict(self):
        """ok, violation or error, and a replay file"""
        rc, text = self.proc.returncode, self.text()
        if rc == 0:
            return "ok", None
        fails = sorted(glob.glob(os.path.join(self.dir, "testdata/rapid/*/*.fail")))
        if rc == 66 or "WARNING: DATA RACE" in text:
            return "violation", self.current
        if rc == 3 and "VERIF-HANG" in text:
            return "violation", self.current
        if "out of memory" in text or "cannot allocate memory" in text or "resource temporarily unavailable" in text:
            return "error", None
        if "VERIF-HARNESS" in text:
            return "error", None
        if rc == 1 and "--- FAIL" in text:
            return "violation", fails[0] if fails else self.log
        if rc == 2 and re.search(r"^(panic:|fatal error:)", text, re.M):
            return "violation", fails[0] if fails else self.current
        return "error", None


def replay(prop, path):
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        meta = {}
        side = path + ".json"
        if os.path.exists(side):
            meta = json.load(open(side))
        cfg = [x for x in parts(prop) if x["pkg"] == meta.get("pkg", PROPS[prop]["pkg"])][0]
        binary = (meta.get("perturbed") and build(cfg, scratch, True)) or build(cfg, scratch)
        test = meta.get("test", f"Test{prop}")
        if path.endswith(".fail"):
            args = [f"-rapid.failfile={os.path.abspath(path)}"]
        else:
            args = [f"-rapid.seed={meta.get('seed', 1)}"]
        r = subprocess.run([binary, "-test.run", f"^{test}$", "-test.v", "-test.timeout=0", "-rapid.nofailfile"] + args, cwd=scratch,
                           env=env({"VERIF_SCALE": str(meta.get("scale", 1)), "TMPDIR": scratch, "GORACE": "halt_on_error=1 exitcode=66"}))
        return 1 if r.returncode else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"KNOWN-FINDING: property={prop} "):
                print(line.rstrip())


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    if tier == "replay":
        sys.exit(replay(prop, sys.argv[3]))

    cfg = PROPS[prop]
    started = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    deep = 0 if tier == "quick" else 1
    limit = QUICK_LIMIT if tier == "quick" else THOROUGH_LIMIT
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    shards = []
    rc = 0
    violations = 0

    try:
        jobs = []
        for k, part in enumerate(parts(prop)):
            binary = build(part, scratch)
            n = (8 if deep else part.get("shards", SHARDS)) if k == 0 else (4 if deep else 1)
            other = (part.get("perturb") and build(part, scratch, True)) or binary
            jobs += [(part["pkg"], other if i % 2 else binary, part["scale"][deep]) for i in range(n)]
        # rapid takes 0 for "any seed", and wants it to be positive
        base = (abs(seed) * 1000 + (500 if seed < 0 else 0)) % (1 << 60)
        shards = [Shard(prop, pkg, binary, scratch, i, base + i + 1, scale)
                  for i, (pkg, binary, scale) in enumerate(jobs)]

        for s in shards:
            left = max(1, limit - (time.time() - started))
            try:
                s.proc.wait(left)
            except subprocess.TimeoutExpired:
                print(f"no answer: time limit of {limit}s reached")
                rc = 2
                break
            if s.proc.returncode != 0 and s.verdict()[0] == "violation":
                break
        for s in shards:
            if s.proc.poll() is None:
                if violations == 0 and rc == 0 and any(
                        x.proc.poll() not in (None, 0) for x in shards):
                    s.kill()
                    s.proc.returncode = 0  # stopped, once the answer was known
                else:
                    s.kill()

        for i, s in enumerate(shards):
            kind, path = s.verdict()
            if kind == "error" and rc == 0:
                print(f"no answer: shard {i} ended with {s.proc.returncode}\n{s.text()[-3000:]}")
                rc = 2
            if kind == "violation":
                violations += 1
                dest_dir = os.path.join(VERIF, "replays")
                os.makedirs(dest_dir, exist_ok=True)
                name = f"{prop}-{tier}-{s.seed}"
                test = f"Test{prop}"
                if path.endswith(".fail"):
                    test = os.path.basename(os.path.dirname(path))
                    dest = os.path.join(dest_dir, name + ".fail")
                else:
                    m = re.search(rf"^--- FAIL: (Test{prop}\w*)", s.text(), re.M)
                    if m:
                        test = m.group(1)
                    elif os.path.exists(s.current):
                        test = open(s.current, errors="replace").readline().strip() or test
                    dest = os.path.join(dest_dir, name + ".txt")
                if os.path.exists(path):
                    shutil.copyfile(path, dest)
                else:
                    shutil.copyfile(s.log, dest)
                shutil.copyfile(s.log, os.path.join(dest_dir, name + ".log"))
                with open(dest + ".json", "w") as f:
                    json.dump({"property": prop, "test": test, "pkg": s.pkg, "seed": s.seed, "scale": s.scale, "perturbed": s.perturbed,
                               "how": f"bin/check.py {prop} replay {dest}"}, f)
                text = s.text()
                m = re.search(r"\[rapid\] (failed|flaky|panic)|WARNING: DATA RACE|VERIF-HANG|^(panic:|fatal error:)|^--- FAIL", text, re.M)
                print(text[m.start() if m else 0:][:6000])
                print(f"VIOLATION property={prop} replay={dest}")
                rc = 1
                break
        evidence(prop, tier, seed, shards, time.time() - started, violations)
        if rc == 0:
            known(prop)
    finally:
        for s in shards:
            if s.proc.poll() is None:
                s.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def evidence(prop, tier, seed, shards, wall, violations):
    evals, nontrivial, hashes, samples, rules, classes = 0, 0, set(), [], {}, {}
    per = {}
    for s in shards:
        for f in sorted(glob.glob(os.path.join(s.stats, "*.json"))):
            d = json.load(open(f))
            evals += d["evaluations"]
            nontrivial += d["nontrivial"]
            rules[d["test"]] = d["rule"]
            p = per.setdefault(d["test"], {"evaluations": 0, "nontrivial": 0})
            p["evaluations"] += d["evaluations"]
            p["nontrivial"] += d["nontrivial"]
            for k, v in (d.get("classes") or {}).items():
                classes[d["test"] + ": " + k] = classes.get(d["test"] + ": " + k, 0) + v
            for x in d.get("samples") or []:
                if sum(1 for y in samples if y["test"] == d["test"]) < 3:
                    samples.append({"test": d["test"], "case": x})
            hf = f[:-5] + ".hashes"
            if os.path.exists(hf):
                b = open(hf, "rb").read()
                hashes.update(struct.unpack(f"<{len(b) // 8}Q", b))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": PROPS[prop].get("level", "exploration"),
        "coverage": {
            "evaluations": evals,
            "nontrivial": nontrivial,
            "distinct_nontrivial": len(hashes),
            "rule": " || ".join(f"{k}: {v}" for k, v in sorted(rules.items())),
            "classes": classes,
            "tests": per,
            "processes": len(shards),
            "processes_perturbed": sum(s.perturbed for s in shards),
            "samples": samples,
        },
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)


main()
