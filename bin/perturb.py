"""A copy of the worker pool (github.com/snivilised/pants) whose schedule is
perturbed: at the points where its goroutines interact they now and then yield
or sleep for a moment, so that orders of events come about that otherwise take
a loaded machine and luck. Nothing else of the pool is different."""
import os
import re
import shutil
import stat
import subprocess

JITTER = """package jitter

import (
	"math/rand/v2"
	"runtime"
	"time"
)

// At a point where goroutines interact.
func At() {
	switch rand.IntN(8) {
	case 0:
		time.Sleep(time.Duration(rand.IntN(300)) * time.Microsecond)
	case 1, 2:
		runtime.Gosched()
	}
}
"""

ANTS = "internal/third/ants/"

# file: lines before which, and after which, it is perturbed
POINTS = {
    ANTS + "pool-func.go": (
        ["w, err := p.retrieveWorker()", "p.addWaiting(1)", "worker.lastUsed = p.nowTime()"],
        ["w, err := p.retrieveWorker()", "p.addWaiting(-1)", "worker.lastUsed = p.nowTime()"]),
    ANTS + "worker-func.go": (
        ["w.pool.addRunning(-1)", "w.pool.cond.Signal()", "w.pool.poolFunc(input)"],
        ["w.pool.addRunning(-1)", "w.pool.poolFunc(input)"]),
    ANTS + "worker-pool.go": (
        ["if p.stopPurge != nil {"],
        ["p.stopTicktock = nil"]),
    "generic-pool.go": (
        ["closable.terminate()", "case <-ctx.Done():", "_ = injectable.inject(input)"],
        ["closable.terminate()", "_ = injectable.inject(input)"]),
    "worker-pool-func-manifold.go": (
        ["if pool.Running() == 0 && pool.Waiting() == 0 {", "payload, e := mf(job.Input)"],
        ["payload, e := mf(job.Input)"]),
}


def perturbed(harness, scratch, environ):
    """the -modfile argument for a build with the perturbed pool, None if that isn't possible"""
    at = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/snivilised/pants"], cwd=harness, env=environ,
                        stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()
    if not at or not os.path.isdir(at):
        return None

    pool = os.path.join(scratch, "pants")
    shutil.copytree(at, pool)
    for top, dirs, files in os.walk(pool):
        for n in dirs + files:
            p = os.path.join(top, n)
            os.chmod(p, os.stat(p).st_mode | stat.S_IWUSR)

    os.makedirs(os.path.join(pool, "internal", "jitter"))
    with open(os.path.join(pool, "internal", "jitter", "jitter.go"), "w") as f:
        f.write(JITTER)

    n = 0
    for name, (before, after) in POINTS.items():
        path = os.path.join(pool, name)
        if not os.path.exists(path):
            continue
        out = []
        had = n
        for line in open(path).read().split("\n"):
            text = line.strip()
            if text == "case <-ctx.Done():":
                # not within a select, but before it
                if out and out[-1].strip() == "select {" and text in before:
                    out.insert(-1, "jitter.At()")
                    n += 1
                out.append(line)
                continue
            if text in before:
                out.append("jitter.At()")
                n += 1
            out.append(line)
            if text in after:
                out.append("jitter.At()")
                n += 1
        if n > had:
            text = re.sub(r"^(package \w+)$", r'\1\n\nimport "github.com/snivilised/pants/internal/jitter"',
                          "\n".join(out), count=1, flags=re.M)
            with open(path, "w") as f:
                f.write(text)

    if n == 0:
        return None

    mod = os.path.join(scratch, "perturbed.mod")
    shutil.copyfile(os.path.join(harness, "go.mod"), mod)
    shutil.copyfile(os.path.join(harness, "go.sum"), os.path.join(scratch, "perturbed.sum"))
    with open(mod, "a") as f:
        f.write(f"\nreplace github.com/snivilised/pants => {pool}\n")

    return "-modfile=" + mod
