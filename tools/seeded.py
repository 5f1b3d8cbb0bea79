#!/usr/bin/env python3
"""Confirms planted bugs (seeded/<id>/) and runs the checks against them.

  seeded.py confirm [ID..]   scratch copy: applies, builds, stable tests pass, demo passes without and fails with it
  seeded.py catch [ID..]     applies each to /repo in turn, runs its property's quick check, undoes it
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
ENV.pop("VERIF_SEED", None)
ENV.pop("VERIF_TIER", None)


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)


def demo(d, repo, scratch):
    laid = os.path.join(scratch, "laid")
    shutil.rmtree(laid, ignore_errors=True)
    shutil.copytree(d, laid, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    t = time.time()
    r = sh("bash %s/demo.sh" % laid, repo, timeout=300)
    return r.returncode, r.stdout[-300:], time.time() - t


def confirm(i):
    d = os.path.join(SEEDED, i)
    scratch = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(scratch, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        rc, out, secs = demo(d, repo, scratch)
        if rc != 0:
            return "demo fails on the clean tree: " + out
        r = sh("git apply %s/patch.diff" % d, repo)
        if r.returncode:
            return "does not apply: " + r.stdout
        files = sh("git diff --name-only", repo).stdout.split()
        if not files or any(not f.startswith("src/") for f in files):
            return "touches %s" % files
        r = sh("cargo test --workspace --all-targets --no-run --offline --locked", repo)
        if r.returncode:
            return "does not build: " + r.stdout[-1500:]
        r = sh("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8", repo)
        log = os.path.join(scratch, "log")
        open(log, "w").write(r.stdout)
        sh("python3 /opt/vp/results.py %s/out.json cargo:%s" % (scratch, log), repo)
        res = json.load(open(scratch + "/out.json"))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        missing = stable - set(res["passed"])
        if missing:
            return "tests fail: %s" % sorted(missing)[:5]
        rc, out, secs2 = demo(d, repo, scratch)
        if rc == 0:
            return "demo passes with the patch"
        return "ok (demo %.0f s / %.0f s: %s)" % (secs, secs2, out.strip().splitlines()[-1][:150] if out.strip() else "")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def catch(i):
    d = os.path.join(SEEDED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    if sh("git status --porcelain --untracked-files=no", "/repo").stdout.strip():
        sys.exit("/repo is not clean")
    t = time.time()
    try:
        r = sh("git apply %s/patch.diff" % d, "/repo")
        if r.returncode:
            return "does not apply"
        r = sh("python3 %s/check.py check %s" % (HERE, prop), HERE, timeout=900)
    finally:
        sh("git checkout -- .", "/repo")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    m = [l for l in r.stdout.splitlines() if l.startswith("  ") and "replay:" not in l]
    ok = r.returncode == 1 and v
    return "%s %s rc=%d %.0f s %s" % ("CAUGHT" if ok else "MISSED", prop, r.returncode, time.time() - t, (m or [r.stdout[-200:]])[0].strip()[:220])


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    for i in ids:
        print(i, {"confirm": confirm, "catch": catch}[sys.argv[1]](i), flush=True)
