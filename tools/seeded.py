#!/usr/bin/env python3
"""seeded.py verify|check [ID...]   (development aid; no registered check uses it)

verify: in a scratch worktree of /repo, each planted bug builds, passes the tests, and its demo fails
        with it and passes without it.
check:  applies each planted bug to /repo, runs the check of its property, and undoes it.
"""
import json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
WT = "/tmp/seeded-wt"


def sh(cmd, cwd, timeout=900):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, "timeout"


def verify(ids):
    if not os.path.exists(WT):
        sh(["git", "-C", "/repo", "worktree", "add", "--detach", WT, "HEAD"], "/")
        if os.path.exists("/repo/Cargo.lock"):
            shutil.copy("/repo/Cargo.lock", WT)
    for i in ids:
        d = os.path.join(SEEDED, i)
        sh("git checkout -q -- .", WT)
        clean, out0 = sh(["bash", d + "/demo.sh"], WT, 300)
        rc, out = sh(["git", "apply", d + "/patch.diff"], WT)
        if rc:
            print(i, "DOES NOT APPLY", out)
            continue
        rc, out = sh("cargo test --workspace --all-features --lib --bins --tests --examples --no-fail-fast --offline"
                     " && cargo test --workspace --all-features --doc --offline", WT)
        t = time.time()
        broken, out1 = sh(["bash", d + "/demo.sh"], WT, 300)
        ok = clean == 0 and rc == 0 and broken not in (0, None)
        print(i, "ok" if ok else "BAD", "clean=%s tests=%s patched=%s %.0fs" % (clean, rc, broken, time.time() - t), flush=True)
        if clean != 0:
            print("   clean:", out0[-1500:])
        if rc != 0:
            print("   tests:", out[-1500:])
        if not ok:
            print("   patched:", out1[-600:])
    sh("git checkout -q -- .", WT)
    sh(["git", "-C", "/repo", "worktree", "remove", "--force", WT], "/")


def check(ids):
    for i in ids:
        d = os.path.join(SEEDED, i)
        prop = json.load(open(d + "/meta.json"))["property"]
        rc, out = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"], "/")
        if rc:
            print(i, "DOES NOT APPLY", out)
            continue
        t = time.time()
        try:
            rc, out = sh([VERIF + "/check", prop], VERIF, 1000)
        finally:
            sh(["git", "-C", "/repo", "checkout", "-q", "--", "."], "/")
        lines = [l for l in out.splitlines() if "VIOLATION" in l]
        print(i, prop, "CAUGHT" if rc == 1 and any("property=" + prop in l for l in lines) else "MISSED rc=%s" % rc,
              "%.0fs" % (time.time() - t), flush=True)
        for l in lines[:2]:
            print("    ", l[:300])
        if rc not in (0, 1):
            print(out[-1500:])


def main():
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    {"verify": verify, "check": check}[sys.argv[1]](ids)


main()
