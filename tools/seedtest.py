#!/usr/bin/env python3
"""seedtest.py <id>... [--all-checks] [--no-tests] [--no-checks]

For each planted bug /verif/seeded/<id>: in a scratch copy of /repo, applies the
patch, builds, runs the tests and the demonstration (which must pass on the copy
before and fail after), then runs the property's check (or all of them) on it."""
import argparse, json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = os.environ.get("WB_COPY", "/tmp/wbseed")


def sh(cmd, cwd, env=None, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def prepare():
    if os.path.isdir(COPY):
        shutil.rmtree(COPY)
    sh(["cp", "-a", "/repo", COPY], "/")
    p = sh(["cargo", "build", "--offline"], COPY)
    assert p.returncode == 0, p.stdout.decode()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--all-checks", action="store_true")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--no-checks", action="store_true")
    a = ap.parse_args()
    seeded = os.path.join(VERIF, "seeded")
    ids = a.ids or sorted(os.listdir(seeded))
    prepare()
    checks = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    for i in ids:
        d = os.path.join(seeded, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        notes = []
        p = sh(["bash", os.path.join(d, "demo.sh")], COPY)
        if p.returncode != 0:
            notes.append("DEMO FAILS ON THE UNCHANGED TREE: " + p.stdout.decode()[-300:])
        p = sh(["git", "apply", os.path.join(d, "patch.diff")], COPY)
        if p.returncode != 0:
            print(i, "PATCH DOES NOT APPLY", p.stdout.decode())
            continue
        try:
            p = sh(["cargo", "build", "--offline"], COPY)
            if p.returncode != 0:
                print(i, "DOES NOT BUILD", p.stdout.decode()[-1500:])
                continue
            p = sh(["bash", os.path.join(d, "demo.sh")], COPY)
            if p.returncode == 0:
                notes.append("DEMO PASSES WITH THE BUG: " + p.stdout.decode()[-300:])
            if not a.no_tests:
                p = sh(["cargo", "test", "--offline"], COPY)
                if p.returncode != 0:
                    notes.append("TESTS FAIL: " + p.stdout.decode()[-600:])
            caught = []
            for c in ([] if a.no_checks else checks if a.all_checks else [meta["property"]]):
                p = sh([sys.executable, os.path.join(VERIF, "tools", "vf.py"), "check", c, "--tier", "quick"], VERIF,
                       env={"WB_REPO": COPY, "WB_BUILD": "/tmp/wbseed-build", "VERIF_SEED": "1", "WB_EVIDENCE": "/tmp/wbseed-evidence"})
                if p.returncode == 1 and ("VIOLATION property=%s " % c) in p.stdout.decode():
                    caught.append(c)
                elif p.returncode != 0:
                    caught.append("%s?%d" % (c, p.returncode))
            print(i, meta["property"], "caught by", caught or "NOTHING", *notes, flush=True)
        finally:
            sh(["git", "checkout", "--", "."], COPY)
            sh(["cargo", "build", "--offline"], COPY)


main()
