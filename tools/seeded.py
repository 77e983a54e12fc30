#!/usr/bin/env python3
"""Confirms planted bugs and runs checks against them.

  seeded.py confirm [ID..]          build, tests, demonstration with and without
  seeded.py check [ID..] [--all]    the check of the bug's property (or of all properties)
"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
BASE = {t for t in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])} if os.path.exists("/opt/vp/BASELINE.json") else set()


def sh(c, cwd="/repo", t=1500):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def clean():
    sh("git checkout -q -- .")


def main():
    mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    ids = ids or sorted(os.listdir(SEEDED))
    assert sh("git status --short")[1] == ""
    props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        try:
            if mode == "confirm":
                before, _ = sh(os.path.join(d, "demo.sh"))
                code, out = sh(f"git apply {d}/patch.diff")
                assert code == 0, out
                b, out = sh("bash /opt/vp/build.sh")
                sh("bash /opt/vp/test.sh /tmp/seeded-tests.json")
                res = json.load(open("/tmp/seeded-tests.json"))
                failed = res.get("failed")
                after, out = sh(os.path.join(d, "demo.sh"))
                ok = before == 0 and b == 0 and not failed and after != 0
                print(f"{i}: {'ok' if ok else 'NOT OK'} demo before {before}, build {b}, failed tests {failed}, demo after {after}: {out.strip()[-200:]!r}", flush=True)
            else:
                code, out = sh(f"git apply {d}/patch.diff")
                assert code == 0, out
                for p in (props if "--all" in sys.argv else [meta["property"]]):
                    t = time.time()
                    code, out = sh(f"./check.py {p}", cwd=HERE)
                    line = [l for l in out.splitlines() if " run " in l and "(" in l]
                    print(f"{i} [{meta['property']}]: {p} exit {code}, {time.time() - t:.0f} s, {line[0][:160] if line else out.strip()[-100:]!r}", flush=True)
        finally:
            clean()


main()
