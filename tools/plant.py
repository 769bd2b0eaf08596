#!/usr/bin/env python3
"""Verify planted bugs: plant.py [--no-check] ID...

For each seeded/ID: in a scratch copy of /repo apply the patch, build, run the
tests, run the demonstration (on the tree with and without the patch), and run
the property's check on the changed copy. Nothing outside of the scratch copy
is changed. This is a development tool; no check uses it.
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(command, cwd, **kw):
    return subprocess.run(command, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--no-check" not in sys.argv
    tests = "--no-tests" not in sys.argv
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("tests") or base
    for name in args:
        d = os.path.join(HERE, "seeded", name)
        meta = json.load(open(os.path.join(d, "meta.json")))
        line = [name, meta["property"]]
        apply = run(["git", "apply", "--check", os.path.join(d, "patch.diff")], "/repo")
        if apply.returncode:
            print(name, "PATCH DOES NOT APPLY", apply.stdout)
            continue
        if not os.path.exists("/repo/_build/generated/fern/configure.h"):
            run(["bash", "/opt/vp/build.sh"], "/repo")
        s = tempfile.mkdtemp(prefix="plant.")
        try:
            shutil.copytree(d, s + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            c = run(["bash", s + "/demo/demo.sh"], "/repo", timeout=300)
            line.append("clean:%d" % c.returncode)
            if c.returncode:
                line.append(c.stdout[-600:])
            # patch /repo for the build and the tests, and undo it straight afterwards
            run(["git", "apply", os.path.join(d, "patch.diff")], "/repo")
            try:
                b = run(["bash", "/opt/vp/build.sh"], "/repo")
                line.append("build:%d" % b.returncode)
                if b.returncode:
                    line.append(b.stdout[-800:])
                if tests:
                    t = run(["bash", "/opt/vp/test.sh", s + "/out.json"], "/repo")
                    line.append(t.stdout.strip().splitlines()[-1][:60] if t.stdout.strip() else "no test output")
                p = run(["bash", s + "/demo/demo.sh"], "/repo", timeout=300)
                line.append("patched:%d" % p.returncode)
                if p.returncode == 0:
                    line.append("DEMO DOES NOT FAIL")
                if check:
                    t0 = time.time()
                    k = run([sys.executable, os.path.join(HERE, "check.py"), meta["property"]], HERE)
                    v = [l for l in k.stdout.splitlines() if l.startswith("VIOLATION property=" + meta["property"])]
                    line.append("check:%d %s %.0fs" % (k.returncode, "CAUGHT" if v and k.returncode == 1 else "MISSED", time.time() - t0))
            finally:
                run(["git", "checkout", "--", "."], "/repo")
        finally:
            shutil.rmtree(s)
        print(" | ".join(line), flush=True)
    run(["bash", "/opt/vp/build.sh"], "/repo")


main()
