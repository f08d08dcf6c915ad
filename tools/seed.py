"""Development tool for planted bugs (never used by a check).
  seed.py make FILE      FILE is Python defining BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)]
  seed.py verify ID...   in a scratch copy: applies, stable tests pass, demo passes without and fails with the patch
  seed.py run ID [PROP...]   run checks against the patched scratch copy and list which report a violation
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, t=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)


class Copy:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        sh(f"git -C /repo archive HEAD | tar x -C {self.d}")
        sh("git init -q . && git add -A -f && git -c user.name=x -c user.email=x@x commit -qm x", self.d)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def make(path):
    g = {}
    exec(open(path).read(), g)
    for b in g["BUGS"]:
        with Copy() as d:
            for f, old, new in b["edits"]:
                p = os.path.join(d, f)
                t = open(p, newline="").read()
                nl = "\r\n" if "\r\n" in t else "\n"
                o, n = old.replace("\n", nl), new.replace("\n", nl)
                assert t.count(o) == 1, (b["id"], f, t.count(o), old)
                open(p, "w", newline="").write(t.replace(o, n))
            diff = sh("git diff --no-color", d).stdout
        out = os.path.join(V, "seeded", b["id"])
        os.makedirs(out, exist_ok=True)
        # (byte-exact: some sources have CRLF line ends)
        with Copy() as d:
            for f, old, new in b["edits"]:
                p = os.path.join(d, f)
                t = open(p, newline="").read()
                nl = "\r\n" if "\r\n" in t else "\n"
                open(p, "w", newline="").write(t.replace(old.replace("\n", nl), new.replace("\n", nl)))
            open(os.path.join(out, "patch.diff"), "wb").write(subprocess.run("git diff --no-color", shell=True, cwd=d, capture_output=True).stdout)
        open(os.path.join(out, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nfrom PyNite import FEModel3D\n\n" + b["demo"].strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        print("made", b["id"])


def verify(i, tests=True):
    out = os.path.join(V, "seeded", i)
    ok = True
    with Copy() as d:
        p = sh(f"sh {out}/demo.sh", d, t=300)
        if p.returncode:
            print(i, "DEMO FAILS WITHOUT PATCH", p.stdout[-500:], p.stderr[-800:])
            ok = False
        a = sh(f"git apply {out}/patch.diff", d)
        if a.returncode:
            print(i, "DOES NOT APPLY", a.stderr)
            return False
        p = sh(f"sh {out}/demo.sh", d, t=300)
        if p.returncode == 0:
            print(i, "DEMO PASSES WITH PATCH")
            ok = False
        else:
            print(i, "demo with patch:", (p.stdout + p.stderr).strip().splitlines()[-1:])
        if tests:
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            x = os.path.join(d, "junit.xml")
            # (the plugin the official test script uses, pointed at the scratch copy)
            os.makedirs(os.path.join(d, "plug"))
            open(os.path.join(d, "plug", "skip_testing_init.py"), "w").write(open("/opt/vp/lib/skip_testing_init.py").read().replace("/repo", d))
            sh(f"{PY} -m pytest -q -c /dev/null --rootdir={d} -p skip_testing_init -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={x} Testing", d,
               dict(PYTHONPATH=f"{d}/plug:{d}", MPLBACKEND="Agg"))
            sh(f"python3 /opt/vp/results.py {d}/o.json junit:{x}", d)
            o = json.load(open(f"{d}/o.json"))
            bad = [t for t in stable if t not in o["passed"]]
            if bad:
                print(i, "TESTS FAIL", bad)
                ok = False
    print(i, "OK" if ok else "BAD")
    return ok


def run(i, props):
    out = os.path.join(V, "seeded", i)
    with Copy() as d:
        assert sh(f"git apply {out}/patch.diff", d).returncode == 0
        hit = []
        for p in props or [c["property"] for c in json.load(open(f"{V}/MANIFEST.json"))["checks"]]:
            q = sh(f"./check {p} --tier quick --seed 1", V, dict(RV_REPO=d))
            if q.returncode:
                w = [l for l in q.stdout.splitlines() if "  case" in l][:1]
                hit.append(p)
                print("   ", i, p, "rc", q.returncode, w[0][:220] if w else q.stdout[-300:] + q.stderr[-300:])
        prop = json.load(open(os.path.join(out, "meta.json")))["property"]
        print(i, prop, "CAUGHT" if prop in hit else "** MISSED **", hit, flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make":
        make(a[1])
    elif a[0] == "verify":
        for i in a[1:] if len(a) > 1 else sorted(os.listdir(f"{V}/seeded")):
            verify(i)
    elif a[0] == "demo":
        for i in a[1:] if len(a) > 1 else sorted(os.listdir(f"{V}/seeded")):
            verify(i, False)
    else:
        ids = [x for x in a[1:] if os.path.isdir(f"{V}/seeded/{x}")] or sorted(os.listdir(f"{V}/seeded"))
        for i in ids:
            run(i, [x for x in a[1:] if x not in ids])
