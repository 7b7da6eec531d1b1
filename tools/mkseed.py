#!/usr/bin/env python3
"""mkseed.py ID: confirms /verif/seeded/ID (made from ID/spec.py) in a scratch copy.

spec.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], STUBS (bool), and demo.py is beside it.
Writes patch.diff, demo.sh, meta.json. Specs live in /tmp/specs/ID/.
"""
import json, os, shutil, subprocess, sys

SPECS = "/tmp/specs"
OUT = "/verif/seeded"

DEMO = '''#!/bin/bash
# exit 0: the behaviour is right; 1: it is broken. Run with the repository as the working directory.
HERE=$(cd "$(dirname "$0")" && pwd)
L=$(mktemp -d) || exit 3
trap 'rm -rf "$L"' EXIT
ln -s "$PWD/src" "$L/wfa_planning_evaluation_framework"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$L:$HERE/stubs:$HERE" DEMO_TMP="$L"
/opt/venv39/bin/python -W ignore "$HERE/demo.py"
'''


def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(sid, tests=True):
    ns = {}
    exec(open(f"{SPECS}/{sid}/spec.py").read(), ns)
    wt = f"/tmp/seedwt_{sid}"
    shutil.rmtree(wt, ignore_errors=True)
    run(f"cp -a /repo {wt}")
    try:
        for f, old, new in ns["EDITS"]:
            p = f"{wt}/src/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                print(sid, "edit does not match once:", f, t.count(old), old[:60]); return 1
            open(p, "w").write(t.replace(old, new))
        out = f"{OUT}/{sid}"
        os.makedirs(out, exist_ok=True)
        diff = run(f"git -C {wt} diff").stdout
        open(f"{out}/patch.diff", "w").write(diff)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
        open(f"{out}/demo.sh", "w").write(DEMO)
        shutil.copy(f"{SPECS}/{sid}/demo.py", f"{out}/demo.py")
        if ns.get("STUBS"):
            shutil.rmtree(f"{out}/stubs", ignore_errors=True)
            shutil.copytree("/verif/stubs", f"{out}/stubs", ignore=shutil.ignore_patterns("__pycache__"))
        a = run(f"bash {out}/demo.sh", cwd="/repo")
        b = run(f"bash {out}/demo.sh", cwd=wt)
        print(sid, "demo clean:", a.returncode, "planted:", b.returncode)
        if a.returncode: print(a.stdout[-1500:])
        if not b.returncode: print(b.stdout[-800:])
        if b.returncode not in (0, 1): print(b.stdout[-1500:])
        ok = a.returncode == 0 and b.returncode != 0
        if ok and tests:
            l = run("mktemp -d").stdout.strip()
            os.symlink(f"{wt}/src", f"{l}/wfa_planning_evaluation_framework")
            left = run("sed -n '/LEFT_OUT=(/,/^)/p' /opt/vp/test.sh | grep test.py").stdout.split()
            ign = " ".join("--ignore=" + x for x in left)
            r = run(f". /opt/vp/env.sh; export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH={l}; cd {wt} && /opt/venv39/bin/python -m pytest -q -p no:cacheprovider -o 'python_files=*_test.py' --timeout=300 --continue-on-collection-errors -n 8 --dist loadfile -W ignore {ign} src", executable="/bin/bash")
            shutil.rmtree(l)
            tail = r.stdout.strip().splitlines()[-3:]
            print(sid, "tests:", tail)
            ok = " failed" not in r.stdout[-600:] and "180 passed" in r.stdout
        if not ok:
            shutil.rmtree(out)
            print(sid, "REJECTED")
        return 0 if ok else 1
    finally:
        shutil.rmtree(wt, ignore_errors=True)


sys.exit(max([main(s) for s in sys.argv[1:]] or [0]))
