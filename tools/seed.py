#!/usr/bin/env python3
"""Development helper: seed.py save ID PROP 'needs' 'breaks'  - store /repo's diff as a seeded bug and undo it
                      seed.py try ID...                     - apply each, run its check and its demo, undo
                      seed.py demo ID...                    - demo only, unchanged and changed"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = V + "/seeded"
REPO = os.environ.get("VERIF_REPO", "/repo")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    op, args = sys.argv[1], sys.argv[2:]
    if op == "save":
        i, prop, needs, what = args
        d = f"{H}/{i}"
        os.makedirs(d, exist_ok=True)
        diff = sh(f"git -C {REPO} diff").stdout
        assert diff
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
        sh(f"git -C {REPO} checkout -- .")
        if not os.path.exists(d + "/demo.sh"):
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
        return
    for i in args or sorted(os.listdir(H)):
        d = f"{H}/{i}"
        prop = json.load(open(d + "/meta.json"))["property"]
        r0 = sh(f"bash {d}/demo.sh", cwd=REPO)
        assert not sh(f"git -C {REPO} status --short").stdout
        a = sh(f"git -C {REPO} apply {d}/patch.diff")
        if a.returncode:
            print(i, "PATCH FAILS", a.stderr)
            continue
        try:
            r1 = sh(f"bash {d}/demo.sh", cwd=REPO)
            out = ""
            if op == "try":
                r = sh(f"timeout 900 {V}/run.py {prop}", cwd=V)
                out = f"check exit {r.returncode} " + " | ".join(l for l in r.stdout.splitlines() if l.startswith("VIOL"))[:160]
        finally:
            sh(f"git -C {REPO} checkout -- .")
        print(i, prop, "demo unchanged", r0.returncode, "changed", r1.returncode, out, flush=True)
        if r0.returncode:
            print(r0.stdout[-1500:], r0.stderr[-1500:])
        elif not r1.returncode:
            print(r1.stdout[-800:])


main()
