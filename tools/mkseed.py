"""Builds and validates planted bugs: python3 tools/mkseed.py ID...

Reads tools/seeds_data.py; works in a scratch copy of /repo; keeps only bugs
that pass the stable tests and whose demo tells the two trees apart.
"""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/seedwt"
S = {}


def seed(id, property, edits, demo, needs, breaks):
    S[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks)


exec(open(os.path.join(HERE, "tools", "seeds_data.py")).read())


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def stable(out):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = json.load(open(out))
    return sorted(base - set(got["passed"]))


def demo_run(d):
    r = sh(f"cd {WT} && timeout 300 bash {d}/demo.sh", env=dict(os.environ, PYTHONPATH=WT, PYTHONDONTWRITEBYTECODE="1"))
    return r.returncode, (r.stdout + r.stderr)[-400:]


ids = sys.argv[1:] or list(S)
for i in ids:
    s = S[i]
    shutil.rmtree(WT, ignore_errors=True)
    sh(f"cp -a /repo {WT}")
    d = f"/tmp/seedstage/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\ncd "${DEMO_REPO:-$PWD}" || exit 2\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    with open(d + "/demo.py", "w") as f:
        f.write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + s["demo"].lstrip("\n"))
    sh(f"chmod +x {d}/demo.sh")
    rc0, o0 = demo_run(d)
    if rc0 != 0:
        print(i, "demo fails on the unchanged tree", o0)
        continue
    ok = True
    for f, old, new in s["edits"]:
        p = f"{WT}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(i, "edit matches", t.count(old), "times:", old[:60])
            ok = False
            break
        open(p, "w").write(t.replace(old, new))
    if not ok:
        continue
    rc1, o1 = demo_run(d)
    if rc1 == 0:
        print(i, "demo passes with the change")
        continue
    diff = sh(f"git -C {WT} diff").stdout
    if "--notest" not in os.environ.get("SEEDOPT", ""):
        sh(f"cp /opt/vp/test.sh /tmp/seedtest.sh && sed -i 's#cd /repo#cd {WT}#; s#/opt/vp/cache/report.xml#/tmp/seedreport.xml#' /tmp/seedtest.sh && sed -i 's#^export PYTHONPATH=.*#export PYTHONPATH={WT}:/opt/vp/plugin#' /tmp/seedtest.sh")
        sh("bash /tmp/seedtest.sh /tmp/seedout.json")
        miss = stable("/tmp/seedout.json")
        if miss:
            print(i, "stable tests fail:", len(miss), miss[:4])
            continue
    dst = os.path.join(HERE, "seeded", i)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    open(dst + "/patch.diff", "w").write(diff)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(dst + "/meta.json", "w"), indent=1)
    print(i, "kept", o1.strip().splitlines()[-1:] )
shutil.rmtree(WT, ignore_errors=True)
