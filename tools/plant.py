"""Writes seeded/<id>/ from a description (used by hand; no check uses it): plant(id, property, needs, breaks, edits, demo, helpers)."""
import json
import os
import shutil
import subprocess
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds; 1: it does not
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=/opt/harmonisation-build/harmonisation_eiv:/opt/harmonisation-build/tools:$D PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
W=$(mktemp -d)
cd "$W"
/opt/venv/bin/python -W ignore "$D/demo.py"
rc=$?
cd /
rm -rf "$W"
exit $rc
'''


def plant(pid, prop, needs, breaks, edits, demo, helpers=("support.py", "gn.py"), sh=None):
    d = os.path.join(V, "seeded", pid)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True)
    for path, old, new in edits:
        p = os.path.join(w, path)
        s = open(p).read()
        assert s.count(old) == 1, (pid, path, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(sh or DEMO)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    for h in helpers:
        shutil.copy(os.path.join(V, "mc", h), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
