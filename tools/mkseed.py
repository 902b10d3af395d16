"""mk(id, property, [(file, old, new)...], demo source, needs, what it breaks): write a planted change to /verif/seeded/<id>/"""
import json, os, subprocess, shutil
R = os.environ.get("SEED_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; exits 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
exec jython -B "$D/demo.py"
'''
HEAD = '''import sys
sys.path.insert(0, "src")
'''


def mk(id, prop, edits, demo, needs, breaks):
    d = os.path.join(V, "seeded", id)
    if not os.path.isdir(d):
        os.makedirs(d)
    done = []
    try:
        for f, old, new in edits:
            p = R + "/src/pycalendar/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", R, "diff"], text=True))
    finally:
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.py", "w").write(HEAD + demo.strip("\n") + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
