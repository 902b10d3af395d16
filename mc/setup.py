"""setup_cmd: check that what the checks need is there (nothing has to be built: Jython runs the sources)."""
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(VERIF, d), exist_ok=True)
if not (shutil.which("jython") and shutil.which("java")):
    sys.exit("jython or java is missing")
out = subprocess.run(["jython", "-B", "-c", "import sys; print sys.version"], stdout=subprocess.PIPE).stdout
print(out.decode())
