# -*- coding: utf-8 -*-
# Jython side of mc/run.py.  Enumerates the cases of one property and checks each on the real code.
import sys
import os
REPO = os.environ.get("MC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(sys.argv[0]))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "props"))

import hashlib
import json
import struct
import threading
import time
CLOCK = time.time                 # some checks set the clock that the code under test sees
import traceback

prop, tier, shard, nshards, out, replay, only = sys.argv[1:8]
shard = int(shard)
nshards = int(nshards)

CASE_LIMIT = 240.0      # seconds one single case may take before it counts as non-termination


class Ctx(object):
    """Handed to every check: counts what was explored."""

    def __init__(self):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.transitions = 0
        self.traces = 0
        self.digests = set()

    def step(self, n=1):
        self.transitions += n

    def see(self, obs):
        """record a canonical observation (state) of the real code"""
        if len(self.digests) < 2000000:
            h = hashlib.md5(repr(obs)).digest()
            self.digests.add(struct.unpack(">q", h[:8])[0])


ctx = Ctx()
violations = []
samples = []
parts = {}
current = [None, 0.0]
done = [False]


def asjson(x):
    return json.dumps(x, sort_keys=True)


def write(complete):
    f = open(out + ".bin", "wb")
    f.write("".join([struct.pack("=q", d) for d in ctx.digests]))
    f.close()
    f = open(out + ".tmp", "wb")
    f.write(json.dumps({
        "violations": violations, "samples": samples, "parts": parts, "complete": complete,
        "transitions": ctx.transitions, "traces": ctx.traces,
    }))
    f.close()
    os.rename(out + ".tmp", out + ".json")


def clean(s):
    if isinstance(s, str):
        try:
            return s.decode("utf-8")
        except UnicodeDecodeError:
            return s.decode("latin-1")
    return s


def record(part, case, index, message, key=None):
    if key is None:
        key = part + ":" + asjson(case)
    if clean(key) in [v["key"] for v in violations]:
        return      # one case of each failure is kept
    violations.append({"part": part, "case": case, "index": index, "key": clean(key), "message": clean(message)[:1500]})


def watchdog():
    while not done[0]:
        time.sleep(2)
        cur, t = current
        if cur is not None and CLOCK() - t > CASE_LIMIT:
            part, case, index = cur
            record(part, case, index, "no answer within %d s: the code under test does not terminate on this case" % CASE_LIMIT)
            write(False)
            from java.lang import Runtime
            Runtime.getRuntime().halt(0)


class Mismatch(Exception):
    """raised by checks; message says what differed.  .key identifies the failing input"""

    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.key = key


sys.modules["mcbase"] = sys.modules["__main__"]


def run_one(part, check, case, index):
    current[1] = CLOCK()
    current[0] = (part, case, index)
    try:
        try:
            check(ctx, case)
        finally:
            current[0] = None
        ctx.traces += 1
        return True
    except Mismatch as e:
        record(part, case, index, e.args[0], e.key)
    except (KeyboardInterrupt, SystemExit):
        raise
    except:
        # the code under test (or its API) failed in a way the property does not allow
        record(part, case, index, traceback.format_exc()[-1200:])
    return False


def main():
    t = threading.Thread(target=watchdog)
    t.setDaemon(True)
    t.start()
    try:
        mod = __import__(prop)
    except:
        # importing the code under test failed: nothing it promises holds
        record("import", None, 0, traceback.format_exc()[-1200:])
        write(False)
        return
    if replay != "-":
        f = open(replay)
        r = json.load(f)
        f.close()
        for p in mod.PARTS:
            if p[0] == r["part"]:
                run_one(p[0], p[2], unjson(r["case"]), 0)
        write(True)
        return
    from collections import defaultdict
    complete = True
    for p in mod.PARTS:
        name, gen, check, bound = p
        if only != "-" and name not in only.split(","):
            continue
        before = ctx.transitions
        n = 0
        before_bad = len(violations)
        for index, case in enumerate(gen(tier)):
            if index % nshards != shard:
                continue
            n += 1
            if index < 2 and shard == index:
                samples.append({"part": name, "index": index, "case": clean(asjson(case)) if not isinstance(case, str) else clean(case)})
            if not run_one(name, check, unjson(json.loads(asjson(case))) if index < 50 else case, index):
                if len(violations) - before_bad >= 40:
                    complete = False
                    break
        parts[name] = {"cases": n, "transitions": ctx.transitions - before, "bound": bound}
    write(complete)


def unjson(x):
    """JSON text comes back as unicode; the code under test is fed byte strings, as in Python 2"""
    if isinstance(x, unicode):
        return x.encode("utf-8")
    if isinstance(x, list):
        return [unjson(i) for i in x]
    if isinstance(x, dict):
        return dict([(unjson(k), unjson(v)) for k, v in x.items()])
    return x


if __name__ == "__main__":
    main()
    done[0] = True
    from java.lang import Runtime
    sys.stdout.flush()
    Runtime.getRuntime().halt(0)
