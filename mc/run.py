#!/usr/bin/env python3
"""Driver: run one property's bounded-exhaustive exploration on the code in /repo.

    python3 mc/run.py P01 [--tier quick|thorough] [--shards N] [--replay FILE]

The worker (mc/worker.py, run by Jython because apple/ccs-pycalendar is Python 2 code) enumerates the
cases of mc/props/<id>.py; case number i belongs to shard i % N.  This driver merges the shards, compares
violations with the committed known-findings file, writes evidence/<id>.json and prints the verdict.
"""
import argparse
import array
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")
JAR = "/usr/share/java/jython.jar"


def jython_cmd():
    exe = shutil.which("jython")
    if os.path.exists(JAR) and exe and shutil.which("java"):
        home = os.path.dirname(os.path.dirname(os.path.realpath(exe)))
        return ["java", "-Xmx3g", "-Xss16m", "-XX:+UseSerialGC", "-XX:CICompilerCount=2", "-jar", JAR,
                "-Dpython.home=" + home, "-Dpython.executable=" + exe, "-B"]
    return ["jython", "-B"]


def load_known():
    """-> {property: {key: text}} of findings that were recorded, not repaired."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if not line.startswith("finding:"):
                continue            # "fixed:" entries and comments suppress nothing
            head, _, text = line.partition(" -- ")
            fields = head.split(None, 2)
            prop = fields[1].split("=", 1)[1]
            key = fields[2].split("=", 1)[1].strip()
            known.setdefault(prop, {})[key] = text.strip()
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--part", default="")
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    shards = a.shards or min(8, max(2, os.cpu_count() or 4))
    if a.replay:
        shards = 1
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % a.prop)
    env = dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
               MC_REPO=REPO, MC_SCRATCH=scratch, HOME=scratch)
    env.pop("JAVA_TOOL_OPTIONS", None)
    env.pop("PYTHONPATH", None)
    procs = []

    def stop(*_):
        for p, _f in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass

    signal.signal(signal.SIGTERM, lambda *_: (stop(), sys.exit(143)))
    limit = 780 if a.tier == "quick" else 4 * 3600
    try:
        for s in range(shards):
            out = os.path.join(scratch, "shard%d" % s)
            cmd = jython_cmd() + [os.path.join(HERE, "worker.py"), a.prop, a.tier, str(s), str(shards), out,
                                  os.path.abspath(a.replay) if a.replay else "-", a.part or "-"]
            f = open(out + ".log", "wb")
            procs.append((subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=scratch,
                                           start_new_session=True), f))
        deadline = t0 + limit
        results, broken = [], []
        for s, (p, f) in enumerate(procs):
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            f.close()
            out = os.path.join(scratch, "shard%d" % s)
            try:
                results.append(json.load(open(out + ".json", encoding="utf-8")))
            except (OSError, ValueError):
                log = open(out + ".log", "rb").read().decode("utf-8", "replace")
                broken.append((s, p.returncode, log[-3000:]))
        digests = set()
        for s in range(shards):
            path = os.path.join(scratch, "shard%d.bin" % s)
            if os.path.exists(path):
                arr = array.array("q")
                arr.frombytes(open(path, "rb").read())
                digests.update(arr)
    finally:
        stop()
        shutil.rmtree(scratch, ignore_errors=True)

    if broken:
        for s, rc, log in broken:
            print("shard %d ended with %s and gave no result\n%s" % (s, rc, log))
        if not results or not any(r["violations"] for r in results):
            sys.exit(2)

    known = load_known().get(a.prop, {})
    seen_known, fresh = {}, []
    for r in results:
        for v in r["violations"]:
            if v["key"] in known:
                seen_known[v["key"]] = v
            else:
                fresh.append(v)
    fresh.sort(key=lambda v: (v["index"], v["key"]))

    parts, samples = {}, []
    trans = traces = 0
    for r in results:
        trans += r["transitions"]
        traces += r["traces"]
        samples += r["samples"]
        for name, d in r["parts"].items():
            q = parts.setdefault(name, {"cases": 0, "transitions": 0, "bound": d["bound"]})
            q["cases"] += d["cases"]
            q["transitions"] += d["transitions"]
    samples.sort(key=lambda x: (x.get("part", ""), x.get("index", 0)))
    complete = all(r["complete"] for r in results) and not broken
    replay_paths = []
    if fresh:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(d, "%s-%d.json" % (a.prop, i))
            with open(path, "w") as f:
                json.dump({"property": a.prop, "part": v["part"], "case": v["case"], "tier": a.tier,
                           "message": v["message"]}, f, indent=1)
            replay_paths.append(path)
    wall = time.time() - t0
    if not a.replay and not a.part:
        ev = {
            "property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": len(digests), "transitions": trans, "traces_validated_against_impl": traces,
                "samples": samples[:6], "exhaustive": bool(complete and not fresh),
                "parts": parts,
                "rule": "every case of the stated finite space is executed on the real code and compared with the "
                        "reference model; states = distinct canonical observations, transitions = operations applied "
                        "to the real code, traces = complete cases compared",
            },
            "assumptions": ["Jython 2.7 executes the code as CPython 2.7 would", "reference model in mc/props/%s.py" % a.prop],
            "wall_s": round(wall, 2), "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    for name in sorted(parts):
        print("%s %-22s cases=%-8d transitions=%-9d %s" % (a.prop, name, parts[name]["cases"],
                                                          parts[name]["transitions"], parts[name]["bound"]))
    print("%s tier=%s states=%d transitions=%d traces=%d shards=%d wall=%.1fs" % (
        a.prop, a.tier, len(digests), trans, traces, shards, wall))
    # every listed finding is announced, whether or not this run reached it again
    if not a.replay:
        for key, text in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s%s" % (a.prop, text or key, "" if key in seen_known or a.part else " (not reproduced)"))
    if fresh:
        for v in fresh[:5]:
            print("-- part=%s key=%s\n   %s" % (v["part"], v["key"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, replay_paths[0]))
        sys.exit(1)
    sys.exit(0)


main()
