#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 mc/meta.py  rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ALL = []
S = "src/pycalendar/"
I = S + "icalendar/"
V = S + "vcard/"
MC = "model checking of the implementation: "


def P(id, title, statement, over, text, tests, files, mech, technique, note, observe=(), state=()):
    assert len(title) <= 80, id
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    ALL.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                    mech=[{"name": n, "where": w} for n, w in mech], technique=MC + technique, note=note,
                    observe=list(observe), state=list(state)))


exec(compile(open(os.path.join(HERE, "metadata.py"), encoding="utf-8").read(), "metadata.py", "exec"))


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in ALL:
            a = {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["tests"], "anchors": a}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in ALL:
        if not os.path.exists(os.path.join(HERE, "props", p["id"] + ".py")):
            na.append({"property": p["id"], "reason": "no check built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 mc/run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 mc/run.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 mc/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every check drives the public API. mc/meta.py writes this file and properties.jsonl."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
