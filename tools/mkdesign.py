#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, mc/metadata.py, known_findings.txt, seeded/ and the notes below."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "mc"))
import meta

# id: (oracle, what is outside the property and why)
NOTES = {
"P01": ("mc/refcal.py: a calendar that only counts days from 1 March 0000, written without the code's formulas", "years before 1753 and after 9998"),
"P02": ("differential: the same value built afresh; the state space is explored breadth-first over reachable values", "an error that a fresh value has too is left to P01, P03 and P06"),
"P03": ("instants from reftz/refcal; order and equality of all pairs, sorting against the sort of instants, and the axioms (antisymmetry, transitivity, hash of equals)", "a floating time compared with a zoned one takes the other's zone, so equality through floating ones is not transitive and is not demanded"),
"P04": ("an independent formatter and a grammar of the RFC 5545 forms; every text one edit away from a good one must be refused or mean what it says", "the leniencies listed in ParserContext (P21)"),
"P05": ("integer seconds; for zones the transition lists of mc/reftz.py (days nominal, hours exact, RFC 5545 3.3.6)", "results in the second hour of a fold, which have no unambiguous local form"),
"P06": ("explicit lists of transitions computed independently in mc/tzdata.py and mc/reftz.py for each VTIMEZONE", "zones with onsets less than a day apart"),
"P07": ("mc/reftz.py: conversion via the instant", "local times in a gap (what they mean is P06's)"),
"P08": ("a model of the database: files on disk, definitions read, names known; a step of the model for every call", "concurrent changes of the files during one call"),
"P09": ("a model of which TZIDs may name a file inside the database directory; the harness runs on scratch directories with canary files and records every open", "TZIDs that are not UTF-8 (Jython's os.stat fails on them)"),
"P10": ("mc/refrule.py: RFC 5545 3.3.10 as filters over days and seconds, never by the code's expansion order",
        "BYWEEKNO without BYDAY (an existing test fixes the weekday it drifts to), BYWEEKNO with INTERVAL above 1, YEARLY BYMONTHDAY without BYMONTH, BYMONTH or BYMONTHDAY with BYYEARDAY or BYWEEKNO, numeric BYDAY with BYMONTHDAY, BYYEARDAY or below monthly, BYSECOND=60, daylight changes for sub-daily rules"),
"P11": ("differential: a freshly parsed rule asked once", "-"),
"P12": ("a grammar of RECUR values with an independent reader; equality decided by the parts", "UNTIL dates out of range are accepted as elsewhere"),
"P13": ("set algebra over mc/refrule.py's instances", "EXRULE with COUNT and BY parts; EXDATE of another type than DTSTART; excludeFutureRecurrence() before the set was ever expanded"),
"P14": ("a list of instances made by hand from the same description the calendar's text is made from", "THISANDPRIOR and THISANDFUTURE overrides mixed, several THISANDPRIOR, all-day instances against timed windows, the own length of RDATE periods"),
"P15": ("an independent escaper and a state machine for reading", "a lone backslash at the end of a value is dropped in all modes; X- properties are raw"),
"P16": ("octet arithmetic: every line at most 75 octets, never inside a UTF-8 sequence, and unfolding gives back the line", "the first line of a vCard PHOTO may exceed 75 octets"),
"P17": ("RFC 6868 encoder and a quoting rule, written independently", "the order of a parameter's values; CRLF and CR become LF. One recorded finding (known_findings.txt)"),
"P18": ("tables of RFC 7265 and RFC 5545 forms for each type; each form read, written and read again in every other", "X- names with VALUE=TEXT, URIs with backslashes, BOOLEAN, TIME and X- types in jCal"),
"P19": ("the description (names, properties, nesting) the text was made from, and the multiset of what is read back", "components without UID (their keys are made up), comparison of floating with UTC times (P03)"),
"P20": ("a grammar that says whether a damaged text is to be refused; nothing but the documented exceptions may come out, and nothing may be half applied or hang", "bare CR in a line; parseComponent() on refusal; the type leniency of jCal"),
"P21": ("per suspect construct a table of what ALLOW, IGNORE, FIX and RAISE give; every other line must be the same in all modes", "INVALID_DATETIME_VALUE, which nothing uses; backslashes in GEO, always corrected"),
"P22": ("an independent RFC 6321 writer and a reader of the XML into the description", "BOOLEAN, TIME and X- types (written as unknown), CR in values, VALUE=TEXT on X- names; an empty parameters element is ignored"),
"P23": ("differential: the same text parsed again, and identity of everything reachable from original and copy through the API", "a VTIMEZONE edited after its zone was used; the effect of in-place changes of inner values on cached times (a false alarm of ours, corrected)"),
"P24": ("a model of the component's lines stepped with every edit, and the answers of a component parsed from the text", "editTimingStartEnd on a VTODO (writes DTEND), exclusion from a component without recurrence"),
"P25": ("a table of the RFC's constraints by component; after a fix the validator must be silent and what it did not report unchanged", "METHOD-dependent rules beyond DTSTART; DTEND with DURATION in a VPOLL"),
"P26": ("the unfiltered output, filtered by an independent interpreter of the same filter", "a property without value may keep its type name in jCal"),
"P27": ("a model of the set of definitions; zones with fixed offsets so that a wrong definition is seen in the instants", "-"),
"P28": ("the model lines of the derived component; listing before and after", "which of two masters of one UID is taken"),
"P29": ("a model with the list of triggers, what was reported, and a controlled clock", "RELATED=END without an end, alarms without component, disabled alarms"),
"P30": ("a model that gives the busy types of each elementary interval between all boundaries", "FREEBUSY outside the DTSTART-DTEND of its component"),
"P31": ("a model by calendar days under a controlled clock; order as a partial model plus antisymmetry", "the place of to-dos without priority, start or completion time; DUE on the same day as DATE and DATE-TIME mixed in one list"),
"P32": ("an independent encoder of both forms (RFC 2426, RFC 7095)", "AGENT, BOOLEAN and TIME in jCard"),
"P34": ("refcal, an independent calendar, and the texts written out from the fields", "The times of the day are all minutes with four seconds each, on one date."),
"P38": ("plain lists, dictionaries and sets in Python that take the same edits, and the text of every state read again", "Parameter and property names differing only in case: equality is case-sensitive there, and P35 decides which answers do not depend on case."),
"P37": ("independent zone tables and rule expansion; for the validator the library's own reading and validation, which P20 and P25 decide", "tzverify's entry for tz source (parseTZData) is not reachable from the command and is outside."),
"P36": ("a model of three variables (default, wall clock, own zone) with independent zone tables", "Found endless recursion when the default timezone has rules, and stale offsets."),
"P35": ("the upper-case document itself: all answers must agree", "Letters within dates and durations (T, Z, P) and TYPE values of cards keep their case."),
"P33": ("refolson, an independent compiler of tz source that agrees with the system's compiled files at every change of all 447 zones 1900-2037, and an evaluator of the VTIMEZONE text", "Windows aliases, %z; first lines with rules"),
}


def main():
    out = [open(os.path.join(HERE, "design_head.md"), encoding="utf-8").read().rstrip("\n"), ""]
    fixed, findings, seeds = {}, {}, {}
    for l in open(os.path.join(VERIF, "known_findings.txt"), encoding="utf-8"):
        w = l.split(None, 2)
        if l.startswith("fixed:"):
            fixed.setdefault(w[1].split("=")[1], []).append(w[2].strip())
        elif l.startswith("finding:"):
            findings.setdefault(w[1].split("=")[1], []).append(w[2].strip())
    for d in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
    out += ["## Properties", ""]
    for p in meta.ALL:
        oracle, outside = NOTES.get(p["id"], ("see mc/props/%s.py" % p["id"], "-"))
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
                "* Decided by: " + p["technique"] + ".",
                "* Oracle: " + oracle + ".",
                "* Enumerated: " + p["text"] + "."]
        ev = os.path.join(VERIF, "evidence", p["id"] + ".json")
        if os.path.exists(ev):
            e = json.load(open(ev))
            for name, d in sorted(e["coverage"]["parts"].items()):
                out.append("  * %s (%s cases when quick): %s" % (name, d["cases"], d["bound"]))
        out += ["* Beyond tests: " + p["tests"], "* Bounds: " + p["note"]]
        if outside != "-":
            out.append("* Outside: " + outside + ".")
        if findings.get(p["id"]):
            out += ["* Recorded, not repaired: " + f for f in findings[p["id"]]]
        if fixed.get(p["id"]):
            out.append("* Genuine defects found and repaired (one fix: commit each):")
            out += ["  * " + f for f in fixed[p["id"]]]
        for name, m in seeds.get(p["id"], []):
            out.append("* Planted `%s` (%s; needs %s): %s." % (name, m["what_it_breaks"].rstrip("."), m["needs"].rstrip("."), m.get("caught", "caught by " + p["id"])))
        out.append("")
    with open(os.path.join(VERIF, "DESIGN.md"), "w", encoding="utf-8") as f:
        f.write("\n".join(out))


main()
