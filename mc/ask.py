"""What components answer, where the answer is specified."""
import snap


def answers(c):
    """what a component answers, where its answer is specified"""
    out = {}

    def ask(*names):
        for n in names:
            if hasattr(c, n):
                out[n] = snap.canon(getattr(c, n)(), 1)
    ask("getUID", "hasStart", "getDescription", "getLocation", "isRecurring", "isRecurrenceInstance", "isAdjustFuture", "isAdjustPrior", "getRecurrenceID", "hasStamp", "getStatus", "getPriority", "hasCompleted",
        "getSummary", "getMasterKey")
    if hasattr(c, "getSeq"):
        out["getSeq"] = c.getSeq()
    if out.get("hasStamp"):
        ask("getStamp")
    if out.get("hasCompleted"):
        ask("getCompleted")
    if out.get("hasStart"):
        ask("getStart")
        if not c.getStart().isDateOnly():
            ask("hasEnd")
            if c.getType() not in ("VTODO",):
                ask("useDuration")
    if c.getType() == "VTODO":
        ask("hasEnd")
        if out["hasEnd"]:
            ask("getEnd")
    elif out.get("hasStart"):
        ask("getEnd")
    if hasattr(c, "getRecurrenceSet"):
        s = c.getRecurrenceSet()
        out["recurs"] = snap.canon(s, 1) if s is not None and s.hasRecurrence() else None
    return out


def alarm_answers(a):
    out = {}
    for n in ("getAction", "isTriggerAbsolute", "getRepeats", "getAlarmStatus"):
        out[n] = getattr(a, n)()
    if out["isTriggerAbsolute"]:
        out["getTriggerOn"] = a.getTriggerOn().getText()
    else:
        out["getTriggerDuration"] = a.getTriggerDuration().getText()
        out["isTriggerOnStart"] = a.isTriggerOnStart()
    if out["getRepeats"]:
        out["getInterval"] = a.getInterval().getText()
    d = a.getActionData()
    out["data"] = (d.getType(), [snap.canon(getattr(d, n)(), 0) for n in ("getDescription", "getSummary", "getAttendees", "getSpeakText", "getURI") if hasattr(d, n)])
    return out
