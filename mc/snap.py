"""What an object answers: the results of all its public methods that take no arguments and read."""
import inspect

PREFIX = ("get", "has", "is", "use", "can", "count")
SKIP = set(["getParentComponent", "getNowUTC", "getNow", "getToday", "getMapKey", "getSortKey", "getPosixTime", "getCompletionState", "getStatusText"])


def canon(v, depth):
    if v is None or isinstance(v, (bool, int, long, float, basestring)):
        return v
    if isinstance(v, (list, tuple, set, frozenset)):
        out = [canon(x, depth) for x in v]
        return out if isinstance(v, (list, tuple)) else sorted(out)
    if isinstance(v, dict):
        return sorted([(canon(k, depth), canon(x, depth)) for k, x in v.items()])
    name = v.__class__.__name__
    text = None
    if hasattr(v, "getText"):
        try:
            text = v.getText(2) if name == "Calendar" else v.getText()
        except Exception as e:
            text = "error " + e.__class__.__name__
    if depth > 0 and name.startswith("VAlarm") and text is None:
        return (name, answers(v, depth - 1))
    if name == "RecurrenceSet":
        return (name, [canon(x, depth) for x in (v.getRules(), v.getExrules(), v.getDates(), v.getExdates(), v.getPeriods())])
    if name == "Timezone":
        return (name, v.getUTC(), v.getTimezoneID())
    return (name, text)


def answers(o, depth=1, skip=SKIP):
    out = {}
    for n in dir(o):
        if not n.startswith(PREFIX) or n in skip:
            continue
        m = getattr(o, n)
        if not inspect.ismethod(m):
            continue
        a = inspect.getargspec(m)
        if len(a[0]) - len(a[3] or ()) != 1 or n in ("getText", "getTextXML", "getTextJSON"):
            continue
        try:
            out[n] = canon(m(), depth)
        except Exception as e:
            out[n] = "error " + e.__class__.__name__
    return out


def diff(a, b):
    return sorted([(k, a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)])
