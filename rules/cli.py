"""What the command lines of the programs look like, from the terms clap's builders leave behind."""
from common import *

LOOKUPS = ("value_of_os", "value_of", "value_of_lossy", "values_of", "values_of_os", "values_of_lossy", "is_present", "occurrences_of")


def name_of(t):
    while t.op in ("cref", "box"):
        t = t.a[0]
    return t.a[0].decode() if t.op == "bytes" else t.a[0].strip('"') if t.op == "konst" else None


def arguments(app):
    """The arguments of an application: {name: (position or None, short, long, other settings)}."""
    chain = []
    t = app
    while t.__class__ is Term and t.op in ("cref", "box", "deref", "pure"):
        if t.op != "pure":
            t = t.a[0]
            continue
        chain.append(t)
        t = t.a[1] if len(t.a) > 1 else None
    r = {}
    n = 0
    for x in reversed(chain):
        if x.a[0] != "App::arg":
            continue
        a = x.a[2]
        d = {}
        name = None
        while a.__class__ is Term and a.op in ("cref", "box", "pure"):
            if a.op != "pure":
                a = a.a[0]
            elif a.a[0] in ("Arg::with_name", "Arg::new"):
                name = name_of(a.a[1])
                break
            else:
                d[a.a[0].split("::")[1]] = a.a[2:] or (INT(1),)
                a = a.a[1]
        if name is None:
            continue
        pos = None
        if "short" not in d and "long" not in d:
            n += 1
            pos = n
            if "index" in d and d["index"][0].op == "int":
                pos = d["index"][0].a[0]
        r[name] = (pos, name_of(d["short"][0]) if "short" in d else None, name_of(d["long"][0]) if "long" in d else None, d)
    return r


def lookup(t):
    """What on the command line a term asks for: (how, position or option, settings)."""
    if not (t.op == "pure" and t.a[0].startswith("ArgMatches::") and t.a[0].split("::")[1] in LOOKUPS and len(t.a) > 2):
        return None
    m = t.a[1]
    while m.op in ("cref", "box", "deref"):
        m = m.a[0]
    n = name_of(t.a[2])
    if is_pure(m, "App::get_matches") or is_pure(m, "App::get_matches_from"):
        a = arguments(m.a[1]).get(n)
        if a:
            return t.a[0].split("::")[1], a[0] if a[0] is not None else a[2] or a[1], a[3]
    return t.a[0].split("::")[1], None, {}


def source(t):
    """What on the command line a value is taken from."""
    while True:
        if t.op in ("cref", "box", "deref", "fld"):
            t = t.a[0]
        elif t.op == "pure" and t.a[0] in ("lossy", "utf8ok", "osstr", "utf8", "bytesof", "lower"):
            t = t.a[1]
        else:
            return lookup(t)
