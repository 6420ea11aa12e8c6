"""Hash-consed terms: the value-numbering domain of the dataflow engine.

A term names a value.  Two occurrences of one term are the same value; different terms may or may
not be.  Terms are never executed or handed to a solver: they are compared, matched and joined.
"""


class Term(object):
    __slots__ = ("op", "a", "h", "syms", "depth", "_s", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    # Equality is identity because terms are hash-consed.
    def __lt__(self, other):
        return order(self) < order(other)


_tab = {}
_ord = {}
MAXDEPTH = 60


def order(t):
    return _ord[t]


def T(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is not None:
        return t
    t = Term()
    t.op = op
    t.a = a
    t.h = hash(key)
    t._s = None
    d = 0
    syms = None
    for x in a:
        if x.__class__ is Term:
            if x.depth > d:
                d = x.depth
            if x.syms:
                syms = x.syms if syms is None else (syms | x.syms if not x.syms <= syms else syms)
        elif x.__class__ is tuple and x:
            z = tuple_syms(x)
            if z:
                syms = z if syms is None else syms | z
    t.depth = d + 1
    t.syms = syms or frozenset()
    if op == "hole":
        t.syms = frozenset([t])
    elif op in SYM_OPS:
        t.syms = t.syms | frozenset([t])
    _tab[key] = t
    _ord[t] = len(_ord)
    return t


def tuple_syms(x):
    r = frozenset()
    for y in x:
        if y.__class__ is Term:
            if y.syms:
                r |= y.syms
        elif y.__class__ is tuple or y.__class__ is frozenset:
            r |= tuple_syms(y)
    return r


# Terms that stand for one particular run-time value that something else may produce again.
SYM_OPS = frozenset(["call", "elem", "out", "w", "hole", "old"])

UNIT = None


def INT(n):
    return T("int", int(n))


def BYTES(b):
    return T("bytes", bytes(b))


TRUE = T("int", 1)
FALSE = T("int", 0)
MOVED = T("moved")
UNDEF = T("undef")
UNITV = T("agg", ("tuple", 0))


def AGG(kind, variant, *f):
    return T("agg", (kind, variant), *f)


OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"


def NONE():
    return AGG(OPT, 0)


def SOME(x):
    return AGG(OPT, 1, x)


def OK(x):
    return AGG(RES, 0, x)


def ERR(x):
    return AGG(RES, 1, x)


def CREF(x):
    return T("cref", x)


def TUP(*x):
    return AGG("tuple", 0, *x)


def is_agg(t, kind=None, variant=None):
    return (
        t.op == "agg"
        and (kind is None or t.a[0][0] == kind)
        and (variant is None or t.a[0][1] == variant)
    )


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if t._s is not None:
        return t._s
    if d > 9:
        return ".."
    o, a = t.op, t.a
    if o == "int":
        r = str(a[0])
    elif o == "bytes":
        r = repr(a[0])[1:]
    elif o == "agg":
        k = a[0][0].split("::")[-1] if a[0][0] else ""
        r = "%s#%s(%s)" % (k, a[0][1], ", ".join(show(x, d + 1) for x in a[1:]))
    elif o == "cref":
        r = "&" + show(a[0], d + 1)
    elif o == "call":
        r = "%s@%s(%s)" % (short(a[1]), a[0], ", ".join(show(x, d + 1) for x in a[2:]))
    elif o in ("pure", "old"):
        r = "%s%s(%s)" % (
            "" if o == "pure" else "old:",
            short(str(a[0])),
            ", ".join(show(x, d + 1) for x in a[1:]),
        )
    elif o == "fld":
        r = "%s.%s" % (show(a[0], d + 1), ".".join(str(x) for x in a[1:]))
    elif o == "cat":
        r = "<" + " ".join(show(x, d + 1) for x in a) + ">"
    else:
        r = "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))
    if len(r) > 600:
        r = r[:600] + "…"
    if d == 0:
        t._s = r
    return r


def short(p):
    return "::".join(p.split("::")[-2:])


_ren = {}


def rename(t, m, memo=None):
    """Replaces subterms of t by the mapping m (Term -> Term)."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if not t.syms:
        return t
    for k in m:
        if k in t.syms or k.op not in SYM_OPS:
            break
    else:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    args = tuple(rename_any(x, m, memo) for x in t.a)
    if args == t.a:
        r = t
    else:
        r = rebuild(t.op, args)
    memo[t] = r
    return r


def rename_any(x, m, memo=None):
    if memo is None:
        memo = {}
    if x.__class__ is Term:
        return rename(x, m, memo)
    if x.__class__ is tuple:
        return tuple(rename_any(y, m, memo) for y in x)
    if x.__class__ is frozenset:
        return frozenset(rename_any(y, m, memo) for y in x)
    return x


def rebuild(op, args):
    if op == "eq":
        a, b = args
        if _ord[b] < _ord[a]:
            a, b = b, a
        return T("eq", a, b)
    if op == "some":
        return SOMEOF(args)
    if op in ("each", "part"):
        return T(op, args[0], args[1], *sorted(set(args[2:]), key=order))
    return T(op, *args)


def any_sub(t, pred, seen=None):
    """The first subterm satisfying pred, or None."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.__class__ is tuple or x.__class__ is frozenset:
            st.extend(x)
            continue
        if x.__class__ is not Term or x in seen:
            continue
        seen.add(x)
        if pred(x):
            return x
        st.extend(x.a)
    return None


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.__class__ is tuple or x.__class__ is frozenset:
            st.extend(x)
            continue
        if x.__class__ is not Term or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def cat(*parts):
    """Concatenation of byte strings, flattened."""
    out = []
    for p in parts:
        ps = p.a if p.op == "cat" else (p,)
        for q in ps:
            if q.op == "bytes":
                if q.a[0] == b"":
                    continue
                if out and out[-1].op == "bytes":
                    out[-1] = BYTES(out[-1].a[0] + q.a[0])
                    continue
            elif q.op == "slice" and q.a[1] is q.a[2]:
                continue
            out.append(q)
    if not out:
        return BYTES(b"")
    if len(out) == 1:
        return out[0]
    return T("cat", *out)


def SOMEOF(items):
    """Any number of elements, each made like one of the items."""
    r = set()
    for x in items:
        if x.op == "some":
            r.update(x.a)
        elif x.op in ("each", "part"):
            r.update(x.a[2:])
        else:
            r.add(x)
    return T("some", *sorted(r, key=order))
