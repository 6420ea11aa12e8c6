"""The dataflow engine: an interprocedural, path-sensitive abstract interpretation of MIR.

The abstract state maps storage cells to terms (a value-numbering domain, see terms.py) and carries
facts about terms: the variant of an enum, the truth of a comparison, linear inequalities.  States
are propagated over the control-flow graph with workspace callees analysed in the calling context
and library calls handled by the transfer functions in models.py; they are merged when they agree,
and widened at loop heads, until nothing new is reached.  Property rules are typestate automata
that ride along in the state (`State.mon`) and see every library call, assertion and drop.
"""
import heapq
import itertools
import sys

from load import head, show_ty, subst, ty
from terms import *
import terms

sys.setrecursionlimit(20000)

UNSIGNED = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
SIGNED = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
# Terms known to have an unsigned type, with its maximum.  A property of the term, not of a path.
UMAX = {}
# Lengths of arrays, from their types.
ARRLEN = {}
ORD = "core::cmp::Ordering"


# How many values of one origin are told apart; older ones are lumped together.
OLDEST = 5


EXITCAP = 4
JOINCAP = 4
DEBUG = 0


class Stop(Exception):
    """The analysis cannot go on."""


class Infeasible(Exception):
    pass


class State(object):
    """mem: cells to terms; facts: what is known; mon: what the rule being checked remembers;
    created: the run-time values in use; held: the origins of values that only callers use; log: how
    often values of those origins were produced again."""

    __slots__ = ("mem", "facts", "mon", "created", "held", "log", "keep")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.mon = ()
        self.created = frozenset()
        self.held = frozenset()
        self.log = frozenset()
        self.keep = frozenset()

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.mon = self.mon
        s.created = self.created
        s.held = self.held
        s.log = self.log
        s.keep = self.keep
        return s

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.mon, self.log)


class Frame(object):
    __slots__ = ("body", "sub", "fid", "parent", "site")

    def __init__(self, body, sub, fid, parent):
        self.body = body
        self.sub = sub
        self.fid = fid
        self.parent = parent
        self.site = None

    def chain(self):
        f = self
        r = []
        while f is not None:
            r.append(f)
            f = f.parent
        return r


class Call(object):
    """One call of a function the workspace doesn't define."""

    __slots__ = ("I", "st", "fr", "p", "res", "targs", "args", "argtys", "retty", "loc", "fid", "trait", "selfty")

    def site(self):
        return "%s: %s (%s)" % (self.fr.body.p, short(self.p), self.loc)


def lin_add(a, b, k=1):
    d = dict(a[0])
    for t, c in b[0].items():
        n = d.get(t, 0) + k * c
        if n:
            d[t] = n
        else:
            d.pop(t, None)
    return d, a[1] + k * b[1]


def lin(t):
    """A term as a linear combination (dict term -> coefficient, constant)."""
    o = t.op
    if o == "int":
        return {}, t.a[0]
    if o == "add":
        return lin_add(lin(t.a[0]), lin(t.a[1]))
    if o == "sub":
        return lin_add(lin(t.a[0]), lin(t.a[1]), -1)
    if o == "mul":
        a, b = lin(t.a[0]), lin(t.a[1])
        if not a[0]:
            a, b = b, a
        if not b[0]:
            return {x: c * b[1] for x, c in a[0].items() if b[1]}, a[1] * b[1]
        return {t: 1}, 0
    if o == "len":
        return lin_len(t.a[0], t)
    return {t: 1}, 0


def lin_len(c, t):
    if c.op == "bytes":
        return {}, len(c.a[0])
    if c.op == "cat":
        r = ({}, 0)
        for p in c.a:
            r = lin_add(r, lin(LEN(p)))
        return r
    if c.op == "slice":
        return lin_add(lin(c.a[2]), lin(c.a[1]), -1)
    if c.op == "seq":
        n = 0
        for x in c.a:
            if x.op in ("each", "some", "part"):
                return {t: 1}, 0
            n += 1
        return {}, n
    if c.op == "byte":
        return {}, 1
    if c.op == "rep":
        return lin(c.a[1])
    return {t: 1}, 0


def LEN(c):
    n = ARRLEN.get(c)
    if n is not None:
        return INT(n)
    if c.op == "bytes":
        return INT(len(c.a[0]))
    if c.op == "slice":
        return SUB(c.a[2], c.a[1])
    if c.op == "seq" and all(x.op not in ("each", "some", "part") for x in c.a):
        return INT(len(c.a))
    if c.op == "seq" and len(c.a) == 1 and c.a[0].op == "each":
        return LEN(c.a[0].a[0])
    if c.op == "rep":
        return c.a[1]
    if c.op == "agg" and c.a[0][0] == "array":
        return INT(len(c.a) - 1)
    if c.op in ("upd", "updidx", "updslice"):
        return LEN(c.a[0])
    if c.op == "blob":
        return c.a[0]
    t = T("len", c)
    UMAX.setdefault(t, (1 << 63) - 1)
    return t


def peel(v):
    """A value and the fields of it that have been updated."""
    ch = {}
    while v.op == "upd":
        ch.setdefault(v.a[1], v.a[2])
        v = v.a[0]
    return v, ch


def unlin(l):
    d, c = l
    pos, neg = [], []
    for t in sorted(d, key=order):
        k = d[t]
        x = t if abs(k) == 1 else T("mul", t, INT(abs(k)))
        (pos if k > 0 else neg).append(x)
    if c > 0 or (not pos and not neg):
        pos.append(INT(c))
    elif c < 0:
        neg.append(INT(-c))
    if not pos:
        pos.append(INT(0))
    r = pos[0]
    for x in pos[1:]:
        r = T("add", r, x)
    for x in neg:
        r = T("sub", r, x)
    return r


def ADD(a, b):
    if a.op == "int" and b.op == "int":
        return INT(a.a[0] + b.a[0])
    return unlin(lin_add(lin(a), lin(b)))


def SUB(a, b):
    if a.op == "int" and b.op == "int":
        return INT(a.a[0] - b.a[0])
    return unlin(lin_add(lin(a), lin(b), -1))


def EQ(a, b):
    if a is b and terms.any_sub(a, lambda x: x.op in ("top", "undef") or x.op == "old" and x.a[1] >= OLDEST) is None:
        return TRUE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == "bytes" and b.op == "bytes":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == "agg" and b.op == "agg" and a.a[0][0] == b.a[0][0]:
        if a.a[0][1] != b.a[0][1]:
            return FALSE
        if len(a.a) == len(b.a):
            r = TRUE
            for x, y in zip(a.a[1:], b.a[1:]):
                r = AND(r, EQ(strip(x), strip(y)))
            return r
    if b.op == "agg" and len(b.a) == 1 and a.op != "agg":
        return T("isvar", a, b.a[0])
    if a.op == "agg" and len(a.a) == 1 and b.op != "agg":
        return T("isvar", b, a.a[0])
    return rebuild("eq", (a, b))


def strip(t):
    """The value behind shared references and boxes."""
    while t.op in ("cref", "box") or t.op == "dyn":
        t = t.a[-1]
    return t


def NOT(x):
    if x.op == "int":
        return INT(1 - x.a[0])
    if x.op == "not":
        return x.a[0]
    return T("not", x)


def AND(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return T("and", a, b)


def LT(a, b):
    d, c = lin_add(lin(a), lin(b), -1)
    if not d:
        return TRUE if c < 0 else FALSE
    return T("lt", a, b)


def ge_fact(l):
    """The fact that a linear combination is >= 0, as a dictionary key."""
    return ("ge0", frozenset(l[0].items()), l[1])


class Interp(object):
    def __init__(self, prog, monitor, models, opts=None):
        self.P = prog
        self.M = monitor
        self.models = models
        self.opts = opts or {}
        self.ctx = {}
        self.ctxinfo = [None]
        self.stats = {"bodies": set(), "sites": set(), "blocks": 0, "events": 0, "states": 0, "widened": 0, "unmodelled": {}}
        self.violations = {}
        self.fuel = self.opts.get("fuel", 3000000)
        self.prims = self.opts.get("prims", {})
        self.stop_at = self.opts.get("stop_at", ())
        self._dropi = {}
        self.framing = self.opts.get("framing", True)
        self.memo = {}
        self.stats["hits"] = self.stats["misses"] = 0
        monitor.I = self
        # How many states of one shape a loop head keeps apart.
        self.loopcap = opts.get("loopcap", 3)

    # ---- contexts -------------------------------------------------------------------------
    def ctxid(self, parent, tag):
        k = (parent, tag)
        i = self.ctx.get(k)
        if i is None:
            i = len(self.ctxinfo)
            self.ctx[k] = i
            self.ctxinfo.append(k)
        return i

    def report(self, key, msg):
        if key not in self.violations:
            self.violations[key] = msg

    # ---- memory ---------------------------------------------------------------------------
    def getfld(self, v, k, i):
        o = v.op
        if o == "agg":
            if v.a[0][1] == k or v.a[0][0] in ("tuple", "closure", "array"):
                if i + 1 < len(v.a):
                    return v.a[i + 1]
            return UNDEF
        if o == "upd":
            if v.a[1] == ("f", k, i):
                return v.a[2]
            return self.getfld(v.a[0], k, i)
        if o == "moved":
            return MOVED
        if o == "undef":
            return UNDEF
        if o == "ite":
            return self.mk_ite(v.a[0], self.getfld(v.a[1], k, i), self.getfld(v.a[2], k, i))
        return T("fld", v, k, i)

    def mk_ite(self, c, a, b):
        return a if a is b else T("ite", c, a, b)

    def getidx(self, v, i):
        if v.op == "agg" and v.a[0][0] == "array" and i.op == "int" and i.a[0] + 1 < len(v.a):
            return v.a[i.a[0] + 1]
        if v.op == "bytes" and i.op == "int" and 0 <= i.a[0] < len(v.a[0]):
            return INT(v.a[0][i.a[0]])
        if v.op == "updidx":
            if v.a[1] is i:
                return v.a[2]
            if v.a[1].op == "int" and i.op == "int":
                return self.getidx(v.a[0], i)
        if v.op == "seq" and i.op == "int" and all(x.op not in ("each", "some", "part") for x in v.a[: i.a[0] + 1]) and i.a[0] < len(v.a):
            x = v.a[i.a[0]]
            if x.op != "when" and not any(z.op == "hole" for z in x.syms):
                return x
        if v.op == "seq" and len(v.a) == 1 and v.a[0].op == "each" and len(v.a[0].a) == 3:
            # Made alike, one for each element of another sequence.
            e = v.a[0]
            it = e.a[2]
            if it.op == "when":
                it = it.a[0]
            h = T("hole", T("elem", e.a[0]), None)
            if all(z.op != "hole" or z is h for z in it.syms):
                return rename(it, {h: self.getidx(e.a[0], i)})
        if v.op == "rep":
            return v.a[0]
        if v.op == "slice":
            return self.getidx(v.a[0], ADD(v.a[1], i))
        return T("idx", v, i)

    def getproj(self, v, pr):
        k = pr[0]
        if k == "f":
            return self.getfld(v, pr[1], pr[2])
        if k == "b":
            if v.op == "box":
                return v.a[0]
            if v.op == "dyn":
                return self.getproj(v.a[1], pr)
            if v.op == "moved":
                return MOVED
            return T("deref", v)
        if k == "i":
            return self.getidx(v, pr[1])
        if k == "s":
            return self.mkslice(v, pr[1], pr[2])
        raise Stop("projection " + repr(pr))

    def mkslice(self, v, a, b):
        if a.op == "int" and a.a[0] == 0 and b is LEN(v):
            return v
        if v.op == "bytes" and a.op == "int" and b.op == "int":
            return BYTES(v.a[0][a.a[0] : b.a[0]])
        if v.op == "slice":
            return self.mkslice(v.a[0], ADD(v.a[1], a), ADD(v.a[1], b))
        if v.op == "updslice" and v.a[1] is a and v.a[2] is b:
            return v.a[3]
        if v.op == "seq" and a.op == "int" and b.op == "int" and LEN(v).op == "int":
            return T("seq", *v.a[a.a[0] : b.a[0]])
        return T("slice", v, a, b)

    def setproj(self, base, projs, val):
        if not projs:
            return val
        pr = projs[0]
        k = pr[0]
        if k == "f":
            old = self.getfld(base, pr[1], pr[2])
            new = self.setproj(old, projs[1:], val)
            if base.op == "agg" and pr[2] + 1 < len(base.a):
                a = list(base.a)
                a[pr[2] + 1] = new
                return T("agg", *a)
            if base.op == "upd":
                # Keep one update per field, in a canonical order.
                ch = {}
                b = base
                while b.op == "upd":
                    ch.setdefault(b.a[1], b.a[2])
                    b = b.a[0]
                ch[("f", pr[1], pr[2])] = new
                for kk in sorted(ch):
                    b = T("upd", b, kk, ch[kk])
                return b
            return T("upd", base, ("f", pr[1], pr[2]), new)
        if k == "b":
            if base.op == "dyn":
                return T("dyn", base.a[0], self.setproj(base.a[1], projs, val))
            return T("box", self.setproj(self.getproj(base, pr), projs[1:], val))
        if k == "i":
            new = self.setproj(self.getidx(base, pr[1]), projs[1:], val)
            if base.op == "agg" and base.a[0][0] == "array" and pr[1].op == "int":
                a = list(base.a)
                a[pr[1].a[0] + 1] = new
                return T("agg", *a)
            return T("updidx", base, pr[1], new)
        if k == "s":
            new = self.setproj(self.mkslice(base, pr[1], pr[2]), projs[1:], val)
            b = base
            if b.op == "updslice" and b.a[1] is pr[1] and b.a[2] is pr[2]:
                b = b.a[0]
            if b.depth > 12:
                return T("blob", LEN(b), T("top"))
            return T("updslice", b, pr[1], pr[2], new)
        raise Stop("projection " + repr(pr))

    def load(self, st, cell, projs):
        v = st.mem.get(cell)
        if v is None:
            v = T("deref", cell[1]) if cell[0] == "P" else UNDEF
        for pr in projs:
            v = self.getproj(v, pr)
        return v

    def store(self, st, cell, projs, val):
        if not projs:
            st.mem[cell] = val
            return
        base = st.mem.get(cell)
        if base is None:
            base = T("deref", cell[1]) if cell[0] == "P" else UNDEF
        st.mem[cell] = self.setproj(base, projs, val)

    def deref(self, st, p):
        """The value a pointer points to."""
        while p.op == "dyn":
            p = p.a[1]
        if p.op == "ref":
            return self.load(st, p.a[0], p.a[1])
        if p.op in ("cref", "box"):
            return p.a[0]
        c = ("P", p)
        if c in st.mem:
            return st.mem[c]
        return T("deref", p)

    def deref_all(self, st, p, n=6):
        """The value behind any number of pointers."""
        while n and p.op in ("ref", "cref", "box", "dyn"):
            p = self.deref(st, p)
            n -= 1
        return p

    def assign(self, st, p, val):
        """Stores through a pointer."""
        while p.op == "dyn":
            p = p.a[1]
        if p.op == "ref":
            self.store(st, p.a[0], p.a[1], val)
        elif p.op == "cref" or p.op == "box":
            pass
        else:
            st.mem[("P", p)] = val

    def walk(self, st, fr, place):
        """Resolves a place: (cell, projections) or None, its value and its type."""
        cell = (fr.fid, place[0])
        loc = (cell, ())
        v = st.mem.get(cell, UNDEF)
        t = fr.body.locals[place[0]]
        if fr.sub:
            t = subst(t, fr.sub)
        variant = 0
        dynt = None
        for e in place[1:]:
            k = e[0]
            dynt = None
            if k == "*":
                while v.op == "dyn":
                    dynt = v.a[0]
                    v = v.a[1]
                if v.op == "ref":
                    loc = (v.a[0], v.a[1])
                    v = self.load(st, v.a[0], v.a[1])
                elif v.op == "cref":
                    loc = None
                    v = v.a[0]
                elif v.op == "box":
                    loc = None if loc is None else (loc[0], loc[1] + (("b",),))
                    v = v.a[0]
                else:
                    isbox = t[0] == "adt" and t[1] == "alloc::boxed::Box"
                    if isbox and loc is not None:
                        loc = (loc[0], loc[1] + (("b",),))
                        v = self.getproj(v, ("b",))
                    else:
                        loc = (("P", v), ())
                        v = self.deref(st, v)
                if t[0] in ("ref", "ptr"):
                    t = t[2]
                elif t[0] == "adt" and len(t) > 2:
                    t = t[2]
                variant = 0
            elif k == "f":
                nt = subst(ty(e[2]), fr.sub) if e[2].__class__ is dict else e[2]
                isb = t[0] == "adt" and t[1] == "alloc::boxed::Box"
                if not isb:
                    pr = ("f", variant, e[1])
                    loc = None if loc is None else (loc[0], loc[1] + (pr,))
                    v = self.getfld(v, variant, e[1])
                t = nt
                variant = 0
            elif k == "v":
                variant = e[1]
            elif k == "i":
                i = st.mem.get((fr.fid, e[1]), UNDEF)
                loc = None if loc is None else (loc[0], loc[1] + (("i", i),))
                v = self.getidx(v, i)
                t = t[1] if t[0] in ("array", "slice") else ("?",)
            elif k == "ci":
                n = LEN(v)
                i = SUB(n, INT(e[1])) if e[3] else INT(e[1])
                loc = None if loc is None else (loc[0], loc[1] + (("i", i),))
                v = self.getidx(v, i)
                t = t[1] if t[0] in ("array", "slice") else ("?",)
            elif k == "ss":
                n = LEN(v)
                b = SUB(n, INT(e[2])) if e[3] else INT(e[2])
                loc = None if loc is None else (loc[0], loc[1] + (("s", INT(e[1]), b),))
                v = self.mkslice(v, INT(e[1]), b)
            else:
                raise Stop("place projection " + repr(e))
        self.dynt = dynt
        return loc, v, t

    def note(self, v, t):
        """Remembers what a type says about a value."""
        if t[0] in UNSIGNED and v.op not in ("int", "add", "sub", "mul"):
            UMAX.setdefault(v, (1 << UNSIGNED[t[0]]) - 1)
        elif t[0] == "array" and v.op in ("param", "data", "deref", "fld", "call", "out", "w", "partial", "pure") and str(t[2]).isdigit():
            ARRLEN.setdefault(v, int(t[2]))
        return v

    def operand(self, st, fr, o):
        """(value, type) of an operand; a move leaves a hole."""
        k = o[0]
        if k == "cp":
            loc, v, t = self.walk(st, fr, o[1])
            return self.note(v, t), t
        if k == "mv":
            loc, v, t = self.walk(st, fr, o[1])
            if loc is not None and t[0] not in ("ref", "bool", "char") and t[0] not in UNSIGNED and t[0] not in SIGNED:
                self.store(st, loc[0], loc[1], MOVED)
            return self.note(v, t), t
        if k == "fn":
            d = o[1]
            return self.fnval(d, fr.sub), ("fndef", d["p"])
        if k == "c":
            t = subst(ty(o[1]), fr.sub)
            return self.constant(o, t), t
        if k == "rt":
            return FALSE, ("bool",)
        raise Stop("operand " + repr(o))

    def fnval(self, d, sub):
        key = ("fnval", id(d))
        a = tuple(subst(ty(x), sub) for x in d["a"])
        FNS[(d["p"], a)] = d
        return T("fn", d["p"], a)

    def constant(self, o, t):
        v = o[2]
        if v is None:
            x = o[3] or "?"
            if x[:1] == x[-1:] == '"' and len(x) > 1 and "\\" not in x and t[0] == "ref":
                return CREF(BYTES(x[1:-1].encode()))
            return T("konst", x)
        if "i" in v:
            if t[0] == "adt":
                return self.scalar_adt(int(v["i"]), t)
            return INT(int(v["i"]))
        if "b" in v:
            b = bytes.fromhex(v["b"])
            return CREF(BYTES(b))
        if "z" in v:
            if t[0] == "tuple" and len(t) == 1:
                return UNITV
            if t[0] == "adt":
                return AGG(t[1], 0)
            if t[0] == "closure":
                return T("agg", ("closure", 0), t[1], t[2:])
            if t[0] == "fndef":
                return T("fn", t[1], t[2:])
            return UNITV
        return T("konst", o[3] or repr(v))

    def scalar_adt(self, n, t):
        a = self.P.adt(t[1])
        if a is not None and a["enum"]:
            k = self.P.variant_of_discr(t[1], n)
            if k is not None and not a["v"][k]["f"]:
                return AGG(t[1], k)
        return T("pure", "scalar", INT(n), t[1])

    # ---- facts ----------------------------------------------------------------------------
    def variant(self, st, v):
        """The known variant index of an enum value."""
        if v.op == "agg":
            return v.a[0][1]
        if v.op == "upd":
            return self.variant(st, v.a[0])
        k = st.facts.get(("var", v))
        if k is not None:
            return k
        if v.op == "cmp":
            a, b = v.a
            if self.prove_ge(st, lin_add(lin(b), lin(a), -1), -1):
                return 0
            if self.prove_ge(st, lin_add(lin(a), lin(b), -1), -1):
                return 2
            if st.facts.get(("tr", EQ(a, b))) is True:
                return 1
        return None

    def set_variant(self, st, v, k, adt=None):
        """Assumes the variant of an enum value; False if that cannot be."""
        cur = self.variant(st, v)
        if cur is not None:
            return cur == k
        if v.op == "ite":
            c, a, b = v.a
            ka, kb = self.variant(st, a), self.variant(st, b)
            if ka is not None and kb is not None and ka != kb:
                if k == ka:
                    return self.assume(st, c, True)
                if k == kb:
                    return self.assume(st, c, False)
                return False
        nv = st.facts.get(("nvar", v))
        if nv is not None and k in nv:
            return False
        st.facts[("var", v)] = k
        st.facts.pop(("nvar", v), None)
        if v.op == "cmp":
            a, b = v.a
            if k == 0:
                return self.assume(st, LT(a, b), True)
            if k == 2:
                return self.assume(st, LT(b, a), True)
            return self.assume(st, EQ(a, b), True)
        return self.M.on_variant(st, v, k) is not False

    def not_variant(self, st, v, ks):
        cur = self.variant(st, v)
        if cur is not None:
            return cur not in ks
        nv = st.facts.get(("nvar", v), frozenset()) | frozenset(ks)
        st.facts[("nvar", v)] = nv
        return True

    def cases(self, st, v, adt, n=None):
        """Splits on the variant of an enum value: [(state, variant)]."""
        k = self.variant(st, v)
        if k is not None:
            return [(st, k)]
        if n is None:
            a = self.P.adt(adt)
            n = len(a["v"]) if a else 2
        r = []
        for k in range(n):
            s = st.fork()
            if self.set_variant(s, v, k, adt):
                r.append((s, k))
        return r

    def lemmas(self, st, t):
        """Bounds implied by what a term is: [(is_upper, linear)]."""
        r = []
        o = t.op
        if t in UMAX:
            r.append((False, ({}, 0)))
            r.append((True, ({}, UMAX[t])))
        if o == "min":
            r.append((True, lin(t.a[0])))
            r.append((True, lin(t.a[1])))
        elif o == "max":
            r.append((False, lin(t.a[0])))
            r.append((False, lin(t.a[1])))
        elif o == "len":
            c = t.a[0]
            if c.op == "slice":
                r.append((True, lin(SUB(c.a[2], c.a[1]))))
        elif o == "bitand":
            for x in t.a:
                if x.op == "int" and x.a[0] >= 0:
                    r.append((True, ({}, x.a[0])))
                    r.append((False, ({}, 0)))
        elif o == "rem":
            if t.a[1].op == "int" and t.a[1].a[0] > 0:
                r.append((True, ({}, t.a[1].a[0] - 1)))
        elif o == "range":
            r.append((False, ({}, t.a[1])))
            r.append((True, ({}, t.a[2])))
        return r

    def prove_ge(self, st, l, slack=0):
        """Whether a linear combination is known to be >= -slack ... >= 0 + (-slack)."""
        if not l[0]:
            return l[1] + slack >= 0
        best = {}
        for f in st.facts:
            if f[0] == "ge0":
                # Of facts about the same sum, the strongest says it all.
                o = best.get(f[1])
                if o is None or f[2] < o:
                    best[f[1]] = f[2]
        goal = frozenset(l[0].items())
        k = (goal, l[1] + slack, frozenset(best.items()))
        r = PROOFS.get(k)
        if r is None:
            facts = [(q, FORMS.get(q) or FORMS.setdefault(q, dict(q)), n) for q, n in best.items()]
            r = self._prove(st, (l[0], l[1] + slack), goal, best, facts, 5, {})
            if len(PROOFS) > 400000:
                PROOFS.clear()
            PROOFS[k] = r
        return r

    def _prove(self, st, l, dk, best, facts, depth, seen):
        d, c = l
        if not d:
            return c >= 0
        if depth == 0:
            return False
        o = seen.get(dk)
        if o is not None and c <= o:
            return False
        seen[dk] = c
        # Directly known?
        o = best.get(dk)
        if o is not None and o <= c:
            return True
        # Replace a term by a bound.
        for t, co in sorted(d.items(), key=lambda x: order(x[0])) if len(d) > 1 else d.items():
            for up, b in self.lemmas(st, t):
                if (co > 0) != up:
                    rest = dict(d)
                    del rest[t]
                    n = lin_add((rest, c), b, co)
                    if not n[0]:
                        if n[1] >= 0:
                            return True
                    elif self._prove(st, n, frozenset(n[0].items()), best, facts, depth - 1, seen):
                        return True
            if t.op == ("min" if co > 0 else "max"):
                # Either way.
                rest = dict(d)
                del rest[t]
                ns = [lin_add((rest, c), lin(x), co) for x in t.a]
                if all(self._prove(st, n, frozenset(n[0].items()), best, facts, depth - 1, {}) for n in ns):
                    return True
            for fk, fd, fn in facts:
                fc = fd.get(t)
                if fc is None:
                    continue
                # fd + fn >= 0.  If co*t and fc*t have the same sign, subtract.
                if (fc > 0) == (co > 0) and co % fc == 0:
                    m = co // fc
                    if m > 0:
                        n = lin_add(l, (fd, fn), -m)
                        if not n[0]:
                            if n[1] >= 0:
                                return True
                        elif self._prove(st, n, frozenset(n[0].items()), best, facts, depth - 1, seen):
                            return True
        return False

    def decide(self, st, c):
        """Whether a condition is known to be true or false."""
        o = c.op
        if o == "int":
            return bool(c.a[0])
        if o == "not":
            r = self.decide(st, c.a[0])
            return None if r is None else not r
        r = st.facts.get(("tr", c))
        if r is not None:
            return r
        if o == "and":
            x, y = self.decide(st, c.a[0]), self.decide(st, c.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if o == "isvar":
            v, key = c.a
            k = self.variant(st, v)
            if k is not None:
                return k == key[1]
            nv = st.facts.get(("nvar", v))
            if nv and key[1] in nv:
                return False
            return None
        if o == "lt":
            a, b = c.a
            l = lin_add(lin(b), lin(a), -1)
            if self.prove_ge(st, l, -1):
                return True
            if self.prove_ge(st, lin_add(lin(a), lin(b), -1)):
                return False
            return None
        if o == "eq":
            a, b = c.a
            if isnum(a) or isnum(b):
                l = lin_add(lin(a), lin(b), -1)
                n = lin_add(lin(b), lin(a), -1)
                if self.prove_ge(st, l, -1) or self.prove_ge(st, n, -1):
                    return False
                if self.prove_ge(st, l) and self.prove_ge(st, n):
                    return True
            # The value is known to equal another constant.
            for x, y in ((a, b), (b, a)):
                if y.op in ("int", "bytes"):
                    e = st.facts.get(("const", x))
                    if e is not None and e is not y:
                        return False
            r = self.M.decide_eq(st, a, b)
            return r
        if o == "ite":
            x = self.decide(st, c.a[0])
            if x is not None:
                return self.decide(st, c.a[1] if x else c.a[2])
            return None
        return None

    def assume(self, st, c, val):
        """Adds a condition to the state; False if it contradicts what is known."""
        k = self.decide(st, c)
        if k is not None:
            return k == val
        o = c.op
        if o == "not":
            return self.assume(st, c.a[0], not val)
        if o == "and" and val:
            return self.assume(st, c.a[0], True) and self.assume(st, c.a[1], True)
        if o == "isvar":
            v, key = c.a
            if val:
                return self.set_variant(st, v, key[1], key[0])
            return self.not_variant(st, v, [key[1]])
        if o == "ite":
            pass
        st.facts[("tr", c)] = val
        if o == "lt":
            a, b = c.a
            if val:
                l = lin_add(lin(b), lin(a), -1)
                self.learn_ge(st, (l[0], l[1] - 1))
            else:
                self.learn_ge(st, lin_add(lin(a), lin(b), -1))
        elif o == "eq":
            a, b = c.a
            if val:
                if isnum(a) or isnum(b):
                    self.learn_ge(st, lin_add(lin(a), lin(b), -1))
                    self.learn_ge(st, lin_add(lin(b), lin(a), -1))
                for x, y in ((a, b), (b, a)):
                    if y.op in ("int", "bytes"):
                        st.facts[("const", x)] = y
                        if x.op == "idx":
                            self.differ(st, x, y)
                        if y.op == "bytes":
                            n = LEN(x)
                            if n.op != "int":
                                self.add_ge(st, lin_add(lin(n), ({}, len(y.a[0])), -1))
                                self.add_ge(st, lin_add(({}, len(y.a[0])), lin(n), -1))
            elif isnum(a) or isnum(b):
                # x != bound, x >= bound  =>  x > bound
                for x, y in ((a, b), (b, a)):
                    l = lin_add(lin(x), lin(y), -1)
                    if self.prove_ge(st, l):
                        self.add_ge(st, (l[0], l[1] - 1))
        r = self.M.on_assume(st, c, val)
        return r is not False

    def differ(self, st, x, y):
        """Elements that differ have different indices."""
        for f, v in list(st.facts.items()):
            if f[0] == "const" and f[1].op == "idx" and f[1] is not x and f[1].a[0] is x.a[0] and v is not y and v.op == y.op:
                i, j = x.a[1], f[1].a[1]
                for p, q in ((i, j), (j, i)):
                    l = lin_add(lin(q), lin(p), -1)
                    if self.prove_ge(st, l):
                        self.add_ge(st, (l[0], l[1] - 1))

    def add_ge(self, st, l):
        if l[0]:
            st.facts[ge_fact(l)] = True

    def learn_ge(self, st, l, depth=2):
        """Adds a fact; of a minimum or maximum that is bounded, the one that must be."""
        self.add_ge(st, l)
        for t, co in list(l[0].items()) if depth else ():
            if t.op == ("min" if co < 0 else "max"):
                rest = dict(l[0])
                del rest[t]
                alt = [lin_add((rest, l[1]), lin(x), co) for x in t.a]
                for x, y in (alt, alt[::-1]):
                    if self.prove_ge(st, ({q: -k for q, k in y[0].items()}, -y[1] - 1)):
                        self.learn_ge(st, x, depth - 1)
                        break

    def constof(self, st, v):
        if v.op in ("int", "bytes"):
            return v
        return st.facts.get(("const", v))

    # ---- symbols --------------------------------------------------------------------------
    def fresh(self, st, t):
        """Introduces a term for a new run-time value.  An older value of the same origin that is
        still around becomes a summary about which nothing is known."""
        k = origin(t)
        if k in st.held or any(origin(z) == k for z in st.created):
            self.age(st, {k: 1})
        st.created = st.created | frozenset([t])
        return t

    def age(self, st, ks):
        """The values of the given origins become older by a number of generations."""
        m = {}
        for z in st.created:
            k = origin(z)
            n = ks.get(k)
            if n:
                g = z.a[1] if z.op == "old" else 0
                if g < OLDEST:
                    m[z] = T("old", k, OLDEST if n > 1 else min(g + n, OLDEST))
        if m:
            st.created = frozenset(m.get(z, z) for z in st.created)
            self.rename_state(st, m)
        lg = [k for k in ks if k in st.held]
        if lg:
            d = dict(st.log)
            for k in lg:
                d[k] = min(d.get(k, 0) + ks[k], 2)
            st.log = frozenset(d.items())

    def rename_state(self, st, m):
        """Values of the same origin are about to be produced again: the old ones become unknown,
        except that an element of a sequence keeps its own, with what is known about it."""
        ks = set(m)

        def hit(x):
            if x.__class__ is Term:
                return not ks.isdisjoint(x.syms)
            if x.__class__ is tuple or x.__class__ is frozenset:
                return any(hit(y) for y in x)
            return False

        memo = {}
        apart = len(set(m.values())) == len(m)
        # Of names given where paths meet, bounds are kept, too.
        bounds = all(k.op == "w" or k.op == "old" and k.a[0][0] == "w" for k in m)
        for c, v in list(st.mem.items()):
            if c[0] == "P" and hit(c[1]):
                del st.mem[c]
                continue
            if hit(v):
                v = self.bind_items(st, v, ks, {})
                st.mem[c] = rename(v, m, memo)
        for f in list(st.facts):
            if hit(f) or hit(st.facts[f]):
                v = st.facts.pop(f)
                f2 = rename_any(f, m, memo)
                if apart and not any_lumped(f2) and f[0] in ("var", "nvar", "tr"):
                    st.facts[f2] = rename_any(v, m, memo)
                elif apart and bounds and f[0] == "ge0" and not any_lumped(f2):
                    l = ({}, f[2])
                    for t, k in f[1]:
                        l = lin_add(l, lin(rename(t, m, memo)), k)
                    self.add_ge(st, l)
        if hit(st.mon):
            st.mon = rename_any(st.mon, m, memo)

    def bind_items(self, st, v, ks, memo):
        if v.op in ("ref",) or ks.isdisjoint(v.syms):
            return v
        r = memo.get(v)
        if r is not None:
            return r
        if v.op == "seq":
            r = T("seq", *[self.bind_item(st, x, ks) for x in v.a])
        else:
            a = tuple(self.bind_items(st, x, ks, memo) if x.__class__ is Term else x for x in v.a)
            r = v if a == v.a else rebuild(v.op, a)
        memo[v] = r
        return r

    def bind_item(self, st, x, ks):
        hits = ks & x.syms
        if not hits:
            return x
        if x.op == "some":
            return SOMEOF([self.bind_item(st, y, ks) for y in x.a])
        if x.op in ("each", "part"):
            return rebuild(x.op, x.a[:2] + tuple(self.bind_item(st, y, ks) for y in x.a[2:]))
        g = ()
        if x.op == "when":
            g = x.a[1:]
            x = x.a[0]
        m = {}
        for k in sorted(hits, key=lambda k: (k.depth, k.a[1] if k.op == "old" else 0, order(k))):
            if k.op == "call":
                # What it was made from stays visible.
                q = rename(k, m)
                if any(z.op != "hole" and z is not q for z in q.syms):
                    q = None
                m[k] = T("hole", T("okey", origin(k), 0), q)
            elif k.op in ("out", "old"):
                m[k] = T("hole", T("okey", origin(k), k.a[1] if k.op == "old" else 0), None)
            else:
                m[k] = T("hole", k, None)
        gs = set(g)
        for f, v in st.facts.items():
            acc = set()
            self._syms_of(f[1:], acc)
            if acc & hits and acc <= x.syms:
                gs.add(T("guard", f, v))
        if len(gs) > 40:
            gs = set(sorted(gs, key=order)[:40])
        memo = {}
        r = rename(x, m, memo)
        if gs:
            r = T("when", r, *sorted((T("guard", rename_any(q.a[0], m, memo), rename_any(q.a[1], m, memo)) for q in gs), key=order))
        return r

    def instantiate(self, st, x):
        """An element made like the given item."""
        g = ()
        if x.op == "when":
            g = x.a[1:]
            x = x.a[0]
        m = {}
        for z in sorted(x.syms, key=lambda z: (z.depth, order(z))):
            if z.op == "hole":
                o = z.a[0]
                if o.op == "elem":
                    m[z] = o if o in st.created else self.fresh(st, o)
                else:
                    m[z] = self.fresh(st, T("elem", o, rename(z.a[1], m) if z.a[1] is not None else None))
        memo = {}
        r = rename(x, m, memo)
        for q in g:
            f, v = rename_any(q.a[0], m, memo), rename_any(q.a[1], m, memo)
            st.facts[f] = v
        return r

    def gc(self, st, extra=()):
        """Forgets facts about values that are no longer around."""
        live = set(st.keep)
        ghosts = []
        for c, v in st.mem.items():
            if c[0] == "P" and c[1].syms:
                ghosts.append((c, v))
            else:
                live |= v.syms
        self._syms_of(st.mon, live)
        for x in extra:
            self._syms_of(x, live)
        # What is recorded about an object that can't be reached any more is dropped.
        while ghosts:
            rest = []
            for g in ghosts:
                if g[0][1].syms <= live:
                    live |= g[1].syms
                else:
                    rest.append(g)
            if len(rest) == len(ghosts):
                for c, _ in rest:
                    del st.mem[c]
                break
            ghosts = rest
        for f in list(st.facts):
            for x in f[1:]:
                if not self._alive(x, live):
                    del st.facts[f]
                    break
        if st.created and not st.created <= live:
            st.created = frozenset(x for x in st.created if x in live)

    def _syms_of(self, x, live):
        if x.__class__ is Term:
            live |= x.syms
        elif x.__class__ is tuple or x.__class__ is frozenset:
            for y in x:
                self._syms_of(y, live)

    def _alive(self, x, live):
        if x.__class__ is Term:
            return x.syms <= live
        if x.__class__ is tuple or x.__class__ is frozenset:
            return all(self._alive(y, live) for y in x)
        return True

    # ---- bodies ---------------------------------------------------------------------------
    def reach(self, st, args):
        """What a callee can get at: (cells, syms)."""
        cells = set()
        syms = set()
        todo = list(args)
        self._syms_of(st.mon, syms)
        ghosts = [c for c in st.mem if c[0] == "P"]
        while True:
            while todo:
                v = todo.pop()
                syms |= v.syms
                for c in refs_in(v):
                    if c not in cells and c in st.mem:
                        cells.add(c)
                        todo.append(st.mem[c])
            rest = []
            for c in ghosts:
                if c[1].syms <= syms:
                    cells.add(c)
                    todo.append(st.mem[c])
                    todo.append(c[1])
                else:
                    rest.append(c)
            ghosts = rest
            if not todo:
                return cells, syms

    def run(self, st, body, sub, args, parent, tag):
        """Analyses a body in the given context: [(state, return value)].  The callee sees only what
        it can get at; what it does with the same things is worked out once."""
        if parent is None or not self.framing or len(body.blocks) < 3:
            return self._run(st, body, sub, args, parent, tag)
        fid = self.ctxid(parent.fid, tag)
        cells, syms = self.reach(st, args)
        s0 = State()
        s0.mon = st.mon
        s0.mem = {c: st.mem[c] for c in cells}
        fmem = {c: v for c, v in st.mem.items() if c not in cells}
        ffacts = {}
        for f, v in st.facts.items():
            if fact_syms(f) <= syms:
                s0.facts[f] = v
            else:
                ffacts[f] = v
        s0.created = frozenset(z for z in st.created if z in syms)
        s0.held = frozenset(origin(z) for z in st.created if self.below(z, fid)) | st.held
        s0.keep = frozenset(syms)
        key = (body.p, frozenset(sub.items()) if sub else None, fid, tuple(args), frozenset(s0.mem.items()), frozenset(s0.facts.items()), s0.mon, s0.created, s0.held)
        res = self.memo.get(key)
        if res is None:
            res = self._run(s0, body, sub, args, parent, tag)
            self.memo[key] = [(s.fork(), rv) for s, rv in res]
            self.stats["misses"] += 1
        else:
            self.stats["hits"] += 1
        out = []
        memo = {}
        for s, rv in res:
            n = memo.get(s.log)
            if n is None:
                n = State()
                n.mem = dict(fmem)
                n.facts = dict(ffacts)
                n.created = st.created
                n.held = st.held
                n.log = st.log
                n.keep = st.keep
                if s.log:
                    self.age(n, dict(s.log))
                memo[s.log] = n
            n = n.fork()
            n.mem.update(s.mem)
            n.facts.update(s.facts)
            n.mon = s.mon
            n.created = n.created | s.created
            out.append((n, rv))
        return out

    def below(self, z, fid):
        """Can a callee running in the given context produce values of this origin?"""
        k = origin(z)
        if k[0] == "elem":
            return True
        f = k[1][0] if k[0] == "w" else k[0]
        if f.__class__ is tuple:
            f = f[0]
        while f.__class__ is int and f > fid:
            f = self.ctxinfo[f][0]
        return f == fid or f.__class__ is not int

    def _run(self, st, body, sub, args, parent, tag):
        fid = self.ctxid(parent.fid if parent else 0, tag)
        fr = Frame(body, sub, fid, parent)
        self.stats["bodies"].add(body.p)
        d = parent
        n = 0
        while d is not None:
            n += 1
            if d.body is body and n > 0:
                cnt = sum(1 for f in parent.chain() if f.body is body)
                if cnt > 2:
                    raise Stop("recursion in " + body.p)
                break
            d = d.parent
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = a
            if i + 1 <= body.argc:
                t = body.locals[i + 1]
                self.note(a, subst(t, sub) if sub else t)
        st = self.M.on_enter(st, fr, args)
        if st is None:
            return []
        outs = {}
        rpo = self.rpo(body)
        heap = []
        cnt = itertools.count()
        seen = {}
        heads = body.heads
        joins = body.joins

        def push(s, b):
            if b in joins:
                live = body.live[b]
                for c in [c for c in s.mem if c[0] == fid and c[1] not in live and c[1] != 0]:
                    del s.mem[c]
                self.gc(s)
                if b in heads:
                    s = self.widen(fr, b, s, seen)
                    if s is None:
                        return
                else:
                    k = s.key()
                    ss = seen.setdefault(b, set())
                    if k in ss:
                        return
                    ss.add(k)
            heapq.heappush(heap, (rpo[b], next(cnt), b, s))

        push(st, 0)
        while heap:
            r, _, b, s = heapq.heappop(heap)
            group = [s]
            if b in joins and b not in heads:
                while heap and heap[0][0] == r:
                    group.append(heapq.heappop(heap)[3])
                if len(group) > JOINCAP:
                    group = self.merge_states(fr, b, group)
            for s in group:
                for s2, b2 in self.block(s, fr, b, outs):
                    push(s2, b2)
        res = []
        for s, rv in outs.values():
            res.append((s, rv))
        if parent is not None and len(res) > EXITCAP:
            res = self.merge_results(fr, res)
        return res

    def merge_states(self, fr, b, ss):
        """Joins states of one kind where paths meet, when there are many."""
        groups = {}
        for s in ss:
            groups.setdefault(self.shape(s), []).append(s)
        out = []
        for g in groups.values():
            if len(g) <= JOINCAP:
                out += g
                continue
            acc = None
            for s in g:
                if acc is None:
                    acc = self.age_names(s.fork(), (fr.fid, ("j", b)))
                    continue
                j = self.join(fr, ("j", b), acc, s)
                if j is None:
                    out.append(acc)
                    j = s
                acc = j
            self.stats["widened"] += 1
            out.append(acc)
        return out

    def merge_results(self, fr, res, label="ret"):
        """Joins outcomes of one kind when there are many."""
        groups = {}
        for s, rv in res:
            k = (self.shape(s), shape_of(rv), s.facts.get(("var", rv)))
            groups.setdefault(k, []).append((s, rv))
        out = []
        cell = (fr.fid, "rv") if label == "ret" else (fr.fid, "rv", label)
        for k, g in groups.items():
            if len(g) <= EXITCAP:
                out += g
                continue
            acc = None
            for s, rv in g:
                s = s.fork()
                s.mem[cell] = rv
                j = self.age_names(s, (fr.fid, label)) if acc is None else self.join(fr, label, acc, s)
                if j is None:
                    out.append((acc, acc.mem.pop(cell)))
                    j = s
                acc = j
            self.stats["widened"] += 1
            out.append((acc, acc.mem.pop(cell)))
        return out

    def result(self, outs, st, rv):
        """Keeps an outcome; outcomes that differ only in what is known about the bytes of a string
        are merged."""
        cl = [f[1] for f, v in st.facts.items() if f[0] == "tr" and f[1].op == "allin" and v is True]
        if cl:
            s2 = st.fork()
            m = {}
            for t in cl:
                del s2.facts[("tr", t)]
                m[t.a[0]] = m.get(t.a[0], frozenset(range(256))) & frozenset(t.a[1])
            key = (s2.key(), rv, frozenset(m))
            o = outs.get(key)
            if o is not None:
                for t in [f[1] for f in o[0].facts if f[0] == "tr" and f[1].op == "allin"]:
                    k = m.get(t.a[0])
                    m[t.a[0]] = frozenset(t.a[1]) | k
            for v, k in m.items():
                s2.facts[("tr", T("allin", v, bytes(sorted(k))))] = True
            outs[key] = (s2, rv)
            return
        key = (st.key(), rv)
        if key not in outs:
            outs[key] = (st, rv)

    def rpo(self, body):
        r = getattr(body, "_rpo", None)
        if r is None:
            order_, seen = [], set()
            st = [(0, iter(body.succ(0)))]
            seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(body.succ(s))))
                        break
                else:
                    order_.append(b)
                    st.pop()
            r = {b: i for i, b in enumerate(reversed(order_))}
            body._rpo = r
        return r

    def widen(self, fr, b, s, seen):
        """Keeps the number of states at a loop head finite."""
        self.models.absorb(self, s)
        self.forget_elements(s)
        k = s.key()
        ss = seen.setdefault(b, {})
        if k in ss:
            return None
        if any(z.op == "w" and z.a[0][:2] == (fr.fid, b) for z in s.created):
            s = self.age_names(s.fork(), (fr.fid, b))
        shape = self.shape(s)
        grp = seen.setdefault(("g", b), {})
        g = grp.setdefault(shape, [])
        cap = self.loopcap
        if len(g) >= 3 and len(g) < 40:
            for c, v in s.mem.items():
                if c[0] == fr.fid and v.op == "it" and concrete_it(v):
                    cap = 40
        if len(g) >= cap or len(ss) > max(120, cap):
            if len(ss) > max(120, cap):
                # Too many shapes: be coarser.
                g = grp.setdefault((s.mon, "coarse"), g)
            j = (self.join(fr, b, g[-1], s) if g else None) or s
            self.stats["widened"] += 1
            k = j.key()
            if k in ss:
                return None
            s = j
        if len(ss) > max(400, 2 * cap):
            raise Stop("too many states at a loop in " + fr.body.p)
        g.append(s)
        ss[k] = True
        return s

    def shape(self, s):
        """What has to agree before two states are joined."""
        f = s.facts
        return (s.mon, frozenset((c, shape_of(v), f.get(("var", v))) for c, v in s.mem.items() if c[0] != "P"))

    def forget_elements(self, s):
        """At a loop head, facts about single elements of a list that the state doesn't refer to any
        more are dropped: there would be another one for every element."""
        cands = {}
        for f in s.facts:
            for x in f[1:]:
                for z in idx_terms(x):
                    cands.setdefault(z, []).append(f)
        if not cands:
            return
        for z, fs in cands.items():
            if not any(z in idx_terms(v) for v in s.mem.values()) and z not in idx_terms(s.mon):
                for f in fs:
                    s.facts.pop(f, None)

    def age_names(self, s, pre):
        """Names a join gave out earlier denote other values now."""
        ks = {origin(z): 1 for z in s.created if z.op == "w" and z.a[0][:2] == pre}
        ks.update({k: 1 for k in s.held if k[0] == "w" and k[1][:2] == pre})
        if ks:
            self.age(s, ks)
        return s

    def join(self, fr, b, x, y):
        """The join of two states at a loop head.  Values that differ get a new name; values that
        were equal in both states keep a common name, so that relations survive."""
        pre = (fr.fid, b)
        if x.log != y.log:
            dx, dy = dict(x.log), dict(y.log)
            x, y = x.fork(), y.fork()
            for k in sorted(set(dx) | set(dy), key=repr):
                n = dx.get(k, 0) - dy.get(k, 0)
                if n:
                    self.age(x if n < 0 else y, {k: abs(n)})
            if x.mon != y.mon:
                return None
            x.log = y.log = frozenset((k, max(dx.get(k, 0), dy.get(k, 0))) for k in set(dx) | set(dy))
        if self.age_names(y.fork(), pre).mon != y.mon:
            return None
        y = self.age_names(y.fork(), pre)
        r = State()
        w = {}
        x = self.bind_lists(x, y)
        y = self.bind_lists(y, x)
        for c in sorted((c for c in set(x.mem) | set(y.mem) if c[0] == "P" or c in x.mem and c in y.mem), key=cellkey):
            if c[0] == "P":
                # What was never written is as it was at first.
                d = T("deref", c[1])
                r.mem[c] = self.jterm(x.mem.get(c, d), y.mem.get(c, d), pre + (c,), w)
            else:
                r.mem[c] = self.jterm(x.mem[c], y.mem[c], pre + (c,), w)
        mx = {n: a1 for (a1, a2), n in w.items() if n is not a1}
        my = {n: a2 for (a1, a2), n in w.items()}
        for f, v in x.facts.items():
            g = rename_any(f, my) if my else f
            if y.facts.get(g) == rename_any(v, my):
                r.facts[f] = v
            elif f[0] == "ge0" and v is True:
                # Renaming may have changed the linear form.
                l = ({}, f[2])
                for t, k in f[1]:
                    l = lin_add(l, lin(rename(t, my)), k)
                if self.prove_ge(y, l):
                    r.facts[f] = v
        back = {}
        for (a1, a2), n in w.items():
            if a1 is not n and a1.syms and n not in a1.syms:
                back.setdefault(a1, n)
        if back:
            # What was known about a value is known about what it is called now.
            memo = {}
            for f, v in x.facts.items():
                if f[0] not in ("tr", "var", "nvar"):
                    continue
                f2 = rename_any(f, back, memo)
                if f2 != f and f2 not in r.facts:
                    g = rename_any(f2, my)
                    if y.facts.get(g) == rename_any(v, my) and rename_any(f2, mx) == f:
                        r.facts[f2] = v
        for (a1, a2), wt in w.items():
            if not (isnum(a1) and isnum(a2)):
                continue
            if (a1 in UMAX or a1.op == "int" and a1.a[0] >= 0) and (a2 in UMAX or a2.op == "int" and a2.a[0] >= 0):
                UMAX.setdefault(wt, (1 << 64) - 1)
            NUMS.add(wt)
            # Bounds that hold on both sides.
            cands = set()
            for st_ in (x, y):
                for f in st_.facts:
                    if f[0] == "ge0":
                        cands.update(z for z, _ in f[1])
            for z in sorted(cands, key=order):
                if z is wt or any(q.op == "old" and q.a[0][0] == "w" for q in z.syms):
                    continue
                zx, zy = rename(z, mx), rename(z, my)
                for sg in (1, -1):
                    if self.prove_ge(x, lin_add(lin_add(({}, 0), lin(zx), sg), lin(a1), -sg)) and self.prove_ge(
                        y, lin_add(lin_add(({}, 0), lin(zy), sg), lin(a2), -sg)
                    ):
                        self.add_ge(r, lin_add(lin_add(({}, 0), lin(z), sg), lin(wt), -sg))
            ks, more = {1, 0, 255, 65535}, set()
            for st_, a_ in ((x, a1), (y, a2)):
                own = {z for z, _ in lin(a_)[0].items()}
                for f in st_.facts:
                    if f[0] == "ge0":
                        (ks if any(z in own for z, _ in f[1]) else more).add(abs(f[2]))
            ks |= set(sorted(more)[: max(0, 60 - len(ks))])
            ks = sorted(ks)
            for lo in [k for k in reversed(ks)] + [-k for k in ks if k]:
                if self.prove_ge(x, lin_add(lin(a1), ({}, lo), -1)) and self.prove_ge(y, lin_add(lin(a2), ({}, lo), -1)):
                    self.add_ge(r, lin_add(lin(wt), ({}, lo), -1))
                    break
            for hi in ks:
                if self.prove_ge(x, lin_add(({}, hi), lin(a1), -1)) and self.prove_ge(y, lin_add(({}, hi), lin(a2), -1)):
                    self.add_ge(r, lin_add(({}, hi), lin(wt), -1))
                    break
        nums = [(n, a1, a2) for (a1, a2), n in w.items() if isnum(a1) and isnum(a2)]
        if len(nums) <= 8:
            # And how the new names compare.
            for n, a1, a2 in nums:
                for m, b1, b2 in nums:
                    if n is not m and self.prove_ge(x, lin_add(lin(a1), lin(b1), -1)) and self.prove_ge(y, lin_add(lin(a2), lin(b2), -1)):
                        self.add_ge(r, lin_add(lin(n), lin(m), -1))
        r.mon = x.mon
        r.created = x.created | y.created | frozenset(q for v in r.mem.values() for q in v.syms if q.op == "w")
        r.held = x.held
        r.log = x.log
        r.keep = x.keep
        return r

    def bind_lists(self, x, y):
        """What is known in x only about the elements of its lists is kept with the elements."""
        ks = set()
        for f, v in x.facts.items():
            if y.facts.get(f) != v:
                self._syms_of(f[1:], ks)
        if not ks:
            return x
        for v in y.mem.values():
            if ks:
                ks -= v.syms
        ks = {k for k in ks if k.op in ("call", "out", "old", "w", "elem")}
        if not ks:
            return x
        n = None
        for c, v in x.mem.items():
            if c[0] != "P" and not ks.isdisjoint(v.syms) and v.op != "ref":
                q = self.bind_items(x, v, ks, {})
                if q is not v:
                    n = n or x.fork()
                    n.mem[c] = q
        return n or x

    def jterm(self, a, b, path, w):
        if a is b:
            return a
        n = w.get((a, b))
        if n is not None and not lumped(a) and not lumped(b):
            return n
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and len(a.a) == len(b.a) and a.a[0][0] != "closure":
            return T("agg", a.a[0], *[self.jterm(p, q, path + (i,), w) if p.__class__ is Term else p for i, (p, q) in enumerate(zip(a.a[1:], b.a[1:]))])
        if a.op == "skip" and b.op == "it" or a.op == "it" and b.op == "skip":
            i = a if a.op == "it" else b
            if i.a[0] == "iter":
                # Having no iterator is like having one over nothing.
                e = T("it", "iter", T("seq"), i.a[2], INT(0), 0, None, None)
                a, b = (a, e) if i is a else (e, b)
        if a.op == b.op == "it" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            if a.a[0] == "iter":
                if a.a[1:4] != b.a[1:4]:
                    if a.a[2] != b.a[2]:
                        return T("w", path)
                    rest = SOMEOF([y for x in (a, b) for y in (x.a[1].a[x.a[3].a[0]:] if x.a[1].op == "seq" and x.a[3].op == "int" else (T("hole", T("elem", x.a[1]), None),))])
                    base = T("seq", rest) if rest.a else T("seq")
                    a, b = (T("it", "iter", base, x.a[2], INT(0), *x.a[4:]) for x in (a, b))
                cl = None
                if a.a[5] is not None and b.a[5] is not None:
                    cl = a.a[5] | b.a[5]
                else:
                    cl = a.a[5] if a.a[4] and b.a[5] is None and not b.a[4] else b.a[5] if b.a[4] and not a.a[4] else None
                if cl is None and (a.a[5] is not None or b.a[5] is not None):
                    cl = frozenset(range(256))
                return T("it", *a.a[:4], max(a.a[4], b.a[4]) if a.a[4] and b.a[4] else min(a.a[4], b.a[4]), cl, a.a[6] or b.a[6])
            return T("it", *[self.jterm(p, q, path + (i,), w) if p.__class__ is Term and q.__class__ is Term else p for i, (p, q) in enumerate(zip(a.a, b.a))])
        if a.op == b.op and a.op in ("cref", "box"):
            return T(a.op, self.jterm(a.a[0], b.a[0], path + ("*",), w))
        if a.op == b.op == "hash" and a.a[0] == b.a[0] and a.a[0].__class__ is str:
            return T("hash", a.a[0], self.jterm(a.a[1], b.a[1], path + ("h",), w))
        if a.op == b.op == "pure" and a.a[0] == b.a[0] == "mapget" and a.a[2] is b.a[2]:
            n = w[(a, b)] = rebuild("pure", ("mapget", self.jterm(a.a[1], b.a[1], path + ("m",), w), a.a[2]))
            return n
        if a.op == b.op == "fld" and a.a[1:] == b.a[1:] and all(x.a[0].op == "pure" and x.a[0].a[0] == "mapget" for x in (a, b)) and a.a[0].a[2] is b.a[0].a[2]:
            n = w[(a, b)] = T("fld", self.jterm(a.a[0], b.a[0], path + ("m",), w), *a.a[1:])
            return n
        if a.op == "upd" or b.op == "upd":
            # Field by field.
            (ba, ca), (bb, cb) = peel(a), peel(b)
            if ba is bb:
                for kk in sorted(set(ca) | set(cb)):
                    p, q = (ch[kk] if kk in ch else self.getfld(base, kk[1], kk[2]) for base, ch in ((ba, ca), (bb, cb)))
                    ba = T("upd", ba, kk, self.jterm(p, q, path + (kk,), w))
                return ba
        if a.op == "slice" or b.op == "slice":
            # Parts of the same thing.
            (ba, *ra), (bb, *rb) = (x.a if x.op == "slice" else (x, INT(0), LEN(x)) for x in (a, b))
            if ba is bb and ra[0] is not None and rb[0] is not None:
                lo, hi = (self.jterm(p, q, path + (("s", i),), w) for i, (p, q) in enumerate(zip(ra, rb)))
                n = w[(a, b)] = self.mkslice(ba, lo, hi)
                return n
        if a.op == b.op == "dyn" and a.a[0] == b.a[0]:
            return T("dyn", a.a[0], self.jterm(a.a[1], b.a[1], path + ("d",), w))
        if a.op == "seq" and b.op == "seq":
            n = 0
            while n < len(a.a) and n < len(b.a) and a.a[n] is b.a[n]:
                n += 1
            ra, rb = a.a[n:], b.a[n:]
            if len(ra) == len(rb) <= 8 and all(x.op not in ("each", "some", "part") for x in ra + rb) and all(isnum(x) for x in ra + rb):
                return T("seq", *(a.a[:n] + tuple(self.jterm(p, q, path + ("s", n + i), w) for i, (p, q) in enumerate(zip(ra, rb)))))
            if len(ra) == 1 and ra[0].op in ("each", "part") and len(rb) == 1 and rb[0].op == ra[0].op and ra[0].a[:2] == rb[0].a[:2]:
                return T("seq", *(a.a[:n] + (rebuild(ra[0].op, ra[0].a[:2] + ra[0].a[2:] + rb[0].a[2:]),)))
            while n and a.a[n - 1].op == "some":
                n -= 1
            return T("seq", *(a.a[:n] + (SOMEOF(a.a[n:] + b.a[n:]),)))
        if a.op == "ref" or b.op == "ref":
            return T("w", path)
        if (a.op in OVERWRITTEN or b.op in OVERWRITTEN) and LEN(a) is LEN(b):
            # Of a buffer that has been written to, the length is still known.
            n = w[(a, b)] = T("blob", LEN(a), T("w", path))
            return n
        n = T("w", path)
        w[(a, b)] = n
        return n

    def block(self, st, fr, b, outs):
        self.stats["blocks"] += 1
        self.fuel -= 1
        if self.fuel < 0:
            raise Stop("out of fuel in " + fr.body.p)
        blk = fr.body.blocks[b]
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2], s[1])
                self.write(st, fr, s[1], v)
            elif k == "sd":
                loc, v, t = self.walk(st, fr, s[1])
                if t[0] == "adt" and loc is not None:
                    self.store(st, loc[0], loc[1], AGG(t[1], s[2]))
            elif k == "dead":
                st.mem.pop((fr.fid, s[1]), None)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "ret":
            rv = st.mem.get((fr.fid, 0), UNITV)
            for c in [c for c in st.mem if c[0] == fr.fid]:
                del st.mem[c]
            r = self.M.on_exit(st, fr, rv)
            if r is None:
                return []
            st, rv = r
            self.gc(st, (rv,))
            self.result(outs, st, rv)
            return []
        if k == "call":
            return self.call(st, fr, b, t)
        if k == "drop":
            loc, v, vt = self.walk(st, fr, t[1])
            outs_ = [st]
            if loc is not None and v is not MOVED and v is not UNDEF:
                outs_ = self.drop(st, fr, (b, "drop"), loc, v, vt, t[4])
            return [(s, t[2]) for s in outs_]
        if k == "assert":
            c, _ = self.operand(st, fr, t[1])
            ops = [self.operand(st, fr, o)[0] for o in t[3][1:] if isinstance(o, list)]
            kind = t[3][0] + ((":" + t[3][1]) if t[3][0] == "overflow" else "")
            self.M.on_assert(st, fr, kind, ops, c, t[2], t[5])
            # Execution continues only if the assertion holds.
            if kind == "bounds":
                ok = self.assume(st, LT(ops[1], ops[0]), True)
            elif kind.startswith("overflow") or kind == "overflowneg":
                ok = True
                if kind == "overflow:Sub" and len(ops) == 2 and (ops[0] in UMAX or ops[1] in UMAX):
                    self.add_ge(st, lin_add(lin(ops[0]), lin(ops[1]), -1))
            else:
                ok = self.assume(st, c, t[2])
            return [(st, t[4])] if ok else []
        if k == "unreach":
            return []
        if k == "unwind":
            return []
        raise Stop("terminator " + k)

    def write(self, st, fr, place, v):
        if len(place) == 1:
            st.mem[(fr.fid, place[0])] = v
            return
        loc, _, t = self.walk(st, fr, place)
        if loc is not None:
            self.store(st, loc[0], loc[1], v)
            self.M.on_store(st, fr, loc, v)

    def rvalue(self, st, fr, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])[0]
        if k == "ref":
            loc, v, t = self.walk(st, fr, r[2])
            if t[0] == "array":
                self.note(v, t)
            p = CREF(v) if r[1] == "s" or loc is None else T("ref", loc[0], loc[1])
            if t[0] == "dyn" and self.dynt is not None:
                p = T("dyn", self.dynt, p)
            return p
        if k == "discr":
            loc, v, t = self.walk(st, fr, r[1])
            adt = t[1] if t[0] == "adt" else None
            kk = self.variant(st, v)
            if kk is not None and adt is not None and self.P.adt(adt):
                return INT(int(self.P.adt(adt)["v"][kk]["d"]))
            return T("discr", v, adt)
        if k == "bin":
            a, ta = self.operand(st, fr, r[2])
            b, tb = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, ta)
        if k == "un":
            a, ta = self.operand(st, fr, r[2])
            if r[1] == "Not":
                return NOT(a) if ta == ("bool",) else self.bitnot(a, ta)
            if r[1] == "Neg":
                return INT(-a.a[0]) if a.op == "int" else SUB(INT(0), a)
            if r[1] == "PtrMetadata":
                return LEN(self.deref(st, a))
            return T("un", r[1], a)
        if k == "cast":
            return self.cast(st, fr, r[1], r[2], subst(ty(r[3]), fr.sub))
        if k == "agg":
            ops = [self.operand(st, fr, o)[0] for o in r[2]]
            kk = r[1]
            if kk[0] == "tuple":
                return TUP(*ops)
            if kk[0] == "array":
                if ops and all(o.op == "int" for o in ops) and ty(kk[1]) == ("u8",):
                    return BYTES(bytes(o.a[0] for o in ops))
                return AGG("array", 0, *ops)
            if kk[0] == "adt":
                return AGG(kk[1], kk[2], *ops)
            if kk[0] == "closure":
                return T("agg", ("closure", 0), kk[1], tuple(subst(ty(x), fr.sub) for x in kk[2]), *ops)
            raise Stop("aggregate")
        if k == "rep":
            v, t = self.operand(st, fr, r[1])
            if r[2] is not None:
                if v.op == "int" and t == ("u8",) and r[2] <= 64:
                    return BYTES(bytes([v.a[0]]) * r[2])
                return T("rep", v, INT(r[2]))
            return T("rep", v, T("konst", "n"))
        raise Stop("rvalue " + repr(k))

    def eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "discr" and y.op == "int" and x.a[1] and self.P.adt(x.a[1]):
                for i, v in enumerate(self.P.adt(x.a[1])["v"]):
                    if int(v["d"]) == y.a[0]:
                        return T("isvar", x.a[0], (x.a[1], i))
                return FALSE
        return EQ(a, b)

    def bitnot(self, a, t):
        if a.op == "int":
            n = UNSIGNED.get(t[0])
            if n:
                return INT(((1 << n) - 1) & ~a.a[0])
            return INT(~a.a[0])
        return T("bitnot", t[0], a)

    def binop(self, st, op, a, b, t):
        ov = None
        if op.endswith("WithOverflow"):
            op = op[: -len("WithOverflow")]
            ov = T("ovf", op, a, b, t[0])
        a0, b0 = a, b
        isint = t[0] in UNSIGNED or t[0] in SIGNED
        if op.endswith("Unchecked"):
            op = op[: -len("Unchecked")]
        if op == "Add" and isint:
            r = ADD(a, b)
        elif op == "Sub" and isint:
            r = SUB(a, b)
        elif op == "Mul" and isint:
            r = INT(a.a[0] * b.a[0]) if a.op == b.op == "int" else unlin(lin(T("mul", a, b)))
        elif op in ("Eq", "Ne"):
            r = self.eq(a, b)
            if op == "Ne":
                r = NOT(r)
        elif op == "Lt":
            r = LT(a, b)
        elif op == "Gt":
            r = LT(b, a)
        elif op == "Le":
            r = NOT(LT(b, a))
        elif op == "Ge":
            r = NOT(LT(a, b))
        elif op == "BitAnd" and t == ("bool",):
            r = AND(a, b)
        elif op == "BitOr" and t == ("bool",):
            r = NOT(AND(NOT(a), NOT(b)))
        elif a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            n = UNSIGNED.get(t[0]) or SIGNED.get(t[0]) or 1
            f = {
                "BitAnd": lambda: x & y,
                "BitOr": lambda: x | y,
                "BitXor": lambda: x ^ y,
                "Shl": lambda: (x << y) & ((1 << n) - 1),
                "Shr": lambda: x >> y,
                "Div": lambda: x // y if y else 0,
                "Rem": lambda: x % y if y else 0,
            }.get(op)
            r = INT(f()) if f else T("bin", op, a, b)
        elif op == "Cmp":
            r = T("cmp", a, b)
        else:
            nm = {"BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "Shl": "shl", "Shr": "shr", "Div": "div", "Rem": "rem"}.get(op, op)
            if nm in ("bitand", "bitor", "bitxor") and order(b) < order(a):
                a, b = b, a
            r = None
            if nm == "shl" and b.op == "int" and t[0] in UNSIGNED and self.prove_ge(st, lin_add(({}, (1 << UNSIGNED[t[0]]) - 1), lin(T("mul", a, INT(1 << b.a[0]))), -1)):
                r = unlin(lin(T("mul", a, INT(1 << b.a[0]))))
            if r is None:
                r = T(nm, a, b)
        if isint and t[0] in UNSIGNED and op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and r.op != "int":
            if op != "Sub" and not (op in ("Add", "Mul") and ov is None):
                UMAX.setdefault(r, (1 << UNSIGNED[t[0]]) - 1)
        if ov is not None:
            return TUP(r, ov)
        return r

    def cast(self, st, fr, kind, o, t):
        v, vt = self.operand(st, fr, o)
        if kind == "IntToInt":
            if v.op == "int":
                x = v.a[0]
                if t[0] in UNSIGNED:
                    return INT(x & ((1 << UNSIGNED[t[0]]) - 1))
                if t[0] in SIGNED:
                    n = SIGNED[t[0]]
                    x &= (1 << n) - 1
                    return INT(x - (1 << n) if x >> (n - 1) else x)
                return v
            a = UNSIGNED.get(vt[0]) or (1 if vt[0] == "bool" else None) or (32 if vt[0] == "char" else None)
            b = UNSIGNED.get(t[0]) or (32 if t[0] == "char" else None)
            sa, sb = SIGNED.get(vt[0]), SIGNED.get(t[0])
            if a and b and a <= b or a and sb and a < sb or sa and sb and sa <= sb:
                return v
            if v.op == "discr":
                return v
            hi = UNSIGNED.get(t[0]) or (SIGNED[t[0]] - 1 if t[0] in SIGNED else 0)
            if hi and (a or sa):
                l = lin(v)
                lo = 0 if t[0] in UNSIGNED else -(1 << hi)
                if self.prove_ge(st, lin_add(({}, (1 << hi) - 1), l, -1)) and (a and lo <= 0 or self.prove_ge(st, lin_add(l, ({}, lo), -1))):
                    return v
            r = T("cast", t[0], v)
            return self.note(r, t)
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                tgt = t[2] if t[0] in ("ref", "ptr") or (t[0] == "adt" and len(t) > 2) else t
                src = vt[2] if vt[0] in ("ref", "ptr") or (vt[0] == "adt" and len(vt) > 2) else vt
                if tgt[0] == "dyn" and src[0] != "dyn":
                    return T("dyn", src, v)
            return v
        if kind in ("Subtype", "PtrToPtr", "FnPtrToPtr", "BoxDerefTransmute"):
            return v
        return T("cast", kind + show_ty(t), v)

    def switch(self, st, fr, t):
        v, vt = self.operand(st, fr, t[1])
        arms, other = t[2], t[3]
        res = []
        if v.op == "int":
            for val, tgt in arms:
                if int(val) == v.a[0] or (v.a[0] < 0 and int(val) == v.a[0] & ((1 << 128) - 1)) or int(val) == v.a[0] & 0xFFFFFFFFFFFFFFFF or int(val) == (v.a[0] & 0xFF if v.a[0] < 0 else -1):
                    return [(st, tgt)]
            return [(st, other)]
        if v.op == "discr":
            adt = v.a[1]
            a = self.P.adt(adt) if adt else None
            n = len(a["v"]) if a else None
            used = []
            for val, tgt in arms:
                kk = None
                if a:
                    for i, vv in enumerate(a["v"]):
                        d = int(vv["d"])
                        if d == int(val) or (d & 0xFF) == int(val) or (d & ((1 << 128) - 1)) == int(val):
                            kk = i
                            break
                if kk is None:
                    kk = int(val)
                used.append(kk)
                s = st.fork()
                if self.set_variant(s, v.a[0], kk, adt):
                    res.append((s, tgt))
            rest = None if n is None else [i for i in range(n) if i not in used]
            if rest is None or rest:
                s = st.fork()
                if rest and len(rest) == 1:
                    if self.set_variant(s, v.a[0], rest[0], adt):
                        res.append((s, other))
                elif self.not_variant(s, v.a[0], used):
                    nv = s.facts.get(("nvar", v.a[0]))
                    if n is None or self.variant(s, v.a[0]) is not None or nv is None or len(nv) < n:
                        res.append((s, other))
            return res
        if vt == ("bool",):
            f = [tgt for val, tgt in arms if int(val) == 0]
            tt = [tgt for val, tgt in arms if int(val) == 1]
            ft = f[0] if f else other
            tr = tt[0] if tt else other
            for val, tgt in ((True, tr), (False, ft)):
                s = st.fork()
                if self.assume(s, v, val):
                    res.append((s, tgt))
            return res
        c = st.facts.get(("const", v))
        used = []
        bits = UNSIGNED.get(vt[0]) or SIGNED.get(vt[0]) or 32
        for val, tgt in arms:
            n = int(val)
            if vt[0] in SIGNED and n >> (bits - 1):
                n -= 1 << bits
            s = st.fork()
            if self.assume(s, EQ(v, INT(n)), True):
                res.append((s, tgt))
        s = st.fork()
        ok = True
        for val, tgt in arms:
            n = int(val)
            if vt[0] in SIGNED and n >> (bits - 1):
                n -= 1 << bits
            if not self.assume(s, EQ(v, INT(n)), False):
                ok = False
                break
        if ok:
            res.append((s, other))
        return res

    # ---- calls ----------------------------------------------------------------------------
    def call(self, st, fr, b, t):
        f = t[1]
        args, tys = [], []
        for o in t[2]:
            v, vt = self.operand(st, fr, o)
            args.append(v)
            tys.append(vt)
        retty = subst(ty(t[5]), fr.sub)
        loc = t[6]
        fr.site = loc
        self.M.on_call(st, fr)
        if f[0] == "fn":
            outs = self.callfn(st, fr, b, f[1], fr.sub, args, tys, retty, loc)
        else:
            fv, _ = self.operand(st, fr, f)
            outs = self.call_value(st, fr, (b, "ind"), fv, args, retty, loc)
        res = []
        for s, rv in outs:
            if t[4] is None:
                continue
            self.note(rv, retty)
            self.write(s, fr, t[3], rv)
            res.append((s, t[4]))
        return res

    def target(self, st, d, sub, args):
        """Resolves a callee: (body or None, substitution)."""
        P = self.P
        a = tuple(subst(ty(x), sub) for x in d["a"])
        r = d.get("res")
        if r is not None and not r.get("virt"):
            body = P.bodies.get(r["p"])
            if body is not None:
                ra = tuple(subst(ty(x), sub) for x in r["a"])
                return body, dict(zip(body.generics, ra)), a
        tr = d.get("trait")
        if tr is None:
            body = P.bodies.get(d["p"])
            if body is not None:
                return body, dict(zip(body.generics, a)), a
            return None, None, a
        selfty = a[0] if a else ("?",)
        if selfty[0] == "dyn" and args:
            # Virtual: the concrete type is known from where the reference was made.
            p = args[0]
            for _ in range(4):
                if p.op == "dyn":
                    selfty = p.a[0]
                    break
                if p.op in ("ref", "cref", "box"):
                    p = self.deref(st, p)
                else:
                    break
            if selfty[0] == "dyn":
                # Only one implementation of a workspace trait?
                if tr in P.impls or any(bb.in_trait == tr for bb in P.bodies.values()):
                    im = P.impls.get(tr, ())
                    if len(im) == 1:
                        selfty = im[0][0][0]
        while selfty[0] == "ref" and self.P.find_impl(tr, d["p"], selfty) is None and tr not in STD_DEREF:
            selfty = selfty[2]
        if selfty[0] == "adt" and selfty[1] == "alloc::boxed::Box" and len(selfty) > 2 and self.P.find_impl(tr, d["p"], selfty) is None and tr in BOX_DEREF:
            inner = selfty[2]
            return self.target_ty(st, d, tr, inner, a, args, True)
        return self.target_ty(st, d, tr, selfty, a, args, False)

    def target_ty(self, st, d, tr, selfty, a, args, boxed):
        P = self.P
        if selfty[0] == "dyn" and args:
            p = args[0]
            for _ in range(5):
                if p.op == "dyn":
                    selfty = p.a[0]
                    break
                if p.op in ("ref", "cref", "box"):
                    p = self.deref(st, p)
                else:
                    break
        fi = P.find_impl(tr, d["p"], selfty, a[1:])
        if fi is not None:
            p, m = fi
            if p is not None and p in P.bodies:
                body = P.bodies[p]
                # Generics of the method itself follow those of the trait.
                sub = dict(m)
                return body, sub, a
            body = P.bodies.get(d["p"])
            if body is not None and body.in_trait:
                sub = dict(zip(body.generics, (selfty,) + a[1:]))
                return body, sub, a
        return None, None, a

    def callfn(self, st, fr, tag, d, sub, args, tys, retty, loc):
        body, bsub, a = self.target(st, d, sub, args)
        c = Call()
        c.I = self
        c.st = st
        c.fr = fr
        c.p = d["p"]
        c.res = d.get("res", {}).get("p") or d["p"]
        c.targs = a
        c.args = args
        c.argtys = tys
        c.retty = retty
        c.loc = loc
        c.trait = d.get("trait")
        c.fid = self.ctxid(fr.fid, (tag, d["p"]))
        c.selfty = a[0] if c.trait and a else None
        self.stats["sites"].add((fr.body.p, loc, d["p"]))
        if "ctor" in d:
            return [(st, AGG(d["ctor"][0], d["ctor"][1], *args))]
        if body is not None:
            prim = self.prims.get(body.p)
            if prim is not None:
                self.stats["events"] += 1
                r = prim(self, st, c)
                if r is not None:
                    return r
            # Receivers reached through references and boxes: align with what the body expects.
            args = self.fit(st, body, args)
            return self.run(st, body, bsub, args, fr, (tag, body.p))
        m = self.models.find(c)
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
        return self.models.default(self, st, c)

    def fit(self, st, body, args):
        if not args:
            return args
        t = body.locals[1] if body.argc else None
        if t is not None and t[0] == "ref":
            want = t[2]
            v = args[0]
            # &mut &mut T, &Box<T> and the like: strip until one level is left.
            for _ in range(4):
                u = v
                while u.op == "dyn":
                    u = u.a[1]
                if u.op not in ("ref", "cref"):
                    break
                x = self.deref(st, u)
                y = x
                while y.op == "dyn":
                    y = y.a[1]
                if y.op in ("ref", "cref") and want[0] != "ref":
                    v = y
                    continue
                if y.op == "box" and not (want[0] == "adt" and want[1] == "alloc::boxed::Box"):
                    if u.op == "ref":
                        v = T("ref", u.a[0], u.a[1] + (("b",),))
                    else:
                        v = CREF(y.a[0])
                    continue
                break
            while v.op == "dyn":
                v = v.a[1]
            return [v] + list(args[1:])
        return args

    def call_value(self, st, fr, tag, f, args, retty=("?",), loc=None):
        """Calls a closure or function value."""
        loc = loc or fr.site
        while f.op in ("cref", "box", "dyn", "ref"):
            if f.op == "dyn":
                f = f.a[1]
            elif f.op == "ref":
                f = self.deref(st, f)
            else:
                f = f.a[0]
        if f.op == "agg" and f.a[0][0] == "closure":
            path, targs = f.a[1], f.a[2]
            body = self.P.bodies[path]
            sub = dict(zip(body.generics, targs))
            fid = self.ctxid(fr.fid, (tag, "env", path))
            env = T("agg", ("tuple", 0), *f.a[3:])
            if body.ck == "FnOnce":
                e = env
            elif body.ck == "FnMut":
                st.mem[(fid, "env")] = env
                e = T("ref", (fid, "env"), ())
            else:
                e = CREF(env)
            outs = self.run(st, body, sub, [e] + list(args), fr, (tag, path))
            for s, r in outs:
                s.mem.pop((fid, "env"), None)
            return outs
        if f.op == "fn":
            d = FNS.get((f.a[0], f.a[1]))
            if d is not None:
                # The generic arguments in the descriptor are relative to where it was named.
                d2 = dict(d)
                return self.callfn_concrete(st, fr, tag, f, d2, args, retty, loc)
        c = Call()
        c.I, c.st, c.fr, c.p, c.res = self, st, fr, "<indirect>", "<indirect>"
        c.targs, c.args, c.argtys, c.retty, c.loc = (), args, [], retty, loc
        c.trait = c.selfty = None
        c.fid = self.ctxid(fr.fid, (tag, "indirect"))
        return self.models.default(self, st, c)

    def callfn_concrete(self, st, fr, tag, f, d, args, retty, loc):
        key = ("conc", f)
        a = f.a[1]
        names = ["$%d" % i for i in range(len(a))]
        d["a"] = [RAW(x) for x in a]
        if "res" in d:
            pass
        if retty == ("?",):
            retty = self.ret_of(d, a)
        return self.callfn(st, fr, tag, d, {}, args, [("?",)] * len(args), retty, loc)

    def ret_of(self, d, a):
        body = self.P.bodies.get(d.get("res", {}).get("p") or d["p"])
        if body is not None:
            return subst(body.locals[0], dict(zip(body.generics, a)))
        return ("?",)

    # ---- drops ----------------------------------------------------------------------------
    def drop_matters(self, t, d=0):
        r = self._dropi.get(t)
        if r is not None:
            return r
        self._dropi[t] = False
        r = False
        k = t[0]
        if k == "adt":
            if self.P.drop_impl(t) is not None or self.M.drop_interest(t):
                r = True
            else:
                a = self.P.adt(t[1])
                m = dict(zip(a["g"], t[2:])) if a else {}
                if a and (a["local"] or a["enum"]):
                    for v in a["v"]:
                        for f in v["f"]:
                            if f[1] and self.drop_matters(subst(ty(f[1]), m), d + 1):
                                r = True
                if not r:
                    r = any(self.drop_matters(x, d + 1) for x in t[2:] if x.__class__ is tuple)
        elif k == "tuple":
            r = any(self.drop_matters(x, d + 1) for x in t[1:])
        elif k in ("array", "slice"):
            r = self.drop_matters(t[1], d + 1)
        elif k == "dyn":
            r = True
        elif k == "closure":
            r = True
        elif k == "param":
            r = False
        self._dropi[t] = r
        return r

    def drop(self, st, fr, tag, loc, v, t, where):
        """Runs drop glue."""
        if v is MOVED or v is UNDEF or not self.drop_matters(t):
            return [st]
        k = t[0]
        sts = [st]
        if k == "dyn" or (k == "adt" and t[1] == "alloc::boxed::Box"):
            x = v
            if x.op == "dyn":
                return self.drop(st, fr, tag, (loc[0], loc[1] + (("b",),)), self.getproj(x.a[1], ("b",)), x.a[0], where)
            if k == "dyn":
                self.M.on_drop(st, fr, t, v, where)
                return [st]
            return self.drop(st, fr, tag, (loc[0], loc[1] + (("b",),)), self.getproj(x, ("b",)), t[2], where)
        if k == "adt":
            if self.M.drop_interest(t):
                self.M.on_drop(st, fr, t, v, where)
                return [st]
            di = self.P.drop_impl(t)
            if di is not None and di[0] in self.P.bodies:
                body = self.P.bodies[di[0]]
                sts = [s for s, _ in self.run(st, body, di[1], [T("ref", loc[0], loc[1])], fr, (tag, loc[1], body.p))]
            a = self.P.adt(t[1])
            if a and (a["local"] or a["enum"]):
                m = dict(zip(a["g"], t[2:]))
                for vi, vv in enumerate(a["v"]):
                    fts = [(i, subst(ty(f[1]), m)) for i, f in enumerate(vv["f"]) if f[1]]
                    fts = [(i, x) for i, x in fts if self.drop_matters(x)]
                    if not fts:
                        continue
                    nsts = []
                    for s in sts:
                        cur = self.load(s, loc[0], loc[1])
                        kv = self.variant(s, cur) if a["enum"] else vi
                        if kv is not None and kv != vi:
                            nsts.append(s)
                            continue
                        if kv is None:
                            s2 = s.fork()
                            if self.not_variant(s2, cur, [vi]):
                                nsts.append(s2)
                            s = s.fork()
                            if not self.set_variant(s, cur, vi, t[1]):
                                continue
                        cs = [s]
                        for i, ft in fts:
                            n2 = []
                            for s1 in cs:
                                l2 = (loc[0], loc[1] + (("f", vi, i),))
                                n2 += self.drop(s1, fr, (tag, i), l2, self.load(s1, l2[0], l2[1]), ft, where)
                            cs = n2
                        nsts += cs
                    sts = nsts
            else:
                # A library container of something that matters.
                for s in sts:
                    self.M.on_drop(s, fr, t, v, where)
            return sts
        if k == "tuple":
            for i, ft in enumerate(t[1:]):
                if not self.drop_matters(ft):
                    continue
                n2 = []
                for s in sts:
                    l2 = (loc[0], loc[1] + (("f", 0, i),))
                    n2 += self.drop(s, fr, (tag, i), l2, self.load(s, l2[0], l2[1]), ft, where)
                sts = n2
            return sts
        return sts


FNS = {}
# Library traits implemented for references by forwarding, where we have models for the target.
STD_DEREF = frozenset(
    [
        "core::cmp::PartialEq",
        "core::cmp::PartialOrd",
        "core::cmp::Ord",
        "core::ops::deref::Deref",
        "core::ops::deref::DerefMut",
        "core::convert::AsRef",
        "core::convert::Into",
        "core::convert::From",
        "core::clone::Clone",
        "core::iter::traits::collect::IntoIterator",
    ]
)
BOX_DEREF = frozenset(
    ["alloc::io::read::Read", "core::io::write::Write", "core::iter::traits::iterator::Iterator", "core::error::Error", "core::fmt::Display"]
)


class RAW(dict):
    """A type that is already a tuple, where a JSON type is expected."""

    def __init__(self, t):
        dict.__init__(self, k="$raw")
        self.t = t


_ty0 = ty


def ty(j):  # noqa: F811
    if j.__class__ is RAW:
        return j.t
    return _ty0(j)


_idx = {}


def idx_terms(x):
    """The elements of lists, given by their number, that a term refers to."""
    if x.__class__ is Term:
        r = _idx.get(x)
        if r is None:
            r = frozenset([x]) if x.op == "idx" and x.a[0].op in ("seq", "sorted") and x.a[1].op == "int" else frozenset()
            for y in x.a:
                if y.__class__ is not int and y.__class__ is not str:
                    q = idx_terms(y)
                    if q:
                        r = r | q
            _idx[x] = r
        return r
    if x.__class__ is tuple or x.__class__ is frozenset:
        r = frozenset()
        for y in x:
            q = idx_terms(y)
            if q:
                r = r | q
        return r
    return frozenset()


_refs = {}


def refs_in(t):
    """The cells a term refers to."""
    r = _refs.get(t)
    if r is None:
        if t.op == "ref":
            r = frozenset([t.a[0]])
            for p in t.a[1]:
                for y in p:
                    if y.__class__ is Term:
                        r |= refs_in(y)
        else:
            r = frozenset()
            for y in t.a:
                if y.__class__ is Term:
                    q = refs_in(y)
                    if q:
                        r = r | q
                elif y.__class__ is tuple:
                    for w in y:
                        if w.__class__ is Term:
                            r = r | refs_in(w)
        _refs[t] = r
    return r


_fsyms = {}


def fact_syms(f):
    r = _fsyms.get(f)
    if r is None:
        r = terms.tuple_syms(f[1:])
        _fsyms[f] = r
    return r


def isnum(t):
    return t.op in ("int", "add", "sub", "mul", "len", "min", "max", "pos") or t in UMAX or t in NUMS


# Names given to numbers where paths meet.
NUMS = set()
OVERWRITTEN = frozenset(("updslice", "updidx", "blob"))
# What has been proved or not, and the linear forms of facts.
PROOFS = {}
FORMS = {}


def shape_of(v, d=0):
    if v.op == "agg":
        return (v.a[0],) + tuple(shape_of(x, d + 1) for x in v.a[1:] if x.__class__ is Term and d < 6)
    if v.op in ("cref", "box"):
        return (v.op, shape_of(v.a[0], d + 1))
    if v is MOVED or v is UNDEF:
        return v.op
    if v.op == "ref":
        return v
    if v.op == "int" and v.a[0] in (0, 1):
        return ("b", v.a[0])
    if v.op == "it":
        if v.a[0] == "iter":
            return ("it",) + v.a[1:4]
        return ("it",) + tuple((shape_of(x, d + 1) if d < 8 else "x") if x.__class__ is Term else x for x in v.a)
    return "x"


def concrete_it(v):
    if v.op != "it":
        return False
    if v.a[0] == "iter":
        return LEN(v.a[1]).op == "int"
    return any(x.__class__ is Term and concrete_it(x) for x in v.a[1:])


def lumped(t):
    return terms.any_sub(t, lambda x: x.op in ("top", "undef") or x.op == "old" and x.a[1] >= OLDEST) is not None


def any_lumped(f):
    if f.__class__ is Term:
        return lumped(f)
    if f.__class__ is tuple or f.__class__ is frozenset:
        return any(any_lumped(x) for x in f)
    return False


def origin(t):
    """What produced a value: values of one origin are told apart by their generation."""
    if t.op == "old":
        return t.a[0]
    if t.op == "elem":
        return ("elem", t.a[0])
    if t.op == "w":
        return ("w", t.a[0])
    return t.a[:2]


def cellkey(c):
    return repr(c) if c[0] != "P" else "P" + repr(c[1])


class Monitor(object):
    """A rule.  Subclasses override what they need."""

    name = "?"

    def on_enter(self, st, fr, args):
        return st

    def on_call(self, st, fr):
        pass

    def on_exit(self, st, fr, rv):
        return st, rv

    def on_event(self, st, c, ev):
        return True

    def on_assert(self, st, fr, kind, ops, cond, expected, loc):
        pass

    def on_drop(self, st, fr, t, v, where):
        pass

    def drop_interest(self, t):
        return False

    def on_panic(self, st, c, what, v):
        pass

    def on_assume(self, st, c, val):
        return True

    def on_variant(self, st, v, k):
        return True

    def on_store(self, st, fr, loc, v):
        pass

    def decide_eq(self, st, a, b):
        return None
