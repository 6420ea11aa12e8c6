"""Transfer functions, continued: iterators, containers, input and output, processes, libraries."""
from models import *
import models
from models import _int_method

# ---- what is known about single bytes ----------------------------------------------------------


def ev(t, x, b):
    """Evaluates a condition on one byte; None if it depends on anything else."""
    if t is x:
        return b
    o = t.op
    if o == "int":
        return t.a[0]
    if x not in t.syms and x not in t.a and not terms.any_sub(t, lambda z: z is x):
        return None
    if o in ("cast", "discr", "neg", "not", "cref"):
        a = ev(t.a[-1] if o == "cast" else t.a[0], x, b)
        if a is None or o == "discr":
            return None
        return {"cast": a, "neg": -a, "not": 1 - a if a in (0, 1) else None, "cref": a}[o]
    if o in ("and", "lt", "eq", "add", "sub", "mul", "bitand", "bitor", "bitxor", "shl", "shr", "div", "rem", "min", "max"):
        p, q = ev(t.a[0], x, b), ev(t.a[1], x, b)
        if o == "and":
            if p == 0 or q == 0:
                return 0
            return 1 if p and q else None
        if p is None or q is None:
            return None
        try:
            return {
                "lt": lambda: int(p < q),
                "eq": lambda: int(p == q),
                "add": lambda: p + q,
                "sub": lambda: p - q,
                "mul": lambda: p * q,
                "bitand": lambda: p & q,
                "bitor": lambda: p | q,
                "bitxor": lambda: p ^ q,
                "shl": lambda: p << q,
                "shr": lambda: p >> q,
                "div": lambda: p // q,
                "rem": lambda: p % q,
                "min": lambda: min(p, q),
                "max": lambda: max(p, q),
            }[o]()
        except (ZeroDivisionError, ValueError):
            return None
    if o == "ite":
        p = ev(t.a[0], x, b)
        return None if p is None else ev(t.a[1] if p else t.a[2], x, b)
    return None


ALLBYTES = frozenset(range(256))


def class_by_facts(I, st, x):
    """The values a byte can have, given what is known."""
    if x.op == "int":
        return frozenset([x.a[0]])
    cands = ALLBYTES
    if x.op == "idx":
        k = models.class_of(I, st, x.a[0])
        if k is not None:
            cands = k
    for f, v in st.facts.items():
        if f[0] == "tr" and (x in f[1].syms or terms.any_sub(f[1], lambda z: z is x)):
            c = f[1]
            cands = frozenset(b for b in cands if ev(c, x, b) in (None, int(v)))
        elif f[0] == "ge0" and len(f[1]) == 1:
            ((t, k),) = f[1]
            if t is x:
                cands = frozenset(b for b in cands if k * b + f[2] >= 0)
        elif f[0] == "const" and f[1] is x and v.op == "int":
            cands = cands & frozenset([v.a[0]])
    return cands


def closure_class(I, st, c, f, arg=None):
    """The bytes for which a predicate on one byte holds, or None if it isn't that simple."""
    if f.op == "int":
        return frozenset([f.a[0]])
    x = T("call", c.fid, "byte")
    I.note(x, ("u8",))
    s = st.fork()
    r = set()
    n0 = set(s.facts)
    for s2, v in call1(I, s, c, f, [CREF(x) if arg is None else arg(x)], ("cls",), ("bool",)):
        s3 = s2.fork()
        if I.assume(s3, v, True):
            s4 = s3.fork()
            for q in list(s4.facts):
                if q in n0:
                    del s4.facts[q]
            k = class_by_facts(I, s4, x)
            # Anything else the outcome depends on?
            for q, val in s4.facts.items():
                if q[0] == "tr" and not all(ev(q[1], x, b) is not None for b in (0, 65, 255)):
                    return None
            r |= k
    return frozenset(r)


def split_class(I, st, c, f):
    if f.op == "int":
        return frozenset([f.a[0]])
    k = I.deref_all(st, f)
    if k.op == "bytes":
        return k.a[0]
    return closure_class(I, st, c, f)


# ---- iterators --------------------------------------------------------------------------------
def IT(kind, *a):
    return T("it", kind, *a)


def absorb(I, st):
    """Notes, in every iterator that has yielded an element, what that element can have been."""
    memo = {}

    def walk(v, d=0):
        if v.op in ("ref", "int", "bytes", "seq") or d > 12:
            return v
        r = memo.get(v)
        if r is not None:
            return r
        if v.op == "it" and v.a[0] == "iter" and v.a[6].__class__ is Term:
            k = class_by_facts(I, st, v.a[6])
            r = T("it", *v.a[:5], k if v.a[5] is None else v.a[5] | k, False)
        elif v.op in ("it", "agg", "box", "dyn", "cref"):
            a = tuple(walk(x, d + 1) if x.__class__ is Term else x for x in v.a)
            r = v if a == v.a else T(v.op, *a)
        else:
            r = v
        memo[v] = r
        return r

    for c, v in list(st.mem.items()):
        if any(x.op == "elem" for x in v.syms):
            n = walk(v)
            if n is not v:
                st.mem[c] = n


def content_iter(V, mode):
    V = as_content(V)
    return IT("iter", V, mode, INT(0), 0, None, False)


def to_iter(I, st, v, t):
    while v.op == "dyn":
        t = v.a[0]
        v = v.a[1]
    if v.op == "it":
        return v
    x = v
    n = 0
    mode = "val"
    while x.op in ("ref", "cref") and n < 5:
        if x.op == "ref":
            y = I.deref(st, x)
            if y.op == "it":
                return IT("byref", x)
            pt = t[2] if t[0] == "ref" else ("?",)
            if pt[0] == "adt" and (I.P.find_impl("core::iter::traits::iterator::Iterator", "core::iter::traits::iterator::Iterator::next", pt) is not None):
                return IT("byref", x)
            mode = "mut"
        else:
            mode = "ref"
        x = I.deref(st, x)
        if t[0] == "ref":
            t = t[2]
        n += 1
    if x.op == "it":
        return x
    if x.op == "box":
        return IT("obj", x, t)
    if x.op == "rinc":
        return IT("range", x.a[0], ADD(x.a[1], INT(1)))
    if t[0] == "adt":
        if t[1].startswith(RANGE) and t[1].endswith("::Range") and n == 0:
            return IT("range", I.getfld(x, 0, 0), I.getfld(x, 0, 1))
        if t[1].startswith(RANGE) and t[1].endswith("RangeFrom"):
            return IT("range", I.getfld(x, 0, 0), T("inf"))
        if t[1] == OPT or t[1] == RES:
            return IT("opt", x, INT(1 if t[1] == OPT else 0), FALSE)
        if t[1] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
            return content_iter(x, mode)
        if I.P.find_impl("core::iter::traits::iterator::Iterator", "core::iter::traits::iterator::Iterator::next", t) is not None:
            return IT("obj", x, t)
        if t[1].endswith("BTreeMap") or t[1].endswith("HashMap"):
            return IT("ext", x)
        if is_stringy(t):
            return content_iter(x, mode)
        return IT("ext", x)
    if t[0] in ("slice", "array", "str"):
        return content_iter(x, mode)
    if x.op in ("bytes", "seq", "cat", "slice", "rep"):
        return content_iter(x, mode)
    return IT("ext", x)


def byte_class_step(I, st, V, cls, yielded):
    """The class of the elements seen so far, including the one the last iteration looked at."""
    if not yielded:
        return cls
    k = class_by_facts(I, st, T("elem", V))
    r = k if cls is None else cls | k
    return r


def loop_marks(I, st, V, tag, phase, done):
    """Accounts for the elements that were appended while one element of V was looked at."""
    e = T("elem", V)

    def conv(seq):
        items = list(seq.a)
        n = len(items)
        raw = 0
        while raw < n and items[n - 1 - raw].op not in ("each", "some", "part") and (e in items[n - 1 - raw].syms):
            raw += 1
        pos = n - raw
        hasp = pos > 0 and items[pos - 1].op == "part" and items[pos - 1].a[0] is V and items[pos - 1].a[1] == tag
        if not raw and not hasp:
            # A raw element that doesn't depend on this one may follow the part.
            for j in range(n - 1, -1, -1):
                if items[j].op == "part" and items[j].a[0] is V and items[j].a[1] == tag:
                    if n - 1 - j == 1 and phase >= 2:
                        p = rebuild("part", items[j].a + (I.bind_item(st, items[n - 1], frozenset([e])),))
                        if done:
                            p = rebuild("each", p.a)
                        return T("seq", *items[:j], p)
                    return T("seq", *items[:j], SOMEOF(list(items[j].a[2:]) + items[j + 1 :]))
            return seq
        new = [I.bind_item(st, x, frozenset([e])) for x in items[pos:]]
        if hasp:
            p = items[pos - 1]
            if raw == 1 and phase >= 2:
                q = rebuild("part", p.a + tuple(new))
            elif raw == 0 and phase == 0:
                q = p
            else:
                q = SOMEOF(list(p.a[2:]) + new)
            pre = items[: pos - 1]
        elif raw == 1 and phase == 1:
            q = rebuild("part", (V, tag) + tuple(new))
            pre = items[:pos]
        else:
            q = SOMEOF(new)
            pre = items[:pos]
        if done and q.op == "part":
            q = rebuild("each", q.a)
        return T("seq", *pre, q)

    memo = {}

    def walk(v):
        if v.op == "ref" or v.__class__ is not Term:
            return v
        if not needs(v):
            return v
        r = memo.get(v)
        if r is not None:
            return r
        if v.op == "seq":
            r = conv(v)
        else:
            a = tuple(walk(x) if x.__class__ is Term else x for x in v.a)
            r = v if a == v.a else rebuild(v.op, a)
        memo[v] = r
        return r

    nm = {}

    def needs(v):
        r = nm.get(v)
        if r is None:
            nm[v] = False
            if v.op == "seq":
                r = e in v.syms or any(x.op == "part" and x.a[0] is V for x in v.a)
            elif v.op in ("ref", "int", "bytes", "hole", "elem"):
                r = False
            else:
                r = any(needs(x) for x in v.a if x.__class__ is Term)
            nm[v] = r
        return r

    for cell, v in list(st.mem.items()):
        n = walk(v)
        if n is not v:
            st.mem[cell] = n


def it_next(I, st, c, it, lvl=()):
    """One step of an iterator: [(state, 'item' | 'end' | 'skip', value, iterator)]."""
    k = it.a[0]
    if k == "iter":
        return next_iter(I, st, c, it)
    if k == "ext":
        V = it.a[1]
        return next_elem(I, st, c, V, lambda ph, cl, y: it, "val", 2, None, False, it)
    if k == "byref":
        inner = I.deref(st, it.a[1])
        if inner.op != "it":
            return call_next(I, st, c, it.a[1], it, lvl)
        r = []
        for s, kind, v, it2 in it_next(I, st, c, inner, lvl + (0,)):
            I.assign(s, it.a[1], it2)
            r.append((s, kind, v, it))
        return r
    if k == "obj":
        cell = (c.fid, "itobj", lvl)
        v, t = it.a[1], it.a[2]
        st.mem[cell] = v
        r = []
        for s, kind, x, _ in call_next(I, st, c, T("ref", cell, ()), it, lvl, t):
            nv = s.mem.pop(cell, v)
            r.append((s, kind, x, IT("obj", nv, t)))
        return r
    if k == "range":
        a, b = it.a[1], it.a[2]
        if b.op == "inf":
            return [(st, "item", a, IT("range", ADD(a, INT(1)), b))]
        r = []
        cond = LT(a, b)
        for val in (True, False):
            s = st.fork()
            if I.assume(s, cond, val):
                r.append((s, "item", a, IT("range", ADD(a, INT(1)), b)) if val else (s, "end", None, it))
        return r
    if k == "opt":
        v, good, done = it.a[1:]
        if done is TRUE:
            return [(st, "end", None, it)]
        fin = IT("opt", v, good, TRUE)
        r = []
        for s, kk in I.cases(st, v, OPT if good.a[0] == 1 else RES, 2):
            if kk == good.a[0]:
                r.append((s, "item", I.getfld(v, kk, 0), fin))
            else:
                r.append((s, "end", None, fin))
        return r
    if k == "empty":
        return [(st, "end", None, it)]
    if k in ("map", "filter", "filter_map", "take_while", "skip_while", "map_while", "inspect"):
        r = []
        for s, kind, v, in2 in it_next(I, st, c, it.a[1], lvl + (0,)):
            mk = lambda *x: IT(k, in2, it.a[2], *(x or it.a[3:]))
            if kind != "item":
                r.append((s, kind, v, mk()))
                continue
            r += apply_adapter(I, s, c, it, k, v, mk, lvl)
        return r
    if k == "enum":
        r = []
        for s, kind, v, in2 in it_next(I, st, c, it.a[1], lvl + (0,)):
            n = it.a[2]
            if kind == "item":
                I.note(n, ("usize",))
                r.append((s, kind, TUP(n, v), IT("enum", in2, ADD(n, INT(1)))))
            else:
                r.append((s, kind, v, IT("enum", in2, n)))
        return r
    if k == "take":
        inner, n, i = it.a[1:]
        I.note(n, ("usize",))
        r = []
        for val in (True, False):
            s0 = st.fork()
            if not I.assume(s0, LT(i, n), val):
                continue
            if not val:
                r.append((s0, "end", None, it))
                continue
            for s, kind, v, in2 in it_next(I, s0, c, inner, lvl + (0,)):
                r.append((s, kind, v, IT("take", in2, n, ADD(i, INT(1)) if kind == "item" else i)))
        return r
    if k == "skip":
        inner, n, i = it.a[1:]
        r = []
        for s, kind, v, in2 in it_next(I, st, c, inner, lvl + (0,)):
            if kind != "item":
                r.append((s, kind, v, IT("skip", in2, n, i)))
                continue
            for val in (True, False):
                s0 = s.fork()
                if not I.assume(s0, LT(i, n), val):
                    continue
                r.append((s0, "skip" if val else "item", v, IT("skip", in2, n, ADD(i, INT(1)) if val else i)))
        return r
    if k == "chain":
        a, b = it.a[1], it.a[2]
        if a.op == "skip":
            return [(s, kind, v, IT("chain", a, in2)) for s, kind, v, in2 in it_next(I, st, c, b, lvl + (1,))]
        r = []
        for s, kind, v, in2 in it_next(I, st, c, a, lvl + (0,)):
            if kind == "end":
                r.append((s, "skip", None, IT("chain", SKIP, b)))
            else:
                r.append((s, kind, v, IT("chain", in2, b)))
        return r
    if k == "zip":
        a, b = it.a[1], it.a[2]
        r = []
        for s, kind, v, a2 in it_next(I, st, c, a, lvl + (0,)):
            if kind != "item":
                r.append((s, kind, None, IT("zip", a2, b)))
                continue
            for s2, kind2, v2, b2 in nextitem(I, s, c, b, lvl + (1,)):
                r.append((s2, kind2, TUP(v, v2) if kind2 == "item" else None, IT("zip", a2, b2)))
        return r
    if k == "cloned":
        return [(s, kind, D1(I, s, v) if kind == "item" else v, IT("cloned", in2)) for s, kind, v, in2 in it_next(I, st, c, it.a[1], lvl + (0,))]
    if k == "flatten":
        inner, cur, ity = it.a[1:]
        r = []
        if cur.op != "skip":
            for s, kind, v, c2 in it_next(I, st, c, cur, lvl + (1,)):
                if kind == "end":
                    r.append((s, "skip", None, IT("flatten", inner, SKIP, ity)))
                else:
                    r.append((s, kind, v, IT("flatten", inner, c2, ity)))
            return r
        for s, kind, v, in2 in it_next(I, st, c, inner, lvl + (0,)):
            if kind == "item":
                t = ity
                if v.op == "agg" and v.a[0][0] == RES or t[0] == "adt" and t[1] == RES:
                    for s2, kk in I.cases(s, v, RES, 2):
                        if kk == 0:
                            r.append((s2, "item", I.getfld(v, 0, 0), IT("flatten", in2, SKIP, ity)))
                        else:
                            event(I, s2, c, "discard", v, I.getfld(v, 1, 0), "flatten")
                            r.append((s2, "skip", None, IT("flatten", in2, SKIP, ity)))
                    continue
                r.append((s, "skip", None, IT("flatten", in2, to_iter(I, s, v, t), ity)))
            else:
                r.append((s, kind, v, IT("flatten", in2, SKIP, ity)))
        return r
    if k == "peek":
        inner, cur = it.a[1], it.a[2]
        if cur.op != "skip":
            if cur.a[0][1] == 1:
                return [(st, "item", cur.a[1], IT("peek", inner, SKIP))]
            return [(st, "end", None, it)]
        return [(s, kind, v, IT("peek", in2, SKIP)) for s, kind, v, in2 in it_next(I, st, c, inner, lvl + (0,))]
    if k == "chunks":
        V, n, pos = it.a[1], it.a[2], it.a[3]
        I.note(pos, ("usize",))
        L = LEN(V)
        r = []
        for val in (True, False):
            s = st.fork()
            if not I.assume(s, LT(pos, L), val):
                continue
            if not val:
                r.append((s, "end", None, it))
                continue
            rest = SUB(L, pos)
            for full in (True, False):
                s2 = s.fork()
                if not I.assume(s2, LT(rest, n), not full):
                    continue
                e = ADD(pos, n) if full else L
                if not full and it.a[4] is TRUE:
                    r.append((s2, "end", None, it))
                    continue
                r.append((s2, "item", CREF(I.mkslice(V, pos, e)), IT("chunks", V, n, e, it.a[4])))
        return r
    if k == "rchunks":
        V, n, e = it.a[1], it.a[2], it.a[3]
        r = []
        for val in (True, False):
            s = st.fork()
            if not I.assume(s, LT(INT(0), e), val):
                continue
            if not val:
                r.append((s, "end", None, it))
                continue
            p = pure("rchunk", V, n, e)
            I.note(p, ("usize",))
            I.assume(s, LT(p, e), True)
            r.append((s, "item", CREF(I.mkslice(V, p, e)), IT("rchunks", V, n, p)))
        return r
    if k == "rev":
        return [(s, kind, v, IT("rev", in2)) for s, kind, v, in2 in it_next(I, st, c, it.a[1], lvl + (0,))]
    raise Stop("iterator " + str(k))


def D1(I, st, v):
    while v.op == "dyn":
        v = v.a[1]
    if v.op in ("ref", "cref", "box"):
        return I.deref(st, v)
    return T("deref", v)


def nextitem(I, st, c, it, lvl):
    """Steps until there is an item or the end."""
    r = []
    seen = {}
    work = [(st, it)]
    cell = (c.fid, "nx", lvl)
    fr = Frame(c.fr.body, c.fr.sub, c.fid, c.fr)
    fr.site = c.loc
    while work:
        s, i = work.pop(0)
        outs = it_next(I, s, c, i, lvl)
        for s2, kind, v, i2 in outs:
            if kind != "skip":
                r.append((s2, kind, v, i2))
                continue
            s2.mem[cell] = i2
            I.gc(s2)
            s3 = I.widen(fr, ("nx", lvl), s2, seen)
            if s3 is None:
                continue
            s3 = s3.fork()
            work.append((s3, s3.mem.pop(cell)))
    return r


def apply_adapter(I, st, c, it, k, v, mk, lvl):
    f = it.a[2]
    tag = ("ad", lvl)
    if k == "map":
        return [(s, "item", x, mk()) for s, x in call1(I, st, c, f, [v], tag)]
    if k == "inspect":
        return [(s, "item", v, mk()) for s, x in call1(I, st, c, f, [CREF(v)], tag)]
    if k in ("filter_map", "map_while"):
        r = []
        for s, x in call1(I, st, c, f, [v], tag):
            for s2, kk in opt_cases(I, s, x):
                if kk:
                    event(I, s2, c, "kept", k, v)
                    r.append((s2, "item", some_of(I, x), mk()))
                elif k == "filter_map":
                    event(I, s2, c, "left", k, v)
                    r.append((s2, "skip", None, mk()))
                else:
                    r.append((s2, "end", None, mk()))
        return r
    if k == "skip_while" and it.a[3] is TRUE:
        return [(st, "item", v, mk(TRUE))]
    r = []
    for s, b in call1(I, st, c, f, [CREF(v)], tag, ("bool",)):
        for val in (True, False):
            s2 = s.fork()
            if not I.assume(s2, b, val):
                continue
            event(I, s2, c, "kept" if val is (k != "skip_while") else "left", k, v)
            if k == "filter":
                r.append((s2, "item" if val else "skip", v, mk()))
            elif k == "take_while":
                r.append((s2, "item" if val else "end", v, mk()))
            else:
                r.append((s2, "skip" if val else "item", v, mk(FALSE if val else TRUE)))
    return r


def call_next(I, st, c, ref, it, lvl, t=None):
    """next() of an iterator the workspace implements, or of a boxed one."""
    p = ref
    for _ in range(6):
        x = I.deref(st, p) if p.op in ("ref", "cref") else p
        if x.op == "box":
            if p.op != "ref":
                break
            p = T("ref", p.a[0], p.a[1] + (("b",),))
            if t is not None and t[0] == "adt" and len(t) > 2:
                t = t[2]
            continue
        if x.op == "dyn":
            t = x.a[0]
            if t[0] == "adt" and t[1] == "alloc::boxed::Box" and len(t) > 2:
                pass
            if p.op == "ref":
                inner = x.a[1]
                if inner.op == "box":
                    t2 = t
                    p = T("ref", p.a[0], p.a[1] + (("b",),))
                    t = t2
                    continue
                if inner.op in ("ref",):
                    p = inner
                    continue
            break
        break
    x = I.deref(st, p) if p.op in ("ref", "cref") else p
    while x.op == "dyn":
        x = x.a[1]
    if x.op == "it":
        r = []
        for s, kind, v, it2 in it_next(I, st, c, x, lvl + (9,)):
            I.assign(s, p, it2)
            r.append((s, kind, v, it))
        return r
    if t is not None and t[0] != "dyn":
        fi = I.P.find_impl("core::iter::traits::iterator::Iterator", "core::iter::traits::iterator::Iterator::next", t)
        if fi is not None:
            r = []
            d = {"p": "core::iter::traits::iterator::Iterator::next", "trait": "core::iter::traits::iterator::Iterator", "a": [RAW(t)]}
            for s, o in I.callfn(st, c.fr, (c.fid, "itnext", lvl), d, {}, [p], [("ref", True, t)], ("?",), c.loc):
                for s2, kk in opt_cases(I, s, o):
                    r.append((s2, "item" if kk else "end", some_of(I, o) if kk else None, it))
            return r
    e = T("deref", x)
    return next_elem(I, st, c, x, lambda ph, cl, y: it, "val", 2, None, False, it)


def next_iter(I, st, c, it):
    V, mode, idx, phase, cls, tag = it.a[1:]
    wrap = (lambda v: v) if mode == "val" else (lambda v: CREF(v))
    L = LEN(V)
    if L.op == "int" and L.a[0] <= (256 if V.op in ("seq", "bytes", "agg") else 32):
        if L.a[0] <= 256:
            i = idx.a[0]
            if i < L.a[0]:
                x = V.a[i] if V.op == "seq" else I.getidx(V, idx)
                return [(st, "item", wrap(I.instantiate(st, x)), IT("iter", V, mode, INT(i + 1), phase, cls, tag))]
            return [(st, "end", None, it)]
    if V.op == "seq":
        i = idx.a[0]
        if i >= len(V.a):
            loop_marks(I, st, V, c.fid, phase, True)
            return [(st, "end", None, it)]
        x = V.a[i]
        if x.op not in ("each", "some", "part"):
            s = st
            ph = min(phase + 1, 2)
            loop_marks(I, st, V, c.fid, 9, False)
            v = I.instantiate(s, x)
            return [(s, "item", wrap(v), IT("iter", V, mode, INT(i + 1), ph, cls, tag))]
        r = []
        s = st.fork()
        loop_marks(I, s, V, c.fid, 9, False)
        r.append((s, "skip", None, IT("iter", V, mode, INT(i + 1), phase, cls, tag)))
        for y in (x.a[2:] if x.op != "some" else x.a):
            s = st.fork()
            loop_marks(I, s, V, c.fid, 9, False)
            v = I.instantiate(s, y)
            r.append((s, "item", wrap(v), IT("iter", V, mode, idx, 2, cls, tag)))
        return r
    mk = lambda ph, cl, y: IT("iter", V, mode, idx, ph, cl, y)
    return next_elem(I, st, c, V, mk, mode, phase, cls, tag, it)


def min_len(V):
    return 1 if V.op == "pure" and V.a[0] in ("split", "splitn", "lines1") else 0


def next_elem(I, st, c, V, mk, mode, phase, cls, yielded, it):
    wrap = (lambda v: v) if mode == "val" else (lambda v: CREF(v))
    e = T("elem", V)
    tag = c.fid
    bytey = cls is not None or e in UMAX and UMAX[e] == 255
    r = []
    cl = cls
    if yielded:
        k = class_by_facts(I, st, e)
        cl = k if cls is None else cls | k
    # The end.
    s = st.fork()
    ok = True
    if phase == 0:
        if min_len(V):
            ok = False
        else:
            ok = it.a[0] == "ext" or I.assume(s, EQ(LEN(V), INT(0)), True)
    if ok:
        loop_marks(I, s, V, tag, phase, True)
        if cl is not None and cl != ALLBYTES and it.a[0] != "ext":
            s.facts[("tr", T("allin", V, bytes(sorted(cl))))] = True
        elif phase == 0 and it.a[0] != "ext":
            s.facts[("tr", T("allin", V, b""))] = True
        r.append((s, "end", None, mk(phase, cl, False)))
    # Another element.
    s = st.fork()
    if phase or it.a[0] == "ext" or min_len(V) or I.assume(s, EQ(LEN(V), INT(0)), False):
        loop_marks(I, s, V, tag, phase, False)
        n = I.fresh(s, e)
        if V.op == "pure" and V.a[0] in ("split", "splitn"):
            event(I, s, c, "part", V, phase, n)
        r.append((s, "item", wrap(n), mk(min(phase + 1, 2), cl, e)))
    return r


def m_to_digit(I, st, c):
    x = X(I, st, c, 0)
    rad = c.args[1]
    if rad.op != "int":
        return None
    k = rad.a[0]
    out = []
    rs = [(48, min(57, 47 + k), 48)]
    if k > 10:
        rs += [(97, 86 + k, 87), (65, 54 + k, 55)]
    rest = st
    for lo, hi, off in rs:
        s = rest.fork()
        if I.assume(s, NOT(LT(x, INT(lo))), True) and I.assume(s, LT(INT(hi), x), False):
            out.append((s, SOME(SUB(x, INT(off)))))
    s = rest
    ok = True
    for lo, hi, off in rs:
        ok = ok and I.assume(s, inrange(x, lo, hi), False)
    if ok:
        out.append((s, NONE()))
    return out


TABLE["char::to_digit"] = m_to_digit
TABLE["u8::to_digit"] = m_to_digit


@model("Iterator::next", "DoubleEndedIterator::next_back")
def m_next(I, st, c):
    p = c.args[0]
    for _ in range(5):
        while p.op == "dyn":
            p = p.a[1]
        x = I.deref(st, p) if p.op in ("ref", "cref") else p
        if x.op in ("ref",):
            p = x
        else:
            break
    x = I.deref(st, p) if p.op in ("ref", "cref") else p
    t = c.selfty or ("?",)
    while t[0] == "ref":
        t = t[2]
    if x.op == "it":
        it = x
        store = lambda s, it2: I.assign(s, p, it2)
    elif x.op in ("box", "dyn"):
        it = IT("obj", x, t)
        store = lambda s, it2: I.assign(s, p, it2.a[1])
    else:
        it = to_iter(I, st, x, t)
        if it.a[0] == "ext" or not (t[0] == "adt" and t[1].startswith(RANGE)):
            it = IT("ext", x)
        if it.a[0] == "range":
            store = lambda s, it2: I.assign(s, p, AGG(t[1], 0, it2.a[1], it2.a[2]))
        else:
            store = lambda s, it2: None
    if it.a[0] == "ext":
        event(I, st, c, "next", it.a[1])
    r = []
    for s, kind, v, it2 in nextitem(I, st, c, it, ()):
        store(s, it2)
        r.append((s, SOME(v) if kind == "item" else NONE()))
    return r


@model("[T]::iter", "[T]::iter_mut", "Vec::iter", "str::bytes", "VecDeque::iter", "Vec::drain", "String::bytes", "Vec::into_iter", "str::chars")
def m_iter(I, st, c):
    V = as_content(X(I, st, c, 0))
    if c.p.endswith("drain"):
        I.assign(st, c.args[0], T("seq") if V.op == "seq" else BYTES(b""))
        return one(st, content_iter(V, "val"))
    m = c.p.rsplit("::", 1)[1]
    if m == "iter_mut":
        I.assign(st, c.args[0], I.fresh(st, T("out", c.fid, c.p, 0)))
    return one(st, content_iter(V, "val" if m in ("bytes", "into_iter", "chars") else "ref"))


@model("Option::iter", "Option::into_iter", "Result::iter", "iter::once", "once::once", "empty::empty", "iter::empty")
def m_opt_iter(I, st, c):
    if "empty" in c.p:
        return one(st, IT("empty"))
    if "once" in c.p:
        return one(st, IT("opt", SOME(c.args[0]), INT(1), FALSE))
    v = X(I, st, c, 0)
    return one(st, IT("opt", v, INT(1 if "Option" in c.p else 0), FALSE))


def arg_iter(I, st, c, i=0):
    return to_iter(I, st, c.args[i], c.argtys[i] if i < len(c.argtys) and c.argtys[i][0] != "?" else (c.targs[i] if i < len(c.targs) else ("?",)))


def adapted(I, st, c, it, how, *more):
    """Tells the rule that not every element may come, or not in order."""
    b = it
    while b.op == "it" and b.a[0] not in ("iter", "chunks", "rchunks") and b.a[1].op == "it":
        b = b.a[1]
    return event(I, st, c, "adapt", how, b.a[1] if b.op == "it" and len(b.a) > 1 and b.a[1].__class__ is Term else b, it, *more)


def adapter(kind, n):
    def f(I, st, c):
        if kind not in ("map", "inspect"):
            if not adapted(I, st, c, arg_iter(I, st, c), kind, *c.args[1 : 1 + n]):
                return []
        return one(st, IT(kind, arg_iter(I, st, c), *c.args[1 : 1 + n], *{"skip_while": (FALSE,), "take": (INT(0),), "skip": (INT(0),)}.get(kind, ())))

    return f


for _k, _n in (("map", 1), ("filter", 1), ("filter_map", 1), ("take_while", 1), ("skip_while", 1), ("map_while", 1), ("inspect", 1), ("take", 1), ("skip", 1)):
    TABLE["Iterator::" + _k] = adapter(_k, _n)


@model("Iterator::enumerate")
def m_enum(I, st, c):
    return one(st, IT("enum", arg_iter(I, st, c), INT(0)))


@model("Iterator::chain", "Iterator::zip")
def m_chain(I, st, c):
    a = arg_iter(I, st, c)
    b = to_iter(I, st, c.args[1], c.argtys[1] if len(c.argtys) > 1 else ("?",))
    return one(st, IT(c.p.rsplit("::", 1)[1], a, b))


@model("Iterator::cloned", "Iterator::copied")
def m_it_cloned(I, st, c):
    return one(st, IT("cloned", arg_iter(I, st, c)))


@model("Iterator::rev")
def m_it_rev(I, st, c):
    it = arg_iter(I, st, c)
    adapted(I, st, c, it, "rev")
    if it.a[0] == "iter" and it.a[1].op in ("seq", "bytes") and LEN(it.a[1]).op == "int":
        V = it.a[1]
        return one(st, IT("iter", BYTES(V.a[0][::-1]) if V.op == "bytes" else T("seq", *V.a[::-1]), *it.a[2:]))
    if it.a[0] == "chunks" and it.a[4] is not TRUE and it.a[3] is INT(0):
        return one(st, IT("rchunks", it.a[1], it.a[2], LEN(it.a[1])))
    return one(st, IT("rev", it))


@model("Iterator::by_ref")
def m_by_ref(I, st, c):
    return one(st, c.args[0])


@model("Iterator::fuse", "Iterator::into_iter")
def m_fuse(I, st, c):
    return one(st, arg_iter(I, st, c))


@model("Iterator::peekable")
def m_peekable(I, st, c):
    return one(st, IT("peek", arg_iter(I, st, c), SKIP))


@model("Peekable::peek", "Peekable::next_if")
def m_peek(I, st, c):
    p = c.args[0]
    x = X(I, st, c, 0)
    if x.op != "it" or x.a[0] != "peek" or c.p.endswith("next_if"):
        return None
    if x.a[2].op != "skip":
        v = x.a[2]
        return one(st, SOME(CREF(v.a[1])) if v.a[0][1] == 1 else NONE())
    r = []
    for s, kind, v, it2 in nextitem(I, st, c, x.a[1], ()):
        o = SOME(v) if kind == "item" else NONE()
        I.assign(s, p, IT("peek", it2, o))
        r.append((s, SOME(CREF(v)) if kind == "item" else NONE()))
    return r


@model("Iterator::flatten")
def m_flatten(I, st, c):
    it = arg_iter(I, st, c)
    t = c.argtys[0] if c.argtys else ("?",)
    return one(st, IT("flatten", it, SKIP, item_type(I, c, it)))


@model("Iterator::flat_map")
def m_flat_map(I, st, c):
    return one(st, IT("flatten", IT("map", arg_iter(I, st, c), c.args[1]), SKIP, ("?",)))


def item_type(I, c, it):
    # Flatten<Map<.., {closure}>>: the closure's return type.
    if it.a[0] == "map" and it.a[2].op == "agg" and it.a[2].a[0][0] == "closure":
        b = I.P.bodies.get(it.a[2].a[1])
        if b is not None:
            return subst(b.locals[0], dict(zip(b.generics, it.a[2].a[2])))
    return ("?",)


@model("[T]::chunks", "[T]::chunks_exact")
def m_chunks(I, st, c):
    if not panic_unless(I, st, c, "chunk size", NOT(EQ(c.args[1], INT(0)))):
        return []
    return one(st, IT("chunks", as_content(X(I, st, c, 0)), c.args[1], INT(0), TRUE if c.p.endswith("exact") else FALSE))


@model("[T]::split", "str::split", "str::lines", "[T]::splitn", "str::splitn", "str::split_once", "str::split_terminator", "str::split_whitespace", "[T]::rsplit", "str::rsplit", "str::rsplitn", "[T]::rsplitn", "str::rsplit_once", "[T]::split_inclusive", "str::split_inclusive")
def m_split(I, st, c):
    V = as_content(X(I, st, c, 0))
    m = c.p.rsplit("::", 1)[1]
    if m in ("lines", "split_whitespace"):
        return one(st, content_iter(pure(m, V), "ref"))
    sep = split_class(I, st, c, c.args[-1])
    if sep is None:
        sep = "?"
    elif sep.__class__ is frozenset:
        sep = bytes(sorted(sep))
    if m in ("split_once", "rsplit_once"):
        if sep.__class__ is not bytes or len(sep) != 1 or m == "rsplit_once":
            p = I.note(T("pure", "posof", V, sep, m), ("usize",))
            k = len(sep) if sep.__class__ is bytes else 1
        else:
            p, k = None, 1
        r = []
        for s, o in position(I, st, c, V, sep if sep.__class__ is bytes else b"", p):
            if o is None:
                r.append((s, NONE()))
            else:
                r.append((s, SOME(TUP(CREF(I.mkslice(V, INT(0), o)), CREF(I.mkslice(V, ADD(o, INT(k)), LEN(V)))))))
        return r
    if m.endswith("splitn"):
        P = pure(m, V, c.args[1], sep)
        n = LEN(P)
        if c.args[1].op == "int":
            I.add_ge(st, lin_add(lin(c.args[1]), lin(n), -1))
    else:
        P = pure(m, V, sep)
        n = LEN(P)
    if m in ("split", "splitn", "rsplit"):
        I.add_ge(st, lin_add(lin(n), ({}, 1), -1))
    return one(st, content_iter(P, "ref"))


def position(I, st, c, V, cls, p=None):
    """The first place in V of one of the bytes: [(state, index or None)]."""
    if p is None:
        p = I.fresh(st, T("call", c.fid, "pos", V))
        I.note(p, ("usize",))
    r = []
    s = st.fork()
    n = LEN(V)
    if I.assume(s, LT(p, n), True):
        x = I.getidx(V, p)
        I.note(x, ("u8",))
        ok = True
        if len(cls) == 1:
            ok = I.assume(s, EQ(x, INT(cls[0])), True)
        elif len(cls):
            ok = True
        if ok:
            if cls:
                s.facts[("tr", T("allin", I.mkslice(V, INT(0), p), bytes(sorted(ALLBYTES - set(cls)))))] = True
            r.append((s, p))
    s = st.fork()
    if cls:
        s.facts[("tr", T("allin", V, bytes(sorted(ALLBYTES - set(cls)))))] = True
    r.append((s, None))
    return r


@model("Iterator::position")
def m_position(I, st, c):
    it = I.deref_all(st, c.args[0])
    if it.op == "it" and it.a[0] == "iter" and it.a[4] == 0 and it.a[3] is INT(0):
        V = it.a[1]
        k = closure_class(I, st, c, c.args[1], (lambda x: x) if it.a[2] == "val" else None)
        if k is not None and V.op != "seq" and V.op != "bytes":
            return [(s, NONE() if o is None else SOME(o)) for s, o in position(I, st, c, V, bytes(sorted(k)))]
    r = []

    def step(s, acc, v):
        out = []
        for s2, b in call1(I, s, c, c.args[1], [v], ("pos",), ("bool",)):
            for val in (True, False):
                s3 = s2.fork()
                if I.assume(s3, b, val):
                    out.append((s3, "ret" if val else "go", SOME(acc) if val else ADD(acc, INT(1))))
        return out

    for s, acc in drive(I, st, c, to_iter(I, st, c.args[0], c.selfty or ("?",)), INT(0), step, "pos"):
        r.append((s, acc if acc.op == "agg" else NONE()))
    return r


def drive(I, st, c, it, acc, step, tag):
    """Runs a loop over an iterator to a fixed point: [(state, accumulator)]."""
    ic, ac = (c.fid, "it", tag), (c.fid, "acc", tag)
    st.mem[ic] = it
    st.mem[ac] = acc
    fr = Frame(c.fr.body, c.fr.sub, c.fid, c.fr)
    fr.site = c.loc
    seen = {}
    work = [st]
    outs = {}

    def done(s, a):
        s.mem.pop(ic, None)
        s.mem.pop(ac, None)
        k = (s.key(), a)
        if k not in outs:
            outs[k] = (s, a)

    while work:
        s = work.pop(0)
        I.gc(s)
        s = I.widen(fr, ("drive", tag), s, seen)
        if s is None:
            continue
        s = s.fork()
        I.fuel -= 1
        if I.fuel < 0:
            raise Stop("out of fuel")
        for s2, kind, v, it2 in it_next(I, s, c, s.mem[ic], (tag,)):
            if kind == "end":
                done(s2, s2.mem[ac])
                continue
            s2.mem[ic] = it2
            if kind == "skip":
                work.append(s2)
                continue
            for s3, ctl, a2 in step(s2, s2.mem[ac], v):
                if ctl == "ret":
                    done(s3, a2)
                else:
                    s3.mem[ac] = a2
                    work.append(s3)
    outs = list(outs.values())
    return I.merge_results(fr, outs, ("dret", tag)) if len(outs) > EXITCAP else outs


def pushitem(acc, x):
    return T("seq", *acc.a, x)


FROMITER = "core::iter::traits::collect::FromIterator"


@model("Iterator::collect", "FromIterator::from_iter")
def m_collect(I, st, c):
    it = arg_iter(I, st, c) if c.p.endswith("collect") else to_iter(I, st, c.args[0], c.argtys[0] if c.argtys else ("?",))
    event(I, st, c, "collect", it)
    t = c.retty
    wrap = None
    if t[0] == "adt" and t[1] in (RES, OPT):
        wrap = t[1]
        t = t[2]
    own = None
    if t[0] == "adt":
        fi = I.P.find_impl(FROMITER, FROMITER + "::from_iter", t)
        if fi is not None and fi[0] in I.P.bodies:
            own = fi

    def build(s, arg, argty):
        """A type of the workspace says itself how it is made."""
        b = I.P.bodies[own[0]]
        sub = dict(own[1])
        for g in b.generics:
            sub.setdefault(g, argty)
        return I.run(s, b, sub, [arg], c.fr, (c.fid, "collect"))

    if own is not None and wrap is None:
        return build(st, c.args[0], c.argtys[0] if c.argtys else ("?",))
    if own is not None:
        acc0 = T("seq")
    elif t == ("tuple",):
        acc0 = UNITV
    elif t[0] == "adt" and (t[1].endswith("Map") or t[1].endswith("Set")):
        acc0 = T("mapnew")
    elif t[0] == "adt" and t[1] == "alloc::vec::Vec" and len(t) > 2 and t[2] != ("u8",):
        acc0 = T("seq")
    elif t[0] == "adt" and t[1] == "alloc::boxed::Box":
        acc0 = T("seq")
    else:
        acc0 = BYTES(b"")

    def add(s, acc, x):
        if acc.op == "seq":
            return pushitem(acc, x)
        if acc is UNITV:
            return acc
        if t[0] == "adt" and t[1].endswith("Map"):
            return mapins(I, acc, I.deref_all(s, I.getfld(x, 0, 0)), I.getfld(x, 0, 1))
        if t[0] == "adt" and t[1].endswith("Set"):
            return mapins(I, acc, I.deref_all(s, x), UNITV)
        y = I.deref_all(s, x)
        if t == ("adt", "alloc::vec::Vec", ("u8",)) or y in UMAX and UMAX[y] == 255:
            y = byte(y)
        return cat(acc, y)

    def step(s, acc, v):
        if wrap is None:
            return [(s, "go", add(s, acc, v))]
        out = []
        good = 0 if wrap == RES else 1
        for s2, k in I.cases(s, v, wrap, 2):
            if k == good:
                out.append((s2, "go", add(s2, acc, I.getfld(v, k, 0))))
            else:
                out.append((s2, "ret", ERR(I.getfld(v, 1, 0)) if wrap == RES else NONE()))
        return out

    r = []
    for s, acc in drive(I, st, c, it, acc0, step, "col"):
        if acc.op == "agg" and acc is not UNITV:
            r.append((s, acc))
            continue
        if own is not None:
            for s2, v in build(s, acc, ("adt", "alloc::vec::Vec", ("?",))):
                r.append((s2, OK(v) if wrap == RES else SOME(v)))
            continue
        r.append((s, acc if wrap is None else OK(acc) if wrap == RES else SOME(acc)))
    return r


def cond_consumer(stop_on, ret, default):
    def f(I, st, c):
        def step(s, acc, v):
            out = []
            for s2, b in call1(I, s, c, c.args[1], [v], ("cc",), ("bool",)):
                for val in (True, False):
                    s3 = s2.fork()
                    if I.assume(s3, b, val):
                        out.append((s3, "ret" if val == stop_on else "go", ret if val == stop_on else acc))
            return out

        return drive(I, st, c, to_iter(I, st, c.args[0], c.selfty or ("?",)), default, step, "cc")

    return f


TABLE["Iterator::all"] = cond_consumer(False, FALSE, TRUE)
TABLE["Iterator::any"] = cond_consumer(True, TRUE, FALSE)


@model("Iterator::find", "Iterator::find_map")
def m_find(I, st, c):
    fm = c.p.endswith("find_map")

    def step(s, acc, v):
        out = []
        for s2, b in call1(I, s, c, c.args[1], [v if fm else CREF(v)], ("find",), ("?",) if fm else ("bool",)):
            if fm:
                for s3, k in opt_cases(I, s2, b):
                    out.append((s3, "ret" if k else "go", SOME(some_of(I, b)) if k else acc))
                continue
            for val in (True, False):
                s3 = s2.fork()
                if I.assume(s3, b, val):
                    out.append((s3, "ret" if val else "go", SOME(v) if val else acc))
        return out

    return drive(I, st, c, to_iter(I, st, c.args[0], c.selfty or ("?",)), NONE(), step, "find")


@model("Iterator::count", "Iterator::last")
def m_count(I, st, c):
    cnt = c.p.endswith("count")

    def step(s, acc, v):
        return [(s, "go", ADD(acc, INT(1)) if cnt else SOME(v))]

    return drive(I, st, c, arg_iter(I, st, c), INT(0) if cnt else NONE(), step, "count")


@model("Iterator::nth")
def m_nth(I, st, c):
    if c.args[1] is INT(0):
        return m_next(I, st, c)
    it = to_iter(I, st, c.args[0], c.selfty or ("?",))

    def step(s, acc, v):
        out = []
        for val in (True, False):
            s2 = s.fork()
            if I.assume(s2, EQ(acc, c.args[1]), val):
                out.append((s2, "ret", SOME(v)) if val else (s2, "go", ADD(acc, INT(1))))
        return out

    return [(s, a if a.op == "agg" else NONE()) for s, a in drive(I, st, c, it, INT(0), step, "nth")]


@model("Iterator::fold", "Iterator::try_fold")
def m_fold(I, st, c):
    tr = c.p.endswith("try_fold")

    def step(s, acc, v):
        out = []
        for s2, x in call1(I, s, c, c.args[2], [acc, v], ("fold",), c.retty):
            if not tr:
                out.append((s2, "go", x))
                continue
            isres = c.retty[0] == "adt" and c.retty[1] == RES
            for s3, k in I.cases(s2, x, RES if isres else OPT, 2):
                if (k == 0) == isres:
                    out.append((s3, "go", I.getfld(x, k, 0)))
                else:
                    out.append((s3, "ret", T("brk", ERR(I.getfld(x, 1, 0)) if isres else NONE())))
        return out

    it = to_iter(I, st, c.args[0], c.selfty or ("?",))
    outs = drive(I, st, c, it, c.args[1], step, "fold")
    if not tr:
        return outs
    isres = c.retty[0] == "adt" and c.retty[1] == RES
    return [(s, a.a[0] if a.op == "brk" else OK(a) if isres else SOME(a)) for s, a in outs]


@model("Iterator::for_each", "Iterator::try_for_each")
def m_for_each(I, st, c):
    tr = c.p.endswith("try_for_each")

    def step(s, acc, v):
        out = []
        for s2, x in call1(I, s, c, c.args[1], [v], ("fe",), c.retty):
            if not tr:
                out.append((s2, "go", acc))
                continue
            for s3, k in I.cases(s2, x, RES, 2):
                out.append((s3, "go", acc) if k == 0 else (s3, "ret", T("brk", ERR(I.getfld(x, 1, 0)))))
        return out

    it = to_iter(I, st, c.args[0], c.selfty or ("?",))
    outs = drive(I, st, c, it, UNITV, step, "fe")
    if not tr:
        return outs
    return [(s, a.a[0] if a.op == "brk" else OK(UNITV)) for s, a in outs]


@model("Iterator::sum")
def m_sum(I, st, c):
    t = c.retty
    if t[0] not in UNSIGNED and t[0] not in SIGNED:
        return None

    def step(s, acc, v):
        x = I.deref_all(s, v)
        I.note(x, t)
        I.note(acc, t)
        r = I.binop(s, "AddWithOverflow", acc, x, t)
        I.M.on_assert(s, c.fr, "overflow:Add", [acc, x], r.a[2], False, c.loc)
        return [(s, "go", r.a[1])]

    return drive(I, st, c, arg_iter(I, st, c), INT(0), step, "sum")


@model("Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key", "Iterator::max_by", "Iterator::min_by")
def m_it_max(I, st, c):
    it = arg_iter(I, st, c)
    t = pure(short(c.p), T("iterof", it))
    return one(st, t)


# ---- maps ----------------------------------------------------------------------------------------
def mapins(I, m, k, v):
    # A later entry for the same key replaces the earlier one.
    ch = []
    b = m
    while b.op == "mapins":
        ch.append((b.a[1], b.a[2]))
        b = b.a[0]
    if any(x is k for x, _ in ch):
        for x, y in reversed(ch):
            if x is not k:
                b = T("mapins", b, x, y)
        return T("mapins", b, k, v)
    if len(ch) > 24:
        return T("mapins", T("pure", "map", m), k, v)
    return T("mapins", m, k, v)


def mapget(m, k):
    b = m
    while b.op == "mapins":
        if b.a[1] is k:
            return SOME(b.a[2])
        if b.a[1].op == "bytes" and k.op == "bytes":
            b = b.a[0]
            continue
        return pure("mapget", b, k)
    if b.op == "mapnew":
        return NONE()
    return pure("mapget", b, k)


@model("BTreeMap::new", "HashMap::new", "BTreeSet::new", "HashSet::new")
def m_map_new(I, st, c):
    return one(st, T("mapnew"))


@model("BTreeMap::insert", "HashMap::insert", "BTreeSet::insert", "HashSet::insert")
def m_map_insert(I, st, c):
    m = X(I, st, c, 0)
    k = I.deref_all(st, c.args[1])
    v = c.args[2] if len(c.args) > 2 else UNITV
    old = mapget(m, k)
    I.assign(st, c.args[0], mapins(I, m, k, v))
    if len(c.args) > 2:
        return one(st, old)
    if old.op == "agg":
        return one(st, FALSE if old.a[0][1] else TRUE)
    return one(st, NOT(T("isvar", old, (OPT, 1))))


@model("BTreeMap::get", "HashMap::get", "BTreeMap::contains_key", "HashMap::contains_key", "BTreeSet::contains", "HashSet::contains", "BTreeMap::remove", "HashMap::remove")
def m_map_get(I, st, c):
    m = X(I, st, c, 0)
    k = X(I, st, c, 1)
    o = mapget(m, k)
    meth = c.p.rsplit("::", 1)[1]
    if meth in ("contains_key", "contains"):
        if o.op == "agg":
            return one(st, INT(o.a[0][1]))
        return one(st, T("isvar", o, (OPT, 1)))
    if meth == "remove":
        I.assign(st, c.args[0], pure("mapdel", m, k))
        return one(st, o)
    r = []
    for s, kk in opt_cases(I, st, o):
        r.append((s, SOME(CREF(some_of(I, o))) if kk else NONE()))
    return r


@model("BTreeMap::iter", "HashMap::iter", "BTreeMap::keys", "BTreeMap::values", "BTreeMap::into_iter", "HashMap::keys", "HashMap::values")
def m_map_iter(I, st, c):
    return one(st, IT("ext", pure(short(c.p), X(I, st, c, 0))))


@model("BTreeMap::len", "HashMap::len", "BTreeMap::is_empty", "HashMap::is_empty")
def m_map_len(I, st, c):
    m = X(I, st, c, 0)
    if c.p.endswith("len"):
        return one(st, I.note(pure("maplen", m), ("usize",)))
    if m.op == "mapnew":
        return one(st, TRUE)
    if m.op == "mapins":
        return one(st, FALSE)
    return one(st, EQ(I.note(pure("maplen", m), ("usize",)), INT(0)))


@model("[T]::sort", "[T]::sort_by", "[T]::sort_by_key", "[T]::sort_unstable", "[T]::sort_unstable_by", "[T]::sort_unstable_by_key", "[T]::sort_by_cached_key", "Vec::dedup", "Vec::retain")
def m_sort(I, st, c):
    v = X(I, st, c, 0)
    f = c.args[1] if len(c.args) > 1 else NONE()
    event(I, st, c, "sort", c.p.rsplit("::", 1)[1], v, f)
    if v.op == "seq" and LEN(v).op == "int" and len(v.a) < 2 and not c.p.endswith("retain"):
        return one(st, UNITV)
    name = c.p.rsplit("::", 1)[1]
    then = [st]
    if name.startswith("sort"):
        # What it goes by, for two of the elements.
        a, b = (pure("item", INT(i), v) for i in (1, 2))
        by = name in ("sort_by", "sort_unstable_by")
        then = []
        rs = call1(I, st, c, f, [CREF(a), CREF(b)] if by else [CREF(a)], ("order",)) if len(c.args) > 1 else [(st, a)]
        for s, x in rs:
            if event(I, s, c, "order", v, "cmp" if by else "key", x):
                then.append(s)
    items = v.a if v.op == "seq" else (T("hole", T("elem", v), None),)
    if v.op == "seq" and len(v.a) == 1 and v.a[0].op == "some":
        n = v
    else:
        n = T("seq", SOMEOF([y for x in items for y in ((x,) if x.op != "part" else x.a[2:])]))
    for s in then:
        I.assign(s, c.args[0], n)
        s.mem[("P", T("sortedness", n))] = T("sorted", INT(0), name, f)
    return [(s, UNITV) for s in then]


# ---- paths ---------------------------------------------------------------------------------------
def pjoin(base, x):
    """Path::join.  Components that are known are split up; absolute ones replace the base."""
    if x.op == "pjoin" and x.a[0].op == "bytes" and x.a[0].a[0][:1] == b"/":
        return x
    parts = [base] if base.op != "pjoin" else list(base.a)
    if base.op == "bytes":
        parts = split_path(base.a[0])
    if x.op == "bytes":
        if x.a[0][:1] == b"/":
            return x
        comps = [q for q in x.a[0].split(b"/") if q]
        parts += [BYTES(q) for q in comps]
    elif x.op == "pjoin":
        parts += list(x.a)
    elif x.op == "cat" and any(q.op == "bytes" and b"/" in q.a[0] for q in x.a) and x.a[0].op == "bytes" and x.a[0].a[0][:1] != b"/":
        cur = []
        for q in x.a:
            if q.op != "bytes":
                cur.append(q)
                continue
            ss = q.a[0].split(b"/")
            for i, z in enumerate(ss):
                if i:
                    if cur:
                        parts.append(cat(*cur))
                    cur = []
                if z:
                    cur.append(BYTES(z))
        if cur:
            parts.append(cat(*cur))
    else:
        parts.append(x)
    if parts and parts[0].op == "bytes" and parts[0].a[0] == b"":
        parts = parts[1:] or [BYTES(b"")]
    return T("pjoin", *parts) if len(parts) > 1 else parts[0]


def split_path(b):
    if b[:1] == b"/" or not b:
        return [BYTES(b)]
    return [BYTES(q) for q in b.split(b"/") if q] or [BYTES(b)]


@model("PathBuf::push")
def m_path_push(I, st, c):
    I.assign(st, c.args[0], pjoin(X(I, st, c, 0), X(I, st, c, 1)))
    return one(st, UNITV)


@model("Path::join")
def m_path_join(I, st, c):
    return one(st, pjoin(X(I, st, c, 0), X(I, st, c, 1)))


@model("PathBuf::pop", "Path::parent")
def m_path_parent(I, st, c):
    v = X(I, st, c, 0)
    pop = c.p.endswith("pop")
    if v.op == "pjoin" and len(v.a) > 1:
        p = T("pjoin", *v.a[:-1]) if len(v.a) > 2 else v.a[0]
        # The last component is a name (not empty or absolute), else this is unknown.
        last = v.a[-1]
        if last.op == "bytes" or models.class_of(I, st, last) is not None and not (models.class_of(I, st, last) & frozenset(b"/")):
            if pop:
                I.assign(st, c.args[0], p)
                return one(st, TRUE)
            return one(st, SOME(CREF(p)))
        q = pure("parent", v)
        if pop:
            I.assign(st, c.args[0], q)
            return one(st, TRUE)
        return one(st, SOME(CREF(q)))
    q = pure("parent", v)
    if pop:
        I.assign(st, c.args[0], q)
        return one(st, T("pure", "haspar", v))
    r = []
    for s, k in opt_cases(I, st, pure("parentopt", v)):
        r.append((s, SOME(CREF(q)) if k else NONE()))
    return r


@model("PathBuf::set_file_name", "PathBuf::set_extension", "Path::with_extension", "Path::with_file_name", "Path::file_name", "Path::extension", "Path::file_stem", "Path::is_absolute", "Path::is_relative", "Path::has_root", "Path::components", "Path::starts_with", "Path::ends_with", "Path::strip_prefix")
def m_path_misc(I, st, c):
    v = X(I, st, c, 0)
    m = c.p.rsplit("::", 1)[1]
    if m in ("set_file_name", "with_file_name") and v.op == "pjoin":
        p = T("pjoin", *v.a[:-1]) if len(v.a) > 2 else v.a[0]
        p = pjoin(p, X(I, st, c, 1))
    else:
        p = pure("path_" + m, *[X(I, st, c, i) for i in range(len(c.args))])
    if m.startswith("set_"):
        I.assign(st, c.args[0], p)
        return one(st, UNITV)
    return one(st, CREF(p) if c.retty[0] == "ref" else p)


@model("DirEntry::file_name", "DirEntry::path")
def m_dirent(I, st, c):
    v = X(I, st, c, 0)
    if c.p.endswith("path"):
        return one(st, T("pjoin", pure("dirof", v), pure("filename", v)))
    return one(st, pure("filename", v))


# ---- files -----------------------------------------------------------------------------------------
def fsop(name, n=1, pathonly=True):
    def f(I, st, c):
        a = [X(I, st, c, i) for i in range(len(c.args))]
        return effect(I, st, c, ("fs", name) + tuple(a))

    return f


for _f in (
    "remove_file", "create_dir_all", "create_dir", "hard_link", "rename", "remove_dir", "remove_dir_all", "set_permissions", "metadata", "symlink_metadata",
    "read_dir", "copy", "write", "read", "read_to_string", "canonicalize", "soft_link", "read_link", "exists",
):
    TABLE["fs::" + _f] = fsop(_f)
TABLE["unix::fs::symlink"] = fsop("symlink")
TABLE["fs::symlink"] = fsop("symlink")


@model("Path::metadata", "Path::symlink_metadata", "Path::read_dir", "Path::canonicalize", "Path::try_exists", "DirEntry::metadata", "DirEntry::file_type", "Path::read_link")
def m_path_meta(I, st, c):
    return effect(I, st, c, ("fs", c.p.rsplit("::", 1)[1], X(I, st, c, 0)))


@model("Path::is_file", "Path::exists", "Path::is_dir")
def m_is_file(I, st, c):
    b = callterm(I, st, c)
    event(I, st, c, "fs", c.p.rsplit("::", 1)[1], X(I, st, c, 0), "ok", b)
    return one(st, b)


@model("File::open", "File::create", "File::create_new")
def m_open(I, st, c):
    m = c.p.rsplit("::", 1)[1]
    fl = {"open": ("read",), "create": ("create", "truncate", "write"), "create_new": ("create_new", "read", "write")}[m]
    return do_open(I, st, c, fl, X(I, st, c, 0))


def do_open(I, st, c, flags, path):
    b = callterm(I, st, c)
    h = T("fld", b, 0, 0)
    out = []
    for s, r in effect_with(I, st, c, ("fs", "open", flags, path), h, T("fld", b, 1, 0)):
        if r.a[0][1] == 0:
            s.mem[("P", T("content", h))] = BYTES(b"") if ("truncate" in flags or "create_new" in flags) else T("pure", "content0", h)
            s.mem[("P", T("path", h))] = path
        out.append((s, r))
    return out


def effect_with(I, st, c, ev_, okv, errv):
    return fork2(I, st, c, ev_, okv, errv)


def builder(kind):
    def f(I, st, c):
        return one(st, T("builder", kind, ()))

    return f


TABLE["OpenOptions::new"] = builder("OpenOptions")
TABLE["File::options"] = builder("OpenOptions")
TABLE["tempfile::Builder::new"] = builder("Tempfile")
TABLE["DirBuilder::new"] = builder("DirBuilder")
TABLE["Builder::new"] = builder("Tempfile")


@model("Command::new")
def m_command(I, st, c):
    return one(st, T("builder", "Command", (("new", X(I, st, c, 0)),)))


@model(
    "OpenOptions::read", "OpenOptions::write", "OpenOptions::create", "OpenOptions::create_new", "OpenOptions::append", "OpenOptions::truncate",
    "OpenOptionsExt::mode", "OpenOptionsExt::custom_flags", "OpenOptions::mode",
    "Builder::prefix", "Builder::suffix", "Builder::rand_bytes", "Builder::append", "Builder::permissions", "Builder::keep", "Builder::disable_cleanup",
    "Command::arg", "Command::args", "Command::env", "Command::envs", "Command::env_clear", "Command::current_dir", "Command::stdin", "Command::stdout", "Command::stderr",
    "Command::env_remove", "CommandExt::arg0", "DirBuilder::recursive", "DirBuilderExt::mode",
)
def m_builder(I, st, c):
    p = c.args[0]
    v = X(I, st, c, 0)
    m = c.p.rsplit("::", 1)[1]
    args = tuple(I.deref_all(st, x) for x in c.args[1:])
    if m in ("mode", "permissions"):
        event(I, st, c, "mode", v.a[0], args[0])
    if v.op == "builder":
        n = T("builder", v.a[0], v.a[1] + ((m,) + args,))
    else:
        n = T("builder", "?", (("was", v), (m,) + args))
    I.assign(st, p, n)
    return one(st, p)


def bflags(v):
    """Which options a builder has on."""
    r = {}
    for e in v.a[1]:
        if len(e) == 2 and e[1].op == "int":
            r[e[0]] = e[1].a[0]
        else:
            r[e[0]] = e[1:]
    return r


@model("OpenOptions::open")
def m_oo_open(I, st, c):
    b = X(I, st, c, 0)
    if b.op == "builder":
        fl = tuple(sorted(k for k, v in bflags(b).items() if v == 1 or v.__class__ is tuple))
    else:
        fl = ("unknown",)
    return do_open(I, st, c, fl, X(I, st, c, 1))


NTF = "tempfile::file::NamedTempFile"
TP = "tempfile::file::TempPath"


def tmpname(I, b, t):
    f = bflags(b) if b.op == "builder" else {}
    one_ = lambda k: f[k][0] if f.get(k).__class__ is tuple else BYTES(b"")
    rb = f.get("rand_bytes", 6)
    return T("tmpname", T("pfx", f.get("prefix")[0] if f.get("prefix") else BYTES(b".tmp")), T("sfx", f.get("suffix")[0] if f.get("suffix") else BYTES(b"")), INT(rb if isinstance(rb, int) else 0), t)


@model("Builder::tempfile_in", "Builder::tempfile", "NamedTempFile::new_in", "NamedTempFile::new", "Builder::tempdir_in")
def m_tempfile(I, st, c):
    b = X(I, st, c, 0) if "Builder" in c.p else T("builder", "Tempfile", ())
    d = X(I, st, c, len(c.args) - 1) if c.p.endswith("_in") else pure("tmpdir")
    t = callterm(I, st, c)
    h = T("fld", t, 0, 0)
    path = pjoin(d, tmpname(I, b, h))
    val = T("agg", (NTF, 0), path, h)
    out = []
    for s, r in fork2(I, st, c, ("fs", "tempfile", d, path, h), val, T("fld", t, 1, 0)):
        if r.a[0][1] == 0:
            s.mem[("P", T("content", h))] = BYTES(b"")
            s.mem[("P", T("path", h))] = path
        out.append((s, r))
    return out


@model("Builder::make_in", "Builder::make")
def m_make_in(I, st, c):
    b = X(I, st, c, 0)
    d = X(I, st, c, 1) if c.p.endswith("_in") else pure("tmpdir")
    f = c.args[-1]
    t = callterm(I, st, c)
    path = pjoin(d, tmpname(I, b, t))
    out = []
    for s, r in call1(I, st, c, f, [CREF(path)]):
        for s2, k in I.cases(s, r, RES, 2):
            if k == 0:
                h = I.getfld(r, 0, 0)
                event(I, s2, c, "fs", "tempmake", d, path, h, "ok", h)
                out.append((s2, OK(T("agg", (NTF, 0), path, h))))
            else:
                out.append((s2, ERR(I.getfld(r, 1, 0))))
    return out


@model("NamedTempFile::path", "TempPath::deref", "TempPath::to_path_buf")
def m_ntf_path(I, st, c):
    v = X(I, st, c, 0)
    return one(st, CREF(I.getfld(v, 0, 0)))


@model("NamedTempFile::as_file_mut", "NamedTempFile::as_file")
def m_ntf_file(I, st, c):
    return one(st, proj_ref(I, st, c.args[0], ("f", 0, 1)) if c.p.endswith("mut") else CREF(I.getfld(X(I, st, c, 0), 0, 1)))


@model("NamedTempFile::into_temp_path", "NamedTempFile::into_parts", "NamedTempFile::reopen", "NamedTempFile::into_file")
def m_into_tp(I, st, c):
    v = X(I, st, c, 0)
    h, p = I.getfld(v, 0, 1), I.getfld(v, 0, 0)
    tp = T("agg", (TP, 0), p, h)
    if c.p.endswith("into_parts"):
        return one(st, TUP(h, tp))
    if c.p.endswith("into_temp_path"):
        return one(st, tp)
    if c.p.endswith("into_file"):
        event(I, st, c, "fs", "tmpdrop", p, h, "ok", UNITV)
        return one(st, h)
    return None


@model("NamedTempFile::from_parts", "TempPath::from_path")
def m_from_parts(I, st, c):
    if c.p.endswith("from_path"):
        return one(st, T("agg", (TP, 0), X(I, st, c, 0), T("nohandle")))
    return one(st, T("agg", (NTF, 0), I.getfld(c.args[1], 0, 0), c.args[0]))


@model("TempPath::persist", "NamedTempFile::persist", "TempPath::persist_noclobber", "NamedTempFile::persist_noclobber", "TempPath::keep", "NamedTempFile::keep", "TempPath::close", "NamedTempFile::close")
def m_persist(I, st, c):
    v = X(I, st, c, 0)
    m = c.p.rsplit("::", 1)[1]
    p, h = I.getfld(v, 0, 0), I.getfld(v, 0, 1)
    dst = X(I, st, c, 1) if len(c.args) > 1 else p
    t = callterm(I, st, c)
    okv = UNITV if "TempPath" in c.p and m != "keep" else (p if "TempPath" in c.p else h)
    # On failure the temporary file comes back in the error, and is removed when that is dropped.
    return fork2(I, st, c, ("fs", m, p, h, dst), okv, T("fld", t, 1, 0))


@model("File::metadata", "File::sync_all", "File::sync_data", "File::set_len", "File::set_permissions", "File::try_clone", "Seek::seek", "Seek::rewind", "File::lock")
def m_file_op(I, st, c):
    v = X(I, st, c, 0)
    return effect(I, st, c, ("fs", "file_" + c.p.rsplit("::", 1)[1], v) + tuple(X(I, st, c, i) for i in range(1, len(c.args))))


@model("Metadata::len", "Metadata::permissions", "Metadata::is_file", "Metadata::is_dir", "Metadata::uid", "MetadataExt::uid", "MetadataExt::gid", "MetadataExt::mode", "MetadataExt::ino", "PermissionsExt::mode", "Metadata::modified", "Metadata::created", "Metadata::file_type", "Metadata::mtime", "MetadataExt::mtime", "MetadataExt::size", "FileType::is_file", "FileType::is_dir", "MetadataExt::nlink", "Permissions::readonly", "MetadataExt::dev")
def m_meta(I, st, c):
    t = pure("meta_" + ("len" if c.p.endswith("::size") else c.p.rsplit("::", 1)[1]), X(I, st, c, 0))
    return one(st, I.note(t, c.retty))


@model("PermissionsExt::set_mode", "Permissions::set_readonly")
def m_set_mode(I, st, c):
    v = X(I, st, c, 0)
    I.assign(st, c.args[0], T("pure", "perm", c.p.rsplit("::", 1)[1], v, c.args[1]))
    return one(st, UNITV)


@model("PermissionsExt::from_mode")
def m_from_mode(I, st, c):
    return one(st, T("pure", "perm", "set_mode", NONE(), c.args[0]))


# ---- reading and writing --------------------------------------------------------------------------
def handle(I, st, v):
    x = I.deref_all(st, v)
    if x.op == "agg" and x.a[0][0] == NTF:
        return x.a[2]
    if x.op == "bufio":
        return handle(I, st, x.a[0])
    return x


def is_vecwriter(t):
    t = peel(t)
    return t[0] == "adt" and t[1] == "alloc::vec::Vec"


def wself(c):
    t = c.selfty or (c.argtys[0] if c.argtys else ("?",))
    while t[0] == "ref" or t[0] == "adt" and t[1] == "alloc::boxed::Box":
        t = t[2]
    return t


def traitcall(I, st, c, tag, trait, meth, recv, t, args, retty):
    d = {"p": trait + "::" + meth, "trait": trait, "a": [RAW(t)]}
    return I.callfn(st, c.fr, (c.fid, tag), d, {}, [recv] + args, [("ref", True, t)] + [("?",)] * len(args), retty, c.loc)


IOR = lambda t: ("adt", RES, t, ("adt", "core::io::error::Error"))
WR = "core::io::write::Write"
RD = "alloc::io::read::Read"


def dyn_type(I, st, v, t):
    """The concrete type behind a writer or reader, when known."""
    x = v
    for _ in range(6):
        if x.op == "dyn":
            return x.a[0]
        if x.op in ("ref", "cref", "box"):
            x = I.deref(st, x)
        else:
            break
    return t


def has_impl(I, t, trait, meth):
    fi = I.P.find_impl(trait, trait + "::" + meth, t)
    return fi is not None


def default_method(I, st, c, trait):
    """Whether this is a provided method of a trait on a workspace type."""
    t = dyn_type(I, st, c.args[0], wself(c))
    while t[0] == "ref" or t[0] == "adt" and t[1] == "alloc::boxed::Box":
        t = t[2]
    if I.P.find_impl(trait, trait + "::write" if trait == WR else trait + "::read", t) is not None:
        return t
    return None


@model("Write::write_fmt")
def m_write_fmt(I, st, c):
    if c.p.startswith("core::fmt"):
        return TABLE["fmt::Write::write_fmt"](I, st, c)
    t = dyn_type(I, st, c.args[0], wself(c))
    r = []
    for s, x in render(I, st, c, c.args[1]):
        r += traitcall(I, s, c, "wf", WR, "write_all", c.args[0], t, [CREF(x)], IOR(("tuple",)))
    return r


@model("Write::write_all", "Write::write", "Write::write_vectored")
def m_write_all(I, st, c):
    t = default_method(I, st, c, WR)
    one_shot = not c.p.endswith("write_all")
    x = as_content(X(I, st, c, 1))
    if t is not None and not one_shot:
        # The provided write_all: calls write until everything is written.
        return write_all_loop(I, st, c, t, x)
    v = X(I, st, c, 0)
    if is_vecwriter(wself(c)) or v.op in ("cat",) and v.op == "cat":
        I.assign(st, c.args[0], cat(v, x))
        return one(st, OK(LEN(x) if one_shot else UNITV))
    if v.op == "hash":
        # The digest crate's Write: takes everything and cannot fail.
        I.assign(st, c.args[0], T("hash", v.a[0], cat(v.a[1], x)))
        return one(st, OK(LEN(x) if one_shot else UNITV))
    h = handle(I, st, c.args[0])
    b = callterm(I, st, c)
    if one_shot:
        n = I.note(T("fld", b, 0, 0), ("usize",))
    out = []
    okv = n if one_shot else UNITV
    for s, r in fork2(I, st, c, ("write", h, x, "write" if one_shot else "write_all"), okv, T("fld", b, 1, 0)):
        ck = ("P", T("content", h))
        if r.a[0][1] == 0:
            if one_shot:
                I.add_ge(s, lin_add(lin(LEN(x)), lin(n), -1))
                y = I.mkslice(x, INT(0), n)
            else:
                y = x
            if ck in s.mem:
                s.mem[ck] = cat(s.mem[ck], y)
        elif ck in s.mem:
            s.mem[ck] = cat(s.mem[ck], T("partof", x))
        out.append((s, r))
    return out


def write_all_loop(I, st, c, t, x):
    """while !buf.is_empty() { n = write(buf)?; 0 => error; buf = &buf[n..] }"""
    cell = (c.fid, "wpos")
    st.mem[cell] = INT(0)
    fr = Frame(c.fr.body, c.fr.sub, c.fid, c.fr)
    fr.site = c.loc
    seen = {}
    work = [st]
    out = []
    n = LEN(x)
    while work:
        s = work.pop(0)
        I.gc(s, (x,))
        s = I.widen(fr, "wal", s, seen)
        if s is None:
            continue
        s = s.fork()
        p = s.mem[cell]
        for val in (True, False):
            s2 = s.fork()
            if not I.assume(s2, LT(p, n), val):
                continue
            if not val:
                s2.mem.pop(cell)
                out.append((s2, OK(UNITV)))
                continue
            for s3, r in traitcall(I, s2, c, "wal", WR, "write", c.args[0], t, [CREF(I.mkslice(x, p, n))], IOR(("usize",))):
                for s4, k in I.cases(s3, r, RES, 2):
                    if k == 1:
                        s4.mem.pop(cell)
                        out.append((s4, ERR(I.getfld(r, 1, 0))))
                        continue
                    m = I.note(I.getfld(r, 0, 0), ("usize",))
                    for z in (True, False):
                        s5 = s4.fork()
                        if not I.assume(s5, EQ(m, INT(0)), z):
                            continue
                        if z:
                            s5.mem.pop(cell)
                            out.append((s5, ERR(T("pure", "ioerr", "WriteZero"))))
                        else:
                            np = ADD(p, m)
                            if np.op != "int":
                                I.note(np, ("usize",))
                            s5.mem[cell] = np
                            work.append(s5)
    return out


@model("Write::flush")
def m_flush(I, st, c):
    h = handle(I, st, c.args[0])
    if is_vecwriter(wself(c)):
        return one(st, OK(UNITV))
    return effect(I, st, c, ("flush", h))


@model("Write::by_ref", "Read::by_ref")
def m_io_by_ref(I, st, c):
    return one(st, c.args[0])


@model("BufReader::new", "BufWriter::new", "LineWriter::new", "BufReader::with_capacity", "BufWriter::with_capacity")
def m_bufio(I, st, c):
    return one(st, T("bufio", c.args[-1]))


@model("stdio::stdin", "stdio::stdout", "stdio::stderr")
def m_std(I, st, c):
    return one(st, T("std", c.p.rsplit("::", 1)[1]))


@model("Stdin::lock", "Stdout::lock", "Stderr::lock")
def m_std_lock(I, st, c):
    return one(st, X(I, st, c, 0))


def fill(I, st, c, ref, v, n=None):
    """Reading into a buffer: its contents become new bytes, all of it or the first n."""
    if n is None:
        I.assign(st, ref, v)
        return
    cur = I.deref_all(st, ref)
    if n is LEN(cur):
        I.assign(st, ref, v)
        return
    base = ref
    new = I.setproj(cur, [("s", INT(0), n)], v)
    I.assign(st, ref, new)


@model("Read::read", "Read::read_exact")
def m_read(I, st, c):
    t = default_method(I, st, c, RD)
    exact = c.p.endswith("read_exact")
    buf = c.args[1]
    while buf.op == "dyn":
        buf = buf.a[1]
    V = I.deref_all(st, buf)
    n = LEN(V)
    if exact and t is not None:
        return read_exact_loop(I, st, c, t, buf, V, n)
    h = handle(I, st, c.args[0])
    b = callterm(I, st, c)
    data = T("data", b)
    out = []
    if exact:
        if n.op != "int":
            I.note(n, ("usize",))
        L = LEN(data)
        for s, r in fork2(I, st, c, ("read", h, data, n, "exact"), UNITV, T("fld", b, 1, 0)):
            if r.a[0][1] == 0:
                I.assume(s, EQ(L, n), True)
                fill(I, s, c, buf, data)
            else:
                fill(I, s, c, buf, T("partial", b))
            out.append((s, r))
        return out
    L = I.note(LEN(data), ("usize",))
    for s, r in fork2(I, st, c, ("read", h, data, n, "some"), L, T("fld", b, 1, 0)):
        if r.a[0][1] == 0:
            I.add_ge(s, lin_add(lin(n), lin(L), -1))
            fill(I, s, c, buf, data, L)
        else:
            fill(I, s, c, buf, T("partial", b))
        out.append((s, r))
    return out


def read_exact_loop(I, st, c, t, buf, V, n):
    return None


@model("Read::read_to_end", "Read::read_to_string")
def m_read_to_end(I, st, c):
    t = default_method(I, st, c, RD)
    if t is not None:
        return copy_loop(I, st, c, c.args[0], t, c.args[1], ("adt", "alloc::vec::Vec", ("u8",)), "rte")
    h = handle(I, st, c.args[0])
    b = callterm(I, st, c)
    data = T("data", b)
    out = []
    for s, r in fork2(I, st, c, ("read", h, data, NONE(), "to_end"), I.note(LEN(data), ("usize",)), T("fld", b, 1, 0)):
        cur = I.deref_all(s, c.args[1])
        if r.a[0][1] == 0:
            I.assign(s, c.args[1], cat(cur, data))
        else:
            I.assign(s, c.args[1], cat(cur, T("partial", b)))
        out.append((s, r))
    return out


@model("copy::copy", "io::copy")
def m_copy(I, st, c):
    return copy_loop(I, st, c, c.args[0], c.targs[0], c.args[1], c.targs[1], "copy")


def copy_loop(I, st, c, rd, rt, wr, wt, tag):
    bc, tc = (c.fid, "buf"), (c.fid, "total")
    st.mem[tc] = INT(0)
    fr = Frame(c.fr.body, c.fr.sub, c.fid, c.fr)
    fr.site = c.loc
    seen = {}
    work = [st]
    out = []

    def fin(s, r):
        s.mem.pop(bc, None)
        s.mem.pop(tc, None)
        out.append((s, r))

    while work:
        s = work.pop(0)
        s.mem[bc] = T("rep", INT(0), INT(8192))
        I.gc(s)
        s = I.widen(fr, tag, s, seen)
        if s is None:
            continue
        s = s.fork()
        I.fuel -= 1
        for s2, r in traitcall(I, s, c, "rd", RD, "read", rd, rt, [T("ref", bc, ())], IOR(("usize",))):
            for s3, k in I.cases(s2, r, RES, 2):
                if k == 1:
                    fin(s3, ERR(I.getfld(r, 1, 0)))
                    continue
                n = I.note(I.getfld(r, 0, 0), ("usize",))
                for z in (True, False):
                    s4 = s3.fork()
                    if not I.assume(s4, EQ(n, INT(0)), z):
                        continue
                    if z:
                        fin(s4, OK(s4.mem[tc]))
                        continue
                    chunk = I.mkslice(s4.mem[bc], INT(0), n)
                    for s5, w in traitcall(I, s4, c, "wr", WR, "write_all", wr, wt, [CREF(chunk)], IOR(("tuple",))):
                        for s6, k2 in I.cases(s5, w, RES, 2):
                            if k2 == 1:
                                fin(s6, ERR(I.getfld(w, 1, 0)))
                                continue
                            s6.mem[tc] = I.note(ADD(s6.mem[tc], n), ("u64",))
                            work.append(s6)
    return out


# ---- digests ----------------------------------------------------------------------------------------
def digest_alg(c):
    t = c.targs[0] if c.targs else ("?",)
    while t[0] == "ref":
        t = t[2]
    return show_digest(t)


def show_digest(t):
    if t[0] == "adt":
        inner = [show_digest(x) for x in t[2:] if x.__class__ is tuple and x[0] == "adt"]
        return t[1] + ("<" + ",".join(inner) + ">" if inner else "")
    return t[0]


@model("Digest::new", "Update::new")
def m_digest_new(I, st, c):
    return one(st, T("hash", digest_alg(c), BYTES(b"")))


@model("Digest::update", "Update::update", "Digest::chain_update", "Update::chain")
def m_digest_update(I, st, c):
    v = X(I, st, c, 0)
    x = as_content(X(I, st, c, 1))
    if v.op == "hash":
        n = T("hash", v.a[0], cat(v.a[1], x))
    elif v.op == "fld" or v.op in ("w", "call", "deref"):
        n = T("hash", T("hashof", v), x)
    else:
        n = T("hash", "?", T("top"))
    if "chain" in c.p:
        return one(st, n)
    I.assign(st, c.args[0], n)
    return one(st, UNITV)


@model("Digest::finalize", "Digest::finalize_reset", "FixedOutput::finalize_fixed")
def m_finalize(I, st, c):
    v = X(I, st, c, 0)
    if v.op != "hash":
        return one(st, pure("digest", "?", v))
    return one(st, pure("digest", v.a[0], v.a[1]))


@model("Digest::digest")
def m_digest(I, st, c):
    return one(st, pure("digest", digest_alg(c), as_content(X(I, st, c, 0))))


# ---- errors -----------------------------------------------------------------------------------------
@model("io::error::Error::kind", "Error::kind")
def m_kind(I, st, c):
    v = X(I, st, c, 0)
    if v.op == "pure" and v.a[0] == "ioerror":
        return one(st, v.a[1])
    return one(st, pure("kind", v))


@model("io::error::Error::new", "Error::new", "io::error::Error::other", "Error::other")
def m_ioerr_new(I, st, c):
    if c.p.startswith("core::io") or c.p.startswith("std::io"):
        if c.p.endswith("other"):
            return one(st, T("pure", "ioerror", T("konst", "Other"), c.args[0]))
        return one(st, T("pure", "ioerror", c.args[0], c.args[1]))
    return one(st, T("pure", short(c.p), *[I.deref_all(st, x) for x in c.args]))


@model("Error::raw_os_error", "io::error::Error::raw_os_error", "Error::get_ref", "Error::into_inner", "Error::last_os_error", "Error::from_raw_os_error")
def m_ioerr_misc(I, st, c):
    return one(st, T("pure", short(c.p), *[I.deref_all(st, x) for x in c.args]))


def downcast(I, st, c, v):
    """The dynamic type behind a trait object."""
    x = v
    for _ in range(6):
        if x.op == "dyn":
            return x
        if x.op in ("ref", "cref", "box"):
            x = I.deref(st, x)
        else:
            return None
    return None


@model("Error::downcast_ref", "Error::is", "Any::downcast_ref", "Any::downcast_mut", "Any::is", "Error::downcast_mut", "Box::downcast", "Error::downcast")
def m_downcast(I, st, c):
    d = downcast(I, st, c, c.args[0])
    want = c.targs[-1] if c.targs else ("?",)
    m = c.p.rsplit("::", 1)[1]
    if d is not None and d.a[0][0] != "dyn":
        same = d.a[0] == want
        if m == "is":
            return one(st, TRUE if same else FALSE)
        if m == "downcast":
            return one(st, OK(d.a[1]) if same else ERR(c.args[0]))
        if not same:
            return one(st, NONE())
        p = c.args[0]
        if m == "downcast_mut":
            q = p
            for _ in range(6):
                while q.op == "dyn":
                    q = q.a[1]
                if q.op != "ref":
                    break
                x = I.deref(st, q)
                y = x
                while y.op == "dyn":
                    y = y.a[1]
                if y.op == "ref":
                    q = y
                elif y.op == "box":
                    q = T("ref", q.a[0], q.a[1] + (("b",),))
                else:
                    break
            return one(st, SOME(q))
        return one(st, SOME(CREF(strip(I.deref_all(st, d.a[1])))))
    t = pure("downcast", X(I, st, c, 0), head(want))
    if m == "is":
        return one(st, T("isvar", t, (OPT, 1)))
    return one(st, t)


# ---- processes and the environment -----------------------------------------------------------------
@model("process::exit", "process::abort")
def m_exit(I, st, c):
    event(I, st, c, "exit", c.args[0] if c.args else INT(134))
    return []


@model("panicking::panic", "panicking::panic_fmt", "panicking::unreachable_display", "panicking::panic_display", "panicking::assert_failed", "panicking::panic_explicit", "panicking::unimplemented_default_msg", "rt::begin_panic", "panicking::panic_str", "option::unwrap_failed", "panicking::begin_panic", "panicking::unreachable_display_str", "panicking::panic_nounwind", "panicking::todo", "panicking::todo_default_msg")
def m_panic(I, st, c):
    if c.retty[0] not in ("never", "!", "other") and "default_msg" in c.p:
        return None
    I.M.on_panic(st, c, "panic", c.args[0] if c.args else None)
    return []


@model("Command::spawn", "Command::status", "Command::output", "CommandExt::exec")
def m_spawn(I, st, c):
    v = X(I, st, c, 0)
    m = c.p.rsplit("::", 1)[1]
    if m == "exec":
        b = callterm(I, st, c)
        event(I, st, c, "proc", m, v, "err", b)
        return one(st, b)
    return effect(I, st, c, ("proc", m, v))


@model("Child::wait", "Child::wait_with_output", "Child::kill", "Child::try_wait")
def m_wait(I, st, c):
    return effect(I, st, c, ("proc", c.p.rsplit("::", 1)[1], X(I, st, c, 0)))


@model("ExitStatus::code", "ExitStatus::success", "ExitStatusExt::signal")
def m_status(I, st, c):
    t = pure("status_" + c.p.rsplit("::", 1)[1], X(I, st, c, 0))
    return one(st, t)


@model("Stdio::piped", "Stdio::null", "Stdio::inherit")
def m_stdio(I, st, c):
    return one(st, T("stdio", c.p.rsplit("::", 1)[1]))


@model("stdio::_eprint", "stdio::_print")
def m_print(I, st, c):
    r = []
    for s, x in render(I, st, c, c.args[0]):
        event(I, s, c, "write", T("std", "stderr" if "eprint" in c.p else "stdout"), x, "print", "ok", UNITV)
        r.append((s, UNITV))
    return r


@model("env::var_os", "env::var", "env::current_dir", "env::args_os", "env::args", "env::temp_dir")
def m_env(I, st, c):
    return one(st, pure(short(c.p), *[I.deref_all(st, x) for x in c.args]))


@model("unix::umask", "unix::isatty", "unix::getuid", "unix::geteuid", "unix::signal", "unix::getpid")
def m_libc(I, st, c):
    b = callterm(I, st, c)
    if c.p.endswith("getuid") or c.p.endswith("geteuid"):
        b = pure(short(c.p))
    event(I, st, c, "libc", c.p.rsplit("::", 1)[1], tuple(c.args), b)
    return one(st, I.note(b, c.retty))


@model("SystemTime::now", "Instant::now", "Utc::now")
def m_now(I, st, c):
    b = callterm(I, st, c)
    event(I, st, c, "now", b)
    return one(st, b)


# What chrono can represent; the system clock is assumed to be within it.
EARLIEST, LATEST = -8334601228800, 8210266876799


def within(I, st, x, assume):
    """Whether a timestamp is one that can be represented; or makes it one."""
    fs = [lin_add(lin(x), ({}, EARLIEST), -1), lin_add(({}, LATEST), lin(x), -1)]
    if assume:
        for f in fs:
            I.add_ge(st, f)
    return all(I.prove_ge(st, f) for f in fs)


@model("Duration::as_secs")
def m_as_secs(I, st, c):
    t = pure("as_secs", X(I, st, c, 0))
    I.note(t, c.retty)
    if any(x.op == "pure" and str(x.a[0]).split("::")[-1] in ("duration_since", "duration") for x in subterms(t)):
        within(I, st, t, True)
    return one(st, t)


LRES = "chrono::offset::LocalResult"


@model("TimeZone::timestamp_opt", "TimeZone::timestamp")
def m_timestamp_opt(I, st, c):
    x, ns = X(I, st, c, 1), X(I, st, c, 2)
    t = pure("timestamp_opt", X(I, st, c, 0), x, ns)
    r = []
    s = st.fork()
    if ns.op == "int" and ns.a[0] < 1000000000 and I.P.variant_index(LRES, "Single") is not None:
        if not within(I, st, x, False):
            if I.set_variant(s, t, I.P.variant_index(LRES, "None"), LRES):
                r.append((s, t))
            s = st.fork()
            within(I, s, x, True)
        I.set_variant(s, t, I.P.variant_index(LRES, "Single"), LRES)
    r.append((s, t))
    if c.p.endswith("timestamp"):
        if len(r) > 1 or s.facts.get(("var", t)) is None:
            I.M.on_panic(r[0][0], c, "timestamp", x)
        return [(s, pure("single", t))]
    return r


@model("ArgMatches::value_of")
def m_value_of(I, st, c):
    I.M.on_panic(st, c, "value_of", X(I, st, c, 0))
    return m_pure(I, st, c)


@model("LocalResult::single", "LocalResult::unwrap", "LocalResult::earliest", "LocalResult::latest")
def m_localresult(I, st, c):
    v = X(I, st, c, 0)
    r = []
    m = c.p.rsplit("::", 1)[1]
    for s, k in I.cases(st, v, "chrono::offset::LocalResult", 2):
        if m == "unwrap":
            if k == 1:
                r.append((s, pure("single", v)))
            else:
                I.M.on_panic(s, c, "unwrap", v)
        else:
            r.append((s, SOME(pure("single", v)) if k else NONE()))
    return r


PURE = {
    "DateTime::to_rfc3339", "DateTime::to_rfc3339_opts", "DateTime::format", "DateTime::from_timestamp", "Duration::as_millis",
    "Duration::from_secs", "Duration::subsec_nanos", "Duration::as_nanos", "Duration::as_secs_f64",
    "SystemTime::duration_since", "SystemTimeError::duration", "Passwd::from_uid", "Passwd::current_user", "ArgMatches::is_present", "ArgMatches::value_of_os",
    "ArgMatches::values_of", "ArgMatches::subcommand", "Arg::with_name", "Arg::help", "Arg::long", "Arg::short", "Arg::required", "Arg::takes_value", "Arg::possible_values", "Arg::multiple", "Arg::index", "Arg::value_name", "Arg::conflicts_with", "Arg::allow_hyphen_values", "Arg::default_value", "Arg::possible_value", "Arg::overrides_with",
    "App::new", "App::about", "App::arg", "App::setting", "App::get_matches", "App::version", "App::args", "App::get_matches_from",
    "Commit::author", "Commit::committer", "Commit::id", "Commit::message_bytes", "Commit::time", "Commit::message", "Commit::message_raw_bytes", "Commit::summary_bytes", "Commit::summary", "Commit::parent_count", "Error::class", "Error::code", "Error::message",
    "Object::id", "Reference::name_bytes", "Reference::name", "Reference::shorthand_bytes", "Reference::shorthand", "Reference::target", "Reference::kind", "Reference::is_branch", "Reference::is_remote", "Reference::is_tag", "ReflogEntry::message_bytes", "ReflogEntry::message", "ReflogEntry::id_new", "ReflogEntry::id_old", "Repository::path", "Repository::is_bare", "Repository::workdir", "Repository::commondir",
    "Signature::when", "Signature::name_bytes", "Time::seconds", "Time::offset_minutes", "Sort::from_bits", "Sort::bits", "Sort::empty", "AsRawFd::as_raw_fd", "Sort::from_bits_truncate", "Oid::as_bytes", "Object::short_id", "Object::kind",
    "Regex::is_match", "Match::start", "Reflog::len", "Reflog::iter", "Reflog::get",
    "MaybeUninit::uninit", "Any::type_id", "Error::source", "Error::description", "type_name", "Display::display", "Regex::find",
}
for _p in PURE:
    TABLE.setdefault(_p, None)


def m_pure(I, st, c):
    t = pure(short(c.p), *[I.deref_all(st, x) for x in c.args])
    I.note(t, c.retty)
    if c.retty[0] == "ref":
        return one(st, CREF(t))
    return one(st, t)


for _p in PURE:
    if TABLE.get(_p) is None:
        TABLE[_p] = m_pure

# git2 and others: reads of a repository that can fail.
QUERY = {
    "Reference::peel_to_commit", "Reference::peel", "Reference::resolve", "Repository::config", "Repository::discover", "Repository::find_commit", "Repository::open", "Repository::references", "Repository::references_glob", "Repository::branches",
    "Repository::reflog", "Repository::revparse_ext", "Repository::revparse_single", "Repository::revwalk", "Repository::find_reference", "Repository::head", "Repository::find_object", "Revwalk::push", "Revwalk::set_sorting", "Revwalk::push_head", "Revwalk::push_ref", "Revwalk::hide", "Revwalk::simplify_first_parent", "Revwalk::push_glob",
    "Config::get_bool", "Config::get_string", "Config::get_path", "Config::get_i32", "Config::get_i64", "Config::get_str", "Config::get_entry", "Config::snapshot", "Config::open_default",
    "Regex::new", "Object::peel_to_commit", "Object::peel", "Repository::open_from_env", "Repository::open_ext", "RegexBuilder::build",
}


def m_query(I, st, c):
    a = [I.deref_all(st, x) for x in c.args]
    return effect(I, st, c, ("query", short(c.p)) + tuple(a))


for _p in QUERY:
    TABLE[_p] = m_query


@model("Formatter::debug_c_like_enum_write_str", "Formatter::debug_struct_field2_finish", "Formatter::debug_struct_field3_finish", "Formatter::debug_tuple_field1_finish", "Formatter::debug_struct_field1_finish", "Formatter::debug_tuple_field2_finish", "Formatter::debug_struct_fields_finish")
def m_debug(I, st, c):
    return one(st, OK(UNITV))


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def m_fncall(I, st, c):
    tup = c.args[1]
    t = c.argtys[1] if len(c.argtys) > 1 else ("tuple",)
    if tup.op == "agg":
        a = list(tup.a[1:])
    else:
        a = [I.getfld(tup, 0, i) for i in range(len(t) - 1)]
    f = c.args[0]
    for _ in range(5):
        if f.op == "dyn":
            f = f.a[1]
        elif f.op in ("ref", "cref", "box"):
            f = I.deref(st, f)
        else:
            break
    if f.op == "agg" and f.a[0][0] == "closure" or f.op == "fn":
        return I.call_value(st, c.fr, (c.fid, "call"), f, a, c.retty, c.loc)
    return None


_short = {}


class Models(object):
    absorb = staticmethod(absorb)

    """Finds the transfer function for a library call."""

    def find(self, c):
        for k in (c.p, short(c.p), short(c.res), c.res):
            m = TABLE.get(k)
            if m is not None:
                return m
        n = c.p.split("::")
        if len(n) >= 2 and ((n[-2],)[0] in UNSIGNED or n[-2] in SIGNED):
            return _int_method
        # PathBuf, OsString and String share methods with what they dereference to.
        return None

    def default(self, I, st, c):
        """An unknown function: gives an unknown result and may change what it can reach mutably."""
        I.stats["unmodelled"].setdefault(c.p, set()).add(c.fr.body.p)
        b = callterm(I, st, c)
        for i, a in enumerate(c.args):
            p = a
            while p.op == "dyn":
                p = p.a[1]
            if p.op == "ref":
                I.assign(st, p, I.fresh(st, T("out", c.fid, c.p, i)))
        t = c.retty
        if t[0] == "never":
            I.M.on_panic(st, c, "diverges", None)
            return []
        if not event(I, st, c, "unknown", c.p, b):
            return []
        if t[0] == "ref":
            return one(st, CREF(I.note(T("deref", b), t[2])))
        return one(st, I.note(b, t))


import models as _m

_m.to_iter = to_iter
_m.drive = drive
_m.mapget = mapget
