"""C15: paging through the lock list shows every lock exactly once.

The entries of the lock directory must be sorted by name (which is the ID) before any is listed, and
nothing may reverse them or leave some out: an iterator over them starts at the first and advances by one
between looks at an entry, and it ends only after the last; a lock is passed over only where its ID was
found to sort before the cursor, and kept only where it doesn't.  If one more than k locks are taken, k
is at most 100, at least 1 and at most the limit requested, at most the first k of them are shown, and
next-cursor is sent exactly where there are more than k and is the ID of the one after them.  A query for
one path answers with its lock only where the ID doesn't sort before the cursor, and without only where
it does."""
from locks import *

PAGE = ("P", T("c15", "page"))
ITER = " as core::iter::traits::iterator::Iterator>::next"
CUTS = ("truncate", "pop", "split_off", "remove", "drain", "split_at", "get", "split_last", "chunks", "swap_remove", "first", "last", "enumerate", "zip", "next")


def is_cursor(t):
    return any(is_pure(x, "mapget") and x.a[2].op == "bytes" and x.a[2].a[0] == b"cursor" or x.op == "mapget" and any(str(y) == "'cursor'" for y in x.a) for x in subs(t))


def is_limit(t):
    return "'limit'" in str(t) and any(x.op == "parse" or is_pure(x, "parse") for x in subs(t))


def is_entry(t):
    return mentions(t, "filename") or any(is_pure(x, "filename") for x in subs(t))


class R(Locks):
    limits = False

    def listing(self, st):
        return mget(st, "cmd") == "list-lock"

    def event(self, I, st, c, ev):
        if ev[0] == "rd" and ev[1] == "packet" and ev[2] == "flush":
            st.mem.pop(PAGE, None)
        if not self.listing(st):
            return not (self.limits and mget(st, "cmd"))
        if ev[0] == "fs" and ev[1] == "read_dir" and ev[-2] == "ok":
            mset(st, "dir", "unsorted")
        elif ev[0] == "sort":
            self.ctx.count("sorts judged")
            self.sort(I, st, c, ev[1], ev[2], ev[3])
        elif ev[0] == "adapt":
            self.adapt(I, st, c, ev)
            if self.limits and PAGE in st.mem:
                # That's all that this pass is for.
                return False
        elif ev[0] in ("kept", "left"):
            self.judged(I, st, c, ev)
        elif ev[0] == "out" and ev[1] == "data" and ev[3] == "ok" and mget(st, "ph", 0):
            self.line(I, st, c, bare(ev[2]))
        elif ev[0] == "out" and ev[1] == "flush" and ev[3] == "ok":
            self.answered(I, st, c)
        return True

    def on_lock(self, st, fr, t, path, time, owner):
        if mget(st, "dir") == "unsorted":
            mset(st, "early", True)

    def sort(self, I, st, c, how, seq, f):
        if not (mentions(seq, "elem") or mentions(seq, "w") or mentions(seq, "hole")) or mget(st, "dir") is None:
            return
        x = T("elem", T("param", 7001))
        y = T("elem", T("param", 7002))
        k = how.replace("_unstable", "").replace("_cached", "")
        good = None
        if k == "sort":
            good = True
        elif k in ("sort_by_key", "sort_by"):
            from models import call1
            good = False
            s = st.fork()
            for s2, v in call1(I, s, c, f, [CREF(x)] if k == "sort_by_key" else [CREF(x), CREF(y)], 77):
                v = bare(v)
                if k == "sort_by_key":
                    good = self.key_of(v, x)
                else:
                    fs = [z for z in subs(v) if is_pure(z, "filename") or is_pure(z, "hexenc")]
                    good = None
                    if v.op == "pure" and v.a[0] in ("cmp", "bytescmp") or v.op in ("cmp",):
                        a = [z for z in v.a if z.__class__ is Term]
                        good = len(a) == 2 and self.key_of(a[0], x) and self.key_of(a[1], y)
                    elif not fs:
                        good = False
        else:
            # Duplicates removed, or some left out.
            return
        if good is False:
            self.fail(c, "order", "the locks are sorted by something other than their names, in increasing order: %s %s" % (how, short(f, 120)))
        elif good is None:
            self.ctx.notes.append("an order of the locks that isn't understood: %s %s" % (how, short(f, 120)))
        mset(st, "dir", "sorted")

    def key_of(self, v, x):
        """Whether a sort key is the name of the entry, or the ID of the lock."""
        v = bare(v)
        while v.op == "pure" and v.a[0] in ("lossy", "utf8ok", "osstr"):
            v = bare(v.a[1])
        if is_pure(v, "filename"):
            return x in set(subs(v))
        if hash_id(v):
            return True
        if mentions(v, "pjoin") or any(is_pure(y, "entrypath") for y in subs(v)):
            return None
        return False

    def locks_in(self, t):
        return any(x.op == "dyn" and "ock" in str(x.a[0]) for x in subs(t))

    def adapt(self, I, st, c, ev):
        how, base, more = ev[1], ev[2], ev[4:]
        entries = is_entry(base) or any("read_dir" in str(x.a) for x in subs(base) if x.op == "call")
        locks = self.locks_in(base)
        if not entries and not locks:
            return
        self.ctx.count("adapters judged")
        self.ctx.site("iterator adapters", c.fr.body.p, c.loc)
        if how == "rev":
            self.fail(c, "order", "the locks are gone through in reverse")
        elif how in ("skip", "step_by") and more and not (more[0].op == "int" and more[0].a[0] == (0 if how == "skip" else 1)):
            if base.op != "seq" or not locks:
                self.fail(c, "gap", "locks are left out of a list: %s %s" % (how, short(more[0], 80)))
        elif how == "take" and more:
            n = more[0]
            if base.op == "seq" and locks:
                self.shown(I, st, c, n, base)
            else:
                a, k = lin(n)
                one = list(a.items())
                st.mem[PAGE] = one[0][0] if k == 1 and len(one) == 1 and one[0][1] == 1 else ADD(n, INT(-1))
                self.bound(I, st, c, n)

    def page(self, st):
        n = st.mem.get(PAGE)
        return None if n is None else lin(n)

    def same(self, I, st, l, m):
        d = lin_add(l, m, -1)
        if not d[0]:
            return d[1] == 0
        return True if I.prove_ge(st, d) and I.prove_ge(st, lin_add(({}, 0), d, -1)) else None

    def bound(self, I, st, c, n):
        b = self.page(st)
        self.ctx.count("page sizes judged")
        if not I.prove_ge(st, lin_add(({}, 100), b, -1)):
            self.fail(c, "limit", "a page may hold more than 100 locks: one less than %s" % short(n, 160))
        if not I.prove_ge(st, lin_add(b, ({}, 1), -1)):
            self.fail(c, "empty", "a page may hold no lock at all: one less than %s" % short(n, 160))
        if mget(st, "lim") == "small" and not b[0]:
            self.fail(c, "limit", "a page holds %d locks though fewer were asked for" % b[1])

    def shown(self, I, st, c, n, seq):
        p = self.page(st)
        if p is None:
            return
        mset(st, "shown", True)
        if self.same(I, st, lin(n), p) is False:
            self.fail(c, "shown", "%s locks are shown of a page of %s" % (short(n, 80), short(st.mem[PAGE], 80)))

    def on_assume(self, st, c, val):
        if not self.listing(st):
            return True
        I = self.I
        if c.op in ("lt", "eq") and any(x.op == "int" for x in c.a) and PAGE not in st.mem:
            k = [x for x in c.a if x.op == "int"][0].a[0]
            if self.limits and k and any(is_limit(x) for x in c.a):
                # Whether the limit asked for is below the maximum.
                if c.op == "lt":
                    small = val if c.a[1].op == "int" else not val
                    mset(st, "lim", "small" if small else None)
        if c.op == "lt" and mget(st, "dir") is None:
            for a, b, o in ((c.a[0], c.a[1], "lt"), (c.a[1], c.a[0], "gt")):
                if hash_id(a) and is_cursor(b):
                    self.ctx.count("comparisons with the cursor in queries for one path")
                    mset(st, "cur", ("before" if val else "not before") if o == "lt" else ("not before" if val else "not after"))
        if c.op in ("lt", "eq") and PAGE in st.mem:
            for x in c.a:
                for s in lin(x)[0]:
                    if s.op == "len" and s.a[0].op in ("seq", "w") and (self.locks_in(s.a[0]) or s.a[0].op == "w"):
                        p = self.page(st)
                        l = lin(s)
                        more = I.prove_ge(st, lin_add(lin_add(l, p, -1), ({}, 1), -1))
                        full = I.prove_ge(st, lin_add(p, l, -1))
                        if self.locks_in(s.a[0]) or more or full:
                            if not more and not full and val is False and c.op == "eq" and x is s:
                                # It can't be more than what was taken, so if it isn't that, it's less.
                                o = [y for y in c.a if y is not x]
                                full = bool(o) and self.same(I, st, lin(o[0]), lin_add(p, ({}, 1), 1)) is True
                            pages = set(p[0])
                            if more or full:
                                mset(st, "more", "yes" if more else "no")
                            elif pages and any(pages & set(lin(y)[0]) for y in c.a):
                                mset(st, "more", "maybe")
        return True

    def judged(self, I, st, c, ev):
        kind, how, v = ev
        v = bare(v)
        if not self.locks_in(v) or not (v.op == "agg" and v.a[0][1] == 0 and len(v.a) == 2 or v.op == "dyn"):
            return
        self.ctx.count("decisions about locks judged")
        mine = set(subs(v))
        known = set()
        asked = False
        for f, val in st.facts.items():
            if f[0] == "tr" and f[1].op == "lt":
                for a, b, o in ((f[1].a[0], f[1].a[1], "lt"), (f[1].a[1], f[1].a[0], "gt")):
                    h = hash_id(a)
                    if h and h[1] in mine and is_cursor(b):
                        known.add((o, val))
            if f[0] == "var" and is_cursor(f[1]) and val == 1:
                asked = True
        if kind == "left" and ("lt", True) not in known:
            self.fail(c, "gap", "a lock is left out that wasn't found to sort before the cursor (%s)" % how)
        if kind == "kept" and ("lt", True) in known:
            self.fail(c, "again", "a lock is listed though its ID sorts before the cursor (%s)" % how)
        if kind == "kept" and asked and not known and how != "filter_map":
            self.fail(c, "again", "a lock is listed without comparing its ID with the cursor (%s)" % how)

    def line(self, I, st, c, t):
        if t.op != "cat" or t.a[0].op != "bytes":
            return
        b = t.a[0].a[0]
        if b.startswith(b"lock "):
            self.ctx.count("lock lines judged")
            if mget(st, "dir") is None:
                mset(st, "listed", True)
            if mget(st, "dir") == "unsorted":
                self.fail(c, "order", "locks are listed in whatever order the directory is read")
        elif b.startswith(b"next-cursor="):
            self.ctx.count("next-cursor lines judged")
            mset(st, "next", True)
            p = self.page(st)
            ids = [x for x in subs(t) if x.op == "idx" and (self.locks_in(x.a[0]) or x.a[0].op == "w")]
            if p is None or not ids:
                self.ctx.notes.append("a next-cursor that isn't understood: " + short(t, 160))
                return
            for x in ids:
                if self.same(I, st, lin(x.a[1]), p) is not True:
                    self.fail(c, "cursor", "the next-cursor is lock number %s of a page of %s" % (short(x.a[1], 80), short(st.mem[PAGE], 80)))
                    break
            if mget(st, "more") != "yes":
                self.fail(c, "cursor", "a next-cursor is given where there may be no more locks")

    def on_status(self, I, st, c, data):
        if self.listing(st):
            ks = status_codes(data)
            k = min(ks) if ks and len(ks) == 1 else None
            mset(st, "code", k if k in (200, 404) else None)

    def answered(self, I, st, c):
        code, d, cur = mget(st, "code"), mget(st, "dir"), mget(st, "cur")
        self.ctx.count("answers judged")
        if d is None:
            if code == 200 and mget(st, "listed") and cur in ("before", "not after"):
                self.fail(c, "path", "a lock is reported though its ID may sort before the cursor")
            if code == 404 and cur in ("not before", "not after"):
                self.fail(c, "path", "a lock isn't reported though its ID may not sort before the cursor")
        elif code == 200 and d == "unsorted" and mget(st, "early"):
            self.fail(c, "order", "locks are listed in whatever order the directory is read")
        elif code == 200 and PAGE in st.mem:
            if mget(st, "more") in ("yes", "maybe") and not mget(st, "next"):
                self.fail(c, "cursor", "no next-cursor is given though there may be more locks")
            if mget(st, "next") and not mget(st, "shown"):
                if self.cuts():
                    self.ctx.notes.append("how many locks are shown isn't understood")
                else:
                    self.fail(c, "shown", "the lock of the next-cursor is shown as well")

    def cuts(self):
        """Whether some function cuts a list in a way that isn't followed."""
        if not hasattr(self, "cutting"):
            self.cutting = False
            import json
            for n in self.I.stats["bodies"]:
                b = self.I.P.bodies[n]
                if "rocessor" in n and "backend::Lock\"" in json.dumps(b.locals if hasattr(b, "locals") else str(b.blocks), default=str):
                    for s in callees(b):
                        if s.rsplit("::", 1)[-1] in CUTS and ("Vec" in s or "[T]" in s or "slice" in s or "iter" in s) or "ops::range" in s:
                            self.cutting = True
        return self.cutting

    def on_exit(self, st, fr, rv):
        if self.listing(st) and rv.op == "agg":
            if mget(st, "more") == "yes" and any(x.op == "cat" and x.a[0].op == "bytes" and x.a[0].a[0].startswith(b"next-cursor=") for x in subs(rv)):
                mset(st, "next", True)
            for x in parts(rv):
                for f in self.starts.get(x.a[0][0], ()):
                    v = x.a[f + 1] if len(x.a) > f + 1 else None
                    if v is not None and v.op == "int" and v.a[0] != 0:
                        self.blame(fr, "gap", "going through the locks starts at number %s" % short(v, 60))
        return Locks.on_exit(self, st, fr, rv)

    def finished(self, ctx, m, res):
        if res is None or self.limits:
            return
        if not ctx.counts.get("comparisons with the cursor in queries for one path"):
            ctx.violation("never", SESSION, "-", "no query for one path compares the lock's ID with the cursor")
        for k in ("lock lines judged", "next-cursor lines judged"):
            if not ctx.counts.get(k):
                ctx.violation("never", SESSION, "-", "no reachable construct makes " + k.replace(" judged", ""))


def callees(body):
    import json
    r = set()
    for b in body.blocks:
        s = json.dumps(b) if isinstance(b, (dict, list)) else str(b)
        import re
        r |= set(re.findall(r'"((?:core|alloc|std)::[^"]+)"', s))
    return r


class Next(Rule):
    """An iterator over locks, analysed from any state it may be in."""

    NEXT, LIST = ("P", T("c15", "next")), ("P", T("c15", "list"))

    def __init__(self, body):
        self.body = body
        self.fields = set()
        self.ends = []

    def look(self, st, fr, t):
        """Looks at an entry."""
        for x in subs(t):
            if not is_pure(x, "filename"):
                continue
            e = bare(x.a[1])
            if e.op != "idx":
                continue
            n = st.mem.get(self.NEXT)
            i = e.a[1]
            if n is not None and self.distance(n, i) == -1:
                # The one it's at.
                return
            self.ctx.count("looks at entries judged")
            site = getattr(fr, "site", None) or "-"
            if n is None:
                f = self.field(i)
                if f is None:
                    self.ctx.violation("gap", self.body, site, "the first lock looked at isn't the next one: number %s" % short(i, 100), self.chain(fr))
                else:
                    self.fields.add(f)
            elif self.distance(n, i) != 0:
                self.ctx.violation("gap", self.body, site, "a lock other than the next one is looked at, number %s instead of %s" % (short(i, 80), short(n, 80)), self.chain(fr))
            st.mem[self.NEXT] = ADD(i, INT(1))
            st.mem[self.LIST] = e.a[0]
            mset(st, "past", None)
            return

    @staticmethod
    def distance(n, i):
        d = lin_add(lin(i), lin(n), -1)
        return d[1] if not d[0] else None

    def field(self, t):
        t = bare(t)
        if t.op == "fld" and "param(1)" in str(t.a[0]):
            return t.a[-1]
        return None

    def on_event(self, st, c, ev):
        if ev[0] == "fs":
            for p in raw_paths(ev):
                self.look(st, c.fr, p[0])
        return True

    def on_call(self, st, fr):
        self.now = fr
        if fr.body.p == self.body:
            self.top = fr

    def on_assume(self, st, c, val):
        if c.op in ("eq", "lt"):
            if any(is_pure(x, "filename") for x in subs(c)):
                self.look(st, self.top, c)
            for x in subs(c):
                if x.op == "len":
                    n = st.mem.get(self.NEXT)
                    if n is not None:
                        if x.a[0] is st.mem.get(self.LIST) and self.I.decide(st, LT(n, x)) is False:
                            mset(st, "past", "list")
                    else:
                        for y in subs(c):
                            f = self.field(y)
                            if f is not None and y.op == "fld" and self.I.decide(st, LT(y, x)) is False and self.field(x.a[0]) is not None:
                                mset(st, "past", f)
        elif val is True and self.field(c) is not None:
            # Told to end.
            mset(st, "past", "done")
        return True

    def on_exit(self, st, fr, rv):
        if fr.body.p == self.body and rv.op == "agg":
            self.ctx.count("ends of looks judged")
            n = st.mem.get(self.NEXT)
            if rv.a[0][1] == 0:
                self.ends.append((n is not None, mget(st, "past"), self.chain(fr)))
            elif n is not None:
                o = self.I.deref(st, T("param", 1))
                for f in self.fields:
                    v = self.I.getfld(o, 0, f)
                    if self.distance(n, v) != 0:
                        self.ctx.violation("gap", fr.body.p, "-", "the list goes on with lock number %s where %s is the next" % (short(v, 80), short(n, 80)), self.chain(fr))
        return st, rv

    def finish(self, ctx):
        for looked, past, chain in self.ends:
            if past == "done" or not self.fields:
                continue
            if past is None or not looked and past not in self.fields:
                ctx.violation("gap", self.body, "-", "the list may end though there are more locks" + (" after one that is passed over" if looked else ""), chain)


def check(ctx):
    starts = {}
    for n, b in sorted(ctx.P.bodies.items()):
        if n.startswith("<scutiger_lfs::backend") and n.endswith(ITER):
            m = Next(n)
            ctx.run(n, m, args=[T("param", 1)], opts={"cap": 60})
            m.finish(ctx)
            ctx.site("iterators over locks", n, "-")
            t = n[1:].split(" as ", 1)[0]
            starts[t.split("<")[0]] = m.fields
    ctx.jobs([lambda: session(ctx, starts, False), lambda: session(ctx, starts, True)])


def session(ctx, starts, limits):
    r = R()
    r.starts = starts
    r.limits = limits
    r.run_mode(ctx, "Upload")
