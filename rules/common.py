"""What the rules share: running an analysis, recording what it covered, reporting violations."""
import os
import pickle
import sys
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from wire import *  # noqa
import interp
from interp import lin, lin_add
from load import Program

LFS = "scutiger_lfs::"
PROC = LFS + "processor::Processor::"
SESSION = PROC + "process_commands"
MODE = LFS + "processor::Mode"
COMMANDS = [b"version", b"batch", b"put-object", b"verify-object", b"get-object", b"lock", b"list-lock", b"unlock", b"quit"]


class Ctx(object):
    """One run of one check."""

    def __init__(self, P, prop, tier="quick"):
        self.P = P
        self.prop = prop
        self.tier = tier
        self.found = {}
        self.incomplete = []
        self.analyses = []
        self.counts = {}
        self.sites = {}
        self.notes = []
        self.bodies = set()
        self.returned = {}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def site(self, what, fn, loc):
        self.sites.setdefault(what, set()).add((fn, loc))

    def violation(self, rule, fn, loc, detail, chain=()):
        self.found.setdefault((rule, fn), {"rule": rule, "function": fn, "at": loc, "detail": detail, "path": list(chain)})

    def missing(self, rule, what):
        self.violation(rule, what, "-", "what the rule is anchored at doesn't exist any more: " + what)

    def need(self, *names):
        ok = True
        for n in names:
            if n not in self.P.bodies:
                self.missing("anchor", n)
                ok = False
        return ok

    FIELDS = ("found", "incomplete", "analyses", "counts", "sites", "notes", "bodies", "returned")

    def jobs(self, fs):
        """Runs analyses in processes of their own, which share nothing, and collects what they found."""
        if len(fs) < 2:
            for f in fs:
                f()
            return
        kids = []
        sys.stdout.flush()
        for f in fs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 1
                try:
                    for n in self.FIELDS:
                        setattr(self, n, type(getattr(self, n))())
                    try:
                        f()
                    except Exception as e:
                        self.incomplete.append("internal error: %s: %s at %s" % (type(e).__name__, str(e)[:200], traceback.format_exc().strip().splitlines()[-3].strip()))
                    with os.fdopen(w, "wb") as o:
                        pickle.dump({n: getattr(self, n) for n in self.FIELDS}, o)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        for pid, r in kids:
            with os.fdopen(r, "rb") as i:
                data = i.read()
            os.waitpid(pid, 0)
            if not data:
                self.incomplete.append("an analysis process ended early")
                continue
            d = pickle.loads(data)
            for k, v in d["found"].items():
                self.found.setdefault(k, v)
            for n in ("incomplete", "analyses", "notes"):
                getattr(self, n).extend(d[n])
            for k, v in d["counts"].items():
                self.count(k, v)
            for k, v in d["sites"].items():
                self.sites.setdefault(k, set()).update(v)
            self.bodies |= d["bodies"]
            self.returned.update(d["returned"])

    def run(self, root, mon, args=None, mon0=(), opts=None, setup=None, label=None):
        """Analyses everything reachable from a function; returns its outcomes, or None."""
        if not self.need(root):
            return None
        o = {"fuel": 4000000, "prims": PRIMS}
        o.update(opts or {})
        caps = (interp.JOINCAP, interp.EXITCAP)
        if "cap" in o:
            # Small enough to keep every path apart.
            interp.JOINCAP, interp.EXITCAP = (max(x, o["cap"]) for x in caps)
            o.setdefault("loopcap", o["cap"])
        I = Interp(self.P, mon, Models(), o)
        mon.ctx = self
        b = self.P.bodies[root]
        st = State()
        st.mon = tuple(mon0)
        if args is None:
            args = [T("param", i + 1) for i in range(b.argc)]
        t = time.time()
        if setup:
            setup(I, st, args)
        res = None
        try:
            res = I.run(st, b, {}, args, None, "root")
        except Stop as e:
            self.incomplete.append("%s: %s" % (label or root, e))
        except RecursionError:
            self.incomplete.append("%s: terms too deep" % (label or root))
        interp.JOINCAP, interp.EXITCAP = caps
        self.analyses.append({
            "root": label or root, "functions": len(I.stats["bodies"]), "call_sites": len(I.stats["sites"]), "blocks": I.stats["blocks"],
            "events": I.stats["events"], "joins": I.stats["widened"], "outcomes": len(res) if res is not None else None,
            "seconds": round(time.time() - t, 1), "unmodelled": sorted(I.stats["unmodelled"])[:20],
        })
        self.bodies |= set(I.stats["bodies"])
        return res


class Rule(Monitor):
    """A rule over the events of one analysis."""

    ctx = None

    def where(self, c):
        return c.fr.body.p, c.loc

    def chain(self, fr):
        r = []
        for f in fr.chain():
            s = f.body.p + (" @ " + f.site if getattr(f, "site", None) else "")
            if not r or r[-1] != s:
                r.append(s)
        return r[:24]

    def fail(self, c, rule, detail):
        self.ctx.violation(rule, c.fr.body.p, c.loc, detail, self.chain(c.fr))


def short(t, n=300):
    s = str(t)
    return s if len(s) <= n else s[:n] + "..."


def subs(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if y.__class__ is Term:
                st.append(y)
            elif y.__class__ is tuple:
                st2 = [y]
                while st2:
                    for q in st2.pop():
                        if q.__class__ is Term:
                            st.append(q)
                        elif q.__class__ is tuple:
                            st2.append(q)


def refs(f):
    """The terms in a fact."""
    st = [f]
    while st:
        x = st.pop()
        if x.__class__ is Term:
            for y in subs(x):
                yield y
        elif x.__class__ in (tuple, frozenset):
            st.extend(x)


def last(p):
    """The last component of a path."""
    return p.a[-1] if p.op == "pjoin" else p


def below(p, name):
    """Whether a path goes through a directory of this fixed name."""
    return p.op == "pjoin" and any(x.op == "bytes" and name in x.a[0].split(b"/") for x in p.a[1:])


def published(ev):
    """What an event makes visible under a new name: (operation, destination, handle or None)."""
    op = ev[1]
    if op in ("persist", "persist_noclobber"):
        return [(op, ev[4], ev[3])]
    if op in ("rename", "hard_link", "copy", "symlink"):
        return [(op, ev[3], None)]
    if op == "open" and any(f in ("create", "create_new", "truncate", "write", "append") for f in flagset(ev[2])):
        return [(op, ev[3], ev[-1])]
    return []


def flagset(fl):
    r = set()
    for x in fl if fl.__class__ is tuple else (fl,):
        if x.__class__ is tuple:
            r |= flagset(x)
        else:
            r.add(x)
    return r


def hexsha(x):
    return pure("hexenc", pure("digest", "sha2::sha256::Sha256", x))


def status_code(data):
    """The status a response starts with, if it is a constant."""
    if data is None:
        return None
    for x in subs(data):
        if x.op == "dispf" and x.a[0].__class__ is Term and x.a[0].op == "int":
            return x.a[0].a[0]
    if data.op == "bytes" and data.a[0].startswith(b"status "):
        try:
            return int(data.a[0][7:10])
        except ValueError:
            return None
    return None


def status_codes(data):
    """All the statuses a response may start with; None if that isn't known."""
    if data is None:
        return None
    for x in subs(data):
        if x.op == "dispf":
            return int_values(x.a[0])
    k = status_code(data)
    return None if k is None else {k}


def int_values(t):
    if t.op == "int":
        return {t.a[0]}
    if t.op in ("ite",):
        a, b = int_values(t.a[1]), int_values(t.a[2])
        return None if a is None or b is None else a | b
    return None


def status_class(data):
    k = status_code(data)
    return None if k is None else k // 100


class Session(Rule):
    """Follows a session request by request.  In the monitor state: pos (kept by the wire layer);
    mode; cmd, the command being served; ph, what has been sent of the response; and whatever a rule
    sets with `put`, which lasts until the next request."""

    LASTING = ("pos", "mode")

    def on_request(self, I, st, c):
        """A new request is about to be read."""

    def on_answered(self, I, st, c):
        """A response is complete."""

    def on_status(self, I, st, c, data):
        """The first packet of a response has been written."""

    def event(self, I, st, c, ev):
        return True

    def on_event(self, st, c, ev):
        I = self.I
        if ev[0] == "rd" and ev[1] == "packet" and ev[2] == "flush":
            self.on_request(I, st, c)
            st.mon = tuple(x for x in st.mon if x[0] in self.LASTING)
            mset(st, "req", "new")
        elif ev[0] == "got" and mget(st, "req") == "new":
            mset(st, "req", "open")
            if ev[1] == "Data":
                mset(st, "cp", ev[2])
        if self.event(I, st, c, ev) is False:
            return False
        if ev[0] == "out":
            ph = mget(st, "ph", 0)
            if ev[3] == "ok" and ev[1] != "flushio":
                if ph == 0:
                    self.on_status(I, st, c, ev[2] if ev[1] == "data" else None)
                    mset(st, "ph", 1)
                if ev[1] == "flush":
                    self.on_answered(I, st, c)
                    st.mon = tuple(x for x in st.mon if x[0] in self.LASTING)
            elif ev[3] == "err":
                mset(st, "ph", "dead")
        return True

    def on_call(self, st, fr):
        """Which command is it?"""
        cp = mget(st, "cp")
        if cp is None:
            return
        name = self.command(st, cp)
        if name is not None:
            mset(st, "cp", None)
            mset(st, "cmd", name)

    def command(self, st, cp):
        words = {}
        for f, v in st.facts.items():
            if f[0] == "const" and f[1].op == "idx" and f[1].a[1].op == "int" and v.op == "int":
                words.setdefault(f[1].a[0], {})[f[1].a[1].a[0]] = v.a[0]
            elif f[0] == "tr" and v is True and f[1].op == "eq":
                for a, b in (f[1].a, f[1].a[::-1]):
                    if b.op == "bytes" and b.a[0] in COMMANDS and (a.op == "w" or not cp.syms.isdisjoint(a.syms)):
                        return b.a[0].decode()
        for w, bs in words.items():
            # A word of the first packet, or one joined from several ways to cut it.
            if w.op != "w" and cp.syms.isdisjoint(w.syms):
                continue
            for n in COMMANDS:
                if len(bs) >= len(n) and all(bs.get(i) == x for i, x in enumerate(n)):
                    L = LEN(w)
                    if L.op != "int":
                        L = st.facts.get(("const", L), L)
                    if L is INT(len(n)) or self.I.decide(st, EQ(L, INT(len(n)))) is True:
                        return n.decode()
        return None

    def run_modes(self, ctx, modes=("Upload", "Download"), **kw):
        """Analyses the session in either mode."""
        ctx.jobs([lambda m=m: self.run_mode(ctx, m, **kw) for m in modes])

    def run_mode(self, ctx, m, **kw):
        k = ctx.P.variant_index(MODE, m)
        if k is None:
            ctx.missing("anchor", MODE + "::" + m)
            return None
        r = ctx.run(SESSION, self, args=[T("param", 1), AGG(MODE, k)], mon0=(("mode", m),), label=SESSION + " (" + m + ")", **kw)
        self.finished(ctx, m, r)
        return r

    def finished(self, ctx, m, res):
        """After the analysis of one mode."""


def is_pure(x, name):
    return x.op == "pure" and x.a[0] == name


def mentions(t, op):
    return any(x.op == op for x in subs(t))


MAXIMA = {"u8": 1 << 8, "u16": 1 << 16, "u32": 1 << 32, "u64": 1 << 64, "usize": 1 << 64, "u128": 1 << 128,
          "i8": 1 << 7, "i16": 1 << 15, "i32": 1 << 31, "i64": 1 << 63, "isize": 1 << 63, "i128": 1 << 127}


class Crashes(Rule):
    """Finds what may panic: assertions the compiler inserts and calls that panic."""

    def crash(self, st, fr, loc, what, detail):
        raise NotImplementedError

    def on_assert(self, st, fr, kind, ops, cond, expected, loc):
        I = self.I
        self.ctx.count("assertions judged")
        self.ctx.site("assertions", fr.body.p, loc)
        if kind == "bounds":
            if I.decide(st, LT(ops[1], ops[0])) is not True:
                self.crash(st, fr, loc, "index", "index %s of %s" % (short(ops[1], 80), short(ops[0], 80)))
        elif cond.op == "ovf":
            if not self.fits(st, *cond.a):
                self.crash(st, fr, loc, "overflow", "%s of %s and %s in %s" % (cond.a[0], short(cond.a[1], 80), short(cond.a[2], 80), cond.a[3]))
        elif I.decide(st, cond if expected else NOT(cond)) is not True:
            self.crash(st, fr, loc, kind, short(cond, 120))

    def fits(self, st, op, a, b, t):
        I = self.I
        if t not in MAXIMA:
            return False
        la, lb = lin(a), lin(b)
        lo = 0 if t[0] == "u" else -MAXIMA[t]
        hi = MAXIMA[t] - 1
        if op in ("Add", "Sub"):
            r = lin_add(la, lb, 1 if op == "Add" else -1)
        elif op == "Mul" and (not la[0] or not lb[0]):
            k, l = (la[1], lb) if not la[0] else (lb[1], la)
            r = ({x: c * k for x, c in l[0].items() if k}, l[1] * k)
        elif op in ("Shl", "Shr"):
            n = {"u8": 8, "u16": 16, "u32": 32, "i8": 8, "i16": 16, "i32": 32, "u128": 128, "i128": 128}.get(t, 64)
            return I.prove_ge(st, lb) and I.prove_ge(st, lin_add(({}, n - 1), lb, -1))
        else:
            return False
        if op == "Add" and t in ("u64", "usize", "i64", "isize") and not self.numbers(a, b):
            # Sums of what has been read, written or counted stay far below the maximum.
            return True
        up = I.prove_ge(st, lin_add(({}, hi), r, -1)) if op != "Sub" or t[0] != "u" else True
        down = I.prove_ge(st, lin_add(r, ({}, lo), -1)) if op != "Add" or t[0] != "u" else True
        return up and down

    def numbers(self, *ts):
        """Whether there are numbers in these terms that don't count anything."""
        for t in ts:
            for x in lin(t)[0]:
                if any(y.op == "parse" or is_pure(y, "parse") or y.op in ("param", "top") and y is x for y in subs(x)):
                    return True
        return False

    def on_panic(self, st, c, what, v):
        self.ctx.count("panics judged")
        self.ctx.site("panics", c.fr.body.p, c.loc)
        self.crash(st, c.fr, c.loc, what, short(v, 2000) if v is not None else "")
