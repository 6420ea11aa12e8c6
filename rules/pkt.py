"""What the rules about the packet layer itself share: following headers and payloads as they are read
from and written to the underlying stream."""
from common import *
from interp import lin, lin_add

READER = "scutiger_core::pktline::Reader"
WRITER = "scutiger_core::pktline::Writer"
READ_PACKET = READER + "::read_packet"
SKIP = READER + "::skip_to_flush"
READ = "<" + READER + " as alloc::io::read::Read>::read"
NEXT = "<scutiger_core::pktline::iter::ReaderIterator as core::iter::traits::iterator::Iterator>::next"
DIGITS = frozenset(b"0123456789")
LETTERS = frozenset(b"abcdef")
HEXDIGITS = DIGITS | LETTERS
LONGEST = 65520
HDR = ("P", T("header"))


def byte_set(I, st, b):
    """The values a byte may have."""
    if b.op == "int":
        return {b.a[0]}
    return {x for x in range(256) if I.decide(st, EQ(b, INT(x))) is not False}


class Header(object):
    """What is known about a header on a path."""

    def __init__(self, I, st, h):
        self.I, self.st, self.h = I, st, h
        self.bytes = [I.getidx(h, INT(i)) for i in range(4)]
        self.sets = [byte_set(I, st, b) for b in self.bytes]
        self.valid = all(s and s <= HEXDIGITS for s in self.sets)
        self.invalid = any(not s & HEXDIGITS for s in self.sets)
        self.value = None
        if all(s & HEXDIGITS <= DIGITS or s & HEXDIGITS <= LETTERS for s in self.sets):
            v = ({}, 0)
            for i, (b, s) in enumerate(zip(self.bytes, self.sets)):
                w = 16 ** (3 - i)
                v = lin_add(v, lin(b), w)
                v = lin_add(v, ({}, 48 if s & HEXDIGITS <= DIGITS else 87), -w)
            self.value = v

    def at_least(self, n):
        return self.value is not None and self.I.prove_ge(self.st, lin_add(self.value, ({}, n), -1))

    def at_most(self, n):
        return self.value is not None and self.I.prove_ge(self.st, lin_add(({}, n), self.value, -1))

    def is_value_of(self, t, plus):
        """Whether a term plus a constant is what the header denotes."""
        if self.value is None:
            return None
        d = lin_add(lin_add(lin(t), ({}, plus)), self.value, -1)
        if not d[0]:
            return d[1] == 0
        if self.I.prove_ge(self.st, d) and self.I.prove_ge(self.st, ({x: -c for x, c in d[0].items()}, -d[1])):
            return True
        terms = set(d[0])
        return False if all(x in self.bytes for x in terms) else None

    def refusable(self):
        """Whether it is known to be no header that has to be accepted."""
        if self.invalid:
            return True
        if self.value is not None:
            return self.at_least(2) and self.at_most(3) or self.at_least(LONGEST + 1)
        # Whichever kinds of digits these are.
        for i, (b, s) in enumerate(zip(self.bytes, self.sets)):
            if s & DIGITS and s & LETTERS:
                for kind in (DIGITS, LETTERS):
                    t = self.st.fork()
                    if self.I.assume(t, NOT(LT(b, INT(min(kind)))), True) and self.I.assume(t, NOT(LT(INT(max(kind)), b)), True):
                        if not Header(self.I, t, self.h).refusable():
                            return False
                return True
        return False

    def text(self):
        return "".join("[%s]" % spans(s) for s in self.sets)


def spans(s):
    r, xs = [], sorted(s)
    while xs:
        a = xs.pop(0)
        b = a
        while xs and xs[0] == b + 1:
            b = xs.pop(0)
        r.append(chr(a) if a == b and 32 < a < 127 else "%s-%s" % tuple(chr(x) if 32 < x < 127 else "\\x%02x" % x for x in (a, b)))
    return "".join(r)


class Headers(Rule):
    """Follows the headers read: `header(I, st, c, h)` when one has been read, `payload(I, st, c, hdr, n, ev)` when
    something is read after it, before the next."""

    def on_event(self, st, c, ev):
        if ev[0] == "read":
            self.on_read(self.I, st, c, ev)
            return self.after_read(self.I, st, c, ev)
        return True

    def after_read(self, I, st, c, ev):
        return True

    def on_read(self, I, st, c, ev):
        n = ev[3]
        if mget(st, "hdr") != "open":
            # This must be a header.
            if not (ev[4] == "exact" and (n is INT(4) or I.decide(st, EQ(n, INT(4))) is True)):
                self.odd(I, st, c, ev)
            elif ev[5] == "ok":
                self.ctx.site("headers read", *self.where(c))
                self.ctx.count("headers followed")
                st.mem[HDR] = ev[2]
                mset(st, "hdr", "open")
            else:
                mset(st, "hdr", "failed")
        else:
            self.ctx.site("payloads read", *self.where(c))
            self.ctx.count("payloads judged")
            self.payload(I, st, c, Header(I, st, st.mem[HDR]), ev)
            if ev[5] == "ok":
                st.mem.pop(HDR, None)
                mset(st, "hdr", None)
            else:
                mset(st, "hdr", "failed")

    def odd(self, I, st, c, ev):
        self.fail(c, "odd-read", "the stream is read otherwise than by a header of four bytes and a payload")

    def payload(self, I, st, c, hdr, ev):
        pass


# ---- what always holds of a reader's fields ---------------------------------------------------------
def methods(P):
    """The functions that may change a reader: those that take it by exclusive reference."""
    def takes(b):
        t = b.locals[1] if b.argc else ()
        return t[:2] == ("ref", True) and t[2][:2] == ("adt", READER)
    return sorted(n for n, b in P.bodies.items() if takes(b))


def fields(P):
    a = P.adt(READER)
    if a is None or not a["v"]:
        return [], []
    nums, arrays = [], []
    for i, (n, t) in enumerate(a["v"][0]["f"]):
        if t.get("k") in ("usize", "u16", "u32", "u64"):
            nums.append(i)
        elif t.get("k") == "array" and str(t.get("n")).isdigit():
            arrays.append(int(t["n"]))
    return nums, arrays


def candidates(P):
    """Orderings that may hold between a reader's fields: (i, j) for i <= j, (i, n, "max") for i <= n."""
    nums, arrays = fields(P)
    return [(i, j) for i in nums for j in nums if i != j] + [(i, n, "max") for i in nums for n in sorted(set(arrays))]


def ordering(I, v, k):
    a = lin(I.getfld(v, 0, k[0]))
    b = ({}, k[1]) if len(k) == 3 else lin(I.getfld(v, 0, k[1]))
    return lin_add(b, a, -1)


class Holds(Rule):
    """Which of the candidates hold when a function returns."""

    def __init__(self, cands, made):
        self.cands, self.made, self.kept = cands, made, set(cands)

    def on_event(self, st, c, ev):
        return True

    def on_exit(self, st, fr, rv):
        if fr.parent is None:
            v = rv if self.made else self.I.deref(st, T("param", 1))
            self.kept = {k for k in self.kept if self.I.prove_ge(st, ordering(self.I, v, k))}
        return st, rv


def assume_invariant(inv, argv=None):
    def setup(I, st, args):
        for i in range(len(args)):
            if args[i] is T("param", 1):
                v = I.deref(st, args[i])
                for k in inv:
                    I.add_ge(st, ordering(I, v, k))
    return setup


def invariant(ctx):
    """The orderings of a reader's fields that hold when it is made and that every method keeps."""
    inv = candidates(ctx.P)
    new = READER + "::new"
    if new not in ctx.P.bodies:
        return []
    h = Holds(inv, True)
    ctx.run(new, h, opts={"prims": {}})
    inv = [k for k in inv if k in h.kept]
    changed = True
    while changed and inv:
        changed = False
        for m in methods(ctx.P):
            h = Holds(inv, False)
            r = ctx.run(m, h, opts={"prims": {}}, setup=assume_invariant(inv), label=m + " (keeps what holds of its fields)")
            if r is None or len(h.kept) < len(inv):
                inv = [k for k in inv if r is not None and k in h.kept]
                changed = True
    names = [f[0] for f in ctx.P.adt(READER)["v"][0]["f"]] if ctx.P.adt(READER) else []
    ctx.notes.append("holds of every reader: " + ", ".join("%s <= %s" % (names[k[0]], k[1] if len(k) == 3 else names[k[1]]) for k in inv))
    return inv
