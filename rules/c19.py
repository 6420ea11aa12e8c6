"""C19: the packet reader delivers the payload stream without loss.

Reading a packet stream as bytes is analysed for any buffer the caller may give, any state of the
reader that its methods can leave it in (the orderings of its fields that its constructor
establishes and every method keeps are derived first), and any packets.  On every path: no packet is
read while bytes of the last one are still buffered; a payload that has been read isn't left behind
unless it is known to be empty; when a number of bytes is reported, it is provable that the caller's
buffer starts with exactly the next that many bytes of the payload (or of what was buffered), and
that what the reader has buffered afterwards is exactly the rest; nothing is reported as read from
a non-empty buffer only at a flush or delimiter packet; no path panics; and a payload is read as a
whole, with a failure reported as one.  (Where paths that read different headers are joined, which
header ends the stream is left to C17.)"""
from pkt import *

PAY = ("P", T("payload"))
PN = ("P", T("payload length"))


class R(Headers, Crashes):
    """Fields are told apart by how they are used: the buffer is the array, and of the two numbers
    the one that is never above the other says where the rest begins."""

    def __init__(self, buf, off, len_):
        self.f = (buf, off, len_)

    def fields(self, st):
        v = self.I.deref(st, T("param", 1))
        return tuple(self.I.getfld(v, 0, i) for i in self.f)

    def before(self):
        v = T("deref", T("param", 1))
        return tuple(self.I.getfld(v, 0, i) for i in self.f)

    def given(self, st):
        return self.I.deref(st, T("param", 2))

    def same(self, st, a, b):
        d = lin_add(lin(a), lin(b), -1)
        return self.I.prove_ge(st, d) and self.I.prove_ge(st, ({x: -k for x, k in d[0].items()}, -d[1]))

    def nothing(self, st, n):
        return self.I.decide(st, LT(INT(0), n)) is False or self.I.decide(st, EQ(n, INT(0))) is True

    def empty(self, st):
        _, off, n = self.fields(st)
        return self.same(st, off, n)

    def crash(self, st, fr, loc, what, detail):
        # (Sums over a header are C17's.)
        if what != "overflow" or mget(st, "hdr") != "open":
            self.ctx.violation("may-panic-" + what.replace(":", "-"), fr.body.p, loc, "%s: %s" % (what, detail[:300]), self.chain(fr))

    def on_read(self, I, st, c, ev):
        if mget(st, "hdr") != "open":
            self.ctx.count("packets begun")
            if not self.empty(st):
                self.fail(c, "buffered-skipped", "another packet is read though bytes of the last may still be buffered")
            if PN in st.mem and not self.nothing(st, st.mem[PN]):
                self.fail(c, "payload-dropped", "another packet is read though the last payload may not have been delivered")
            st.mem.pop(PAY, None)
            st.mem.pop(PN, None)
        Headers.on_read(self, I, st, c, ev)
        if ev[5] != "ok":
            mset(st, "bad", True)

    def odd(self, I, st, c, ev):
        self.fail(c, "short-read", "a packet isn't read as a header of four bytes and a whole payload")

    def payload(self, I, st, c, h, ev):
        if ev[4] != "exact":
            self.fail(c, "short-read", "a payload isn't read as a whole, so part of it may be missing")
            mset(st, "odd", True)
        elif ev[5] == "ok":
            st.mem[PAY] = ev[2]
            st.mem[PN] = ev[3]

    def bytes_of(self, st, t):
        """(content, from, to) of a part of something, seen through what was written to it."""
        I = self.I
        base, lo, hi = t.a if t.op == "slice" else (t, INT(0), LEN(t))
        while base.op == "updslice":
            b, a, e, new = base.a
            if I.prove_ge(st, lin_add(lin(lo), lin(a), -1)) and I.prove_ge(st, lin_add(lin(e), lin(hi), -1)):
                base, lo, hi = new, SUB(lo, a), SUB(hi, a)
                if base.op == "slice":
                    base, lo, hi = base.a[0], ADD(base.a[1], lo), ADD(base.a[1], hi)
            elif I.prove_ge(st, lin_add(lin(a), lin(hi), -1)) or I.prove_ge(st, lin_add(lin(lo), lin(e), -1)):
                base = b
            else:
                break
        return base, lo, hi

    def holds(self, st, t, lo, hi, base, blo, bhi):
        """Whether t[lo..hi] is base[blo..bhi]."""
        b, l, h = self.bytes_of(st, self.I.mkslice(t, lo, hi))
        return b is base and self.same(st, l, blo) and self.same(st, h, bhi)

    def on_exit(self, st, fr, rv):
        if fr.parent is not None:
            return st, rv
        I = self.I
        for s, k in I.cases(st, rv, "core::result::Result", 2):
            if k != 0:
                continue
            self.ctx.count("successes judged")
            if mget(s, "bad"):
                self.bad(fr, "failed-read", "success is reported after a failed read")
            elif not mget(s, "odd"):
                self.judge(I, s, fr, I.getfld(rv, 0, 0))
        return st, rv

    def judge(self, I, st, fr, n):
        buf, off, end = self.fields(st)
        buf0, off0, end0 = self.before()
        given = self.given(st)
        room = LEN(T("deref", T("param", 2)))
        none = self.same(st, n, INT(0))
        if mget(st, "hdr") == "open":
            h = Header(I, st, st.mem[HDR])
            if h.value is not None and not (h.at_least(0) and h.at_most(1)):
                self.bad(fr, "early-end", "reading ends at a packet which isn't known to be a flush or delimiter packet")
            elif not none:
                self.bad(fr, "other-count", "%s bytes are reported at a flush or delimiter packet" % short(n, 100))
            elif not self.empty(st):
                self.bad(fr, "left-over", "at a flush or delimiter packet, something stays in the buffer")
            return
        if PAY in st.mem:
            pay, m = st.mem[PAY], st.mem[PN]
            start, stop = INT(0), m
            src = (pay, start, stop)
        else:
            pay, start, stop = buf0, off0, end0
        if none and PAY not in st.mem:
            if not self.same(st, room, INT(0)):
                self.bad(fr, "early-end", "the end is reported without a flush or delimiter packet")
            elif not (self.same(st, off, off0) and self.same(st, end, end0) and buf is buf0):
                self.bad(fr, "left-over", "what is buffered changes though nothing is delivered")
            return
        if not I.prove_ge(st, lin_add(lin(n), ({}, 1), -1)):
            self.bad(fr, "early-end", "the end is reported without a flush or delimiter packet")
        elif not I.prove_ge(st, lin_add(lin(room), lin(n), -1)):
            self.bad(fr, "other-count", "more may be reported than there is room for: %s" % short(n, 100))
        elif not self.holds(st, given, INT(0), n, pay, start, ADD(start, n)):
            self.bad(fr, "other-data", "what is delivered isn't known to be the next %s bytes" % short(n, 100))
        elif self.same(st, ADD(start, n), stop):
            if not self.same(st, off, end):
                self.bad(fr, "left-over", "all has been delivered, but something stays in the buffer")
        elif not (self.same(st, SUB(end, off), SUB(SUB(stop, start), n)) and self.holds(st, buf, off, end, pay, ADD(start, n), stop)):
            self.bad(fr, "left-over", "what stays in the buffer isn't known to be what wasn't delivered")

    def bad(self, fr, rule, detail):
        self.ctx.violation(rule, READ, "return", detail, self.chain(fr))


def check(ctx):
    if not ctx.need(READ):
        return
    inv = invariant(ctx)
    nums = [k for k in inv if len(k) == 2]
    v = ctx.P.adt(READER)["v"][0]["f"]
    bufs = [i for i, (n, t) in enumerate(v) if t.get("k") in ("array", "adt", "slice") and (t.get("k") == "array" or "Vec" in str(t.get("p")))]
    if len(nums) != 1 or len(bufs) != 1:
        ctx.incomplete.append("the reader's fields can't be told apart: %s, %s" % (nums, bufs))
        return
    ctx.run(READ, R(bufs[0], nums[0][0], nums[0][1]), opts={"prims": {}, "cap": 400, "loopcap": 2}, setup=assume_invariant(inv))
    if not ctx.counts.get("packets begun"):
        ctx.violation("no-packets", READ, "-", "no reachable construct reads a packet")
