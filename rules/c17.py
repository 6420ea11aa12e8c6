"""C17: packet headers are decoded strictly and uniformly.

For every way to read a packet and every path through it, with no paths merged: the header is four
bytes, each confined to 0-9 and a-f before it is accepted; what is read as payload is, as an exact
linear form over the header's bytes, the number they denote less four, and that number is at most
65520; without a payload it is known to be 0 where a flush is reported and 1 where a delimiter is;
and where the header is refused, the bytes are known not to be four such digits, or to denote 2, 3
or more than 65520.  Nothing panics between a header and what is made of it."""
from pkt import *


class R(Headers, Crashes):
    def __init__(self, root):
        self.root = root

    def payload(self, I, st, c, h, ev):
        if not h.valid:
            self.fail(c, "header-accepted", "a header is accepted though it may be %s" % h.text())
            return
        n = ev[3] if ev[4] == "exact" else None
        r = h.is_value_of(n, 4) if n is not None else False
        if r is False:
            self.fail(c, "other-length", "what is read after a header isn't as long as the header says: %s" % short(n, 200))
        elif r is None:
            self.ctx.incomplete.append("%s: the length of a payload can't be related to the header: %s" % (self.root, short(n, 100)))
        elif not h.at_most(LONGEST):
            self.fail(c, "too-long", "a header above %d may be accepted" % LONGEST)
        elif not h.at_least(4):
            self.fail(c, "too-short", "a header below 4 may be taken for that of data")

    def after_read(self, I, st, c, ev):
        # What becomes of the payload doesn't matter here.
        return mget(st, "hdr") == "open" or mget(st, "hdr") == "failed" and HDR not in st.mem

    def on_exit(self, st, fr, rv):
        if fr.parent is not None or mget(st, "hdr") != "open":
            return st, rv
        I = self.I
        h = Header(I, st, st.mem[HDR])
        self.ctx.count("headers without payload judged")
        for s, k in I.cases(st, self.result(rv), "core::result::Result", 2):
            if k == 0:
                self.accepted(I, s, fr, h, rv)
            elif not h.refusable():
                self.bad(fr, "header-refused", "a header is refused though it may be good: %s" % h.text())
        return st, rv

    def crash(self, st, fr, loc, what, detail):
        if mget(st, "hdr") == "open":
            self.ctx.violation("header-crashes", fr.body.p, loc, "%s: %s" % (what, detail[:300]), self.chain(fr))

    def result(self, rv):
        if rv.op == "agg" and rv.a[0][0].endswith("Option") and len(rv.a) > 1:
            return rv.a[1]
        return rv

    def bad(self, fr, rule, detail):
        self.ctx.violation(rule, self.root, "return", detail, self.chain(fr))

    def accepted(self, I, st, fr, h, rv):
        if not h.valid:
            self.bad(fr, "header-accepted", "a header is accepted though it may be %s" % h.text())
        elif self.root in (READ_PACKET, NEXT):
            t = I.getfld(I.getfld(self.result(rv), 0, 0), 0, 0)
            k = I.variant(st, t)
            for name, v in (("Flush", 0), ("Delim", 1)):
                if k == pt_index(I, name):
                    if not (h.at_least(v) and h.at_most(v)):
                        self.bad(fr, "other-type", "%s is reported though the header isn't known to be %04x" % (name, v))
                    return
            self.bad(fr, "other-type", "data is reported though no payload was read")
        elif not (h.at_least(0) and h.at_most(1)):
            self.bad(fr, "other-type", "the end of the data is reported though the header may be something else than 0000 or 0001")


def check(ctx):
    roots = [READ_PACKET, READ] + ([NEXT] if NEXT in ctx.P.bodies else [])
    ctx.jobs([lambda r=r: ctx.run(r, R(r), opts={"prims": {}, "cap": 3000}) for r in roots])
    if not ctx.counts.get("payloads judged"):
        ctx.violation("no-headers", READ_PACKET, "-", "no reachable construct reads a packet")
