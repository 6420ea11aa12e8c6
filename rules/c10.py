"""C10: a truncated request is never acted on.

At every construct that publishes an object or creates or removes a lock, and at every successful
status, on every path: the flush that ends the request has been read, and the request wasn't cut
short before it (a flush where a delimiter was due).  The session's end: success after a clean end
of the stream between requests only, an error otherwise."""
from common import *

SECTIONS = {"put-object": "a data section", "batch": "an object list"}


class R(Session):
    def complete(self, st, c, what):
        self.ctx.count("effects judged")
        if mget(st, "sec") != "ended":
            self.fail(c, "incomplete-request", "%s on a path where the end of the section being read hasn't been seen (position: %s, command: %s)" % (what, mget(st, "pos"), mget(st, "cmd")))
        elif mget(st, "cmd") in SECTIONS and not mget(st, "dl"):
            self.fail(c, "section-missing", "%s for a %s request that ended before %s" % (what, mget(st, "cmd"), SECTIONS[mget(st, "cmd")]))

    def event(self, I, st, c, ev):
        if ev[0] == "rd":
            mset(st, "skip", True if ev[1] == "skip" else None)
        if ev[0] == "got" and not mget(st, "skip"):
            # What is thrown away after the handler is done with the request doesn't count.
            mset(st, "sec", "ended" if ev[1] in ("Flush", "Delim", "end-flush", "end-delim", "skipped") else "partial")
            if ev[1] in ("Delim", "end-delim"):
                mset(st, "dl", True)
        if ev[0] == "got" and mget(st, "first") is None:
            mset(st, "first", ev[1])
            if ev[1] == "ioerr":
                st.mem[("P", T("readerr"))] = ev[2]
        elif ev[0] == "fs" and ev[-2] == "ok":
            for op, dst, h in published(ev):
                if below(dst, b"objects") or below(dst, b"locks") and op in ("hard_link", "rename", "persist", "persist_noclobber"):
                    self.ctx.site("effects", *self.where(c))
                    self.complete(st, c, "%s makes %s" % (op, short(dst, 100)))
            if ev[1] == "remove_file" and below(ev[2], b"locks") and not mentions(ev[2], "tmpname"):
                self.ctx.site("effects", *self.where(c))
                self.complete(st, c, "remove_file removes %s" % short(ev[2], 100))
        return True

    def on_status(self, I, st, c, data):
        if mget(st, "cmd") == "quit":
            return
        k = status_class(data)
        if k in (None, 2):
            self.ctx.site("successful statuses", *self.where(c))
            self.complete(st, c, "status %s is sent" % short(data, 60))

    def on_exit(self, st, fr, rv):
        if fr.parent is None:
            I = self.I
            k = I.variant(st, rv)
            f = mget(st, "first")
            if f == "bad" and k != 1:
                self.ctx.violation("bad-end", fr.body.p, "return", "the session can end successfully after broken framing where a request was due")
            if f == "ioerr":
                e = st.mem.get(("P", T("readerr")))
                eof = self.eof(st, e)
                if k != 1 and eof is not True:
                    self.ctx.violation("bad-end", fr.body.p, "return", "the session can end successfully after an error other than the end of the stream")
                if k != 0 and eof is not False and mget(st, "cmd") is None:
                    self.ctx.violation("bad-end", fr.body.p, "return", "the session can end with an error at the clean end of the stream")
        return st, rv

    def eof(self, st, e):
        k = self.I.P.variant_index(IOKIND, "UnexpectedEof")
        for f, v in st.facts.items():
            if e is not None and f[0] in ("var", "nvar") and is_pure(f[1], "kind") and f[1].a[1] is e:
                if f[0] == "var":
                    return v == k
                if k in v:
                    return False
        return None


def check(ctx):
    R().run_modes(ctx)
