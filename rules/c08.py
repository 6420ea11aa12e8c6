"""C08: every request gets exactly one well-formed response.

A typestate over everything written to the client: nothing before the request was read or after its
response ended; first a status line, then lines, at most one delimiter, one flush; nothing after a
failed write; and no further request is read, and the session doesn't end successfully, before the
response is complete."""
from common import *


class R(Session):
    def on_event(self, st, c, ev):
        if ev[0] == "out" and ev[1] != "flushio":
            self.ctx.site("writes", *self.where(c))
            self.ctx.count("writes judged")
            ph, req = mget(st, "ph", 0), mget(st, "req")
            if ph == "dead":
                self.fail(c, "write-after-failed-write", "something more is written after a write failed")
            elif req in (None, "eof"):
                self.fail(c, "write-between-responses", "a %s packet is written when no request is waiting for an answer" % ev[1])
            elif ev[1] == "data" and ph == 0:
                if not self.status_line(ev[2]):
                    self.fail(c, "no-status-line", "a response starts with %s, not with a status line" % short(ev[2], 120))
            elif ev[1] != "data" and ph == 0:
                self.fail(c, "no-status-line", "a response starts with a %s packet" % ev[1])
            elif ev[1] == "delim":
                if mget(st, "dl"):
                    self.fail(c, "two-delimiters", "a second delimiter is written in one response")
                mset(st, "dl", True)
        elif ev[0] == "rd" and ev[1] == "packet" and mget(st, "pos", "flush") == "flush":
            if mget(st, "req") in ("new", "open"):
                self.fail(c, "unanswered", "the next request is read before the response to this one is complete")
        elif ev[0] == "got" and mget(st, "req") == "new" and ev[1] in ("ioerr", "bad"):
            mset(st, "req", "eof")
        if ev[0] == "rd" and mget(st, "ph") == "dead":
            self.fail(c, "read-after-failed-write", "the session goes on reading after a response couldn't be written")
        return Session.on_event(self, st, c, ev)

    def status_line(self, d):
        ps = d.a if d.op == "cat" else (d,)
        return ps[0].op == "bytes" and ps[0].a[0].startswith(b"status ") and ps[-1].op == "bytes" and ps[-1].a[0].endswith(b"\n")

    def on_exit(self, st, fr, rv):
        if fr.parent is None and mget(st, "req") in ("new", "open"):
            if self.I.variant(st, rv) != 1:
                self.ctx.violation("ended-unanswered", fr.body.p, "return", "the session can end successfully without having answered a request completely")
        return st, rv

    def finished(self, ctx, m, res):
        if res is not None and not ctx.sites.get("writes"):
            ctx.violation("no-writes", SESSION, "-", "the session writes nothing")


def check(ctx):
    R().run_modes(ctx)
