"""C09: a request is consumed to its end before the next one is read.

A typestate over every read of the session: the position in the packet stream (at a flush, inside a
request, lost) and the request being served (none, open).  Reading a new packet past the flush that
ended an unanswered request, reading a command while inside a request, and reading anything once the
position is lost are violations, on every path."""
from common import *


class R(Session):
    def on_event(self, st, c, ev):
        if ev[0] == "rd":
            pos, req = mget(st, "pos", "flush"), mget(st, "req")
            self.ctx.site("reads", *self.where(c))
            self.ctx.count("reads judged")
            if ev[1] == "skip":
                pass
            elif pos == "lost":
                self.fail(c, "read-after-broken-framing", "a packet is read although the end of the request can't be found any more")
            elif pos == "flush" and req in ("new", "open"):
                self.fail(c, "read-past-end", "a packet is read past the flush that ended the request being served")
            elif pos == "inside" and req is None:
                self.fail(c, "command-inside-request", "a packet of a request that was already answered is taken as a new request")
        return Session.on_event(self, st, c, ev)

    def finished(self, ctx, m, res):
        if res is not None and not ctx.sites.get("reads"):
            ctx.violation("no-reads", SESSION, "-", "the session reads nothing")


def check(ctx):
    R().run_modes(ctx)
