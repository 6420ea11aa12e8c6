"""C20: a response is flushed to the client before the server waits for input.

On every path through the program: between writing anything to the client and the next attempt to
read from it, and between writing and an end of the session that is no failure, the output stream is flushed
(unless writing to it has failed)."""
from common import *

MAIN = "git_lfs_transfer::main"

# The framing of data is left to C18; what a flush packet and a flush do is looked at here.
OWN = ("scutiger_core::pktline::Writer::write_packet", "<scutiger_core::pktline::Writer as core::io::write::Write>::flush")


class R(Rule):
    def on_event(self, st, c, ev):
        if ev[0] == "out" or ev[0] in ("write", "flush") and ev[1].op == "std" and ev[1].a[0] == "stdout":
            self.ctx.count("writes and flushes followed")
            self.ctx.site("writes and flushes", *self.where(c))
            if "err" in ev[2:]:
                mset(st, "out", "broken")
            elif mget(st, "out") != "broken":
                mset(st, "out", None if ev[0] == "flush" else "unflushed")
        elif ev[0] == "rd":
            self.ctx.count("reads judged")
            self.ctx.site("reads", *self.where(c))
            if mget(st, "out") == "unflushed":
                self.fail(c, "waiting-unflushed", "the server reads from the client on a path where what it wrote last wasn't flushed")
        elif ev[0] == "exit" and self.I.decide(st, EQ(ev[1], INT(0))) is not False:
            self.end(st, c.fr, c.loc)
        return True

    def end(self, st, fr, loc):
        self.ctx.count("ends judged")
        if mget(st, "out") == "unflushed":
            self.ctx.violation("ended-unflushed", fr.body.p, loc, "the session ends on a path where what was written last wasn't flushed", self.chain(fr))

    def on_exit(self, st, fr, rv):
        if fr.parent is None:
            self.end(st, fr, "return")
        return st, rv


def check(ctx):
    ctx.run(MAIN, R(), opts={"prims": {k: v for k, v in PRIMS.items() if k not in OWN}})
    if ctx.counts.get("reads judged", 0) == 0:
        ctx.violation("no-session", MAIN, "-", "no reachable construct reads from the client")
