"""C21: errors are not silently dropped.

In a session, on every path from a request to its answer: where an operation on a file, or a read from the
client, failed, the answer isn't a success, unless what failed was the removal of a temporary file, a lookup
with a stated fallback (for batch and list-lock, an object or lock that can't be examined counts as not
there, and a lock's owner may be unknown), or a finding that was acted upon (the lock exists, or no longer
does).  Where one failed once the answer had begun, and after any failure to read from the client or to write
to it, nothing more is read: the session ends.  Each program, followed from its start to its exits, ends with
a status other than 0 and a message after a failure to open the repository, to read its configuration, to make
the directories, to look up a revision, to walk the history, to match a pattern, to list the references, or to
start a process."""
import c20
import c24
import gitat
import recent
from fsrules import *
from c16 import CREATING, LOOKUPS

WHERE = {"ioerr": "read from the client", "bad": "read of a packet"}


class R(FsSession):
    LASTING = FsSession.LASTING + ("late", "dead")

    def failed(self, st, what, e):
        if what in LOOKUPS.get(mget(st, "cmd"), ()):
            return
        if mget(st, "ph", 0):
            mset(st, "late", what)
        mset(st, "srv", what)
        self.remember_error(st, e)

    def event(self, I, st, c, ev):
        k = ev[0]
        if k == "rd" or k == "out":
            for x, how in (("late", "failed once the answer had begun"), ("dead", "failed")):
                w = mget(st, x)
                if w and (k == "rd" and (ev[1] != "skip" or ev[2] == "inside") or k == "out" and x == "dead"):
                    self.fail(c, "went-on", "the session goes on on a path where a %s %s" % (w, how))
                    mset(st, x, None)
        if k == "rd":
            mset(st, "reading", ev[1])
        elif k == "out" and ev[3] == "err":
            mset(st, "dead", "write to the client")
        if mget(st, "req") is None:
            return True
        if k == "fs":
            op = ev[1]
            self.ctx.site("operations that may fail", *self.where(c))
            own = any(last(p).op == "tmpname" for p, role in paths(ev))
            if op in ("tmpdrop", "close") or op == "remove_file" and own:
                return True
            if ev[-2] == "err":
                self.ctx.count("failures followed")
                self.failed(st, op, ev[-1])
            elif mget(st, "srv") in CREATING and mget(st, "ek") == "AlreadyExists" or op in CREATING and mget(st, "ek") == "NotFound":
                mset(st, "srv", None)
        elif k in ("read", "write", "flush") and "err" in ev[2:]:
            self.ctx.count("failures followed")
            self.failed(st, k, ev[-1])
        elif k == "got" and ev[1] in WHERE:
            self.ctx.count("failures followed")
            if mget(st, "reading") != "skip":
                # What has been asked for is known by the time the rest is skipped.
                mset(st, "srv", WHERE[ev[1]])
            mset(st, "late", WHERE[ev[1]])
        return True

    def on_variant(self, st, v, k):
        if k == 1 and v.op == "elem" and any("read_dir" in str(x.a) for x in subs(v) if x.op in ("call", "fld")):
            self.ctx.count("failures followed")
            mset(st, "srv", "read of an entry of the directory")
        return True

    def on_status(self, I, st, c, data):
        ks = status_codes(data)
        cmd, srv, ek = mget(st, "cmd"), mget(st, "srv"), mget(st, "ek")
        self.ctx.site("answers", *self.where(c))
        self.ctx.count("answers judged")
        if not srv:
            return
        self.ctx.count("answers after a failure judged")
        for k in ks if ks is not None else (0,):
            if k < 400 and not (cmd == "list-lock" and srv == "read_dir" and ek == "NotFound"):
                self.fail(c, "success-after-failure", "%s is answered %d after a failed %s" % (cmd, k, srv))


class Writes(c20.R):
    """What becomes of an error in writing or flushing below the level of packets."""

    def on_event(self, st, c, ev):
        if ev[0] == "out" or ev[0] in ("write", "flush") and ev[1].op == "std" and ev[1].a[0] == "stdout":
            self.ctx.site("writes and flushes", *self.where(c))
            if "err" in ev[2:]:
                mset(st, "out", "broken")
        elif ev[0] == "rd":
            if mget(st, "out") == "broken" and (ev[1] != "skip" or ev[2] == "inside"):
                self.fail(c, "went-on", "the server reads from the client on a path where a write to it failed")
        elif ev[0] == "exit" and self.I.decide(st, EQ(ev[1], INT(0))) is not False:
            self.end(st, c.fr, c.loc)
        return True

    def end(self, st, fr, loc):
        self.ctx.count("ends judged")
        if mget(st, "out") == "broken":
            self.ctx.violation("failure-zero", fr.body.p, loc, "the program ends without an error on a path where a write to the client failed", self.chain(fr))


def check(ctx):
    def programs(op):
        return lambda: ctx.run(c24.TRANSFER, c24.Transfer(op), label="%s, operation %s" % (c24.TRANSFER, op.decode()))

    def writes():
        ctx.run(c20.MAIN, Writes(), opts={"prims": {k: v for k, v in c20.PRIMS.items() if k not in c20.OWN}}, label=c20.MAIN + " (writes)")

    ctx.jobs([writes, lambda: R().run_mode(ctx, "Upload"), lambda: R().run_mode(ctx, "Download"), programs(b"upload"), programs(b"download"),
              lambda: recent.run(ctx, "C21", tty=True), lambda: gitat.run(ctx, "C21")])
