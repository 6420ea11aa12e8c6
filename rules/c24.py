"""C24: Exit statuses and diagnostics are reliable for scripts.

Each program is followed from its start to its exits.  git-at, under each combination of its options: 0 only
where the commit was printed, 1 where no commit matched or the revision doesn't exist, 2 or more after any
other error, git show's own status with --show; a message on standard error unless the commit was printed or
shown, or the status is 1 under --quiet; nothing on standard output but the ID.  git-recent-refs, with each
kind of sorting: 0 where the references were listed, otherwise neither 0 nor without a message, and 2 or more
unless git calls it not found or a conflict.  git-lfs-transfer, with each operation: not 0, and with a
message, after a failure to open the repository, to read its configuration, to make the directories, or to
read from or write to the client."""
import gitat
import recent
from concrete import *
from cli import *

TRANSFER = "git_lfs_transfer::main"
READERR = ("P", T("readerr"))
UNSET = ("P", T("cfgerr"))


class Transfer(FsSession, Concrete):
    """In the monitor state: cause, the failure that ends the session; err, whether there was a message."""
    LASTING = FsSession.LASTING + ("cause", "err", "begun", "quit", "set")

    def __init__(self, op):
        self.op = op

    def number(self, st, p):
        return None

    def given(self, st, t):
        if t.op in ("deref", "fld") or t.op == "pure" and t.a[0] == "lossy":
            s = source(t)
            if s and s[1] == 2 and s[0].startswith("value"):
                return self.op
        return None

    def on_assume(self, st, c, val):
        r = self.ev(st, c)
        return r is None or bool(r) == val

    def event(self, I, st, c, ev):
        k = ev[0]
        if k == "query":
            if ev[-2] == "err" and ev[1] in ("Repository::open", "Repository::discover", "Repository::config", "Repository::open_ext"):
                mset(st, "cause", (ev[1], ev[-1]))
            elif ev[-2] == "err" and ev[1] in ("Config::get_string", "Config::get_entry", "Config::get_bytes"):
                st.mem[UNSET] = ev[-1]
            elif ev[-2] == "ok" and ev[1].startswith("Config::get_"):
                mset(st, "set", True)
        elif k == "rd":
            mset(st, "begun", True)
            e = st.mem.pop(UNSET, None)
            if e is not None and not mget(st, "set") and I.variant(st, pure("Error::code", e)) != gitat.NOTFOUND:
                self.fail(c, "error-dropped", "the session begins on a path after an error in reading core.sharedRepository other than that it isn't set")
        elif k == "got" and ev[1] in ("bad", "ioerr"):
            if ev[1] == "ioerr":
                st.mem[READERR] = ev[2]
            mset(st, "cause", ("a read from the client" if ev[1] == "ioerr" else "a packet's header", None))
        elif k == "out" and ev[3] == "err":
            mset(st, "cause", ("a write to the client", None))
        elif k == "fs":
            if mget(st, "begun"):
                # What becomes of it is no matter here.
                return False
            if ev[-2] == "err":
                mset(st, "cause", (ev[1], None))
        elif k == "write" and ev[1].op == "std":
            if ev[1].a[0] == "stderr":
                if bare(ev[2]) is not BYTES(b""):
                    mset(st, "err", True)
            elif ev[1].a[0] == "stdout":
                self.fail(c, "other-output", "what is printed on standard output is no packet: %s" % short(ev[2], 100))
        elif k == "exit":
            self.end(st, c.fr, c.loc, ev[1])
        return True

    def on_status(self, I, st, c, data):
        if mget(st, "cmd") == "quit":
            mset(st, "quit", True)

    def eof(self, st):
        """Whether the last error is known to be the end of the input."""
        e = st.mem.get(READERR)
        k = self.I.P.variant_index(IOKIND, "UnexpectedEof")
        return e is not None and any(f[0] == "var" and is_pure(f[1], "kind") and f[1].a[1] is e and v == k for f, v in st.facts.items())

    def end(self, st, fr, loc, code):
        self.ctx.count("ends judged")
        self.ctx.site("ends", fr.body.p, loc)
        zero = self.I.decide(st, EQ(code, INT(0)))
        cause = mget(st, "cause")
        k = bare(code)

        def bad(rule, detail):
            self.ctx.violation(rule, fr.body.p, loc, detail, self.chain(fr))

        if zero is not False:
            if cause is not None and not (cause[0] == "a read from the client" and self.eof(st)):
                bad("failure-zero", "the exit status of git-lfs-transfer may be 0 after an error in %s" % cause[0])
            elif cause is None and not mget(st, "quit"):
                bad("success", "the exit status of git-lfs-transfer may be 0 though neither quit nor the end of the input was read")
            return
        if not mget(st, "err"):
            bad("no-message", "git-lfs-transfer ends with status %s on a path where no message was printed" % short(k, 20))
        if cause is not None and not (k.op == "int" and k.a[0] >= 2):
            q = cause[0].startswith(("Repository::", "Config::"))
            if not (q and self.I.variant(st, pure("Error::code", cause[1])) in (gitat.NOTFOUND, gitat.CONFLICT)):
                bad("error-status", "the exit status of git-lfs-transfer may be %s after an error in %s" % (short(k, 20), cause[0]))

    def on_exit(self, st, fr, rv):
        if fr.parent is None:
            self.end(st, fr, "return", INT(0))
        return st, rv


def check(ctx):
    def one(op):
        return lambda: ctx.run(TRANSFER, Transfer(op), label="%s, operation %s" % (TRANSFER, op.decode()))

    ctx.jobs([one(b"upload"), one(b"download"), one(b"nothing"), lambda: recent.run(ctx, "C24")])
    gitat.run(ctx, "C24")
