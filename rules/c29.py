"""C29: a session serves exactly the operation it was started with.

The program is followed from its start once for each valid operation and for several others (empty, a prefix,
an extension, another case, both).  Before anything is read, `version=1` has been sent and flushed.  Under
`upload`, no construct that looks for or makes a file is reached for a get-object request, and under
`download` none for put-object, verify-object, lock or unlock.  With any other operation nothing is read and
the program exits with a status other than 0.  A version request is answered 200 only where its argument is
known to be `1`; after quit has been answered nothing more is read or sent, and the exit status is 0."""
from concrete import *
from cli import *

MAIN = "git_lfs_transfer::main"
OTHERS = (b"", b"up", b"uploads", b"Upload", b"UPLOAD", b"upload ", b" upload", b"upload\n", b"downloads", b"down", b"Download", b"verify", b"upload,download", b"uploaddownload", b"up\xfbload", b"nothing")
SERVES = {"upload": ("put-object", "verify-object", "lock", "unlock"), "download": ("get-object",)}


class Given(Concrete):
    def __init__(self, op):
        self.op = op

    def given(self, st, t):
        if t.op in ("deref", "fld") or t.op == "pure" and t.a[0] == "lossy":
            s = source(t)
            if s and s[1] == 2 and s[0].startswith("value"):
                return self.op.decode("utf8", "replace").encode()
        return None


class R(FsSession):
    LASTING = FsSession.LASTING + ("quit", "begun", "sent")

    def __init__(self, op):
        self.v = Given(op)
        self.op = op.decode("utf8", "replace")

    def on_assume(self, st, c, val):
        r = self.v.ev(st, c)
        return r is None or bool(r) == val

    def command(self, st, cp):
        r = FsSession.command(self, st, cp)
        if r == "version":
            mset(st, "req", "version")
        return r

    def on_call(self, st, fr):
        cp = mget(st, "cp")
        if cp is not None and not mget(st, "v1") and self.one(st, cp):
            mset(st, "v1", True)
        FsSession.on_call(self, st, fr)

    def one(self, st, cp):
        """Whether a word of the request is known to be `1`."""
        for f, v in st.facts.items():
            if f[0] == "const" and f[1].op == "idx" and f[1].a[1] is INT(0) and v is INT(49):
                w = f[1].a[0]
                if w.op != "w" and cp.syms.isdisjoint(w.syms):
                    continue
                L = st.facts.get(("const", LEN(w)), LEN(w))
                if L is INT(1) or self.I.decide(st, EQ(L, INT(1))) is True:
                    return True
            elif f[0] == "tr" and v is True and f[1].op == "eq":
                for a, b in (f[1].a, f[1].a[::-1]):
                    if b.op == "bytes" and b.a[0] == b"1" and (a.op == "w" or not cp.syms.isdisjoint(a.syms)):
                        return True
        return False

    def event(self, I, st, c, ev):
        if ev[0] == "rd":
            if self.op not in SERVES:
                self.fail(c, "other-operation", "with the operation %r, the session reads a request" % self.op)
                return False
            if not mget(st, "begun"):
                self.begin(st, c)
            if mget(st, "quit") and ev[1] == "packet":
                self.fail(c, "after-quit", "another request is read after quit has been answered")
        elif ev[0] == "out":
            if not mget(st, "begun"):
                x = bare(ev[2])
                mset(st, "sent", mget(st, "sent", ()) + ((ev[1], x.a[0] if x.op == "bytes" else None, ev[3]),))
            if mget(st, "quit") and ev[3] == "ok" and ev[1] == "data":
                self.fail(c, "after-quit", "something is sent after quit has been answered")
        elif ev[0] == "fs":
            cmd = mget(st, "cmd")
            if self.op in SERVES and cmd:
                self.ctx.count("accesses judged")
                self.ctx.site("accesses for %s under %s" % (cmd, self.op), *self.where(c))
                other = [o for o in SERVES if o != self.op][0]
                if cmd in SERVES[other]:
                    self.fail(c, "wrong-mode", "with the operation %s, a %s request is served" % (self.op, cmd))
                # What becomes of it is no matter here.
                return False
        elif ev[0] == "exit":
            self.end(st, c.fr, c.loc, ev[1])
        return True

    def begin(self, st, c):
        self.ctx.count("beginnings judged")
        s = mget(st, "sent", ())
        if not s or s[0][1] not in (b"version=1", b"version=1\n") or s[-1][0] not in ("flush", "flushio") or not any(x[0] == "flush" for x in s) or any(x[2] != "ok" for x in s):
            self.fail(c, "not-announced", "the first request is read after %s has been sent" % (", ".join(x[0] + (" " + repr(x[1]) if x[1] else "") for x in s) or "nothing"))
        mset(st, "begun", True)
        mset(st, "sent", None)

    def on_status(self, I, st, c, data):
        cmd = mget(st, "cmd")
        ks = status_codes(data)
        if cmd == "version":
            self.ctx.count("version answers judged")
            good = ks is None or 200 in ks
            if good and not mget(st, "v1"):
                self.fail(c, "other-version", "a version request is answered 200 on a path where its argument isn't known to be 1")
            elif good:
                self.ctx.site("version 1 accepted", *self.where(c))
        elif cmd == "quit" and ks == {200}:
            self.ctx.site("quit accepted", *self.where(c))
            mset(st, "quit", True)

    def end(self, st, fr, loc, code):
        self.ctx.count("ends judged")
        zero = self.I.decide(st, EQ(code, INT(0)))
        if self.op not in SERVES:
            if zero is not False:
                self.ctx.violation("other-operation-succeeds", fr.body.p, loc, "with the operation %r, the program may exit with status 0" % self.op, self.chain(fr))
        elif mget(st, "quit") and mget(st, "ph") != "dead" and zero is not True and not mget(st, "broken"):
            self.ctx.violation("quit-fails", fr.body.p, loc, "after quit has been answered the program may exit with a status other than 0", self.chain(fr))

    def on_exit(self, st, fr, rv):
        if fr.parent is None:
            self.end(st, fr, "return", INT(0))
        return st, rv


def check(ctx):
    def one(op):
        def f():
            r = R(op)
            ctx.run(MAIN, r, label="%s, operation %r" % (MAIN, op.decode("utf8", "replace")))
            if op.decode("utf8", "replace") in SERVES:
                for cmd in SERVES[r.op] + ("batch", "list-lock"):
                    if not ctx.sites.get("accesses for %s under %s" % (cmd, r.op)):
                        ctx.violation("not-served-" + cmd, SESSION, "-", "no path serves %s with the operation %s" % (cmd, r.op))
                for w in ("version 1 accepted", "quit accepted"):
                    if not ctx.sites.get(w):
                        ctx.violation("no-" + w.replace(" ", "-"), SESSION, "-", "on no path: %s, with the operation %s" % (w, r.op))

        return f

    ctx.jobs([one(b"upload"), one(b"download"), lambda: [one(x)() for x in OTHERS[::2]], lambda: [one(x)() for x in OTHERS[1::2]]])
