"""C12: verify-object succeeds only for a stored object of the stated size.

On every path through an answer to verify-object: a success status is sent only where the length of
the stored file whose path is derived from exactly the ID in the command was found equal to the
number parsed from the request's size argument; 409 only where they were found to differ; 404 only
where looking for that file failed because it doesn't exist; and each of these findings is answered
that way."""
from fsrules import *


class R(FsSession):
    def event(self, I, st, c, ev):
        if mget(st, "cmd") == "verify-object" and ev[0] == "fs":
            for p, role in paths(ev):
                i = object_id(I, p)
                if i is not None and requested(I, st, i):
                    self.ctx.site("lookups of the object", *self.where(c))
                    if ev[-2] == "err":
                        self.remember_error(st, ev[-1])
                elif below(p, b"objects"):
                    self.fail(c, "other-file", "%s of %s, which isn't where the requested object is" % (ev[1], short(p, 160)))
            if mutates(ev):
                self.fail(c, "effect", "%s while verifying an object" % ev[1])
        return True

    def stated(self, t):
        """The number parsed from the size argument."""
        for x in subs(t):
            if x.op in ("add", "sub", "mul", "div", "rem", "ite") and not any(y.op == "payload" for y in subs(x)):
                return False
        while t.op == "fld":
            t = t.a[0]
        return t.op in ("parse",) or is_pure(t, "parse") if any(is_pure(x, "mapget") and x.a[2] is BYTES(b"size") for x in subs(t)) else False

    def actual(self, I, st, t):
        """The length of the requested object's file."""
        if not (is_pure(t, "meta_len") or t.op == "meta_len"):
            return False
        for x in subs(t):
            if x.op == "pjoin":
                i = object_id(I, x)
                if i is not None and requested(I, st, i):
                    return True
        return False

    def on_assume(self, st, c, val):
        if c.op == "eq" and mget(st, "cmd") == "verify-object":
            for a, b in (c.a, c.a[::-1]):
                if self.actual(self.I, st, a) and self.stated(b):
                    self.ctx.count("comparisons followed")
                    mset(st, "match", val)
        return True

    def on_status(self, I, st, c, data):
        if mget(st, "cmd") != "verify-object":
            return
        if mget(st, "mode") == "Download":
            if status_class(data) != 4:
                self.fail(c, "not-refused", "verify-object is answered %s in a download session" % short(data, 60))
            return
        ks = status_codes(data)
        self.ctx.site("answers to verify-object", *self.where(c))
        self.ctx.count("answers judged")
        m, ek = mget(st, "match"), mget(st, "ek")
        for k in ks if ks is not None else (0,):
            if k < 300 and m is not True:
                self.fail(c, "unverified-success", "success on a path where the stored size wasn't found equal to the stated one")
            elif k == 409 and m is not False:
                self.fail(c, "unfounded-mismatch", "409 on a path where the sizes weren't found to differ")
            elif k == 404 and ek != "NotFound":
                self.fail(c, "unfounded-absence", "404 on a path where the object wasn't found to be absent")
            elif k not in (200, 404, 409) and (m is not None or ek == "NotFound"):
                self.fail(c, "wrong-answer", "answered %d though the sizes were compared or the object is absent" % k)
            elif k >= 300 and m is True:
                self.fail(c, "wrong-answer", "answered %d though the sizes are equal" % k)

    def finished(self, ctx, m, res):
        if res is not None and m == "Upload" and not ctx.counts.get("comparisons followed"):
            ctx.violation("no-comparison", SESSION, "-", "no reachable construct compares the stored size with the stated one")


def check(ctx):
    R().run_modes(ctx)
