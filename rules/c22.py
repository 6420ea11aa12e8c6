"""C22: unlock removes exactly the named lock and reports the truth.

On every path: the only removal below the lock directory, apart from a session's own temporary
files, happens while serving unlock, at most once per request, and removes the file whose name is
the ID in the request (or is known to be equal to it).  A success status follows only a successful
removal; after a successful removal nothing else is answered; 404 follows only an operation that
found no such file or an ID that is no lock ID, 403 only a removal that was denied."""
from fsrules import *


class R(FsSession):
    def event(self, I, st, c, ev):
        if ev[0] != "fs":
            return True
        op = ev[1]
        if op in ("remove_file", "remove_dir_all", "remove_dir", "rename"):
            p = paths(ev)[0][0]
            if below(p, b"locks") and last(p).op != "tmpname":
                self.ctx.site("removals of locks", *self.where(c))
                self.ctx.count("removals judged")
                self.removal(I, st, c, ev, op, p)
        elif op == "open" and ev[-2] == "err" and below(paths(ev)[0][0], b"locks"):
            self.remember_error(st, ev[-1])
            mset(st, "tried", "open")
        return True

    def removal(self, I, st, c, ev, op, p):
        if mget(st, "mode") == "Download" or mget(st, "cmd") != "unlock":
            self.fail(c, "removed-by-another-command", "%s of %s while serving %s in %s mode" % (op, short(p, 120), mget(st, "cmd"), mget(st, "mode")))
        if op != "remove_file":
            self.fail(c, "other-removal", "%s of %s" % (op, short(p, 120)))
        if mget(st, "removed") or mget(st, "tried") == "remove":
            self.fail(c, "second-removal", "a second removal in one request")
        name = last(p)
        if not self.named(I, st, name):
            self.fail(c, "other-lock", "%s removes %s, which isn't known to be the lock the request names" % (op, short(name, 160)))
        if ev[-2] == "ok":
            mset(st, "removed", True)
        else:
            mset(st, "tried", "remove")
            self.remember_error(st, ev[-1])

    def named(self, I, st, name):
        def arg(t):
            return any(x.op == "payload" for x in subs(t)) and not any(is_pure(x, "digest") or x.op == "data" for x in subs(t))

        if arg(name):
            return True
        for f, v in st.facts.items():
            if f[0] == "tr" and v is True and f[1].op == "eq" and name in f[1].a:
                o = f[1].a[0] if f[1].a[1] is name else f[1].a[1]
                if arg(o):
                    return True
        return bool(mget(st, "named"))

    def on_status(self, I, st, c, data):
        if mget(st, "cmd") != "unlock":
            return
        ks = status_codes(data)
        self.ctx.site("answers to unlock", *self.where(c))
        self.ctx.count("answers judged")
        ok, ek, tried = mget(st, "removed"), mget(st, "ek"), mget(st, "tried")
        for k in ks if ks is not None else (0,):
            if k < 300 and not ok:
                self.fail(c, "success-without-removal", "unlock is answered %s on a path that didn't remove the lock" % short(data, 60))
            elif k >= 300 and ok:
                self.fail(c, "failure-after-removal", "unlock is answered %d on a path that removed the lock" % k)
            elif k == 404 and tried and ek != "NotFound":
                self.fail(c, "not-found-claimed", "unlock is answered 404 after another error than that there is no such file")
            elif k == 403 and (tried != "remove" or ek != "PermissionDenied"):
                self.fail(c, "denial-claimed", "unlock is answered 403 on a path where the removal wasn't denied")
            elif k not in (200, 400, 403, 404, 500):
                self.fail(c, "odd-status", "unlock is answered %s" % short(data, 60))

    def finished(self, ctx, m, res):
        if res is not None and m == "Upload" and not ctx.sites.get("removals of locks"):
            ctx.violation("no-removal", SESSION, "-", "no reachable construct removes a lock")


def check(ctx):
    R().run_modes(ctx)
