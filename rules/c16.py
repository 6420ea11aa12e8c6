"""C16: status codes blame the right side.

On every path from a request to its answer: 5xx is sent only where an operation of the server's (on
its files, its clock, its users or the connection) failed; where one failed and that isn't a
documented finding (no such file: 404, lock exists: 409, removal denied: 403; for batch and
list-lock, an object or lock that can't be examined counts as not there, and a lock's owner may be
unknown), the answer is 5xx, never 4xx or success."""
from fsrules import *

CREATING = ("hard_link", "persist_noclobber")
# What may fail without consequence: an object or lock that can't be examined counts as not there,
# and the owner of a lock may be unknown.
LOOKUPS = {
    "batch": ("metadata", "symlink_metadata", "exists", "open", "file_metadata"),
    "list-lock": ("metadata", "symlink_metadata", "open", "read", "file_metadata"),
    "lock": ("metadata", "symlink_metadata", "file_metadata"),
    "unlock": ("metadata", "symlink_metadata", "file_metadata"),
}
FINDINGS = {404: "NotFound", 409: "AlreadyExists", 403: "PermissionDenied"}


class R(FsSession):
    def failed(self, st, what, e):
        if what in LOOKUPS.get(mget(st, "cmd"), ()):
            mset(st, "asked", True)
            return
        mset(st, "srv", what if what in CREATING or what == "read_dir" else "operation")
        self.remember_error(st, e)

    def event(self, I, st, c, ev):
        if mget(st, "req") is None:
            return True
        k = ev[0]
        if k == "fs":
            op = ev[1]
            self.ctx.site("operations that may fail", *self.where(c))
            own = any(last(p).op == "tmpname" for p, role in paths(ev))
            if op in ("tmpdrop", "close") or op == "remove_file" and own:
                return True
            if ev[-2] == "err":
                self.failed(st, op, ev[-1])
            elif op == "read_dir":
                # Any entry may turn out to be unreadable.
                mset(st, "asked", True)
            elif mget(st, "srv") in CREATING and mget(st, "ek") == "AlreadyExists" or op in CREATING and mget(st, "ek") == "NotFound":
                # Found to exist by looking at it, or tried again because there was nothing to see.
                mset(st, "srv", None)
        elif k in ("read", "write", "flush") and "err" in ev[2:]:
            self.failed(st, k, ev[-1])
        elif k == "got" and ev[1] == "ioerr" or k in ("libc", "now", "proc", "query", "next"):
            mset(st, "asked", True)
        return True

    def on_status(self, I, st, c, data):
        ks = status_codes(data)
        cmd, srv, ek = mget(st, "cmd"), mget(st, "srv"), mget(st, "ek")
        self.ctx.site("answers", *self.where(c))
        self.ctx.count("answers judged")
        for k in ks if ks is not None else ():
            if k >= 500:
                self.ctx.count("5xx judged")
                if not srv and not mget(st, "asked"):
                    self.fail(c, "client-error-blamed-on-server", "%s is answered %d on a path where nothing of the server's failed" % (cmd, k))
            elif srv:
                self.ctx.count("answers after a failure judged")
                if k >= 400 and FINDINGS.get(k) != ek:
                    self.fail(c, "server-failure-blamed-on-client", "%s is answered %d after a failed %s (error kind: %s)" % (cmd, k, srv, ek))
                elif k < 400 and not (cmd == "list-lock" and srv == "read_dir" and ek == "NotFound"):
                    self.fail(c, "success-after-failure", "%s is answered %d after a failed %s" % (cmd, k, srv))


def check(ctx):
    R().run_modes(ctx)
