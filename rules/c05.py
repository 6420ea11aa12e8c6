"""C05: at most one client holds the lock on a path.

On every path: a lock file comes into existence only by an operation that fails if it exists already
(link or exclusive rename) from a file whose complete record was written before, under the hash of
exactly the path in that record; nothing else ever creates, overwrites or writes to it.  Status 201
is sent to a lock request only after that operation succeeded for the requested path in this very
request, and 409 only after it failed because the lock exists and the existing lock was read."""
from fsrules import *

ATOMIC = ("hard_link", "persist_noclobber")


class R(FsSession):
    def event(self, I, st, c, ev):
        if ev[0] == "fs":
            op = ev[1]
            for p, role in paths(ev):
                if below(p, b"locks") and last(p).op != "tmpname" and last(p) is not BYTES(b"locks"):
                    self.judge(I, st, c, ev, op, role, p)
        elif ev[0] == "write":
            p = st.mem.get(("P", T("path", ev[1])))
            if p is not None and below(p, b"locks"):
                if last(p).op != "tmpname":
                    self.fail(c, "written-in-place", "data is written to the lock file %s in place" % short(p, 160))
                elif mget(st, "made"):
                    self.fail(c, "written-after-lock", "the record is written after the lock file came into existence")
        elif ev[0] == "read" and ev[-2] == "ok" and mget(st, "ek") == "AlreadyExists":
            p = st.mem.get(("P", T("path", ev[1])))
            if p is not None and below(p, b"locks"):
                mset(st, "lockread", True)
        return True

    def judge(self, I, st, c, ev, op, role, p):
        if op in ATOMIC and role.endswith(" to"):
            self.ctx.site("lock creations", *self.where(c))
            if ev[-2] == "ok":
                self.ctx.count("lock creations judged")
                self.made(I, st, c, ev, op, p)
            else:
                mset(st, "ek", None)
                self.remember_error(st, ev[-1])
        elif op in ("rename", "persist", "copy", "symlink", "soft_link", "write") and (role.endswith(" to") or op == "write"):
            self.fail(c, "not-exclusive", "%s may replace an existing lock file %s" % (op, short(p, 160)))
        elif op == "open" and flagset(ev[2]) & WRITEFLAGS:
            if "create_new" in flagset(ev[2]):
                self.fail(c, "incomplete-record", "the lock file %s exists before its record is written" % short(p, 160))
            else:
                self.fail(c, "written-in-place", "an existing lock file is opened for writing: %s" % short(p, 160))
        elif op in ("set_len", "file_set_len"):
            self.fail(c, "written-in-place", "%s changes a lock file" % op)
        elif op == "remove_file" and mget(st, "cmd") != "unlock":
            self.fail(c, "removed", "a lock file is removed while serving %s" % mget(st, "cmd"))

    def made(self, I, st, c, ev, op, p):
        src = paths(ev)[0][0]
        name = last(p)
        content = None
        for k, v in st.mem.items():
            if k[0] == "P" and k[1].op == "path" and v is src:
                content = st.mem.get(("P", T("content", k[1].a[0])))
        inner = name.a[1].a[2] if is_pure(name, "hexenc") and is_pure(name.a[1], "digest") else None
        if inner is None:
            self.fail(c, "other-name", "the lock file is named %s, which isn't a hash" % short(name, 160))
        tail = inner.a[-1] if inner is not None and inner.op == "cat" else inner
        ctail = content.a[-1] if content is not None and content.op == "cat" else None
        if tail is None or ctail is not tail or mentions(content, "partof"):
            self.fail(c, "incomplete-record", "the lock file comes into existence on a path where its record isn't completely written: %s" % short(content, 160))
        if mget(st, "made"):
            self.fail(c, "made-twice", "a second lock file is created for one request")
        mset(st, "made", "requested" if tail is not None and self.requested(tail) else "other")

    def requested(self, t):
        for x in subs(t):
            if is_pure(x, "mapget") and x.a[2] is BYTES(b"path"):
                return True
        return False

    def on_status(self, I, st, c, data):
        if mget(st, "cmd") != "lock":
            return
        ks = status_codes(data)
        self.ctx.site("answers to lock", *self.where(c))
        self.ctx.count("answers judged")
        if ks is None or any(k < 300 for k in ks):
            if not mget(st, "made"):
                self.fail(c, "success-without-lock", "a lock request is answered %s on a path that didn't create the lock" % short(data, 60))
            elif mget(st, "made") != "requested":
                self.fail(c, "other-path", "the lock created isn't one for the requested path")
        if ks is None or 409 in ks:
            if mget(st, "ek") != "AlreadyExists" or mget(st, "made"):
                self.fail(c, "conflict-without-lock", "409 is sent on a path where creating the lock didn't fail because it exists")
            elif not mget(st, "lockread"):
                self.fail(c, "conflict-without-data", "409 is sent without the existing lock having been read")

    def finished(self, ctx, m, res):
        if res is not None and m == "Upload" and not ctx.sites.get("lock creations"):
            ctx.violation("no-locks", SESSION, "-", "no reachable construct creates a lock")


def check(ctx):
    R().run_modes(ctx)
