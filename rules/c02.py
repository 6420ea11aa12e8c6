"""C02: objects appear atomically, complete and with final permissions.

Every event that can change something below the object directory is either the creation of a
directory or an atomic rename (or exclusive link) of a temporary file that this session created
elsewhere in the LFS directory, to which nothing was written after a failure, and whose mode was set
from 0777 and the session's umask since it was created; nothing is written to it afterwards.  No
temporary file outlives the request that made it, on any path, including every error path."""
from fsrules import *

PUBLISH = ("persist", "persist_noclobber", "rename", "hard_link")


class R(FsSession):
    def event(self, I, st, c, ev):
        if ev[0] == "fs":
            op = ev[1]
            if op in ("file_set_permissions", "set_permissions") and ev[-2] == "ok":
                self.chmod(I, st, c, ev)
            if op in ("keep",) or op == "tempfile" and mentions(ev[2], "builder") and "keep" in str(ev):
                self.fail(c, "kept", "a temporary file is kept")
            if mutates(ev):
                for p, role in paths(ev):
                    if below(p, b"objects"):
                        self.ctx.site("changes below objects", *self.where(c))
                        self.ctx.count("changes judged")
                        self.change(I, st, c, ev, op, role, p)
                if op in ("persist", "persist_noclobber") and ev[-2] == "ok":
                    mset(st, "published", True)
        elif ev[0] == "write":
            h = ev[1]
            p = st.mem.get(("P", T("path", h))) if h is not None else None
            if p is not None and below(p, b"objects"):
                self.fail(c, "written-in-place", "data is written to %s in place" % short(p, 120))
            if mget(st, "published") and p is not None and mentions(p, "tmpname"):
                self.fail(c, "written-after-publication", "data is written to a file after it was published")
            if ev[-2] == "err":
                mset(st, "werr", True)
        elif ev[0] == "forget":
            self.fail(c, "forgotten", "a value is forgotten instead of dropped, which may leave a temporary file behind")
        elif ev[0] == "unknown" and ev[1].startswith(EFFECTFUL) or ev[0] == "proc":
            self.fail(c, "unknown-effect", "%s may change any file" % (ev[1] if ev[1].__class__ is str else ev[0]))
        return True

    def change(self, I, st, c, ev, op, role, p):
        if op in ("create_dir_all", "create_dir"):
            return
        if op not in PUBLISH or not role.endswith(" to"):
            self.fail(c, "changed-in-place", "%s acts on %s below the object directory" % (op, short(p, 120)))
            return
        src = paths(ev)[0][0]
        if below(src, b"objects"):
            self.fail(c, "staged-inside", "%s publishes from %s, which lies below the object directory" % (op, short(src, 120)))
        elif not mentions(src, "tmpname"):
            self.fail(c, "not-a-temporary-file", "%s publishes %s, which isn't a temporary file of this session's own" % (op, short(src, 120)))
        elif not p.a[0] is src.a[0]:
            self.fail(c, "other-directory", "%s publishes from %s, outside the LFS directory" % (op, short(src, 120)))
        if mget(st, "werr"):
            self.fail(c, "incomplete", "%s publishes a file after a write to it failed" % op)
        if ev[-2] == "ok" and not mget(st, "chmod"):
            self.fail(c, "permissions-not-set", "%s publishes a file on a path where its permissions haven't been set" % op)

    def chmod(self, I, st, c, ev):
        p = paths(ev)[0][0] if ev[1] == "set_permissions" else st.mem.get(("P", T("path", ev[2])))
        mode = ev[3]
        if p is None or not mentions(p, "tmpname"):
            return
        if is_pure(mode, "perm") and mode.a[1] == "set_mode" and self.masked(mode.a[3]):
            mset(st, "chmod", True)
        else:
            self.fail(c, "wrong-permissions", "the mode set is %s, not 0777 without the umask" % short(mode, 160))

    def masked(self, m):
        if m.op != "bitand":
            return False
        a, b = m.a
        if b.op == "int":
            a, b = b, a
        return a.op == "int" and (a.a[0] & 0o666 == 0o666 or a.a[0] in (0o444, 0o644)) and b.op == "bitnot" and not from_client(b) and mentions(b, "deref")

    def on_request(self, I, st, c):
        if self.left(st):
            self.fail(c, "temporary-file-left", "a temporary file may still exist when the next request is read")

    def on_exit(self, st, fr, rv):
        if fr.parent is None:
            self.ctx.count("session ends judged")
            if self.left(st):
                self.ctx.violation("temporary-file-left", fr.body.p, "return", "a temporary file may be left behind at the end of the session")
        return st, rv

    def finished(self, ctx, m, res):
        if res is not None and m == "Upload" and not ctx.sites.get("changes below objects"):
            ctx.violation("no-publication", SESSION, "-", "no reachable construct publishes an object")


def check(ctx):
    R().run_modes(ctx)
