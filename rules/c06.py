"""C06: lock attempts never disturb each other's staging files.

In the lock directory a session creates, writes, links and removes only files with a random name of
its own making (created exclusively), apart from the link that makes a lock and the removal that
ends one.  Such a name can't be a lock ID, and only names known to be lock IDs are opened as locks,
so that a file left by a crash is neither in anybody's way nor taken for a lock.  No staging file
outlives its request on any path."""
from fsrules import *


class R(FsSession):
    def event(self, I, st, c, ev):
        if ev[0] == "fs":
            op = ev[1]
            for p, role in paths(ev):
                if below(p, b"locks") and last(p) is not BYTES(b"locks") and op not in ("metadata", "symlink_metadata", "create_dir_all", "create_dir"):
                    self.ctx.site("operations on files in locks", *self.where(c))
                    self.ctx.count("operations judged")
                    self.judge(I, st, c, ev, op, role, p)
            if op == "keep":
                self.fail(c, "kept", "a temporary file is kept")
        elif ev[0] == "forget":
            self.fail(c, "forgotten", "a value is forgotten instead of dropped, which may leave a staging file behind")
        return True

    def judge(self, I, st, c, ev, op, role, p):
        name = last(p)
        own = name.op == "tmpname"
        if own and not self.unlike_id(name):
            self.fail(c, "looks-like-a-lock", "the staging file name %s could be a lock ID" % short(name, 120))
        if own and not (name.a[2].op == "int" and name.a[2].a[0] >= 4):
            self.fail(c, "name-not-unique", "the staging file name %s has too little of its own" % short(name, 120))
        if op == "open":
            fl = flagset(ev[2])
            if fl & WRITEFLAGS:
                if not own:
                    self.fail(c, "name-not-unique", "a file is opened for writing under a name others may use: %s" % short(p, 160))
                elif "create_new" not in fl:
                    self.fail(c, "not-exclusive", "a staging file isn't created exclusively")
            elif not own and not known_hex(I, st, name):
                self.fail(c, "read-as-lock", "%s is read as a lock though it isn't known to be a lock ID" % short(name, 120))
        elif op in ("read", "read_to_string") and not own and not known_hex(I, st, name):
            self.fail(c, "read-as-lock", "%s is read as a lock though it isn't known to be a lock ID" % short(name, 120))
        elif op in ("hard_link", "persist_noclobber") and role.endswith(" from") or op in ("tmpdrop", "tempmake", "persist", "rename") and not role.endswith(" to"):
            if not own:
                self.fail(c, "foreign-staging-file", "%s uses %s, which isn't a file of this attempt's own" % (op, short(p, 160)))
        elif op == "remove_file" and not own:
            if not known_hex(I, st, name):
                self.fail(c, "foreign-removal", "%s is removed, which is neither a lock nor a file of this attempt's own" % short(p, 160))
            elif mget(st, "cmd") == "lock":
                self.fail(c, "foreign-removal", "%s is removed while serving a lock request" % short(p, 160))
        elif op in ("write", "copy", "symlink", "soft_link"):
            self.fail(c, "name-not-unique", "%s acts on %s" % (op, short(p, 160)))

    def unlike_id(self, name):
        return any(x.a[0].op == "bytes" and set(x.a[0].a[0]) - HEX for x in name.a[:2])

    def on_request(self, I, st, c):
        if self.left(st):
            self.fail(c, "staging-file-left", "a staging file may still exist when the next request is read")

    def on_exit(self, st, fr, rv):
        if fr.parent is None and self.left(st):
            self.ctx.violation("staging-file-left", fr.body.p, "return", "a staging file may be left behind at the end of the session")
        return st, rv

    def finished(self, ctx, m, res):
        if res is not None and m == "Upload" and not ctx.sites.get("operations on files in locks"):
            ctx.violation("no-locks", SESSION, "-", "no reachable construct touches a lock file")


def check(ctx):
    R().run_modes(ctx)
