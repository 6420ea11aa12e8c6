"""C04: client input cannot name a path outside the LFS directory.

Every path handed to the file system anywhere in a session, on every path through the code, is built
from the session's LFS directory and components that are fixed names, values known on that path to
be 64 lowercase hexadecimal digits (or slices of such), hashes, random temporary names made of
those, or names of existing directory entries.  Nothing else derived from client bytes may occur."""
from fsrules import *

ASSUMPTIONS = ["the LFS directory itself and its entries come from the administrator, not from the client"]


class R(Session):
    def event(self, I, st, c, ev):
        if ev[0] == "fs":
            for p, role in paths(ev):
                self.ctx.site("paths", *self.where(c))
                self.ctx.count("paths judged")
                b = bad_part(I, st, p)
                if b is not None:
                    self.fail(c, "unvalidated-path", "%s is given a path with the part %s, which isn't known to be harmless" % (role, short(b, 200)))
                elif p.op != "pjoin" and not mentions(p, "deref") and not p.op == "agg":
                    self.fail(c, "outside", "%s is given %s, which isn't below the LFS directory" % (role, short(p, 160)))
        elif ev[0] == "unknown" and ev[1].startswith(EFFECTFUL) or ev[0] == "proc":
            self.fail(c, "unknown-effect", "%s may touch any file" % (ev[1] if ev[1].__class__ is str else ev[0]))
        return True

    def finished(self, ctx, m, res):
        if res is not None and not ctx.sites.get("paths"):
            ctx.violation("no-paths", SESSION, "-", "no file is ever touched: the analysis isn't looking at the right code")


def check(ctx):
    R().run_modes(ctx)
