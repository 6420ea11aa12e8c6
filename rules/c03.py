"""C03: a download session never modifies the repository.

No event that changes the file system, and no unknown function or process that could, is reachable
in a session in download mode; put-object, verify-object, lock and unlock never succeed there, and
get-object never succeeds in upload mode."""
from fsrules import *

UPLOAD_ONLY = ("put-object", "verify-object", "lock", "unlock")


class R(Session):
    def event(self, I, st, c, ev):
        if mget(st, "mode") == "Download":
            self.ctx.count("events judged")
            if ev[0] in ("fs", "write", "proc", "unknown"):
                self.ctx.site("effects in download mode", *self.where(c))
            if mutates(ev):
                self.fail(c, "modifies", "%s is reachable in a download session: %s" % (" ".join(x for x in ev[:2] if x.__class__ is str), short(ev[2] if len(ev) > 2 else ev, 160)))
        return True

    def on_status(self, I, st, c, data):
        cmd, m = mget(st, "cmd"), mget(st, "mode")
        ks = status_codes(data)
        self.ctx.count("statuses judged")
        if (ks is None or any(k < 300 for k in ks)) and (m == "Download" and cmd in UPLOAD_ONLY or m == "Upload" and cmd == "get-object"):
            self.fail(c, "served-in-wrong-mode", "%s is answered %s in %s mode" % (cmd, short(data, 80), m.lower()))

    def finished(self, ctx, m, res):
        if res is not None and m == "Download" and not ctx.sites.get("effects in download mode"):
            ctx.violation("no-effects", SESSION, "-", "a download session reads no file: the analysis isn't looking at the right code")


def check(ctx):
    R().run_modes(ctx)
