"""C30: lock ownership is reported truthfully.

The owner in every lock value must be the name (or number) of the user that owns the very file the
lock was read from or was made as; "unknown" is allowed only where looking that up failed.  A line
marks a lock as ours only where the name of the user the process runs as was compared with that owner
and found equal, and as theirs only where it was found to differ; download sessions send no such line,
and upload sessions' listings do."""
from locks import *

CMP = ("P", T("c30", "compared"))
UIDS = ("getuid", "geteuid")


def myself(t):
    """Whether a value is who the process runs as."""
    return any(any(u in str(x.a[0]) if x.a else False for u in UIDS) for x in subs(t) if x.op in ("call", "pure", "libc")) or any(u in str(t) for u in UIDS)


class R(Locks):
    def on_lock(self, st, fr, t, path, time, owner):
        self.ctx.count("owners judged")
        self.ctx.site("functions that make locks", fr.body.p, "-")
        if earlier(owner):
            return
        uids = [x for x in subs(owner) if is_pure(x, "meta_uid")]
        if owner.op == "bytes":
            if mget(st, "noowner") is not True:
                self.blame(fr, "owner-const", "the owner of a lock is %s though it could be looked up" % short(owner, 60))
            return
        if not uids:
            self.blame(fr, "owner", "the owner of a lock isn't that of any file: " + short(owner, 160))
            return
        want = self.file_of(st, path)
        for u in uids:
            got = file_path(u)
            if got is None:
                continue
            if want is not None and got is not want:
                self.blame(fr, "owner-file", "the owner of a lock is that of %s, not of the lock's file %s" % (short(got, 160), short(want, 160)))
        if owner.op == "fld":
            while owner.op == "fld":
                owner = owner.a[0]
            if "from_uid" not in str(owner)[:60]:
                self.blame(fr, "owner", "the owner of a lock isn't looked up by the user ID of its file: " + short(owner, 160))
        elif owner.op == "cat":
            if not all(x.op == "bytes" or x.op == "disp" and is_pure(bare(x.a[0]), "meta_uid") for x in owner.a):
                self.blame(fr, "owner", "the owner of a lock isn't the user ID of its file: " + short(owner, 160))
        self.ctx.count("owners of files judged")

    def file_of(self, st, path):
        if mget(st, "made"):
            return st.mem.get(DEST)
        ds = list(record_data(path))
        return file_path(ds[0]) if len(ds) == 1 else None

    def on_assume(self, st, c, val):
        if c.op == "eq" and self.incmd(st):
            for a, b in (c.a, c.a[::-1]):
                if myself(a) and not myself(b):
                    mset(st, "own", val)
                    st.mem[CMP] = bare(b)
        return True

    def on_exit(self, st, fr, rv):
        if self.incmd(st) and mget(st, "ph", 0) == 0 and rv.op not in ("int", "bytes", "w"):
            self.judge(st, fr, rv)
        return Locks.on_exit(self, st, fr, rv)

    def judge(self, st, fr, rv):
        for x in lines(rv):
            k = mark(x)
            if k is None:
                continue
            if self.seen.setdefault(x, fr.body.p) != fr.body.p:
                return
            self.ctx.count("marks judged")
            self.ctx.count("marks " + k)
            own = mget(st, "own")
            if own is None:
                own = self.known(st, rv)
            if (k == "ours") is not (own is True):
                self.blame(fr, "mark", "a lock is marked as %s where its owner was %s" % (k, "found to be the current user" if own else "found to be someone else" if own is False else "not compared with the current user"))
            b = st.mem.get(CMP)
            os = [y for y in lines(rv) if y.a[0].op == "bytes" and y.a[0].a[0].startswith(b"ownername ")]
            for y in os:
                o = y.a[2:-1]
                # The name reported, which must be the one compared.
                name = cat(*[BYTES(z.a[0][1:]) if j == 0 and z.op == "bytes" else BYTES(z.a[0][:-1]) if z.op == "bytes" and z.a[0].endswith(b"\n") else z for j, z in enumerate(y.a[2:]) if z is not BYTES(b"\n")])
                if b is not None and not earlier(b) and name is not b and not (set(x for x in subs(name) if is_pure(x, "meta_uid")) & set(x for x in subs(b) if is_pure(x, "meta_uid"))) and b.op != "bytes":
                    self.blame(fr, "compared", "what was compared with the current user, %s, isn't the owner reported, %s" % (short(b, 120), short(name, 120)))
            mset(st, "own", None)
            st.mem.pop(CMP, None)
            return

    def known(self, st, rv):
        """What had already been found out about the owner."""
        here = set(subs(rv))
        tail = b" ".join(y.a[-1].a[0] for y in lines(rv) if y.a[0].op == "bytes" and y.a[0].a[0].startswith(b"ownername ") and y.a[-1].op == "bytes")
        said = lambda b: b.op == "bytes" and bool(b.a[0]) and b.a[0] + b"\n" in tail
        for f, v in st.facts.items():
            if f[0] == "tr" and f[1].op == "eq":
                for a, b in (f[1].a, f[1].a[::-1]):
                    if myself(a) and not myself(b) and (said(b) or bare(b) in here or b.op == "cat" and set(b.a) <= here):
                        return v
        return None

    def on_line(self, I, st, c, what, t):
        if what == "const" or what in ("ownername=", "ownername "):
            self.ctx.count("owner lines judged")
            if what == "const" and t.a[0].startswith(b"owner "):
                what = "owner "
            else:
                v = t.a[1:] if what == "ownername=" else t.a[2:] if what == "ownername " else ()
                if v and not any(earlier(x) or is_pure(x, "meta_uid") for y in v for x in subs(y)) and not (v[0].op == "bytes" and b"unknown" in v[0].a[0]):
                    self.fail(c, "owner-line", "the owner reported isn't that of a lock: " + short(t, 200))
        if what == "owner ":
            self.ctx.count("ownership marks sent")
            if mget(st, "mode") == "Download" or mget(st, "cmd") != "list-lock":
                self.fail(c, "mark-sent", "an ownership mark is sent in a %s session's answer to %s" % (mget(st, "mode").lower(), mget(st, "cmd")))
            if mark(t) is None:
                self.fail(c, "mark-line", "an ownership mark that is neither ours nor theirs: " + short(t, 160))

    def finished(self, ctx, m, res):
        if res is None:
            return
        if m == "Upload":
            for k in ("marks ours", "marks theirs", "ownership marks sent"):
                if not ctx.counts.get(k):
                    ctx.violation("never", SESSION, "-", "no reachable construct makes any " + k + " in an upload session")


def lines(t):
    """The lines in a value."""
    for x in subs(t):
        if x.op == "cat" and x.a[0].op == "bytes":
            yield x


def mark(t):
    if t.op == "cat" and t.a[0].op == "bytes" and t.a[0].a[0].startswith(b"owner ") and t.a[-1].op == "bytes":
        w = t.a[-1].a[0].rsplit(b" ", 1)[-1]
        return {b"ours\n": "ours", b"theirs\n": "theirs"}.get(w)
    return None


def check(ctx):
    ctx.jobs([lambda m=m: R().run_mode(ctx, m) for m in ("Upload", "Download")])
