"""What the rules about locks share: lock values, the records they are kept in, and the lines that report them."""
from fsrules import *

TRAIT = LFS + "backend::Lock"
LOCKCMDS = ("lock", "unlock", "list-lock")
TIME, PATH, DEST, REC = (("P", T("lockrec", n)) for n in ("time", "path", "dest", "rec"))
SHA = "sha2::sha256::Sha256"


def hash_id(t):
    """Prefix and path, if a term is the ID derived from a path."""
    t = bare(t)
    if is_pure(t, "hexenc") and is_pure(t.a[1], "digest") and t.a[1].a[1] == SHA:
        x = t.a[1].a[2]
        if x.op == "cat" and len(x.a) == 2 and x.a[0].op == "bytes":
            return x.a[0], x.a[1]
        if x.op == "bytes":
            return None
        return BYTES(b""), x
    return None


def bare(t):
    while t.op in ("cref", "box"):
        t = t.a[0]
    return t


def record_data(t):
    """The contents of the files a value was taken from."""
    return set(x for x in subs(t) if x.op == "data" and not mentions(x, "payload"))


def record_part(t):
    """(contents, how they are cut, number) if a term is a part of a record."""
    t = bare(t)
    if t.op == "idx" and t.a[1].op == "int" and (is_pure(t.a[0], "splitn") or is_pure(t.a[0], "split")):
        s = t.a[0]
        if s.a[1].op == "data":
            return s.a[1], s, t.a[1].a[0]
    return None


def file_path(d):
    """The path of the file some contents were read from."""
    for x in subs(d):
        if x.op == "pjoin":
            return x
    return None


def parts(t):
    """The values a value is directly made of."""
    st = [t]
    while st:
        x = st.pop()
        if x.op == "agg":
            yield x
        if x.op in ("agg", "dyn", "box", "cref", "seq"):
            st.extend(y for y in x.a if y.__class__ is Term)


def earlier(t):
    """Whether a value is one of several, or of an earlier round of a loop; each of them has been judged."""
    while t.op in ("elem", "hole", "fld", "idx", "deref"):
        t = t.a[0]
    return t.op in ("w", "old", "okey")


class Locks(FsSession):
    """Sees every lock value where it is first returned."""

    def __init__(self):
        self.seen = {}

    def lock_types(self):
        if not hasattr(self, "types"):
            self.types = {}
            for args, items in self.I.P.impls.get(TRAIT, ()):
                t = args[0]
                if t[0] == "adt":
                    a = self.I.P.adt(t[1])
                    fs = a["v"][0]["f"]
                    self.types[t[1]] = (
                        [i for i, (n, ty) in enumerate(fs) if ty.get("p") in ("bytes::bytes::Bytes", "alloc::vec::Vec", "std::ffi::os_str::OsString")],
                        [i for i, (n, ty) in enumerate(fs) if ty["k"] in ("i64", "u64")],
                        [i for i, (n, ty) in enumerate(fs) if ty.get("p") == "alloc::string::String"],
                    )
        return self.types

    def incmd(self, st):
        return mget(st, "cmd") in LOCKCMDS

    def event(self, I, st, c, ev):
        if ev[0] == "rd" and ev[1] == "packet" and ev[2] == "flush":
            for k in (TIME, PATH, DEST, REC):
                st.mem.pop(k, None)
        if not self.incmd(st):
            return True
        if ev[0] == "fs" and ev[1] in ("open", "tempfile", "tempmake") and mutates(ev):
            # A new file, and a new attempt.
            st.mem.pop(REC, None)
        elif ev[0] == "write" and ev[-2] == "ok" and below_locks(ev[1]):
            # However it is written.
            st.mem[REC] = cat(st.mem[REC], bare(ev[2])) if REC in st.mem else bare(ev[2])
        elif ev[0] == "fs" and ev[1] in ("hard_link", "persist_noclobber", "rename", "persist") and ev[-2] == "ok":
            dst = the_path(ev[3] if ev[1] in ("hard_link", "rename") else ev[4])
            if below(dst, b"locks"):
                mset(st, "made", True)
                st.mem[DEST] = dst
                self.on_record(I, st, c, st.mem.get(REC, BYTES(b"")))
        elif ev[0] == "fs" and ev[1] in ("metadata", "symlink_metadata") and below(the_path(ev[2]), b"locks"):
            mset(st, "noowner", ev[-2] == "err")
        elif ev[0] == "out" and ev[1] == "data" and ev[3] == "ok" and mget(st, "ph", 0):
            t = bare(ev[2])
            if t.op == "cat" and t.a[0].op == "bytes":
                b = t.a[0].a[0]
                for p in (b"id=", b"path=", b"locked-at=", b"ownername=", b"lock ", b"path ", b"locked-at ", b"ownername ", b"owner "):
                    if b.startswith(p):
                        self.on_line(I, st, c, p.decode(), t)
            elif t.op == "bytes" and t.a[0].startswith((b"ownername=", b"ownername ", b"owner ")):
                self.on_line(I, st, c, "const", t)
        return True

    def on_record(self, I, st, c, t):
        """A new lock appears, with this record."""

    def on_line(self, I, st, c, what, t):
        """A line that reports something about a lock is sent."""

    def on_lock(self, st, fr, t, path, time, owner):
        """A function returns a new lock value."""

    def on_exit(self, st, fr, rv):
        if self.incmd(st) and rv.op not in ("int", "bytes", "w"):
            for x in parts(rv):
                if x.a[0][0] in self.lock_types():
                    if self.seen.setdefault(x, fr.body.p) == fr.body.p:
                        ps, ts, os = self.lock_types()[x.a[0][0]]
                        if ps and ts and os:
                            self.on_lock(st, fr, x, *[bare(x.a[i[0] + 1]) for i in (ps, ts, os)])
        return st, rv

    def blame(self, fr, rule, detail):
        self.ctx.violation(rule, fr.body.p, getattr(fr, "site", None) or "-", detail, self.chain(fr))


def below_locks(h):
    for x in subs(h):
        if x.op == "pjoin":
            return below(x, b"locks")
    return False
