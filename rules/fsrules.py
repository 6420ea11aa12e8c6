"""What the rules about the file system share."""
from common import *

HEX = frozenset(b"0123456789abcdef")
READS = {"metadata", "symlink_metadata", "read_dir", "read", "read_to_string", "canonicalize", "read_link", "exists", "is_file", "is_dir", "try_exists",
         "file_metadata", "file_sync_all", "file_sync_data", "file_seek", "file_rewind", "file_try_clone", "file_type", "file_lock"}
WRITEFLAGS = {"create", "create_new", "truncate", "write", "append", "unknown"}
# Functions of std and the crates in use that change something outside the process.
EFFECTFUL = ("std::fs::", "std::os::unix::fs::", "tempfile::", "std::process::", "std::net::", "std::os::unix::net", "rustix::", "libc::", "nix::", "git2::Repository::init")


def paths(ev):
    """The paths an event hands to the system: (path, role)."""
    return [(the_path(p), r) for p, r in raw_paths(ev)]


def raw_paths(ev):
    op = ev[1]
    a = ev[2:-2]
    if op == "open":
        return [(a[1], "open")]
    if op in ("tempfile", "tempmake"):
        return [(a[1], op)]
    if op == "tmpdrop":
        return [(a[0], op)]
    if op in ("persist", "persist_noclobber"):
        return [(a[0], op + " from"), (a[2], op + " to")]
    if op in ("keep", "close"):
        return [(a[0], op)]
    if op in ("rename", "hard_link", "copy", "symlink", "soft_link"):
        return [(a[0], op + " from"), (a[1], op + " to")]
    if op.startswith("file_"):
        return []
    return [(a[0], op)] if a else []


def mutates(ev):
    """Whether an event changes the file system (if it succeeds)."""
    if ev[0] == "fs":
        if ev[1] == "open":
            return bool(flagset(ev[2]) & WRITEFLAGS)
        return ev[1] not in READS
    if ev[0] == "write":
        return True
    if ev[0] == "proc":
        return True
    if ev[0] == "unknown":
        return ev[1].startswith(EFFECTFUL)
    return False


def known_hex(I, st, t, depth=0):
    """Whether a term is known to be an object or lock ID: 64 lowercase hexadecimal digits."""
    if t.op == "bytes":
        return len(t.a[0]) == 64 and set(t.a[0]) <= HEX
    if is_pure(t, "hexenc"):
        return True
    n = I.decide(st, EQ(LEN(t), INT(64))) is True or st.facts.get(("const", LEN(t))) is INT(64)
    if n and safe_set(I, st, t, HEX):
        return True
    if depth < 6:
        if t.op == "pure" and t.a[0] in ("lossy", "utf8ok", "osstr"):
            return known_hex(I, st, t.a[1], depth + 1)
        if t.op == "fld" and t.a[0].op == "pure" and t.a[0].a[0] == "utf8":
            return known_hex(I, st, t.a[0].a[1], depth + 1)
        for f, v in st.facts.items():
            if f[0] == "tr" and v is True and f[1].op == "eq" and t in f[1].a:
                o = f[1].a[0] if f[1].a[1] is t else f[1].a[1]
                if is_pure(o, "hexenc"):
                    return True
    return False


def safe_set(I, st, t, allowed):
    """Whether every byte of a term is known to be one of these."""
    for f, v in st.facts.items():
        if f[0] == "tr" and v is True and f[1].op == "allin" and f[1].a[0] is t and set(f[1].a[1]) <= allowed:
            return True
    return False


CLIENT = ("payload", "data", "partial")


def from_client(t):
    """Whether a value is made from bytes a client sent."""
    for x in subs(t):
        if x.op == "payload" or x.op in ("data", "partial") and x.a[0].op == "call" and "pktline" in str(x.a[0].a):
            return True
    return False


def component(I, st, t, depth=0):
    """What a path component is: None if it can be anything."""
    if depth > 8:
        return None
    while t.op in ("cref", "box"):
        t = t.a[0]
    if t.op == "bytes":
        b = t.a[0]
        return None if b.startswith(b"/") or b".." in b.split(b"/") else "fixed name"
    if is_pure(t, "hexenc"):
        return "hash"
    if known_hex(I, st, t):
        return "validated ID"
    if t.op == "slice" and known_hex(I, st, t.a[0]):
        return "part of a validated ID"
    if t.op == "tmpname":
        return "temporary name" if all(component(I, st, x.a[0], depth + 1) or x.a[0] is BYTES(b"") for x in t.a[:2]) else None
    if t.op == "pure" and t.a[0] in ("lossy", "utf8ok", "osstr") and not from_client(t):
        return component(I, st, t.a[1], depth + 1)
    if is_pure(t, "filename"):
        return "directory entry" if not from_client(t) else None
    if t.op == "cat":
        ks = [component(I, st, x, depth + 1) for x in t.a]
        return "joined name" if all(ks) else None
    if t.op == "fld" and is_pure(t.a[0], "utf8"):
        return component(I, st, t.a[0].a[1], depth + 1)
    return None


def the_path(p):
    """The path behind references and temporary file objects."""
    while True:
        if p.op in ("cref", "box"):
            p = p.a[0]
        elif p.op == "agg" and p.a[0][0].startswith("tempfile::") and len(p.a) > 1:
            p = p.a[1]
        else:
            return p


def in_request(t):
    """Whether a term is a word of the request's command itself."""
    ops = set(x.op if x.op != "pure" else x.a[0] for x in subs(t))
    return "payload" in ops and not ops & {"digest", "data", "mapget", "parse"}


def requested(I, st, name):
    """Whether a name is the one the command names, or known to be equal to it."""
    if in_request(name):
        return True
    for f, v in st.facts.items():
        if f[0] == "tr" and v is True and f[1].op == "eq" and name in f[1].a:
            if in_request(f[1].a[0] if f[1].a[1] is name else f[1].a[1]):
                return True
    return False


def object_id(I, p):
    """The ID of the object a path is that of, if it has the form such paths have."""
    p = the_path(p)
    if p.op != "pjoin" or len(p.a) < 5:
        return None
    i = p.a[-1]
    if p.a[-4] is BYTES(b"objects") and p.a[-3] is I.mkslice(i, INT(0), INT(2)) and p.a[-2] is I.mkslice(i, INT(2), INT(4)):
        return i
    return None


def bad_part(I, st, path):
    """The part of a path that could be anything the client likes; None if there is none."""
    path = the_path(path)
    if path.op == "pjoin":
        b = bad_part(I, st, path.a[0])
        if b is not None:
            return b
        for x in path.a[1:]:
            if component(I, st, x) is None:
                return x
        return None
    if path.op == "pure" and path.a[0] in ("dirof",):
        return None
    if from_client(path) or path.op in ("w", "top", "old"):
        return path
    return None


TEMPS = ("tempfile::file::NamedTempFile", "tempfile::file::TempPath")


class FsSession(Session):
    """Follows the temporary files that are around, and the error of the last operation on a file
    whose kind a rule wants to know."""

    LASTING = ("pos", "mode", "tmp")
    ERR = ("P", T("fserr"))

    def drop_interest(self, t):
        return t[1] in TEMPS

    def gone(self, st):
        n = mget(st, "tmp", 0) - 1
        mset(st, "tmp", n if n > 0 else None)

    def on_drop(self, st, fr, t, v, where):
        if t[0] == "adt" and t[1] in TEMPS:
            self.gone(st)

    def left(self, st):
        return mget(st, "tmp", 0)

    def remember_error(self, st, e):
        st.mem[self.ERR] = e
        mset(st, "ek", None)

    def on_call(self, st, fr):
        Session.on_call(self, st, fr)
        if mget(st, "ek") is None and self.ERR in st.mem:
            k = self.kind_of(st, st.mem[self.ERR])
            if k is not None:
                mset(st, "ek", k)

    def kind_of(self, st, e):
        for f, v in st.facts.items():
            if f[0] == "var" and is_pure(f[1], "kind") and f[1].a[1] is e:
                return self.I.P.variant_name(IOKIND, v)
        return None

    def on_event(self, st, c, ev):
        if ev[0] == "fs" and ev[1] in ("tempfile", "tempmake") and ev[-2] == "ok":
            mset(st, "tmp", mget(st, "tmp", 0) + 1)
        elif ev[0] == "fs" and ev[1] in ("persist", "persist_noclobber", "tmpdrop", "close"):
            self.gone(st)
        if ev[0] == "rd" and ev[1] == "packet" and mget(st, "pos", "flush") == "flush":
            st.mem.pop(self.ERR, None)
        return Session.on_event(self, st, c, ev)
