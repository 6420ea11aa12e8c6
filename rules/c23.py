"""C23: session permissions follow core.sharedRepository.

For each kind of value the option has (unset, boolean, named, octal), the program is followed from its start
with the configuration lookups answering as that value makes them: where it makes its first change to the
file system, the umask set by then must be the one Git documents, and the process's own where it documents
none.  Throughout the session then started, no other umask is set, every file mode set is 0777 without the
umask, files and directories are created without a narrower or wider mode of their own, and a private
temporary file (mode 0600) isn't given its final name before its mode is set."""
from concrete import *

MAIN = "git_lfs_transfer::main"
KEY = b"core.sharedrepository"
NOTFOUND = 1
# value: what looking it up as a string and a boolean gives (None: not a boolean), what it makes the umask
CLASSES = [("unset", None, None, "initial")]
for _s, _b, _w in (
    ("false", False, "initial"), ("no", False, "initial"), ("off", False, "initial"), ("0", False, "initial"), ("umask", None, "initial"),
    ("true", True, 7), ("yes", True, 7), ("on", True, 7), ("1", True, 7), ("group", None, 7), ("", True, 7),
    ("2", True, 2), ("all", None, 2), ("world", None, 2), ("everybody", None, 2),
):
    CLASSES.append((_s or "(no value)", _s.encode(), _b, _w))
for _m in (0o600, 0o640, 0o644, 0o660, 0o664, 0o666, 0o620, 0o622, 0o602, 0o604, 0o606, 0o624, 0o642, 0o646, 0o662):
    CLASSES.append(("%04o" % _m, b"%04o" % _m, True, 0o777 & ~(_m | (_m & 0o444) >> 2)))
CLASSES.append(("640", b"640", True, 0o027))


class Value(Concrete):
    """What the conditions and masks come to under one value of the option."""

    def __init__(self, cls):
        self.name, self.s, self.b, self.want = cls


class R(Rule):
    """What the start of the program makes of one value."""

    initial = "initial"

    def __init__(self, cls):
        Rule.__init__(self)
        self.v = Value(cls)
        self.asked = 0

    def on_event(self, st, c, ev):
        I = self.I
        if ev[0] == "query" and ev[1].startswith("Config::get_") and str(bare(ev[3])).strip("'").lower().encode() == KEY:
            return self.lookup(st, c, ev)
        if ev[0] == "libc" and ev[1] == "umask":
            self.umask(st, c, ev)
        elif ev[0] != "write" and mutates(ev) or ev[0] == "rd":
            return self.first(st, c, ev)
        return True

    def lookup(self, st, c, ev):
        self.ctx.site("lookups", *self.where(c))
        if not any(x.op == "call" and str(x.a[1]).endswith("Repository::config") for x in subs(ev[2])):
            self.fail(c, "other-configuration", "core.sharedRepository is looked up in something other than the repository's configuration")
        how, x = ev[-2], ev[-1]
        if ev[1] in ("Config::get_string", "Config::get_str"):
            v = self.v.s
        elif ev[1] == "Config::get_bool":
            v = self.v.b
        else:
            return True
        if (v is not None) != (how == "ok"):
            return False
        if how == "ok":
            mset(st, "is", mget(st, "is", ()) + ((bare(x), v),))
        else:
            code = pure("Error::code", x)
            return self.I.set_variant(st, code, NOTFOUND if self.v.s is None else 0)
        return True

    def umask(self, st, c, ev):
        self.ctx.count("umask calls judged")
        x = bare(ev[2][0])
        was = mget(st, "umask", self.initial)
        new = self.v.ev(st, x)
        mset(st, "umask", x if new is None else new)
        mset(st, "is", tuple(y for y in mget(st, "is", ()) if y[0] is not ev[3]) + ((ev[3], was),))

    def on_variant(self, st, v, k):
        if is_pure(v, "parse"):
            n = self.v.number(st, v)
            if n is not None:
                return (k == 0) == (n is not False)
        return True

    def on_assume(self, st, c, val):
        r = self.v.ev(st, c)
        return r is None or bool(r) == val

    def first(self, st, c, ev):
        """The session's first change: what is in force by now stays."""
        self.ctx.count("first changes judged")
        self.ctx.site("first changes", *self.where(c))
        m = mget(st, "umask", self.initial)
        if m != self.v.want:
            self.fail(c, "umask-%s" % self.v.name, "with core.sharedRepository %s%s the first file or directory is created with %s, not %s" % (
                "" if self.v.s is None else "= ", self.v.name, self.say(m), self.say(self.v.want)))
        return False

    def say(self, m):
        return "the process's umask" if m == "initial" else "the umask %04o" % m if isinstance(m, int) else "a umask the option doesn't determine: %s" % short(m, 100)


class Session(R):
    """What a whole session does under one value, with one umask of the process."""

    def __init__(self, cls, initial):
        R.__init__(self, cls)
        self.initial = initial
        if self.v.want == "initial":
            self.v.want = initial

    def on_event(self, st, c, ev):
        if ev[0] == "fs" and ev[-2] == "ok":
            self.created(st, c, ev)
        elif ev[0] == "mode":
            self.mode(st, c, ev)
        elif ev[0] == "rd":
            mset(st, "private", None)
            mset(st, "wide", None)
        return R.on_event(self, st, c, ev)

    def first(self, st, c, ev):
        return True

    def files(self):
        return 0o666 & ~self.v.want

    def mode(self, st, c, ev):
        """A mode that something is to be created with."""
        self.ctx.count("modes judged")
        x = bare(ev[2])
        if is_pure(x, "perm") and x.a[1] == "set_mode":
            x = bare(x.a[3])
        m = self.v.ev(st, x)
        if ev[1] == "DirBuilder":
            if m is None or m & ~self.v.want != 0o777 & ~self.v.want:
                self.fail(c, "directory-mode", "directories are created with mode %s" % (short(x, 100) if m is None else "%04o" % m))
        elif m is not None and m & ~self.v.want & 0o666 == self.files():
            mset(st, "wide", True)
        else:
            mset(st, "private", True)

    def created(self, st, c, ev):
        op = ev[1]
        if op in ("create_dir", "create_dir_all", "tempmake", "tempfile", "copy") or op == "open" and flagset(ev[2]) & {"create", "create_new", "unknown"}:
            self.ctx.count("creations judged")
            self.ctx.site("creations", *self.where(c))
            m = mget(st, "umask", self.initial)
            if m != self.v.want:
                self.fail(c, "umask-in-session", "with core.sharedRepository %s, %s creates a file or directory with %s, not %s" % (self.v.name, op, self.say(m), self.say(self.v.want)))
            if op == "tempfile" and not mget(st, "wide"):
                mset(st, "private", True)
        elif op in ("set_permissions", "file_set_permissions"):
            self.ctx.count("modes judged")
            self.ctx.site("modes set", *self.where(c))
            m = bare(ev[3])
            n = self.v.ev(st, m.a[3]) if is_pure(m, "perm") and m.a[1] == "set_mode" else None
            if n is None or n & 0o666 != self.files() or n & ~(0o777 & ~self.v.want):
                self.fail(c, "mode-set", "with core.sharedRepository %s and the umask %04o, a file is given the mode %s" % (self.v.name, self.v.want, short(m, 160) if n is None else "%04o" % n))
            mset(st, "private", None)
        elif op in ("rename", "hard_link", "persist", "persist_noclobber", "keep"):
            self.ctx.count("publications judged")
            self.ctx.site("publications", *self.where(c))
            if mget(st, "private"):
                self.fail(c, "private", "%s publishes a file on a path where it still has the mode of a private temporary file" % op)


def check(ctx):
    def one(cls):
        def f():
            ctx.run(MAIN, R(cls), opts={"cap": 200}, label="%s, core.sharedRepository %s" % (MAIN, cls[0]))
            ctx.count("values of the option followed")
            if not ctx.counts.get("first changes judged"):
                ctx.violation("no-session", cls[0], "-", "core.sharedRepository = %s lets no session start" % cls[0])
            ctx.counts["first changes judged, all"] = ctx.counts.get("first changes judged, all", 0) + ctx.counts.pop("first changes judged", 0)

        return f

    def whole(cls, initial):
        return lambda: ctx.run(MAIN, Session(cls, initial), label="%s, core.sharedRepository %s, umask %04o" % (MAIN, cls[0], initial))

    n = 5
    ctx.jobs([(lambda fs: lambda: [f() for f in fs])([one(x) for x in CLASSES[i::n]]) for i in range(n)]
             + [whole(x, 0o022) for x in CLASSES if x[0] in ("unset", "group", "all")])
    for what in ("creations", "publications", "modes set"):
        if not ctx.sites.get(what):
            ctx.violation("no-" + what.replace(" ", "-"), MAIN, "-", "no reachable construct was found: " + what)
