"""C14: a lock record survives the round trip through the disk.

The record written for a new lock must be a fixed version, the time as a number and the path, joined
by colons; the lock value made from it must have exactly that time and path.  A lock value made from a
file must have as its path everything after the second colon of that file's contents, however many
colons follow, and as its time the number between the first two, where the version was found to be
the one that is written and the hash of that path to be the name of the file.  Every line that reports
a lock must report the ID derived from that path alone, that path and that time, unchanged."""
from locks import *

IDPATH = ("P", T("c14", "id"))


class R(Locks):
    def on_record(self, I, st, c, t):
        self.ctx.site("locks created", *self.where(c))
        self.ctx.count("records judged")
        a = t.a
        if not (t.op == "cat" and len(a) == 4 and a[0].op == "bytes" and a[0].a[0].endswith(b":") and a[0].a[0].count(b":") == 1 and a[1].op == "disp" and a[2] is BYTES(b":")):
            self.fail(c, "record", "a lock record that isn't version:time:path: " + short(t, 240))
            return
        st.mem[TIME] = bare(a[1].a[0])
        st.mem[PATH] = bare(a[3])
        self.version(c.fr, a[0].a[0][:-1], "written")

    def version(self, fr, v, what):
        vs = self.__dict__.setdefault("versions", {})
        vs[what] = v
        if len(set(vs.values())) > 1:
            self.blame(fr, "version", "records and IDs are " + ", ".join("%s as %s" % (k, x.decode("latin1")) for k, x in sorted(vs.items())))

    def on_lock(self, st, fr, t, path, time, owner):
        I = self.I
        self.ctx.site("functions that make locks", fr.body.p, "-")
        self.ctx.count("locks judged")
        if mget(st, "made"):
            if st.mem.get(TIME) is None:
                self.blame(fr, "made", "a lock is made without a record")
            elif st.mem[TIME] is not time and I.decide(st, EQ(st.mem[TIME], time)) is not True:
                self.blame(fr, "made-time", "the time of a new lock isn't the time in its record: %s, not %s" % (short(time, 120), short(st.mem[TIME], 120)))
            elif st.mem[PATH] is not path and I.decide(st, EQ(st.mem[PATH], path)) is not True:
                self.blame(fr, "made-path", "the path of a new lock isn't the path in its record: %s, not %s" % (short(path, 120), short(st.mem[PATH], 120)))
            else:
                self.ctx.count("new locks judged")
            return
        p = record_part(path)
        if p is None:
            if earlier(path):
                self.ctx.count("joined locks")
                return
            if not record_data(path):
                self.blame(fr, "read-path", "the path of a lock doesn't come from its file: " + short(path, 200))
            else:
                self.ctx.notes.append("the path of a lock is taken from its file in a way this rule doesn't know: " + short(path, 160))
            return
        d, cut, k = p
        sep = cut.a[-1] if cut.a[0] == "split" else cut.a[3]
        whole = cut.a[0] == "splitn" and cut.a[2] is INT(k + 1) and k == 2 and sep == b":"
        if not whole:
            self.blame(fr, "read-path", "the path of a lock isn't all that follows the second colon of its file: " + short(path, 200))
        q = self.number(time)
        if q is None or q[0] is not d or q[2] != 1 or q[1] is not cut:
            self.blame(fr, "read-time", "the time of a lock isn't the number between the colons of its file: " + short(time, 200))
        v = self.found(st, I.getidx(cut, INT(0)))
        if v is None:
            self.blame(fr, "read-version", "a lock is made where the version of its record wasn't looked at")
        else:
            self.version(fr, v, "read")
        if not self.named(I, st, d, path):
            self.blame(fr, "read-name", "a lock is made where its path wasn't found to be the one its file is named for")
        self.ctx.count("read locks judged")

    def number(self, t):
        """The part of a record that a number is parsed from."""
        t = bare(t)
        while t.op == "fld":
            t = t.a[0]
        if t.op == "parse" or is_pure(t, "parse"):
            x = t.a[1] if t.op == "pure" else t.a[0]
            ok = True
            while True:
                x = bare(x)
                if x.op == "pure" and x.a[0] in ("lossy", "utf8", "utf8ok"):
                    x = x.a[1]
                elif x.op == "fld":
                    x = x.a[0]
                else:
                    break
            return record_part(x) if ok else None
        return None

    def found(self, st, t):
        for f, v in st.facts.items():
            if f[0] == "tr" and v is True and f[1].op == "eq" and t in f[1].a:
                o = f[1].a[0] if f[1].a[1] is t else f[1].a[1]
                if o.op == "bytes":
                    return o.a[0]
            if f == ("const", t) and v.op == "bytes":
                return v.a[0]
        bs = {}
        n = None
        for f, v in st.facts.items():
            if f[0] == "const" and f[1].op == "idx" and f[1].a[0] is t and f[1].a[1].op == "int" and v.op == "int":
                bs[f[1].a[1].a[0]] = v.a[0]
            elif f == ("const", LEN(t)):
                n = v.a[0]
        if n is not None and set(bs) == set(range(n)):
            return bytes(bs[i] for i in range(n))
        return None

    def named(self, I, st, d, path):
        fp = file_path(d)
        if fp is None:
            return False
        name = bare(last(fp))
        for f, v in st.facts.items():
            if f[0] == "tr" and v is True and f[1].op == "eq":
                for a, b in (f[1].a, f[1].a[::-1]):
                    h = hash_id(a)
                    if h is not None and bare(h[1]) is path and (bare(b) is name or b in set(subs(name)) or name in set(subs(b))):
                        return True
        h = hash_id(name)
        return h is not None and I.decide(st, EQ(h[1], path)) is True

    def on_request(self, I, st, c):
        st.mem.pop(IDPATH, None)

    def on_line(self, I, st, c, what, t):
        a = t.a
        if what in ("id=", "lock "):
            self.ident(st, c, a[1] if len(a) == 3 else None, t)
        elif what == "path=":
            self.same(st, c, a[1] if len(a) == 3 and a[2] is BYTES(b"\n") else t)
        elif what == "path ":
            if len(a) != 5 or a[2] is not BYTES(b" ") or a[4] is not BYTES(b"\n"):
                self.fail(c, "line", "a line that doesn't give ID and path of a lock: " + short(t, 200))
                return
            self.ident(st, c, a[1], t)
            self.same(st, c, a[3])
        elif what in ("locked-at=", "locked-at "):
            if what == "locked-at ":
                self.ident(st, c, a[1], t)
            xs = [x for x in subs(t) if x.op in ("timestamp_opt",) or is_pure(x, "timestamp_opt")]
            if not xs:
                self.ctx.notes.append("a time is formatted in a way this rule doesn't know")
                return
            for x in xs:
                args = [y for y in (x.a[1:] if x.op == "pure" else x.a) if y.__class__ is Term]
                sec, frac = args[-2], args[-1]
                self.ctx.count("times judged")
                if frac is not INT(0) or not (earlier(sec) or self.number(sec) is not None or sec is st.mem.get(TIME)):
                    self.fail(c, "time-line", "the time reported isn't that of the lock: " + short(t, 240))

    def ident(self, st, c, i, t):
        h = hash_id(i) if i is not None else None
        if h is None:
            self.fail(c, "id", "what is reported as a lock's ID isn't the hash of its path: " + short(t, 200))
            return
        self.ctx.count("IDs judged")
        if not h[0].a[0].endswith(b":"):
            self.fail(c, "id", "what is reported as a lock's ID isn't the hash of version and path: " + short(t, 200))
            return
        self.version(c.fr, h[0].a[0][:-1], "hashed")
        st.mem[IDPATH] = bare(h[1])

    def same(self, st, c, p):
        q = st.mem.get(IDPATH)
        self.ctx.count("paths judged")
        if q is not None and q is not bare(p) and self.I.decide(st, EQ(q, bare(p))) is not True:
            self.fail(c, "path-line", "the path reported isn't the one the ID is derived from: %s, not %s" % (short(p, 160), short(q, 160)))
        if q is None:
            st.mem[IDPATH] = bare(p)

    def finished(self, ctx, m, res):
        if res is not None:
            for k in ("read locks judged", "times judged", "paths judged", "IDs judged") + (("new locks judged",) if m == "Upload" else ()):
                if not ctx.counts.get(k):
                    ctx.notes.append("none in the %s session: %s" % (m.lower(), k))


def check(ctx):
    ctx.jobs([lambda m=m: R().run_mode(ctx, m) for m in ("Upload", "Download")])
