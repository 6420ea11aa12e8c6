"""C11: batch answers tell the client the right action for each object.

Every line of a successful answer to a batch request, on every path on which one is sent, must consist
of the object ID of one line of the request, a size and an action.  If the size is the length of the
file that the object with that same ID is stored in, the action must be the one for an object the
server has; otherwise the size must be the number parsed from that same line of the request, and the
action the one for an object it hasn't.  An item made after a lookup that succeeded must carry what
the lookup found.  Nothing may reorder or leave out elements of the list of objects on the way, and a
request that names a hash algorithm may succeed only where that was found to be sha256."""
from fsrules import *

ACTIONS = {"Upload": (b"noop", b"upload"), "Download": (b"download", b"noop")}


def strip(t):
    while t.op in ("cref", "box") or t.op == "fld" and t.a[0].op in ("parse",):
        t = t.a[0]
    return t


class R(FsSession):
    def batch(self, st):
        return mget(st, "cmd") == "batch"

    def word(self, t):
        """The packet and number, if a term is a word of a packet of the request."""
        if t.op == "idx" and t.a[0].op in ("pure", "split", "splitn") and t.a[1].op == "int":
            s = t.a[0]
            src = s.a[1] if s.op == "pure" else s.a[0]
            if mentions(src, "payload"):
                return src, t.a[1].a[0]
        if mentions(t, "payload"):
            ps = [x for x in subs(t) if x.op == "payload"]
            if len(ps) == 1:
                return ps[0], None
        return None

    def from_line(self, t, line):
        """Whether a number is parsed from this line of the request."""
        if not any(x.op == "parse" or is_pure(x, "parse") for x in subs(t)):
            return False
        if any(x.op in ("add", "sub", "mul", "ite", "meta_len") and not any(y.op in ("len",) for y in subs(x)) for x in subs(t) if x.op in ("ite", "meta_len", "mul")):
            return False
        ps = set(x for x in subs(t) if x.op == "payload")
        return ps == set(x for x in subs(line) if x.op == "payload")

    def stored(self, I, t, oid):
        """Whether a number is the length of the file the object is stored in."""
        if not is_pure(t, "meta_len"):
            return False
        for x in subs(t):
            if x.op == "pjoin":
                return object_id(I, x) is oid
        # What a lookup of an earlier round of the loop found; they were judged one by one.
        return any(x.op in ("okey", "w") for x in subs(t))

    def event(self, I, st, c, ev):
        if not self.batch(st):
            return True
        if ev[0] == "fs":
            for p, role in paths(ev):
                i = object_id(I, p)
                w = self.word(i) if i is not None else None
                if w is not None and ev[1] == "metadata":
                    self.ctx.site("lookups of objects", *self.where(c))
                    mset(st, "found", ev[-2] == "ok")
                elif mutates(ev):
                    self.fail(c, "effect", "%s while answering a batch request" % ev[1])
                elif below(p, b"objects"):
                    self.fail(c, "other-file", "%s of %s, which isn't where a requested object is" % (ev[1], short(p, 160)))
        elif ev[0] == "got" and mget(st, "arg") is None:
            mset(st, "arg", True if ev[1] == "Data" else False)
        elif ev[0] in ("adapt", "sort"):
            self.ctx.count("selections judged")
            if self.objects(ev[2]):
                self.fail(c, "order", "%s of the list of objects" % ev[1])
        elif ev[0] == "out" and ev[1] == "data" and mget(st, "ph", 0) and mget(st, "good") and ev[3] == "ok":
            self.line(I, st, c, ev[2])
        return True

    def objects(self, v):
        """Whether this is a list with an element for each line of the request."""
        if v.op in ("bytes", "int") or any(x.op in ("split", "splitn") or x.op == "pure" and str(x.a[0]).startswith("split") for x in (v, v.a[0] if v.a and v.a[0].__class__ is Term else v)):
            return False
        if v.op == "seq":
            return any(not x.op in ("bytes",) and mentions(x, "payload") and (x.op in ("some", "each", "when", "agg", "part", "cref", "cat") or x.op == "payload") for x in v.a)
        return False

    def line(self, I, st, c, t):
        mode = mget(st, "mode")
        self.ctx.count("lines judged")
        if t.op != "cat" or len(t.a) < 4:
            self.fail(c, "line", "a line that isn't made of an ID, a size and an action: " + short(t, 160))
            return
        oid, sep, num, end = t.a[0], t.a[1], t.a[2], t.a[3:]
        w = self.word(oid)
        if w is None or sep is not BYTES(b" ") or num.op not in ("disp", "dispf", "fmtx") or len(end) != 1 or end[0].op != "bytes":
            self.fail(c, "line", "a line that isn't made of a requested ID, a size and an action: " + short(t, 200))
            return
        act = end[0].a[0]
        present, missing = ACTIONS[mode]
        n = strip(num.a[0] if num.a[0].__class__ is Term else num)
        if self.stored(I, n, oid):
            self.ctx.count("lines for stored objects")
            if act != b" " + present + b"\n":
                self.fail(c, "action", "a stored object is answered %r in an %s session" % (act, mode.lower()))
        elif self.from_line(num, w[0]):
            self.ctx.count("lines for missing objects")
            if act != b" " + missing + b"\n":
                self.fail(c, "action", "an object with the size the client gave is answered %r in an %s session" % (act, mode.lower()))
        else:
            self.fail(c, "size", "the size sent is neither that of the stored object nor the one given for it: " + short(num, 200))

    def on_exit(self, st, fr, rv):
        if mget(st, "found") is not None and self.batch(st) and rv.op not in ("int", "bytes", "w"):
            # Does what is made of this object tell that it was found?
            ss = list(subs(rv))
            size = any(is_pure(x, "meta_len") for x in ss)
            if mget(st, "found") and not size and any(self.parsed(x) for x in ss):
                self.ctx.violation("ignored", fr.body.p, "-", "what is returned for an object that was found carries the size the client gave: " + short(rv, 200), self.chain(fr))
                mset(st, "found", None)
            elif any(x.op in ("agg", "cat") and len(x.a) > 2 for x in ss):
                # The item is made.
                mset(st, "found", None)
        return st, rv

    def parsed(self, x):
        return (x.op == "parse" or is_pure(x, "parse")) and mentions(x, "payload")

    def on_variant(self, st, v, k):
        if self.batch(st) and is_pure(v, "mapget") and v.a[2] is BYTES(b"hash-algo"):
            mset(st, "algo", k)
        return True

    def on_assume(self, st, c, val):
        if val and mget(st, "algo") == 1 and c.op == "eq" and self.sha256(self.I, st):
            mset(st, "algo", 2)
        return True

    def on_status(self, I, st, c, data):
        if not self.batch(st):
            return
        ks = status_codes(data)
        self.ctx.site("answers to batch", *self.where(c))
        self.ctx.count("answers judged")
        if ks is None:
            self.fail(c, "status", "the status sent isn't known: " + short(data, 120))
            return
        if any(k < 300 for k in ks):
            mset(st, "good", True)
            a = mget(st, "algo")
            if a is None and mget(st, "arg"):
                self.fail(c, "hash-algo", "success on a path that didn't look at hash-algo")
            elif a == 2:
                self.ctx.count("successes with sha256")
            elif a == 1:
                self.fail(c, "hash-algo", "success on a path where the hash algorithm given wasn't found to be sha256")

    def sha256(self, I, st):
        want = BYTES(b"sha256")
        bs, n = {}, {}
        for f, v in st.facts.items():
            if f[0] == "tr" and v is True and f[1].op == "eq" and want in f[1].a and any(is_pure(x, "mapget") for x in subs(f[1])):
                return True
            if f[0] == "const" and v.op == "int":
                t = f[1]
                if t.op == "idx" and t.a[1].op == "int" and any(is_pure(x, "mapget") and x.a[2] is BYTES(b"hash-algo") for x in subs(t.a[0])):
                    bs.setdefault(t.a[0], {})[t.a[1].a[0]] = v.a[0]
                elif t.op == "len":
                    n[t.a[0]] = v.a[0]
        return any(n.get(t) == 6 and all(b.get(i) == x for i, x in enumerate(b"sha256")) for t, b in bs.items())

    def finished(self, ctx, m, res):
        if res is None:
            return
        for what in ("lines for stored objects", "lines for missing objects", "successes with sha256"):
            if not ctx.counts.get(what):
                ctx.violation("never", SESSION, "-", "no reachable construct produces " + what + " in an " + m.lower() + " session")


def check(ctx):
    R().run_modes(ctx)
