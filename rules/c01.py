"""C01: an object is published only after full verification.

At every construct that makes a name appear below the object directory, on every path: the bytes in
the published file are exactly the concatenation S of what was read from the client for this request,
the published name is known to equal the hexadecimal SHA-256 of S, and the number of bytes in S is
known to equal the declared size.  A 2xx answer to put-object requires that publication."""
from common import *

ANCHORS = "publication below lfs/objects"


class R(Session):
    S = ("P", T("stream"))
    N = ("P", T("count"))
    LASTING = ("pos", "mode")

    def on_request(self, I, st, c):
        st.mem.pop(self.S, None)
        st.mem.pop(self.N, None)

    def on_call(self, st, fr):
        Session.on_call(self, st, fr)
        if self.S in st.mem and not mget(st, "sized"):
            if self.sized(st):
                mset(st, "sized", True)

    def sized(self, st):
        n = st.mem[self.N]
        for f, v in st.facts.items():
            if f[0] == "tr" and v is True and f[1].op == "eq":
                d = f[1]
                if self.declared(d) and n.syms <= d.syms:
                    for a, b in (d.a, d.a[::-1]):
                        if self.declared(a) and self.same(st, b, n):
                            return True
            elif f[0] == "ge" and self.declared_any(f):
                for t in self.declared_terms(f):
                    if self.I.decide(st, EQ(n, t)):
                        return True
        return False

    def same(self, st, b, n):
        return b is n or lin(b) == lin(n) or self.I.decide(st, EQ(b, n)) is True

    def declared(self, t):
        return any(is_pure(x, "mapget") and x.a[2].op == "bytes" and x.a[2].a[0] == b"size" for x in subs(t))

    def declared_any(self, f):
        return any(True for _ in self.declared_terms(f))

    def declared_terms(self, f):
        for x in refs(f):
            if x.op == "fld" and self.declared(x):
                yield x

    def event(self, I, st, c, ev):
        if ev[0] == "rd" and ev[1] == "data":
            if self.S not in st.mem:
                st.mem[self.S] = BYTES(b"")
                st.mem[self.N] = INT(0)
        elif ev[0] == "got" and ev[1] == "chunk":
            st.mem[self.S] = cat(st.mem[self.S], ev[2])
            st.mem[self.N] = ADD(st.mem[self.N], LEN(ev[2]))
            I.note(st.mem[self.N], ("u64",))
            mset(st, "sized", None)
        elif ev[0] == "fs" and ev[-2] == "ok":
            for kind, dst, h in published(ev):
                if not below(dst, b"objects"):
                    continue
                self.ctx.site(ANCHORS, *self.where(c))
                self.publish(I, st, c, kind, dst, h)
        return True

    def publish(self, I, st, c, kind, dst, h):
        S = st.mem.get(self.S)
        if mget(st, "mode") == "Download":
            self.fail(c, "published-in-download", "%s publishes %s in a download session" % (kind, short(dst, 120)))
        if S is None:
            self.fail(c, "nothing-received", "%s publishes %s before any data of the request was read" % (kind, short(dst, 120)))
            return
        content = st.mem.get(("P", T("content", h))) if h is not None else None
        if content is not S:
            self.fail(c, "other-content", "what is published isn't exactly the received stream: %s" % short(content, 160))
        name = last(dst)
        H = hexsha(S)
        if name is not H and I.decide(st, EQ(name, H)) is not True:
            self.fail(c, "hash-not-checked", "%s publishes under %s on a path where it isn't known to equal the SHA-256 of the received stream" % (kind, short(name, 120)))
        if not mget(st, "sized"):
            self.fail(c, "size-not-checked", "%s publishes on a path where the declared size isn't known to equal the number of bytes received" % kind)
        self.ctx.count("publications checked")
        mset(st, "pub", True)

    def on_status(self, I, st, c, data):
        if mget(st, "cmd") == "put-object":
            k = status_class(data)
            self.ctx.site("answers to put-object", *self.where(c))
            if k in (None, 2) and not mget(st, "pub"):
                self.fail(c, "success-without-publication", "put-object is answered %s on a path that didn't publish the object" % short(data, 100))

    def finished(self, ctx, m, res):
        if m == "Upload" and res is not None and not ctx.sites.get(ANCHORS):
            ctx.violation("never-published", SESSION, "-", "no reachable construct publishes an uploaded object")


def check(ctx):
    R().run_modes(ctx)
