"""C13: get-object returns exactly the stored object and its size.

On every path through a successful answer to get-object: the file opened is the one whose path is
derived from exactly the ID in the command, the size announced is the length of that open file, and
what is sent as data is everything read from it, each part once, in order and unchanged, up to its
end.  404 is sent exactly where the file was found not to exist, and no data read from a file is
sent in any other answer."""
from fsrules import *

HANDLE = ("P", T("object"))
META = ("P", T("objmeta"))
CHUNK = ("P", T("chunk"))
COUNT = ("P", T("chunklen"))


class R(FsSession):
    def event(self, I, st, c, ev):
        if ev[0] == "rd" and ev[1] == "packet" and mget(st, "pos", "flush") == "flush":
            for k in (HANDLE, META, CHUNK, COUNT):
                st.mem.pop(k, None)
        if mget(st, "cmd") != "get-object":
            return True
        if ev[0] == "fs":
            self.fs(I, st, c, ev)
        elif ev[0] == "read":
            self.read(I, st, c, ev)
        elif ev[0] == "out" and mget(st, "ok"):
            self.out(I, st, c, ev)
        return True

    def fs(self, I, st, c, ev):
        op = ev[1]
        if mutates(ev):
            self.fail(c, "effect", "%s while serving get-object" % op)
        for p, role in paths(ev):
            i = object_id(I, p)
            good = i is not None and requested(I, st, i)
            if op == "open":
                if not good:
                    self.fail(c, "other-file", "%s is opened, which isn't where the requested object is" % short(p, 160))
                    continue
                self.ctx.site("objects opened", *self.where(c))
                if ev[-2] == "ok":
                    st.mem[HANDLE] = ev[-1]
                    mset(st, "object", True)
                else:
                    self.remember_error(st, ev[-1])
            elif good and ev[-2] == "err":
                self.remember_error(st, ev[-1])
        if op == "file_metadata" and st.mem.get(HANDLE) is ev[2]:
            if ev[-2] == "ok":
                st.mem[META] = ev[-1]
            else:
                self.remember_error(st, ev[-1])

    def read(self, I, st, c, ev):
        if ev[-2] != "ok":
            return
        if ev[1] is not st.mem.get(HANDLE):
            self.fail(c, "other-source", "data is read from something that isn't known to be the requested object")
            return
        self.ctx.site("reads of the object", *self.where(c))
        if CHUNK in st.mem:
            self.fail(c, "lost-data", "more is read from the object before what was read has been sent")
        st.mem[CHUNK] = ev[2]
        st.mem[COUNT] = INT(0) if ev[4] == "to_end" else ev[-1]

    def out(self, I, st, c, ev):
        if ev[1] == "delim":
            mset(st, "ok", "body")
        elif ev[1] == "data" and mget(st, "ok") == "head":
            self.ctx.count("arguments judged")
            if ev[3] == "ok":
                self.header(I, st, c, ev[2])
        elif ev[1] == "data":
            self.ctx.count("data packets judged")
            if st.mem.get(CHUNK) is not ev[2] and ev[2] is not BYTES(b""):
                self.fail(c, "altered-data", "what is sent isn't what was read from the object: %s" % short(ev[2], 160))
            if ev[3] == "ok":
                st.mem.pop(CHUNK, None)
        elif ev[1] == "flush":
            if not mget(st, "sized"):
                self.fail(c, "no-size", "an object is sent without its size")
            n = st.mem.get(COUNT)
            if n is None or I.decide(st, EQ(n, INT(0))) is not True and n is not INT(0):
                self.fail(c, "truncated", "the answer ends on a path where the end of the object wasn't reached")
            elif CHUNK in st.mem and I.decide(st, EQ(LEN(st.mem[CHUNK]), INT(0))) is not True:
                self.fail(c, "lost-data", "the answer ends before what was read has been sent")

    def header(self, I, st, c, data):
        if data.op == "cat" and data.a[0].op == "bytes" and data.a[0].a[0].startswith(b"size="):
            m = st.mem.get(META)
            ok = m is not None and data.a[0].a[0] == b"size=" and len(data.a) <= 3 and data.a[1].op in ("disp", "dispf")
            x = data.a[1].a[0] if ok else None
            if not ok or not (is_pure(x, "meta_len") and x.a[1] is m or x.op == "meta_len" and x.a[0] is m):
                self.fail(c, "other-size", "the size announced isn't the length of the file opened: %s" % short(data, 160))
            mset(st, "sized", True)

    def on_status(self, I, st, c, data):
        if mget(st, "cmd") != "get-object":
            return
        self.ctx.site("answers to get-object", *self.where(c))
        self.ctx.count("answers judged")
        ks = status_codes(data)
        o, ek = mget(st, "object"), mget(st, "ek")
        for k in ks if ks is not None else (0,):
            if k < 300:
                mset(st, "ok", "head")
                if not o or HANDLE not in st.mem:
                    self.fail(c, "no-object", "success on a path where the requested object wasn't opened")
            elif k == 404 and ek != "NotFound":
                self.fail(c, "unfounded-absence", "404 on a path where the object wasn't found to be absent")
            elif k != 404 and ek == "NotFound" and not o:
                self.fail(c, "wrong-answer", "answered %d though the object is absent" % k)

    def finished(self, ctx, m, res):
        if res is not None and m == "Download" and not ctx.sites.get("reads of the object"):
            ctx.violation("no-object", SESSION, "-", "no reachable construct reads an object to send it")


def check(ctx):
    R().run_modes(ctx)
