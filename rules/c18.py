"""C18: every frame written is a valid packet.

The functions that write packets are analysed for every buffer or packet they may be given, down to
what they write to the underlying stream.  On every path, what is written is a sequence of whole
frames: `0000` or `0001` exactly for a flush or delimiter packet; or the lower case, zero-padded
four-digit hexadecimal of a number that is at most 65520, followed by a payload whose length is
provably that number less four and which is the next part of what was to be sent, starting exactly
where the previous one ended.  A function that reports success has sent everything (as many bytes as
it says), and doesn't after a failed write.  What sends the frames is write_all, not a write that
may be short.  In the programs that speak the protocol, nothing else prints to standard output."""
from pkt import *

WRITE_PACKET = WRITER + "::write_packet"
WRITE = "<" + WRITER + " as core::io::write::Write>::write"
DONE = ("P", T("sent"))      # how much of the source has been sent
WANT = ("P", T("announced"))  # the number in the header
SRC = ("P", T("source"))


class R(Rule):
    def __init__(self, root):
        self.root = root

    def on_event(self, st, c, ev):
        if ev[0] != "write":
            return True
        if ev[3] not in ("write_all",):
            self.fail(c, "short-write", "part of a frame is written by %s, which may write less than it is given" % ev[3])
            return True
        if ev[4] != "ok":
            mset(st, "bad", True)
            return True
        self.ctx.site("writes", *self.where(c))
        for p in pieces(ev[2]):
            self.piece(self.I, st, c, p)
        return True

    def piece(self, I, st, c, p):
        self.ctx.count("pieces judged")
        if WANT in st.mem:
            return self.payload(I, st, c, p)
        if p.op == "fmtx":
            kind, fl, w, pr, n = p.a
            if "arg" in w or "arg" in pr:
                self.ctx.incomplete.append("%s: the width of a header isn't constant" % self.root)
            elif not (kind == "hex" and w == "4" and pr == "None" and int(fl) & 0x1a00000 == 0x1000000):
                self.fail(c, "header-form", "a header isn't formatted as four lower case hexadecimal digits: %s" % short(p, 120))
            if not I.prove_ge(st, lin_add(({}, LONGEST), lin(n), -1)):
                self.fail(c, "too-long", "a header above %d may be written: %s" % (LONGEST, short(n, 120)))
            elif not I.prove_ge(st, lin(n), -4):
                self.fail(c, "too-short", "a header below 4 may be written before data: %s" % short(n, 120))
            st.mem[WANT] = n
        elif p.op == "bytes" and p.a[0] in (b"0000", b"0001"):
            name = "Flush" if p.a[0] == b"0000" else "Delim"
            if self.root != WRITE_PACKET or I.variant(st, I.getfld(I.deref(st, T("param", 2)), 0, 0)) != pt_index(I, name):
                self.fail(c, "other-type", "a %s packet is written for something else" % name.lower())
            mset(st, "whole", True)
        elif p.op == "bytes" and len(p.a[0]) >= 4:
            # A header and maybe more that are fixed.
            try:
                n = int(p.a[0][:4], 16)
            except ValueError:
                n = None
            if n is None or p.a[0][:4] != b"%04x" % n or n != len(p.a[0]):
                self.fail(c, "header-form", "no packet: %s" % short(p, 120))
        elif p.op == "bytes":
            self.fail(c, "header-form", "no header: %s" % short(p, 120))
        else:
            self.ctx.incomplete.append("%s: what is written as a header isn't understood: %s" % (self.root, short(p, 150)))
            st.mem[WANT] = T("top")

    def payload(self, I, st, c, p):
        n = st.mem.pop(WANT)
        self.ctx.site("payloads", *self.where(c))
        self.ctx.count("payloads judged")
        if n.op != "top" and not self.same(st, lin_add(lin(n), ({}, -4)), lin(LEN(p))):
            self.fail(c, "other-length", "a header of %s is followed by %s bytes" % (short(n, 120), short(LEN(p), 120)))
        base, lo, hi = (p.a[0], p.a[1], p.a[2]) if p.op == "slice" else (p, INT(0), LEN(p))
        src = st.mem.setdefault(SRC, base)
        if src is not base or base.syms - T("deref", T("param", 2)).syms:
            self.fail(c, "other-data", "what is sent isn't part of what was given to be sent: %s" % short(base, 120))
            return
        done = st.mem.get(DONE, INT(0))
        if not self.same(st, lin(done), lin(lo)):
            self.fail(c, "gap", "what is sent doesn't start where the last part ended: %s after %s" % (short(lo, 120), short(done, 120)))
        st.mem[DONE] = hi

    def same(self, st, a, b):
        d = lin_add(a, b, -1)
        return self.I.prove_ge(st, d) and self.I.prove_ge(st, ({x: -k for x, k in d[0].items()}, -d[1]))

    def on_exit(self, st, fr, rv):
        if fr.parent is not None:
            return st, rv
        I = self.I
        for s, k in I.cases(st, rv, "core::result::Result", 2):
            if k != 0:
                continue
            self.ctx.count("successes judged")
            if mget(s, "bad"):
                self.bad(fr, "failed-write", "success is reported after a failed write")
                continue
            if WANT in s.mem and not self.same(s, lin(s.mem[WANT]), ({}, 4)):
                self.bad(fr, "no-payload", "success is reported after a header without its payload")
                continue
            done = s.mem.get(DONE, INT(0))
            if self.root == WRITE:
                n = I.getfld(rv, 0, 0)
                if not self.same(s, lin(n), lin(done)):
                    self.bad(fr, "other-count", "success is reported for %s bytes after sending %s" % (short(n, 120), short(done, 120)))
                all_ = LEN(I.deref(s, T("param", 2)))
                if not self.same(s, lin(done), lin(all_)):
                    self.bad(fr, "not-all", "success is reported after sending %s of %s" % (short(done, 120), short(all_, 120)))
            else:
                t = I.getfld(I.deref(s, T("param", 2)), 0, 0)
                if not mget(s, "whole"):
                    if I.variant(s, t) in (pt_index(I, "Flush"), pt_index(I, "Delim")):
                        self.bad(fr, "not-sent", "a flush or delimiter packet isn't written")
                    elif SRC not in s.mem:
                        self.bad(fr, "not-sent", "success is reported though nothing was sent")
                    elif not self.same(s, lin(done), lin(LEN(s.mem[SRC]))):
                        self.bad(fr, "not-all", "success is reported after sending %s of %s" % (short(done, 120), short(LEN(s.mem[SRC]), 120)))
        return st, rv

    def bad(self, fr, rule, detail):
        self.ctx.violation(rule, self.root, "return", detail, self.chain(fr))


def pieces(t):
    if t.op == "cat":
        return [q for p in t.a for q in pieces(p)]
    return [t]


def check(ctx):
    for n, b in sorted(ctx.P.bodies.items()):
        if any(x in n for x in ("git_lfs_transfer::", "scutiger_lfs::", "scutiger_core::")):
            ctx.count("functions searched for prints")
            for blk in b.blocks:
                t = blk["t"]
                if t[0] == "call" and t[1][0] == "fn" and t[1][1]["p"] == "std::io::stdio::_print":
                    ctx.violation("unframed", n, t[-1], "prints to standard output, where packets go")
    ctx.jobs([lambda r=r: ctx.run(r, R(r), opts={"prims": {}, "cap": 64, "loopcap": 3}) for r in (WRITE_PACKET, WRITE)])
    if not ctx.counts.get("payloads judged"):
        ctx.violation("no-frames", WRITE, "-", "no reachable construct writes a packet")
