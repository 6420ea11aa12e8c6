"""The pkt-line layer as seen by the transfer program: its public operations are taken as primitive
here, with the contract that the core checks establish from their source."""
from models2 import *

CORE = "scutiger_core::pktline::"
ERRP = "scutiger_core::errors::Error"
EKIND = "scutiger_core::errors::ErrorKind"
IOE = ("adt", "core::io::error::Error")
IOKIND = "core::io::error::ErrorKind"


def mget(st, k, d=None):
    for a, b in st.mon:
        if a == k:
            return b
    return d


def mset(st, k, v):
    m = dict(st.mon)
    if v is None:
        m.pop(k, None)
    else:
        m[k] = v
    st.mon = tuple(sorted(m.items(), key=lambda x: x[0]))


def mkerr(I, st, c, kind):
    """scutiger_core::errors::Error of a kind: through the constructor."""
    k = I.P.variant_index(EKIND, kind)
    if k is None:
        raise Stop("no error kind " + kind)
    d = {"p": ERRP + "::new_simple", "a": [], "res": {"p": ERRP + "::new_simple", "a": []}}
    return I.callfn(st, c.fr, (c.fid, "mkerr"), d, {}, [AGG(EKIND, k)], [("adt", EKIND)], ("adt", ERRP), c.loc)


def from_io(I, st, c, e):
    d = {"p": "core::convert::From::from", "trait": "core::convert::From", "a": [RAW(("adt", ERRP)), RAW(IOE)]}
    return I.callfn(st, c.fr, (c.fid, "fromio"), d, {}, [e], [IOE], ("adt", ERRP), c.loc)


def mkpacket(I, st, c, k, data):
    pt = AGG(CORE + "PacketType", k, *([LEN(data)] if k == 2 else []))
    f = CORE + "Packet::new"
    d = {"p": f, "a": [], "res": {"p": f, "a": []}}
    return I.callfn(st, c.fr, (c.fid, "mkpkt"), d, {}, [pt, CREF(data)], [("?",), ("?",)], ("adt", CORE + "Packet"), c.loc)


def pt_index(I, name):
    k = I.P.variant_index(CORE + "PacketType", name)
    if k is None:
        raise Stop("no packet type " + name)
    return k


def out(I, s, r, c, *e):
    I.stats["events"] += 1
    return I.M.on_event(s, c, e) is not False


def prim_read_packet(I, st, c):
    pos = mget(st, "pos", "flush")
    res = []
    s0 = st
    if not event(I, s0, c, "rd", "packet", pos):
        return []
    t = callterm(I, st, c)
    for name, np in (("Flush", "flush"), ("Delim", "inside"), ("Data", "inside")):
        s = st.fork()
        mset(s, "pos", np)
        data = T("payload", t) if name == "Data" else BYTES(b"")
        for s2, p in mkpacket(I, s, c, pt_index(I, name), data):
            if event(I, s2, c, "got", name, data):
                res.append((s2, OK(p)))
    s = st.fork()
    mset(s, "pos", "lost")
    for s2, e in mkerr(I, s, c, "BadPktlineHeader"):
        if event(I, s2, c, "got", "bad", None):
            res.append((s2, ERR(e)))
    s = st.fork()
    mset(s, "pos", "lost")
    for s2, e in from_io(I, s, c, T("fld", t, 1, 0)):
        if event(I, s2, c, "got", "ioerr", T("fld", t, 1, 0)):
            res.append((s2, ERR(e)))
    return res


def prim_skip(I, st, c):
    pos = mget(st, "pos", "flush")
    if not event(I, st, c, "rd", "skip", pos):
        return []
    res = []
    if pos == "flush":
        return [(st, OK(UNITV))]
    if pos == "inside":
        s = st.fork()
        mset(s, "pos", "flush")
        if event(I, s, c, "got", "skipped", None):
            res.append((s, OK(UNITV)))
    for kind in ("MissingData",) if pos == "lost" else ("BadPktlineHeader",):
        s = st.fork()
        mset(s, "pos", "lost")
        for s2, e in mkerr(I, s, c, kind):
            res.append((s2, ERR(e)))
    if pos == "inside":
        s = st.fork()
        t = callterm(I, s, c)
        mset(s, "pos", "lost")
        for s2, e in from_io(I, s, c, T("fld", t, 1, 0)):
            if event(I, s2, c, "got", "ioerr", T("fld", t, 1, 0)):
                res.append((s2, ERR(e)))
    return res


def prim_read(I, st, c):
    """<Reader as Read>::read: the data of the next packet, or nothing at a flush or delimiter."""
    pos = mget(st, "pos", "flush")
    if not event(I, st, c, "rd", "data", pos):
        return []
    t = callterm(I, st, c)
    data = T("data", t)
    buf = c.args[1]
    while buf.op == "dyn":
        buf = buf.a[1]
    V = I.deref_all(st, buf)
    n = LEN(V)
    res = []
    L = I.note(LEN(data), ("usize",))
    s = st.fork()
    mset(s, "pos", "inside")
    I.add_ge(s, lin_add(lin(n), lin(L), -1))
    if I.assume(s, EQ(L, INT(0)), False):
        fill(I, s, c, buf, data, L)
        if event(I, s, c, "got", "chunk", data):
            res.append((s, OK(L)))
    for name, np in (("flush", "flush"), ("delim", "inside")):
        s = st.fork()
        mset(s, "pos", np)
        if event(I, s, c, "got", "end-" + name, None):
            res.append((s, OK(INT(0))))
    s = st.fork()
    mset(s, "pos", "lost")
    fill(I, s, c, buf, T("partial", t))
    if event(I, s, c, "got", "ioerr", T("fld", t, 1, 0)):
        res.append((s, ERR(T("fld", t, 1, 0))))
    return res


def call_accessor(I, st, c, name, recv):
    f = CORE + "Packet::" + name
    d = {"p": f, "a": [], "res": {"p": f, "a": []}}
    return I.callfn(st, c.fr, (c.fid, "acc", name), d, {}, [recv], [("ref", False, ("adt", CORE + "Packet"))], ("?",), c.loc)


def prim_write_packet(I, st, c):
    p = c.args[1]
    res = []
    for s, t in call_accessor(I, st, c, "packet_type", p):
        for s2, k in I.cases(s, t, CORE + "PacketType", 3):
            if k == pt_index(I, "Data"):
                for s3, d in call_accessor(I, s2, c, "data", p):
                    res += prim_out(I, s3, c, "data", I.deref_all(s3, some_of(I, d)))
            else:
                res += prim_out(I, s2, c, "flush" if k == pt_index(I, "Flush") else "delim", BYTES(b""))
    return res


def prim_out(I, st, c, kind, data, okv=None):
    b = callterm(I, st, c)
    res = []
    s = st.fork()
    if event(I, s, c, "out", kind, data, "ok"):
        res.append((s, OK(okv or I.note(T("fld", b, 0, 0), ("usize",)))))
    s = st.fork()
    if event(I, s, c, "out", kind, data, "err"):
        e = T("fld", b, 1, 0)
        if c.retty[0] == "adt" and len(c.retty) > 3 and c.retty[3] == IOE:
            res.append((s, ERR(e)))
        else:
            for s2, x in from_io(I, s, c, e):
                res.append((s2, ERR(x)))
    return res


def prim_write(I, st, c):
    x = as_content(X(I, st, c, 1))
    n = LEN(x)
    res = []
    if n.op == "int" and n.a[0] == 0:
        return [(st, OK(INT(0)))]
    if n.op != "int":
        for z in (True, False):
            s = st.fork()
            if I.assume(s, EQ(n, INT(0)), z):
                if z:
                    res.append((s, OK(INT(0))))
                else:
                    res += prim_out(I, s, c, "data", x, n)
        return res
    return prim_out(I, st, c, "data", x, n)


def prim_flush(I, st, c):
    return prim_out(I, st, c, "flushio", BYTES(b""), UNITV)


PRIMS = {
    CORE + "Reader::read_packet": prim_read_packet,
    CORE + "Reader::skip_to_flush": prim_skip,
    "<scutiger_core::pktline::Reader as alloc::io::read::Read>::read": prim_read,
    CORE + "Writer::write_packet": prim_write_packet,
    "<scutiger_core::pktline::Writer as core::io::write::Write>::write": prim_write,
    "<scutiger_core::pktline::Writer as core::io::write::Write>::flush": prim_flush,
}


def check_prims(P, names=PRIMS):
    return [n for n in names if n not in P.bodies]
