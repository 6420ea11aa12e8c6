"""Transfer functions for the library functions the workspace calls.

A model is a function m(I, st, c) -> [(state, value)].  Strings, byte vectors, byte buffers and
slices of bytes are all represented by a term for their contents; paths by a join of components;
iterators by pull-based descriptions; containers by a summary of their elements.  Functions with an
effect on the outside world raise an event, which the property rules see, once per outcome.
"""
from interp import *
from interp import ty
import terms
from load import head, subst
from terms import *

SKIP = T("skip")
NORET = ()
STRINGY = {
    "alloc::string::String",
    "alloc::vec::Vec",
    "bytes::bytes::Bytes",
    "bytes::bytes_mut::BytesMut",
    "bytes::bytes::BytesMut",
    "alloc::borrow::Cow",
    "std::ffi::os_str::OsString",
    "std::ffi::os_str::OsStr",
    "std::path::PathBuf",
    "std::path::Path",
}
PATHY = {"std::path::PathBuf", "std::path::Path"}
TABLE = {}


def model(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f

    return deco


def one(st, v):
    return [(st, v)]


def X(I, st, c, i):
    """The value behind argument i."""
    return I.deref_all(st, c.args[i])


def D(I, st, v):
    return I.deref_all(st, v)


def is_stringy(t):
    return t[0] in ("str",) or t[0] == "adt" and t[1] in STRINGY or t[0] in ("slice", "array") and t[1] == ("u8",)


def peel(t):
    while t[0] == "ref" or t[0] == "adt" and t[1] in ("alloc::boxed::Box",):
        t = t[2]
    return t


def callterm(I, st, c, *extra):
    a = []
    for x in c.args:
        v = I.deref_all(st, x)
        a.append(v if v.depth < 30 else T("deep", v.op))
    return I.fresh(st, T("call", c.fid, c.p, *a))


def pure(name, *a):
    return T("pure", name, *a)


def opaque(I, st, c, ty_=None):
    t = callterm(I, st, c)
    return I.note(t, ty_ or c.retty)


def fork2(I, st, c, ev, okv, errv):
    out = []
    s1 = st.fork()
    if I.M.on_event(s1, c, ev + ("ok", okv)) is not False:
        out.append((s1, OK(okv)))
    s2 = st.fork()
    if I.M.on_event(s2, c, ev + ("err", errv)) is not False:
        out.append((s2, ERR(errv)))
    I.stats["events"] += 1
    return out


def effect(I, st, c, ev, okv=None, pre=None):
    """An operation that succeeds or fails."""
    b = callterm(I, st, c)
    if okv is None:
        okt = c.retty[2] if c.retty[0] == "adt" and c.retty[1] == RES else ("?",)
        okv = UNITV if okt == ("tuple",) else I.note(T("fld", b, 0, 0), okt)
    return fork2(I, st, c, ev, okv, T("fld", b, 1, 0))


def event(I, st, c, *ev):
    I.stats["events"] += 1
    return I.M.on_event(st, c, ev) is not False


def panic_unless(I, st, c, what, cond):
    """Continues only where cond holds; reports a possible panic otherwise."""
    d = I.decide(st, cond)
    if d is True:
        return True
    s = st.fork()
    if I.assume(s, NOT(cond), True) if d is None else True:
        I.M.on_panic(s, c, what, cond)
    if d is False:
        return False
    return I.assume(st, cond, True)


def opt_cases(I, st, v, adt=OPT):
    return I.cases(st, v, adt, 2)


def some_of(I, v):
    return I.getfld(v, 1, 0)


# ---- Option, Result, ? ------------------------------------------------------------------------
def combin(which):
    return which


@model("Try::branch")
def m_branch(I, st, c):
    v = c.args[0]
    r = []
    t = c.targs[0]
    isres = t[0] == "adt" and t[1] == RES
    for s, k in I.cases(st, v, RES if isres else OPT, 2):
        good = (k == 0) if isres else (k == 1)
        if good:
            r.append((s, AGG(CF, 0, I.getfld(v, k, 0))))
        elif isres:
            r.append((s, AGG(CF, 1, ERR(I.getfld(v, 1, 0)))))
        else:
            r.append((s, AGG(CF, 1, NONE())))
    return r


def convert(I, st, c, v, frm, to):
    """Into / From / ? conversions."""
    if frm == to:
        return [(st, v)]
    if to[0] == "adt" and to[1] == "alloc::boxed::Box" and len(to) > 2 and to[2][0] == "dyn":
        if frm[0] == "adt" and frm[1] == "alloc::boxed::Box":
            return [(st, v)]
        return [(st, T("dyn", frm, T("box", v)))]
    d = {"p": "core::convert::From::from", "trait": "core::convert::From", "a": [RAW(to), RAW(frm)]}
    return I.callfn(st, c.fr, (c.fid, "from"), d, {}, [v], [frm], to, c.loc)


@model("FromResidual::from_residual")
def m_residual(I, st, c):
    t, r = c.targs[0], c.targs[1]
    v = c.args[0]
    if t[0] == "adt" and t[1] == OPT:
        return one(st, NONE())
    if t[0] == "adt" and t[1] == RES:
        if r[0] == "adt" and r[1] == OPT:
            return None
        e = I.getfld(v, 1, 0)
        return [(s, ERR(x)) for s, x in convert(I, st, c, e, r[3], t[3])]
    return None


@model("Into::into", "TryInto::try_into")
def m_into(I, st, c):
    if c.p.endswith("try_into"):
        return None
    return convert(I, st, c, c.args[0], c.targs[0], c.targs[1])


@model("From::from")
def m_from(I, st, c):
    to = c.targs[0]
    frm = c.targs[1] if len(c.targs) > 1 else (c.argtys[0] if c.argtys else ("?",))
    v = c.args[0]
    if frm == to:
        return one(st, v)
    pt, pf = peel(to), peel(frm)
    if to[0] == "adt" and to[1] == "alloc::boxed::Box" and len(to) > 2 and to[2][0] == "dyn":
        return one(st, T("dyn", frm, T("box", v)))
    if to[0] == "adt" and to[1] == OPT:
        return one(st, SOME(v))
    if is_stringy(pt) or is_stringy(pf):
        x = I.deref_all(st, v)
        if to[0] == "adt" and to[1] == "alloc::boxed::Box":
            return one(st, T("box", x))
        return one(st, as_content(x))
    if to[0] in UNSIGNED or to[0] in SIGNED or to[0] == "char":
        return one(st, v)
    if to[0] == "adt" and to[1] in ("core::io::error::Error", "std::process::Stdio"):
        return one(st, T("pure", "from", head(to), v))
    return one(st, T("pure", "from", head(to), v))


def as_content(x):
    """Array of bytes as contents."""
    if x.op == "agg" and x.a[0][0] == "array":
        return T("seq", *x.a[1:])
    return x


def call1(I, st, c, f, args, n=0, retty=("?",)):
    return I.call_value(st, c.fr, (c.fid, n), f, args, retty, c.loc)


@model("Option::map")
def m_opt_map(I, st, c):
    r = []
    v = c.args[0]
    for s, k in opt_cases(I, st, v):
        if k:
            r += [(s2, SOME(x)) for s2, x in call1(I, s, c, c.args[1], [some_of(I, v)])]
        else:
            r.append((s, NONE()))
    return r


@model("Option::and_then")
def m_opt_and_then(I, st, c):
    r = []
    v = c.args[0]
    for s, k in opt_cases(I, st, v):
        if k:
            r += call1(I, s, c, c.args[1], [some_of(I, v)], retty=c.retty)
        else:
            r.append((s, NONE()))
    return r


@model("Option::filter")
def m_opt_filter(I, st, c):
    r = []
    v = c.args[0]
    for s, k in opt_cases(I, st, v):
        if not k:
            r.append((s, NONE()))
            continue
        for s2, b in call1(I, s, c, c.args[1], [CREF(some_of(I, v))], retty=("bool",)):
            for val in (True, False):
                s3 = s2.fork()
                if I.assume(s3, b, val):
                    r.append((s3, SOME(some_of(I, v)) if val else NONE()))
    return r


@model("Option::map_or", "Option::map_or_else")
def m_opt_map_or(I, st, c):
    r = []
    v = c.args[0]
    for s, k in opt_cases(I, st, v):
        if k:
            r += call1(I, s, c, c.args[2], [some_of(I, v)], retty=c.retty)
        elif c.p.endswith("_else"):
            r += call1(I, s, c, c.args[1], [], 1, retty=c.retty)
        else:
            r.append((s, c.args[1]))
    return r


@model("Option::is_some_and", "Option::is_none_or")
def m_is_some_and(I, st, c):
    r = []
    v = c.args[0]
    for s, k in opt_cases(I, st, v):
        if k:
            r += call1(I, s, c, c.args[1], [some_of(I, v)], retty=("bool",))
        else:
            r.append((s, FALSE if c.p.endswith("_and") else TRUE))
    return r


@model("Result::is_ok_and", "Result::is_err_and")
def m_is_ok_and(I, st, c):
    r = []
    v = c.args[0]
    want = 0 if "is_ok" in c.p else 1
    for s, k in I.cases(st, v, RES, 2):
        if k == want:
            r += call1(I, s, c, c.args[1], [I.getfld(v, k, 0)], retty=("bool",))
        else:
            r.append((s, FALSE))
    return r


def isvar(v, adt, k):
    if v.op == "agg":
        return TRUE if v.a[0][1] == k else FALSE
    return T("isvar", v, (adt, k))


@model("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def m_is(I, st, c):
    v = X(I, st, c, 0)
    adt = OPT if "Option" in c.p else RES
    m = c.p.rsplit("::", 1)[1]
    k = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[m]
    kk = I.variant(st, v)
    if kk is not None:
        return one(st, TRUE if kk == k else FALSE)
    return one(st, isvar(v, adt, k))


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def m_unwrap(I, st, c):
    v = c.args[0]
    adt = OPT if "Option" in c.p else RES
    good = 1 if adt == OPT else 0
    r = []
    for s, k in I.cases(st, v, adt, 2):
        if k == good:
            r.append((s, I.getfld(v, k, 0)))
        else:
            I.M.on_panic(s, c, c.p.rsplit("::", 1)[1], v)
    return r


@model("Result::unwrap_err", "Result::expect_err")
def m_unwrap_err(I, st, c):
    v = c.args[0]
    r = []
    for s, k in I.cases(st, v, RES, 2):
        if k == 1:
            r.append((s, I.getfld(v, k, 0)))
        else:
            I.M.on_panic(s, c, "unwrap_err", v)
    return r


def default_value(I, t):
    if t[0] in UNSIGNED or t[0] in SIGNED or t[0] in ("bool", "char"):
        return INT(0)
    if is_stringy(t):
        if t[0] == "adt" and t[1] == "alloc::vec::Vec" and t[2] != ("u8",):
            return T("seq")
        return BYTES(b"")
    if t[0] == "adt" and t[1] == OPT:
        return NONE()
    if t == ("tuple",):
        return UNITV
    return T("pure", "default", head(t))


@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default", "Option::unwrap_or_else", "Result::unwrap_or_else")
def m_unwrap_or(I, st, c):
    v = c.args[0]
    adt = OPT if "Option" in c.p else RES
    good = 1 if adt == OPT else 0
    r = []
    m = c.p.rsplit("::", 1)[1]
    for s, k in I.cases(st, v, adt, 2):
        if k == good:
            r.append((s, I.getfld(v, k, 0)))
            continue
        if adt == RES:
            event(I, s, c, "discard", v, I.getfld(v, 1, 0), m)
        if m == "unwrap_or":
            r.append((s, c.args[1]))
        elif m == "unwrap_or_default":
            r.append((s, default_value(I, c.retty)))
        else:
            r += call1(I, s, c, c.args[1], [] if adt == OPT else [I.getfld(v, 1, 0)], retty=c.retty)
    return r


@model("Result::ok", "Result::err")
def m_res_ok(I, st, c):
    v = c.args[0]
    want = 0 if c.p.endswith("::ok") else 1
    r = []
    for s, k in I.cases(st, v, RES, 2):
        if k == want:
            r.append((s, SOME(I.getfld(v, k, 0))))
        else:
            if k == 1:
                event(I, s, c, "discard", v, I.getfld(v, 1, 0), "ok")
            r.append((s, NONE()))
    return r


@model("Option::ok_or", "Option::ok_or_else")
def m_ok_or(I, st, c):
    v = c.args[0]
    r = []
    for s, k in opt_cases(I, st, v):
        if k:
            r.append((s, OK(some_of(I, v))))
        elif c.p.endswith("_else"):
            r += [(s2, ERR(x)) for s2, x in call1(I, s, c, c.args[1], [], retty=c.retty[3] if len(c.retty) > 3 else ("?",))]
        else:
            r.append((s, ERR(c.args[1])))
    return r


@model("Result::map")
def m_res_map(I, st, c):
    v = c.args[0]
    r = []
    for s, k in I.cases(st, v, RES, 2):
        if k == 0:
            r += [(s2, OK(x)) for s2, x in call1(I, s, c, c.args[1], [I.getfld(v, 0, 0)], retty=c.retty[2] if len(c.retty) > 2 else ("?",))]
        else:
            r.append((s, ERR(I.getfld(v, 1, 0))))
    return r


@model("Result::map_err")
def m_res_map_err(I, st, c):
    v = c.args[0]
    r = []
    for s, k in I.cases(st, v, RES, 2):
        if k == 1:
            r += [(s2, ERR(x)) for s2, x in call1(I, s, c, c.args[1], [I.getfld(v, 1, 0)], retty=c.retty[3] if len(c.retty) > 3 else ("?",))]
        else:
            r.append((s, OK(I.getfld(v, 0, 0))))
    return r


@model("Result::map_or", "Result::map_or_else")
def m_res_map_or(I, st, c):
    v = c.args[0]
    r = []
    for s, k in I.cases(st, v, RES, 2):
        if k == 0:
            r += call1(I, s, c, c.args[2], [I.getfld(v, 0, 0)], 0, c.retty)
        else:
            event(I, s, c, "discard", v, I.getfld(v, 1, 0), "map_or")
            if c.p.endswith("_else"):
                r += call1(I, s, c, c.args[1], [I.getfld(v, 1, 0)], 1, c.retty)
            else:
                r.append((s, c.args[1]))
    return r


@model("Result::and_then")
def m_res_and_then(I, st, c):
    v = c.args[0]
    r = []
    for s, k in I.cases(st, v, RES, 2):
        if k == 0:
            r += call1(I, s, c, c.args[1], [I.getfld(v, 0, 0)], retty=c.retty)
        else:
            r.append((s, ERR(I.getfld(v, 1, 0))))
    return r


@model("Result::or_else")
def m_res_or_else(I, st, c):
    v = c.args[0]
    r = []
    for s, k in I.cases(st, v, RES, 2):
        if k == 1:
            r += call1(I, s, c, c.args[1], [I.getfld(v, 1, 0)], retty=c.retty)
        else:
            r.append((s, OK(I.getfld(v, 0, 0))))
    return r


@model("Result::and", "Result::or")
def m_res_and(I, st, c):
    v = c.args[0]
    r = []
    isand = c.p.endswith("::and")
    for s, k in I.cases(st, v, RES, 2):
        if (k == 0) == isand:
            if k == 1:
                event(I, s, c, "discard", v, I.getfld(v, 1, 0), "or")
            r.append((s, c.args[1]))
        else:
            r.append((s, v))
            x = c.args[1]
    return r


@model("Option::or")
def m_opt_or(I, st, c):
    v = c.args[0]
    return [(s, v if k else c.args[1]) for s, k in opt_cases(I, st, v)]


@model("Option::or_else")
def m_opt_or_else(I, st, c):
    v = c.args[0]
    r = []
    for s, k in opt_cases(I, st, v):
        if k:
            r.append((s, v))
        else:
            r += call1(I, s, c, c.args[1], [], retty=c.retty)
    return r


@model("Option::take")
def m_opt_take(I, st, c):
    v = X(I, st, c, 0)
    I.assign(st, c.args[0], NONE())
    return one(st, v)


@model("Option::replace", "mem::replace")
def m_replace(I, st, c):
    v = X(I, st, c, 0)
    I.assign(st, c.args[0], SOME(c.args[1]) if "Option" in c.p else c.args[1])
    return one(st, v)


@model("mem::take")
def m_take(I, st, c):
    v = X(I, st, c, 0)
    I.assign(st, c.args[0], default_value(I, c.retty))
    return one(st, v)


@model("mem::swap")
def m_swap(I, st, c):
    a, b = X(I, st, c, 0), X(I, st, c, 1)
    I.assign(st, c.args[0], b)
    I.assign(st, c.args[1], a)
    return one(st, UNITV)


def proj_ref(I, st, p, pr):
    """A reference to a part of what p refers to."""
    while p.op == "dyn":
        p = p.a[1]
    if p.op == "ref":
        v = I.load(st, p.a[0], p.a[1])
        if v.op in ("ref",):
            return proj_ref(I, st, v, pr)
        return T("ref", p.a[0], p.a[1] + (pr,))
    v = I.deref(st, p)
    if v.op == "ref":
        return proj_ref(I, st, v, pr)
    return CREF(I.getproj(v, pr))


@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_deref")
def m_as_ref(I, st, c):
    adt = OPT if "Option" in c.p else RES
    v = X(I, st, c, 0)
    m = c.p.rsplit("::", 1)[1]
    r = []
    for s, k in I.cases(st, v, adt, 2):
        if adt == OPT and k == 0:
            r.append((s, NONE()))
            continue
        if m.endswith("mut"):
            x = proj_ref(I, s, c.args[0], ("f", k, 0))
        else:
            x = CREF(I.getfld(v, k, 0))
        r.append((s, AGG(adt, k, x)))
    return r


@model("Option::cloned", "Option::copied", "Result::cloned", "Result::copied")
def m_opt_cloned(I, st, c):
    adt = OPT if "Option" in c.p else RES
    v = c.args[0]
    r = []
    good = 1 if adt == OPT else 0
    for s, k in I.cases(st, v, adt, 2):
        if k == good:
            r.append((s, AGG(adt, k, I.deref(s, I.getfld(v, k, 0)))))
        else:
            r.append((s, v))
    return r


@model("Option::transpose")
def m_transpose(I, st, c):
    v = c.args[0]
    r = []
    for s, k in opt_cases(I, st, v):
        if not k:
            r.append((s, OK(NONE())))
            continue
        x = some_of(I, v)
        for s2, k2 in I.cases(s, x, RES, 2):
            r.append((s2, OK(SOME(I.getfld(x, 0, 0))) if k2 == 0 else ERR(I.getfld(x, 1, 0))))
    return r


@model("Result::transpose")
def m_res_transpose(I, st, c):
    v = c.args[0]
    r = []
    for s, k in I.cases(st, v, RES, 2):
        if k:
            r.append((s, SOME(ERR(I.getfld(v, 1, 0)))))
            continue
        x = I.getfld(v, 0, 0)
        for s2, k2 in opt_cases(I, s, x):
            r.append((s2, SOME(OK(some_of(I, x))) if k2 else NONE()))
    return r


@model("Option::unzip", "Option::zip", "Option::xor", "Option::flatten", "Option::get_or_insert_with", "Option::insert")
def m_opt_misc(I, st, c):
    if c.p.endswith("flatten"):
        v = c.args[0]
        return [(s, some_of(I, v) if k else NONE()) for s, k in opt_cases(I, st, v)]
    if c.p.endswith("zip") and not c.p.endswith("unzip"):
        a, b = c.args
        r = []
        for s, k in opt_cases(I, st, a):
            for s2, k2 in opt_cases(I, s, b):
                r.append((s2, SOME(TUP(some_of(I, a), some_of(I, b))) if k and k2 else NONE()))
        return r
    if c.p.endswith("insert"):
        I.assign(st, c.args[0], SOME(c.args[1]))
        return one(st, proj_ref(I, st, c.args[0], ("f", 1, 0)))
    return None


@model("bool::then", "bool::then_some")
def m_then(I, st, c):
    r = []
    for val in (True, False):
        s = st.fork()
        if not I.assume(s, c.args[0], val):
            continue
        if not val:
            r.append((s, NONE()))
        elif c.p.endswith("some"):
            r.append((s, SOME(c.args[1])))
        else:
            r += [(s2, SOME(x)) for s2, x in call1(I, s, c, c.args[1], [])]
    return r


# ---- identity-like ----------------------------------------------------------------------------
@model(
    "Deref::deref", "String::as_str", "String::as_bytes", "str::as_bytes", "AsRef::as_ref", "Borrow::borrow", "Vec::as_slice",
    "[T]::as_ref", "Path::new", "OsString::as_os_str", "Path::as_os_str", "PathBuf::as_path", "Cow::as_ref", "OsStr::new", "Path::as_path",
    "OsStr::as_bytes", "OsStrExt::as_bytes", "OsStrExt::from_bytes", "[T]::as_slice", "String::as_ref", "Bytes::as_ref", "OsStr::as_encoded_bytes",
    "String::as_mut_str", "CStr::to_bytes", "Box::as_ref", "[T;_]::as_slice", "OsStr::as_os_str",
)
def m_deref(I, st, c):
    v = c.args[0]
    x = I.deref(st, v)
    # Box<T> derefs to T, a reference to a reference to the target.
    t = c.targs[0] if c.targs else ("?",)
    if x.op in ("cref", "ref") and t[0] != "ref":
        x = I.deref(st, x)
    if t[0] == "ref":
        while x.op in ("cref", "ref"):
            x = I.deref(st, x)
    if x.op == "box":
        x = x.a[0]
    if x.op == "dyn":
        return one(st, T("dyn", x.a[0], CREF(strip(x))))
    return one(st, CREF(as_content(x)))


@model("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice", "[T]::as_mut", "Option::as_mut_slice")
def m_deref_mut(I, st, c):
    v = c.args[0]
    x = I.deref(st, v)
    if x.op == "ref":
        return one(st, x)
    if x.op == "box":
        return one(st, proj_ref(I, st, v, ("b",)))
    if x.op == "dyn":
        return one(st, T("dyn", x.a[0], proj_ref(I, st, v, ("b",))))
    return one(st, v)


@model(
    "Clone::clone", "ToOwned::to_owned", "[T]::to_vec", "str::to_owned", "Path::to_path_buf", "str::to_string", "[T]::into_vec",
    "String::into_bytes", "Cow::into_owned", "String::into_boxed_str", "Path::to_owned", "OsStr::to_os_string", "OsStr::to_owned", "String::from",
    "PathBuf::into_os_string", "Bytes::copy_from_slice", "BytesMut::freeze", "Bytes::to_vec", "Box::into_inner", "Bytes::from_static", "PathBuf::from",
    "Vec::into_boxed_slice", "Box::from", "[T]::to_owned", "Bytes::clone", "OsStringExt::into_vec", "OsStringExt::from_vec", "Arc::new", "Rc::new", "Some",
)
def m_clone(I, st, c):
    x = c.args[0]
    if c.p == "core::clone::Clone::clone":
        x = I.deref(st, x)
        t = c.targs[0] if c.targs else ("?",)
        if t[0] != "ref":
            while x.op == "cref" and is_stringy(peel(t)):
                x = I.deref(st, x)
        return one(st, x)
    return one(st, as_content(I.deref_all(st, x)))


@model("hint::must_use", "convert::identity", "hint::black_box")
def m_ident(I, st, c):
    return one(st, c.args[0])


@model("IntoIterator::into_iter")
def m_into_iter(I, st, c):
    return one(st, to_iter(I, st, c.args[0], c.targs[0] if c.targs else ("?",)))


@model("Box::new", "Box::pin")
def m_box(I, st, c):
    return one(st, T("box", c.args[0]))


@model("Box::new_uninit")
def m_new_uninit(I, st, c):
    return one(st, T("box", UNDEF))


@model("boxed::box_assume_init_into_vec_unsafe")
def m_into_vec(I, st, c):
    v = c.args[0]
    for _ in range(12):
        if v.op == "box":
            v = v.a[0]
        elif v.op == "upd":
            v = v.a[2]
        else:
            break
    if v.op == "agg" and v.a[0][0] == "array":
        return one(st, T("seq", *v.a[1:]))
    if v.op == "bytes":
        return one(st, v)
    if v.op == "rep":
        return one(st, v)
    return None


@model("[T]::into_vec")
def m_into_vec2(I, st, c):
    return one(st, as_content(I.deref_all(st, c.args[0])))


@model("vec::from_elem")
def m_from_elem(I, st, c):
    if c.args[1].op == "int" and c.args[1].a[0] <= 64:
        n = c.args[1].a[0]
        if c.args[0].op == "int" and c.targs and c.targs[0] == ("u8",):
            return one(st, BYTES(bytes([c.args[0].a[0]]) * n))
        return one(st, T("seq", *([c.args[0]] * n)))
    return one(st, T("rep", c.args[0], c.args[1]))


@model("mem::drop", "mem::forget", "ManuallyDrop::new")
def m_drop(I, st, c):
    if c.p.endswith("drop"):
        v = c.args[0]
        t = c.targs[0]
        if v.op not in ("moved", "undef") and I.drop_matters(t):
            cell = (c.fid, "dropped")
            st.mem[cell] = v
            outs = I.drop(st, c.fr, (c.fid, "drop"), (cell, ()), v, t, c.loc)
            for s in outs:
                s.mem.pop(cell, None)
            return [(s, UNITV) for s in outs]
        return one(st, UNITV)
    if c.p.endswith("forget"):
        event(I, st, c, "forget", c.args[0], c.targs[0])
    return one(st, UNITV)


# ---- comparisons ------------------------------------------------------------------------------
def eq_values(I, a, b):
    if a.op == "discr" or b.op == "discr":
        return I.eq(a, b)
    if a.op == "seq" and b.op == "seq" and len(a.a) == len(b.a) and LEN(a).op == "int" and LEN(b).op == "int":
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = AND(r, eq_values(I, strip(x), strip(y)))
        return r
    return EQ(a, b)


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(I, st, c):
    a, b = X(I, st, c, 0), X(I, st, c, 1)
    ne = c.p.endswith("::ne")
    if ne:
        # A workspace type's `ne` is the negation of its `eq`.
        t = c.targs[0]
        while t[0] == "ref":
            t = t[2]
        u = c.targs[1] if len(c.targs) > 1 else t
        while u[0] == "ref":
            u = u[2]
        fi = I.P.find_impl("core::cmp::PartialEq", "core::cmp::PartialEq::eq", t, (u,))
        if fi is not None and fi[0] in I.P.bodies:
            outs = I.run(st, I.P.bodies[fi[0]], fi[1], [CREF(a), CREF(b)], c.fr, (c.fid, "ne"))
            return [(s, NOT(v)) for s, v in outs]
    r = eq_values(I, a, b)
    return one(st, NOT(r) if ne else r)


def against_bytes(c):
    """Whether a slice, vector or string is compared with a Bytes, where bytes 0.4 has the order the wrong way
    around: its PartialOrd<Bytes> for [u8], for example, is other.partial_cmp(self)."""
    ts = []
    for t in c.targs[:2]:
        while t[0] == "ref":
            t = t[2]
        ts.append(str(t[1]).startswith("bytes::") if t[0] == "adt" else False)
    return ts == [False, True]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_lt(I, st, c):
    a, b = X(I, st, c, 0), X(I, st, c, 1)
    if against_bytes(c):
        a, b = b, a
    m = c.p.rsplit("::", 1)[1]
    r = {"lt": lambda: LT(a, b), "gt": lambda: LT(b, a), "le": lambda: NOT(LT(b, a)), "ge": lambda: NOT(LT(a, b))}[m]()
    return one(st, r)


@model("Ord::cmp", "PartialOrd::partial_cmp")
def m_cmp(I, st, c):
    a, b = X(I, st, c, 0), X(I, st, c, 1)
    if against_bytes(c):
        a, b = b, a
    if a.op == "int" and b.op == "int":
        k = 0 if a.a[0] < b.a[0] else 1 if a is b else 2
        r = AGG(ORD, k)
    else:
        r = T("cmp", a, b)
    return one(st, SOME(r) if c.p.endswith("partial_cmp") else r)


@model("Ordering::reverse")
def m_rev(I, st, c):
    v = c.args[0]
    if v.op == "cmp":
        return one(st, T("cmp", v.a[1], v.a[0]))
    return [(s, AGG(ORD, 2 - k)) for s, k in I.cases(st, v, ORD, 3)]


@model("Ordering::then", "Ordering::then_with")
def m_ord_then(I, st, c):
    v = c.args[0]
    r = []
    for s, k in I.cases(st, v, ORD, 3):
        if k != 1:
            r.append((s, AGG(ORD, k)))
        elif c.p.endswith("with"):
            r += call1(I, s, c, c.args[1], [], retty=c.retty)
        else:
            r.append((s, c.args[1]))
    return r


@model("Ordering::is_eq", "Ordering::is_ne", "Ordering::is_lt", "Ordering::is_gt", "Ordering::is_le", "Ordering::is_ge")
def m_ord_is(I, st, c):
    v = c.args[0]
    m = c.p.rsplit("_", 1)[1]
    ks = {"eq": [1], "ne": [0, 2], "lt": [0], "gt": [2], "le": [0, 1], "ge": [1, 2]}[m]
    return [(s, TRUE if k in ks else FALSE) for s, k in I.cases(st, v, ORD, 3)]


@model("cmp::min", "Ord::min")
def m_min(I, st, c):
    a, b = c.args
    return minmax(I, st, a, b, "min")


@model("cmp::max", "Ord::max")
def m_max(I, st, c):
    a, b = c.args
    return minmax(I, st, a, b, "max")


def minmax(I, st, a, b, op):
    if a.op == b.op == "int":
        return one(st, INT((min if op == "min" else max)(a.a[0], b.a[0])))
    if I.prove_ge(st, lin_add(lin(b), lin(a), -1)):
        return one(st, a if op == "min" else b)
    if I.prove_ge(st, lin_add(lin(a), lin(b), -1)):
        return one(st, b if op == "min" else a)
    if order(b) < order(a):
        a, b = b, a
    t = T(op, a, b)
    if (a in UMAX or a.op == "int") and (b in UMAX or b.op == "int"):
        UMAX.setdefault(t, (1 << 64) - 1)
    if op == "min" and all(x in UMAX or x.op == "int" and x.a[0] >= 0 for x in (a, b)):
        pass
    return one(st, t)


@model("Ord::clamp")
def m_clamp(I, st, c):
    r = minmax(I, st, c.args[0], c.args[1], "max")
    out = []
    for s, v in r:
        out += minmax(I, s, v, c.args[2], "min")
    return out


@model("intrinsics::discriminant_value", "mem::discriminant")
def m_discr(I, st, c):
    v = X(I, st, c, 0)
    t = peel(c.targs[0]) if c.targs else ("?",)
    adt = t[1] if t[0] == "adt" else None
    k = I.variant(st, v)
    if k is not None and adt and I.P.adt(adt):
        return one(st, INT(int(I.P.adt(adt)["v"][k]["d"])))
    return one(st, T("discr", v, adt))


# ---- integers ---------------------------------------------------------------------------------
def inrange(x, lo, hi):
    return AND(NOT(LT(x, INT(lo))), NOT(LT(INT(hi), x)))


def OR(a, b):
    return NOT(AND(NOT(a), NOT(b)))


def u8class(*ranges):
    def f(I, st, c):
        x = X(I, st, c, 0)
        I.note(x, ("u8",))
        r = FALSE
        for lo, hi in ranges:
            r = OR(r, inrange(x, lo, hi))
        return one(st, r)

    return f


for _t in ("u8", "char"):
    TABLE[_t + "::is_ascii_digit"] = u8class((48, 57))
    TABLE[_t + "::is_ascii_lowercase"] = u8class((97, 122))
    TABLE[_t + "::is_ascii_uppercase"] = u8class((65, 90))
    TABLE[_t + "::is_ascii_alphabetic"] = u8class((65, 90), (97, 122))
    TABLE[_t + "::is_ascii_alphanumeric"] = u8class((48, 57), (65, 90), (97, 122))
    TABLE[_t + "::is_ascii_hexdigit"] = u8class((48, 57), (65, 70), (97, 102))
    TABLE[_t + "::is_ascii_control"] = u8class((0, 31), (127, 127))
    TABLE[_t + "::is_ascii"] = u8class((0, 127))
    TABLE[_t + "::is_ascii_whitespace"] = u8class((9, 10), (12, 13), (32, 32))
    TABLE[_t + "::is_ascii_graphic"] = u8class((33, 126))
    TABLE[_t + "::is_ascii_punctuation"] = u8class((33, 47), (58, 64), (91, 96), (123, 126))


@model("RangeInclusive::new")
def m_rinc(I, st, c):
    return one(st, T("rinc", *c.args))


@model("RangeInclusive::start", "RangeInclusive::end")
def m_rinc_se(I, st, c):
    v = X(I, st, c, 0)
    if v.op != "rinc":
        return None
    return one(st, CREF(v.a[0 if c.p.endswith("start") else 1]))


@model("RangeInclusive::contains")
def m_rinc_c(I, st, c):
    v = X(I, st, c, 0)
    x = X(I, st, c, 1)
    if v.op != "rinc":
        return None
    return one(st, AND(NOT(LT(x, v.a[0])), NOT(LT(v.a[1], x))))


RANGE = "core::ops::range::"


@model("Range::contains")
def m_range_c(I, st, c):
    v = X(I, st, c, 0)
    x = X(I, st, c, 1)
    return one(st, AND(NOT(LT(x, I.getfld(v, 0, 0))), LT(x, I.getfld(v, 0, 1))))


@model("Range::is_empty", "ExactSizeIterator::len")
def m_range_empty(I, st, c):
    v = X(I, st, c, 0)
    if c.p.endswith("len"):
        if v.op == "it" and v.a[0] == "iter":
            return one(st, LEN(v.a[1]))
        return None
    return one(st, NOT(LT(I.getfld(v, 0, 0), I.getfld(v, 0, 1))))


def arith(op):
    def f(I, st, c):
        a, b = X(I, st, c, 0), X(I, st, c, 1)
        t = peel(c.targs[0]) if c.targs else ("?",)
        if t[0] not in UNSIGNED and t[0] not in SIGNED:
            return None
        I.note(a, t)
        I.note(b, t)
        r = I.binop(st, op + "WithOverflow", a, b, t)
        # These panic on overflow like the operators.
        I.M.on_assert(st, c.fr, "overflow:" + op, [a, b], r.a[2], False, c.loc)
        return one(st, r.a[1])

    return f


for _n, _o in (("Add::add", "Add"), ("Sub::sub", "Sub"), ("Mul::mul", "Mul")):
    TABLE[_n] = arith(_o)


def arith_plain(op):
    def f(I, st, c):
        a, b = X(I, st, c, 0), X(I, st, c, 1)
        t = peel(c.targs[0]) if c.targs else ("?",)
        if t[0] not in UNSIGNED and t[0] not in SIGNED:
            return None
        return one(st, I.binop(st, op, a, b, t))

    return f


for _n, _o in (("BitAnd::bitand", "BitAnd"), ("BitOr::bitor", "BitOr"), ("BitXor::bitxor", "BitXor"), ("Shl::shl", "Shl"), ("Shr::shr", "Shr"), ("Rem::rem", "Rem"), ("Div::div", "Div")):
    TABLE[_n] = arith_plain(_o)


@model("AddAssign::add_assign", "SubAssign::sub_assign", "MulAssign::mul_assign")
def m_opassign(I, st, c):
    a, b = X(I, st, c, 0), X(I, st, c, 1)
    t = peel(c.targs[0]) if c.targs else ("?",)
    if t[0] == "adt" and t[1] == "alloc::string::String":
        I.assign(st, c.args[0], cat(a, b))
        return one(st, UNITV)
    if t[0] not in UNSIGNED and t[0] not in SIGNED:
        return None
    op = {"a": "Add", "s": "Sub", "m": "Mul"}[c.p.rsplit("::", 1)[1][0]]
    r = I.binop(st, op + "WithOverflow", a, b, t)
    I.M.on_assert(st, c.fr, "overflow:" + op, [a, b], r.a[2], False, c.loc)
    I.assign(st, c.args[0], r.a[1])
    return one(st, UNITV)


def _int_method(I, st, c):
    """checked_*, saturating_*, wrapping_* and friends of the integer types."""
    parts = c.p.split("::")
    m = parts[-1]
    t = (parts[-2],)
    if t[0] not in UNSIGNED and t[0] not in SIGNED:
        return None
    if "_" not in m:
        return None
    kind, _, op = m.partition("_")
    ops = {"add": "Add", "sub": "Sub", "mul": "Mul"}
    if op not in ops or kind not in ("checked", "saturating", "wrapping", "unchecked", "overflowing"):
        return None
    a, b = c.args
    I.note(a, t)
    I.note(b, t)
    r = {"Add": ADD, "Sub": SUB}.get(ops[op])
    v = r(a, b) if r else I.binop(st, "Mul", a, b, t)
    fits = fits_in(v, t)
    out = []
    for val in (True, False):
        s = st.fork()
        if not I.assume(s, fits, val):
            continue
        if val:
            I.note(v, t)
            out.append((s, SOME(v) if kind == "checked" else v if kind != "overflowing" else TUP(v, FALSE)))
        elif kind == "checked":
            out.append((s, NONE()))
        elif kind == "saturating":
            out.append((s, INT(0 if op == "sub" and t[0] in UNSIGNED else (1 << (UNSIGNED.get(t[0]) or 63)) - 1)))
        else:
            x = I.note(I.fresh(s, T("call", c.fid, c.p, a, b)), t)
            out.append((s, x if kind != "overflowing" else TUP(x, TRUE)))
    return out


def fits_in(v, t):
    if t[0] in UNSIGNED:
        return AND(NOT(LT(v, INT(0))), NOT(LT(INT((1 << UNSIGNED[t[0]]) - 1), v)))
    n = SIGNED[t[0]]
    return AND(NOT(LT(v, INT(-(1 << (n - 1))))), NOT(LT(INT((1 << (n - 1)) - 1), v)))


# ---- strings and bytes ------------------------------------------------------------------------
@model("[T]::len", "Vec::len", "Bytes::len", "BytesMut::len", "str::len", "String::len", "VecDeque::len")
def m_len(I, st, c):
    return one(st, I.note(LEN(X(I, st, c, 0)), ("usize",)))


@model("[T]::is_empty", "Vec::is_empty", "Bytes::is_empty", "BytesMut::is_empty", "str::is_empty", "String::is_empty", "OsStr::is_empty", "OsString::is_empty")
def m_is_empty(I, st, c):
    return one(st, EQ(LEN(X(I, st, c, 0)), INT(0)))


@model("String::new", "BytesMut::new", "Bytes::new", "PathBuf::new", "String::with_capacity", "BytesMut::with_capacity", "Bytes::default")
def m_empty(I, st, c):
    return one(st, BYTES(b""))


@model("Vec::new", "Vec::with_capacity", "VecDeque::new")
def m_vec_new(I, st, c):
    t = c.targs[0] if c.targs else ("?",)
    return one(st, BYTES(b"") if t == ("u8",) else T("seq"))


@model("Default::default")
def m_default(I, st, c):
    return one(st, default_value(I, c.targs[0] if c.targs else c.retty))


@model("Vec::push", "VecDeque::push_back")
def m_push(I, st, c):
    v = X(I, st, c, 0)
    x = c.args[1]
    t = c.targs[0] if c.targs else ("?",)
    if t == ("u8",):
        x = byte(x)
        I.assign(st, c.args[0], cat(v, x))
        return one(st, UNITV)
    if v.op == "bytes" and v.a[0] == b"":
        v = T("seq")
    I.assign(st, c.args[0], T("seq", *v.a, x) if v.op == "seq" else T("seq", T("some", v), x))
    return one(st, UNITV)


def byte(x):
    if x.op == "int" and 0 <= x.a[0] < 256:
        return BYTES(bytes([x.a[0]]))
    return T("byte", x)


@model("Vec::pop")
def m_pop(I, st, c):
    v = X(I, st, c, 0)
    if v.op == "seq" and v.a and v.a[-1].op not in ("each", "some", "part"):
        I.assign(st, c.args[0], T("seq", *v.a[:-1]))
        return one(st, SOME(v.a[-1]))
    if v.op == "seq" and not v.a:
        return one(st, NONE())
    n = LEN(v)
    r = []
    for val in (True, False):
        s = st.fork()
        if I.assume(s, EQ(n, INT(0)), val):
            if val:
                r.append((s, NONE()))
            else:
                x = I.getidx(v, SUB(n, INT(1)))
                I.assign(s, c.args[0], I.mkslice(v, INT(0), SUB(n, INT(1))))
                r.append((s, SOME(x)))
    return r


@model("Vec::clear", "String::clear", "BytesMut::clear", "Bytes::clear")
def m_clear(I, st, c):
    t = c.targs[0] if c.targs else ("u8",)
    v = X(I, st, c, 0)
    I.assign(st, c.args[0], T("seq") if v.op == "seq" else BYTES(b""))
    return one(st, UNITV)


@model("Vec::truncate", "BytesMut::truncate", "Bytes::truncate", "String::truncate")
def m_truncate(I, st, c):
    v = X(I, st, c, 0)
    n = c.args[1]
    r = []
    for val in (True, False):
        s = st.fork()
        if I.assume(s, LT(n, LEN(v)), val):
            if val:
                I.assign(s, c.args[0], I.mkslice(v, INT(0), n))
            r.append((s, UNITV))
    return r


@model("Vec::extend_from_slice", "BytesMut::extend_from_slice", "String::push_str", "BufMut::put", "BufMut::put_slice", "OsString::push", "String::push")
def m_extend_slice(I, st, c):
    v, x = X(I, st, c, 0), X(I, st, c, 1)
    if c.p.endswith("String::push"):
        x = byte(x)
    if v.op == "seq" or (x.op == "seq" and c.targs and c.targs[0] != ("u8",)):
        xs = x.a if x.op == "seq" else (T("some", T("hole", T("elem", x), None)),)
        I.assign(st, c.args[0], T("seq", *((v.a if v.op == "seq" else ()) + xs)))
    else:
        I.assign(st, c.args[0], cat(v, x))
    return one(st, UNITV)


@model("BufMut::put_u8")
def m_put_u8(I, st, c):
    I.assign(st, c.args[0], cat(X(I, st, c, 0), byte(c.args[1])))
    return one(st, UNITV)


@model("Vec::append")
def m_append(I, st, c):
    v, x = X(I, st, c, 0), X(I, st, c, 1)
    if v.op == "seq":
        I.assign(st, c.args[0], T("seq", *(v.a + (x.a if x.op == "seq" else (T("some", x),)))))
        I.assign(st, c.args[1], T("seq"))
    else:
        I.assign(st, c.args[0], cat(v, x))
        I.assign(st, c.args[1], BYTES(b""))
    return one(st, UNITV)


@model("Extend::extend")
def m_extend(I, st, c):
    t = c.targs[0] if c.targs else ("?",)
    v = X(I, st, c, 0)
    if t[0] == "adt" and t[1] in STRINGY and (len(t) < 3 or t[2] == ("u8",)):
        x = X(I, st, c, 1)
        if x.op == "it" and x.a[0] == "iter":
            x = x.a[1]
        I.assign(st, c.args[0], cat(v, x))
        return one(st, UNITV)
    it = to_iter(I, st, c.args[1], c.argtys[1] if len(c.argtys) > 1 else ("?",))

    def step(s, acc, item):
        cur = I.deref_all(s, c.args[0])
        if acc is not None:
            pass
        return [(s, "go", T("seq", *(acc.a if acc.op == "seq" else (T("some", acc),)), item))]

    r = []
    for s, acc in drive(I, st, c, it, v if v.op == "seq" else T("seq"), step, "ext"):
        I.assign(s, c.args[0], acc)
        r.append((s, UNITV))
    return r


@model("Vec::insert", "Vec::remove", "Vec::swap_remove")
def m_vec_insert(I, st, c):
    v = X(I, st, c, 0)
    i = c.args[1]
    n = LEN(v)
    if c.p.endswith("insert"):
        if not panic_unless(I, st, c, "index", NOT(LT(n, i))):
            return []
        if v.op == "seq" and i.op == "int" and i.a[0] == 0:
            I.assign(st, c.args[0], T("seq", c.args[2], *v.a))
        else:
            I.assign(st, c.args[0], T("seq", SOMEOF((v.a if v.op == "seq" else (v,)) + (c.args[2],))))
        return one(st, UNITV)
    if not panic_unless(I, st, c, "index", LT(i, n)):
        return []
    x = I.getidx(v, i)
    if v.op == "seq" and i.op == "int" and all(z.op not in ("each", "some", "part") for z in v.a):
        I.assign(st, c.args[0], T("seq", *(v.a[: i.a[0]] + v.a[i.a[0] + 1 :])))
    else:
        I.assign(st, c.args[0], T("seq", SOMEOF(v.a if v.op == "seq" else (v,))))
    return one(st, x)


def bounds(I, v, rng, t):
    """The bounds (a, b) of a range index on v, with the conditions for it not to panic."""
    n = LEN(v)
    h = t[1].split("::")[-1] if t[0] == "adt" else "?"
    f = lambda i: I.getfld(rng, 0, i)
    if h == "Range":
        a, b = f(0), f(1)
    elif h == "RangeTo":
        a, b = INT(0), f(0)
    elif h == "RangeFrom":
        a, b = f(0), n
    elif h == "RangeFull":
        a, b = INT(0), n
    elif h == "RangeInclusive" and rng.op == "rinc":
        a, b = rng.a[0], ADD(rng.a[1], INT(1))
    elif h == "RangeToInclusive":
        a, b = INT(0), ADD(f(0), INT(1))
    else:
        return None
    return a, b, n


def index_type(c):
    t = c.targs[-1] if len(c.targs) > 1 else ("?",)
    for x in c.targs[1:]:
        if x == ("usize",) or x[0] == "adt" and x[1].startswith(RANGE):
            t = x
    return t


@model("Index::index", "IndexMut::index_mut", "SliceIndex::index", "Bytes::slice")
def m_index(I, st, c):
    p = c.args[0]
    v = I.deref_all(st, p)
    v = as_content(v) if not c.p.endswith("_mut") else v
    i = c.args[1]
    t = index_type(c)
    if len(c.argtys) > 1 and c.argtys[1][0] != "?":
        t = c.argtys[1]
    base = c.targs[0] if c.targs else ("?",)
    mut = c.p.endswith("_mut")
    if base[0] == "adt" and base[1].endswith("BTreeMap") or base[0] == "adt" and base[1].endswith("HashMap"):
        k = I.deref_all(st, i)
        lk = mapget(v, k)
        r = []
        for s, kk in opt_cases(I, st, lk):
            if kk:
                r.append((s, I.getfld(lk, 1, 0)))
            else:
                I.M.on_panic(s, c, "index", lk)
        return r
    if t == ("usize",):
        I.note(i, t)
        if not panic_unless(I, st, c, "index", LT(i, LEN(v))):
            return []
        if mut:
            return one(st, proj_ref(I, st, p, ("i", i)))
        return one(st, CREF(I.getidx(v, i)))
    b = bounds(I, v, I.deref_all(st, i), t)
    if b is None:
        return None
    lo, hi, n = b
    for x in (lo, hi):
        I.note(x, ("usize",))
    if hi is not n and not panic_unless(I, st, c, "slice", NOT(LT(n, hi))):
        return []
    if not (lo.op == "int" and lo.a[0] == 0) and not panic_unless(I, st, c, "slice", NOT(LT(hi, lo))):
        return []
    bt = peel(base)
    if bt[0] == "str" or bt[0] == "adt" and bt[1] == "alloc::string::String":
        for x in (lo, hi):
            if x is n or x.op == "int" and x.a[0] == 0:
                continue
            if not ascii_known(I, st, v):
                s = st.fork()
                I.M.on_panic(s, c, "char-boundary", v)
    if mut:
        if lo.op == "int" and lo.a[0] == 0 and hi is n:
            return one(st, p)
        return one(st, proj_ref(I, st, p, ("s", lo, hi)))
    r = I.mkslice(v, lo, hi)
    return one(st, r if c.p.endswith("::slice") else CREF(r))


def ascii_known(I, st, v):
    if v.op == "bytes":
        return all(b < 128 for b in v.a[0])
    cls = class_of(I, st, v)
    return cls is not None and all(b < 128 for b in cls)


def class_of(I, st, v):
    """The bytes a content term can be made of, if known."""
    if v.op == "bytes":
        return frozenset(v.a[0])
    if v.op == "pure" and v.a[0] == "hexenc":
        return HEX
    if v.op == "disp":
        return frozenset(b"-0123456789")
    if v.op == "cat":
        r = frozenset()
        for p in v.a:
            x = class_of(I, st, p)
            if x is None:
                return None
            r |= x
        return r
    if v.op == "slice":
        x = class_of(I, st, v.a[0])
        if x is not None:
            return x
    for f, val in st.facts.items():
        if f[0] == "tr" and val is True and f[1].op == "allin" and f[1].a[0] is v:
            return frozenset(f[1].a[1])
    e = st.facts.get(("const", v))
    if e is not None and e.op == "bytes":
        return frozenset(e.a[0])
    for f, val in st.facts.items():
        if f[0] == "tr" and val is True and f[1].op == "eq" and v in f[1].a:
            o = f[1].a[0] if f[1].a[1] is v else f[1].a[1]
            if o.op == "pure" and o.a[0] == "hexenc":
                return HEX
    return None


HEX = frozenset(b"0123456789abcdef")


@model("[T]::get", "str::get", "Bytes::get", "[T]::get_mut")
def m_get(I, st, c):
    v = as_content(X(I, st, c, 0))
    i = I.deref_all(st, c.args[1])
    t = c.argtys[1] if len(c.argtys) > 1 else ("usize",)
    if t[0] == "?" and len(c.targs) > 1:
        t = c.targs[1]
    if t == ("usize",):
        cond = LT(i, LEN(v))
        ok = lambda s: proj_ref(I, s, c.args[0], ("i", i)) if c.p.endswith("mut") else CREF(I.getidx(v, i))
    else:
        b = bounds(I, v, i, t)
        if b is None:
            return None
        lo, hi, n = b
        cond = AND(NOT(LT(n, hi)), NOT(LT(hi, lo)))
        ok = lambda s: CREF(I.mkslice(v, lo, hi))
    r = []
    for val in (True, False):
        s = st.fork()
        if I.assume(s, cond, val):
            r.append((s, SOME(ok(s)) if val else NONE()))
    return r


@model("[T]::first", "[T]::last", "[T]::first_mut", "[T]::last_mut")
def m_first(I, st, c):
    v = as_content(X(I, st, c, 0))
    n = LEN(v)
    i = INT(0) if "first" in c.p else SUB(n, INT(1))
    r = []
    for val in (False, True):
        s = st.fork()
        if I.assume(s, EQ(n, INT(0)), val):
            if val:
                r.append((s, NONE()))
            else:
                if n.op != "int":
                    I.add_ge(s, lin_add(lin(n), ({}, 1), -1))
                r.append((s, SOME(proj_ref(I, s, c.args[0], ("i", i)) if c.p.endswith("mut") else CREF(I.getidx(v, i)))))
    return r


@model("[T]::split_first", "[T]::split_last")
def m_split_first(I, st, c):
    v = as_content(X(I, st, c, 0))
    n = LEN(v)
    r = []
    for val in (False, True):
        s = st.fork()
        if I.assume(s, EQ(n, INT(0)), val):
            if val:
                r.append((s, NONE()))
            else:
                if n.op != "int":
                    I.add_ge(s, lin_add(lin(n), ({}, 1), -1))
                if "first" in c.p:
                    r.append((s, SOME(TUP(CREF(I.getidx(v, INT(0))), CREF(I.mkslice(v, INT(1), n))))))
                else:
                    e = SUB(n, INT(1))
                    r.append((s, SOME(TUP(CREF(I.getidx(v, e)), CREF(I.mkslice(v, INT(0), e))))))
    return r


@model("[T]::split_at")
def m_split_at(I, st, c):
    v = as_content(X(I, st, c, 0))
    n, k = LEN(v), c.args[1]
    if not panic_unless(I, st, c, "slice", NOT(LT(n, k))):
        return []
    return one(st, TUP(CREF(I.mkslice(v, INT(0), k)), CREF(I.mkslice(v, k, n))))


@model("[T]::starts_with", "str::starts_with", "[T]::ends_with", "str::ends_with", "OsStr::starts_with")
def m_starts(I, st, c):
    v, p = as_content(X(I, st, c, 0)), X(I, st, c, 1)
    ends = c.p.endswith("ends_with")
    if p.op == "agg" and p.a[0][0] == "closure":
        return None
    if p.op == "int":
        p = byte(p)
    n, k = LEN(v), LEN(p)
    if k.op == "int" and k.a[0] == 0:
        return one(st, TRUE)
    # A fact about the prefix, split so that the length is known when it holds.
    r = []
    lo, hi = (SUB(n, k), n) if ends else (INT(0), k)
    for val in (True, False):
        s = st.fork()
        if not I.assume(s, LT(n, k), not val):
            continue
        if val:
            sl = I.mkslice(v, lo, hi)
            cond = EQ(sl, p)
            if p.op == "bytes" and len(p.a[0]) == 1:
                cond = EQ(I.getidx(v, lo), INT(p.a[0][0]))
            r.append((s, cond))
        else:
            r.append((s, FALSE))
    return r


@model("[T]::strip_suffix", "str::strip_suffix", "[T]::strip_prefix", "str::strip_prefix")
def m_strip(I, st, c):
    v, p = as_content(X(I, st, c, 0)), as_content(X(I, st, c, 1))
    if p.op == "agg" and p.a[0][0] == "closure":
        return None
    if p.op == "int":
        p = byte(p)
    if p.op == "seq" and all(x.op == "int" for x in p.a):
        p = BYTES(bytes(x.a[0] for x in p.a))
    suf = c.p.endswith("suffix")
    n, k = LEN(v), LEN(p)
    r = []
    lo, hi = (SUB(n, k), n) if suf else (INT(0), k)
    for val in (True, False):
        s = st.fork()
        if not I.assume(s, LT(n, k), not val):
            continue
        if not val:
            r.append((s, NONE()))
            continue
        cond = EQ(I.mkslice(v, lo, hi), p)
        if p.op == "bytes" and len(p.a[0]) == 1:
            cond = EQ(I.getidx(v, lo), INT(p.a[0][0]))
        for val2 in (True, False):
            s2 = s.fork()
            if I.assume(s2, cond, val2):
                rest = I.mkslice(v, INT(0), SUB(n, k)) if suf else I.mkslice(v, k, n)
                r.append((s2, SOME(CREF(rest)) if val2 else NONE()))
    return r


@model("[T]::contains", "str::contains", "[T]::binary_search")
def m_contains(I, st, c):
    v, p = as_content(X(I, st, c, 0)), X(I, st, c, 1)
    if p.op == "agg" and p.a[0][0] == "closure":
        return None
    if v.op == "seq" and c.p.startswith("[T]") and LEN(v).op == "int":
        r = FALSE
        for x in v.a:
            r = OR(r, eq_values(I, strip(x), strip(p)))
        return one(st, r)
    if v.op == "bytes" and c.p.startswith("[T]"):
        r = FALSE
        for x in sorted(set(v.a[0])):
            r = OR(r, EQ(p, INT(x)))
        return one(st, r)
    return one(st, pure("contains", v, p))


@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def m_copy_from_slice(I, st, c):
    d, s_ = X(I, st, c, 0), X(I, st, c, 1)
    if not panic_unless(I, st, c, "copy_from_slice", EQ(LEN(d), LEN(s_))):
        return []
    I.assign(st, c.args[0], s_)
    return one(st, UNITV)


@model("[T]::fill", "[T]::reverse", "[T]::swap", "[T]::rotate_left", "[T]::rotate_right")
def m_scramble(I, st, c):
    v = X(I, st, c, 0)
    event(I, st, c, "scramble", c.p.rsplit("::", 1)[1], v)
    if v.op == "seq":
        I.assign(st, c.args[0], T("seq", SOMEOF(v.a)) if LEN(v).op != "int" else T("pure", "scrambled", v))
    else:
        I.assign(st, c.args[0], I.fresh(st, T("out", c.fid, c.p, 0)))
    return one(st, UNITV)


@model("[T]::concat", "[T]::join", "[T]::concat")
def m_join(I, st, c):
    v = as_content(X(I, st, c, 0))
    sep = X(I, st, c, 1) if len(c.args) > 1 else BYTES(b"")
    if sep.op == "int":
        sep = byte(sep)
    if v.op == "seq" and LEN(v).op == "int":
        parts = []
        for i, x in enumerate(v.a):
            if i:
                parts.append(sep)
            parts.append(I.deref_all(st, x))
        return one(st, cat(*parts))
    return one(st, pure("join", v, sep))


@model("str::repeat", "[T]::repeat")
def m_repeat(I, st, c):
    return one(st, pure("repeat", X(I, st, c, 0), c.args[1]))


@model("String::from_utf8_lossy", "OsStr::to_string_lossy", "Path::to_string_lossy", "String::from_utf8_lossy_owned", "str::from_utf8_lossy", "Path::display", "OsStr::display")
def m_lossy(I, st, c):
    v = as_content(X(I, st, c, 0))
    if ascii_known(I, st, v):
        return one(st, v)
    return one(st, pure("lossy", v))


@model("converts::from_utf8", "String::from_utf8", "str::from_utf8", "OsStr::to_str", "Path::to_str", "OsString::into_string", "PathBuf::into_string")
def m_utf8(I, st, c):
    v = as_content(X(I, st, c, 0))
    t = pure("utf8", v)
    isopt = c.retty[0] == "adt" and c.retty[1] == OPT
    isref = c.p.endswith("converts::from_utf8") or c.p.endswith("str::from_utf8") or isopt
    okv = CREF(v) if isref else v
    if ascii_known(I, st, v):
        return one(st, SOME(okv) if isopt else OK(okv))
    r = []
    adt = OPT if isopt else RES
    for s, k in I.cases(st, t, adt, 2):
        if (k == 1) == isopt:
            r.append((s, AGG(adt, k, okv)))
        elif isopt:
            r.append((s, NONE()))
        else:
            r.append((s, ERR(T("fld", t, 1, 0))))
    return r


@model("String::from_utf8_unchecked", "converts::from_utf8_unchecked", "OsString::from_encoded_bytes_unchecked")
def m_utf8_unchecked(I, st, c):
    return one(st, c.args[0])


@model("str::parse", "FromStr::from_str", "usize::from_str_radix", "u16::from_str_radix", "u32::from_str_radix", "u64::from_str_radix", "i64::from_str_radix", "u8::from_str_radix")
def m_parse(I, st, c):
    v = X(I, st, c, 0)
    okt = c.retty[2] if c.retty[0] == "adt" and c.retty[1] == RES else ("?",)
    radix = c.args[1] if len(c.args) > 1 else INT(10)
    if v.op == "bytes" and radix.op == "int" and (okt[0] in UNSIGNED or okt[0] in SIGNED):
        try:
            n = int(v.a[0].decode(), radix.a[0])
            return one(st, OK(INT(n)))
        except ValueError:
            return one(st, ERR(T("pure", "parseerr", v)))
    t = pure("parse", v, radix, head(okt))
    x = I.note(T("fld", t, 0, 0), okt)
    r = []
    for s, k in I.cases(st, t, RES, 2):
        r.append((s, OK(x) if k == 0 else ERR(T("fld", t, 1, 0))))
    return r


@model("hex::encode")
def m_hex(I, st, c):
    v = X(I, st, c, 0)
    return one(st, pure("hexenc", v))


@model("str::to_lowercase", "str::to_ascii_lowercase", "[T]::to_ascii_lowercase", "str::to_uppercase", "str::to_ascii_uppercase", "[T]::to_ascii_uppercase", "str::trim", "str::trim_end", "str::trim_start", "[T]::trim_ascii", "[T]::trim_ascii_end", "str::trim_end_matches", "str::trim_matches", "str::replace", "str::trim_start_matches")
def m_strfun(I, st, c):
    t = pure(short(c.p), *[I.deref_all(st, x) for x in c.args])
    return one(st, CREF(t) if c.retty[0] == "ref" else t)


@model("[T]::eq_ignore_ascii_case", "str::eq_ignore_ascii_case")
def m_eqic(I, st, c):
    return one(st, pure("eq_ignore_case", X(I, st, c, 0), X(I, st, c, 1)))


# ---- formatting -------------------------------------------------------------------------------
@model(
    "Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_octal", "Argument::new_binary",
    "Argument::new_lower_exp", "Argument::from_usize",
)
def m_fmtarg(I, st, c):
    v = c.args[0]
    x = I.deref_all(st, v)
    return one(st, T("fmtarg", c.p.rsplit("_", 1)[1], c.targs[0] if c.targs else ("?",), x))


@model("Arguments::new")
def m_args_new(I, st, c):
    t = X(I, st, c, 0)
    a = X(I, st, c, 1)
    return one(st, T("fmtargs", t, *(a.a[1:] if a.op == "agg" else a.a if a.op == "seq" else ())))


@model("Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def m_args_str(I, st, c):
    v = X(I, st, c, 0)
    if v.op == "agg":
        v = D(I, st, v.a[1]) if len(v.a) > 1 else BYTES(b"")
    return one(st, T("fmtstr", v))


def fmt_pieces(t):
    """Decodes a format template: list of literal bytes or ('arg', index, flags, width, prec)."""
    b = t.a[0]
    i = 0
    out = []
    nxt = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 128:
            out.append(b[i : i + n])
            i += n
        elif n == 128:
            k = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i : i + k])
            i += k
        else:
            fl = w = pr = None
            idx = nxt
            if n & 1:
                fl = int.from_bytes(b[i : i + 4], "little")
                i += 4
            if n & 2:
                w = int.from_bytes(b[i : i + 2], "little")
                i += 2
            if n & 4:
                pr = int.from_bytes(b[i : i + 2], "little")
                i += 2
            if n & 8:
                idx = int.from_bytes(b[i : i + 2], "little")
                i += 2
            nxt = idx + 1
            if n & 16:
                w = ("arg", w)
            if n & 32:
                pr = ("arg", pr)
            out.append(("arg", idx, fl, w, pr))
    return out


def render(I, st, c, fa):
    """The text a formatting produces: [(state, content)]."""
    if fa.op == "fmtstr":
        return [(st, fa.a[0])]
    if fa.op != "fmtargs" or fa.a[0].op != "bytes":
        return [(st, I.fresh(st, T("call", c.fid, "format", fa)))]
    sts = [(st, BYTES(b""))]
    for p in fmt_pieces(fa.a[0]):
        if p.__class__ is bytes:
            sts = [(s, cat(v, BYTES(p))) for s, v in sts]
            continue
        _, idx, fl, w, pr = p
        arg = fa.a[1 + idx] if 1 + idx < len(fa.a) else T("noarg")
        w, pr = (fmt_count(fa, q) for q in (w, pr))
        n2 = []
        for s, v in sts:
            for s2, x in render_arg(I, s, c, arg, fl, w, pr, idx):
                n2.append((s2, cat(v, x)))
        sts = n2
    return sts


def fmt_count(fa, q):
    """A width or precision given as an argument."""
    if q.__class__ is tuple and 1 + q[1] < len(fa.a):
        v = fa.a[1 + q[1]]
        while v.__class__ is Term and v.op in ("fmtarg", "cref", "box"):
            v = v.a[-1]
        if v.op == "int":
            return v.a[0]
    return q


def render_arg(I, st, c, arg, fl, w, pr, idx):
    if arg.op != "fmtarg":
        return [(st, T("disp", arg))]
    kind, t, v = arg.a
    t = peel(t)
    plain = fl is None and w is None and pr is None
    if kind == "display":
        if not plain:
            return [(st, T("dispf", v, str(fl), str(w), str(pr)))]
        if is_stringy(t):
            return [(st, v)]
        if t[0] in UNSIGNED or t[0] in SIGNED:
            if v.op == "int":
                return [(st, BYTES(str(v.a[0]).encode()))]
            return [(st, T("disp", v))]
        fi = I.P.find_impl("core::fmt::Display", "core::fmt::Display::fmt", t)
        if fi is not None and fi[0] in I.P.bodies:
            body = I.P.bodies[fi[0]]
            if simple_body(body):
                cell = (c.fid, "fmt", idx)
                st.mem[cell] = BYTES(b"")
                r = []
                for s, _ in I.run(st, body, fi[1], [CREF(v), T("ref", cell, ())], c.fr, (c.fid, "disp", idx)):
                    x = s.mem.pop(cell, BYTES(b""))
                    r.append((s, x))
                return r
        return [(st, T("disp", v))]
    return [(st, T("fmtx", kind, str(fl), str(w), str(pr), v))]


def simple_body(body):
    n = 0
    for b in body.reach:
        if body.blocks[b]["t"][0] == "switch":
            n += 1
    return n == 0


@model("fmt::format", "ToString::to_string")
def m_format(I, st, c):
    if c.p.endswith("to_string"):
        t = c.targs[0] if c.targs else ("?",)
        return render_arg(I, st, c, T("fmtarg", "display", t, X(I, st, c, 0)), None, None, None, 0)
    return render(I, st, c, c.args[0])


@model("Formatter::write_fmt", "Formatter::write_str", "Formatter::pad", "fmt::write", "Formatter::write_char")
def m_fmt_write(I, st, c):
    v = c.args[1]
    if c.p.endswith("write_fmt") or c.p.endswith("::write"):
        outs = render(I, st, c, v)
    else:
        x = I.deref_all(st, v)
        outs = [(st, byte(x) if c.p.endswith("char") else x)]
    r = []
    for s, x in outs:
        cur = I.deref_all(s, c.args[0])
        if cur.op in ("bytes", "cat", "pure", "disp", "fld", "call", "slice") or True:
            I.assign(s, c.args[0], cat(cur, x))
        r.append((s, OK(UNITV)))
    return r


@model("fmt::Write::write_fmt", "fmt::Write::write_str")
def m_fmt_write2(I, st, c):
    return m_fmt_write(I, st, c)


@model("Display::fmt", "Debug::fmt", "LowerHex::fmt")
def m_display_fmt(I, st, c):
    r = []
    for s, x in render_arg(I, st, c, T("fmtarg", "display" if c.p.endswith("Display::fmt") else "debug", c.targs[0] if c.targs else ("?",), X(I, st, c, 0)), None, None, None, 0):
        cur = I.deref_all(s, c.args[1])
        I.assign(s, c.args[1], cat(cur, x))
        r.append((s, OK(UNITV)))
    return r
