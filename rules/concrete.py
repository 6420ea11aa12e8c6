"""Evaluating conditions and values once the inputs they depend on are given concrete values."""
from locks import *

WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64}


def octal(b, base):
    try:
        s = b.decode()
        return int(s.lstrip("+"), base) if s.replace("+", "", 1).isalnum() else None
    except ValueError:
        return None


class Concrete:
    """What terms come to under given inputs."""

    def given(self, st, t):
        """The value of an input, if the term is one."""
        for x, k in mget(st, "is", ()):
            if x is t:
                return k
        return None

    def ev(self, st, t):
        t = bare(t)
        o = t.op
        if o in ("int", "bool", "bytes"):
            return t.a[0]
        k = self.given(st, t)
        if k is not None:
            return k
        if o == "fld" and is_pure(t.a[0], "parse"):
            return self.number(st, t.a[0])
        if is_pure(t, "lower"):
            x = self.ev(st, t.a[1])
            return x.lower() if isinstance(x, bytes) else None
        if o == "pure" and t.a[0] in ("lossy", "utf8ok", "osstr", "utf8", "bytesof") or o == "fld" and is_pure(t.a[0], "utf8"):
            x = t.a[0].a[1] if o == "fld" else t.a[1]
            return self.ev(st, x)
        if o == "konst":
            return None
        if o == "idx":
            p, q = self.ev(st, t.a[0]), self.ev(st, t.a[1])
            return p[q] if isinstance(p, bytes) and isinstance(q, int) and 0 <= q < len(p) else None
        if o == "slice":
            p, q, r = (self.ev(st, x) for x in t.a[:3])
            return p[q:r] if isinstance(p, bytes) and isinstance(q, int) and isinstance(r, int) else None
        if o == "cast":
            return self.ev(st, t.a[-1])
        if o == "not":
            x = self.ev(st, t.a[0])
            return None if x is None else not x
        if o == "bitnot":
            x = self.ev(st, t.a[1])
            return ~x & (1 << WIDTH[t.a[0]]) - 1 if isinstance(x, int) and t.a[0] in WIDTH else None
        if o == "len":
            x = self.ev(st, t.a[0])
            return len(x) if isinstance(x, bytes) else None
        if o == "ite":
            c = self.ev(st, t.a[0])
            return None if c is None else self.ev(st, t.a[1 if c else 2])
        if o in ("and", "eq", "lt", "add", "sub", "mul", "div", "rem", "bitand", "bitor", "bitxor", "shl", "shr", "min", "max"):
            p, q = self.ev(st, t.a[0]), self.ev(st, t.a[1])
            if o == "and":
                return False if p is False or q is False else None if p is None or q is None else bool(p and q)
            if p == "initial" or q == "initial" or p is None or q is None or o != "eq" and isinstance(p, bytes):
                return None
            if o in ("eq", "lt"):
                return p == q if o == "eq" else p < q
            if o in ("div", "rem") and q == 0:
                return None
            return {
                "add": lambda: p + q, "sub": lambda: p - q, "mul": lambda: p * q, "div": lambda: p // q, "rem": lambda: p % q,
                "bitand": lambda: p & q, "bitor": lambda: p | q, "bitxor": lambda: p ^ q, "shl": lambda: p << q, "shr": lambda: p >> q,
                "min": lambda: min(p, q), "max": lambda: max(p, q),
            }[o]()
        return None

    def number(self, st, p):
        """What a string parsed as a number gives: None if that isn't known, False if it isn't one."""
        x = self.ev(st, p.a[1])
        base = p.a[2]
        base = base.a[0] if isinstance(base, Term) and base.op == "int" else 10
        if not isinstance(x, bytes):
            return None
        n = octal(x, base)
        w = WIDTH.get(p.a[3] if len(p.a) > 3 else "u64", 64)
        return False if n is None or n >= 1 << w else n
