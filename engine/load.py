"""Loads the MIR dump of the workspace and answers questions about types, bodies and impls."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("REPO", "/repo")


class DumpError(Exception):
    pass


def ty(j):
    """A type as a nested tuple."""
    k = j["k"]
    a = tuple(ty(x) for x in j.get("a", ()))
    if k == "adt":
        return ("adt", j["p"]) + a
    if k == "ref" or k == "ptr":
        return (k, bool(j["m"]), a[0])
    if k == "array":
        return ("array", a[0], j["n"])
    if k == "slice":
        return ("slice", a[0])
    if k == "tuple":
        return ("tuple",) + a
    if k == "param":
        return ("param", j["n"])
    if k == "dyn":
        t = j.get("t")
        return ("dyn", t["p"] if t else "?")
    if k == "closure":
        return ("closure", j["p"]) + a
    if k == "fndef":
        return ("fndef", j["p"]) + a
    if k == "const":
        return ("const", j["v"])
    if k == "alias":
        return ("alias", j["p"]) + a
    if k == "other" or k == "fnptr":
        return (k, j.get("s", ""))
    return (k,)


_sub = {}


def subst(t, m):
    """Substitutes type parameters."""
    if not m:
        return t
    if t[0] == "param":
        return m.get(t[1], t)
    if len(t) == 1:
        return t
    return tuple(subst(x, m) if x.__class__ is tuple else x for x in t)


def head(t):
    if t[0] == "adt":
        return t[1]
    if t[0] in ("ref", "ptr"):
        return "&" + head(t[2])
    if t[0] == "slice":
        return "[%s]" % head(t[1])
    if t[0] == "array":
        return "[%s;_]" % head(t[1])
    if t[0] == "dyn":
        return "dyn " + t[1]
    if t[0] == "tuple":
        return "(" + ",".join(head(x) for x in t[1:]) + ")"
    if t[0] == "param":
        return t[1]
    return t[0]


def show_ty(t):
    if t[0] == "adt":
        n = t[1].split("::")[-1]
        return n + ("<" + ", ".join(show_ty(x) for x in t[2:]) + ">" if len(t) > 2 else "")
    return head(t)


def unify(pat, t, m):
    """Matches an impl header type against a concrete one."""
    if pat[0] == "param":
        if pat[1] in m:
            return m[pat[1]] == t
        m[pat[1]] = t
        return True
    if pat[0] != t[0] or len(pat) != len(t):
        return False
    for x, y in zip(pat[1:], t[1:]):
        if x.__class__ is tuple:
            if y.__class__ is not tuple or not unify(x, y, m):
                return False
        elif x != y:
            return False
    return True


class Body(object):
    def __init__(self, j, crate):
        self.p = j["p"]
        self.crate = crate
        self.kind = j["kind"]
        self.generics = j["g"]
        self.argc = j["argc"]
        self.locals = [ty(x["t"]) for x in j["locals"]]
        self.names = {i: x["n"] for i, x in enumerate(j["locals"]) if "n" in x}
        self.blocks = j["blocks"]
        self.loc = j["loc"]
        self.pub = j["pub"]
        self.ck = j.get("ck")
        self.up = j.get("up", [])
        self.in_trait = j.get("in_trait")
        self.impl_trait = j.get("impl_trait")
        self.self_ty = ty(j["self_ty"]) if "self_ty" in j else None
        self._prep()

    def succ(self, i):
        t = self.blocks[i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[4]]
        return []

    def _prep(self):
        n = len(self.blocks)
        preds = [0] * n
        # Reachable blocks, back edges and loop heads.
        color = {}
        self.heads = set()
        st = [(0, iter(self.succ(0)))]
        color[0] = 1
        preds[0] += 1
        while st:
            b, it = st[-1]
            for s in it:
                preds[s] += 1
                c = color.get(s)
                if c is None:
                    color[s] = 1
                    st.append((s, iter(self.succ(s))))
                    break
                if c == 1:
                    self.heads.add(s)
            else:
                color[b] = 2
                st.pop()
        self.reach = set(color)
        self.joins = {i for i in self.reach if preds[i] > 1}
        self._live()

    def _uses(self, x, use, deff, mutref):
        pass

    def _live(self):
        """Backward liveness of locals; a local that is mutably borrowed counts as used until its
        storage is dead."""
        n = len(self.blocks)
        addr = set()

        def place_use(p, acc):
            acc.add(p[0])
            for e in p[1:]:
                if e[0] == "i":
                    acc.add(e[1])

        def op_use(o, acc):
            if o[0] in ("cp", "mv"):
                place_use(o[1], acc)

        def rv_use(r, acc):
            k = r[0]
            if k in ("use", "rep"):
                op_use(r[1], acc)
            elif k == "ref":
                place_use(r[2], acc)
                if r[1] != "s" and r[1] != "fake":
                    if not any(e[0] == "*" for e in r[2][1:]):
                        addr.add(r[2][0])
            elif k == "cast":
                op_use(r[2], acc)
            elif k == "bin":
                op_use(r[2], acc)
                op_use(r[3], acc)
            elif k == "un":
                op_use(r[2], acc)
            elif k == "discr":
                place_use(r[1], acc)
            elif k == "agg":
                for o in r[2]:
                    op_use(o, acc)

        gen, kill = [], []
        deads = []
        for b in self.blocks:
            g, k, dd = set(), set(), set()
            for s in b["s"]:
                if s[0] == "=":
                    acc = set()
                    rv_use(s[2], acc)
                    if len(s[1]) > 1:
                        place_use(s[1], acc)
                    g |= acc - k
                    if len(s[1]) == 1:
                        k.add(s[1][0])
                elif s[0] == "sd":
                    acc = set()
                    place_use(s[1], acc)
                    g |= acc - k
                elif s[0] == "dead":
                    dd.add(s[1])
                    k.add(s[1])
            t = b["t"]
            acc = set()
            d = None
            if t[0] == "switch":
                op_use(t[1], acc)
            elif t[0] == "call":
                op_use(t[1], acc)
                for o in t[2]:
                    op_use(o, acc)
                if len(t[3]) == 1:
                    d = t[3][0]
                else:
                    place_use(t[3], acc)
            elif t[0] == "drop":
                place_use(t[1], acc)
            elif t[0] == "assert":
                op_use(t[1], acc)
                for o in t[3][1:]:
                    if isinstance(o, list):
                        op_use(o, acc)
            elif t[0] == "ret":
                acc.add(0)
            g |= acc - k
            if d is not None:
                k.add(d)
            gen.append(g)
            kill.append(k)
            deads.append(dd)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in self.succ(i):
                    o |= live[s]
                v = gen[i] | (o - kill[i])
                if v != live[i]:
                    live[i] = v
                    ch = True
        self.addr = addr
        self.live = [frozenset(v | addr) for v in live]


class Program(object):
    def __init__(self, d):
        self.bodies = {}
        self.adts = {}
        self.impls = {}
        self.crates = []
        for f in sorted(os.listdir(d)):
            if not f.endswith(".json"):
                continue
            j = json.load(open(os.path.join(d, f)))
            self.crates.append(j["crate"])
            for b in j["bodies"]:
                body = Body(b, j["crate"])
                if body.p in self.bodies:
                    raise DumpError("two bodies for " + body.p)
                self.bodies[body.p] = body
            for p, a in j["adts"].items():
                if p not in self.adts or a["local"]:
                    self.adts[p] = a
            for i in j["impls"]:
                args = tuple(ty(x) for x in i["args"])
                items = {x[0]: (x[1], ty(x[2]) if x[2] else None) for x in i["items"]}
                self.impls.setdefault(i["trait"], []).append((args, items))
        self._drop = {}

    def adt(self, p):
        return self.adts.get(p)

    def variant_of_discr(self, adt, d):
        a = self.adts.get(adt)
        if a is None:
            return None
        for i, v in enumerate(a["v"]):
            if int(v["d"]) == d:
                return i
        return None

    def variant_index(self, adt, name):
        a = self.adts.get(adt)
        if a is None:
            return None
        for i, v in enumerate(a["v"]):
            if v["n"] == name:
                return i
        return None

    def variant_name(self, adt, k):
        a = self.adts.get(adt)
        if a is None or k >= len(a["v"]):
            return str(k)
        return a["v"][k]["n"]

    def field_index(self, adt, name, variant=0):
        a = self.adts.get(adt)
        if a is None:
            return None
        for i, f in enumerate(a["v"][variant]["f"]):
            if f[0] == name:
                return i
        return None

    def find_impl(self, trait, method, selfty, targs=()):
        """The body implementing a trait's method for a concrete type, with its substitution."""
        for args, items in self.impls.get(trait, ()):
            m = {}
            if not unify(args[0], selfty, m):
                continue
            ok = True
            for x, y in zip(args[1:], targs):
                m2 = dict(m)
                if not unify(x, y, m2):
                    ok = False
                    break
                m = m2
            if not ok:
                continue
            it = items.get(method)
            if it is not None:
                return it[0], m
            return None, m
        return None

    def drop_impl(self, t):
        """The workspace Drop impl of an ADT, if any."""
        if t[0] != "adt":
            return None
        r = self.find_impl("core::ops::drop::Drop", "core::ops::drop::Drop::drop", t)
        return r


def dump(outdir):
    env = dict(os.environ, REPO=REPO)
    p = subprocess.run(
        [os.path.join(VERIF, "tools", "dump.sh"), outdir],
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
    )
    if p.returncode != 0:
        raise DumpError("cannot analyse the workspace:\n" + p.stdout.decode(errors="replace")[-4000:])
    return outdir
