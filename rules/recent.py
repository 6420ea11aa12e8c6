"""Following git-recent-refs from its start, for each kind of sorting."""
import gitat
from concrete import *
from cli import *

MAIN = "git_recent_refs::main"
KINDS = (None, "visitdate", "committerdate", "authordate")
CHECKOUT = b"checkout: moving from "
MANY = 3
# These leave out or reorder only what is judged elsewhere.
FINE = ("filter", "filter_map", "map", "inspect")


def follow(t, V):
    """A part of one of the elements of a sequence, in terms of what the sequence was made of."""
    path = []
    while True:
        while t.op in ("cref", "box", "deref"):
            t = t.a[0]
        if t.op != "fld":
            break
        path.append(t.a[1:])
        t = t.a[0]
    if not is_pure(t, "item"):
        return None, None
    which = t.a[1]
    x = None
    for y in subs(V):
        if y.op == "some":
            x = y.a[0]
            break
    if x is None:
        return which, None
    while x.op == "when":
        x = x.a[0]
    for p in reversed(path):
        if x.op == "agg" and x.a[0][1] == p[0] and p[1] + 1 < len(x.a):
            x = x.a[p[1] + 1]
        else:
            return which, None
        while x.op in ("cref", "box", "deref"):
            x = x.a[0]
    return which, x


class Refs(Rule, Concrete):
    """In the monitor state: last, the number of the last position looked up (HEAD is 0); found, what was found
    there while it isn't printed yet; moves, how many checkouts the reflog has; failed, whether the current
    reference couldn't be read; order, how the references are sorted; children, those not waited for."""

    def __init__(self, kind, want, tty=False):
        self.tty = tty
        self.kind = kind
        self.want = want

    both = ("C21", "C24")

    def judge(self, prop, c, rule, detail):
        if prop == self.want or prop is self.both and self.want in prop:
            self.fail(c, rule, detail + (" (with --sort=%s)" % self.kind if self.kind else " (without --sort)"))

    @property
    def visited(self):
        return self.kind in (None, "visitdate")

    def sort_option(self, t):
        while t.op in ("deref", "fld", "cref", "box") or t.op == "pure" and t.a[0] in ("lossy", "utf8ok", "osstr", "utf8", "bytesof", "lower"):
            t = t.a[1] if t.op == "pure" else t.a[0]
        s = lookup(t)
        return bool(s and s[1] == "sort")

    def given(self, st, t):
        if t.op in ("deref", "fld") and self.kind and self.sort_option(t):
            return self.kind.encode()
        if t.op == "call" and str(t.a[1]).endswith("isatty"):
            return int(self.tty)
        s = lookup(t)
        if s and s[1] == "sort" and s[0] in ("is_present", "occurrences_of"):
            return bool(self.kind) if s[0] == "is_present" else int(bool(self.kind))
        return None

    def on_variant(self, st, v, k):
        s = lookup(v)
        if s and s[1] == "sort":
            return (k == 1) == (self.kind is not None)
        if v.op == "elem" and k == 1 and self.of(v, "Repository::references") or is_pure(v, "Reference::target") and k == 0:
            mset(st, "failed", True)
        return True

    def on_assume(self, st, c, val):
        r = self.ev(st, c)
        if r is not None:
            return bool(r) == val
        t = bare(c)
        if t.op == "eq":
            for a, b in (t.a, t.a[::-1]):
                if b.op == "bytes" and any(is_pure(x, "ReflogEntry::message_bytes") or is_pure(x, "ReflogEntry::message") for x in subs(a)):
                    if b.a[0] == CHECKOUT:
                        if val and not mget(st, "counted"):
                            mset(st, "moves", min(MANY, mget(st, "moves", 0) + 1))
                        mset(st, "counted", val)
                    elif val and not b.a[0].startswith(CHECKOUT):
                        self.judge("C27", self.at, "other-entries", "the reflog's entries counted are those that begin with %r" % b.a[0])
        return True

    def of(self, t, what):
        """Whether a value comes from the result of a call."""
        return any(x.op == "call" and str(x.a[1]).endswith(what) for x in subs(t))

    def is_(self, st, x, k):
        """Whether an Option or a Result is known to be of a variant."""
        return self.I.variant(st, x) == k or 1 - k in st.facts.get(("nvar", x), ())

    def position(self, t):
        """Which previous position a revision means: a number, a term, or None if it is none."""
        t = bare(t)
        if t.op == "bytes":
            b = t.a[0]
            if b in (b"HEAD", b"@"):
                return 0
            return int(b[3:-1]) if b[:3] == b"@{-" and b[-1:] == b"}" and b[3:-1].isdigit() else None
        if t.op == "cat" and len(t.a) == 3 and t.a[0] is BYTES(b"@{-") and t.a[2] is BYTES(b"}") and is_pure(t.a[1], "disp"):
            return t.a[1].a[-1]
        if t.op == "cat" and len(t.a) == 3 and t.a[0] is BYTES(b"@{-") and t.a[2] is BYTES(b"}") and t.a[1].op == "disp":
            return t.a[1].a[-1]
        return None

    def on_call(self, st, fr):
        pass

    def on_event(self, st, c, ev):
        self.at = c
        k = ev[0]
        if k == "query":
            self.query(st, c, ev)
        elif k == "adapt":
            self.adapt(st, c, ev)
        elif k in ("left", "kept"):
            self.decided(st, c, ev)
        elif k == "next":
            mset(st, "counted", None)
            if self.of(ev[1], "Repository::references"):
                mset(st, "failed", None)
        elif k == "collect":
            if self.visited and mget(st, "last") is None and not self.of(ev[1], "Repository::reflog"):
                its = [x for x in subs(ev[1]) if x.op == "it" and x.a[0] in ("filter_map", "map", "filter")]
                if any(x.op == "bytes" and x.a[0] == b"HEAD" for x in subs(ev[1])) and its:
                    mset(st, "gather", True)
        elif k == "order":
            self.order(st, c, ev)
        elif k == "scramble":
            o = mget(st, "order")
            if o:
                mset(st, "order", {"asc": "desc", "desc": "asc"}[o] if ev[1] == "reverse" else None)
        elif k == "write":
            self.output(st, c, ev)
        elif k == "proc":
            self.child(st, c, ev)
        elif k == "exit":
            self.end(st, c, ev[1])
        return True

    def query(self, st, c, ev):
        op, how, val = ev[1], ev[-2], ev[-1]
        if how == "err":
            if op in ("Repository::discover", "Repository::open", "Repository::references"):
                mset(st, "cause", (op, val))
            if op in ("Reference::peel_to_commit", "Repository::find_commit", "Reference::peel", "Reference::peel_to_tag", "Object::peel_to_commit", "Object::peel", "Repository::find_object", "Reference::resolve"):
                mset(st, "failed", True)
        if op.startswith("Repository::revparse"):
            if not self.visited:
                return
            self.unprinted(st, c)
            self.ctx.count("positions judged")
            n = self.position(ev[3])
            last = mget(st, "last")
            self.ctx.site("positions", *self.where(c))
            if n is None:
                self.judge("C27", c, "other-revision", "what is looked up is %s, not HEAD or a previous position" % short(ev[3], 80))
            elif isinstance(n, int) and n == last and n > 1:
                # It's from a list that isn't known in full.
                pass
            elif isinstance(n, int) and (n if last is None else n - last if isinstance(last, int) else 0) != (0 if last is None else 1 if isinstance(last, int) else 0):
                self.judge("C27", c, "other-position", "%s is looked up %s" % (short(ev[3], 40), "first" if last is None else "after HEAD" if last == 0 else "after @{-%s}" % last))
            mset(st, "last", n if isinstance(n, int) and n <= MANY else "?")
            if how == "ok":
                mset(st, "found", True)
        elif op == "Repository::reflog":
            if bare(ev[3]) is not BYTES(b"HEAD"):
                self.judge("C27", c, "other-reflog", "the reflog looked at is that of %s" % short(ev[3], 60))
        elif op == "Repository::references" and how == "ok":
            self.ctx.site("references", *self.where(c))
            mset(st, "listed", True)
        elif op in ("Repository::references_glob", "Repository::branches", "Repository::tag_names", "References::names"):
            self.judge("C27", c, "not-all-references", "%s doesn't give every reference" % op)

    def unprinted(self, st, c):
        if mget(st, "found"):
            self.judge("C27", c, "position-skipped", "a position that was found isn't listed before the next is looked up")
        mset(st, "found", None)

    def adapt(self, st, c, ev):
        how, base = ev[1], ev[2]
        if how in FINE:
            return
        if self.of(base, "Repository::reflog"):
            if how != "rev":
                self.judge("C27", c, "reflog-cut", "not every entry of the reflog may be counted: " + how)
            return
        if how == "rev" and not self.visited:
            o = mget(st, "order")
            if o:
                mset(st, "order", {"asc": "desc", "desc": "asc"}[o])
            return
        if how in ("take", "take_while") and base.op in ("int", "range") and self.visited:
            # How far it goes is judged at the end.
            return
        if self.of(base, "Repository::references") or self.visited and (any(x.op == "bytes" and x.a[0] == b"HEAD" for x in subs(base)) or base.op in ("int", "range", "seq")):
            self.judge("C27", c, "list-cut", "not everything may be listed, or not in order: " + how)

    def decided(self, st, c, ev):
        kind, how, v = ev[:3]
        if self.of(v, "Repository::reflog"):
            self.ctx.count("entries judged")
            counted = mget(st, "counted")
            if kind == "kept" and not counted:
                self.judge("C27", c, "entry-counted", "an entry of the reflog is counted that may not be a checkout")
            if kind == "left" and counted:
                self.judge("C27", c, "entry-left", "a checkout in the reflog isn't counted")
            mset(st, "counted", None)
        elif self.of(v, "Repository::references"):
            self.ctx.count("references judged")
            if kind == "left":
                failed = mget(st, "failed") or any(self.is_(st, x, 1 if x.op == "elem" else 0) for x in list(subs(v)) + [f[1] for f in st.facts if f[0] in ("var", "nvar")] if x.op == "elem" or is_pure(x, "Reference::target"))
                if not failed:
                    self.judge("C27", c, "reference-left", "a reference is left out on a path where it wasn't found not to resolve to a commit (%s)" % how)
                mset(st, "failed", None)
            elif how == "filter" and v.op == "agg":
                # All that can be asked has been asked.
                mset(st, "failed", None)
        elif self.visited and (self.position(bare(v)) is not None or self.of(v, "revparse_ext") or self.of(v, "revparse_single")):
            if kind == "kept" and how == "filter_map":
                if mget(st, "gather"):
                    mset(st, "found", None)
                return
            if kind == "left" and mget(st, "found"):
                self.judge("C27", c, "position-left", "a position is left out that was found (%s)" % how)
                mset(st, "found", None)

    def order(self, st, c, ev):
        V, how, r = ev[1:4]
        r = bare(r)
        self.ctx.count("orders judged")
        self.ctx.site("orders", *self.where(c))
        d = None
        key = None
        if how == "cmp" and r.op == "cmp":
            (i, x), (j, y) = (follow(z, V) for z in r.a[:2])
            if {i, j} == {INT(1), INT(2)}:
                d, key = "desc" if i is INT(2) else "asc", x
                if x is not y:
                    key = None
        elif how == "key":
            d = "asc"
            while r.op == "agg" and str(r.a[0][0]).endswith("Reverse"):
                d = "desc" if d == "asc" else "asc"
                r = bare(r.a[1])
            if r.op == "neg" or r.op == "sub" and r.a[0] is INT(0):
                d = "desc"
                r = bare(r.a[-1])
            i, key = follow(r, V)
        mset(st, "order", d if self.dated(c, key, r, V) else None)

    def dated(self, c, key, r, V):
        """Whether what is sorted by is the date asked for."""
        if key is None:
            self.judge("C27", c, "other-order", "what the references are sorted by isn't their date: %s" % short(r, 120))
            return False
        whose = {x.a[0] for x in subs(key) if x.op == "pure" and x.a[0] in ("Commit::committer", "Commit::author", "Commit::time")}
        good = {"committerdate": ("Commit::committer", "Commit::time"), "authordate": ("Commit::author",)}.get(self.kind, ())
        if not whose or not whose <= set(good) or not any(x.op == "pure" and x.a[0] in ("Signature::when", "Commit::time") for x in subs(key)):
            self.judge("C27", c, "other-date", "the references are sorted by %s" % (", ".join(sorted(whose)) or short(key, 100)))
            return False
        return True

    def output(self, st, c, ev):
        to, x = ev[1], bare(ev[2])
        if to.op == "std" and to.a[0] == "stderr":
            if x is not BYTES(b""):
                mset(st, "err", True)
            return
        piped = self.of(to, "Command::spawn")
        if not (to.op == "std" or piped):
            return
        if ev[-2] == "err":
            mset(st, "cause", ("writing to the output", ev[-1]))
        self.ctx.count("lines judged")
        parts = [y for y in subs(x) if y.op in ("pure", "disp")]
        named = any(is_pure(y, n) for y in parts for n in ("Reference::name_bytes", "Reference::name", "Object::id"))
        if not named:
            for p in ("C24", "C27"):
                self.judge(p, c, "other-output", "what is printed isn't a reference or the ID of a commit: %s" % short(x, 100))
        elif self.visited:
            if not self.of(x, "revparse_ext") and not self.of(x, "revparse_single") and not any(y.op == "okey" and "revparse" in str(y.a) for y in subs(x)):
                self.judge("C27", c, "other-line", "what is printed isn't what was found at a position: %s" % short(x, 100))
            mset(st, "found", None)
        else:
            if not any(is_pure(y, n) for y in parts for n in ("Reference::name_bytes", "Reference::name")) or not self.of(x, "Repository::references"):
                self.judge("C27", c, "other-line", "what is printed isn't the name of a reference: %s" % short(x, 100))
            self.ctx.site("lines", *self.where(c))
            if mget(st, "order") != "desc":
                self.judge("C27", c, "not-sorted", "a reference is printed on a path where they aren't sorted by date, newest first")
        if not (x.op == "cat" and len(x.a) == 2 and x.a[1] is BYTES(b"\n")) and named:
            self.judge("C27", c, "other-line", "a line is printed that isn't just a name: %s" % short(x, 100))

    # Children.

    def child(self, st, c, ev):
        if ev[1] == "spawn" and ev[-2] == "ok":
            self.ctx.site("children", *self.where(c))
            mset(st, "child", ev[-1])
        elif ev[1] in ("spawn", "status", "output") and ev[-2] == "err":
            mset(st, "cause", ("starting a process", ev[-1]))
        elif ev[1] in ("wait", "wait_with_output"):
            mset(st, "child", None)
        elif ev[1] == "kill":
            self.judge("C28", c, "killed", "the process started is killed, not waited for")

    # How it ends.

    def end(self, st, c, code):
        self.ctx.count("ends judged")
        self.ctx.site("ends", *self.where(c))
        if mget(st, "child") is not None:
            self.judge("C28", c, "not-waited-for", "the program ends on a path where the process it started hasn't been waited for")
        k = bare(code)
        cause = mget(st, "cause")
        zero = self.I.decide(st, EQ(code, INT(0)))
        if cause is not None:
            if zero is not False:
                self.judge(self.both, c, "failure-zero", "the exit status may be 0 after an error in %s" % cause[0])
            elif cause[0] != "Repository::references" or self.I.variant(st, pure("Error::code", cause[1])) not in (1, 11):
                if not (k.op == "int" and k.a[0] >= 2):
                    self.judge("C24", c, "error-status", "the exit status may be less than 2 after an error in %s" % cause[0])
            if not mget(st, "err"):
                self.judge(self.both, c, "no-message", "the program ends with status %s after an error in %s and prints no message" % (short(k, 20), cause[0]))
            return
        if zero is not True:
            self.judge("C24", c, "success-nonzero", "the exit status may not be 0 though the references were listed")
        self.unprinted(st, c)
        if self.visited:
            last, moves = mget(st, "last"), mget(st, "moves", 0)
            if last is None:
                self.judge("C27", c, "head-missing", "HEAD isn't listed")
            elif moves < MANY and isinstance(last, int) and last != moves:
                self.judge("C27", c, "stopped-early" if last < moves else "too-many", "the last position looked up is number %d after %d checkouts" % (last, moves))
        elif not mget(st, "listed"):
            self.judge("C27", c, "not-listed", "the program ends without having listed the references")

    def on_exit(self, st, fr, rv):
        if fr.parent is None and gitat.unit(rv):
            self.end(st, gitat.Return(fr), INT(0))
        return st, rv


class Options(Rule):
    def on_assume(self, st, c, val):
        return True

    def on_variant(self, st, v, k):
        s = lookup(v)
        if s and s[1] == "sort":
            self.seen = s[2]
        return True


def run(ctx, want, tty=False):
    for k in KINDS:
        ctx.run(MAIN, Refs(k, want, tty), label="%s with %s" % (MAIN, "--sort=" + k if k else "no option"))


def values(ctx):
    """The values the option takes."""
    o = Options()
    o.seen = None
    ctx.run(MAIN, o, label=MAIN + " (command line)")
    if o.seen is None:
        ctx.violation("no-option", MAIN, "-", "the option --sort isn't looked up")
        return
    vs = o.seen.get("possible_values")
    if vs:
        have = {x.a[0] for x in subs(vs[0]) if x.op == "bytes"}
        for k in KINDS[1:]:
            ctx.count("values judged")
            if have and k.encode() not in have:
                ctx.violation("value-refused", MAIN, "-", "--sort=%s isn't accepted" % k)
