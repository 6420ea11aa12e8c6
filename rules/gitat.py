"""Following git-at from its start under each combination of its options."""
import itertools
import re

from concrete import *
from cli import *

MAIN = "git_at::main"
NOTFOUND, CONFLICT = 1, 11
OPTIONS = ("summary", "show", "quiet", "no-fixup")
# Messages, and whether they begin with fixup! or squash!.
SAMPLES = (
    (b"fixup! a", True), (b"squash! a\n\nb\n", True), (b"fixup!", True), (b"squash!a", True), (b"a", False), (b"", False), (b"fixup a", False), (b"a fixup! b", False),
    (b"a\nfixup! b", False), (b"a\n\nsquash! b\n", False), (b"fixups! a", False), (b"squashed! a", False), (b"amend! a", False), (b"Revert \"fixup! a\"", False), (b"fix! a", False), (b"prefixup! a", False), (b"!", False),
)


def call_of(t, name):
    """The call a value comes from, through fields and references only."""
    while t.op in ("fld", "cref", "box", "deref"):
        t = t.a[0]
    return t if t.op == "call" and str(t.a[1]).endswith(name) else None


def message_of(t):
    t = bare(t)
    while t.op in ("fld", "deref") and is_pure(t.a[0], "Commit::message") or t.op == "pure" and t.a[0] in ("bytesof", "lossy"):
        t = bare(t.a[0] if t.op != "pure" else t.a[1])
    return t.a[1] if t.op == "pure" and t.a[0] in ("Commit::message_bytes", "Commit::message", "Commit::message_raw_bytes") else None


NONEWLINE = bytes(sorted(set(range(256)) - {10}))


class At(Rule, Concrete):
    """In the monitor state: cur, the commit looked at; hit and fix, whether the pattern and the one for fixup
    commits matched it; part, which part of the message was taken; cause, the last failure; done, what was
    printed or shown; err, whether something was written to standard error."""

    def __init__(self, opts, want):
        self.opts = opts
        self.want = want

    both = ("C21", "C24")

    def judge(self, prop, c, rule, detail):
        if prop == self.want or prop is self.both and self.want in prop:
            self.fail(c, rule, detail + self.given_as())

    def given_as(self):
        o = ["--" + k for k in OPTIONS if self.opts[k]] + (["a revision"] if self.opts["rev"] else [])
        return " (with %s)" % (", ".join(o) or "no option")

    def given(self, st, t):
        s = lookup(t)
        if s and s[0] in ("is_present", "occurrences_of") and s[1] in OPTIONS:
            v = self.opts[s[1]]
            return v if s[0] == "is_present" else int(v)
        return None

    def on_variant(self, st, v, k):
        s = lookup(v)
        if s and s[1] == 1 and s[0].startswith("value"):
            return (k == 1) == self.opts["rev"]
        if k == 1:
            if is_pure(v, "Regex::is_match"):
                mset(st, "cause", ("is_match", None))
            elif v.op == "call" and str(v.a[1]).endswith(("Regex::new", "RegexBuilder::build")):
                mset(st, "cause", ("the pattern", None))
            elif v.op == "elem" and call_of(v.a[0], "Repository::revwalk"):
                mset(st, "cause", ("the walk", T("fld", v, 1, 0)))
        return True

    def on_assume(self, st, c, val):
        r = self.ev(st, c)
        if r is not None:
            return bool(r) == val
        t = bare(c)
        if t.op == "fld" and is_pure(t.a[0], "Regex::is_match"):
            self.matched(st, t.a[0].a[1], t.a[0].a[2], val)
        elif t.op == "eq":
            for a, b in (t.a, t.a[::-1]):
                if a.op == "idx" and a.a[1] is INT(0) and b is INT(10) and not val and message_of(a.a[0]) is not None:
                    mset(st, "scan", message_of(a.a[0]))
                if a.op == "idx" and b is INT(10) and val and message_of(a.a[0]) is not None:
                    mset(st, "stop", True)
                if a.op == "slice" and a.a[1] is INT(0) and message_of(a.a[0]) is not None and b.op == "bytes":
                    self.prefix(st, b.a[0], val)
        elif t.op == "lt" and not val and t.a[1].op == "len" and message_of(t.a[1].a[0]) is not None:
            mset(st, "stop", True)
        elif t.op == "lt" and val and t.a[0].op == "len" and message_of(t.a[0].a[0]) is not None and t.a[1].op == "int":
            # Too short to begin with these.
            for b in (b"fixup!", b"squash!"):
                if t.a[1].a[0] <= len(b):
                    self.prefix(st, b, False)
        return True

    def prefix(self, st, b, val):
        if b in (b"fixup!", b"squash!"):
            no = mget(st, "no", ()) + ((b,) if not val else ())
            if val:
                mset(st, "fix", True)
            else:
                mset(st, "no", no)
                if set(no) == {b"fixup!", b"squash!"}:
                    mset(st, "fix", False)

    # What is matched.

    def matched(self, st, rx, text, val):
        k = call_of(rx, "Regex::new") or call_of(rx, "RegexBuilder::build")
        pat = bare(k.a[-1]) if k is not None else None
        text = bare(text)
        fr = self.fr
        c = self.at
        cur = mget(st, "cur")
        m = message_of(text)
        s = source(pat) if pat is not None else None
        self.ctx.count("matches judged")
        if s and s[1] == 2 and s[0].startswith("value"):
            mset(st, "hit", val)
            self.ctx.site("matches of the pattern", *self.where(c))
            if str(k.a[1]).endswith("build"):
                self.judge("C26", c, "pattern-options", "the pattern isn't used as given, but with options of its own")
            if self.opts["summary"]:
                first = self.first_line(st, text, cur) or m is not None and m is cur and self.single(st, text)
                if not first:
                    self.judge("C26", c, "not-the-first-line", "the pattern is matched against %s, not the first line of the commit's message" % short(text, 120))
            elif m is None or m is not cur:
                self.judge("C26", c, "not-the-message", "the pattern is matched against %s, not the commit's message" % short(text, 120))
        elif pat is not None and pat.op == "bytes":
            self.ctx.site("matches of the pattern for fixup commits", *self.where(c))
            if self.fixups(pat.a[0]):
                mset(st, "fix", val)
                if not (m is not None and m is cur or self.first_line(st, text, cur)):
                    self.judge("C25", c, "fixup-text", "what tells fixup commits is %s, not the commit's message" % short(text, 120))
            else:
                self.judge("C25", c, "fixup-pattern", "the pattern %r doesn't match just the messages that begin with fixup! or squash!" % pat.a[0])
        else:
            self.judge("C26", c, "other-pattern", "the pattern matched is %s, not the one given" % (short(pat, 120) if pat is not None else short(rx, 120)))
            mset(st, "hit", val)

    def fixups(self, pat):
        try:
            r = re.compile(pat.replace(b"\\z", b"\\Z"))
        except re.error:
            return False
        return all((r.search(m) is not None) == want for m, want in SAMPLES)

    def single(self, st, m):
        """Whether a message is known to have no newline."""
        for f, v in st.facts.items():
            if f[0] == "tr" and v is True and f[1].op == "allin" and bare(f[1].a[0]) is m and 10 not in f[1].a[1]:
                return True
        return False

    def first_line(self, st, text, cur):
        text = bare(text)
        if text.op == "elem" or text.op == "idx" and text.a[1] is INT(0):
            s = text.a[0]
            if s.op == "pure" and s.a[0] in ("split", "splitn") and b"\n" in [x if x.__class__ is bytes else x.a[0] if x.__class__ is Term and x.op == "bytes" else None for x in s.a]:
                return message_of(s.a[1]) is cur and cur is not None and (text.op == "idx" or mget(st, "part") == 0)
        if text is BYTES(b"") and cur is not None:
            # The message begins with a newline.
            return any(self.newline(st, V, INT(0)) for V in self.messages(st) if message_of(V) is cur)
        if text.op == "slice" and text.a[1] is INT(0) and message_of(text.a[0]) is cur and cur is not None:
            V, e = text.a[0], text.a[2]
            if call_of(e, "") is not None and str(call_of(e, "").a[1]) == "pos" or e.op in ("pos", "find") or any(x.op == "pure" and x.a[0] in ("find", "memchr") for x in subs(e)):
                return self.newline(st, V, e) or e.op == "pure"
            ends = mget(st, "stop") is True or self.newline(st, V, e) or self.I.decide(st, LT(e, LEN(V))) is False
            clean = e is INT(0) or st.facts.get(("tr", T("allin", text, NONEWLINE))) is True or mget(st, "scan") is cur
            return ends and clean
        return False

    def messages(self, st):
        return {t.a[0] for f in st.facts for t in f if t.__class__ is Term and t.op == "idx"}

    def newline(self, st, V, e):
        return self.I.decide(st, EQ(T("idx", V, e), INT(10))) is True

    # What happens.

    def on_call(self, st, fr):
        self.fr = fr

    def on_event(self, st, c, ev):
        self.at = c
        k = ev[0]
        if k == "part":
            mset(st, "part", ev[2] if message_of(ev[1].a[1]) is not None else mget(st, "part"))
        elif k == "query":
            self.query(st, c, ev)
        elif k == "next" and call_of(ev[1], "Repository::revwalk"):
            self.leave(st, c)
        elif k == "adapt" and call_of(ev[2], "Repository::revwalk"):
            self.judge("C25", c, "walk-changed", "not every commit of the walk may be looked at, or not in order: " + ev[1])
        elif k == "left" and mget(st, "cur") is not None:
            self.leave(st, c)
        elif k in ("write", "proc"):
            self.output(st, c, ev)
        elif k == "exit":
            self.end(st, c, ev[1])
        return True

    def query(self, st, c, ev):
        op, how, val = ev[1], ev[-2], ev[-1]
        if how == "err":
            mset(st, "cause", (op, val))
            return
        if op in ("Repository::revparse_single", "Repository::revparse_ext", "Repository::revparse"):
            x = bare(ev[3])
            s = source(x)
            self.ctx.count("revisions judged")
            if self.opts["rev"]:
                good = s and s[1] == 1 and s[0].startswith("value")
            else:
                good = x.op == "bytes" and x.a[0] == b"HEAD"
            if not good:
                self.judge("C25", c, "other-revision", "the walk starts at %s, not %s" % (short(x, 80), "the revision given" if self.opts["rev"] else "HEAD"))
        elif op.startswith("Revwalk::"):
            if op == "Revwalk::set_sorting":
                x = bare(ev[3])
                bits = [y.a[0] for y in subs(x) if y.op == "int"]
                names = str(x)
                if "TIME" in names and not bits:
                    bits = [2]
                if len(bits) != 1 or bits[0] & 6 != 2:
                    self.judge("C25", c, "other-order", "the walk isn't sorted newest first, but %s" % short(x, 80))
                else:
                    mset(st, "sorted", True)
            elif op == "Revwalk::push":
                if not call_of(ev[3].a[1], "revparse_single") if is_pure(ev[3], "Object::id") else not any(call_of(x, "revparse_single") for x in subs(ev[3])):
                    self.judge("C25", c, "other-start", "the walk starts at %s, not the revision" % short(ev[3], 80))
                mset(st, "pushed", True)
            elif op != "Revwalk::push_head" or self.opts["rev"]:
                self.judge("C25", c, "walk-limited", "%s keeps the walk from the history of the revision" % op)
        elif op == "Repository::find_commit":
            e = bare(ev[3])
            ok = any(x.op == "elem" and call_of(x.a[0], "Repository::revwalk") for x in subs(e))
            if not ok:
                self.judge("C25", c, "not-from-the-walk", "the commit looked at is %s, not the next of the walk" % short(e, 100))
            self.ctx.site("commits", *self.where(c))
            mset(st, "cur", val)

    def leave(self, st, c):
        """The walk goes on to the next commit."""
        cur = mget(st, "cur")
        if not mget(st, "walking"):
            if not mget(st, "sorted"):
                self.judge("C25", c, "unsorted", "the walk starts on a path where it hasn't been sorted newest first")
            mset(st, "walking", True)
        if cur is not None:
            self.ctx.count("commits passed over judged")
            skip = mget(st, "fix") is True
            if skip and not self.opts["no-fixup"]:
                if mget(st, "hit") is not False:
                    self.judge("C25", c, "fixup-skipped", "a commit is passed over because its message begins with fixup! or squash!")
            elif mget(st, "hit") is not False and not skip:
                self.judge("C25", c, "match-skipped", "a commit is passed over on a path where the pattern wasn't found not to match")
        for k in ("cur", "hit", "fix", "part", "no", "scan", "stop"):
            mset(st, k, None)

    def selected(self, st, c, t):
        self.ctx.count("selections judged")
        cur = mget(st, "cur")
        x = bare(t)
        if not (is_pure(x, "disp") or x.op == "disp"):
            return False
        x = bare([y for y in x.a if y.__class__ is Term][-1])
        if not (is_pure(x, "Commit::id") and cur is not None and bare(x.a[1]) is cur):
            ids = [y for y in subs(x) if y.op == "elem" and call_of(y.a[0], "Repository::revwalk")]
            if not (ids and cur is not None and any(y is ids[0] for y in subs(cur))):
                return False
        if mget(st, "hit") is not True:
            self.judge("C25", c, "no-match", "a commit is selected on a path where the pattern wasn't found to match it")
        if self.opts["no-fixup"] and mget(st, "fix") is not False:
            self.judge("C25", c, "fixup-selected", "a commit is selected on a path where its message may begin with fixup! or squash!")
        return True

    def output(self, st, c, ev):
        if ev[0] == "proc":
            if ev[1] in ("wait", "wait_with_output"):
                mset(st, "child", None)
            elif ev[1] == "kill":
                self.judge("C28", c, "killed", "the process started is killed, not waited for")
            if ev[1] == "spawn":
                if ev[-2] == "ok":
                    self.ctx.site("children", *self.where(c))
                    mset(st, "child", ev[-1])
                if not self.opts["show"]:
                    self.judge("C25", c, "shown", "git show is run though --show isn't given")
                b = ev[2]
                words = []
                for x in b.a[1] if b.op == "builder" else ():
                    if x[0] in ("new", "arg"):
                        words.append(x[1])
                    elif x[0] == "args":
                        v = bare(x[1])
                        words += [y for y in v.a if y.__class__ is Term] if v.op in ("array", "seq", "agg", "tuple") else [v]
                ok = len(words) == 3 and [bare(w) for w in words[:2]] == [BYTES(b"git"), BYTES(b"show")]
                if not ok or not self.selected(st, c, words[2]):
                    self.judge("C25", c, "other-command", "what is run isn't git show and the ID of the commit found: %s" % short(b, 120))
                if ev[-2] == "ok":
                    mset(st, "done", "shown")
            elif ev[1] in ("status", "output"):
                self.judge("C25", c, "other-command", "unexpected command") if not self.opts["show"] else mset(st, "done", "shown")
            return
        to = ev[1]
        if to.op != "std":
            return
        if to.a[0] == "stderr":
            if bare(ev[2]) is not BYTES(b""):
                mset(st, "err", True)
            return
        x = bare(ev[2])
        ok = x.op == "cat" and len(x.a) == 2 and x.a[1] is BYTES(b"\n") and self.selected(st, c, x.a[0])
        if not ok:
            self.judge("C25", c, "other-output", "what is printed isn't the ID of the commit found: %s" % short(x, 120))
            self.judge("C24", c, "other-output", "what is printed on standard output isn't the ID of the commit found: %s" % short(x, 120))
        if self.opts["show"]:
            self.judge("C25", c, "printed", "the ID is printed though --show is given")
        if mget(st, "done"):
            self.judge("C25", c, "printed-twice", "more than one commit may be printed")
        if ev[-2] == "ok":
            mset(st, "done", "printed")
        else:
            mset(st, "cause", ("write", None))

    # How it ends.

    def end(self, st, c, code):
        I = self.I
        self.ctx.count("ends judged")
        self.ctx.site("ends", *self.where(c))
        done, cause = mget(st, "done"), mget(st, "cause")
        if mget(st, "child") is not None:
            self.judge("C28", c, "not-waited-for", "the program ends on a path where the process it started hasn't been waited for")
        is_ = lambda n: I.decide(st, EQ(code, INT(n)))
        if done and cause is not None and cause[0] != "write":
            self.judge("C21", c, "went-on", "a commit is printed or shown on a path after an error in %s" % cause[0])
        k = bare(code)
        if done == "printed":
            if cause is None and is_(0) is not True:
                self.judge("C24", c, "success-nonzero", "the commit found is printed, but the exit status may not be 0")
                self.judge("C25", c, "success-nonzero", "the commit found is printed, but the exit status may not be 0")
            return
        if done == "shown":
            if any(is_pure(x, "status_code") for x in subs(k)):
                if not (k.op == "fld" and is_pure(k.a[0], "status_code")):
                    self.judge("C24", c, "other-status", "the exit status is %s, not that of git show" % short(k, 100))
            elif self.exited(st) or k.op != "int" or k.a[0] < 2:
                self.judge("C24", c, "other-status", "the exit status is %s, not that of git show" % short(k, 100))
            return
        if is_(0) is not False:
            self.judge(self.both if cause is not None else "C24", c, "failure-zero", "the exit status may be 0 though nothing was printed")
        if cause is None:
            want = 1
        elif cause[0] in ("Repository::discover", "Repository::open"):
            want = 2
        elif cause[1] is None:
            want = 2
        else:
            v = I.variant(st, pure("Error::code", cause[1]))
            if v in (NOTFOUND, CONFLICT):
                want = 1 if cause[0].startswith("Repository::revparse") else 0
            else:
                want = 2
        if want == 1 and is_(1) is not True:
            self.judge("C24", c, "not-found-status", "the exit status isn't 1 though %s" % ("no commit matches" if cause is None else "the revision doesn't exist"))
        if want == 2 and not (k.op == "int" and k.a[0] >= 2):
            self.judge(self.both, c, "error-status", "the exit status may be less than 2 after an error in %s" % (cause[0],))
        quiet = self.opts["quiet"] and k is INT(1)
        if quiet and mget(st, "err"):
            self.judge("C24", c, "not-quiet", "a message is printed with --quiet though there is just no such commit")
        if not quiet and not mget(st, "err"):
            self.judge(self.both if cause is not None else "C24", c, "no-message", "the program ends with status %s on a path where no message was printed" % short(k, 20))

    def exited(self, st):
        """Whether the child is known to have exited by itself."""
        for f, v in st.facts.items():
            if f[0] == "var" and is_pure(f[1], "status_code"):
                return v == 1
        return False

    def on_exit(self, st, fr, rv):
        if fr.parent is None and unit(rv):
            self.end(st, Return(fr), INT(0))
        return st, rv


class Return:
    """Where main returns, as an exit."""
    loc = "return"

    def __init__(self, fr):
        self.fr = fr


def unit(rv):
    """Whether what main returns means success."""
    rv = bare(rv)
    return rv.op in ("unit", "undef") or rv.op in ("tuple", "agg") and not [x for x in rv.a if x.__class__ is Term]


def combinations():
    for bits in itertools.product((False, True), repeat=len(OPTIONS) + 1):
        yield dict(zip(OPTIONS + ("rev",), bits))


SHORTS = {"s": "summary", "q": "quiet"}


class Options(Rule):
    def on_event(self, st, c, ev):
        return True

    def on_assume(self, st, c, val):
        for t in subs(c):
            if lookup(t):
                m = t.a[1]
                while m.op in ("cref", "box", "deref"):
                    m = m.a[0]
                for n, (pos, short_, long_, _) in arguments(m.a[1]).items():
                    self.seen.setdefault(long_ or n, (pos, short_))
        return True


def shorts(ctx):
    """The documented short options mean the same as the long ones."""
    r = Options()
    r.seen = {}
    ctx.run(MAIN, r, opts={"cap": 200}, label=MAIN + " (command line)")
    ctx.count("options judged", len(r.seen))
    for s, l in SHORTS.items():
        for n, (pos, short_) in r.seen.items():
            if (short_ == s) != (n == l):
                ctx.violation("short-option", "git_at::parse_options", "-", "-%s isn't (only) the short form of --%s" % (s, l))
    for n, want in (("revision", 1), ("pattern", 2)):
        if n in r.seen and r.seen[n][0] != want:
            ctx.violation("position", "git_at::parse_options", "-", "the %s isn't argument number %d" % (n, want))


def run(ctx, want):
    def one(o):
        r = At(o, want)
        ctx.run(MAIN, r, opts={"cap": 200}, label=MAIN + r.given_as())

    cs = list(combinations())
    n = 8
    ctx.jobs([lambda i=i: [one(o) for o in cs[i::n]] for i in range(n)])
    if want == "C25":
        shorts(ctx)
    for w in ("ends", "commits", "matches of the pattern") if want in ("C25", "C26") else ("ends",):
        if not ctx.sites.get(w):
            ctx.violation("nothing-to-judge", MAIN, "-", "no reachable construct was found: " + w)
