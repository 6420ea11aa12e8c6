"""C07: no client input and no stored data can crash the server.

From the transfer program's main, with everything the client sends, every argument, file, name and
time taken as unknown, and from the packet layer's reading and writing functions on their own: every
assertion the compiler inserted (index, overflow, division) is proved from what is known on each
path, and no call that panics (unwrap of a failure, slicing, splitting, an unreachable!(), …) is
reachable.  For the reader's fields, the orderings its constructor establishes and every method
keeps are derived first and assumed.

Sums of lengths and counts in 64 bits are taken not to overflow; where two things can't both fail
at once in practice is no argument for any other exception than these: what the program requires of
its own argument parser (an argument declared as required has a value), and writing a last message
to a closed standard error."""
from pkt import *

MAIN = "git_lfs_transfer::main"


class R(Crashes):
    def on_event(self, st, c, ev):
        return True

    def crash(self, st, fr, loc, what, detail):
        self.ctx.violation("may-panic-" + what.replace(":", "-"), fr.body.p, loc, "%s: %s" % (what, detail[:400]), self.chain(fr))

    def on_panic(self, st, c, what, v):
        if v is not None and (self.required(v) or self.last_words(v)):
            self.ctx.count("panics excepted")
            self.ctx.site("panics excepted", c.fr.body.p, c.loc)
            return
        Crashes.on_panic(self, st, c, what, v)

    def last_words(self, v):
        return any(x.op == "std" and x.a[0] == "stderr" for x in subs(v))

    def required(self, v):
        """Whether this asks for an argument which the parser requires to be there."""
        if v.op != "pure" or not v.a[0].endswith("value_of_os"):
            return False
        name = v.a[2]
        for x in subs(v.a[1]):
            if x.op == "pure" and x.a[0].endswith("Arg::required") and x.a[2] is INT(1) and is_pure(x.a[1], "Arg::with_name") and x.a[1].a[1] is name:
                return True
        return False


def check(ctx):
    inv = invariant(ctx)
    roots = [r for r in methods(ctx.P) + [WRITER + "::write_packet", "<" + WRITER + " as core::io::write::Write>::write"]]
    ctx.jobs([lambda: ctx.run(MAIN, R())]
             + [lambda r=r: ctx.run(r, R(), opts={"prims": {}, "cap": 64, "loopcap": 3}, setup=assume_invariant(inv)) for r in roots])
